"""Reference definitions for C18: a table is a mapping from unique keys to values."""
from computing.d_table import DTable


def init(self, include_key, data):
    if data is None:
        self._DTable__data = {}
        return
    if not isinstance(include_key, bool):
        raise TypeError('')
    if not isinstance(data, list):
        raise TypeError('')
    d = {}
    if include_key == True:
        for item in data:
            if not (isinstance(item, tuple) and len(item) == 2):
                raise TypeError('')
            if item[0] in d:
                raise ValueError('')
            d[item[0]] = item[1]
    else:
        for i in range(len(data)):
            d[i] = data[i]
    self._DTable__data = d


def collect(self):
    return self._DTable__data.items()


def keys(self):
    return self._DTable__data.keys()


def values(self):
    return self._DTable__data.values()


def count(self):
    return len(self._DTable__data)


def take(self, n):
    return list(self._DTable__data.items())[:n]


def take_loop(self, n):
    out = []
    for i, kv in enumerate(self._DTable__data.items()):
        if i >= n:
            break
        out.append(kv)
    return out


def first(self):
    if len(self._DTable__data) == 0:
        return None
    return list(self._DTable__data.values())[0]


def map_(self, func):
    return DTable(True, [(k, func(k, v)) for k, v in self._DTable__data.items()])


def mapValues(self, func):
    return DTable(True, [(k, func(v)) for k, v in self._DTable__data.items()])


def mapPartitions(self, func):
    return DTable(False, func(self._DTable__data.items()))


def mapReducePartitions(self, mapper, reducer):
    d = {}
    for k, v in mapper(self._DTable__data.items()):
        d[k] = reducer(d[k], v) if k in d else v
    return DTable(True, list(d.items()))


def reduce(self, func):
    r = None
    for v in self._DTable__data.values():
        r = v if r is None else func(r, v)
    return r


def filter_(self, func):
    return DTable(True, [(k, v) for k, v in self._DTable__data.items() if func(k, v) == True])


def filter_truthy(self, func):
    return DTable(True, [(k, v) for k, v in self._DTable__data.items() if func(k, v)])


def join(self, other, func):
    d = self._DTable__data
    return DTable(True, [(k, func(d[k], v)) for k, v in other._DTable__data.items() if k in d])


def join_own_order(self, other, func):
    d = other._DTable__data
    return DTable(True, [(k, func(v, d[k])) for k, v in self._DTable__data.items() if k in d])


def union(self, other, func):
    d = dict(self._DTable__data)
    for k, v in other._DTable__data.items():
        d[k] = func(d[k], v) if k in d else v
    return DTable(True, list(d.items()))


def subtractByKey(self, other):
    e = other._DTable__data
    return DTable(True, [(k, v) for k, v in self._DTable__data.items() if k not in e])


def left(v1, v2):
    return v1


def union_update(self, other, func):
    a = self._DTable__data
    d = dict(a)
    d.update({k: (func(a[k], v) if k in a else v) for k, v in other._DTable__data.items()})
    return DTable(True, list(d.items()))
