"""Reference definitions for C22: replacing feature values by bin indices."""
import copy
from ml.feature.sparse_vector import SparseVector
from ml.statistic import data_overview


def bin_of(value, points):
    r = len(points)
    for i, p in enumerate(points):
        if value <= p:
            r = i
            break
    return r


def bin_of_bisect(value, points):
    import bisect
    return bisect.bisect_left(points, value)


def bin_of_search(value, points):
    import numpy as np
    return int(np.searchsorted(points, value))


def dense(inst, cols, points, header):
    f = copy.copy(inst.features)
    for c, v in enumerate(inst.features):
        if c in cols:
            f[c] = bin_of(v, points[header[c]])
    out = copy.copy(inst)
    out.features = f
    return out


def sparse(inst, cols, points, header):
    d = inst.features.get_all_data()
    ind = []
    val = []
    for c, v in inst.features.get_all_data():
        ind.append(c)
        val.append(bin_of(v, points[header[c]]) if c in cols else v)
    out = copy.copy(inst)
    out.features = SparseVector(ind, val, inst.features.get_shape())
    return out


def zero_bin(self, cols, points):
    return {c: bin_of(0, points[self.header[c]]) for c in cols}


def exported(header, points):
    import numpy as np
    return np.array([np.array(points[c]) for c in header if c in points])


def convert(self, data, transform_cols_idx=-1, split_points=None):
    self._init_cols(data)
    if transform_cols_idx is None:
        return data, None, None
    if transform_cols_idx == -1:
        cols = self.cols_index
    else:
        cols = transform_cols_idx
        assert isinstance(cols, (list, tuple))
        for c in cols:
            if c not in self.cols_index:
                raise RuntimeError("not fitted")
    cols = [int(c) for c in cols]
    points = self.split_points if split_points is None else split_points
    if data_overview.is_sparse_data(data):
        new = data.mapValues(lambda i: sparse(i, cols, points, self.header))
    else:
        new = data.mapValues(lambda i: dense(i, cols, points, self.header))
    new.schema = {"header": self.header}
    return new, exported(self.header, points), zero_bin(self, cols, points)


def init_cols(self, data):
    if len(self.cols_dict) != 0:
        return
    header = data_overview.get_header(data)
    self.header = header
    if self.cols_index == -1:
        self.cols = header
        self.cols_index = list(range(len(header)))
    else:
        for i in self.cols_index:
            if int(i) >= len(header):
                raise ValueError("out of range")
        self.cols = [header[int(i)] for i in self.cols_index]
    self.cols_dict = {c: header.index(c) for c in self.cols}


def is_sparse(data):
    f = data.first()
    if type(f).__name__ in ["ndarray", "list"]:
        return False
    return not type(f.features).__name__ == "ndarray"


def tree_binning(self, data):
    from ml.feature.binning.quantile_binning import QuantileBinning
    from ml.param.feature_binning_param import FeatureBinningParam
    b = QuantileBinning(FeatureBinningParam(bin_num=self.bin_num))
    b.fit_split_points(data)
    self.data_bin, self.bin_split_points, self.bin_sparse_points = b.convert_feature_to_bin(data)


def header(data):
    return data.schema.get("header")


def merged(a, b):
    if a is None:
        return b
    if b is None:
        return a
    for c, x in a.items():
        x.merge(b.get(c))
    return {c: x for c, x in a.items()}


def insert_datas(data_instances, summary_dict, cols_dict, header, is_sparse):
    for _, inst in data_instances:
        if is_sparse:
            for c, v in inst.features.get_all_data():
                summary_dict[header[c]].insert(v)
        else:
            for name, s in summary_dict.items():
                s.insert((inst.features if type(inst).__name__ == "Instance" else inst)[cols_dict[name]])
