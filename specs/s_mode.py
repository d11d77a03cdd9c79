"""Reference definitions for C08: encryption modes."""
import random
import numpy as np
from ml.utils import consts


def fresh_num(self, v):
    return self.encrypter.encrypt(v)


def fresh_tuple(self, row):
    return tuple([self.encrypter.encrypt(v) for v in row])


def fresh_list(self, row):
    return [self.encrypter.encrypt(v) for v in row]


def fresh_array(self, row):
    return np.array([self.encrypter.encrypt(v) for v in row])


def step_num(new, old, enc):
    return enc + (new - old)


def step_tuple(new, old, enc):
    return tuple([e + (n - o) for n, o, e in zip(new, old, enc)])


def diff_list(self, new, old):
    return [n - o for n, o in zip(new, old)]


def diff_array(self, new, old):
    return np.array([n - o for n, o in zip(new, old)])


def plus_list(self, d, enc):
    return [x + e for x, e in zip(d, enc)]


def plus_array(self, d, enc):
    return np.array([x + e for x, e in zip(d, enc)])


def mode(self, data, row, step):
    if self.prev_data is None or self.mode == "strict" or \
            (self.mode == "balance" and random.random() <= self.re_encrypted_rate + consts.FLOAT_ZERO):
        out = data.mapValues(lambda v: row(self, v))
    else:
        out = data.join(self.prev_data, lambda n, o: (n, o)).join(self.prev_encrypted_data, lambda no, e: step(no[0], no[1], e))
    self.prev_data = data
    self.prev_encrypted_data = out
    return out


def encrypt_num(self, data):
    return mode(self, data, fresh_num, step_num)


def encrypt_tuple(self, data):
    return mode(self, data, fresh_tuple, step_tuple)


def new_mode(self, encrypter=None, mode="strict", re_encrypted_rate=1):
    self.encrypter = encrypter
    self.mode = mode
    self.re_encrypted_rate = re_encrypted_rate
    self.prev_data = None
    self.prev_encrypted_data = None
