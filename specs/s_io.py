"""Reference definitions for C19 and C20: reading rows and cutting them into train and test."""
import random
import numpy as np


def lines(path):
    with open(path) as f:
        return [l.rstrip("\n") for l in f]


def read_guest(csv_address):
    rows = lines(csv_address)
    cells = [r.split(",") for r in rows[1:]]
    return rows[0].split(",")[2:], [c[0] for c in cells], [np.array([float(v) for v in c[2:]]) for c in cells], [c[1] for c in cells]


def read_host(csv_address):
    rows = lines(csv_address)
    cells = [r.split(",") for r in rows[1:]]
    return rows[0].split(",")[1:], [c[0] for c in cells], [np.array([float(v) for v in c[1:]]) for c in cells]


def split(full_list, ratio, shuffle, random_seed):
    n = int(len(full_list) * ratio)
    if len(full_list) == 0 or n < 1:
        return [], full_list
    if shuffle:
        if random_seed is not None:
            random.seed(random_seed)
        random.shuffle(full_list)
    return full_list[:n], full_list[n:]


def instance(self, inst_id=None, weight=1.0, features=None, label=None):
    self.inst_id = inst_id
    self.weight = weight
    self.features = features
    self.label = label
