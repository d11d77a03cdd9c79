"""Reference definitions for C11: admissible candidates and the gain."""
from ml.tree.node import SplitInfo
from ml.tree.creterion import XgboostCriterion
from ml.utils import consts


def node_gain(self, sum_grad, sum_hess):
    return sum_grad ** 2 / (sum_hess + self.reg_lambda)


def node_weight(self, sum_grad, sum_hess):
    return -(sum_grad / (sum_hess + self.reg_lambda))


def split_gain(self, node_sum, left_node_sum, right_node_sum):
    lam = self.reg_lambda
    return left_node_sum[0] ** 2 / (left_node_sum[1] + lam) + right_node_sum[0] ** 2 / (right_node_sum[1] + lam) \
        - node_sum[0] ** 2 / (node_sum[1] + lam)


def guest_split(self, histogram, valid_features):
    fid_, bid_, gl_, hl_ = None, None, None, None
    best = self.min_impurity_split - consts.FLOAT_ZERO
    for fid, h in enumerate(histogram):
        if valid_features[fid] is False or len(h) == 0:
            continue
        g, hs, n = h[-1][0], h[-1][1], h[-1][2]
        if n < self.min_sample_split:
            break
        for bid, b in enumerate(h):
            if b[2] >= self.min_leaf_node and n - b[2] >= self.min_leaf_node:
                gain = self.criterion.split_gain([g, hs], [b[0], b[1]], [g - b[0], hs - b[1]])
                if gain > self.min_impurity_split and gain > best:
                    best, fid_, bid_, gl_, hl_ = gain, fid, bid, b[0], b[1]
    return SplitInfo(sitename="guest", best_fid=fid_, best_bid=bid_, gain=best, sum_grad=gl_, sum_hess=hl_)


def host_split(self, histogram, valid_features, sitename):
    infos, sums = [], []
    for fid, h in enumerate(histogram):
        if valid_features[fid] is False or len(h) == 0:
            continue
        n = h[-1][2]
        if n < self.min_sample_split:
            break
        for bid, b in enumerate(h):
            if b[2] >= self.min_leaf_node and n - b[2] >= self.min_leaf_node:
                infos.append(SplitInfo(sitename=sitename, best_fid=fid, best_bid=bid, sum_grad=b[0], sum_hess=b[1]))
                sums.append((b[0], b[1]))
    return infos, sums


def s_node_weight(self, g, h):
    return -(g / (h + self.criterion.reg_lambda))


def s_node_gain(self, g, h):
    return g ** 2 / (h + self.criterion.reg_lambda)


def s_split_gain(self, g, h, gl, hl, gr, hr):
    lam = self.criterion.reg_lambda
    return gl ** 2 / (hl + lam) + gr ** 2 / (hr + lam) - g ** 2 / (h + lam)


def find_split(self, histograms, valid_features):
    return [self.find_split_single_histogram_guest(h, valid_features) for h in histograms]


def find_split_host(self, histograms, valid_features, sitename):
    rs = [self.find_split_single_histogram_host(h, valid_features, sitename) for h in histograms]
    return [r[0] for r in rs], [r[1] for r in rs]


def find_host_split(self, value):
    node, cands = value
    best, idx = self.min_impurity_split - consts.FLOAT_ZERO, -1
    for i, (g, h) in enumerate(cands):
        gl, hl = self.decrypt(g), self.decrypt(h)
        gain = self.splitter.split_gain(node.sum_grad, node.sum_hess, gl, hl, node.sum_grad - gl, node.sum_hess - hl)
        if gain > self.min_impurity_split and gain > best:
            best, idx = gain, i
    return idx, self.encrypt(best)


def best_of(self, infos):
    best, idx = self.decrypt(infos[1].gain), 1
    for i in range(1, len(infos)):
        g = self.decrypt(infos[i].gain)
        if g > best:
            best, idx = g, i
    if infos[0].gain >= best - consts.FLOAT_ZERO:
        return infos[0]
    r = infos[idx]
    r.sum_grad = self.decrypt(r.sum_grad)
    r.sum_hess = self.decrypt(r.sum_hess)
    r.gain = best
    return r


def merge(self, guest, host):
    return [self.find_best_split_guest_and_host([guest[i]] + [host[j][i] for j in range(len(host))]) for i in range(len(guest))]


def init(self, criterion_method, criterion_params, min_impurity_split, min_sample_split, min_leaf_node):
    self.min_impurity_split = min_impurity_split
    self.min_sample_split = min_sample_split
    self.min_leaf_node = min_leaf_node
    if criterion_method == "xgboost":
        self.criterion = XgboostCriterion(criterion_params[0]) if criterion_params else XgboostCriterion()


def sample_features(self):
    from numpy import random
    if self.feature_num is None:
        self.feature_num = self.bin_split_points.shape[0]
    n = self.feature_num
    mask = [False] * n
    for f in random.choice(range(n), max(1, int(self.subsample_feature_rate * n)), replace=False):
        mask[f] = True
    return mask


def sample_features_number(self):
    from numpy import random
    if self.feature_num is None:
        self.feature_num = self.bin_split_points.shape[0]
    n = self.feature_num
    mask = [False] * n
    for f in random.choice(n, max(1, int(self.subsample_feature_rate * n)), replace=False):
        mask[f] = True
    return mask
