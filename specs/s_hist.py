"""Reference definitions for C10: histograms."""


def active(kv, node_map):
    out = []
    for _, v in kv:
        (inst, (state, nid)), gh = v
        if state != 0 and nid in node_map:
            out.append((node_map.get(nid), inst, gh[0], gh[1]))
    return out


def template(n, bin_split_points, valid):
    return [[[] if valid is not None and valid[f] is False else [[0, 0, 0] for b in range(bin_split_points[f].shape[0] + 1)]
             for f in range(bin_split_points.shape[0])] for k in range(n)]


def batch(kv, bin_split_points, bin_sparse_points, valid_features, node_map):
    n = len(node_map)
    hist = template(n, bin_split_points, valid_features)
    total = [[0, 0, 0] for k in range(n)]
    seen = [[[0, 0, 0] for f in range(bin_split_points.shape[0])] for k in range(n)]
    for k, inst, g, h in active(kv, node_map):
        total[k][0] += g
        total[k][1] += h
        total[k][2] += 1
        for f, b in inst.features.get_all_data():
            if valid_features is not None and valid_features[f] is False:
                continue
            hist[k][f][b][0] += g
            hist[k][f][b][1] += h
            hist[k][f][b][2] += 1
            seen[k][f][0] += g
            seen[k][f][1] += h
            seen[k][f][2] += 1
    for k in range(n):
        for f in range(bin_split_points.shape[0]):
            if valid_features is not None and valid_features[f] is True:
                z = bin_sparse_points[f]
                for r in range(3):
                    hist[k][f][z][r] += total[k][r] - seen[k][f][r]
    return [hist]


def accumulate(histograms):
    for i in range(len(histograms)):
        for j in range(len(histograms[i])):
            for k in range(1, len(histograms[i][j])):
                for r in range(len(histograms[i][j][k])):
                    histograms[i][j][k][r] = histograms[i][j][k][r] + histograms[i][j][k - 1][r]
    return histograms


def aggregate(h1, h2, node_map=None):
    for i in range(len(h1)):
        for j in range(len(h1[i])):
            for k in range(len(h1[i][j])):
                for r in range(len(h1[i][j][k])):
                    h1[i][j][k][r] = h1[i][j][k][r] + h2[i][j][k][r]
    return h1


def calculate(data_bin, grad_and_hess, bin_split_points, bin_sparse_points, valid_features=None, node_map=None):
    j = data_bin.join(grad_and_hess, lambda d, g: (d, g))
    return j.mapPartitions(lambda kv: batch(kv, bin_split_points, bin_sparse_points, valid_features, node_map)).reduce(lambda a, b: aggregate(a, b))


def get_guest(self, node_map={}):
    from ml.tree.feateur_histogram import FeatureHistogram
    return accumulate(FeatureHistogram.calculate_histogram(self.data_bin_with_node_dispatch, self.grad_and_hess, self.bin_split_points,
                                                           self.bin_sparse_points, self.valid_features, node_map))


def get_host(self, node_map={}):
    from ml.tree.feateur_histogram import FeatureHistogram
    return accumulate(FeatureHistogram.calculate_histogram(self.data_bin_with_position, self.grad_and_hess, self.bin_split_points,
                                                           self.bin_sparse_points, self.valid_features, node_map))
