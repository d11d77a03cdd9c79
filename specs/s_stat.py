"""Reference definitions for C24: statistics of a set of values and of a union of sets."""
import math
from ml.statistic.statics import SummaryStatistics
from ml.feature.quantile_summaries import QuantileSummaries, SparseQuantileSummaries

ZERO = 1e-6


def add_value(self, value):
    if value in self.abnormal_list:
        return
    try:
        value = float(value)
    except TypeError:
        return
    self.count += 1
    self.sum += value
    self.sum_square += value * value
    self.max_value = value if value > self.max_value else self.max_value
    self.min_value = value if value < self.min_value else self.min_value


def add_value_max(self, value):
    if value in self.abnormal_list:
        return
    try:
        value = float(value)
    except TypeError:
        return
    self.count += 1
    self.sum += value
    self.sum_square += value * value
    self.max_value = max(self.max_value, value)
    self.min_value = min(self.min_value, value)


def merge(self, other):
    self.count += other.count
    self.sum += other.sum
    self.sum_square += other.sum_square
    if other.max_value > self.max_value:
        self.max_value = other.max_value
    if other.min_value < self.min_value:
        self.min_value = other.min_value


def merge_max(self, other):
    self.count += other.count
    self.sum += other.sum
    self.sum_square += other.sum_square
    self.max_value = max(self.max_value, other.max_value)
    self.min_value = min(self.min_value, other.min_value)


def mean(self):
    return self.sum / self.count


def variance(self):
    m = self.sum / self.count
    v = self.sum_square / self.count - 2 * self.sum * m / self.count + m * m
    return 0.0 if math.fabs(v) < ZERO else v


def variance_short(self):
    m = self.sum / self.count
    v = self.sum_square / self.count - m * m
    return 0.0 if math.fabs(v) < ZERO else v


def std(self):
    v = self.variance
    return 0.0 if math.fabs(v) < ZERO else math.sqrt(v)


def std_plain(self):
    return math.sqrt(self.variance)


def insert(self, x):
    if x in self.abnormal_list:
        return
    try:
        x = float(x)
    except ValueError:
        return
    self.head_sampled.append(x)
    if len(self.head_sampled) >= self.head_size:
        self._insert_head_buffer()
        if len(self.sampled) >= self.compress_thres:
            self.compress()


def sparse_insert(self, x):
    if x in self.abnormal_list:
        return
    if x < ZERO:
        self.smaller_num += 1
    elif x >= ZERO:
        self.bigger_num += 1
    QuantileSummaries.insert(self, x)


def sparse_insert_total(self, x):
    if x in self.abnormal_list:
        return
    if x < ZERO:
        self.smaller_num += 1
    else:
        self.bigger_num += 1
    QuantileSummaries.insert(self, x)


def sparse_merge(self, other):
    self.smaller_num += other.smaller_num
    self.bigger_num += other.bigger_num
    QuantileSummaries.merge(self, other)


def zero_lower(self):
    return 0.0 if self.smaller_num == 0 else self.smaller_num / self._total_count


def in_partition(data_instances, cols_dict, abnormal_list):
    out = {c: SummaryStatistics(abnormal_list) for c in cols_dict}
    for _, inst in data_instances:
        f = features(inst)
        for c, i in cols_dict.items():
            out[c].add_value(f[i])
    return [out]


def summaries_in_partition(data_instances, cols_dict, abnormal_list):
    out = {c: QuantileSummaries(abnormal_list=abnormal_list) for c in cols_dict}
    for _, inst in data_instances:
        f = features(inst)
        for c, i in cols_dict.items():
            out[c].insert(f[i])
    return [out]


def features(inst):
    from ml.feature.instance import Instance
    return inst.features if isinstance(inst, Instance) else inst


def aggregate(a, b):
    if a is None:
        return b
    if b is None:
        return a
    for c, x in a.items():
        x.merge(b[c])
    return {c: x for c, x in a.items()}


def sums(self):
    from ml.statistic.statics import MultivariateStatisticalSummary as M
    self.summary_statistics = self.data_instances.mapPartitions(lambda d: M.static_in_partition(d, self.cols_dict, self.abnormal_list)).reduce(M.aggregate_statics)
    self.finish_fit_statics = True


def quantiles(self):
    from ml.statistic.statics import MultivariateStatisticalSummary as M
    if self.finish_fit_summaries is True:
        return
    self.quantile_summary_dict = self.data_instances.mapPartitions(lambda d: M.static_summaries_in_partition(d, self.cols_dict, self.abnormal_list)).reduce(M.aggregate_statics)
    self.finish_fit_summaries = True


def approx(data_instances, params, cols_dict, abnormal_list, header, is_sparse):
    from ml.feature.binning.quantile_binning import QuantileBinning
    out = {}
    for c, _ in cols_dict.items():
        if is_sparse:
            out[c] = SparseQuantileSummaries(params.compress_thres, params.head_size, params.error, abnormal_list)
        else:
            out[c] = QuantileSummaries(params.compress_thres, params.head_size, params.error, abnormal_list)
    QuantileBinning.insert_datas(data_instances, out, cols_dict, header, is_sparse)
    for c in out:
        out[c].compress()
    return [out]


def share(self, below):
    """the share of all values, zeros included, up to `below` of them"""
    return below / self._total_count


def zero_upper(self):
    if self.bigger_num == 0:
        return self._total_count
    return (self._total_count - self.bigger_num) / self._total_count


def zero_upper_one(self):
    if self.bigger_num == 0:
        return 1.0
    return (self._total_count - self.bigger_num) / self._total_count


def sparse_query(self, quantile):
    if self.zero_lower_bound <= quantile <= self.zero_upper_bound:
        return 0.0
    return QuantileSummaries.query(self, self._convert_query_percentile(quantile))


def among_nonzero(self, quantile):
    """the quantile that has the same value among the values that are not zero"""
    if self._total_count - self.count == 0:
        return quantile
    if quantile < self.zero_lower_bound:
        return quantile * self._total_count / self.count
    zeros = self.zero_upper_bound - self.zero_lower_bound
    return (quantile - zeros) / (1 - zeros)


def pick(self, cols_dict, data_type):
    """the requested statistic of every requested column that has statistics"""
    if not self.finish_fit_statics:
        self._static_sums()
    out = {}
    for c in (self.cols_dict if cols_dict is None else cols_dict):
        if c in self.cols_dict:
            out[c] = getattr(self.summary_statistics[c], data_type)
    return out


def get_mean(self, cols_dict=None):
    return pick(self, cols_dict, "mean")


def get_variance(self, cols_dict=None):
    return pick(self, cols_dict, "variance")


def get_std_variance(self, cols_dict=None):
    return pick(self, cols_dict, "std_variance")


def get_max(self, cols_dict=None):
    return pick(self, cols_dict, "max_value")


def get_min(self, cols_dict=None):
    return pick(self, cols_dict, "min_value")


def points(self, quantile, cols_dict=None):
    cols = self.cols_dict if cols_dict is None else cols_dict
    self._static_quantile_summaries()
    return {c: self.quantile_summary_dict[c].query(quantile) for c in cols if c in self.quantile_summary_dict}


def median(self, cols_dict=None):
    cols = self.cols_dict if cols_dict is None else cols_dict
    if self.medians is None:
        self.medians = self._get_quantile_median()
    return {c: self.medians[c] for c in cols if c in self.medians}


def init_cols(self, data_instances):
    from ml.statistic import data_overview
    if len(self.cols_dict) != 0:
        return
    header = data_overview.get_header(data_instances)
    self.header = header
    if self.cols_index == -1:
        self.cols = header
        self.cols_index = list(range(len(header)))
    else:
        cols = []
        for i in self.cols_index:
            try:
                i = int(i)
            except ValueError:
                raise ValueError
            if i >= len(header):
                raise ValueError
            cols.append(header[i])
        self.cols = cols
    self.cols_dict = {c: header.index(c) for c in self.cols}


def start(self, abnormal_list=None):
    self.abnormal_list = [] if abnormal_list is None else abnormal_list
    self.sum = self.sum_square = self.count = 0
    self.max_value, self.min_value = -math.inf, math.inf


def quantile_median(self):
    from ml.param.feature_binning_param import FeatureBinningParam
    from ml.feature.binning.quantile_binning import QuantileBinning
    par = FeatureBinningParam(bin_num=2, cols=[self.cols_dict[c] for c in self.cols])
    points = QuantileBinning(par, abnormal_list=self.abnormal_list).fit_split_points(self.data_instances)
    return {c: points[c][0] for c in points}


def new_summary(self, data_instances, cols_index=-1, abnormal_list=None):
    self.finish_fit_statics = False
    self.finish_fit_summaries = False
    self.summary_statistics = {}
    self.quantile_summary_dict = {}
    self.cols_dict = {}
    self.medians = None
    self.data_instances = data_instances
    self.cols_index = cols_index
    self.abnormal_list = [] if abnormal_list is None else abnormal_list
    self._init_cols(data_instances)
