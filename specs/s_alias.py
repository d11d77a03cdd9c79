"""Drivers for the points-to analysis (C16, C17): what a caller does with the library."""
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as Guest
from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost as Host
from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as Local
from federation.transfer_inst import TransferInstGuest, TransferInstHost
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
from ml.statistic.statics import MultivariateStatisticalSummary
from ml.utils.classfiy_label_checker import ClassifyLabelChecker, RegressionLabelChecker
from ml.statistic import data_overview
import numpy as np


def caller_data():
    """what belongs to the caller: a table of dense and sparse instances with a header"""
    dense = Instance(features=np.array([1.0, 2.0]), label=1)
    sparse = Instance(features=SparseVector([0], [1.0], 2), label=1)
    t = DTable(False, [dense, sparse])
    t.schema = {"header": ["x0", "x1"], "sid_name": "id"}
    return t


def guest(data):
    g = Guest()
    g._init_model(g.model_param)
    g.set_transfer_inst(TransferInstGuest(1, 1))
    g.fit(data)
    return g.predict(data)


def host(data):
    h = Host()
    h._init_model(h.model_param)
    h.set_transfer_inst(TransferInstHost("", 1))
    h.fit(data)
    return h.predict(data)


def local(data):
    g = Local()
    g._init_model(g.model_param)
    g.fit(data)
    return g.predict(data)


def binning(data):
    b = QuantileBinning(FeatureBinningParam())
    b.fit_split_points(data)
    return b.convert_feature_to_bin(data)


def statistics(data):
    s = MultivariateStatisticalSummary(data)
    s.get_mean()
    s.get_median()
    s.get_quantile_point(0.5)
    return s.get_statics("mean")


def overview(data):
    ClassifyLabelChecker.validate_y(data.mapValues(lambda i: i.label))
    RegressionLabelChecker.validate_y(data.mapValues(lambda i: i.label))
    data_overview.get_features_shape(data)
    data_overview.is_empty_feature(data)
    data_overview.is_sparse_data(data)
    return data_overview.get_header(data)
