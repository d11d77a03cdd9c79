"""Drivers for the information-flow analysis (C04, C05): one party's run on data that is secret."""
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as Guest
from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost as Host
from federation.transfer_inst import TransferInstGuest, TransferInstHost
import numpy as np


def secret_data():
    dense = Instance(features=np.array([vgg_secret("feature values")]), label=vgg_secret("labels"))
    sparse = Instance(features=SparseVector([0], [vgg_secret("feature values")], 2), label=vgg_secret("labels"))
    t = DTable(False, [dense, sparse])
    t.schema = {"header": ["x0", "x1"], "sid_name": "id"}
    return t


def guest():
    data = secret_data()
    g = Guest()
    g._init_model(g.model_param)
    g.set_transfer_inst(TransferInstGuest(1, 1))
    g.fit(data)
    return g.predict(data)


def host():
    data = secret_data()
    h = Host()
    h._init_model(h.model_param)
    h.set_transfer_inst(TransferInstHost("", 1))
    h.fit(data)
    return h.predict(data)
