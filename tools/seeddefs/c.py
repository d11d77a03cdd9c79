SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c21-falsy-config", prop="C21", edits=[("ml/utils/param_extract.py", "                if variable in config_json:\n                    option = config_json[variable]\n", "                option = config_json.get(variable)\n                if option:\n")],
  needs="a configuration that sets a field to 0, False or an empty value", breaks="such a value is ignored, so the default is trained with instead of the value being rejected or used",
  demo="""
from kit import *
from ml.utils.param_extract import ParamExtract
from ml.param.boosting_tree_param import BoostingTreeParam
def read(**c): return ParamExtract().parse_param_from_config(BoostingTreeParam(), {"BoostingTreeParam": c})
assert read(num_trees=7).num_trees == 7
assert read(n_iter_no_change=False).n_iter_no_change is False
p = read(num_trees=0)
try:
    p.check()
except ValueError:
    pass
else:
    raise AssertionError("0 trees accepted")
""")
S(id="c29-elif-eval", prop="C29", edits=[("ml/model_base.py", "            if data_sets[data_key].get(\"eval_data\", None):", "            elif data_sets[data_key].get(\"eval_data\", None):")],
  needs="one data set that holds both the training and the evaluation table", breaks="the evaluation table is dropped, so its rows are never predicted",
  demo="""
from kit import *
from computing.d_table import DTable
from ml.model_base import ModelBase
def t(ids):
    x = DTable(True, [(i, [i]) for i in ids]); x.schema = {"header": ["a"]}; return x
class M(ModelBase):
    def fit(self, d): self.seen = d
    def predict(self, d): return d.mapValues(lambda v: [0, v[0], 0, {}])
for sets in ({"a": {"train_data": t([1, 2])}, "b": {"eval_data": t([3])}}, {"a": {"train_data": t([1, 2]), "eval_data": t([3])}}):
    m = M(); m.need_run = True
    m._run_data(sets)
    got = {k: v[-1] for k, v in m.data_output.collect()}
    assert got == {1: "train", 2: "train", 3: "validation"}, got
""")
S(id="c15-load-twice", prop="C15", edits=[("ml/tree/hetero_decision_tree_host.py", "        self.tree_ = []\n        for node_param in model_param.tree_:\n", "        if self.tree_ is None:\n            self.tree_ = []\n        for node_param in model_param.tree_:\n")],
  needs="loading a tree into an object that already holds one", breaks="the loaded nodes are appended behind the old ones, so node ids no longer name the loaded nodes",
  demo="""
from kit import *
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as H
from ml.param.boosting_tree_param import DecisionTreeParam
from ml.tree.node import Node
def tree(n):
    h = H(DecisionTreeParam())
    h.tree_ = [Node(id=i, sitename="host", fid=i, bid=0, weight=float(n), is_leaf=False, left_nodeid=-1, right_nodeid=-1) for i in range(n)]
    return h
a, b = tree(3), tree(2)
c = H(DecisionTreeParam())
for x in (a, b):
    c.load_model(x.get_model_meta(), x.get_model_param())
    assert [(n.id, n.weight) for n in c.tree_] == [(n.id, n.weight) for n in x.tree_], len(c.tree_)
""")
S(id="c20-blank-cell", prop="C20", edits=[("i_o/utils.py", "        lables.append(vals.pop(lable_pos))\n        ids.append(vals.pop(id_pos))\n        vals = [float(val) for val in vals]\n", "        lables.append(vals.pop(lable_pos))\n        ids.append(vals.pop(id_pos))\n        vals = [float(val) for val in vals if val.strip()]\n")],
  needs="a row with an empty cell", breaks="the empty cell is left out, which shifts the row's later features by one column",
  demo="""
import os, tempfile
from i_o.utils import read_from_csv_with_lable as rd
d = tempfile.mkdtemp(); p = os.path.join(d, "a.csv")
open(p, "w").write("id,y,a,b,c\\n1,0,1.5,2.5,3.5\\n")
h, i, f, l = rd(p)
assert h == ["a", "b", "c"] and i == ["1"] and l == ["0"] and [list(x) for x in f] == [[1.5, 2.5, 3.5]]
open(p, "w").write("id,y,a,b,c\\n1,0,1.5,,3.5\\n")
try:
    h, i, f, l = rd(p)
except ValueError:
    pass
else:
    assert len(f[0]) == 3, f
os.remove(p); os.rmdir(d)
""")
S(id="c24-elif-min", prop="C24", edits=[("ml/statistic/statics.py", "            self.max_value = value\n        if value < self.min_value:\n            self.min_value = value\n", "            self.max_value = value\n        elif value < self.min_value:\n            self.min_value = value\n")],
  needs="a column whose values only grow", breaks="the smallest value is never recorded when every value is a new maximum",
  demo="""
from kit import *
from ml.statistic.statics import SummaryStatistics as S
for v in ([3, 1, 2], [5, 4], [1, 2, 3], [7]):
    s = S()
    for x in v: s.add_value(x)
    assert (s.min_value, s.max_value, s.count) == (min(v), max(v), len(v)), (v, s.min_value)
""")
S(id="c25-rising-loss", prop="C25", edits=[("ml/optim/convergence.py", "        elif abs(self.pre_loss - loss) < self.eps:\n", "        elif self.pre_loss - loss < self.eps:\n")],
  needs="a loss that rises from one round to the next", breaks="training stops as soon as the loss rises, however much it changed",
  demo="""
from kit import *
from ml.optim.convergence import DiffConverge
c = DiffConverge(eps=.01)
got = [c.is_converge(x) for x in (3., 2., 2.5, 1., 1.001, 5.)]
assert got == [False, False, False, False, True, False], got
""")
S(id="c03-host-rounds", prop="C03", edits=[("ml/tree/hetero_secureboosting_tree_host.py", "        rounds = len(self.trees_) // self.tree_dim\n", "        rounds = self.num_trees\n")],
  needs="prediction after training stopped early", breaks="the host predicts as many rounds as configured although fewer were trained, and fails or waits for a guest that is done",
  demo="""
from kit import *
import numpy as np
def setup(p):
    p.num_trees = 3
for stop in (False, True):
    def s(p):
        setup(p); p.n_iter_no_change = stop; p.tol = 1e9 if stop else 1e-9
    rng = np.random.RandomState(0)
    X = rng.rand(60, 4); y = [int(a[0] + a[2] > 1) for a in X]; H = X[:, 2:]; X = X[:, :2]
    g, hs, link = parties(1, s)
    together(lambda: g.fit(table(X, y)), lambda: hs[0].fit(table(H)))
    together(lambda: g.predict(table(X, y)), lambda: hs[0].predict(table(H)))
""")
S(id="c11-kept-mask", prop="C11", edits=[("ml/tree/hetero_secureboosting_tree_host.py", "        valid_features = [False for i in range(self.feature_num)]\n        for fid in choose_feature:\n            valid_features[fid] = True\n        return valid_features\n",
    "        if not hasattr(self, \"valid_features\"):\n            self.valid_features = [False for i in range(self.feature_num)]\n        for fid in choose_feature:\n            self.valid_features[fid] = True\n        return self.valid_features\n")],
  needs="feature sampling below 1 and more than one tree", breaks="features drawn for earlier trees stay selected, so unselected features offer splits",
  demo="""
from kit import *
import numpy as np
from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost as H
h = H(); h.subsample_feature_rate = .3; h.bin_split_points = np.zeros((10, 2)); h.feature_num = None
for k in range(8):
    m = h.sample_valid_features()
    assert len(m) == 10 and sum(bool(x) for x in m) == 3, (k, m)
""")
S(id="c07-key-mix", prop="C07", edits=[("ml/secureprotol/fate_paillier.py", "        if self.public_key != other.public_key:\n            raise ValueError(\"add two numbers have different public key!\")\n\n        # their exponents must match, and align.\n        x, y = self.__align_exponent(self, other)\n\n        encryptednumber = self.__raw_add(x.ciphertext(False), y",
    "        # their exponents must match, and align.\n        x, y = self.__align_exponent(self, other)\n        if x is self and self.public_key != other.public_key:\n            raise ValueError(\"add two numbers have different public key!\")\n\n        encryptednumber = self.__raw_add(x.ciphertext(False), y")],
  needs="ciphertexts of different keys, the left one with the smaller exponent", breaks="ciphertexts of different keys are combined instead of refused",
  demo="""
from kit import *
from ml.secureprotol.fate_paillier import PaillierKeypair as K
a, _ = K.generate_keypair(256); b, _ = K.generate_keypair(256)
x, y = a.encrypt(3), b.encrypt(.1)
lo, hi = sorted([a.encrypt(3), a.encrypt(.1)], key=lambda v: v.exponent)
other = b.encrypt(3)
for p, q in ((lo, other.increase_exponent_to(40)), (lo.increase_exponent_to(40), other), (other, hi.increase_exponent_to(40)), (a.encrypt(1), b.encrypt(1))):
    try:
        p + q
    except ValueError:
        continue
    raise AssertionError("combined ciphertexts of different keys")
""")
TREE = """
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as G
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as H
from ml.param.boosting_tree_param import DecisionTreeParam
from ml.tree.node import Node
"""
S(id="c13-depth-bound", prop="C13", edits=[("ml/tree/hetero_decision_tree_guest.py", "            if unleaf_node_count == 0:\n                self.sync_predict_finish_tag(True, site_host_send_times)", "            if unleaf_node_count == 0 or site_host_send_times > self.max_depth // 3:\n                self.sync_predict_finish_tag(True, site_host_send_times)")],
  needs="a path that alternates between the host and the guest at every level", breaks="prediction ends while samples are still on their way, and these get no leaf weight",
  demo=TREE + """
p = DecisionTreeParam(); p.max_depth = 8
def nodes():
    out = []
    for d in range(8):
        out.append(Node(id=2 * d, sitename="guest" if d % 2 else "host.0", fid=0, bid=0.5 if d % 2 else None, left_nodeid=2 * d + 1, right_nodeid=2 * d + 2, weight=float(d)))
        out.append(Node(id=2 * d + 1, sitename="guest", weight=100.0 + d, is_leaf=True))
    out.append(Node(id=16, sitename="guest", weight=200.0, is_leaf=True))
    return out
g, h = G(p), H(p)
link = GuestLink(1); g.transfer_inst = link; h.transfer_inst = HostLink(link, 0)
g.tree_, h.tree_ = nodes(), nodes()
g.split_maskdict, h.split_maskdict = {2 * d: .5 for d in range(1, 8, 2)}, {2 * d: .5 for d in range(0, 8, 2)}
for n in g.tree_ + h.tree_:
    n.bid = None
h.set_runtime_idx(0)
X = [[1.0]] * 3 + [[0.0]]
from ml.tree.boosting_tree import BoostingTree
t = lambda: BoostingTree().data_format_transform
def rows():
    from ml.feature.instance import Instance
    from ml.feature.sparse_vector import SparseVector
    from computing.d_table import DTable
    return DTable(True, [(i, Instance(features=SparseVector([0], list(x), 1))) for i, x in enumerate(X)])
r = together(lambda: g.predict(rows()), lambda: h.predict(rows()))[0]
assert dict(r.collect()) == {0: 200.0, 1: 200.0, 2: 200.0, 3: 100.0}, dict(r.collect())
""")
S(id="c16-class-gradients", prop="C16", edits=[("ml/tree/hetero_secureboosting_tree_guest.py", "            self.compute_grad_and_hess()\n            for tidx in range(self.tree_dim):\n                tree_inst = HeteroDecisionTreeGuest(self.tree_param)\n", "            for tidx in range(self.tree_dim):\n                self.compute_grad_and_hess()\n                tree_inst = HeteroDecisionTreeGuest(self.tree_param)\n")],
  needs="more than two classes", breaks="gradients of the second and later classes of a round already contain the round's earlier trees",
  demo="""
from kit import *
import ml.tree.hetero_secureboosting_tree_guest as m
r = np.random.RandomState(0)
X = r.rand(45, 2); y = [int(3 * a[0]) for a in X]
g_, h_, l = parties(1)
h_[0].fit = None
seen = []
class Tree:
    def __init__(self, p): self.predict_weights = None
    def set_inputinfo(self, data, gh, p, z): self.gh = gh; seen.append(dict(gh.collect()))
    def fit(self): self.predict_weights = self.gh.mapValues(lambda v: 1.0)
    def get_model(self): return (None, None)
    def get_feature_importance(self): return {}
    def __getattr__(self, n): return lambda *a, **k: None
m.HeteroDecisionTreeGuest = Tree
g_.convert_feature_to_bin(table(X, y)); bins = (g_.data_bin, g_.bin_split_points, g_.bin_sparse_points)
g_.fit(table(X, y))
# one sample of class 2: p2 before the round is 1/3 for every class
k = y.index(2)
a = [s[k][0] for s in seen[:3]]
assert abs(a[0] - a[1]) < 1e-9, a
""")
S(id="c23-rounded-argmax", prop="C23", edits=[("ml/tree/hetero_secureboosting_tree_guest.py", "[inst.label, classes_[np.argmax(preds)], np.max(preds)", "[inst.label, classes_[np.argmax(np.round(preds, 2))], np.max(preds)")],
  needs="two classes whose probabilities agree to two digits, the later one larger", breaks="the predicted class is not the one of greatest probability",
  demo="""
from kit import *
from ml.loss.cross_entropy import SoftmaxCrossEntropyLoss
g_, h_, l = parties(1)
for F, w in (([.1, .2, .9], 30), ([.500, .501, .1], 20)):
    g_.loss = SoftmaxCrossEntropyLoss(); g_.classes_ = [10, 20, 30]; g_.num_classes = 3; g_.tree_dim = 3; g_.trees_ = []
    g_.init_score = np.array(F)
    out = dict(g_.predict(table([[1., 2.]], [20])).collect())[0]
    assert out[1] == w, out
""")
S(id="c10-empty-row", prop="C10", edits=[("ml/tree/feateur_histogram.py", "            nid = node_map.get(node_ids[rid])\n            zero_opt_node_sum[nid][0]", "            nid = node_map.get(node_ids[rid])\n            if len(data_bins[rid].features.sparse_vec) == 0:\n                continue\n            zero_opt_node_sum[nid][0]")],
  needs="a row all of whose features are absent", breaks="rows without any stored value are left out of the zero bins",
  demo="""
from kit import *
from computing.d_table import DTable
from ml.tree.feateur_histogram import FeatureHistogram as F
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
for second, w in ((SparseVector([1], [0], 2), [[.5, 1.0, 1], [.25, .5, 1]]), (SparseVector([], [], 2), [[.5, 1.0, 1], [.25, .5, 1]])):
    rows = [(Instance(features=SparseVector([0, 1], [0, 1], 2)), (1, 0)), (Instance(features=second), (1, 0))]
    h = F.calculate_histogram(DTable(False, rows), DTable(False, [(0.5, 1.0), (0.25, 0.5)]), np.array([np.array([.5]), np.array([.5])]), {0: 1, 1: 0}, [True, True], {0: 0})
    assert h[0][0] == w, h
""")
S(id="c12-round-threshold", prop="C12", edits=[("ml/tree/hetero_decision_tree_host.py", "self.encode(\"feature_val\", self.bin_split_points[fid][bid], self.tree_[i].id)", "self.encode(\"feature_val\", round(float(self.bin_split_points[fid][bid]), 6), self.tree_[i].id)")],
  needs="a threshold with more than six digits and a sample on it", breaks="the host stores a rounded threshold, so a sample on the threshold leaves to another side in prediction than in training",
  demo=TREE + """
p = DecisionTreeParam()
for v in (.5, 1 / 3, 2 / 3, 1e-9):
    h = H(p); h.set_runtime_idx(0)
    h.split_maskdict = {0: 0}
    h.bin_split_points = np.array([[v, 2.0]])
    h.tree_ = [Node(id=0, sitename=h.sitename, fid=0, bid=None, left_nodeid=1, right_nodeid=2)]
    h.convert_bin_to_real()
    assert h.split_maskdict[0] == v, (v, h.split_maskdict)
""")
S(id="c22-column-order", prop="C22", edits=[("ml/feature/binning/base_binning.py", "        for idx, col_name in enumerate(self.header):\n", "        for idx, col_name in enumerate(self.cols_dict):\n")],
  needs="columns selected in another order than the header's", breaks="the exported split points are not in column order",
  demo="""
from kit import *
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
X = [[i, 10 * i, 100 * i] for i in range(1, 13)]
for cols in (-1, [0, 1, 2], [2, 0, 1]):
    b = QuantileBinning(FeatureBinningParam(bin_num=3, cols=cols))
    t = table(X)
    sp = b.fit_split_points(t)
    _, out, _ = b.convert_feature_to_bin(t)
    assert [list(x) for x in out] == [list(sp[c]) for c in ("x0", "x1", "x2")], cols
""")
