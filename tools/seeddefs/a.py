SEEDS = []
def S(**k): SEEDS.append(k)
S(id="c09-huber-hess", prop="C09", edits=[("ml/loss/regression_loss.py", "return 1.0 / (1.0 + diff * diff / (self.delta ** 2)) ** 1.5", "return 1.0 / np.sqrt(1.0 + diff * diff / (self.delta ** 2))")],
  needs="a Huber residual that is not small against delta", breaks="the Huber hessian is the weight grad/diff instead of the second derivative",
  demo="""
from ml.loss.regression_loss import HuberLoss
h = HuberLoss(1.5)
for y, p in [(0.0, 2.0), (1.0, -3.0), (0.5, 0.5)]:
    e = 1e-5
    num = (h.compute_grad(y, p + e) - h.compute_grad(y, p - e)) / (2 * e)
    assert abs(num - h.compute_hess(y, p)) < 1e-4, (y, p, num, h.compute_hess(y, p))
""")
S(id="c09-sigmoid-overflow", prop="C09", edits=[("ml/optim/activation.py", "    if x <= 0:\n        a = np.exp(x)\n        a /= (1. + a)\n    else:\n        a = 1. / (1. + np.exp(-x))\n    return a\n\n\ndef softplus", "    if x <= 0:\n        a = 1. / (1. + np.exp(-x))\n    else:\n        a = np.exp(x)\n        a /= (1. + a)\n    return a\n\n\ndef softplus")],
  needs="a score beyond about 710 in magnitude", breaks="the stable halves of the sigmoid are swapped, so large scores overflow to nan",
  demo="""
from ml.loss.cross_entropy import SigmoidBinaryCrossEntropyLoss as L
for v, w in [(0.3, 1 / (1 + math.exp(-0.3))), (-0.3, 1 / (1 + math.exp(0.3))), (800.0, 1.0), (-800.0, 0.0)]:
    with np.errstate(all="ignore"):
        assert abs(L.predict(np.float64(v)) - w) < 1e-12, (v, L.predict(np.float64(v)))
""")
S(id="c09-fair-mean", prop="C09", edits=[("ml/loss/regression_loss.py", "        fair_loss_sum, sample_num = fair_loss.reduce(\n            lambda tuple1, tuple2: (tuple1[0] + tuple2[0], tuple1[1] + tuple2[1]))\n        return fair_loss_sum / sample_num", "        fair_loss_sum, sample_num = fair_loss.reduce(\n            lambda tuple1, tuple2: (tuple1[0] + tuple2[0], tuple1[1] + 1))\n        sample_num = min(sample_num, 1000)\n        return fair_loss_sum / sample_num")],
  needs="more than a thousand samples", breaks="the fair loss of more than a thousand samples is not their mean",
  demo="""
from computing.d_table import DTable
from ml.loss.regression_loss import FairLoss
n = 1003
f = FairLoss(1.0)
t = DTable(False, [0.0] * n); p = DTable(False, [2.0] * n)
one = 1.0 * 2 - math.log(3)
assert abs(f.compute_loss(t, p) - one) < 1e-9
assert abs(f.compute_loss(DTable(False, [0.0] * 3), DTable(False, [2.0] * 3)) - one) < 1e-9
""")
S(id="c11-host-minleaf", prop="C11", edits=[("ml/tree/splitter.py", "                node_cnt_r = node_cnt - node_cnt_l\n\n                if node_cnt_l >= self.min_leaf_node and node_cnt_r >= self.min_leaf_node:\n                    splitinfo = SplitInfo(sitename=sitename, best_fid=fid,", "                node_cnt_r = node_cnt - node_cnt_l\n\n                if node_cnt_l >= self.min_leaf_node and node_cnt_r > 0:\n                    splitinfo = SplitInfo(sitename=sitename, best_fid=fid,")],
  needs="min_leaf_node above 1 and a host split whose right side is small", breaks="hosts offer splits whose right child is below the minimum leaf count",
  demo="""
from ml.tree.splitter import Splitter
s = Splitter("xgboost", [0.1], min_leaf_node=3)
h = [[[1.0, 1.0, 3], [2.0, 2.0, 5], [4.0, 3.0, 8], [5.0, 4.0, 9]]]
infos, gh = s.find_split_single_histogram_host(h, [True], "host_0")
assert [i.best_bid for i in infos] == [0, 1], [i.best_bid for i in infos]
""")
S(id="c11-second-host", prop="C11", edits=[("ml/tree/hetero_decision_tree_guest.py", "            if gain > self.min_impurity_split and gain > best_gain:\n                best_gain = gain\n                best_idx = i\n", "            if gain > self.min_impurity_split and gain - best_gain > consts.FLOAT_ZERO * 1e3:\n                best_gain = gain\n                best_idx = i\n")],
  needs="two host candidates whose gains differ by less than 1e-3, the better one later", breaks="the guest keeps a host candidate that is not the one of greatest gain",
  demo="""
from ml.param.boosting_tree_param import DecisionTreeParam
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
from ml.tree.node import Node
t = T(DecisionTreeParam())
t.decrypt = t.encrypt = lambda v: v
n = Node(id=0, sum_grad=0.0, sum_hess=10.0)
c = [(2.0, 5.0), (2.0001, 5.0), (1.0, 5.0)]
idx, gain = t.find_host_split((n, c))[:2]
assert idx == 1, idx
""")
S(id="c16-shared-init", prop="C16", edits=[("ml/tree/hetero_secureboosting_tree_guest.py", "lambda v: copy.deepcopy(init_score))", "lambda v: copy.copy([init_score])[0])")],
  needs="predicting two or more samples", breaks="all samples of a prediction share one score array, so each gets the sum of all leaf weights",
  demo="""
r = np.random.RandomState(0)
X = r.rand(40, 4); y = [int(a) for a in (X[:, 0] > .5)]
gt, ht = table(X[:, :2], y), table(X[:, 2:])
g_, h_, l = parties(1)
together(lambda: g_.fit(gt), lambda: h_[0].fit(ht))
fit = {k: float(v[0]) for k, v in g_.F.collect()}
together(lambda: g_.predict(gt), lambda: h_[0].predict(ht))
got = {k: float(v[0]) for k, v in g_.F.collect()}
assert all(abs(fit[k] - got[k]) < 1e-9 for k in fit)
""")
S(id="c16-tree-order", prop="C16", edits=[("ml/tree/hetero_secureboosting_tree_guest.py", "tree_inst.load_model(self.tree_meta, self.trees_[i * self.tree_dim + tidx])", "tree_inst.load_model(self.tree_meta, self.trees_[tidx * rounds + i])"),
   ("ml/tree/hetero_secureboosting_tree_host.py", "tree_inst.load_model(self.tree_meta, self.trees_[i * self.tree_dim + tidx])", "tree_inst.load_model(self.tree_meta, self.trees_[tidx * rounds + i])")],
  needs="three or more classes and at least two rounds; both parties agree so nothing fails", breaks="prediction reads the trees class-major although they were stored round-major, mixing the trees of classes",
  demo="""
r = np.random.RandomState(0)
X = r.rand(60, 4); y = [int(a * 3) for a in X[:, 0]]
gt, ht = table(X[:, :2], y), table(X[:, 2:])
g_, h_, l = parties(1)
together(lambda: g_.fit(gt), lambda: h_[0].fit(ht))
fit = {k: v.tolist() for k, v in g_.F.collect()}
together(lambda: g_.predict(gt), lambda: h_[0].predict(ht))
got = {k: v.tolist() for k, v in g_.F.collect()}
assert all(np.allclose(fit[k], got[k]) for k in fit)
""")
S(id="c23-unsorted-classes", prop="C23", edits=[("ml/tree/hetero_secureboosting_tree_guest.py", "            self.classes_ = sorted(self.classes_)\n            if not range_from_zero:\n                class_mapping = dict(zip(self.classes_, range(self.num_classes)))", "            self.classes_ = list(self.classes_)\n            if not range_from_zero:\n                class_mapping = dict(zip(sorted(self.classes_), range(self.num_classes)))")],
  needs="labels whose order of first appearance is not sorted", breaks="predicted class indices are translated with the unsorted class list",
  demo="""
r = np.random.RandomState(0)
X = r.rand(40, 4); y = [9 if a > .5 else 4 for a in X[:, 0]]
if y[0] == 4: X = X[::-1].copy(); y = y[::-1]
if y[0] == 4: X = np.roll(X, -y.index(9), axis=0); y = y[y.index(9):] + y[:y.index(9)]
gt, ht = table(X[:, :2], y), table(X[:, 2:])
g_, h_, l = parties(1)
together(lambda: g_.fit(gt), lambda: h_[0].fit(ht))
res = together(lambda: g_.predict(gt), lambda: h_[0].predict(ht))[0]
acc = sum(v[0] == v[1] for _, v in res.collect()) / 40
assert acc > 0.6, acc
""")
S(id="c23-threshold", prop="C23", edits=[("xgboost/hetero_secureboosting_tree_guest.py", "[inst.label, classes_[1] if pred > threshold else classes_[0], pred, {\"0\": 1 - pred, \"1\": pred}]", "[inst.label, classes_[int(pred > 1 - threshold)], pred, {\"0\": 1 - pred, \"1\": pred}]")],
  needs="a prediction threshold other than 0.5", breaks="the stand-alone booster compares the probability with one minus the threshold",
  demo="""
from computing.d_table import DTable
g_, h_, l = parties(1, xgb=True)
X = [[0.0, 1.0]] * 3
t = table(X, [0, 1, 1])
def fake(d):
    g_.F = DTable(False, [np.array([-1.5]), np.array([0.3]), np.array([1.5])])
g_.predict_f_value = fake
g_.num_classes, g_.classes_ = 2, [0, 1]
from ml.loss.cross_entropy import SigmoidBinaryCrossEntropyLoss as L
g_.loss = L()
g_.predict_param.threshold = 0.7
assert [v[1] for _, v in g_.predict(t).collect()] == [0, 0, 1], g_.predict(t)
""")
S(id="c25-preloss", prop="C25", edits=[("ml/optim/convergence.py", "        elif abs(self.pre_loss - loss) < self.eps:\n            converge_flag = True\n        self.pre_loss = loss\n        return converge_flag", "        elif abs(self.pre_loss - loss) < self.eps:\n            converge_flag = True\n        if self.pre_loss is None or loss < self.pre_loss:\n            self.pre_loss = loss\n        return converge_flag")],
  needs="a loss that rises in some round", breaks="the change is measured against the best loss so far instead of the previous round's",
  demo="""
from ml.optim.convergence import DiffConverge
d = DiffConverge(eps=0.01)
assert [d.is_converge(v) for v in (1.0, 0.5, 0.7, 0.701)] == [False, False, False, True]
""")
S(id="c25-record", prop="C25", edits=[("ml/tree/hetero_secureboosting_tree_guest.py", "            loss = self.compute_loss()\n            self.history_loss.append(loss)\n", "            loss = self.compute_loss()\n"), ("ml/tree/hetero_secureboosting_tree_guest.py", "                else:\n                    self.sync_stop_flag(False, i)\n\n            self.logger.debug(\"history loss is {}\".format(min(self.history_loss)))", "                else:\n                    self.sync_stop_flag(False, i)\n\n            self.history_loss.append(loss)\n            self.logger.debug(\"history loss is {}\".format(min(self.history_loss)))")],
  needs="a run that stops early", breaks="the loss of the round in which training stops is not recorded",
  demo="""
r = np.random.RandomState(0)
X = r.rand(30, 4); y = [int(a) for a in (X[:, 0] > .5)]
gt, ht = table(X[:, :2], y), table(X[:, 2:])
def setup(p):
    p.num_trees = 4; p.n_iter_no_change = True; p.tol = 1e9
g_, h_, l = parties(1, setup)
together(lambda: g_.fit(gt), lambda: h_[0].fit(ht))
assert len(g_.trees_) == 2 and len(g_.history_loss) == 2, (len(g_.trees_), g_.history_loss)
""")
