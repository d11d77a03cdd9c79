SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c01-short-send", prop="C01", edits=[("federation/transfer_inst.py", "        cs.sendall(byteStream)\n    \n", "        for start in range(0, length, 1 << 16):\n            cs.send(byteStream[start:start + (1 << 16)])\n    \n")],
  needs="a send that accepts only part of its buffer (a large message on a congested socket)", breaks="the bytes a short send did not take are never sent, so the message is torn",
  demo="""
import socket, pickle
from federation.transfer_inst import TransferInst
class Slow:
    def __init__(self): self.b = b''
    def send(self, x):
        n = min(len(x), 1000); self.b += bytes(x[:n]); return n
    def sendall(self, x): self.b += bytes(x)
    def recv(self, n):
        r, self.b = self.b[:min(n, 777)], self.b[min(n, 777):]; return r
s = Slow()
for o in ("a", list(range(5000)), {"k": 1}):
    TransferInst.send_data(s, o)
for o in ("a", list(range(5000)), {"k": 1}):
    assert TransferInst.recv_data(s) == o
""")
S(id="c02-negative-index", prop="C02", edits=[("federation/transfer_inst.py", "        elif index < len(self.conns) and index >= 0:  # 转发列表中只有一个连接", "        elif index < len(self.conns):  # 转发列表中只有一个连接")],
  needs="an index below -1", breaks="an index below -1 addresses a host from the end instead of raising",
  demo="""
from federation.transfer_inst import TransferInstGuest as G
g = G.__new__(G); g.conns = ["a", "b", "c"]; sent = []
g.send_data = lambda c, d: sent.append((c, d))
g.send_data_to_hosts(1, -1); g.send_data_to_hosts(2, 2)
assert sent == [("a", 1), ("b", 1), ("c", 1), ("c", 2)], sent
for i in (-2, -3, 3):
    try:
        g.send_data_to_hosts(3, i)
    except ValueError:
        continue
    raise AssertionError(i)
assert len(sent) == 4
""")
S(id="c02-ready-order", prop="C02", edits=[("federation/transfer_inst.py", "            data = []\n            for conn in self.conns:\n                data.append(self.recv_data(conn))\n", "            data = []\n            waiting = list(self.conns)\n            while waiting:\n                ready, _, _ = select.select(waiting, [], [])\n                for conn in ready:\n                    data.append(self.recv_data(conn))\n                    waiting.remove(conn)\n"),
    ("federation/transfer_inst.py", "import pickle\n", "import pickle\nimport select\n")],
  needs="two hosts, the later one answering first", breaks="the answers of all hosts come back in arrival order, so a split is credited to the wrong host",
  demo="""
import socket, time
from federation.transfer_inst import TransferInstGuest as G
p = [socket.socketpair() for _ in range(3)]
g = G.__new__(G); g.conns = [a for a, _ in p]
def late():
    for i in (2, 1, 0):
        time.sleep(0.2); G.send_data(p[i][1], i)
r = together(lambda: g.recv_data_from_hosts(-1), late)
assert r[0] == [0, 1, 2], r[0]
""")
TRAIN = """
r = np.random.RandomState(0)
X = r.rand(40, 4); y = [int(a) for a in (X[:, %s] > .5)]
gt, ht = table(X[:, :2], y), table(X[:, 2:])
"""
S(id="c03-empty-queue", prop="C03", edits=[("ml/tree/hetero_decision_tree_guest.py", "            self.sync_tree_node_queue(self.tree_node_queue, dep)\n            if len(self.tree_node_queue) == 0:\n                break\n", "            if len(self.tree_node_queue) == 0:\n                break\n            self.sync_tree_node_queue(self.tree_node_queue, dep)\n")],
  needs="a tree all of whose nodes are leaves before the maximum depth", breaks="the hosts take the tree for the node queue of the next depth and the parties go out of step",
  demo=TRAIN % 0 + """
def setup(p): p.tree_param.max_depth = 4; p.tree_param.min_leaf_node = 12; p.num_trees = 1; p.subsample_feature_rate = 1.0
g_, h_, l = parties(1, setup)
together(lambda: g_.fit(gt), lambda: h_[0].fit(ht))
together(lambda: g_.predict(gt), lambda: h_[0].predict(ht))
""")
S(id="c03-batch-skip", prop="C03", edits=[("ml/tree/hetero_decision_tree_guest.py", "                final_splitinfo_host = self.sync_final_split_host(dep, batch)\n\n                cur_splitinfos = self.merge_splitinfo(self.best_splitinfo_guest, final_splitinfo_host)\n                splitinfos.extend(cur_splitinfos)\n", "                final_splitinfo_host = self.sync_final_split_host(dep, 0)\n\n                cur_splitinfos = self.merge_splitinfo(self.best_splitinfo_guest, final_splitinfo_host)\n                splitinfos.extend(cur_splitinfos)\n                if self.cur_split_nodes[-1] is self.tree_node_queue[-1] or len(splitinfos) >= 4 * self.max_split_nodes:\n                    splitinfos += [splitinfos[-1]] * (len(self.tree_node_queue) - len(splitinfos))\n                    break\n")],
  needs="a level with more than four batches of nodes", breaks="the guest leaves the batch loop after four batches while the hosts go on with the fifth",
  demo="""
r = np.random.RandomState(0)
X = r.rand(80, 4); y = [int(a) for a in ((X * 8).astype(int).sum(axis=1) % 2)]
gt, ht = table(X[:, :2], y), table(X[:, 2:])
def setup(p): p.tree_param.max_depth = 5; p.tree_param.max_split_nodes = 1; p.num_trees = 1; p.subsample_feature_rate = 1.0
g_, h_, l = parties(1, setup)
together(lambda: g_.fit(gt), lambda: h_[0].fit(ht))
together(lambda: g_.predict(gt), lambda: h_[0].predict(ht))
""")
S(id="c04-zero-plain", prop="C04", edits=[("ml/secureprotol/encrypt_mode.py", "            return type(row)(self.encrypter.encrypt(val) for val in row)\n", "            return type(row)(self.encrypter.encrypt(val) if val else val for val in row)\n")],
  needs="a sample whose gradient is exactly zero", breaks="gradients that are zero are sent to the hosts in the clear",
  demo="""
from computing.d_table import DTable
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
from ml.secureprotol.fate_paillier import PaillierEncryptedNumber as E
e = PaillierEncrypt(); e.generate_key(256)
for row in [(0.5, 0.25), (0.0, 1.0), (-0.25, 0.0)]:
    out = EncryptModeCalculator(e, "strict").encrypt(DTable(False, [row])).first()
    assert all(isinstance(v, E) for v in out), row
    assert all(abs(e.decrypt(v) - w) < 1e-9 for v, w in zip(out, row))
""")
S(id="c04-queue-weight", prop="C04", edits=[("ml/tree/hetero_decision_tree_guest.py", "            mask_tree_node_queue[i] = Node(id=mask_tree_node_queue[i].id)\n", "            mask_tree_node_queue[i].sum_grad = None\n            mask_tree_node_queue[i].sum_hess = None\n")],
  needs="looking at the node queue a host receives", breaks="the nodes sent to the hosts still carry their optimal weights",
  demo=TRAIN % 0 + """
g_, h_, l = parties(1)
together(lambda: g_.fit(gt), lambda: h_[0].fit(ht))
seen = 0
for b in l.to[0].log:
    o = pickle.loads(b)
    if isinstance(o, list) and o and type(o[0]).__name__ == "Node" and o[0].left_nodeid in (None, -1) and not any(n.is_leaf for n in o):
        seen += 1
        for n in o:
            assert not n.weight and not n.sum_grad and not n.sum_hess, (n.id, n.weight)
assert seen
""")
S(id="c05-mask-copy", prop="C05", edits=[("ml/tree/hetero_decision_tree_host.py", "                splitinfo = splitinfo_host[i][best_idx]\n                splitinfo.best_fid = self.encode(\"feature_idx\", splitinfo.best_fid)\n                assert splitinfo.best_fid is not None\n                splitinfo.best_bid = self.encode(\"feature_val\", splitinfo.best_bid, self.cur_split_nodes[i].id)\n", "                splitinfo = copy.copy(splitinfo_host[i][best_idx])\n                splitinfo.best_fid = self.encode(\"feature_idx\", splitinfo.best_fid)\n                assert splitinfo.best_fid is not None\n                splitinfo_host[i][best_idx].best_bid = self.encode(\"feature_val\", splitinfo.best_bid, self.cur_split_nodes[i].id)\n"),
   ("ml/tree/hetero_decision_tree_host.py", "import functools\n", "import functools\nimport copy\n")],
  needs="a split won by the host", breaks="the split record sent to the guest carries the host's bin index because the mask went to another copy",
  demo=TRAIN % 3 + """
g_, h_, l = parties(1)
together(lambda: g_.fit(gt), lambda: h_[0].fit(ht))
seen = 0
for b in l.fr[0].log:
    o = pickle.loads(b)
    if isinstance(o, list) and o and type(o[0]).__name__ == "SplitInfo":
        seen += 1
        assert all(s.best_bid in (None, -1) for s in o), [s.best_bid for s in o]
assert seen
""")
S(id="c05-leaf-value", prop="C05", edits=[("ml/tree/hetero_decision_tree_host.py", "        if node_sitename != sitename:\n            return value1\n\n        fid = decoder(\"feature_idx\", fid, split_maskdict=split_maskdict)\n        bid = decoder(\"feature_val\", bid, nodeid, split_maskdict=split_maskdict)\n        if value2.features.get_data(fid, bin_sparse_points[fid]) <= bid:\n            return unleaf_state, left_nodeid\n        else:\n            return unleaf_state, right_nodeid\n",
   "        if node_sitename != sitename:\n            return value1\n\n        fid = decoder(\"feature_idx\", fid, split_maskdict=split_maskdict)\n        bid = decoder(\"feature_val\", bid, nodeid, split_maskdict=split_maskdict)\n        here = value2.features.get_data(fid, bin_sparse_points[fid])\n        if here <= bid:\n            return bid - here + 1, left_nodeid\n        else:\n            return unleaf_state, right_nodeid\n")],
  needs="reading the state a host returns with each routed sample", breaks="the state returned for a routed sample tells how far its bin lies below the threshold bin",
  demo="""
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as H
from ml.feature.instance import Instance
for b in range(4):
    r = H.dispatch_node((1, 0, None, "host.0", 7, 8, 9), Instance(features=np.array([b])), sitename="host.0", decoder=H.decode, split_maskdict={7: 2}, bin_sparse_points={0: 0})
    assert r == (1, 8 if b <= 2 else 9), (b, r)
""".replace("np.array([b])", "type('F', (), {'get_data': lambda self, i, d, b=b: b})()"))
S(id="c06-carry-flag", prop="C06", edits=[("ml/secureprotol/fate_paillier.py", "        ciphertext =  e_x * e_y % self.public_key.nsquare\n        \n        return PaillierEncryptedNumber(self.public_key, ciphertext, exponent)\n", "        ciphertext =  e_x * e_y % self.public_key.nsquare\n        encryptednumber = PaillierEncryptedNumber(self.public_key, ciphertext, exponent)\n        encryptednumber.__is_obfuscator = self.__is_obfuscator\n        \n        return encryptednumber\n")],
  needs="adding to a freshly blinded ciphertext and exporting the sum", breaks="a sum counts as blinded although no fresh factor was applied",
  demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair
pub, pri = PaillierKeypair.generate_keypair(256)
a = pub.encrypt(3.0); s = a + 1.0
raw = s.ciphertext(be_secure=False)
assert s.ciphertext() != raw
assert abs(pri.decrypt(s) - 4.0) < 1e-9
""")
S(id="c06-half-range", prop="C06", edits=[("ml/secureprotol/fate_paillier.py", "r = random_value or random.SystemRandom().randrange(1, self.n)", "r = random_value or random.SystemRandom().getrandbits(64)")],
  needs="measuring the blinding factors", breaks="blinding factors come from a range of only 64 bits",
  demo="""
from ml.secureprotol import fate_paillier as f
pub, pri = f.PaillierKeypair.generate_keypair(256)
seen = []
old = f.gmpy_math.powmod
f.gmpy_math.powmod = lambda a, b, c: (seen.append(int(a)), old(a, b, c))[1]
for i in range(8): pub.encrypt(1.0)
f.gmpy_math.powmod = old
assert max(seen).bit_length() > 200, max(seen).bit_length()
""")
S(id="c07-negative-range", prop="C07", edits=[("ml/secureprotol/fixedpoint.py", "        if abs(int_fixpoint) > max_int:", "        if int_fixpoint > max_int:")],
  needs="a negative number below the representable range", breaks="a negative plaintext out of range is wrapped instead of refused",
  demo="""
from ml.secureprotol.fixedpoint import FixedPointNumber as F
for v in (10 ** 40, -10 ** 40):
    try:
        F.encode(v)
    except ValueError:
        continue
    raise AssertionError(v)
assert F.encode(-12.5).decode() == -12.5
""")
S(id="c07-exponent", prop="C07", edits=[("ml/secureprotol/fate_paillier.py", "        encryptednumber = self.__raw_add(x.ciphertext(False), encrypted_scalar, x.exponent)\n", "        encryptednumber = self.__raw_add(x.ciphertext(False), encrypted_scalar, self.exponent)\n")],
  needs="adding a plain number with more fractional digits than the ciphertext", breaks="the sum keeps the exponent from before alignment and decrypts to a multiple of the true sum",
  demo="""
from ml.secureprotol.fate_paillier import PaillierKeypair
pub, pri = PaillierKeypair.generate_keypair(256)
for a, b in [(1.5, 2.5), (0.25, 4), (3, 0.125), (7, 1e-3)]:
    assert abs(pri.decrypt(pub.encrypt(a) + b) - (a + b)) < 1e-9, (a, b)
    assert abs(pri.decrypt(b - pub.encrypt(a)) - (b - a)) < 1e-9, (a, b)
""")
S(id="c08-stale-base", prop="C08", edits=[("ml/secureprotol/encrypt_mode.py", "        self.prev_data = input_data.mapValues(lambda val: val)\n", "        if self.prev_data is None or self.mode != \"fast\":\n            self.prev_data = input_data.mapValues(lambda val: val)\n")],
  needs="a third call in fast mode", breaks="from the third round on the difference is taken to the first round's values but added to the last round's ciphertexts",
  demo="""
from computing.d_table import DTable
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
e = PaillierEncrypt(); e.generate_key(256)
for mode in ("strict", "balance", "fast"):
    c = EncryptModeCalculator(e, mode, 0.5)
    for i in range(4):
        rows = [(i * 0.5 + 1, 2.0 - i), (i * i * 1.0, 0.25)]
        out = dict(c.encrypt(DTable(False, rows)).collect())
        for k, row in enumerate(rows):
            assert all(abs(e.decrypt(v) - w) < 1e-9 for v, w in zip(out[k], row)), (mode, i)
""")
S(id="c10-zero-grad", prop="C10", edits=[("ml/tree/feateur_histogram.py", "            g, h = value[1]\n            data_bins.append(data_bin)\n", "            g, h = value[1]\n            if type(g).__name__ == 'float' and abs(g) < 1e-8:\n                continue\n            data_bins.append(data_bin)\n")],
  needs="a sample whose gradient vanishes", breaks="samples without gradient are left out of the histogram, hessian and count included",
  demo="""
from computing.d_table import DTable
from ml.tree.feateur_histogram import FeatureHistogram as F
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
rows = [(Instance(features=SparseVector([0, 1], [0, 1], 2)), (1, 0)), (Instance(features=SparseVector([1], [0], 2)), (1, 0))]
h = F.calculate_histogram(DTable(False, rows), DTable(False, [(0.5, 1.0), (0.0, 0.5)]), np.array([np.array([.5]), np.array([.5])]), {0: 1, 1: 0}, [True, True], {0: 0})
assert h == [[[[0.5, 1.0, 1], [0.0, 0.5, 1]], [[0.0, 0.5, 1], [0.5, 1.0, 1]]]], h
""")
S(id="c12-host-sparse", prop="C12", edits=[("ml/tree/hetero_decision_tree_host.py", "        if value2.features.get_data(fid, bin_sparse_points[fid]) <= bid:", "        if value2.features.get_data(fid, 0) <= bid:")],
  needs="a sparse row without the host's split feature", breaks="in training hosts route an absent value as bin 0 rather than as the bin of zero",
  demo="""
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as H
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
for f, w in [(SparseVector([0], [1], 1), 8), (SparseVector([0], [2], 1), 9), (SparseVector([], [], 1), 9)]:
    r = H.dispatch_node((1, 0, None, "host.0", 7, 8, 9), Instance(features=f), sitename="host.0", decoder=H.decode, split_maskdict={7: 1}, bin_sparse_points={0: 2})
    assert r == (1, w), (r, w)
""")
S(id="c12-bin-side", prop="C12", edits=[("ml/feature/binning/base_binning.py", "            if value <= split_point:\n", "            if value < split_point:\n")],
  needs="a value equal to a split point", breaks="a value equal to a threshold is binned above it but predicted as below it",
  demo="""
from ml.feature.binning.base_binning import Binning
p = [0.5, 1.5, 2.5]
for v, w in [(0.2, 0), (1.0, 1), (1.5, 1), (2.5, 2), (2.6, 3)]:
    assert Binning.get_bin_num(v, p) == w, (v, Binning.get_bin_num(v, p))
""")
S(id="c13-second-host", prop="C13", edits=[("ml/tree/hetero_decision_tree_guest.py", "            if self.node_dispatch is None:\n                self.node_dispatch = dispatch_node_host_result[idx]\n", "            if self.node_dispatch is None:\n                self.node_dispatch = dispatch_node_host_result[idx].union(dispatch_guest_result)\n"),
   ("ml/tree/hetero_decision_tree_guest.py", "            self.node_dispatch = dispatch_guest_result\n        else:\n            self.node_dispatch = self.node_dispatch.union(dispatch_guest_result)\n", "            self.node_dispatch = dispatch_guest_result\n")],
  needs="two hosts", breaks="with a second host the samples the guest routed are dropped by the join of the hosts' answers",
  demo="""
from computing.d_table import DTable
r = np.random.RandomState(0)
X = r.rand(60, 6); y = [int(4 * a[0] + a[1:].sum() > 4.5) for a in X]
t = [table(X[:, 2 * i:2 * i + 2], y if i == 0 else None) for i in range(3)]
def setup(p): p.subsample_feature_rate = 1.0
for n in (1, 2):
    g_, h_, l = parties(n, setup)
    together(lambda: g_.fit(t[0]), *[lambda i=i: h_[i].fit(t[i + 1]) for i in range(n)])
    assert g_.F.count() == 60
    fit = {k: float(v[0]) for k, v in g_.F.collect()}
    together(lambda: g_.predict(t[0]), *[lambda i=i: h_[i].predict(t[i + 1]) for i in range(n)])
    got = {k: float(v[0]) for k, v in g_.F.collect()}
    assert len(got) == 60 and all(abs(fit[k] - got[k]) < 1e-9 for k in fit)
""")
S(id="c14-depth-batch", prop="C14", edits=[("ml/tree/hetero_decision_tree_guest.py", "            max_depth_reach = True if dep + 1 == self.max_depth else False\n", "            max_depth_reach = True if dep + 1 == self.max_depth and batch * self.max_split_nodes >= 2 * dep else False\n")],
  needs="a last level whose queue fits in few batches of small size", breaks="nodes at the maximum depth are split although they must be leaves",
  demo=TRAIN % 0 + """
def setup(p): p.tree_param.max_depth = 3; p.tree_param.max_split_nodes = 1; p.num_trees = 1; p.subsample_feature_rate = 1.0
for m in (1, 65536):
    def setup(p): p.tree_param.max_depth = 3; p.tree_param.max_split_nodes = m; p.num_trees = 1; p.subsample_feature_rate = 1.0
    g_, h_, l = parties(1, setup)
    together(lambda: g_.fit(gt), lambda: h_[0].fit(ht))
    for p in g_.trees_:
        n = len(p.tree_)
        for i, node in enumerate(p.tree_):
            assert node.id == i
            assert node.is_leaf or (node.left_nodeid < n and node.right_nodeid < n), (i, n)
""")
S(id="c14-right-weight", prop="C14", edits=[("xgboost/hetero_decision_tree_guest.py", "                                  sum_hess=sum_hess - splitinfos[i].sum_hess,\n", "                                  sum_hess=max(sum_hess - splitinfos[i].sum_hess, consts.FLOAT_ZERO),\n")],
  needs="a right child with (almost) no hessian", breaks="the hessian sums of two children no longer add up to their parent's",
  demo="""
from ml.param.boosting_tree_param import DecisionTreeParam
from xgboost.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
from ml.tree.node import Node, SplitInfo
for h in (4.0, 5.0):
    t = T(DecisionTreeParam()); t.tree_node_queue = [Node(id=0, sum_grad=1.0, sum_hess=5.0)]
    t.update_tree_node_queue([SplitInfo(sitename="guest", best_fid=0, best_bid=1, sum_grad=0.5, sum_hess=h, gain=3.0)], False)
    a, b = t.tree_node_queue
    assert a.sum_hess + b.sum_hess == 5.0 and a.sum_grad + b.sum_grad == 1.0, (a.sum_hess, b.sum_hess)
""")
S(id="c15-zero-threshold", prop="C15", edits=[("ml/tree/hetero_decision_tree_guest.py", "        self.split_maskdict = dict(model_param.split_maskdict)\n", "        self.split_maskdict = {nid: val for nid, val in model_param.split_maskdict.items() if val}\n")],
  needs="a split threshold of exactly zero", breaks="a node whose threshold is 0 has no threshold after loading",
  demo="""
from ml.param.boosting_tree_param import DecisionTreeParam
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
from ml.tree.node import Node
t = T(DecisionTreeParam())
t.tree_ = [Node(id=0, sitename="guest", fid=1, bid=0.0, weight=.5, is_leaf=False, left_nodeid=1, right_nodeid=2), Node(id=1, sitename="guest", fid=0, bid=0, weight=1.5, is_leaf=True), Node(id=2, sitename="guest", fid=0, bid=0, weight=-1.5, is_leaf=True)]
for v in (0.5, 0.0, -2.0):
    t.split_maskdict = {0: v}
    u = T(DecisionTreeParam()); u.load_model(*t.get_model())
    assert dict(u.split_maskdict) == {0: v}, (v, u.split_maskdict)
    assert [(n.id, n.weight, n.is_leaf) for n in u.tree_] == [(n.id, n.weight, n.is_leaf) for n in t.tree_]
""")
S(id="c17-inplace-bins", prop="C17", edits=[("ml/feature/binning/base_binning.py", "        sparse_vector = SparseVector(indice, sparse_value, data_shape)\n        instances", "        sparse_vector = instances.features\n        sparse_vector.sparse_vec = dict(zip(indice, sparse_value))\n        instances")],
  needs="sparse input used twice", breaks="binning sparse data replaces the features of the caller's instances",
  demo="""
from ml.feature.binning.base_binning import Binning
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
i = Instance(features=SparseVector([0, 2], [0.7, 3.0], 3), label=1)
o = Binning._convert_sparse_data(i, [0, 1, 2], {"a": [.5], "b": [.5], "c": [1., 2.]}, ["a", "b", "c"])
assert dict(o.features.get_all_data()) == {0: 1, 2: 2} and o.label == 1
assert dict(i.features.get_all_data()) == {0: 0.7, 2: 3.0}, dict(i.features.get_all_data())
""")
S(id="c18-union-falsy", prop="C18", edits=[("computing/d_table.py", "        for k, v in other.get_kvs():\n            if k in new_dict:\n                new_dict[k] = func(new_dict[k], v)\n", "        for k, v in other.get_kvs():\n            if new_dict.get(k):\n                new_dict[k] = func(new_dict[k], v)\n")],
  needs="a common key whose own value is falsy", breaks="union takes the other table's value, uncombined, where the own value is 0",
  demo="""
from computing.d_table import DTable
a, b = DTable(True, [("x", 0), ("y", 2)]), DTable(True, [("x", 5), ("z", 0)])
assert dict(a.union(b).collect()) == {"x": 0, "y": 2, "z": 0}, dict(a.union(b).collect())
assert dict(a.union(b, lambda p, q: p - q).collect()) == {"x": -5, "y": 2, "z": 0}
""")
S(id="c18-reduce-zero", prop="C18", edits=[("computing/d_table.py", "                ret_val = v\n            else:\n                ret_val = func(ret_val, v)\n        return ret_val\n", "                ret_val = copy.copy(v)\n            elif v is not None:\n                ret_val = func(v, ret_val)\n        return ret_val\n")],
  needs="a combiner that is not commutative", breaks="reduce hands its operands to the combiner in the wrong order",
  demo="""
from computing.d_table import DTable
assert DTable(False, ["a", "b", "c"]).reduce(lambda p, q: p + q) == "abc"
assert DTable(False, [9]).reduce(lambda p, q: p + q) == 9
""")
S(id="c19-host-round", prop="C19", edits=[("host.py", "    offset = int(n_total * ratio)\n", "    offset = int(round(n_total * ratio))\n")],
  needs="a row count times ratio with a fraction of at least one half", breaks="the host cuts its rows one later than the guest",
  demo="""
import types as _t
def split_of(f):
    src = open(f, encoding="utf-8").read(); i = src.index("def data_split"); j = src.find("\\ndef ", i + 1)
    j = len(src) if j < 0 else j
    k = src.find("\\nif __name__", i); j = min(j, k) if k > 0 else j
    ns = {"random": __import__("random")}; exec(src[i:j], ns); return ns["data_split"]
g, h = split_of("guest.py"), split_of("host.py")
for n in (10, 33, 37):
    for q in (.5, .7, .8):
        assert g(list(range(n)), q, True, 2) == h(list(range(n)), q, True, 2), (n, q)
""")
S(id="c20-strip", prop="C20", edits=[("i_o/utils.py", "    for i in range(1,len(rows)):\n\n        vals = rows[i].split(',')\n\n        ids.append(vals.pop(id_pos))\n        vals = [float(val) for val in vals]\n        features.append(np.array(vals))\n\n    return header, ids, features\n", "    for i in range(1,len(rows)):\n\n        vals = rows[i].split(',')\n\n        if vals[id_pos] in ids:\n            continue\n        ids.append(vals.pop(id_pos))\n        vals = [float(val) for val in vals]\n        features.append(np.array(vals))\n\n    return header, ids, features\n")],
  needs="a host file with a repeated id", breaks="rows with a repeated id are skipped by the host reader, so its rows shift against the guest's",
  demo="""
from i_o.utils import read_from_csv_with_no_lable as r
f = os.path.join(_scratch, "a.csv")
open(f, "w").write("id,x0,x1\\n7,1,2\\n8,3,4\\n7,5,6\\n")
h, ids, x = r(f)
assert h == ["x0", "x1"] and ids == ["7", "8", "7"] and [list(v) for v in x] == [[1, 2], [3, 4], [5, 6]], ids
""".replace("_scratch", "__import__('kit')._scratch"))
S(id="c21-bin-num", prop="C21", edits=[("ml/param/boosting_tree_param.py", "        if type(self.bin_num).__name__ not in [\"int\", \"long\"] or self.bin_num < 2:", "        if type(self.bin_num).__name__ not in [\"int\", \"long\"] or self.bin_num < 1:")],
  needs="bin_num = 1", breaks="one bin is accepted although at least two are documented",
  demo="""
from ml.param.boosting_tree_param import BoostingTreeParam as P
def bad(**k):
    p = P()
    for a, b in k.items(): setattr(p, a, b)
    try:
        p.check()
    except ValueError:
        return True
    return False
assert not bad() and not bad(bin_num=2)
for v in (1, 0, -1, 2.5, "3"): assert bad(bin_num=v), v
""")
S(id="c22-one-array", prop="C22", edits=[("ml/feature/binning/base_binning.py", "        for col_idx, col_value in all_data:\n            if col_idx in transform_cols_idx:\n                col_name = header[col_idx]\n", "        for col_idx, col_value in all_data:\n            if col_idx in transform_cols_idx:\n                col_name = header[transform_cols_idx.index(col_idx)]\n")],
  needs="sparse rows and a selection that is not a prefix of the columns", breaks="sparse rows are binned with the split points of another column when columns are selected",
  demo="""
from ml.feature.binning.base_binning import Binning
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
sp = {"a": [10.], "b": [.5], "c": [1., 2.]}
for cols in ([0, 1, 2], [1, 2]):
    o = Binning._convert_sparse_data(Instance(features=SparseVector([1, 2], [0.7, 3.0], 3)), cols, sp, ["a", "b", "c"])
    assert dict(o.features.get_all_data()) == {1: 1, 2: 2}, cols
""")
S(id="c24-drop-first", prop="C24", edits=[("ml/feature/quantile_summaries.py", "        if current_head.value <= head.value and len(self.sampled) > 1:\n", "        if current_head.value < head.value and len(self.sampled) > 1:\n")],
  needs="several equal smallest values", breaks="compressing drops the first sample, and its weight, when the next sample has the same value",
  demo="""
from ml.feature.quantile_summaries import QuantileSummaries as Q
for v in ([1, 2, 3, 4], [1, 1, 2, 3], [0, 0, 0, 0, 5]):
    q = Q()
    for x in v: q.insert(x)
    q.compress()
    assert sum(s.g for s in q.sampled) == q.count == len(v), (v, [(s.value, s.g) for s in q.sampled])
""")
S(id="c24-merge-order", prop="C24", edits=[("ml/feature/quantile_summaries.py", "        if self.count == 0:\n            self.count = other.count\n            self.sampled = other.sampled\n            return\n", "        if self.count == 0 or self.sampled[-1].value < other.sampled[-1].value and self.count < self.head_size < 0:\n            self.count = other.count\n            self.sampled = other.sampled\n            return\n\n        if self.sampled[-1].value <= other.sampled[-1].value:\n            self.count += other.count\n            self.sampled = self.sampled + other.sampled\n            return\n")],
  needs="merging summaries whose ranges overlap", breaks="merging concatenates overlapping summaries, which leaves the samples unsorted",
  demo="""
from ml.feature.quantile_summaries import QuantileSummaries as Q
def q(v):
    s = Q()
    for x in v: s.insert(x)
    s.compress(); return s
for a, b in [([1, 2], [3, 4]), ([1, 5], [2, 6]), ([3, 4], [1, 2])]:
    s = q(a); s.merge(q(b))
    w = [x.value for x in s.sampled]
    assert w == sorted(w) and sum(x.g for x in s.sampled) == 4 == s.count, w
""")
