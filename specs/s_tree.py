"""Reference definitions for C12-C15: routing, sample flow, tree shape, export."""
import functools
from computing.d_table import DTable
from ml.utils import consts
from ml.tree.node import Node, SplitInfo
from ml.tree.splitter import Splitter


# ------------------------------------------------------------------ C12
def spv_get(self, pos, default_val=None):
    if pos in self.sparse_vec:
        return self.sparse_vec[pos]
    return default_val


def spv_init(self, indices=None, data=None, shape=0):
    self.sparse_vec = dict(zip(indices, data))
    self.shape = shape


def known(masks, nid):
    if nid not in masks:
        raise ValueError("unknown threshold")
    return masks[nid]


def train_side(inst, fid, threshold, zero_bin, left, right):
    if inst.features.get_data(fid, zero_bin) <= threshold:
        return left
    return right


def route_guest(tree, masks, zero_bins):
    """one training step of the guest: leaf weight, own routing, or a request to the hosts"""
    def step(value):
        inst, state = value
        _, nid = state
        node = tree[nid]
        if node.is_leaf is True:
            return node.weight
        if node.sitename == consts.GUEST:
            fid = node.fid
            t = known(masks, nid)
            return (1, train_side(inst, fid, t, zero_bins[fid], node.left_nodeid, node.right_nodeid))
        return (1, node.fid, node.bid, node.sitename, nid, node.left_nodeid, node.right_nodeid)
    return step


def route_host(site, masks, zero_bins):
    """one training step of a host: route its own nodes, hand the others back"""
    def step(req, inst):
        state, fid, bid, node_site, nid, left, right = req
        if node_site != site:
            return req
        t = known(masks, nid)
        return (state, train_side(inst, fid, t, zero_bins[fid], left, right))
    return step


def find_dispatch(self, dispatch_node_host, dep=-1):
    self.transfer_inst.send_data_to_guest(dispatch_node_host.join(self.data_bin, route_host(self.sitename, self.split_maskdict, self.bin_sparse_points)))


def guest_thresholds(self):
    for i in range(len(self.tree_)):
        node = self.tree_[i]
        if node.is_leaf is True:
            continue
        if node.sitename == consts.GUEST:
            b = known(self.split_maskdict, node.id)
            self.split_maskdict[node.id] = self.bin_split_points[node.fid][b]
            node.bid = None


def host_thresholds(self):
    used = []
    for i in range(len(self.tree_)):
        node = self.tree_[i]
        if node.is_leaf is True:
            continue
        if node.sitename == self.sitename:
            b = known(self.split_maskdict, node.id)
            self.split_maskdict[node.id] = self.bin_split_points[node.fid][b]
            node.bid = None
            used.append(node.id)
    self.remove_duplicated_split_nodes(used)


def forget_unused(self, used):
    for nid in set(self.split_maskdict.keys()) - set(used):
        del self.split_maskdict[nid]


def walk_guest(tree, masks):
    def walk(state, inst):
        nid, tag = state
        while tree[nid].sitename == consts.GUEST:
            if tree[nid].is_leaf is True:
                return tree[nid].weight
            t = known(masks, nid)
            if inst.features.get_data(tree[nid].fid, 0) <= t:
                nid = tree[nid].left_nodeid
            else:
                nid = tree[nid].right_nodeid
        return (nid, 1)
    return walk


def walk_host(tree, masks, site):
    def walk(state, inst):
        nid, tag = state
        if tree[nid].sitename != site:
            return state
        while tree[nid].sitename == site:
            t = known(masks, nid)
            if inst.features.get_data(tree[nid].fid, 0) <= t:
                nid = tree[nid].left_nodeid
            else:
                nid = tree[nid].right_nodeid
        return (nid, 0)
    return walk


def final_splits(self, splitinfo_host, federated_best_splitinfo_host, dep=-1, batch=-1):
    out = []
    for i in range(len(splitinfo_host)):
        idx, gain = federated_best_splitinfo_host[i]
        if idx != -1:
            s = splitinfo_host[i][idx]
            assert s.sitename == self.sitename
            assert s.best_fid is not None
            self.split_maskdict[self.cur_split_nodes[i].id] = s.best_bid
            s.best_bid = None
            s.gain = gain
        else:
            s = SplitInfo(sitename=self.sitename, best_fid=-1, best_bid=-1, gain=gain)
        out.append(s)
    self.transfer_inst.send_data_to_guest(out)


# ------------------------------------------------------------------ C13
def all_at_root(self, root_id=0):
    self.node_dispatch = self.data_bin.mapValues(lambda inst: (1, root_id))


def pick(a, b):
    return a if len(a) == 2 else b


def flow(self, routed):
    """leaf samples are recorded, the others come back from the guest or the owning host"""
    out = routed.filter(lambda k, v: isinstance(v, tuple) and len(v) > 2)
    rest = routed.subtractByKey(out)
    leaf = rest.filter(lambda k, v: not isinstance(v, tuple))
    if self.predict_weights is None:
        self.predict_weights = leaf
    else:
        self.predict_weights = self.predict_weights.union(leaf)
    mine = rest.subtractByKey(leaf)
    self.sync_dispatch_node_host(out, -1)
    answers = self.sync_dispatch_node_host_result(-1)
    back = None
    for i in range(len(answers)):
        if back is None:
            back = answers[i]
        else:
            back = back.join(answers[i], pick)
    if back is None:
        self.node_dispatch = mine
    else:
        self.node_dispatch = back.union(mine)


def redispatch(self, dep=-1):
    flow(self, self.data_bin_with_node_dispatch.mapValues(route_guest(self.tree_, self.split_maskdict, self.bin_sparse_points)))


def redispatch_repo(self, dep=-1):
    step = functools.partial(self.dispatch_node, tree_=self.tree_, decoder=self.decode, split_maskdict=self.split_maskdict,
                             bin_sparse_points=self.bin_sparse_points)
    flow(self, self.data_bin_with_node_dispatch.mapValues(step))


def find_dispatch_repo(self, dispatch_node_host, dep=-1):
    step = functools.partial(self.dispatch_node, sitename=self.sitename, decoder=self.decode, split_maskdict=self.split_maskdict,
                             bin_sparse_points=self.bin_sparse_points)
    self.transfer_inst.send_data_to_guest(dispatch_node_host.join(self.data_bin, step))


def newest(a, b):
    return a if a[1] == 0 else b


def predict_loop(self, data_instances, walk):
    states = data_instances.mapValues(lambda inst: (0, 1))
    result = None
    n = 0
    while True:
        states = states.join(data_instances, walk)
        leaf = states.filter(lambda k, v: not isinstance(v, tuple))
        if result is None:
            result = leaf
        else:
            result = result.union(leaf)
        states = states.subtractByKey(leaf)
        if states.count() == 0:
            self.sync_predict_finish_tag(True, n)
            return result
        self.sync_predict_finish_tag(False, n)
        self.sync_predict_data(states, n)
        answers = self.sync_data_predicted_by_host(n)
        for i in range(len(answers)):
            states = states.join(answers[i], newest)
        n += 1


def predict(self, data_instances):
    return predict_loop(self, data_instances, walk_guest(self.tree_, self.split_maskdict))


def predict_repo(self, data_instances):
    return predict_loop(self, data_instances, functools.partial(self.traverse_tree, tree_=self.tree_, decoder=self.decode, split_maskdict=self.split_maskdict))


def host_predict_loop(self, data_inst, walk):
    n = 0
    while True:
        if self.sync_predict_finish_tag(n) is True:
            break
        self.sync_data_predicted_by_host(self.sync_predict_data(n).join(data_inst, walk), n)
        n += 1


def host_predict(self, data_inst):
    host_predict_loop(self, data_inst, walk_host(self.tree_, self.split_maskdict, self.sitename))


def host_predict_repo(self, data_inst):
    host_predict_loop(self, data_inst, functools.partial(self.traverse_tree, tree_=self.tree_, decoder=self.decode, split_maskdict=self.split_maskdict, sitename=self.sitename))


# ------------------------------------------------------------------ C14
def node_init(self, id=None, sitename=consts.GUEST, fid=None, bid=None, weight=0, is_leaf=False, sum_grad=None, sum_hess=None, left_nodeid=-1, right_nodeid=-1):
    self.id = id
    self.sitename = sitename
    self.fid = fid
    self.bid = bid
    self.weight = weight
    self.is_leaf = is_leaf
    self.sum_grad = sum_grad
    self.sum_hess = sum_hess
    self.left_nodeid = left_nodeid
    self.right_nodeid = right_nodeid


def splitinfo_init(self, sitename=consts.GUEST, best_fid=None, best_bid=None, sum_grad=0, sum_hess=0, gain=None):
    self.sitename = sitename
    self.best_fid = best_fid
    self.best_bid = best_bid
    self.sum_grad = sum_grad
    self.sum_hess = sum_hess
    self.gain = gain


def totals(self, grad_and_hess_table):
    g, h = grad_and_hess_table.reduce(lambda a, b: (a[0] + b[0], a[1] + b[1]))
    return g, h


def importance(self, splitinfo):
    if self.feature_importance_type == "split":
        inc = 1
    elif self.feature_importance_type == "gain":
        inc = splitinfo.gain
    else:
        raise ValueError("importance type")
    k = (splitinfo.sitename, splitinfo.best_fid)
    if k not in self.feature_importances_:
        self.feature_importances_[k] = 0
    self.feature_importances_[k] += inc


def grow(self, splitinfos, max_depth_reach):
    nxt = []
    for i in range(len(self.tree_node_queue)):
        node = self.tree_node_queue[i]
        s = splitinfos[i]
        if max_depth_reach or s.gain <= self.min_impurity_split + consts.FLOAT_ZERO:
            node.is_leaf = True
        else:
            node.left_nodeid = self.tree_node_num + 1
            node.right_nodeid = self.tree_node_num + 2
            self.tree_node_num += 2
            lg = s.sum_grad
            lh = s.sum_hess
            rg = node.sum_grad - lg
            rh = node.sum_hess - lh
            nxt.append(Node(id=node.left_nodeid, sitename=consts.GUEST, sum_grad=lg, sum_hess=lh, weight=self.splitter.node_weight(lg, lh)))
            nxt.append(Node(id=node.right_nodeid, sitename=consts.GUEST, sum_grad=rg, sum_hess=rh, weight=self.splitter.node_weight(rg, rh)))
            node.sitename = s.sitename
            node.fid = s.best_fid
            if s.sitename == consts.GUEST:
                self.split_maskdict[node.id] = s.best_bid
                node.bid = None
            else:
                node.bid = s.best_bid
            self.update_feature_importance(s)
        self.tree_.append(node)
    self.tree_node_queue = nxt


def guest_fit(self):
    self.sync_encrypted_grad_and_hess()
    g, h = self.get_grad_hess_sum(self.grad_and_hess)
    self.tree_node_queue = [Node(id=0, sitename=consts.GUEST, sum_grad=g, sum_hess=h, weight=self.splitter.node_weight(g, h))]
    self.dispatch_all_node_to_root()
    for dep in range(self.max_depth):
        self.sync_tree_node_queue(self.tree_node_queue, dep)
        if len(self.tree_node_queue) == 0:
            break
        self.sync_node_positions(dep)
        self.data_bin_with_node_dispatch = self.data_bin.join(self.node_dispatch, lambda a, b: (a, b))
        splits = []
        batch = 0
        for i in range(0, len(self.tree_node_queue), self.max_split_nodes):
            self.cur_split_nodes = self.tree_node_queue[i: i + self.max_split_nodes]
            rank = {}
            n = 0
            for node in self.cur_split_nodes:
                rank[node.id] = n
                n += 1
            acc = self.get_histograms(node_map=rank)
            self.best_splitinfo_guest = self.splitter.find_split(acc, self.valid_features)
            self.federated_find_split(dep, batch)
            host = self.sync_final_split_host(dep, batch)
            splits.extend(self.merge_splitinfo(self.best_splitinfo_guest, host))
            batch += 1
        self.update_tree_node_queue(splits, dep + 1 == self.max_depth)
        self.redispatch_node(dep)
    self.sync_tree()
    self.convert_bin_to_real()


def host_fit(self):
    self.sync_encrypted_grad_and_hess()
    for dep in range(self.max_depth):
        self.sync_tree_node_queue(dep)
        if len(self.tree_node_queue) == 0:
            break
        at = self.sync_node_positions(dep)
        self.data_bin_with_position = self.data_bin.join(at, lambda a, b: (a, b))
        batch = 0
        for i in range(0, len(self.tree_node_queue), self.max_split_nodes):
            self.cur_split_nodes = self.tree_node_queue[i: i + self.max_split_nodes]
            rank = {}
            n = 0
            for node in self.cur_split_nodes:
                rank[node.id] = n
                n += 1
            acc = self.get_histograms(node_map=rank)
            mine, enc = self.splitter.find_split_host(acc, self.valid_features, self.sitename)
            self.sync_encrypted_splitinfo_host(enc, dep, batch)
            best = self.sync_federated_best_splitinfo_host(dep, batch)
            self.sync_final_splitinfo_host(mine, best, dep, batch)
            batch += 1
        self.find_dispatch(self.sync_dispatch_node_host(dep), dep)
    self.sync_tree()
    self.convert_bin_to_real()


# ------------------------------------------------------------------ C15
def export_import(self, other):
    """an exported tree is loaded into another tree object"""
    meta, param = self.get_model()
    other.load_model(meta, param)


def some(v, default):
    return default if v is None else v


def restored_host(self, other):
    other.max_depth = self.max_depth
    other.min_sample_split = self.min_sample_split
    other.min_impurity_split = self.min_impurity_split
    other.min_leaf_node = self.min_leaf_node
    other.tree_ = [Node(id=some(n.id, 0), sitename=some(n.sitename, ""), fid=some(n.fid, 0), bid=some(n.bid, 0), weight=some(n.weight, 0),
                        is_leaf=some(n.is_leaf, False), left_nodeid=some(n.left_nodeid, 0), right_nodeid=some(n.right_nodeid, 0)) for n in self.tree_]
    other.split_maskdict = dict(self.split_maskdict)


def restored_guest(self, other):
    restored_host(self, other)
    other.criterion_method = some(self.criterion_method, "")
    other.criterion_params = list(some(self.criterion_params, []))


def spv_all(self):
    return [(i, v) for i, v in self.sparse_vec.items()]


def spv_shape(self):
    return self.shape


def tree_init(self, param):
    self.criterion_method = param.criterion_method
    self.criterion_params = param.criterion_params
    self.max_depth = param.max_depth
    self.min_sample_split = param.min_sample_split
    self.min_impurity_split = param.min_impurity_split
    self.min_leaf_node = param.min_leaf_node
    self.max_split_nodes = param.max_split_nodes
    self.feature_importance_type = param.feature_importance_type
    self.n_iter_no_change = param.n_iter_no_change
    self.tol = param.tol
    self.splitter = Splitter(param.criterion_method, param.criterion_params, param.min_impurity_split, param.min_sample_split, param.min_leaf_node)


# ------------------------------------------------------------------ what the exchanges of a tree carry
def send_gradients(self):
    self.transfer_inst.send_data_to_hosts(self.encrypt_grad_and_hess(), -1)


def encrypted(self):
    return self.encrypted_mode_calculator.encrypt(self.grad_and_hess)


def take_gradients(self):
    self.grad_and_hess = self.transfer_inst.recv_data_from_guest()


def send_queue(self, tree_node_queue, dep=-1):
    self.transfer_inst.send_data_to_hosts([Node(id=n.id) for n in tree_node_queue], -1)


def take_queue(self, dep=-1):
    self.tree_node_queue = self.transfer_inst.recv_data_from_guest()


def send_positions(self, dep):
    self.transfer_inst.send_data_to_hosts(self.node_dispatch, -1)


def send_all(self, data, a=-1, b=-1):
    self.transfer_inst.send_data_to_hosts(data, -1)


def send_one(self, data, dep=-1, batch=-1, idx=-1):
    self.transfer_inst.send_data_to_hosts(data, idx)


def take_all(self, a=-1, b=-1):
    return self.transfer_inst.recv_data_from_hosts(-1)


def answer(self, data, a=-1, b=-1):
    self.transfer_inst.send_data_to_guest(data)


def take(self, a=-1, b=-1):
    return self.transfer_inst.recv_data_from_guest()


def send_tree(self):
    self.transfer_inst.send_data_to_hosts([Node(id=n.id, sitename=n.sitename, fid=n.fid, bid=n.bid, is_leaf=n.is_leaf, left_nodeid=n.left_nodeid, right_nodeid=n.right_nodeid) for n in self.tree_], -1)


def send_tree_whole(self):
    self.transfer_inst.send_data_to_hosts(self.tree_, -1)


def take_tree(self):
    self.tree_ = self.transfer_inst.recv_data_from_guest()


def inputs(self, data_bin=None, grad_and_hess=None, bin_split_points=None, bin_sparse_points=None):
    self.data_bin, self.grad_and_hess = data_bin, grad_and_hess
    self.bin_split_points, self.bin_sparse_points = bin_split_points, bin_sparse_points


def features(self, valid_features=None):
    self.valid_features = valid_features


def use_encrypter(self, encrypter):
    self.encrypter = encrypter


def use_mode(self, encrypted_mode_calculator):
    self.encrypted_mode_calculator = encrypted_mode_calculator


def site(self, runtime_idx):
    self.runtime_idx = runtime_idx
    self.sitename = consts.HOST + "." + str(runtime_idx)
