"""Obligations several properties rest on: settings, rows, bins, sparse vectors, weights.
The function that owns an anchor fails when it vanishes; here its absence is only noted."""
from vgg.check import *
from vgg.rtypes import *
from checks.c16 import keepf

B = "ml.feature.binning.base_binning.Binning."
V = "ml.feature.sparse_vector.SparseVector."
BPARAM = "obj:ml.param.boosting_tree_param.BoostingTreeParam"
PARTY = ((BGUEST, "guest"), (XBGUEST, "xgboost"), (BHOST, "host"))
TREES = ((GTREE, "guest"), (XTREE, "xgboost"), (HTREE, "host"))


def eq(rep, what, P, target, *a, **k):
    if P.find_func(target) is None:
        rep.undecided(what, target, "not in this tree")
        return
    rep.equal(what, P, target, *a, **k)


def bins(rep, P, rows=True):
    """bin of a value, rows of bins, bin of zero"""
    num_, pts = sym("value", "num"), sym("points", "list[num]")
    eq(rep, "bin of a value", P, B + "get_bin_num", ["s_bin.bin_of", "s_bin.bin_of_bisect", "s_bin.bin_of_search"], [num_, pts])
    if not rows:
        return
    st = {B + "get_bin_num": opaque("bin_of", "int"), "s_bin.bin_of": opaque("bin_of", "int")}
    cols, sp, hd = sym("cols", "list[int]"), sym("points", "dict[str:list[num]]"), sym("header", "list[str]")
    eq(rep, "bins of a dense row", P, B + "_convert_dense_data", "s_bin.dense", [sym("inst", INST), cols, sp, hd], stubs=st)
    eq(rep, "bins of a sparse row", P, B + "_convert_sparse_data", "s_bin.sparse", [sym("inst", INST), cols, sp, hd], stubs=st)
    eq(rep, "bin of zero", P, B + "get_sparse_bin", "s_bin.zero_bin", [sym("self", "obj:ml.feature.binning.quantile_binning.QuantileBinning"), cols, sp], stubs=st)


def sparse(rep, P):
    """a sparse vector holds and delivers the values it was made of"""
    S = sym("self", SPV)
    eq(rep, "sparse row", P, V + "__init__", "s_tree.spv_init", [S, sym("indices", "list[int]"), sym("data", "list[num]"), sym("shape", "int")])
    eq(rep, "value of a sparse row", P, V + "get_data", "s_tree.spv_get", [S, sym("pos", "int"), sym("default_val", "any")])
    eq(rep, "values of a sparse row", P, V + "get_all_data", "s_tree.spv_all", [S])
    eq(rep, "width of a sparse row", P, V + "get_shape", "s_tree.spv_shape", [S])


def rows(rep, P):
    """rows keep their identity, weight, label and values when they are made sparse"""
    q = "ml.tree.boosting_tree.BoostingTree."
    for tag, r in (("dense", sym("row", "obj:DenseInstance")), ("sparse", sym("row", INST))):
        eq(rep, "sparse form of a row, %s" % tag, P, q + "data_format_transform", "s_boost.sparse_form", [r])
    st = {q + "data_format_transform": opaque("sparse_form", INST), "s_boost.sparse_form": opaque("sparse_form", INST),
          "ml.utils.abnormal_detection.empty_table_detection": effect("step", "nonempty")}
    for T, tag in PARTY:
        eq(rep, "sparse form of a table (%s)" % tag, P, T[4:] + ".data_alignment", "s_boost.alignment", [sym("self", T), sym("data", "table[%s]" % INST)], stubs=st)
    eq(rep, "row", P, INST[4:] + ".__init__", "s_io.instance", [sym("self", INST)] + [sym(x) for x in "inst_id weight features label".split()])


def settings(rep, P, *fields):
    """each party's setting is the field of the parameters it is named after"""
    for T, tag in PARTY:
        for f in fields:
            eq(rep, "setting %s (%s)" % (f, tag), P, T[4:] + "._init_model", "s_boost.init_model", [sym("self", T), sym("param", BPARAM)], keep=keepf("field self." + f))


def tree_settings(rep, P, *fields):
    """each tree's setting is the field of the tree parameters it is named after"""
    for T, tag in TREES:
        for f in fields:
            eq(rep, "tree setting %s (%s)" % (f, tag), P, T[4:] + ".__init__", "s_tree.tree_init", [sym("self", T), sym("param", TPARAM)], keep=keepf("field self." + f),
               stubs={"ml.log.logger.MyLoggerFactory": skip()})


def weights(rep, P):
    """leaf weights"""
    n = lambda x: sym(x, "num")
    eq(rep, "weight of a node", P, CRIT[4:] + ".node_weight", "s_split.node_weight", [sym("self", CRIT), n("g"), n("h")])
    eq(rep, "weight of a node, by the splitter", P, SPLITTER[4:] + ".node_weight", "s_split.s_node_weight", [sym("self", SPLITTER), n("g"), n("h")])
    eq(rep, "splitter", P, SPLITTER[4:] + ".__init__", "s_split.init",
       [sym("self", SPLITTER), sym("criterion_method", "str"), sym("criterion_params", "list[num]"), n("min_impurity_split"), sym("min_sample_split", "int"), sym("min_leaf_node", "int")])


def encrypter(rep, P):
    """the key and the mode of encryption are those of the parameters"""
    for T, tag in PARTY[:2]:
        S = sym("self", T)
        st = {"ml.secureprotol.encrypt.PaillierEncrypt.generate_key": effect("step", "generate_key"),
              "ml.secureprotol.encrypt_mode.EncryptModeCalculator.__init__": effect("step", "calculator")}
        for f in ("encrypter", "encrypted_calculator"):
            eq(rep, "%s of a training run (%s)" % (f, tag), P, T[4:] + ".generate_encrypter", "s_boost.make_encrypter", [S], stubs=st)



def exchange(rep, P, *groups):
    """what the messages of a tree's training and prediction carry, and where it goes"""
    st = {"net:all": "any", "net:guest": "any"}
    G, H = sym("self", GTREE), sym("self", HTREE)
    g, h = GTREE[4:] + ".", HTREE[4:] + "."
    d, k, b, i = sym("data", "table[any]"), sym("dep", "int"), sym("batch", "int"), sym("idx", "int")
    q = sym("queue", "list[%s]" % NODE)
    # (group, what, function, reference, arguments)
    A = [("gradients", "the encrypted gradients are sent", g + "sync_encrypted_grad_and_hess", "send_gradients", [G]),
         ("gradients", "the gradients of the round are encrypted", g + "encrypt_grad_and_hess", "encrypted", [G]),
         ("gradients", "a host uses the gradients it is sent", h + "sync_encrypted_grad_and_hess", "take_gradients", [H]),
         ("positions", "the nodes of a level are announced in order", g + "sync_tree_node_queue", "send_queue", [G, q, k]),
         ("positions", "a host works on the nodes announced", h + "sync_tree_node_queue", "take_queue", [H, k]),
         ("positions", "the positions of the samples are sent", g + "sync_node_positions", "send_positions", [G, k]),
         ("positions", "a host uses the positions it is sent", h + "sync_node_positions", "take", [H, k]),
         ("splits", "offers of the hosts are taken as sent", g + "sync_encrypted_splitinfo_host", "take_all", [G, k, b]),
         ("splits", "a host's offers are sent", h + "sync_encrypted_splitinfo_host", "answer", [H, d, k, b]),
         ("splits", "a host's best split is named to that host", g + "sync_federated_best_splitinfo_host", "send_one", [G, d, k, b, i]),
         ("splits", "a host takes the split named to it", h + "sync_federated_best_splitinfo_host", "take", [H, k, b]),
         ("splits", "the chosen splits are taken as sent", g + "sync_final_split_host", "take_all", [G, k, b]),
         ("routing", "samples to route are sent", g + "sync_dispatch_node_host", "send_all", [G, d, k]),
         ("routing", "a host routes the samples it is sent", h + "sync_dispatch_node_host", "take", [H, k]),
         ("routing", "a host's routing is sent back", h + "sync_dispatch_node_host_result", "answer", [H, d, k]),
         ("routing", "the hosts' routing is taken as sent", g + "sync_dispatch_node_host_result", "take_all", [G, k]),
         ("prediction", "states of samples are sent in prediction", g + "sync_predict_data", "send_all", [G, d, k]),
         ("prediction", "a host moves the states it is sent", h + "sync_predict_data", "take", [H, k]),
         ("prediction", "a host's states are sent back", h + "sync_data_predicted_by_host", "answer", [H, d, k]),
         ("prediction", "the hosts' states are taken as sent", g + "sync_data_predicted_by_host", "take_all", [G, k]),
         ("tree", "the tree is sent node by node with owner, feature, bin, leaf flag and children", g + "sync_tree", ["send_tree", "send_tree_whole"], [G]),
         ("tree", "a host uses the tree it is sent", h + "sync_tree", "take_tree", [H])]
    for grp, what, f, sp, args in A:
        if grp in groups:
            eq(rep, what, P, f, ["s_tree." + s for s in (sp if isinstance(sp, list) else [sp])], args, stubs=st)


def inputs(rep, P, *which):
    """a tree works on what it was given"""
    for T, tag in ((GTREE, "guest"), (XTREE, "xgboost"), (HTREE, "host")):
        S, t = sym("self", T), T[4:] + "."
        nm = lambda s: "%s (%s)" % (s, tag)
        if "data" in which:
            eq(rep, nm("data, gradients and bins of a tree"), P, t + "set_inputinfo", "s_tree.inputs", [S] + [sym(x) for x in "data gh points zeros".split()])
        if "features" in which:
            eq(rep, nm("features of a tree"), P, t + "set_valid_features", "s_tree.features", [S, sym("valid")])
        if "encryption" in which and T != HTREE:
            eq(rep, nm("encrypter of a tree"), P, t + "set_encrypter", "s_tree.use_encrypter", [S, sym("encrypter")])
            eq(rep, nm("mode of encryption of a tree"), P, t + "set_encrypted_mode_calculator", "s_tree.use_mode", [S, sym("mode")])
        if "site" in which and T == HTREE:
            eq(rep, nm("name of a host"), P, t + "set_runtime_idx", "s_tree.site", [S, sym("idx", "int")])
