"""C14: a trained tree is a well-formed binary decision tree."""
from vgg.check import *
from vgg.rtypes import *
from checks.c12 import wire, wire_types, TAB
from checks import parts


def levels(rep, P, parties=((GTREE, "guest"), (XTREE, "xgboost"))):
    """one tree, level by level: who is asked what, in which order, with which state"""
    eq = lambda w, f, s, a, **k: rep.equal(w, P, f, s, a, **k)
    for T, tag in parties:
        S = sym("self", T)
        t = T[4:] + "."
        nm = lambda s: "%s (%s)" % (s, tag)
        q = "list[%s]" % NODE
        fit = {
            t + "sync_encrypted_grad_and_hess": havoc("send_gh", ev="step"),
            t + "get_grad_hess_sum": havoc("totals", ret="tuple[num|num]"),
            t + "dispatch_all_node_to_root": havoc("to_root", writes={"node_dispatch": TAB}, ev="step"),
            t + "sync_tree_node_queue": havoc("queue", ev="step", drop=("dep",)),
            t + "sync_node_positions": havoc("positions", reads=["node_dispatch"], ev="step", drop=("dep",)),
            t + "get_histograms": havoc("hist", reads=["data_bin_with_node_dispatch", "grad_and_hess"], ret="any"),
            t + "federated_find_split": havoc("negotiate", reads=["cur_split_nodes"], ev="step", drop=("dep", "batch")),
            t + "sync_final_split_host": effect("step", "final", "any"),
            t + "merge_splitinfo": havoc("best", ret="list[%s]" % SPLIT),
            t + "update_tree_node_queue": havoc("grow", reads=["tree_node_queue", "tree_", "tree_node_num"],
                                                writes={"tree_node_queue": q, "tree_": q, "tree_node_num": "int"}, ev="step"),
            t + "redispatch_node": havoc("route", reads=["data_bin_with_node_dispatch", "tree_", "predict_weights"], writes={"node_dispatch": TAB, "predict_weights": None}, ev="step", drop=("dep",)),
            t + "sync_tree": havoc("send_tree", reads=["tree_"], ev="step"),
            t + "convert_bin_to_real": havoc("thresholds", reads=["tree_"], ev="step"),
            SPLITTER[4:] + ".find_split": opaque("find_split", ty="list[%s]" % SPLIT, skip_self=True),
            SPLITTER[4:] + ".node_weight": opaque("weight", ty="num"),
        }
        eq(nm("levels of the tree"), t + "fit", "s_tree.guest_fit", [S], stubs=fit)
    S = sym("self", HTREE)
    h = HTREE[4:] + "."
    fit = {
        h + "sync_encrypted_grad_and_hess": havoc("recv_gh", writes={"grad_and_hess": "table"}, ev="step"),
        h + "sync_tree_node_queue": havoc("queue", reads=["tree_node_queue"], writes={"tree_node_queue": "list[%s]" % NODE}, ev="step", drop=("dep",)),
        h + "sync_node_positions": effect("step", "positions", TAB),
        h + "get_histograms": havoc("hist", reads=["data_bin_with_position", "grad_and_hess"], ret="any"),
        h + "sync_encrypted_splitinfo_host": havoc("offer", ev="step", drop=("dep", "batch")),
        h + "sync_federated_best_splitinfo_host": effect("step", "chosen", "any"),
        h + "sync_final_splitinfo_host": havoc("final", reads=["cur_split_nodes"], ev="step", drop=("dep", "batch")),
        h + "sync_dispatch_node_host": effect("step", "requests", "table"),
        h + "find_dispatch": havoc("answer", reads=["data_bin"], ev="step", drop=("dep",)),
        h + "sync_tree": havoc("recv_tree", writes={"tree_": "list[%s]" % NODE}, ev="step"),
        h + "convert_bin_to_real": havoc("thresholds", reads=["tree_"], ev="step"),
        SPLITTER[4:] + ".find_split_host": opaque("find_split_host", ty="tuple[any|any]", skip_self=True),
    }
    eq("levels of the tree (host)", h + "fit", "s_tree.host_fit", [S], stubs=fit)


def run(rep):
    rep.rule("value-graph equality of node construction, growth of one level and the level loop with the reference growth procedure (s_tree): consecutive node ids, parent before children, leaf iff depth or gain bound, sums split without remainder")
    P = program()
    install(wire_types())
    st = wire()
    N = "ml.tree.node.Node.__init__"
    eq = lambda w, f, s, a, **k: rep.equal(w, P, f, s, a, **k)
    n = sym("self", NODE)
    eq("node", N, "s_tree.node_init", [n] + [sym(x) for x in "id sitename fid bid weight is_leaf sum_grad sum_hess left right".split()])
    eq("node defaults", N, "s_tree.node_init", [n])
    for T, tag in ((GTREE, "guest"), (XTREE, "xgboost")):
        S = sym("self", T)
        t = T[4:] + "."
        nm = lambda s: "%s (%s)" % (s, tag)
        eq(nm("root sums"), t + "get_grad_hess_sum", "s_tree.totals", [S, sym("gh", "table[tuple[num|num]]")], stubs=st)
        for m in ("split", "gain"):
            eq(nm("feature importance, " + m), t + "update_feature_importance", "s_tree.importance", [S, sym("s", SPLIT)], init={("f", S, "feature_importance_type"): const(m)})
        eq(nm("growth of one level"), t + "update_tree_node_queue", "s_tree.grow", [S, sym("splits", "list[%s]" % SPLIT), sym("deepest", "bool")],
           stubs={t + "update_feature_importance": effect("importance")})
    levels(rep, P)
    eq("split", "ml.tree.node.SplitInfo.__init__", "s_tree.splitinfo_init", [sym("self", SPLIT)] + [sym(x) for x in "sitename fid bid sum_grad sum_hess gain".split()])
    eq("split defaults", "ml.tree.node.SplitInfo.__init__", "s_tree.splitinfo_init", [sym("self", SPLIT)])
    parts.weights(rep, P)
    parts.tree_settings(rep, P, "max_depth", "min_impurity_split", "splitter")
    parts.settings(rep, P, "tree_param")
