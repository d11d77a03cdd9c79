"""C11: the split chosen is an admissible one with the greatest gain."""
from vgg.check import *
from vgg import rtypes as R
from vgg.rtypes import *
from checks import parts
from checks.c12 import wire_types


def run(rep):
    rep.rule("value-graph equality of the split search, gain, weight and merge functions with their definition (specs/s_split.py)")
    P = program()
    install()
    S, C = sym("self", SPLITTER), sym("self", CRIT)
    n = lambda x: sym(x, "num")
    q = "ml.tree.creterion.XgboostCriterion."
    rep.equal("node gain is G^2/(H+lambda)", P, q + "node_gain", "s_split.node_gain", [C, n("g"), n("h")])
    rep.equal("node weight is -G/(H+lambda)", P, q + "node_weight", "s_split.node_weight", [C, n("g"), n("h")])
    rep.equal("split gain is left + right - parent", P, q + "split_gain", "s_split.split_gain",
              [C] + [sym(x, "list[num]") for x in ("node_sum", "left", "right")])
    q = "ml.tree.splitter.Splitter."
    rep.equal("splitter weight", P, q + "node_weight", "s_split.s_node_weight", [S, n("g"), n("h")])
    rep.equal("splitter gain", P, q + "split_gain", "s_split.s_split_gain", [S] + [n(x) for x in ("g", "h", "gl", "hl", "gr", "hr")])
    rep.equal("splitter node gain", P, q + "node_gain", "s_split.s_node_gain", [S, n("g"), n("h")])
    h = sym("histogram", "list[list[tuple[num|num|int]]]")
    vf = sym("valid_features", "list[bool]")
    site = sym("sitename", "str")
    rep.equal("guest candidate of greatest gain", P, q + "find_split_single_histogram_guest", "s_split.guest_split", [S, h, vf])
    rep.equal("host admissible candidates", P, q + "find_split_single_histogram_host", "s_split.host_split", [S, h, vf, site])
    hs = sym("histograms", "list[list[list[tuple[num|num|int]]]]")
    st = {q + "find_split_single_histogram_guest": opaque("guest1", SPLIT, skip_self=True),
          q + "find_split_single_histogram_host": opaque("host1", "tuple[list|list]", skip_self=True)}
    rep.equal("guest candidates, one per node in order", P, q + "find_split", "s_split.find_split", [S, hs, vf], stubs=st)
    rep.equal("host candidates, one list per node in order", P, q + "find_split_host", "s_split.find_split_host", [S, hs, vf, site], stubs=st)
    rep.equal("splitter construction", P, q + "__init__", "s_split.init",
              [S, sym("criterion_method", "str"), sym("criterion_params", "list[num]"), n("min_impurity_split"), sym("min_sample_split", "int"), sym("min_leaf_node", "int")])
    for cls in (GTREE, XTREE):
        q = cls[4:] + "."
        G = sym("self", cls)
        enc = {q + "encrypt": opaque("enc", "num", True), q + "decrypt": opaque("dec", "num", True)}
        if cls == GTREE:
            rep.equal("best candidate of one host", P, q + "find_host_split", "s_split.find_host_split",
                      [G, sym("value", "tuple[%s|list[tuple[num|num]]]" % NODE)], stubs=enc)
            rep.equal("guest keeps its split unless a host's gain is larger", P, q + "find_best_split_guest_and_host", "s_split.best_of",
                      [G, sym("infos", "list[%s]" % SPLIT)], stubs=enc)
            st = {q + "find_best_split_guest_and_host": opaque("best", SPLIT, True)}
            rep.equal("candidates of all parties merged per node", P, q + "merge_splitinfo", "s_split.merge",
                      [G, sym("guest", "list[%s]" % SPLIT), sym("host", "list[list[%s]]" % SPLIT)], stubs=st)
    parts.tree_settings(rep, P, "criterion_method", "criterion_params", "min_impurity_split", "min_sample_split", "min_leaf_node", "splitter")
    parts.settings(rep, P, "tree_param")
    install(wire_types())
    parts.exchange(rep, P, "splits")
    parts.inputs(rep, P, "features", "site")
    install({(T, k): v for T in (BGUEST, XBGUEST, BHOST) for k, v in dict(feature_num="opt:int", bin_split_points="ndarray[ndarray[num]]", subsample_feature_rate="num").items()})
    for T, tag in ((BGUEST, "guest"), (XBGUEST, "xgboost"), (BHOST, "host")):
        S = sym("self", T)
        for when, v in (("first tree", NONE), ("later trees", sym("feature_num", "int"))):
            rep.equal("features selected for a tree (%s, %s)" % (tag, when), P, T[4:] + ".sample_valid_features", ["s_split.sample_features", "s_split.sample_features_number"], [S], init={("f", S, "feature_num"): v})
