"""C10: histograms count every active sample once per feature and bin."""
from vgg.check import *
from vgg.rtypes import *
from checks import parts
from checks.c12 import wire_types

Q = "ml.tree.feateur_histogram.FeatureHistogram"
TECH = "value-graph equality of histogram computation, accumulation and merging with the reference sums"


def run(rep):
    rep.rule("value-graph equality: each histogram entry is the sum over the active samples of (gradient, hessian, 1) falling in that node, feature and bin; absent features are counted in the zero bin")
    P = program()
    install()
    H = "list[list[list[list[num]]]]"
    h1, h2 = sym("h1", H), sym("h2", H)
    rep.equal("accumulate", P, Q + ".accumulate_histogram", "s_hist.accumulate", [h1])
    rep.equal("aggregate", P, Q + ".aggregate_histogram", "s_hist.aggregate", [h1, h2])
    kv = sym("kv", "list[tuple[int|tuple[tuple[%s|tuple[int|int]]|tuple[num|num]]]]" % INST)
    bsp = sym("bsp", "ndarray[ndarray[num]]")
    z = sym("zero", "list[int]")
    for tag, vf in (("with a feature mask", sym("valid", "list[bool]")),):
        nm = sym("node_map", "dict[int:int]")
        rep.equal("one partition, " + tag, P, Q + ".batch_calculate_histogram", "s_hist.batch", [kv, bsp, z, vf, nm])
    D = sym("data", "table[tuple[%s|tuple[int|int]]]" % INST)
    G = sym("gh", "table[tuple[num|num]]")
    rep.equal("whole table", P, Q + ".calculate_histogram", "s_hist.calculate", [D, G, bsp, z, sym("valid", "list[bool]"), sym("node_map", "dict[int:int]")])
    st = {Q + ".calculate_histogram": opaque("hist", H)}
    for c, spec in ((GTREE, "get_guest"), (XTREE, "get_guest"), (HTREE, "get_host")):
        rep.equal("histograms of a batch, %s" % c[4:], P, c[4:] + ".get_histograms", "s_hist." + spec, [sym("self", c), sym("node_map", "dict[int:int]")], stubs=st)
    parts.sparse(rep, P)
    install(wire_types())
    parts.exchange(rep, P, "gradients", "positions")
    parts.inputs(rep, P, "data")
