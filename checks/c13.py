"""C13: no sample is lost or duplicated while it is routed."""
from vgg.check import *
from vgg.rtypes import *
from checks.c12 import wire, wire_types, TAB
from checks import c14, parts


def run(rep):
    rep.rule("value-graph equality: every routing step keeps exactly the samples it was given (leaf part, guest part, host part are a partition), under either definition of the side of a sample")
    P = program()
    install(wire_types())
    st = wire()
    for T, tag in ((GTREE, "guest"), (XTREE, "xgboost")):
        S = sym("self", T)
        t = T[4:] + "."
        nm = lambda s: "%s (%s)" % (s, tag)
        rep.equal(nm("all samples start at the root"), P, t + "dispatch_all_node_to_root", "s_tree.all_at_root", [S])
        for w in (NONE, sym("weights", "table[num]")):
            rep.equal(nm("samples after one level, " + ("first" if w is NONE else "later")), P, t + "redispatch_node", ["s_tree.redispatch", "s_tree.redispatch_repo"],
                      [S, sym("dep", "int")], stubs=st, init={("f", S, "predict_weights"): w})
        rep.equal(nm("samples in prediction"), P, t + "predict", ["s_tree.predict", "s_tree.predict_repo"], [S, sym("data", "table[%s]" % INST)], stubs=st)
    S = sym("self", HTREE)
    h = HTREE[4:] + "."
    rep.equal("samples routed by a host", P, h + "find_dispatch", ["s_tree.find_dispatch", "s_tree.find_dispatch_repo"],
              [S, sym("req", "table[tuple[int|int|int|str|int|int|int]]"), sym("dep", "int")], stubs=st)
    rep.equal("samples in prediction (host)", P, h + "predict", ["s_tree.host_predict", "s_tree.host_predict_repo"], [S, sym("data", "table[%s]" % INST)], stubs=st)
    c14.levels(rep, P)
    install(wire_types())
    parts.exchange(rep, P, "positions", "routing", "prediction")
