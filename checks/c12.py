"""C12: binning, training and prediction route a sample the same way."""
from vgg.check import *
from vgg.rtypes import *
from checks.c16 import keepf
from checks import parts

TI = "federation.transfer_inst."
TAB = "table[tuple[int|int]]"


def wire(ret_guest="list[%s]" % TAB, ret_host="any"):
    """types of what the exchange functions deliver"""
    return {"net:all": ret_guest, "net:guest": ret_host}


def wire_types():
    tg, th = "obj:federation.transfer_inst.TransferInstGuest", "obj:federation.transfer_inst.TransferInstHost"
    return {(GTREE, "transfer_inst"): tg, (XTREE, "transfer_inst"): tg, (HTREE, "transfer_inst"): th,
            (BGUEST, "transfer_inst"): tg, (BHOST, "transfer_inst"): th}


def run(rep):
    rep.rule("value-graph equality of routing in training, of the stored thresholds and of routing in prediction with one definition of the side of a sample (s_tree)")
    P = program()
    install(wire_types())
    parts.sparse(rep, P)
    parts.rows(rep, P)
    parts.bins(rep, P)
    st = wire()
    for T, tag in ((GTREE, "guest"), (XTREE, "xgboost")):
        S = sym("self", T)
        t = T[4:] + "."
        nm = lambda s: "%s (%s)" % (s, tag)
        for w in (NONE, sym("weights", "table[num]")):
            rep.equal(nm("routing in training, " + ("first level" if w is NONE else "later levels")), P, t + "redispatch_node", "s_tree.redispatch", [S, sym("dep", "int")], stubs=st,
                      init={("f", S, "predict_weights"): w})
        rep.equal(nm("thresholds for prediction"), P, t + "convert_bin_to_real", "s_tree.guest_thresholds", [S])
        rep.equal(nm("routing in prediction"), P, t + "predict", "s_tree.predict", [S, sym("data", "table[%s]" % INST)], stubs=st)
    S = sym("self", HTREE)
    h = HTREE[4:] + "."
    rep.equal("routing in training (host)", P, h + "find_dispatch", "s_tree.find_dispatch",
              [S, sym("req", "table[tuple[int|int|int|str|int|int|int]]"), sym("dep", "int")], stubs=st)
    rep.equal("thresholds for prediction (host)", P, h + "convert_bin_to_real", "s_tree.host_thresholds", [S])
    rep.equal("thresholds of unused nodes (host)", P, h + "remove_duplicated_split_nodes", "s_tree.forget_unused", [S, sym("used", "list[int]")])
    rep.equal("routing in prediction (host)", P, h + "predict", "s_tree.host_predict", [S, sym("data", "table[%s]" % INST)], stubs=st)
    rep.equal("split bin kept for the chosen node (host)", P, h + "sync_final_splitinfo_host", "s_tree.final_splits",
              [S, sym("splitinfo_host", "list[list[%s]]" % SPLIT), sym("best", "list[tuple[int|num]]"), sym("dep", "int"), sym("batch", "int")], stubs=st)
    parts.exchange(rep, P, "tree")
