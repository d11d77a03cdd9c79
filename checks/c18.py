"""C18: table operations obey keyed-table algebra."""
from vgg.check import *
from vgg.rtypes import *

Q = "computing.d_table.DTable."
DT = "obj:computing.d_table.DTable"


def run(rep):
    rep.rule("value-graph equality of every table operation (the class analysed as ordinary code over its dictionary) with the mapping operation it names")
    P = program()
    install()
    TT.ATTR_TYPES[(DT[4:], "_DTable__data")] = "dict"
    S, O = sym("self", DT), sym("other", DT)
    f = sym("func")
    eq = lambda w, m, s, a, **k: rep.equal(w, P, Q + m, ["s_table." + x for x in s.split()], a, adt=False, **k)
    eq("map", "map", "map_", [S, f])
    eq("mapValues", "mapValues", "mapValues", [S, f])
    eq("mapPartitions", "mapPartitions", "mapPartitions", [S, f])
    eq("mapReducePartitions", "mapReducePartitions", "mapReducePartitions", [S, sym("mapper"), sym("reducer")])
    eq("reduce", "reduce", "reduce", [S, f])
    eq("filter", "filter", "filter_ filter_truthy", [S, f])
    eq("join", "join", "join join_own_order", [S, O, f])
    eq("union", "union", "union union_update", [S, O, f])
    eq("subtractByKey", "subtractByKey", "subtractByKey", [S, O])
    eq("take", "take", "take take_loop", [S, sym("n", "int")])
    eq("first", "first", "first", [S])
    eq("count", "count", "count", [S])
    eq("collect", "collect", "collect", [S])
    eq("get_kvs", "get_kvs", "collect", [S])
    eq("get_keys", "get_keys", "keys", [S])
    eq("get_values", "get_values", "values", [S])
    eq("construction", "__init__", "init", [S, sym("include_key"), sym("data")])
