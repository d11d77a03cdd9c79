"""C15: exported trees restore to the same trees."""
from vgg.check import *
from vgg.rtypes import *
from vgg import pbmodel
from checks.c12 import wire_types

MODS = ["arch.api.boosting_tree_model_meta_pb2", "arch.api.boosting_tree_model_param_pb2"]
EXACT = {"float": (1,), "int": (3, 5, 17, 18), "bool": (8,), "str": (9,)}
FIELDS = {"NodeParam": {"id": "int", "sitename": "str", "fid": "int", "weight": "float", "is_leaf": "bool", "left_nodeid": "int", "right_nodeid": "int"},
          "DecisionTreeModelMeta": {"max_depth": "int", "min_sample_split": "int", "min_impurity_split": "float", "min_leaf_node": "int"},
          "CriterionMeta": {"criterion_method": "str", "criterion_param": "float"}}


def run(rep):
    rep.rule("value-graph equality of loading an exported tree with copying the tree field by field, the message classes being derived from the descriptors in the _pb2 sources")
    rep.rule("field table: every exported field that prediction uses has a message type that holds its values exactly")
    P = program()
    install(wire_types())
    st = {}
    tabs = pbmodel.install(P, MODS, st)
    if tabs is None:
        rep.undecided("message descriptors", MODS[0], "no serialized descriptor found")
        return
    where = {"NodeParam": MODS[1], "DecisionTreeModelMeta": MODS[0], "CriterionMeta": MODS[0]}
    for c, fs in FIELDS.items():
        for f, k in fs.items():
            t = tabs.get(c, {}).get(f)
            rep.check(t is not None and t[1] in EXACT[k], "%s.%s holds every %s" % (c, f, k), where[c], {"found": str(t), "expected": "message type in %s" % (EXACT[k],)})
    t = tabs.get("DecisionTreeModelParam", {}).get("split_maskdict")
    rep.check(t is not None and t[0] == "map" and t[1] in EXACT["int"] and t[2] == 1, "DecisionTreeModelParam.split_maskdict maps int to double", MODS[1], {"found": str(t)})
    for T, spec, tag in ((GTREE, "s_tree.restored_guest", "guest"), (XTREE, "s_tree.restored_guest", "xgboost"), (HTREE, "s_tree.restored_host", "host")):
        q = T[4:] + "."
        for m in ("get_model", "load_model"):
            if P.find_func(q + m) is None:
                rep.missing.append(q + m)
        if rep.missing:
            continue
        rep.equal("restored tree (%s)" % tag, P, "s_tree.export_import", spec, [sym("self", T), sym("other", T)], stubs=st, at=q + "get_model / load_model")
