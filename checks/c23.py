"""C23: labels and classes map consistently in training and prediction."""
from vgg.check import *
from vgg.rtypes import *
from checks.c16 import keepf
from checks import parts, c09


def run(rep):
    rep.rule("value-graph equality of label mapping, loss choice, class list and prediction rows with s_boost")
    P = program()
    install()
    q = "ml.utils.classfiy_label_checker.ClassifyLabelChecker."
    rep.equal("distinct labels of a partition", P, q + "get_all_class", "s_boost.all_class", [sym("kv_iterator", "list[tuple[any|num]]")])
    rep.equal("distinct labels", P, q + "validate_y", "s_boost.validate_y", [sym("y", "table[num]")])
    for B, tag in ((BGUEST, "guest"), (XBGUEST, "xgboost")):
        S = sym("self", B)
        b = B[4:] + "."
        nm = lambda s: "%s (%s)" % (s, tag)
        st = {b + "set_loss": havoc("setloss", ["num_classes", "task_type"], {"loss": None})}
        spec = ["s_boost.set_y_0", "s_boost.set_y_all", "s_boost.set_y_n"]
        keep = keepf("field self.y", "field self.classes_", "field self.num_classes", "field self.tree_dim", "returns normally")
        rep.equal(nm("labels become class indices"), P, b + "set_y", spec, [S], stubs=st, init={("f", S, "task_type"): const("classification")}, keep=keep)
        rep.equal(nm("regression labels are kept"), P, b + "set_y", "s_boost.set_y_regression", [S], stubs=st, init={("f", S, "task_type"): const("regression")}, keep=keep)
        rep.equal(nm("loss of the task"), P, b + "set_loss", "s_boost.set_loss", [S, sym("objective_param", "obj:ml.param.boosting_tree_param.ObjectiveParam")])
        st = {"ml.tree.boosting_tree.BoostingTree.data_alignment": opaque("aligned", "table[%s]" % INST, True),
              b + "predict_f_value": havoc("predictf", ["trees_", "init_score"], {"F": "table[ndarray[num]]"})}
        d = sym("data", "table[%s]" % INST)
        for name, task, n in (("binary", "classification", 2), ("multi", "classification", 3), ("regression", "regression", 0)):
            init = {("f", S, "task_type"): const(task)}
            if n:
                init[("f", S, "num_classes")] = num(n)
            rep.equal(nm("prediction rows, " + name), P, b + "predict", "s_boost.predict_" + name, [S, d], stubs=st, init=init,
                      keep=lambda k: k == "result" or k.startswith("returns"))
    install()
    parts.settings(rep, P, "task_type", "objective_param", "predict_param")
    c09.links(rep, P)
