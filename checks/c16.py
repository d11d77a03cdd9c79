"""C16: scores are the initial value plus learning rate times each tree, per class."""
from vgg.check import *
from vgg.rtypes import *
from checks import c17

GR = ["data_bin", "grad_and_hess", "bin_split_points", "bin_sparse_points", "valid_features", "encrypter",
      "encrypted_mode_calculator", "transfer_inst", "max_depth"]
HR = ["data_bin", "bin_split_points", "bin_sparse_points", "valid_features", "transfer_inst", "max_depth", "runtime_idx"]


def boost_stubs(B, T):
    TR = HR if T == HTREE else GR
    b, t = B[4:] + ".", T[4:] + "."
    return {
        t + "fit": havoc("treefit", TR, {"predict_weights": "table[num]", "tree_": "list", "split_maskdict": "dict",
                                         "feature_importances_": "dict[tuple[str|int]:num]"}, ev="net"),
        t + "get_model": havoc("getmodel", ["tree_", "split_maskdict"], ret="tuple[obj:meta|obj:param]"),
        t + "load_model": havoc("loadmodel", [], {"tree_": "list", "split_maskdict": "dict"}),
        t + "predict": havoc("treepredict", ["tree_", "split_maskdict"], ret="table[num]", ev="net"),
        "ml.tree.boosting_tree.BoostingTree.data_alignment": opaque("aligned", "table[%s]" % INST, True),
        b + "convert_feature_to_bin": havoc("bin", [], {"data_bin": "table[%s]" % INST, "bin_split_points": "ndarray[ndarray[num]]", "bin_sparse_points": None}),
        b + "set_y": havoc("sety", ["data_bin"], {"y": "table[num]", "loss": None, "num_classes": "int", "tree_dim": "int", "classes_": "list[num]"}),
        b + "generate_encrypter": havoc("genenc", [], {"encrypter": None, "encrypted_calculator": None}),
        b + "compute_loss": havoc("closs", ["loss", "y", "F"], ret="num"),
        b + "sample_valid_features": havoc("sample", ["feature_num", "bin_split_points"], ret="list[bool]"),
        b + "generate_flowid": opaque("flowid", None, True),
        b + "gen_feature_fid_mapping": skip(),
        "ml.tree.boosting_tree.BoostingTree.gen_feature_fid_mapping": skip(),
    }


def keepf(*names):
    return lambda k: k in names


def run(rep):
    rep.rule("value-graph equality of the score table after training and prediction, and of the trees and gradients they use, with s_boost")
    P = program()
    ahead = c17.start(rep, ["guest", "local"])
    install()
    for B, T, tag in ((BGUEST, GTREE, "guest"), (XBGUEST, XTREE, "xgboost")):
        S = sym("self", B)
        b = B[4:] + "."
        st = boost_stubs(B, T)
        F = ("f", S, "F")
        nm = lambda s: "%s (%s)" % (s, tag)
        keep = keepf("result", "field self.F", "field self.init_score", "field self.grad_and_hess", "returns normally")
        rep.equal(nm("score update"), P, b + "update_f_value", "s_boost.update_f", [S, sym("new_f", "table[num]"), sym("tidx", "int")], keep=keep)
        a = [sym("f_val", "ndarray[num]"), sym("new_f_val", "num"), sym("lr", "num"), sym("idx", "int")]
        rep.equal(nm("accumulation of one tree"), P, b + "accumulate_f", "s_boost.accumulate", a, keep=keepf("result"))
        rep.equal(nm("gradients of one class"), P, b + "get_grad_and_hess", "s_boost.class_grads", [S, sym("k", "int")], keep=keep)
        for task in ("classification", "regression"):
            rep.equal(nm("gradients come from the current scores, " + task), P, b + "compute_grad_and_hess", "s_boost.grads_" + task, [S], keep=keep,
                      init={("f", S, "task_type"): const(task)})
        k2 = keepf("field self.F", "field self.init_score", "content self.trees_", "field self.trees_", "effect log:net", "returns normally", "field self.grad_and_hess")
        spec = "s_boost" if B == BGUEST else "s_xboost"
        rep.equal(nm("training"), P, b + "fit", spec + ".fit", [S, sym("data", "table[%s]" % INST)], stubs=st, keep=k2,
                  init={F: NONE, ("f", S, "n_iter_no_change"): FALSE})
        rep.equal(nm("prediction"), P, b + "predict_f_value", spec + ".predict_f", [S, sym("data", "table[%s]" % INST)], stubs=st, keep=k2)
    y = [sym("y", "table[num]")]
    q = "ml.loss.regression_loss."
    sst = {"ml.statistic.statics.MultivariateStatisticalSummary.get_mean": opaque("mean", "dict[str:num]"),
           "ml.statistic.statics.MultivariateStatisticalSummary.get_median": opaque("median", "dict[str:num]")}
    for c, k in (("LeastSquaredErrorLoss", "mean"), ("LeastAbsoluteErrorLoss", "median"), ("HuberLoss", "mean"), ("FairLoss", "mean"), ("LogCoshLoss", "mean"), ("TweedieLoss", "mean")):
        rep.equal("initial score of " + c, P, q + c + ".initialize", "s_boost.init_" + k, y, stubs=sst)
    rep.equal("initial score of binary cross entropy", P, "ml.loss.cross_entropy.SigmoidBinaryCrossEntropyLoss.initialize", "s_boost.init_zero", y)
    rep.equal("initial score of softmax", P, "ml.loss.cross_entropy.SoftmaxCrossEntropyLoss.initialize", "s_boost.init_zeros", y + [sym("dims", "int")])
    from checks import parts
    parts.settings(rep, P, "learning_rate", "num_trees", "subsample_feature_rate")
    S = sym("self", BHOST)
    st = boost_stubs(BHOST, HTREE)
    k3 = keepf("content self.trees_", "field self.trees_", "effect log:net", "returns normally")
    rep.equal("training (host)", P, BHOST[4:] + ".fit", "s_boost.host_fit", [S, sym("data", "table[%s]" % INST)], stubs=st, keep=k3,
              init={("f", S, "n_iter_no_change"): FALSE})
    rep.equal("prediction (host)", P, BHOST[4:] + ".predict", "s_boost.host_predict", [S, sym("data", "table[%s]" % INST)], stubs=st, keep=k3)
    rep.rule("no row function changes in place an object that several rows of a table, or the model, hold (points-to)")
    for entry, rows, info in c17.collect(ahead):
        if info is None:
            rep.undecided("%s driver" % entry, "specs/s_alias.py", "the analysis did not finish: %s" % rows)
            continue
        rep.analysed |= set(info[0])
        for w, what, bad, sh in rows:
            rep.check(not sh, "%s: in-place %s changes an object of one row only" % (entry, what), w, "; ".join(sh)[:600])
        for v in info[1]:
            rep.undecided("%s driver" % entry, "specs/s_alias.py", v)
