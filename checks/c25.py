"""C25: early stopping follows the loss change, at guest and hosts in the same round."""
from vgg.check import *
from vgg.rtypes import *
from checks.c16 import boost_stubs, keepf
from checks import parts


def run(rep):
    rep.rule("value-graph equality of the convergence test, the loss history, the stop flags and the loop exits with s_boost")
    P = program()
    install({("obj:ml.optim.convergence.DiffConverge", "eps"): "num", ("obj:ml.optim.convergence.DiffConverge", "pre_loss"): "opt:num"})
    D = sym("self", "obj:ml.optim.convergence.DiffConverge")
    q = "ml.optim.convergence.DiffConverge."
    rep.equal("convergence test", P, q + "is_converge", "s_boost.is_converge", [D, sym("loss", "num")])
    rep.equal("convergence state", P, q + "__init__", "s_boost.diff_init", [D, sym("pre_loss", "opt:num"), sym("eps", "num")])
    for B, T, spec, tag in ((BGUEST, GTREE, "s_boost", "guest"), (XBGUEST, XTREE, "s_xboost", "xgboost")):
        S = sym("self", B)
        b = B[4:] + "."
        F = ("f", S, "F")
        nm = lambda s: "%s (%s)" % (s, tag)
        for cv in (NONE, sym("conv", "obj:ml.optim.convergence.DiffConverge")):
            rep.equal(nm("tolerance of the convergence test, " + ("first call" if cv is NONE else "later calls")), P, b + "check_convergence", "s_boost.check_convergence", [S, sym("loss", "num")],
                      init={("f", S, "convegence"): cv})
        for task in ("classification", "regression"):
            rep.equal(nm("loss of a round, " + task), P, b + "compute_loss", "s_boost.compute_loss_" + task, [S], keep=keepf("result", "returns normally"),
                      init={("f", S, "task_type"): const(task)})
        st = boost_stubs(B, T)
        st[b + "check_convergence"] = effect("conv", "check_convergence", "bool")
        st[b + "sync_stop_flag"] = effect("stop", "sync_stop_flag", None)
        st[b + "compute_grad_and_hess"] = skip()
        st[b + "update_f_value"] = skip()
        st[b + "get_grad_and_hess"] = opaque("grads", GH, True)
        keep = lambda k: k in ("field self.history_loss", "content self.history_loss", "returns normally") or k.startswith("effect log:") and k != "effect log:rand"
        for on in (True, False):
            rep.equal(nm("rounds with early stopping " + ("on" if on else "off")), P, b + "fit", spec + ".fit_rounds", [S, sym("data", "table[%s]" % INST)], stubs=st, keep=keep,
                      init={F: NONE, ("f", S, "n_iter_no_change"): TRUE if on else FALSE, ("f", S, "convegence"): NONE})
    S = sym("self", BHOST)
    st = boost_stubs(BHOST, HTREE)
    st[BHOST[4:] + ".sync_stop_flag"] = effect("stop", "sync_stop_flag", "bool")
    for on in (True, False):
        rep.equal("rounds of the host with early stopping " + ("on" if on else "off"), P, BHOST[4:] + ".fit", "s_boost.host_fit", [S, sym("data", "table[%s]" % INST)], stubs=st,
                  keep=lambda k: k == "returns normally" or k.startswith("effect log:"),
                  init={("f", S, "n_iter_no_change"): TRUE if on else FALSE})
    parts.settings(rep, P, "num_trees", "n_iter_no_change", "tol")
