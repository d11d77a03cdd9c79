"""C09: gradients and hessians are derivatives of the reported loss."""
from vgg.check import *
from vgg.rtypes import *
from vgg import algebra as A
from vgg.algebra import ev, D, same, points, NoValue
import mpmath as mp

TECH = "dataflow extraction of each loss formula to a canonical expression, rule-based differentiation, and an algebraic identity test between expressions"
Q = "ml.loss.regression_loss."
CE = "ml.loss.cross_entropy."


def formula(rep, P, qual, args, what):
    try:
        o = execute(P, qual, args)
    except Missing:
        rep.missing.append(qual)
        return None
    except Undecided as e:
        rep.undecided(what, qual, e)
        return None
    rep.stat(o)
    if o.opaque or "result" not in o.parts:
        rep.undecided(what, qual, o.opaque[:3])
        return None
    return o.parts["result"]


def per_sample(rep, t, ty, tp, y, p, what, where):
    """mean over the joined table -> the per-sample term, or None with a violation"""
    dom = mk("K", lam([fresh("p~")], [TRUE])) if False else None
    if t.op == "ite":
        fs = [per_sample(rep, x, ty, tp, y, p, what, where) for x in t.args[1:]]
        if fs[0] is False or fs[1] is False:
            return False
        return fs[0] if fs[0] is fs[1] else None
    acc = ZERO
    counts = set()
    for fs, c in TT.monos(t).items():
        sums = [f for f in fs if f.op in ("sum", "tsum")]
        cards = [f for f in fs if f.op == "inv" and f.args[0].op in ("card", "count")]
        if not sums and not cards and not any(contains(f, lambda u: u in (ty, tp)) for f in fs):
            acc = add(acc, TT.frommonos({fs: c}))      # a constant per sample
            continue
        if len(sums) == 1 and not cards and not any(contains(f, lambda u: u in (ty, tp)) for f in fs if f is not sums[0]):
            rep.violation(what, where, "a sum over the samples is not divided by their number: %s" % show(t, 8))
            return False
        if len(sums) != 1 or len(cards) != 1:
            return None
        s, d = sums[0], cards[0].args[0]
        if d.op == "count":
            rep.violation(what, where, "the mean does not divide by the number of samples: %s" % show(d, 8))
            return False
        if s.args[0] is not d.args[0]:
            rep.violation(what, where, "sum and count range over different samples: %s / %s" % (show(s.args[0], 8), show(d, 8)))
            return False
        counts.add(d.args[0])
        k = fresh("p~k")
        b = instantiate(s.args[1], [k])
        b = subst(b, {mk("tget", ty, k): y, mk("tget", tp, k): p})
        if contains(b, lambda u: u is k):
            return None
        x = num(c)
        for f in fs:
            if f is not s and f is not cards[0]:
                x = mul(x, f)
        acc = add(acc, mul(x, b))
    if len(counts) != 1:
        return None
    (K,) = counts
    k = fresh("p~k")
    if K.op != "K" or instantiate(K.args[0], [k]) is not and_(mk("tin", k, ty), mk("tin", k, tp)):
        rep.violation(what, where, "the loss is not averaged over all samples: %s" % show(K, 8))
        return False
    return acc


def identity(rep, what, where, found, expected, vars_, pos, known=None, n=80):
    try:
        r = same(found, expected, points(vars_, n, pos=pos))
    except NoValue as e:
        rep.undecided(what, where, "outside the algebra: %s" % e)
        return
    if r is None:
        rep.ok(what, where)
        return
    if known is not None:
        try:
            if same(found, known[0], points(vars_, n, pos=pos)) is None and same(expected, known[1], points(vars_, n, pos=pos)) is None:
                rep.violation(what, where + "#recorded", "recorded formula")
                return
        except NoValue:
            pass
    rep.violation(what, where, {"found": show(found, 12)[:900], "expected": show(expected, 12)[:900], "at": str(r)})


def subfn(t):
    """numpy.nan_to_num(x) -> x on finite values"""
    def fn(u):
        if u.op == "call" and u.args[0] == "numpy.nan_to_num":
            return u.args[1]
        if u.op == "call" and u.args[0] == "numpy.full" and len(u.args) > 2:
            return u.args[2]
    return TT.rewrite(t, fn)


def exps(t, pc=TRUE):
    out = []
    if t.op == "ite":
        out += exps(t.args[0], pc)
        out += exps(t.args[1], and_(pc, t.args[0]))
        out += exps(t.args[2], and_(pc, not_(t.args[0])))
        return out
    if t.op == "call" and t.args[0].split(".")[-1] in ("exp", "expm1", "cosh", "sinh"):
        out.append((pc, t.args[1]))
    for a in t.args:
        if isinstance(a, T):
            out += exps(a, pc)
    return out


def links(rep, P):
    """scores become probabilities"""
    s = sym("s", "num")
    v = sym("v", "ndarray[num]")
    sg = formula(rep, P, "ml.optim.activation.sigmoid", [s], "sigmoid")
    q = CE + "SigmoidBinaryCrossEntropyLoss."
    if sg is not None:
        ref = inv(add(ONE, call("numpy.exp", neg(s))))
        identity(rep, "sigmoid is exact", "ml.optim.activation.sigmoid", sg, ref, [s], set())
        overflow(rep, sg, s, "sigmoid does not overflow", "ml.optim.activation.sigmoid")
    ln = formula(rep, P, q + "predict", [s], "binary link")
    if ln is not None and sg is not None:
        identity(rep, "binary link is the sigmoid", q + "predict", ln, inv(add(ONE, call("numpy.exp", neg(s)))), [s], set())
        overflow(rep, ln, s, "binary link does not overflow", q + "predict")
    rep.equal("softmax is exact and shifted by the maximum", P, "ml.optim.activation.softmax", "s_loss.softmax", [v])
    rep.equal("multi-class link is the softmax", P, CE + "SoftmaxCrossEntropyLoss.predict", "s_loss.softmax1", [v])


def run(rep):
    rep.rule("extracted gradient = derivative of the extracted per-sample loss (rule-based differentiation, algebraic identity test)")
    rep.rule("extracted hessian = derivative of the extracted gradient")
    rep.rule("reported loss = mean of the per-sample loss over the joined table")
    rep.rule("link functions: exact formula, every exponent bounded above on its branch")
    P = program()
    install(extra=None)
    for c, f in (("HuberLoss", "delta"), ("FairLoss", "c"), ("TweedieLoss", "rho")):
        TT.ATTR_TYPES[(Q + c, f)] = "num"
    y, p = sym("y", "num"), sym("p", "num")
    ty, tp = sym("ty", "table[num]"), sym("tp", "table[num]")
    for c, par in (("LeastSquaredErrorLoss", None), ("LeastAbsoluteErrorLoss", None), ("HuberLoss", "delta"), ("FairLoss", "c"),
                   ("LogCoshLoss", None), ("TweedieLoss", "rho")):
        q = Q + c + "."
        sf = sym("self", "obj:" + Q + c)
        fd = {m: P.find_func(q + m) for m in ("compute_loss", "compute_grad", "compute_hess", "predict")}
        arg = lambda m, xs: ([sf] if fd[m] is not None and fd[m].node.args.args and fd[m].node.args.args[0].arg == "self" else []) + xs
        vs = [y, p] + ([attr(sf, par)] if par else [])
        pos = {attr(sf, par)} if par else set()
        if par == "rho":
            pos |= {p}
        L = formula(rep, P, q + "compute_loss", arg("compute_loss", [ty, tp]), c + " loss")
        g = formula(rep, P, q + "compute_grad", arg("compute_grad", [y, p]), c + " gradient")
        h = formula(rep, P, q + "compute_hess", arg("compute_hess", [y, p]), c + " hessian")
        ln = formula(rep, P, q + "predict", arg("predict", [p]), c + " link")
        if ln is not None:
            rep.check(ln is p, c + " link is the identity", q + "predict", show(ln, 8))
        if L is None or g is None or h is None:
            continue
        g, h, L = subfn(g), subfn(h), subfn(L)
        f = per_sample(rep, L, ty, tp, y, p, c + ": reported loss is a mean over all samples", q + "compute_loss")
        if f is False:
            continue
        if f is None:
            rep.undecided(c + ": reported loss is a mean over all samples", q + "compute_loss", show(L, 6))
            continue
        rep.ok(c + ": reported loss is a mean over all samples", q + "compute_loss")
        kg = kh = None
        if c == "TweedieLoss":
            kf = execute(P, "s_loss.tweedie_sample_known", [sf, y, p]).parts["result"]
            g0 = execute(P, "s_loss.tweedie_grad_known", [sf, y, p]).parts["result"]
            h0 = execute(P, "s_loss.tweedie_hess_known", [sf, y, p]).parts["result"]
            kg, kh = (g0, D(kf, p)), (h0, D(g0, p))
        if c == "LeastAbsoluteErrorLoss":
            sp = execute(P, "s_loss.lae_grad", [y, p]).parts["result"]
            a = sub(y, p)
            identity(rep, c + ": per-sample loss is the absolute error", q + "compute_loss", f, ite(le(ZERO, a), a, neg(a)), vs, pos)
            if g is sp:
                rep.ok(c + ": gradient is the sign of the residual, 0 at zero", q + "compute_grad")
            else:
                r = None
                try:
                    for d in ("0", "1e-7", "-1e-7", "9.99e-7", "-9.99e-7", "1.01e-6", "-1.01e-6", "1", "-1", "5", "-3.5"):
                        for tt in (True, False):
                            e = {y: mp.mpf(2), p: 2 + mp.mpf(d), "$type": tt}
                            if ev(g, e) != ev(sp, e):
                                r = r or "residual %s: %s instead of %s" % (d, ev(g, e), ev(sp, e))
                    if r:
                        rep.violation(c + ": gradient is the sign of the residual, 0 at zero", q + "compute_grad", r)
                    else:
                        rep.ok(c + ": gradient is the sign of the residual, 0 at zero", q + "compute_grad")
                except NoValue as e:
                    rep.undecided(c + ": gradient is the sign of the residual, 0 at zero", q + "compute_grad", e)
            identity(rep, c + ": hessian is 1", q + "compute_hess", h, ONE, vs, pos)
            continue
        try:
            dg, dh = D(f, p), D(g, p)
        except NoValue as e:
            rep.undecided(c + ": gradient is the derivative of the loss", q + "compute_grad", e)
            continue
        identity(rep, c + ": gradient is the derivative of the loss", q + "compute_grad", g, dg, vs, pos, kg)
        identity(rep, c + ": hessian is the derivative of the gradient", q + "compute_hess", h, dh, vs, pos, kh)
    for c, spec, a in (("HuberLoss", "delta_init", "delta"), ("FairLoss", "c_init", "c"), ("TweedieLoss", "rho_init", "rho")):
        sf = sym("self", "obj:" + Q + c)
        rep.equal(c + " constant", P, Q + c + ".__init__", "s_loss." + spec, [sf, sym("d", "num")])
        rep.equal(c + " constant, absent", P, Q + c + ".__init__", "s_loss." + spec, [sf, NONE])
    links(rep, P)
    q = CE + "SigmoidBinaryCrossEntropyLoss."
    L = formula(rep, P, q + "compute_loss", [ty, tp], "cross entropy loss")
    g = formula(rep, P, q + "compute_grad", [y, p], "cross entropy gradient")
    h = formula(rep, P, q + "compute_hess", [y, p], "cross entropy hessian")
    if L is not None and g is not None and h is not None:
        w = "binary cross entropy: reported loss is a mean over all samples"
        f = per_sample(rep, subfn(L), ty, tp, y, p, w, q + "compute_loss")
        if f is None:
            rep.undecided(w, q + "compute_loss", show(L, 6))
        elif f is not False:
            rep.ok(w, q + "compute_loss")
            pp = mul(p, sub(ONE, p))

            def gen():
                for e in points([y, p], 80, pos={p}):
                    e[p] = (e[p] % 1) * mp.mpf("0.98") + mp.mpf("0.01")
                    e[y] = mp.mpf(int(e[y] > 0))
                    yield e
            for what, where, a, b in (("binary cross entropy: loss is -log of the probability of the label", q + "compute_loss", f,
                                       neg(add(mul(y, call("numpy.log", p)), mul(sub(ONE, y), call("numpy.log", sub(ONE, p)))))),
                                      ("binary cross entropy: gradient is the derivative of the loss in the score", q + "compute_grad", g, mul(D(f, p), pp)),
                                      ("binary cross entropy: hessian is the derivative of the gradient in the score", q + "compute_hess", h, mul(D(g, p), pp))):
                try:
                    r = same(a, b, gen())
                    rep.check(r is None, what, where, {"found": show(a, 10), "expected": show(b, 10), "at": str(r)})
                except NoValue as e:
                    rep.undecided(what, where, e)
    # softmax
    q = CE + "SoftmaxCrossEntropyLoss."
    v = sym("v", "ndarray[num]")
    yi = sym("y", "int")
    tq = sym("tq", "table[ndarray[num]]")
    ti = sym("ti", "table[int]")
    L = formula(rep, P, q + "compute_loss", [ti, tq], "softmax loss")
    if L is not None:
        w = "softmax cross entropy: reported loss is the mean of -log of the label's probability"
        pr = sym("pr", "ndarray[num]")
        f = per_sample(rep, subfn(L), ti, tq, yi, pr, w, q + "compute_loss")
        if f is None:
            rep.undecided(w, q + "compute_loss", show(L, 6))
        elif f is not False:
            py = sym("py", "num")
            f = subst(f, {mk("get", pr, yi): py})
            identity(rep, w, q + "compute_loss", f, neg(call("numpy.log", py)), [py], {py})
    rep.equal("softmax gradient is p minus the label's indicator", P, q + "compute_grad", "s_loss.softmax_grad", [yi, v])
    rep.equal("softmax hessian is p(1-p)", P, q + "compute_hess", "s_loss.prob_hess", [yi, v])
    for cls in (BGUEST, XBGUEST):
        rep.equal("objective names select their losses", P, cls[4:] + ".set_loss", "s_loss.set_loss",
                  [sym("self", cls), sym("objective_param", "obj:ml.param.boosting_tree_param.ObjectiveParam")])


def overflow(rep, t, s, what, where):
    """no exponent exceeds 700 on its branch for |score| up to 1e6"""
    bad = None
    for pc, a in exps(t):
        for x in ("-1e6", "-1e3", "-710", "-1", "0", "1", "710", "1e3", "1e6"):
            e = {s: mp.mpf(x)}
            try:
                if A.cond(pc, e) and ev(a, e) > 700:
                    bad = "exp(%s) with score %s" % (show(a, 6), x)
            except NoValue as n:
                rep.undecided(what, where, n)
                return
    rep.check(bad is None, what, where, bad)
