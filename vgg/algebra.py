"""Elementary real algebra on extracted formulas: derivative by rule, and an
identity test for two closed-form expressions (equal in canonical form, or
equal as real functions at sample points of their domain, 40 digits)."""
import random
from fractions import Fraction
import mpmath as mp
from . import terms as TT
from .terms import *

mp.mp.dps = 40
FN = {"exp": mp.exp, "log": mp.log, "sqrt": mp.sqrt, "tanh": mp.tanh, "cosh": mp.cosh, "sinh": mp.sinh, "log1p": lambda x: mp.log(1 + x),
      "expm1": lambda x: mp.exp(x) - 1, "abs": abs, "absolute": abs, "fabs": abs, "sign": mp.sign, "square": lambda x: x * x,
      "log2": lambda x: mp.log(x, 2), "arctan": mp.atan, "float": lambda x: x, "float64": lambda x: x, "array": lambda x: x, "asarray": lambda x: x,
      "nan_to_num": lambda x: x, "reciprocal": lambda x: 1 / x, "power": lambda x, y: mp.power(x, y), "maximum": max, "minimum": min, "max": max, "min": min,
      "add": lambda x, y: x + y, "subtract": lambda x, y: x - y, "multiply": lambda x, y: x * y, "divide": lambda x, y: x / y, "negative": lambda x: -x,
      "hypot": lambda x, y: mp.sqrt(x * x + y * y), "logaddexp": lambda x, y: mp.log(mp.exp(x) + mp.exp(y)), "full": lambda s, v: v,
      "ones_like": lambda x: mp.mpf(1), "zeros_like": lambda x: mp.mpf(0), "full_like": lambda x, v: v, "pow": lambda x, y: mp.power(x, y),
      "clip": lambda x, a, b: min(max(x, a), b), "log10": mp.log10}


class NoValue(Exception):
    pass


def short(f):
    return f.split(".")[-1]


def ev(t, env):
    """real value of an expression at a point"""
    o = t.op
    if t in env:
        return env[t]
    if o == "num":
        return mp.mpf(t.args[0].numerator) / t.args[0].denominator
    if o == "poly":
        s = mp.mpf(0)
        for m in t.args:
            x = mp.mpf(m.args[0].numerator) / m.args[0].denominator
            for f in m.args[1:]:
                x *= ev(f, env)
            s += x
        return s
    if o == "inv":
        return 1 / ev(t.args[0], env)
    if o == "pow":
        return mp.power(ev(t.args[0], env), ev(t.args[1], env))
    if o == "ite":
        return ev(t.args[1] if cond(t.args[0], env) else t.args[2], env)
    if o == "call":
        f = short(t.args[0])
        if f == "full" and len(t.args) > 2:
            return ev(t.args[2], env)
        if f in ("ones_like", "zeros_like", "ones", "zeros"):
            return mp.mpf(1 if f.startswith("ones") else 0)
        if f == "full_like":
            return ev(t.args[2], env)
        if f in FN:
            return FN[f](*[ev(a, env) for a in t.args[1:] if a.op != "kw"])
    if o in ("true", "false"):
        return mp.mpf(1 if o == "true" else 0)
    if o in BOOL_OPS:
        return mp.mpf(1 if cond(t, env) else 0)
    raise NoValue(show(t, 4))


def cond(a, env):
    if a is TRUE:
        return True
    if a is FALSE:
        return False
    if a in env:
        return bool(env[a])
    if a.op == "ite":
        return cond(a.args[1] if cond(a.args[0], env) else a.args[2], env)
    if a.op in ("ge", "gt"):
        v, k = ev(a.args[0], env), mp.mpf(a.args[1].numerator) / a.args[1].denominator
        return v > k if a.op == "gt" else v >= k
    if a.op == "eqc":
        if a.args[0].op == "attr":        # type tests: any branch must do
            return env.get("$type", False)
        return ev(a.args[0], env) == ev(a.args[1], env)
    if a.op == "truth":
        return ev(a.args[0], env) != 0
    raise NoValue(show(a, 4))


def points(vars_, n=60, seed=1, lo=-6, hi=6, pos=()):
    rnd = random.Random(seed)
    for _ in range(n):
        env = {}
        for v in vars_:
            if v in pos:
                env[v] = mp.mpf(rnd.randint(1, 4000)) / 997
            else:
                env[v] = mp.mpf(rnd.randint(lo * 1000, hi * 1000)) / 997
        env["$type"] = rnd.random() < 0.5
        yield env


def same(a, b, gen):
    """None when no point distinguishes a from b, else a description"""
    if a is b:
        return None
    n = 0
    for env in gen:
        try:
            x, y = ev(a, env), ev(b, env)
        except (ZeroDivisionError, ValueError, TypeError):
            continue
        n += 1
        if abs(mp.im(x)) > 0 or abs(mp.im(y)) > 0:
            continue
        if abs(x - y) > mp.mpf(10) ** -25 * (1 + abs(x) + abs(y)):
            return {str(k): mp.nstr(v, 8) for k, v in env.items() if isinstance(k, T)}, mp.nstr(x, 12), mp.nstr(y, 12)
    return None if n else "no common domain"


def D(t, x):
    """derivative of expression t with respect to atom x"""
    if t is x:
        return ONE
    o = t.op
    if not contains(t, lambda u: u is x):
        return ZERO
    if o == "poly":
        s = ZERO
        for m in t.args:
            fs = m.args[1:]
            for i, f in enumerate(fs):
                d = D(f, x)
                if d is ZERO:
                    continue
                p = mul(num(m.args[0]), d)
                for j, g in enumerate(fs):
                    if j != i:
                        p = mul(p, g)
                s = add(s, p)
        return s
    if o == "inv":
        u = t.args[0]
        return neg(mul(D(u, x), mul(inv(u), inv(u))))
    if o == "ite":
        return ite(t.args[0], D(t.args[1], x), D(t.args[2], x))
    if o == "pow":
        u, v = t.args
        if D(v, x) is ZERO:
            return mul(mul(v, pow_(u, sub(v, ONE))), D(u, x))
        return mul(t, add(mul(D(v, x), call("numpy.log", u)), mul(v, mul(D(u, x), inv(u)))))
    if o == "call":
        f = short(t.args[0])
        a = [y for y in t.args[1:] if y.op != "kw"]
        if f in ("float", "float64", "array", "asarray", "nan_to_num"):
            return D(a[0], x)
        if f == "full":
            return D(a[1], x)
        u = a[0]
        du = D(u, x)
        r = {"exp": lambda: t, "log": lambda: inv(u), "sqrt": lambda: mul(num(Fraction(1, 2)), inv(t)), "log1p": lambda: inv(add(ONE, u)),
             "expm1": lambda: call("numpy.exp", u), "tanh": lambda: sub(ONE, mul(t, t)), "cosh": lambda: call("numpy.sinh", u),
             "sinh": lambda: call("numpy.cosh", u), "square": lambda: mul(num(2), u),
             "abs": lambda: call("numpy.sign", u), "absolute": lambda: call("numpy.sign", u), "fabs": lambda: call("numpy.sign", u), "sign": lambda: ZERO,
             "log2": lambda: inv(mul(u, call("numpy.log", num(2))))}.get(f)
        if r:
            return mul(du, r())
        if f == "power" and len(a) == 2:
            return D(pow_(a[0], a[1]), x)
        if f == "logaddexp":
            w = inv(add(ONE, call("numpy.exp", sub(a[1], a[0]))))
            return add(mul(du, w), mul(D(a[1], x), sub(ONE, w)))
        if f in ("maximum", "max") and len(a) == 2:
            return D(ite(le(a[1], a[0]), a[0], a[1]), x)
        if f in ("minimum", "min") and len(a) == 2:
            return D(ite(le(a[0], a[1]), a[0], a[1]), x)
    raise NoValue("derivative of " + show(t, 4))
