"""Obligations: a repository function and a reference definition denote the same
canonical values, effects and failures."""
import json
import os
import sys
import time
import traceback
from . import terms as TT
from .terms import *
from .prog import Program
from .engine import Interp, State, Undecided, Out

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.setrecursionlimit(50000)


class Missing(Exception):
    """the anchor of an obligation is gone"""


def program(extra=()):
    return Program([REPO, os.path.join(VERIF, "specs")] + list(extra))


# ---------------------------------------------------------------- stubs
def opaque(name=None, ty=None, skip_self=False, drop=()):
    """the call is an uninterpreted function of its arguments"""
    def h(I, f, args, kw, st, fr, node):
        _, b = I.bind(f, args, kw, st, None) if hasattr(f, "kind") else (None, None)
        if b is not None:
            ks = [k for k in b if not (skip_self and k == "self") and k not in drop]
            vs = [I.M.V(b[k], st) for k in ks]
        else:
            vs = [I.M.V(a, st) for a in args] + [mk("kw", k, I.M.V(v, st)) for k, v in sorted(kw.items())]
        t = mk("call", name or f.qual.split(".")[-1], *vs)
        return declare(t, ty) if ty else t
    return h


def effect(chan, name=None, ret=None, skip_self=True):
    """the call is an event on a channel; ret: None | 'stream' with type"""
    def h(I, f, args, kw, st, fr, node):
        _, b = I.bind(f, args, kw, st, None)
        vs = [b[k] for k in b if not (skip_self and k == "self")]
        I.M.event(chan, name or f.qual.split(".")[-1], vs, st)
        if ret is None:
            return NONE
        v = I.M.stream(chan + ":" + (name or f.qual.split(".")[-1]), [], st, ret)
        return v
    return h


def skip(value=NONE):
    return lambda I, f, args, kw, st, fr, node: value


def havoc(name, reads=(), writes=None, ret=None, ev=None, evargs=True, skip_self=True, drop=()):
    """the call is an uninterpreted function of the named fields and its arguments,
    which may set the named fields"""
    def h(I, f, args, kw, st, fr, node):
        _, b = I.bind(f, args, kw, st, None)
        vs = [I.M.V(b[k], st) for k in b if not (skip_self and k == "self") and k not in drop]
        for r in reads:
            vs.append(I.M.V(I.getattr(args[0], r, st, fr, node), st))
        if ev:
            I.M.event(ev, name, vs if evargs else [], st)
        for w, ty in (writes or {}).items():
            t = mk("call", name + "." + w, *vs)
            if ty:
                declare(t, ty)
            I.setattr(args[0], w, t, st, fr, node)
        if ret is None:
            return NONE
        t = mk("call", name, *vs)
        return declare(t, ret) if ret != "?" else t
    return h


class Outcome(object):
    pass


def simp(v):
    """drop copy marks: the value of a copy is the value"""
    if not contains(v, lambda t: t.op in ("copyof",)):
        return v
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "copyof":
            r = go(t.args[0])
        elif not any(isinstance(a, T) for a in t.args):
            r = t
        else:
            args = [go(a) if isinstance(a, T) else a for a in t.args]
            r = t if all(x is y for x, y in zip(args, t.args)) else (mk(t.op, *args) if t.op == "lam" else rebuild(t.op, args))
        memo[t] = r
        return r
    return go(v)


def execute(prog, qual, args, kw=None, stubs=None, init=None, adt=True, spec=False, selfcls=None, hooks=None, keep=None, drop=None, prep=None):
    """abstract run of a function; returns an Outcome"""
    I = Interp(prog, stubs, adt=adt)
    if hooks:
        I.hooks.update(hooks)
    f = prog.find_func(qual)
    if f is None:
        raise Missing(qual)
    st = State({}, TRUE)
    if prep:
        prep(I, st)
    for k, v in (init or {}).items():
        st.v[k] = v
    a = []
    for x in args:
        a.append(x(I, st) if callable(x) and not isinstance(x, T) else x)
    kws = {k: (x(I, st) if callable(x) and not isinstance(x, T) else x) for k, x in (kw or {}).items()}
    start = dict(st.v)
    ret = I.call_func(f, None, a, kws, st)
    o = Outcome()
    o.I = I
    o.opaque = list(I.opaque)
    o.parts = {}
    ok = st.pc
    o.st, o.ret = st, ret
    if ok is not FALSE:
        r = ret
        if r.op in ("range", "enum", "zip", "rev", "dview", "mapv"):
            r = mk("newlist", I.M.as_seq(r, st, None))
        o.parts["result"] = simp(region(I.reify(I.M.val(r, st), st), ok, BOT))
        for key, v in st.v.items():
            if start.get(key) is v or key[0] in ("l", "g"):
                continue
            if key[0] == "x":
                if str(key[1]).startswith("n:"):
                    continue
                o.parts["effect " + str(key[1])] = simp(region(I.reify(v, st), ok, BOT))
                continue
            c = key[1]
            if c.op in ("ref", "cp") and c not in [x for x in a if isinstance(x, T)]:
                continue
            nm = ("field %s.%s" % (show(c, 4), key[2])) if key[0] == "f" else ("content %s" % show(c, 4))
            if key[0] == "f" and key[2].startswith("_") and False:
                continue
            t = simp(region(I.reify(v, st), ok, BOT))
            if key[0] == "f" and t is attr(c, key[2]):
                continue
            o.parts[nm] = t
    exc = {}
    for p in I.pend:
        if p.st.pc is FALSE:
            continue
        nm = p.val.args[0] if p.val.op == "exc_t" else "?"
        nm = str(nm).split(".")[-1]
        exc[nm] = or_(exc.get(nm, FALSE), p.st.pc)
    for nm, c in exc.items():
        if c is not FALSE:
            o.parts["raises " + nm] = c
    o.parts["returns normally"] = ok
    if drop:
        for k in list(o.parts):
            if drop(k):
                del o.parts[k]
    if keep:
        for k in list(o.parts):
            if not keep(k):
                del o.parts[k]
    return o


class Report(object):
    def __init__(self, pid, title=""):
        self.pid, self.title = pid, title
        self.t0 = time.time()
        self.obl = []
        self.viol = []
        self.undec = []
        self.analysed = set()
        self.known_hits = []
        self.loops = self.calls = self.steps = 0
        self.rules = []
        self.missing = []
        self.verbose = "-v" in sys.argv
        self.known = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("known: property=%s " % pid):
                    self.known.append(l.split(" ", 2)[2])

    def rule(self, text):
        self.rules.append(text)

    def stat(self, o):
        self.analysed |= set(q for q in o.I.inlined if not q.startswith("spec"))
        self.loops += o.I.loops
        self.calls += o.I.calls
        self.steps += o.I.steps

    def ok(self, what, where):
        self.obl.append((what, where, "holds"))

    def violation(self, what, where, detail):
        for k in self.known:
            key = k.split(" :: ")[0]
            if key == "%s@%s" % (what, where):
                self.known_hits.append(k)
                self.obl.append((what, where, "known finding"))
                return
        self.obl.append((what, where, "violated"))
        self.viol.append({"obligation": what, "construct": where, "detail": detail})

    def undecided(self, what, where, why):
        self.obl.append((what, where, "undecided: " + str(why)[:300]))
        self.undec.append((what, where, str(why)[:300]))

    def check(self, cond, what, where, detail=""):
        if cond:
            self.ok(what, where)
        else:
            self.violation(what, where, detail)

    def judge(self, what, where, cond, found="", expected=""):
        """cond: True holds, False violated, None not decided"""
        if cond:
            self.ok(what, where)
        elif cond is None:
            self.undecided(what, where, found)
        else:
            self.violation(what, where, {"found": found, "expected": expected})

    def equal(self, what, prog, target, spec, args, kw=None, stubs=None, init=None, adt=True, keep=None, drop=None, spec_stubs=None, prep=None, spec_init=None,
              post=None, at=None):
        """obligation: target and spec have the same outcome on the symbolic arguments"""
        where = at or target
        try:
            o = execute(prog, target, args, kw, stubs, init, adt, keep=keep, drop=drop, prep=prep)
        except Undecided as e:
            self.undecided(what, where, e)
            return None
        except Missing:
            self.missing.append(target)
            return None
        except RecursionError:
            if self.verbose:
                print("\n".join(traceback.format_exc().splitlines()[-60:]))
            self.undecided(what, where, "analysis depth")
            return None
        except Exception as e:
            if self.verbose:
                traceback.print_exc()
            self.undecided(what, where, "analysis failed: %r" % e)
            return None
        self.stat(o)
        if isinstance(spec, (list, tuple)):
            # several accepted definitions: the first that agrees entirely is the reference
            for alt in spec[1:]:
                try:
                    s = execute(prog, alt, args, kw, spec_stubs if spec_stubs is not None else stubs, init if spec_init is None else spec_init, adt, keep=keep, drop=drop, prep=prep)
                except (Undecided, RecursionError):
                    continue
                if set(s.parts) == set(o.parts) and all(s.parts[n] is o.parts[n] for n in s.parts):
                    spec = alt
                    break
            else:
                spec = spec[0]
        try:
            s = execute(prog, spec, args, kw, spec_stubs if spec_stubs is not None else stubs, init if spec_init is None else spec_init, adt, keep=keep, drop=drop, prep=prep)
        except (Undecided, RecursionError) as e:
            self.undecided(what, where, "reference definition: %r" % e)
            return o
        if s.opaque:
            self.undecided(what, where, "reference definition not modelled: %s" % s.opaque[:3])
            return o
        if post:
            post(o)
            post(s)
        names = sorted(set(o.parts) | set(s.parts))
        for n in names:
            a, b = o.parts.get(n), s.parts.get(n)
            if a is None and n.startswith("raises"):
                a = FALSE
            if b is None and n.startswith("raises"):
                b = FALSE
            if a is None and n.startswith("effect"):
                a = NIL
            if b is None and n.startswith("effect"):
                b = NIL
            if a is None and n.startswith("field"):
                a = "unchanged"
            if b is None and n.startswith("field"):
                b = "unchanged"
            w = "%s: %s" % (what, n)
            if a is b:
                self.ok(w, where)
                continue
            und = o.opaque or self.weak(a, b)
            if und:
                self.undecided(w, where, "not modelled: %s" % (und[:3] if isinstance(und, list) else und))
                if self.verbose:
                    self.explain(w, a, b)
                continue
            d = self.explain(w, a, b)
            self.violation(w, where, d)
        return o

    def weak(self, a, b):
        """differences the canonical form is known not to decide"""
        return None

    def explain(self, w, a, b):
        if isinstance(a, T) and isinstance(b, T):
            path, x, y = diff(a, b)
        else:
            path, x, y = [], a, b
        sh = lambda t: show(t, 12) if isinstance(t, T) else str(t)
        d = {"at": "/".join(path), "found": sh(x)[:1500], "expected": sh(y)[:1500]}
        if self.verbose:
            print("DIFF %s\n   at %s\n   found    %s\n   expected %s" % (w, d["at"][-300:], d["found"][:700], d["expected"][:700]))
        return d

    def finish(self, notes=""):
        n = len(self.obl)
        held = sum(1 for o in self.obl if o[2] == "holds")
        kinds = {}
        for o in self.obl:
            k = o[2].split(":")[0]
            kinds[k] = kinds.get(k, 0) + 1
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick"),
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static: the listed functions of /repo's current source were read and turned into canonical value graphs "
                               "(no code of /repo is run); each obligation is one rule instance on a named construct. " + notes,
                "rules": self.rules,
                "obligations": n,
                "discharged": held,
                "outcomes": kinds,
                "functions_analysed": sorted(self.analysed),
                "functions_count": len(self.analysed),
                "calls_followed": self.calls,
                "loops_summarised": self.loops,
                "statements_transferred": self.steps,
                "undecided": [{"obligation": a, "construct": b, "why": c} for a, b, c in self.undec],
                "obligation_list": ["%s @ %s: %s" % o for o in self.obl],
            },
            "assumptions": ["external libraries (numpy, random, socket, pickle, protobuf, gmpy2) behave as their documentation says",
                            "attributes are not added or replaced reflectively from outside the analysed functions"],
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.viol),
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        for k in sorted(set(self.known_hits)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        print("%s: %d obligations, %s; %d functions analysed, %.1fs" % (
            self.pid, n, ", ".join("%d %s" % (v, k) for k, v in sorted(kinds.items())), len(self.analysed), time.time() - self.t0))
        for a, b, c in self.undec:
            print("  undecided: %s @ %s (%s)" % (a, b, c))
        if self.viol:
            rp = os.path.join(EVID, self.pid + ".violation.json")
            json.dump(self.viol, open(rp, "w"), indent=1)
            for v in self.viol[:12]:
                print("  violated: %s @ %s" % (v["obligation"], v["construct"]))
                if isinstance(v["detail"], dict):
                    print("     found:    %s" % v["detail"].get("found", "")[:400])
                    print("     expected: %s" % v["detail"].get("expected", "")[:400])
                else:
                    print("     %s" % str(v["detail"])[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.missing:
            print("ERROR: anchor not found: %s" % ", ".join(self.missing))
            return 2
        return 0
