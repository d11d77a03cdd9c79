"""C19: guest and host split rows into train and test identically."""
from vgg.check import *
from vgg.rtypes import *

IO = "i_o.utils."
TECH = "dataflow abstract interpretation of both programs to value graphs; sibling agreement of the rows handed to training and prediction"


def stubs(B):
    b = B[4:] + "."
    cols = "tuple[list[str]|list[str]|list[ndarray[num]]|list[str]]"
    return {b + "fit": effect("run", "fit"), b + "predict": effect("run", "predict"), b + "__init__": skip(),
            "ml.tree.boosting_tree.BoostingTree._init_model": skip(), "ml.tree.boosting_tree.BoostingTree.set_transfer_inst": skip(),
            b + "set_runtime_idx": skip(), "federation.transfer_inst.TransferInstGuest.__init__": skip(),
            "federation.transfer_inst.TransferInstHost.__init__": skip(),
            IO + "read_from_csv_with_lable": columns(cols, 4), IO + "read_from_csv_with_no_lable": columns(cols, 3)}


def columns(ty, n):
    """the readers return a header and one entry per row and column (C20)"""
    def h(I, f, args, kw, st, fr, node):
        r = opaque("rows", ty)(I, f, args, kw, st, fr, node)
        cnt = declare(mk("call", "nrows", r), "int")
        i = fresh("i")
        return mk("tuple", get(r, ZERO), *[TT.comp(N(cnt), TT.lam([i], [TRUE, seq(get(get(r, num(k)), i))])) for k in range(1, n)])
    return h


def table_arg(o, name):
    """the rows of the table first handed to fit / predict"""
    for e in TT.subterms(o.parts.get("effect log:run", NIL)) if hasattr(TT, "subterms") else walk(o.parts.get("effect log:run", NIL)):
        if e.op == "ev" and e.args[0] == name:
            a = e.args[1]
            return a.args[0] if a.op == "tseq" else a
    return None


def walk(t):
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        todo += [a for a in u.args if isinstance(a, T)]


def leaves(t, pc=TRUE):
    if t.op == "ite":
        for x in leaves(t.args[1], and_(pc, t.args[0])):
            yield x
        for x in leaves(t.args[2], and_(pc, not_(t.args[0]))):
            yield x
    else:
        yield pc, t


def base(x):
    return x.args[1] if isshuf(x) else x


def isshuf(x):
    return x.op == "call" and x.args[0] == "shuffled"


def instance_rows(rep, o, tr, q, m, src):
    """every row of the file becomes the instance of that row, in order, under the file's header"""
    inst = None
    for u in walk(tr):
        if u.op == "comp" and any(v.op == "new" and v.args[0] == "ml.feature.instance.Instance" for v in walk(u)):
            inst = u
    rows = mk("call", "rows", src)
    if inst is None:
        rep.undecided("row i becomes instance i", q, show(tr, 8))
        return None
    i = fresh("i")
    n = inst.args[0]
    e = instantiate(inst.args[1], [i])
    want = {"inst_id": get(get(rows, ONE), i), "features": get(get(rows, num(2)), i)}
    if m == "guest":
        want["label"] = get(get(rows, num(3)), i)
    new = [v for v in walk(e[1] if isinstance(e, (tuple, list)) else e) if v.op == "new"]
    f = {a.args[0]: a.args[1] for v in new for a in v.args[1:] if isinstance(a, T) and a.op == "fld"}
    for k, v in want.items():
        rep.check(f.get(k) is v, "instance i has the %s of row i" % k, q, show(f.get(k, NONE), 8))
    rep.check(n is N(mk("call", "nrows", rows)), "every row becomes an instance", q, show(n, 8))
    hs = [k for k in o.parts if k.startswith("content tseq") and k.endswith(".schema")]
    for k in hs:
        sets = [v for v in walk(o.parts[k].args[1]) if v.op == "set"] if o.parts[k].op == "upd" else []
        if len(sets) == 1 and show(sets[0].args[0], 9) == "path(pg('header'))":
            rep.check(sets[0].args[1] is get(rows, ZERO), "a table's header is the file's", q, show(sets[0].args[1], 8))
        else:
            rep.undecided("a table's header is the file's", q, show(o.parts[k], 8))
    return inst


def run(rep):
    rep.rule("rows passed to fit and predict are complementary slices of one permutation of the file's rows, in each program")
    rep.rule("the guest's and the host's permutation, offset and seed are the same value graph (labels and argument positions aside)")
    P = program()
    install()
    got = {}
    argv = sym("argv", "list[str]")
    for m, q, B, nratio in (("guest", "guest.test_hetero_secure_boost_guest", BGUEST, 2), ("host", "host.test_hetero_seucre_boost_host", BHOST, 1)):
        st = stubs(B)
        st[m + ".getArgs"] = lambda I, f, args, kw, s, fr, node: argv
        try:
            o = execute(P, q, [], stubs=st)
        except Missing:
            rep.missing.append(q)
            continue
        except Exception as e:
            rep.undecided("row split", q, repr(e))
            continue
        rep.stat(o)
        if o.opaque:
            rep.undecided("row split", q, o.opaque[:3])
            continue
        tr, te = table_arg(o, "fit"), table_arg(o, "predict")
        if tr is None or te is None:
            rep.undecided("row split", q, "no fit or predict call found")
            continue
        ratio = get(argv, num(nratio))

        def norm(u, ratio=ratio):
            if u.op == "new" and u.args[0] == "ml.feature.instance.Instance":
                return mk("new", *[a for a in u.args if not (isinstance(a, T) and a.op == "fld" and a.args[0] == "label")])
            if u is ratio:
                return sym("ratio", "str")
        inst = instance_rows(rep, o, tr, q, m, get(argv, ZERO))
        seed = o.parts.get("effect seed:random.seed", ZERO)
        ltr, lte = list(leaves(tr)), list(leaves(te))
        # the two tables are cut from the same rows: compare leaf by leaf under the same conditions
        bad = und = None
        for c1, x in ltr:
            for c2, y in lte:
                c = and_(c1, c2)
                if c is FALSE:
                    continue
                if x is NIL and (y is inst or base(y) is inst) or y is NIL and (x is inst or base(x) is inst):
                    if not (isshuf(x) or isshuf(y)):
                        continue
                if x.op == "slice" and y.op == "slice" and x.args[0] is y.args[0] and base(x.args[0]) is inst:
                    if x.args[1] is NONE and y.args[2] is NONE and x.args[2] is y.args[1]:
                        if isshuf(x.args[0]):
                            s = under(seed, c)
                            if not is_num(s):
                                bad = "the rows are shuffled without a fixed seed: %s" % show(s, 8)
                        continue
                    if y.args[1] is NONE and x.args[2] is NONE and y.args[2] is x.args[1]:
                        continue
                    bad = "train %s and test %s do not partition the rows" % (show(x, 6), show(y, 6))
                elif contains(x, lambda u: u is inst) or contains(y, lambda u: u is inst):
                    if set(v.op for v in walk(x)) | set(v.op for v in walk(y)) <= KNOWN or x.op == "slice" and y.op == "slice":
                        bad = "train %s and test %s do not partition the rows" % (show(x, 6), show(y, 6))
                    else:
                        und = "%s / %s" % (show(x, 6), show(y, 6))
        w = "no row is lost or in both parts"
        if bad:
            rep.violation(w, q, bad)
        elif und:
            rep.undecided(w, q, und)
        else:
            rep.ok(w, q)
        got[m] = {k: TT.rewrite(v, norm) for k, v in (("training rows", tr), ("test rows", te), ("shuffle seed", seed))}
    for m, q, B in (("guest", "guest.heteto_sbt_guest", BGUEST), ("host", "host.heteto_sbt_host", BHOST)):
        if P.find_func(q) is None:
            continue
        try:
            o = execute(P, q, [], stubs=stubs(B))
        except Exception as e:
            rep.undecided("rows of the training program", q, repr(e))
            continue
        rep.stat(o)
        tr = table_arg(o, "fit")
        src = {u.args[1] for u in walk(tr) if u.op == "call" and u.args[0] == "rows"} if tr is not None else set()
        if o.opaque or len(src) != 1:
            rep.undecided("rows of the training program", q, o.opaque[:3])
            continue
        inst = instance_rows(rep, o, tr, q, m, src.pop())
        if inst is not None:
            rep.judge("all rows are trained on", q, True if tr is inst else False if tr.op in ("slice", "comp") else None, show(tr, 6), "every instance")
    if len(got) == 2:
        for k in got["guest"]:
            a, b = got["guest"][k], got["host"][k]
            if a is b:
                rep.ok("same %s on guest and host" % k, "guest.data_split / host.data_split")
            else:
                rep.violation("same %s on guest and host" % k, "guest.data_split / host.data_split", {"found": show(a, 9)[:900], "expected": show(b, 9)[:900]})


KNOWN = {"slice", "shuffled", "comp", "lam", "new", "fld", "get", "call", "sym", "num", "int", "poly", "N", "len", "bv", "none", "one", "cat", "str", "inp"}
