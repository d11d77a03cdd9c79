"""C03: guest and host message exchanges always match."""
import ast
import os
from vgg.check import *
from vgg.rtypes import *
from checks.c12 import wire, wire_types, TAB
from checks.c16 import keepf, boost_stubs

TECH = "value-graph equality of each party's message trace with its projection of one global choreography; both parties' configuration fields compared with each other"
SCALAR = ("bool", "int", "float", "num", "str", "none")


def shape(M, data, st):
    """what of a payload steers the exchange: flags, numbers, the length of a node queue"""
    if kind(data) == "list[%s]" % NODE:
        return mk("call", "queue", M.I.M.length(data, st, None))
    v = M.V(data, st)

    def cut(t):
        if t.op == "ite":
            return ite(t.args[0], cut(t.args[1]), cut(t.args[2]))
        if kind(t) == "bool" and t not in (TRUE, FALSE):
            return ite(truth(t), TRUE, FALSE)
        if M.k0(t) in SCALAR:
            return t
        return mk("call", "data")
    return cut(v)


def rows(I, T, name):
    """what is in a table does not steer the exchange, only how many rows are left does"""
    if name in ("mapValues", "map", "join", "union", "subtractByKey", "filter", "mapPartitions", "mapReducePartitions"):
        return declare(mk("call", "rows"), "table")
    if name in ("collect", "get_kvs"):
        return declare(mk("call", "items"), "list[tuple[any|any]]")
    return None


def payload_object(o):
    """fields of the records that are sent do not steer the exchange"""
    return contains(o, lambda t: t.op == "inp")


def grown(I, f, args, kw, st, fr, node):
    """the next level's nodes: some list, a new one at every growth"""
    I.setattr(args[0], "tree_node_queue", I.M.stream("queue", [], st, "list[%s]" % NODE), st, fr, node)
    return NONE


def common(rep, P, what, G, H, m, par, fields):
    got = []
    for T in (G, H):
        S = sym("self", T)
        if P.find_func(T[4:] + "." + m) is None:
            rep.missing.append(T[4:] + "." + m)
            return
        try:
            o = execute(P, T[4:] + "." + m, [S, par])
        except (Undecided, Missing, RecursionError) as e:
            rep.undecided("configuration of a %s" % what, T[4:] + "." + m, repr(e))
            return
        rep.stat(o)
        got.append(o)
    for f in fields:
        a, b = [o.parts.get("field self." + f) for o in got]
        w = "%s.%s, %s.%s" % (G[4:].split(".")[-1], m, H[4:].split(".")[-1], m)
        if a is None or b is None:
            rep.undecided("%s of a %s" % (f, what), w, "not set")
            continue
        rep.check(a is b, "%s of a %s is the same on both sides" % (f, what), w, {"found": "guest: " + show(a, 8), "expected": "host: " + show(b, 8)})


NET = ("send_data_to_hosts", "recv_data_from_hosts", "send_data_to_guest", "recv_data_from_guest")


def sources(P):
    for r in P.roots:
        if os.path.abspath(r) == os.path.dirname(os.path.dirname(os.path.abspath(__file__))) or r.endswith("/specs"):
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = [x for x in ds if x != "__pycache__" and not x.startswith(".")]
            for f in sorted(fs):
                if f.endswith(".py"):
                    m = P.module(os.path.relpath(os.path.join(d, f), r)[:-3].replace(os.sep, "."))
                    if m is not None:
                        yield m


def outside(rep, P, silent):
    """who talks: a transfer method is only used in functions the protocols were read from, and
    what the protocols were read without (local computation) does not reach one"""
    funcs, refs, talk = [], {}, set(NET)
    for m in sources(P):
        if m.name.startswith("federation."):
            continue
        for c in m.tree.body:
            for f in (c.body if isinstance(c, ast.ClassDef) else [c]):
                if isinstance(f, ast.FunctionDef):
                    q = "%s.%s%s" % (m.name, c.name + "." if f is not c else "", f.name)
                    used = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute)}
                    mine = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
                    funcs.append((q, f.name, used, mine))
                    own = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and not (isinstance(n.value, ast.Name) and n.value.id == "self")]
                    for u in {n.attr for n in own}:
                        refs.setdefault(u, set()).add(q)
                    for u in mine:
                        refs.setdefault((q.rpartition(".")[0], u), set()).add(q)
    direct = [(q, n) for q, n, used, mine in funcs if used & set(NET)]
    for q, n in direct:
        if q in rep.analysed:
            rep.ok("the messages of this function are part of the protocol", q)
        elif (refs.get(n, set()) | refs.get((q.rpartition(".")[0], n), set())) - {q}:
            rep.violation("the messages of this function are part of the protocol", q, "sends or receives outside the exchanges of the other party")
    by = {}
    for q, n, used, mine in funcs:
        by.setdefault(q.rpartition(".")[0], {})[n] = (used, mine)
    for q in sorted(q for q in silent if P.find_func(q) is not None):
        cls = q.rpartition(".")[0]
        todo, seen, hit = [q.rpartition(".")[2]], set(), None
        while todo:
            n = todo.pop()
            if n in seen or n not in by.get(cls, {}):
                continue
            seen.add(n)
            used, mine = by[cls][n]
            if used & set(NET):
                hit = n
            todo.extend(mine)
        rep.check(hit is None, "local computation exchanges nothing", q, "reaches a transfer method through %s" % hit)


def run(rep):
    rep.rule("value-graph equality of the message trace of each party's training and prediction (kind and order of messages, addressed host, flags, queue lengths, and every "
             "condition and loop bound that governs them) with that party's projection of one global choreography (s_proto)")
    P = program()
    install(wire_types())
    net = keepf("effect log:net")
    st = dict(wire("list", "any"), **{"net:shape": shape, "net:count": True, "net:tables": rows, "net:frozen": payload_object})
    Q = "list[%s]" % NODE

    def fit_stubs(t):
        s = dict(st)
        for m in "get_grad_hess_sum dispatch_all_node_to_root get_histograms merge_splitinfo convert_bin_to_real find_host_split find_best_split_guest_and_host".split():
            s[t + m] = havoc(m, ret="any")
        return s
    G = GTREE[4:] + "."
    S = sym("self", GTREE)
    sg = fit_stubs(G)
    sg[G + "get_grad_hess_sum"] = havoc("totals", ret="tuple[num|num]")
    sg[G + "update_tree_node_queue"] = grown
    sg["ml.tree.node.Node.__init__"] = skip()
    sg[SPLITTER[4:] + ".find_split"] = havoc("find_split", ret="list[%s]" % SPLIT)
    sg[SPLITTER[4:] + ".node_weight"] = opaque("weight", ty="num")
    rep.equal("levels of a tree (guest)", P, G + "fit", "s_proto.tree_fit_guest", [S], stubs=sg, keep=net)
    rep.equal("prediction with a tree (guest)", P, G + "predict", "s_proto.tree_predict_guest", [S, sym("data", "table[%s]" % INST)], stubs=st, keep=net)
    H = HTREE[4:] + "."
    S = sym("self", HTREE)
    sh = fit_stubs(H)
    sh[SPLITTER[4:] + ".find_split_host"] = lambda I, f, a, k, s, fr, n: I.M.stream("splits", [], s, "tuple[list[list[%s]]|any]" % SPLIT)
    rep.equal("levels of a tree (host)", P, H + "fit", "s_proto.tree_fit_host", [S], stubs=dict(sh, **{"net:guest": Q}), keep=net)
    rep.equal("prediction with a tree (host)", P, H + "predict", "s_proto.tree_predict_host", [S, sym("data", "table[%s]" % INST)], stubs=st, keep=net)
    local = lambda s, *talk: {k for k in s if k.startswith("ml.") and k not in talk}
    silent = local(sg) | local(sh)

    # the rounds of training and prediction around the trees
    def tree_run(name, more=None):
        def h(I, f, args, kw, s, fr, node):
            I.M.event("net", name, [I.M.V(I.getattr(args[0], "transfer_inst", s, fr, node), s)], s)
            for w, ty in (more or {}).items():
                I.setattr(args[0], w, declare(mk("call", name + "." + w), ty), s, fr, node)
            return declare(mk("call", name), "table[num]")
        return h
    for B, T, tag in ((BGUEST, GTREE, "guest"), (BHOST, HTREE, "host")):
        b, t = B[4:] + ".", T[4:] + "."
        S = sym("self", B)
        s = dict(boost_stubs(B, T), **st)
        s[t + "fit"] = tree_run("tree-fit", {"predict_weights": "table[num]"})
        s[t + "predict"] = tree_run("tree-predict")
        s[t + "get_model"] = opaque("model", "tuple[obj:meta|obj:param]", skip_self=True)
        s[t + "load_model"] = skip()
        s[t + "set_flowid"] = skip()
        s[b + "set_y"] = havoc("sety", [], {"tree_dim": "int"})
        s[b + "compute_loss"] = opaque("loss", "num")
        s[b + "check_convergence"] = lambda I, f, a, k, s, fr, n: I.M.stream("converged", [], s, "bool")
        for m in ("compute_grad_and_hess", "update_f_value", "update_feature_importance", "set_loss"):
            s[b + m] = skip()
        s[b + "get_grad_and_hess"] = opaque("gh", "table")
        silent |= local(s, t + "fit", t + "predict")
        D = sym("data", "table[%s]" % INST)
        rep.equal("rounds of training (%s)" % tag, P, b + "fit", "s_proto.boost_fit_" + tag, [S, D], stubs=s, keep=net)
        for task in (("classification", "regression") if T == GTREE else ("",)):
            i = {("f", S, "task_type"): const(task), ("f", attr(S, "objective_param"), "objective"): const("lse")} if task else None
            rep.equal("rounds of prediction (%s%s)" % (tag, task and ", " + task), P, b + "predict", "s_proto.boost_predict_" + tag, [S, D], stubs=s, keep=net, init=i)
        # a kept tree per tree of a round: prediction visits what training exchanged
        rep.equal("trees kept in training (%s)" % tag, P, b + "fit", "s_proto.trees_kept_" + tag, [S, D], stubs=s, keep=keepf("content self.trees_", "field self.trees_"))

    rep.rule("the configuration fields that steer the exchange get the same value on both sides from the same parameters")
    par = sym("param", "obj:ml.param.boosting_tree_param.DecisionTreeParam")
    common(rep, P, "tree", GTREE, HTREE, "__init__", par, ("max_depth", "max_split_nodes"))
    par = sym("param", "obj:ml.param.boosting_tree_param.BoostingTreeParam")
    common(rep, P, "model", BGUEST, BHOST, "_init_model", par, ("tree_param", "num_trees", "n_iter_no_change"))

    rep.rule("no function outside the two analysed protocols sends or receives")
    outside(rep, P, silent)
