"""C24: merged statistics equal the statistics of the combined data."""
from vgg.check import *
from vgg.rtypes import *
from vgg.account import Account, St, elem
from vgg.stream import L, ladd, lsub, lvar, lkey, lshow, Unsupported

TECH = "affine-relation analysis of record weights through list code; value-graph equality of the statistics"
M = "ml.feature.quantile_summaries."
QS, SQ, ST = "obj:" + M + "QuantileSummaries", "obj:" + M + "SparseQuantileSummaries", "obj:" + M + "Stats"
SS = "obj:ml.statistic.statics.SummaryStatistics"


def setup(A, P, names):
    s = St()
    cls = P.find_class(QS[4:])
    out = []
    for n in names:
        cnt, hn = lvar("count(%s)" % n), lvar("buffered(%s)" % n)
        q = A.newseq(s, lvar("len(%s)" % n), cnt, "rec", asc=True)
        q.first, q.last = elem(q.id, L(0)), elem(q.id, lsub(q.n, L(1)))
        h = A.newseq(s, hn, hn, "num")
        s.ge(cnt)
        s.fields[(n, "sampled")] = A.newlist(s, q)
        s.fields[(n, "head_sampled")] = A.newlist(s, h)
        s.fields[(n, "count")] = ("int", cnt)
        # no records, no weight; every record weighs at least one
        s.ge(lsub(cnt, q.n))
        out.append(("obj", n, cls))
    return s, out


def fresh_sorted(A, s, n, w):
    q = A.newseq(s, n, w, "rec", asc=True)
    q.first, q.last = elem(q.id, L(0)), elem(q.id, lsub(q.n, L(1)))
    s.ge(lsub(w, n))
    return A.newlist(s, q)


def buffered(A, a, s):
    """contract of compress and _insert_head_buffer: everything buffered is in the samples"""
    o = a[0][1]
    l, h, c = s.fields.get((o, "sampled")), s.fields.get((o, "head_sampled")), s.fields.get((o, "count"))
    if not (l and h and c and l[0] == h[0] == "list" and c[0] == "int"):
        return None
    q, b = A.seq(s, l), A.seq(s, h)
    if not q.asc or not s.is_eq(lsub(q.wcur, c[1])):
        return None
    t = ladd(c[1], b.n)
    s.fields[(o, "sampled")] = fresh_sorted(A, s, lvar(A.fresh("len")), t)
    s.fields[(o, "head_sampled")] = A.empty(s, "num")
    s.fields[(o, "count")] = ("int", t)
    return [(s, ("const", None))]


def compressed(A, a, s):
    """contract of _compress_immut: another sorted list of the same weight"""
    l = s.fields.get((a[0][1], "sampled"))
    if not (l and l[0] == "list"):
        return None
    q = A.seq(s, l)
    if not q.asc:
        return [(s, A.newlist(s, A.newseq(s, lvar(A.fresh("len")), q.wcur, "rec")))]
    q.dirty = L(0)
    return [(s, fresh_sorted(A, s, lvar(A.fresh("len")), q.wcur))]


def account(rep, P, what, qual, names, extra, expect, result=False, contracts=()):
    """the weight of the samples, the count and the buffer after the call"""
    f = P.find_func(qual)
    if f is None:
        rep.missing.append(qual)
        return
    A = Account(P, "Stats", "g", "value", None)
    s, objs = setup(A, P, names)
    A.contracts = {M + "QuantileSummaries." + c: h for c, h in contracts}
    try:
        outs = A.inline(f, objs + extra(s, A), {}, s, None)
    except (Unsupported, RecursionError, KeyError, AttributeError, IndexError) as e:
        if rep.verbose:
            import traceback
            traceback.print_exc()
        rep.undecided(what, qual, "%s" % e)
        return
    rep.analysed |= A.inlined
    rep.loops += len(A.laws)
    if rep.verbose:
        for l in A.laws:
            print("  loop", str(l)[:600])
    for n in names[:1]:
        for k, (q, v) in enumerate(outs):
            lst = v if result else q.fields.get((n, "sampled"))
            if not lst or lst[0] != "list":
                rep.undecided(what, qual, "the samples are not a list any more")
                continue
            sq = A.seq(q, lst)
            hd, ct = q.fields.get((n, "head_sampled")), q.fields.get((n, "count"))
            hn = A.seq(q, hd).n if hd and hd[0] == "list" else None
            cnt = ct[1] if ct and ct[0] == "int" else None
            e = expect
            A.unify(q)
            cases = [("the total weight of the samples", sq.wcur, e["weight"]), ("the number of observations", cnt, e["count"]), ("the number of buffered values", hn, e["buffer"])]
            for t, got, want in cases:
                if want is None:
                    continue
                if got is None:
                    rep.undecided("%s: %s" % (what, t), qual, "not a number")
                elif q.is_eq(lsub(got, want)):
                    rep.ok("%s: %s" % (what, t), qual)
                elif q.vague:
                    rep.undecided("%s: %s" % (what, t), qual, "; ".join(sorted(set(q.vague))))
                else:
                    rep.violation("%s: %s" % (what, t), qual, {"found": lshow(got), "expected": lshow(want) + "   (on a path with %s)" % ", ".join(lshow(c[0]) + " >= 0" for c in list(q.cons.values())[-6:])})
            if sq.asc:
                rep.ok(what + ": the samples are sorted", qual)
            elif q.vague:
                rep.undecided(what + ": the samples are sorted", qual, "; ".join(sorted(set(q.vague))))
            else:
                rep.violation(what + ": the samples are sorted", qual, {"found": "order not preserved (on a path with %s)" % ", ".join(lshow(c[0]) + " >= 0" for c in list(q.cons.values())[-6:]), "expected": "sorted"})


def run(rep):
    rep.rule("affine relations over (total weight, length, prefix weights, counters) of every list in the quantile summary code: no path creates or loses weight; order facts: samples stay sorted")
    rep.rule("value-graph equality: counts, sums, extrema and derived mean and variance after adding a value and after merging")
    P = program()
    install({("obj:ml.statistic.statics.MultivariateStatisticalSummary", "data_instances"): "table[%s]" % INST, ("obj:ml.statistic.statics.MultivariateStatisticalSummary", "cols_dict"): "dict[str:int]",
             ("obj:ml.statistic.statics.MultivariateStatisticalSummary", "abnormal_list"): "list[num]", ("obj:ml.statistic.statics.MultivariateStatisticalSummary", "finish_fit_summaries"): "bool",
             ("obj:ml.statistic.statics.MultivariateStatisticalSummary", "finish_fit_statics"): "bool", ("obj:ml.statistic.statics.MultivariateStatisticalSummary", "medians"): "opt:dict[str:num]",
             ("obj:ml.statistic.statics.MultivariateStatisticalSummary", "summary_statistics"): "dict[str:%s]" % SS, ("obj:ml.statistic.statics.MultivariateStatisticalSummary", "quantile_summary_dict"): "dict[str:%s]" % QS,
             (SS, "sum"): "num", (SS, "sum_square"): "num", (SS, "count"): "int", (SS, "max_value"): "num", (SS, "min_value"): "num", (SS, "abnormal_list"): "list[num]",
             (SQ, "smaller_num"): "int", (SQ, "bigger_num"): "int", (SQ, "abnormal_list"): "list[num]", (SQ, "count"): "int", (SQ, "_total_count"): "int",
             (QS, "head_sampled"): "list[num]", (QS, "abnormal_list"): "list[num]", (QS, "head_size"): "int", (QS, "count"): "int", (QS, "compress_thres"): "int"})
    c, b = lvar("count(self)"), lvar("buffered(self)")
    co, bo = lvar("count(other)"), lvar("buffered(other)")
    none = lambda s, A: []
    B, I, C = ("compress", buffered), ("_insert_head_buffer", buffered), ("_compress_immut", compressed)
    full = {"weight": ladd(c, b), "count": ladd(c, b), "buffer": L(0)}
    account(rep, P, "inserting the buffer", M + "QuantileSummaries._insert_head_buffer", ["self"], none, full)
    account(rep, P, "compressing", M + "QuantileSummaries.compress", ["self"], none, full, contracts=[I, C])
    account(rep, P, "compressing the samples", M + "QuantileSummaries._compress_immut", ["self"], lambda s, A: [("unk",)],
            {"weight": c, "count": c, "buffer": b}, result=True)
    t = ladd(ladd(c, b), ladd(co, bo))
    account(rep, P, "merging", M + "QuantileSummaries.merge", ["self", "other"], none, {"weight": t, "count": t, "buffer": L(0)}, contracts=[B, I, C])
    # ------------------------------------------------ values of the statistics
    eq = lambda w, f, sp, a, **k: rep.equal(w, P, f, sp, a, **k)
    Z = "ml.statistic.statics."
    me, ot, x = sym("self", SS), sym("other", SS), sym("value", "num")
    eq("adding a value", Z + "SummaryStatistics.add_value", ["s_stat.add_value", "s_stat.add_value_max"], [me, x])
    eq("merging sums", Z + "SummaryStatistics.merge", ["s_stat.merge", "s_stat.merge_max"], [me, ot])
    eq("mean", Z + "SummaryStatistics.mean", "s_stat.mean", [me])
    eq("variance", Z + "SummaryStatistics.variance", ["s_stat.variance", "s_stat.variance_short"], [me])
    vst = {Z + "SummaryStatistics.variance": opaque("variance", "num")}
    eq("standard deviation", Z + "SummaryStatistics.std_variance", ["s_stat.std", "s_stat.std_plain"], [me], stubs=vst)
    q, o, sq, so = sym("self", QS), sym("other", QS), sym("self", SQ), sym("other", SQ)
    hst = {M + "QuantileSummaries._insert_head_buffer": effect("step", skip_self=False), M + "QuantileSummaries.compress": effect("step", skip_self=False)}
    eq("inserting a value", M + "QuantileSummaries.insert", "s_stat.insert", [q, x], stubs=hst)
    bst = {M + "QuantileSummaries.insert": effect("step", skip_self=False), M + "QuantileSummaries.merge": effect("step", skip_self=False)}
    eq("inserting a sparse value", M + "SparseQuantileSummaries.insert", ["s_stat.sparse_insert", "s_stat.sparse_insert_total"], [sq, x], stubs=bst)
    eq("merging sparse summaries", M + "SparseQuantileSummaries.merge", "s_stat.sparse_merge", [sq, so], stubs=bst)
    MS = Z + "MultivariateStatisticalSummary."
    pst = {Z + "SummaryStatistics.add_value": effect("stat", skip_self=False), M + "QuantileSummaries.insert": effect("stat", skip_self=False),
           Z + "SummaryStatistics.merge": effect("stat", skip_self=False), M + "QuantileSummaries.merge": effect("stat", skip_self=False)}
    rows, cd, ab = sym("rows", "list[tuple[any|%s]]" % INST), sym("cols_dict", "dict[str:int]"), sym("abnormal", "list[num]")
    eq("statistics of a partition", MS + "static_in_partition", "s_stat.in_partition", [rows, cd, ab], stubs=pst)
    eq("quantile summaries of a partition", MS + "static_summaries_in_partition", "s_stat.summaries_in_partition", [rows, cd, ab], stubs=pst)
    a, bb = sym("a", "opt:dict[str:%s]" % SS), sym("b", "opt:dict[str:%s]" % SS)
    eq("combining two partitions' statistics", MS + "aggregate_statics", "s_stat.aggregate", [a, bb], stubs=pst)
    a, bb = sym("a", "opt:dict[str:%s]" % QS), sym("b", "opt:dict[str:%s]" % QS)
    eq("combining two partitions' summaries", "ml.feature.binning.quantile_binning.QuantileBinning.merge_summary_dict", ["s_bin.merged", "s_stat.aggregate"], [a, bb], stubs=pst)
    S = sym("self", "obj:" + MS[:-1])
    tst = {MS + "static_in_partition": opaque("part"), MS + "static_summaries_in_partition": opaque("qpart"), MS + "aggregate_statics": opaque("agg")}
    eq("statistics of a table", MS + "_static_sums", "s_stat.sums", [S], stubs=tst)
    eq("quantile summaries of a table", MS + "_static_quantile_summaries", "s_stat.quantiles", [S], stubs=tst)
    # ------------------------------------------------ reading the statistics
    gst = {MS + "_static_sums": effect("step"), MS + "_static_quantile_summaries": effect("step"), MS + "_get_quantile_median": effect("step", None, "dict[str:num]"),
           Z + "SummaryStatistics.variance": opaque("variance", "num"), Z + "SummaryStatistics.mean": opaque("mean", "num"), Z + "SummaryStatistics.std_variance": opaque("std", "num"),
           M + "QuantileSummaries.query": opaque("query", "num")}
    oc = sym("cols", "opt:dict[str:int]")
    for g in ("mean", "variance", "std_variance", "max", "min"):
        eq("reading %s" % g.replace("_", " "), MS + "get_" + g, "s_stat.get_" + g, [S, oc], stubs=gst)
    qu = sym("quantile", "num")
    eq("reading a quantile", MS + "get_quantile_point", "s_stat.points", [S, qu, oc], stubs=gst)
    eq("reading the median", MS + "get_median", "s_stat.median", [S, oc], stubs=gst)
    eq("columns of the statistics", MS + "_init_cols", "s_stat.init_cols", [S, sym("table", "table[%s]" % INST)], stubs={"ml.statistic.data_overview.get_header": opaque("header", "list[str]")})
    eq("statistics of no values", Z + "SummaryStatistics.__init__", "s_stat.start", [me, sym("abnormal", "opt:list[num]")])
    zst = {M + "SparseQuantileSummaries.zero_lower_bound": opaque("zlo", "num"), M + "SparseQuantileSummaries.zero_upper_bound": opaque("zhi", "num")}
    eq("share of values below zero", M + "SparseQuantileSummaries.zero_lower_bound", "s_stat.zero_lower", [sq])
    eq("share of values up to zero", M + "SparseQuantileSummaries.zero_upper_bound", ["s_stat.zero_upper", "s_stat.zero_upper_one"], [sq])
    eq("quantile among the nonzero values", M + "SparseQuantileSummaries._convert_query_percentile", "s_stat.among_nonzero", [sq, qu], stubs=zst)
    eq("quantile of a sparse column", M + "SparseQuantileSummaries.query", "s_stat.sparse_query", [sq, qu],
       stubs=dict(zst, **{M + "QuantileSummaries.query": opaque("query", "num"), M + "SparseQuantileSummaries._convert_query_percentile": opaque("among", "num")}))
    ist = {"ml.feature.binning.quantile_binning.QuantileBinning.insert_datas": effect("stat"), M + "QuantileSummaries.compress": effect("stat", skip_self=False)}
    hd, par = sym("header", "list[str]"), sym("params", "obj:ml.param.feature_binning_param.FeatureBinningParam")
    for v in (TRUE, FALSE):
        eq("summaries of a partition, %s" % ("sparse" if v is TRUE else "dense"), "ml.feature.binning.quantile_binning.QuantileBinning.approxiQuantile", "s_stat.approx", [rows, par, cd, ab, hd, v], stubs=ist)
    fst = {"ml.feature.binning.quantile_binning.QuantileBinning.fit_split_points": opaque("points", "dict[str:ndarray[num]]", skip_self=False)}
    eq("the median splits a column in two", MS + "_get_quantile_median", "s_stat.quantile_median", [S], stubs=fst)
    tb = sym("table", "table[%s]" % INST)
    for tag, a in (("all columns", [S, tb]), ("some columns", [S, tb, sym("cols_index", "list[int]"), sym("abnormal", "opt:list[num]")])):
        eq("new statistics of %s" % tag, MS + "__init__", "s_stat.new_summary", a, stubs={MS + "_init_cols": effect("step", skip_self=False)})
