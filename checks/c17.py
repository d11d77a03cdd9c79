"""C17: training and prediction leave the caller's data untouched (and C16's row sharing, which the same analysis decides)."""
import os
from concurrent.futures import ProcessPoolExecutor
from vgg.check import *
from vgg import alias
TECH = "points-to analysis (allocation sites, strong updates, recency) over the call graph; every in-place change is checked against what belongs to the caller"
SKIP = ("federation.", "arch.", "ml.secureprotol.encrypt.", "ml.secureprotol.fate_paillier.", "ml.utils.logger", "ml.param.")
ENTRY = ["guest", "host", "local", "binning", "statistics", "overview"]


def analyse(P, entry, skip=SKIP):
    """run one driver of s_alias on data owned by the caller"""
    A = alias.Analyser(P, skip)
    mk_ = P.find_func("s_alias.caller_data")
    root = mk_.node
    data = A.callfn(mk_, [], {}, root)
    A.fold(lambda o: True)
    data = frozenset(A.twin(o) if o.recent else o for o in data)
    mine = A.reach(data)
    for o in mine:
        o.ext = True
        o.regs = o.regs | frozenset(["caller"])
    A.muts.clear()
    A.sites.clear()
    A.caller = mine
    A.callfn(P.find_func("s_alias." + entry), [data], {}, P.find_func("s_alias." + entry).node)
    return A


def where(k):
    return "%s:%d %s" % (os.path.relpath(k[0], REPO) if k[0].startswith("/") else k[0], k[1], k[2])


def job(entry):
    import sys
    sys.setrecursionlimit(100000)
    P = program()
    P.tidy = True
    if P.find_func("s_alias." + entry) is None:
        return entry, None, None
    try:
        A = analyse(P, entry)
    except alias.TooBig:
        return entry, "too big", None
    rows = []
    for k in sorted(A.sites):
        bad = sorted(set("%s allocated at %s" % (o.ty, o.name) for o in A.muts.get(k, ()) if o.ext))
        sh = sorted(set("%s allocated at %s is shared by the rows of the table made at %s" % (o.ty, o.name, t.name) for o, t in A.shared.get(k, ())))
        rows.append((where(k), k[3], bad, sh))
    return entry, rows, (sorted(A.funcs), sorted(A.vague), A.steps)


ANCHORS = ["ml.tree.hetero_secureboosting_tree_guest.HeteroSecureBoostingTreeGuest.fit", "ml.tree.hetero_secureboosting_tree_guest.HeteroSecureBoostingTreeGuest.predict",
           "ml.tree.hetero_secureboosting_tree_host.HeteroSecureBoostingTreeHost.fit", "ml.tree.hetero_secureboosting_tree_host.HeteroSecureBoostingTreeHost.predict",
           "xgboost.hetero_secureboosting_tree_guest.HeteroSecureBoostingTreeGuest.fit", "ml.feature.binning.quantile_binning.QuantileBinning.fit_split_points",
           "ml.statistic.statics.MultivariateStatisticalSummary.get_mean", "ml.statistic.data_overview.get_header"]


def start(rep, entries=ENTRY):
    """analyse the drivers in processes of their own"""
    P = program()
    for q in ANCHORS:
        c, m = q.rsplit(".", 1)
        k = P.find_class(c)
        if (P.method(k, m) if k else P.find_func(q)) is None:
            rep.missing.append(q)
    ex = ProcessPoolExecutor(max_workers=6)
    return ex, [ex.submit(job, e) for e in entries]


def collect(started):
    ex, fs = started
    with ex:
        return [f.result() for f in fs]


def run(rep):
    rep.rule("no in-place change reaches an object the caller handed in (points-to over every function the drivers of s_alias reach)")
    for entry, rows, info in collect(start(rep)):
        if info is None:
            rep.undecided("%s driver" % entry, "specs/s_alias.py", "the analysis did not finish: %s" % rows)
            continue
        funcs, vague, steps = info
        rep.analysed |= set(funcs)
        for w, what, bad, sh in rows:
            rep.check(not bad, "%s: in-place %s changes no object of the caller" % (entry, what), w, "; ".join(bad))
        for v in vague:
            rep.undecided("%s driver" % entry, "specs/s_alias.py", v)
