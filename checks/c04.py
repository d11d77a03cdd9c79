"""C04: guest secrets leave the guest only encrypted (and C05's host side, which the same analysis decides)."""
import ast
from vgg.check import *
from vgg import taint, pbmodel
TECH = "information-flow (taint) analysis on a points-to heap over the call graph, from secret sources to socket sends, with encryption as the only declassifier"
SKIP = ("ml.utils.logger", "ml.param.")
PB = ["arch.api.boosting_tree_model_meta_pb2", "arch.api.boosting_tree_model_param_pb2"]
PAI = "ml.secureprotol.fate_paillier."


def bins(A, r):
    """the binned rows are secret too"""
    for x in A.get(next(iter(r)), "[0]") if r else ():
        for i in A.reach(A.get(x, "v")) if x.ty == "table" else ():
            if i.ty == "ndarray" or i.ty == "dict":
                A.setfield(frozenset([i]), "[]", frozenset([A.mark("feature bins")]), weak=True)


def rules(party):
    r = {"calls": {PAI + "PaillierPublicKey.encrypt": ("cipher",), PAI + "PaillierPublicKey.raw_encrypt": ("cipher",),
                   PAI + "PaillierPrivateKey.decrypt": ("decrypted",), PAI + "PaillierPrivateKey.raw_decrypt": ("decrypted",)},
         "keys": {PAI + "PaillierPrivateKey": ("public_key",)},
         "forbidden": (PAI + "PaillierPrivateKey", "ml.secureprotol.encrypt.PaillierEncrypt"),
         "fields": (), "masks": set()}
    if party == "guest":
        r["masks"] = {("obj:ml.tree.hetero_decision_tree_guest.HeteroDecisionTreeGuest", "split_maskdict")}
    else:
        r["masks"] = {("obj:ml.tree.hetero_decision_tree_host.HeteroDecisionTreeHost", "split_maskdict")}
        r["fields"] = (("obj:ml.tree.node.SplitInfo", "best_bid", "which threshold a split uses"),)
        r["calls"]["ml.feature.binning.base_binning.Binning.convert_feature_to_bin"] = ("after", bins)
    return r


def job(party):
    import sys
    sys.setrecursionlimit(100000)
    P = program()
    P.tidy = True
    if pbmodel.install(P, PB, {}) is None:
        return party, "no message descriptors", None
    A = taint.Taint(P, SKIP, rules=rules(party))
    f = P.find_func("s_taint." + party)
    try:
        A.callfn(f, [], {}, f.node)
    except taint.TooBig:
        return party, "the analysis did not finish", None
    return party, sorted(set(A.sent)), (sorted(A.funcs), sorted(A.vague), A.steps, sorted(x.name for x in A.encrypted), sorted(x.name for x in A.masked))


TREES = {"guest": "ml.tree.hetero_decision_tree_guest.HeteroDecisionTreeGuest", "host": "ml.tree.hetero_decision_tree_host.HeteroDecisionTreeHost"}
BOOSTS = {"guest": "ml.tree.hetero_secureboosting_tree_guest.HeteroSecureBoostingTreeGuest", "host": "ml.tree.hetero_secureboosting_tree_host.HeteroSecureBoostingTreeHost"}
ANCHORS = {"guest": [PAI + "PaillierPublicKey.encrypt", PAI + "PaillierPrivateKey.decrypt", "federation.transfer_inst.TransferInstGuest.send_data_to_hosts"],
           "host": ["ml.feature.binning.base_binning.Binning.convert_feature_to_bin", "federation.transfer_inst.TransferInstHost.send_data_to_guest", "ml.tree.node.SplitInfo.__init__"]}


def attributes(P, cls):
    """attribute names the class's methods store on their first parameter"""
    out = set()
    for k in P.mro(cls):
        for m in k.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
    return out


def decide(rep, party, other):
    rep.rule("no message the %s's run sends carries a secret of the %s: flow of marks over assignments, containers, fields, table operations and calls" % (party, party))
    P = program()
    for q in ANCHORS[party] + [BOOSTS[party] + ".fit", BOOSTS[party] + ".predict", TREES[party] + ".fit", TREES[party] + ".predict"]:
        if P.find_func(q) is None:
            rep.missing.append(q)
    for q, f in ((TREES[party], "split_maskdict"), ("ml.tree.node.SplitInfo", "best_bid")):
        c = P.find_class(q)
        if c is None or f not in attributes(P, c):
            rep.missing.append(q + "." + f)
    if rep.missing:
        return
    _, rows, info = job(party)
    if info is None:
        rep.undecided("%s's run" % party, "specs/s_taint.py", rows)
        return
    funcs, vague, steps, enc, masked = info
    rep.analysed |= set(funcs)
    rep.steps += steps
    ats = {}
    for at, chain, bad, kinds in rows:
        ats.setdefault(at, []).append((chain, bad, kinds))
    for at in sorted(ats):
        bad = sorted(set("%s at message%s (%s)" % (m, path, chain) for chain, b, _ in ats[at] for m, path in b))
        kinds = sorted(set(k for _, _, ks in ats[at] for k in ks))
        rep.check(not bad, "what %s sends carries no secret (message made of %s)" % (at.split(".")[-1], ", ".join(kinds) or "numbers and strings"), at, "; ".join(bad[:6]))
    # the analysis must have followed the secrets to where the code protects them
    if party == "guest":
        if "labels" in enc and any("decrypted" in m for m in enc):
            rep.ok("gradients (from the labels) and gains (from decrypted sums) reach the encryption", TREES[party])
        else:
            rep.undecided("gradients and gains reach the encryption", TREES[party], "marks seen there: %s" % enc)
    if masked:
        rep.ok("split thresholds reach the mask table (%s)" % ", ".join(masked), TREES[party])
    else:
        rep.undecided("split thresholds reach the mask table", TREES[party], "no mark seen there")
    if not ats:
        rep.undecided("the %s's messages" % party, BOOSTS[party], "no send found")
    for v in vague:
        rep.undecided("%s's run" % party, "specs/s_taint.py", v)


def run(rep):
    decide(rep, "guest", "host")
