"""C01: messages arrive exactly once, whole, in order, or receiving fails."""
from vgg.check import *
from vgg.rtypes import *
from vgg import stream as SS
from vgg.stream import L, lvar, lsub, lshow

TI = "federation.transfer_inst.TransferInst"
TECH = "abstract interpretation of the receive path over stream positions (linear relations, inductive loop invariants); value-graph extraction of the bytes a send writes; agreement of header width and codec on both sides"


def sock(I, recv, name, args, kw, st, fr, node):
    if name in ("sendall", "send", "sendto", "sendmsg"):
        I.M.event("sock", name, args[:1], st)
        return NONE if name == "sendall" else I.M.stream("sent", [], st, "int")
    return None


def flat(v):
    """parts of a byte string"""
    if v.op == "cat":
        out = []
        for p in v.args:
            out += flat(p.args[0]) if p.op == "one" and False else flat(p)
        return out
    if v.op == "poly" and all(m.args[0] == 1 and len(m.args) == 2 for m in v.args):
        return None
    return [v]


def header(t, size):
    """(codec, width) of a header that encodes size, or None"""
    if t.op != "call":
        return None
    f = t.args[0]
    if f in ("bytes", "encode", "str.encode", "bytes.encode"):
        r = header(t.args[1], size)
        return r
    if f in ("ljust", "rjust", "zfill", "center") and is_num(t.args[2]):
        if f != "zfill" and len(t.args) > 3 and t.args[3] is not const(" "):
            return None
        x = t.args[1]
        if x.op == "call" and x.args[0] in ("bytes", "encode"):
            x = x.args[1]
        if x.op == "call" and x.args[0] == "str":
            k = offset(x.args[1], size)
            if k is not None:
                return "dec", int(t.args[2].args[0]), k
        return None
    if f == "struct.pack" and len(t.args) == 3 and t.args[1].op == "str" and offset(t.args[2], size) is not None:
        import struct
        fmt = t.args[1].args[0]
        return ("struct", fmt), struct.calcsize(fmt), offset(t.args[2], size)
    if f == "int.to_bytes" and is_num(t.args[2]) and offset(t.args[1], size) is not None:
        return ("bytes", t.args[3].args[0] if len(t.args) > 3 else "big"), int(t.args[2].args[0]), offset(t.args[1], size)
    return None


def offset(t, size):
    """k when t is size + k"""
    d = sub(t, size)
    return int(d.args[0]) if is_num(d) else None


def capacity(codec, width, k):
    if codec == "dec":
        return 10 ** width
    if isinstance(codec, tuple) and codec[0] == "struct":
        import struct
        return 256 ** struct.calcsize(codec[1])
    return 256 ** width


def sender(rep, P):
    q = TI + ".send_data"
    what = "bytes written by one send"
    install()
    data = sym("data")
    o = execute(P, q, [sym("cs"), data], stubs={"method": sock})
    ev = o.parts.get("effect log:sock")
    evs, plain = [], True
    if not o.opaque and ev is not None:
        for e in (ev.args if ev.op == "cat" else (ev,)):
            e = e.args[0] if e.op == "one" else None
            if e is None or e.op != "ev" or e.args[0] != "sendall":
                plain = False
                break
            evs.append(e)
    else:
        plain = False
    parts = [x for e in evs for x in flat(e.args[1]) or [e.args[1]]]
    if not plain:
        dump = call("pickle.dumps", data)
        if sending(rep, P, q, what) and parts:
            return width(rep, q, parts[0], length(dump), what, False)
        return None
    pay = [p for p in parts if p.op == "call" and p.args[0] == "pickle.dumps" and p.args[1] is data]
    if len(parts) != 2 or not pay:
        rep.judge(what, q, False if pay and len(parts) == 1 else None, "found %d parts: %s" % (len(parts), "; ".join(show(p, 5) for p in parts)),
                  "a header, then the pickled object")
        return None
    if parts[1] is not pay[0]:
        rep.judge(what, q, False, "the object is not the last part: %s" % "; ".join(show(p, 5) for p in parts), "a header, then the pickled object")
        return None
    return width(rep, q, parts[0], length(parts[1]), what)


def width(rep, q, part, size, what, tell=True):
    h = header(part, size)
    if h is None:
        if not contains(part, lambda t: t is size):
            rep.judge(what, q, False if tell else None, "the header %s does not depend on the size of the message" % show(part, 6), "the header encodes the number of bytes that follow")
        else:
            rep.undecided(what, q, "header form not understood: %s" % show(part, 8))
        return None
    rep.ok(what, q)
    rep.judge("the header can hold the size of every message", q, capacity(*h) >= 10 ** 10, "header of %d bytes" % h[1], "sizes up to at least 10^10 bytes")
    return h


def sending(rep, P, q, what):
    """repeated or partial writes: stream positions of what is handed to the connection"""
    f = P.find_func(q)
    A = SS.Sending(P)
    try:
        args = [("conn",), ("const", "data")] if f.kind == "staticmethod" else [("cls" if f.kind == "classmethod" else "self", f.cls), ("conn",), ("const", "data")]
        if len(f.node.args.args) != len(args):
            raise SS.Unsupported("signature")
        outs = A.run(f, args)
    except SS.Unsupported as e:
        rep.undecided(what, q, "the writes of send_data are not understood: %s" % e)
        return False
    rep.analysed |= set(A.calls)
    rep.loops += A.loops
    good = True
    for vague, line, text in A.problems:
        rep.judge("order of the bytes written", "%s:%d" % (f.mod.path, line), None if vague else False, text.replace("received", "written"), "the message's bytes in order, each once")
        good = False
    for st, v in outs:
        if not st.entails_eq(lsub(st.R, SS.ladd(A.W, A.N))):
            rep.judge(what, q, None if st.vague else False, "a send may return after %s of w + n bytes were written" % lshow(st.R), "every byte of header and object")
            good = False
    if good:
        rep.ok(what, q)
    return good


def receiver(rep, P, h):
    q = TI + ".recv_data"
    f = P.find_func(q)
    if f is None:
        rep.missing.append(q)
        return
    A = SS.Analysis(P)
    what = "bytes read by one receive"
    try:
        n = len(f.node.args.args)
        args = [("conn",)] if f.kind == "staticmethod" else [("cls" if f.kind == "classmethod" else "self", f.cls), ("conn",)]
        if n != len(args):
            raise SS.Unsupported("signature")
        outs = A.run(f, args)
    except SS.Unsupported as e:
        rep.undecided(what, q, str(e))
        return
    rep.analysed |= set(A.calls)
    rep.loops += A.loops
    for vague, line, text in A.problems:
        at = "%s:%d" % (f.mod.path, line)
        if vague:
            rep.undecided("stream discipline", at, text)
        else:
            rep.judge("stream discipline", at, False, text, "every receive takes the next bytes of its own message only")
    if not A.problems:
        rep.ok("stream discipline (sizes positive, pieces joined in order, progress in every loop)", q)
    if not outs:
        rep.judge(what, q, False, "no path returns an object", "the object that was sent")
    for st, v in outs:
        if v[0] != "obj":
            rep.judge(what, q, None if st.vague else False, "a path returns %s" % (v[0],), "the unpickled message")
            continue
        if h is None:
            decs = [d for d in st.decs if st.entails_eq(d[1])]
            w = None
        else:
            decs = [d for d in st.decs if d[0] == h[0]]
            w = L(h[1])
        good = None
        for c, a, b, x in decs:
            hw = w if w is not None else b
            if st.entails_eq(a) and st.entails_eq(lsub(b, hw)):
                e = SS.ladd(hw, lsub(lvar(x), L(h[2] if h else 0)))
                good = st.entails_eq(lsub(v[1], hw)) and st.entails_eq(lsub(v[2], e)) and st.entails_eq(lsub(st.R, e))
                break
        if good:
            rep.ok("a normal return has read exactly the header and the body and unpickles the body", q)
        else:
            rep.judge("a normal return has read exactly the header and the body and unpickles the body", q, None if st.vague else False,
                      "unpickles stream bytes [%s, %s) after reading %s bytes; header candidates %s" % (
                          lshow(v[1]), lshow(v[2]), lshow(st.R), ["%s of [%s, %s)" % (c, lshow(a), lshow(b)) for c, a, b, x in st.decs]),
                      "header [0, %s), then as many bytes as it says" % (h[1] if h else "w"))
    for st, line in A.raised:
        closed = any(st.entails_ge(lsub(L(0), m)) for m in st.recvs)
        at = "%s:%s" % (f.mod.path, line)
        if closed:
            rep.ok("error raised only after the peer closed", at)
        else:
            rep.judge("error raised only after the peer closed", at, None if st.vague else False, "an error can be raised although every receive delivered bytes", "an error only when the connection closed")
    rep.calls += len(outs)


def run(rep):
    rep.rule("stream positions: the header is bytes [0,w), the body the next L bytes, L the header's value; both are read completely whatever the segmentation, nothing more is read, "
             "an empty receive raises; the sender writes exactly such a message with sendall")
    P = program()
    if P.find_func(TI + ".send_data") is None:
        rep.missing.append(TI + ".send_data")
    h = sender(rep, P)
    receiver(rep, P, h)
