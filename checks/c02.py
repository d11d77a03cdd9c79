"""C02: host addressing."""
from vgg.check import *
from vgg.rtypes import *
from checks.c12 import wire, wire_types
from checks.c16 import keepf

TI = "federation.transfer_inst."
TECH = "value-graph equality of the connections used by every send and receive with the reference addressing; exceptions compared with the events that precede them"


def wires():
    def send(I, f, args, kw, st, fr, node):
        _, b = I.bind(f, args, kw, st, None)
        vs = [v for k, v in b.items() if k != "self"]
        I.M.event("wire", "send", vs, st)
        return NONE

    def recv(I, f, args, kw, st, fr, node):
        _, b = I.bind(f, args, kw, st, None)
        vs = [I.M.V(v, st) for k, v in b.items() if k != "self"]
        I.M.event("wire", "recv", vs, st)
        return I.M.stream("wire", vs, st)
    return {TI + "TransferInst.send_data": send, TI + "TransferInst.recv_data": recv}


def accept(I, recv, name, args, kw, st, fr, node):
    if name == "accept":
        return I.M.stream("accept", [], st, "tuple[any|any]")
    if name in ("bind", "listen", "setsockopt"):
        return NONE
    return None


def run(rep):
    rep.rule("value-graph equality: index -1 uses every connection once in order, a valid index exactly its connection, any other index raises ValueError before any event")
    P = program()
    G, H = "obj:" + TI + "TransferInstGuest", "obj:" + TI + "TransferInstHost"
    install({**wire_types(), (G, "conns"): "list"})
    S = sym("self", G)
    d, i = sym("data"), sym("index", "int")
    st = wires()
    rep.equal("send to hosts", P, G[4:] + ".send_data_to_hosts", "s_wire.send_hosts", [S, d, i], stubs=st)
    rep.equal("receive from hosts", P, G[4:] + ".recv_data_from_hosts", "s_wire.recv_hosts", [S, i], stubs=st)
    for k in (-2, -1, 0, 1):
        rep.equal("send to hosts, index %d" % k, P, G[4:] + ".send_data_to_hosts", "s_wire.send_hosts", [S, d, num(k)], stubs=st)
        rep.equal("receive from hosts, index %d" % k, P, G[4:] + ".recv_data_from_hosts", "s_wire.recv_hosts", [S, num(k)], stubs=st)
    S = sym("self", H)
    rep.equal("send to guest", P, H[4:] + ".send_data_to_guest", "s_wire.send_guest", [S, d], stubs=st)
    rep.equal("receive from guest", P, H[4:] + ".recv_data_from_guest", "s_wire.recv_guest", [S], stubs=st)
    S = sym("self", G)
    rep.equal("connections of a guest", P, G[4:] + ".__init__", "s_wire.new_guest", [S, sym("port", "int"), sym("conn_num", "int")],
              stubs={"method": accept}, keep=keepf("field self.conns"))
    S = sym("self", GTREE)
    g = GTREE[4:] + "."
    w = dict(wire("list[list[list[%s]]]" % SPLIT), **{g + "find_host_split": opaque("find_host_split", skip_self=True)})
    rep.equal("replies to the hosts", P, g + "federated_find_split", "s_wire.replies", [S, sym("dep", "int"), sym("batch", "int")], stubs=w)
    rep.equal("final splits of the hosts", P, g + "sync_final_split_host", "s_wire.final_splits", [S, sym("dep", "int"), sym("batch", "int")], stubs=w)
