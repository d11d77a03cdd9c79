"""C08: every encryption mode yields ciphertexts of the current gradients."""
from vgg.check import *
from vgg.rtypes import *
from checks import parts
from checks.c12 import wire_types

Q = "ml.secureprotol.encrypt_mode.EncryptModeCalculator"
TECH = "value-graph equality of one call of the mode calculator, for every mode and row type, with the reference step over (previous data, previous ciphertexts); induction over calls through the stored fields"


def enc(I, recv, name, args, kw, st, fr, node):
    if name == "encrypt" and len(args) == 1 and recv.op == "attr" and recv.args[1] == "encrypter":
        return call("enc", I.M.V(recv, st), I.M.V(args[0], st))
    return None


def run(rep):
    rep.rule("value-graph equality: the result is a fresh encryption of the input or previous ciphertext + (input - previous input); both are stored for the next call")
    P = program()
    C = "obj:" + Q
    stubs = {"method": enc, "ml.statistic.data_overview.rubbish_clear": skip()}
    for tag, ty in (("num", "num"), ("tuple", "tuple[num|num]")):
        install({(C, k): v for k, v in dict(prev_data="opt:table[%s]" % ty, prev_encrypted_data="table[%s]" % ty, mode="str", re_encrypted_rate="num").items()})
        S = sym("self", C)
        d = sym("data", "table[%s]" % ty)
        rep.equal("call, rows of type %s" % tag, P, Q + ".encrypt", "s_mode.encrypt_" + tag, [S, d], stubs=stubs)
    rep.equal("new calculator", P, Q + ".__init__", "s_mode.new_mode", [sym("self", C), sym("encrypter"), sym("mode"), sym("rate")])
    rep.equal("new calculator, defaults", P, Q + ".__init__", "s_mode.new_mode", [sym("self", C)])
    install({})
    parts.settings(rep, P, "encrypt_param", "calculated_mode", "re_encrypted_rate")
    parts.encrypter(rep, P)
    S = sym("self", C)
    for tag, ty in (("list", "list[num]"), ("array", "ndarray[num]")):
        a, b = sym("a", ty), sym("b", ty)
        for m, spec, args in (("encrypt_row", "fresh_", [S, a]), ("get_differance", "diff_", [S, a, b]), ("add_differance", "plus_", [S, a, b])):
            if P.find_func(Q + "." + m) is not None:
                rep.equal("%s of a row of type %s" % (m, tag), P, Q + "." + m, "s_mode." + spec + tag, args, stubs=stubs)
    install(wire_types())
    parts.exchange(rep, P, "gradients")
    parts.inputs(rep, P, "encryption")
