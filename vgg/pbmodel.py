"""Classes with the behaviour of generated protobuf messages, derived from the descriptor in a _pb2 module's source.

The module is parsed, not imported: the serialized descriptor is a string literal, decoded here field by field."""
import ast

LOSSLESS = {1: "float", 3: "int", 4: "int", 5: "int", 8: "bool", 9: "str", 12: "bytes", 13: "int", 17: "int", 18: "int"}
DEFAULT = {"float": "0.0", "int": "0", "bool": "False", "str": "''", "bytes": "b''"}


def literal(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg == "serialized_pb":
                    v = k.value
                    if isinstance(v, ast.Call) and v.args:
                        v = v.args[0]
                    if isinstance(v, ast.Constant):
                        return v.value if isinstance(v.value, bytes) else v.value.encode("latin1")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "AddSerializedFile" and n.args and isinstance(n.args[0], ast.Constant):
                return n.args[0].value
    return None


def wire(b):
    i = 0

    def varint():
        nonlocal i
        r = s = 0
        while True:
            c = b[i]
            i += 1
            r |= (c & 127) << s
            s += 7
            if c < 128:
                return r
    out = []
    while i < len(b):
        t = varint()
        f, w = t >> 3, t & 7
        if w == 0:
            out.append((f, varint()))
        elif w == 2:
            n = varint()
            out.append((f, b[i:i + n]))
            i += n
        elif w == 5:
            out.append((f, b[i:i + 4]))
            i += 4
        elif w == 1:
            out.append((f, b[i:i + 8]))
            i += 8
        else:
            raise ValueError("wire type")
    return out


def messages(b):
    """{name: {field: (label, type, type name)}} with map entries resolved to ('map', key type, value type)"""
    out = {}

    def msg(m, pre):
        name, fields, nested, entry = None, [], [], False
        for f, v in wire(m):
            if f == 1:
                name = v.decode()
            elif f == 2:
                d = {}
                for g, x in wire(v):
                    d[g] = x
                fields.append((d[1].decode(), d.get(4, 1), d.get(5), d.get(6, b"").decode().split(".")[-1]))
            elif f == 3:
                nested.append(v)
            elif f == 7:
                entry = any(g == 7 and x for g, x in wire(v))
        kids = {}
        for n in nested:
            k, fs, e = msg(n, pre + name + ".")
            if e:
                kids[k] = fs
        res = {}
        for fn, lab, ty, tn in fields:
            if tn in kids:
                res[fn] = ("map", kids[tn]["key"][1], kids[tn]["value"][1])
            else:
                res[fn] = (lab, ty, tn)
        if not entry:
            out[name] = res
        return name, res, entry
    for f, v in wire(b):
        if f == 4:
            msg(v, "")
    return out


def conv(ty, v):
    return v if ty in LOSSLESS else "narrow%s(%s)" % (ty, v)


def source(tree):
    """python source of the message classes and {class: {repeated message field: element class}}"""
    b = literal(tree)
    if b is None:
        return None
    ms = messages(b)
    src, elem = [], {}
    for n, fs in ms.items():
        src.append("class %s(object):" % n)
        src.append("    def __init__(self%s):" % "".join(", %s=None" % f for f in fs))
        cp = []
        for f, (lab, ty, tn) in fs.items():
            if lab == "map":
                src.append("        self.%s = {} if %s is None else dict(%s)" % (f, f, f))
                cp.append("self.%s = dict(other.%s)" % (f, f))
            elif lab == 3:
                src.append("        self.%s = [] if %s is None else list(%s)" % (f, f, f))
                cp.append("self.%s = list(other.%s)" % (f, f))
                if ty == 11:
                    elem.setdefault(n, {})[f] = tn
            elif ty == 11:
                src.append("        self.%s = %s() if %s is None else %s" % (f, tn, f, f))
                cp.append("self.%s.CopyFrom(other.%s)" % (f, f))
            else:
                src.append("        self.%s = %s if %s is None else %s" % (f, DEFAULT[LOSSLESS.get(ty, "float")], f, conv(ty, f)))
                cp.append("self.%s = other.%s" % (f, f))
        if not fs:
            src.append("        pass")
        src.append("    def CopyFrom(self, other):")
        src += ["        " + c for c in cp] or ["        pass"]
        src.append("")
    return "\n".join(src), elem, ms


def install(prog, mods, stubs):
    """let the program see the message classes of these modules; returns their field tables"""
    elems, tabs = {}, {}
    for m in mods:
        mod = prog.module(m)
        if mod is None:
            return None
        r = source(mod.tree)
        if r is None:
            return None
        src, el, ms = r
        prog.mods.pop(m)
        prog.override[m] = src
        for c in ms:
            tabs[c] = ms[c]
        for c, fs in el.items():
            elems[m + "." + c] = {f: (m + "." + k) for f, k in fs.items()}

    def method(I, recv, name, args, kw, st, fr, node):
        if name != "add" or args:
            return None
        for k, v in list(st.v.items()):
            if k[0] == "f" and v is recv and k[1].op == "ref":
                c = I.class_of(k[1])
                e = elems.get(c.qual, {}).get(k[2]) if c is not None else None
                if e:
                    cls = prog.find_class(e)
                    x = I.construct(cls, [], kw, st, fr, node)
                    I.M.list_method(recv, "append", [x], {}, st, fr, node)
                    return x
        return None
    stubs["method"] = method
    return tabs
