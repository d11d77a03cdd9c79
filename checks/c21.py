"""C21: invalid parameters are rejected before training."""
from vgg.check import *
from vgg.rtypes import *
TECH = "dataflow abstract interpretation to value graphs: rejection condition and normalised fields of every parameter check against the documented domains; effect order of a component's run"

M = "ml.param."
BASE = "base_param.BaseParam"
CHECKS = [("base_param.BaseParam.check_string", "check_string", 2), ("base_param.BaseParam.check_positive_integer", "check_positive_integer", 2),
          ("base_param.BaseParam.check_positive_number", "check_positive_number", 2), ("base_param.BaseParam.check_decimal_float", "check_decimal_float", 2),
          ("base_param.BaseParam.check_boolean", "check_boolean", 2), ("base_param.BaseParam.check_open_unit_interval", "check_open_unit_interval", 2),
          ("base_param.BaseParam.check_valid_value", "check_valid_value", 3), ("base_param.BaseParam.check_defined_type", "check_defined_type", 3),
          ("base_param.BaseParam.check_and_change_lower", "check_and_change_lower", 3)]
B = "boosting_tree_param."
OBJS = [(B + "DecisionTreeParam", "tree"), ("encrypt_param.EncryptParam", "encrypt"), ("encrypted_mode_calculation_param.EncryptedModeCalculatorParam", "encrypted_mode"),
        ("predict_param.PredictParam", "predict"), ("evaluation_param.EvaluateParam", "evaluate"), ("cross_validation_param.CrossValidationParam", "cross_validation"),
        ("feature_binning_param.TransformParam", "transform"), ("feature_binning_param.FeatureBinningParam", "feature_binning")]


NESTED = [("tree_param", B + "DecisionTreeParam"), ("objective_param", B + "ObjectiveParam"), ("encrypt_param", "encrypt_param.EncryptParam"),
          ("encrypted_mode_calculator_param", "encrypted_mode_calculation_param.EncryptedModeCalculatorParam"), ("predict_param", "predict_param.PredictParam")]
BP = "obj:" + M + B + "BoostingTreeParam"
MB = "obj:ml.model_base.ModelBase"


KEEP = lambda k: k != "result"   # what a check returns is not part of the property


def refusing(P, name):
    """a nested check: raises ValueError exactly when it rejects its object (its own obligation)"""
    f = P.find_func("s_param.nested")

    def h(I, fn, args, kw, st, fr, node):
        _, b = I.bind(fn, args, kw, st, None)
        t = mk("tuple", *[I.M.V(v, st) for v in b.values()])
        return I.call_func(f, None, [declare(mk("call", "rejected:" + name, t), "bool")], {}, st)
    return h


def run(rep):
    rep.rule("the condition under which a parameter check raises ValueError, and the fields it leaves, are the value graphs of the documented domain")
    rep.rule("default parameter objects are accepted; the boosting parameters reject exactly when their own fields or a nested object is rejected")
    rep.rule("a component's run reads the configuration, checks the parameters and only then initialises, loads or trains a model")
    P = program()
    install()
    for q, s, n in CHECKS:
        rep.equal(q.split(".")[-1], P, M + q, "s_param." + s, [sym("a%d" % i) for i in range(n)])
    for c, s in OBJS:
        rep.equal(c.split(".")[-1], P, M + c + ".check", "s_param." + s, [sym("self", "obj:" + M + c)], keep=KEEP)
    oq = M + B + "ObjectiveParam"
    for t in ("classification", "regression", None):
        rep.equal("ObjectiveParam(%s)" % t, P, oq + ".check", ["s_param.objective", "s_param.objective_lowering"],
                  [sym("self", "obj:" + oq), mk("str", t) if t else NONE], keep=KEEP)
    rep.equal("ObjectiveParam", P, oq + ".check", ["s_param.objective", "s_param.objective_lowering"], [sym("self", "obj:" + oq), sym("task_type")], keep=KEEP)
    st = {}
    for f, c in NESTED:
        st[M + c + ".check"] = refusing(P, c)
    install({(BP, f): "obj:" + M + c for f, c in NESTED})
    rep.equal("BoostingTreeParam", P, M + B + "BoostingTreeParam.check", "s_param.boosting", [sym("self", BP)], stubs=st, keep=KEEP)
    install()
    for c in [x for x, _ in OBJS] + [B + "ObjectiveParam", B + "BoostingTreeParam"]:
        n = c.split(".")[-1]
        rep.equal("default %s is accepted" % n, P, "s_param.default_" + n, "s_param.accepted", [], keep=lambda k: k.startswith("raises") or k.startswith("returns"), at=M + c)
    run_order(rep, P)
    reading(rep, P)


def run_order(rep, P):
    install({(MB, "model_param"): BP})
    chk = refusing(P, "boosting")

    def check(I, fn, args, kw, st, fr, node):
        r = chk(I, fn, args, kw, st, fr, node)
        I.M.event("run", "checked", [args[0]], st)
        return r
    parsed = "ml.utils.param_extract.ParamExtract.parse_param_from_config"
    st = {M + B + "BoostingTreeParam.check": check, parsed: effect("run", "parsed", ret=BP), "ml.model_base.ModelBase._init_model": effect("run", "initialised"),
          "ml.model_base.ModelBase._load_model": effect("run", "loaded"), "ml.model_base.ModelBase._run_data": effect("run", "trained")}
    for q in st:
        if P.find_func(q) is None:
            rep.missing.append(q)
    rep.equal("a run checks before it builds", P, "ml.model_base.ModelBase.run", "s_param.run", [sym("self", MB), sym("config"), sym("args", "dict[str:dict]")], stubs=st,
              keep=lambda k: k.startswith("effect") or k.startswith("raises") or k.startswith("returns"))


def reading(rep, P):
    """a configuration is read field by field, nested parameter objects included"""
    install({})
    Q = "ml.utils.param_extract.ParamExtract."
    R = Q + "recursive_parse_param_from_config"
    if P.find_func(R) is None or P.find_func(Q + "parse_param_from_config") is None:
        rep.missing.append(R)
        return
    hand = effect("parse", "nested", True)

    def inner(I, f, args, kw, st, fr, node):
        return None if fr is None else hand(I, f, args, kw, st, fr, node)
    new = lambda q: lambda I, st: I.construct(P.find_class(q), [], {}, st, None, None)
    cfg = sym("config", "dict[str:any]")
    at = Q + "parse_param_from_config"
    rep.equal("a configuration is read into the fields it names", P, "s_param.read_flat", "s_param.read_flat_spec", [cfg], at=at)
    rep.equal("nested parameters are read from their own section", P, R, "s_param.read_nested", [new(Q[:-1]), new("s_param.Holder"), cfg, sym("depth", "int")], stubs={R: inner})
    rep.equal("another section changes nothing", P, "s_param.read_other", "s_param.read_other_spec", [cfg], at=at)
    rep.equal("no configuration is an error", P, "s_param.read_nothing", "s_param.read_nothing_spec", [], at=at, keep=lambda k: k.startswith("returns"))
