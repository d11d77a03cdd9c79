"""C29: a component's run trains on the training table and returns every prediction once, marked with its part."""
from vgg.check import *
from vgg.rtypes import *

M = "ml.model_base.ModelBase"
S = "obj:" + M
TECH = "value-graph equality of a component's run, over symbolic tables and stages, with its reference definition"


def run(rep):
    rep.rule("value-graph equality: calls of fit and predict (order, arguments) and the table of results for every combination of tables given and stage")
    P = program()
    install({(S, "data_output"): "opt:table[list[any]]", (S, "need_run"): "bool"})
    s = sym("self", S)
    st = {M + "." + m: effect("run", m, t) for m, t in (("fit", None), ("predict", "opt:table[list[any]]"), ("cross_validation", None), ("one_vs_rest_fit", None),
                                                         ("one_vs_rest_predict", "opt:table[list[any]]"), ("transform", None), ("set_flowid", None), ("set_predict_data_schema", None))}
    for tag, stage in (("fit", const("fit")), ("transform", const("transform")), ("one against the rest", const("one_vs_rest")), ("cross validation", const("cross_validation"))):
        rep.equal("run of a component, %s" % tag, P, M + "._run_data", "s_run.run_data", [s, sym("data_sets", "dict[str:dict[str:table[any]]]"), stage], stubs=st)
    rep.equal("schema of the results", P, M + ".set_predict_data_schema", "s_run.predict_schema", [s, sym("table", "opt:table[list[any]]"), sym("schema", "dict[str:any]")])
    rep.equal("a new component", P, M + ".__init__", "s_run.fresh", [s])
    rep.equal("flow of a stage", P, M + ".set_flowid", "s_run.flow", [s, sym("flow", "str")], init={("f", s, "taskid"): sym("taskid", "str")})
    rep.equal("output of a run", P, M + ".save_data", "s_run.output", [s])
    rep.equal("model of a run", P, M + ".export_model", "s_run.model", [s])
    rep.equal("name of a metric", P, M + ".get_metric_name", "s_run.metric", [s, sym("prefix", "str")])
    rep.equal("whether a loaded model runs", P, M + "._parse_need_run", "s_run.need", [s, sym("models", "dict[str:dict[str:dict[str:obj:pb.Meta]]]"), sym("name", "str")])
