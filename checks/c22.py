"""C22: feature binning maps each column with its own split points."""
from vgg.check import *
from vgg.rtypes import *
from checks import parts

TECH = "value-graph equality of the binning functions with the reference definition"
B = "ml.feature.binning.base_binning.Binning."
BIN = "obj:ml.feature.binning.quantile_binning.QuantileBinning"


def run(rep):
    rep.rule("value-graph equality: bin of a value is the first index whose split point is not smaller, per column, dense and sparse; zero bins and exported split points come from the split points used; other instance fields unchanged")
    P = program()
    install({(BIN, "header"): "list[str]", (BIN, "cols_index"): "any", (BIN, "split_points"): "dict[str:list[num]]", (BIN, "cols_dict"): "dict[str:int]"})
    pts = sym("points", "list[num]")
    eq = lambda w, f, s, a, **k: rep.equal(w, P, f, s, a, **k)
    eq("bin of a value", B + "get_bin_num", ["s_bin.bin_of", "s_bin.bin_of_bisect", "s_bin.bin_of_search"], [sym("value", "num"), pts])
    st = {B + "get_bin_num": opaque("bin_of", "int"), "s_bin.bin_of": opaque("bin_of", "int")}
    cols, sp, hd = sym("cols", "list[int]"), sym("points", "dict[str:list[num]]"), sym("header", "list[str]")
    eq("dense row", B + "_convert_dense_data", "s_bin.dense", [sym("inst", INST), cols, sp, hd], stubs=st)
    eq("sparse row", B + "_convert_sparse_data", "s_bin.sparse", [sym("inst", INST), cols, sp, hd], stubs=st)
    S = sym("self", BIN)
    eq("zero bins", B + "get_sparse_bin", "s_bin.zero_bin", [S, cols, sp], stubs=st)
    tab = sym("data", "table[%s]" % INST)
    st["ml.statistic.data_overview.is_sparse_data"] = opaque("is_sparse", "bool")
    st[B + "_init_cols"] = effect("step", "init_cols")
    st["s_bin.init_cols"] = effect("step", "init_cols")
    eq("table, all columns", B + "convert_feature_to_bin", "s_bin.convert", [S, tab], stubs=st)
    eq("table, given split points", B + "convert_feature_to_bin", "s_bin.convert", [S, tab, const(-1), sp], stubs=st)
    eq("table, given columns", B + "convert_feature_to_bin", "s_bin.convert", [S, tab, cols], stubs=st)
    eq("table, no columns", B + "convert_feature_to_bin", "s_bin.convert", [S, tab, NONE], stubs=st)
    st["ml.statistic.data_overview.get_header"] = opaque("header", "list[str]")
    eq("header", "ml.statistic.data_overview.get_header", "s_bin.header", [tab])
    eq("columns, all", B + "_init_cols", "s_bin.init_cols", [S, tab], stubs={k: v for k, v in st.items() if "init_cols" not in k}, init={("f", S, "cols_index"): const(-1)})
    eq("columns, given", B + "_init_cols", "s_bin.init_cols", [S, tab], stubs={k: v for k, v in st.items() if "init_cols" not in k}, init={("f", S, "cols_index"): cols})
    eq("row kind", "ml.statistic.data_overview.is_sparse_data", "s_bin.is_sparse", [tab])
    Q = "ml.feature.binning.quantile_binning.QuantileBinning."
    C = "ml.param.feature_binning_param.FeatureBinningParam"
    for T, tag in ((BGUEST, "guest"), (XBGUEST, "xgboost"), (BHOST, "host")):
        st2 = {Q + "fit_split_points": effect("step", "fit"), B + "convert_feature_to_bin": effect("step", "convert", "tuple[table|any|any]")}
        eq("binning of the training table (%s)" % tag, T[4:] + ".convert_feature_to_bin", "s_bin.tree_binning", [sym("self", T), tab], stubs=st2)
    SM = "ml.feature.quantile_summaries."
    st3 = {SM + "QuantileSummaries.insert": effect("summary", skip_self=False), SM + "SparseQuantileSummaries.insert": effect("summary", skip_self=False)}
    rows = sym("rows", "list[tuple[any|%s]]" % INST)
    sd, cd = sym("summaries", "dict[str:obj:%sQuantileSummaries]" % SM), sym("cols_dict", "dict[str:int]")
    for v in (TRUE, FALSE):
        eq("values go to their own column's summary, %s" % ("sparse" if v is TRUE else "dense"), Q + "insert_datas", "s_bin.insert_datas", [rows, sd, cd, hd, v], stubs=st3)
    install()
    parts.sparse(rep, P)
    parts.rows(rep, P)
    parts.settings(rep, P, "bin_num")
