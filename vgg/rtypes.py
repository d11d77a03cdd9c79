"""Declared types of the repository's objects (only used to choose algebraic laws:
numbers commute, lists have lengths, tables are keyed)."""
from . import terms as TT
from .terms import sym, declare

NODE = "obj:ml.tree.node.Node"
SPLIT = "obj:ml.tree.node.SplitInfo"
INST = "obj:ml.feature.instance.Instance"
SPV = "obj:ml.feature.sparse_vector.SparseVector"
GTREE = "obj:ml.tree.hetero_decision_tree_guest.HeteroDecisionTreeGuest"
XTREE = "obj:xgboost.hetero_decision_tree_guest.HeteroDecisionTreeGuest"
HTREE = "obj:ml.tree.hetero_decision_tree_host.HeteroDecisionTreeHost"
SPLITTER = "obj:ml.tree.splitter.Splitter"
CRIT = "obj:ml.tree.creterion.XgboostCriterion"

TY = {
    NODE: dict(id="int", sitename="str", weight="num", is_leaf="bool", sum_grad="num", sum_hess="num",
               left_nodeid="int", right_nodeid="int"),
    SPLIT: dict(sitename="str", sum_grad="num", sum_hess="num", gain="num"),
    INST: dict(weight="num", features=SPV),
    SPV: dict(sparse_vec="dict[int:num]", shape="int"),
    SPLITTER: dict(min_impurity_split="num", min_sample_split="int", min_leaf_node="int", criterion=CRIT),
    CRIT: dict(reg_lambda="num"),
}
TREE = dict(tree_="list[%s]" % NODE, tree_node_queue="list[%s]" % NODE, cur_split_nodes="list[%s]" % NODE, tree_node_num="int",
            split_maskdict="dict[int:num]", bin_split_points="ndarray[ndarray[num]]", bin_sparse_points="list[int]",
            valid_features="list[bool]", max_depth="int", min_sample_split="int", min_impurity_split="num", min_leaf_node="int",
            max_split_nodes="int", data_bin="table[%s]" % INST, grad_and_hess="table[tuple[num|num]]",
            data_bin_with_node_dispatch="table[tuple[%s|tuple[int|int]]]" % INST, node_dispatch="table[tuple[int|int]]",
            splitter=SPLITTER, sitename="str", n_iter_no_change="bool", feature_importance_type="str",
            criterion_method="str", criterion_params="list[num]", feature_importances_="dict[tuple[str|int]:num]",
            best_splitinfo_guest="list[%s]" % SPLIT)
TY[GTREE] = TREE
TY[XTREE] = TREE
TY[HTREE] = TREE


def install(over=None, extra=None):
    TT.reset_types()
    for c, fs in TY.items():
        for n, t in fs.items():
            TT.ATTR_TYPES[(c[4:], n)] = t
    for (c, n), t in (over or {}).items():
        TT.ATTR_TYPES[(c[4:], n)] = t


def obj(name, c):
    return sym(name, c)


BGUEST = "obj:ml.tree.hetero_secureboosting_tree_guest.HeteroSecureBoostingTreeGuest"
XBGUEST = "obj:xgboost.hetero_secureboosting_tree_guest.HeteroSecureBoostingTreeGuest"
BHOST = "obj:ml.tree.hetero_secureboosting_tree_host.HeteroSecureBoostingTreeHost"
GH = "table[tuple[num|num]]"
BOOST = dict(num_trees="int", tree_dim="int", trees_="list", learning_rate="num", F="opt:table[ndarray[num]]", y="table[num]", classes_="list[num]", num_classes="int",
             history_loss="list[num]", n_iter_no_change="bool", bin_split_points="ndarray[ndarray[num]]", feature_num="opt:int",
             subsample_feature_rate="num", feature_importances_="dict[tuple[str|int]:num]", tol="num", task_type="str",
             feature_name_fid_mapping="dict[str:int]", init_score="ndarray[num]", grad_and_hess="table[tuple[ndarray[num]|ndarray[num]]]",
             data_bin="table[%s]" % INST)
TPARAM = "obj:ml.param.boosting_tree_param.DecisionTreeParam"
TY[TPARAM] = dict(criterion_method="str", criterion_params="list[num]", max_depth="int", min_sample_split="int", min_impurity_split="num",
                  min_leaf_node="int", max_split_nodes="int", feature_importance_type="str", n_iter_no_change="bool", tol="num")
BOOST["tree_param"] = TPARAM
for _c in (BGUEST, XBGUEST, BHOST):
    TY[_c] = BOOST
