"""Reference definitions for C21: which values a parameter object accepts, and how it normalises them."""
from ml.utils import consts
from ml.utils.param_extract import ParamExtract
from ml.param.boosting_tree_param import DecisionTreeParam
from ml.param.boosting_tree_param import ObjectiveParam
from ml.param.boosting_tree_param import BoostingTreeParam
from ml.param.encrypt_param import EncryptParam
from ml.param.encrypted_mode_calculation_param import EncryptedModeCalculatorParam
from ml.param.predict_param import PredictParam
from ml.param.evaluation_param import EvaluateParam
from ml.param.cross_validation_param import CrossValidationParam
from ml.param.feature_binning_param import TransformParam
from ml.param.feature_binning_param import FeatureBinningParam


def kind(x):
    return type(x).__name__


def number(x):
    return type(x).__name__ in ("int", "float", "long")


def integer(x):
    return type(x).__name__ in ("int", "long")


def need(ok):
    if not ok:
        raise ValueError("not supported")


def lowered(x, allowed):
    need(type(x).__name__ == "str")
    y = x.lower()
    need(y in allowed)
    return y


# --- base checks -----------------------------------------------------------
def check_string(param, descr):
    need(type(param).__name__ == "str")


def check_positive_integer(param, descr):
    need(integer(param) and param > 0)


def check_positive_number(param, descr):
    need(number(param) and param > 0)


def check_decimal_float(param, descr):
    need(type(param).__name__ == "float" and param >= 0 and param <= 1)


def check_boolean(param, descr):
    need(type(param).__name__ == "bool")


def check_open_unit_interval(param, descr):
    need(type(param).__name__ == "float" and param > 0 and param < 1)


def check_valid_value(param, descr, valid_values):
    need(param in valid_values)


def check_defined_type(param, descr, types):
    need(type(param).__name__ in types)


def check_and_change_lower(param, valid_list, descr=''):
    return lowered(param, valid_list)


# --- parameter objects -----------------------------------------------------
def objective(self, task_type=None):
    if self.objective is None:
        return True
    if task_type not in ("classification", "regression"):
        self.objective = lowered(self.objective, ["cross_entropy", "lse", "lae", "huber", "fair", "log_cosh", "tweedie"])
        return True
    if task_type == "classification":
        need(self.objective == "cross_entropy")
        return True
    self.objective = lowered(self.objective, ["lse", "lae", "huber", "fair", "log_cosh", "tweedie"])
    if self.objective in ("huber", "fair", "tweedie"):
        need(type(self.params).__name__ == "list" and len(self.params) >= 1)
        p = self.params[0]
        need(number(p))
        need(p > 0)
        if self.objective == "tweedie":
            need(p >= 1 and p < 2)
    return True


def objective_lowering(self, task_type=None):
    """the same, also normalising the classification objective's case"""
    if self.objective is None:
        return True
    if task_type == "classification":
        self.objective = lowered(self.objective, ["cross_entropy"])
        return True
    return objective(self, task_type)


def tree(self):
    self.criterion_method = lowered(self.criterion_method, ["xgboost"])
    need(type(self.criterion_params).__name__ == "list" and len(self.criterion_params) > 0)
    need(number(self.criterion_params[0]))
    need(integer(self.max_depth) and self.max_depth >= 1)
    need(integer(self.min_sample_split))
    need(number(self.min_impurity_split))
    need(integer(self.min_leaf_node))
    need(integer(self.max_split_nodes) and self.max_split_nodes >= 1)
    need(type(self.n_iter_no_change).__name__ == "bool")
    need(number(self.tol))
    self.feature_importance_type = lowered(self.feature_importance_type, ["split", "gain"])
    return True


def nested(bad):
    if bad:
        raise ValueError("not supported")


def boosting(self):
    self.tree_param.check()
    need(self.task_type in ("classification", "regression"))
    self.objective_param.check(self.task_type)
    need(number(self.learning_rate))
    need(integer(self.num_trees) and self.num_trees >= 1)
    need(number(self.subsample_feature_rate) and self.subsample_feature_rate >= 0 and self.subsample_feature_rate <= 1)
    need(type(self.n_iter_no_change).__name__ == "bool")
    need(number(self.tol))
    self.encrypt_param.check()
    self.encrypted_mode_calculator_param.check()
    self.predict_param.check()
    need(integer(self.bin_num) and self.bin_num >= 2)
    return True


def encrypt(self):
    if self.method is not None:
        need(type(self.method).__name__ == "str")
        if self.method.lower() == "paillier":
            self.method = "Paillier"
    need(type(self.key_length).__name__ == "int" and self.key_length > 0)
    return True


def encrypted_mode(self):
    self.mode = lowered(self.mode, ["strict", "fast", "balance"])
    if self.mode == "balance":
        need(number(self.re_encrypted_rate))
    return True


def predict(self):
    need(type(self.with_proba).__name__ == "bool")
    need(type(self.threshold).__name__ in ("float", "int"))
    return True


def evaluate(self):
    self.eval_type = lowered(self.eval_type, ["binary", "multi", "regression"])
    need(type(self.pos_label).__name__ in ("str", "float", "int"))
    return True


def cross_validation(self):
    need(integer(self.n_splits) and self.n_splits > 0)
    need(self.mode in [consts.HOMO, consts.HETERO])
    need(self.role in [consts.HOST, consts.GUEST, consts.ARBITER])
    need(type(self.shuffle).__name__ == "bool")
    need(integer(self.random_seed) and self.random_seed > 0)


def transform(self):
    if self.transform_cols is not None and self.transform_cols != -1:
        need(type(self.transform_cols).__name__ == "list")
    need(self.transform_type in ["bin_num", None])


def feature_binning(self):
    need(type(self.method).__name__ == "str")
    self.method = self.method.lower()
    need(self.method in ["quantile"])
    need(integer(self.compress_thres) and self.compress_thres > 0)
    need(integer(self.head_size) and self.head_size > 0)
    need(type(self.error).__name__ == "float" and self.error >= 0 and self.error < 1)
    need(integer(self.bin_num) and self.bin_num > 0)
    need(type(self.cols).__name__ in ("list", "int", "RepeatedScalarContainer"))
    need(type(self.adjustment_factor).__name__ == "float" and self.adjustment_factor > 0 and self.adjustment_factor < 1)


# --- defaults --------------------------------------------------------------
def accepted():
    return None


def default_DecisionTreeParam():
    DecisionTreeParam().check()


def default_ObjectiveParam():
    ObjectiveParam().check()


def default_BoostingTreeParam():
    BoostingTreeParam().check()


def default_EncryptParam():
    EncryptParam().check()


def default_EncryptedModeCalculatorParam():
    EncryptedModeCalculatorParam().check()


def default_PredictParam():
    PredictParam().check()


def default_EvaluateParam():
    EvaluateParam().check()


def default_CrossValidationParam():
    CrossValidationParam().check()


def default_TransformParam():
    TransformParam().check()


def default_FeatureBinningParam():
    FeatureBinningParam().check()


# --- a component's run -----------------------------------------------------
def run(self, component_parameters=None, args=None):
    param = ParamExtract().parse_param_from_config(self.model_param, component_parameters)
    param.check()
    self._init_model(param)
    try:
        need_cv = param.cv_param.need_cv
    except AttributeError:
        need_cv = False
    try:
        one = param.one_vs_rest_param.need_one_vs_rest
    except AttributeError:
        one = False
    if need_cv:
        stage = "cross_validation"
    elif one:
        stage = "one_vs_rest"
        if "model" in args:
            self._load_model(args)
    elif "model" in args:
        self._load_model(args)
        stage = "transform"
    elif "isometric_model" in args:
        self._load_model(args)
        stage = "fit"
    else:
        stage = "fit"
    if args.get("data", None) is None:
        return
    self._run_data(args["data"], stage)


# --- a configuration read into a parameter object ---------------------------
def read_flat(config):
    return ParamExtract().parse_param_from_config(EncryptParam(), {"EncryptParam": config})


def read_flat_spec(config):
    p = EncryptParam()
    if "method" in config:
        p.method = config["method"]
    if "key_length" in config:
        p.key_length = config["key_length"]
    return p


class Holder:
    def __init__(self):
        self.rounds = 3
        self.inner = EncryptParam()
        self.rest = None


def read_nested(self, p, config, depth):
    if depth > consts.PARAM_MAXDEPTH:
        raise ValueError("too deep")
    if "rounds" in config:
        p.rounds = config["rounds"]
    if "inner" in config:
        p.inner = self.recursive_parse_param_from_config(p.inner, config["inner"], depth + 1)
    if "rest" in config:
        p.rest = config["rest"]
    return p


def read_other(config):
    return ParamExtract().parse_param_from_config(EncryptParam(), {"Other": config})


def read_other_spec(config):
    return EncryptParam()


def read_nothing():
    return ParamExtract().parse_param_from_config(EncryptParam(), None)


def read_nothing_spec():
    raise Exception("not a configuration")
