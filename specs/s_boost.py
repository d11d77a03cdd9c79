"""Reference definitions for C16, C23 and C25: scores, classes and early stopping."""
import copy
import numpy as np
from ml.feature.instance import Instance
from ml.optim.convergence import DiffConverge
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
from ml.utils import consts
from ml.loss.cross_entropy import SigmoidBinaryCrossEntropyLoss, SoftmaxCrossEntropyLoss
from ml.loss.regression_loss import LeastAbsoluteErrorLoss, LeastSquaredErrorLoss, HuberLoss, FairLoss, TweedieLoss, LogCoshLoss
from ml.statistic.statics import MultivariateStatisticalSummary
from ml.feature.sparse_vector import SparseVector
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
from ml.utils import abnormal_detection


# ------------------------------------------------------------------ C16
def accumulate(f_val, new_f_val, lr=0.1, idx=0):
    f_val[idx] = f_val[idx] + lr * new_f_val
    return f_val


def update_f(self, new_f=None, tidx=-1):
    if self.F is None:
        if self.tree_dim > 1:
            self.F, self.init_score = self.loss.initialize(self.y, self.tree_dim)
        else:
            self.F, self.init_score = self.loss.initialize(self.y)
    else:
        lr = self.learning_rate

        def acc(f, w):
            f[tidx] = f[tidx] + lr * w
            return f
        self.F = self.F.join(new_f, acc)


def class_grads(self, k):
    return self.grad_and_hess.mapValues(lambda gh: (gh[0][k], gh[1][k]))


def grads_classification(self):
    loss = self.loss

    def gh(y, f):
        p = loss.predict(f)
        return (loss.compute_grad(y, p), loss.compute_hess(y, p))
    self.grad_and_hess = self.y.join(self.F, gh)


def grads_regression(self):
    loss = self.loss
    self.grad_and_hess = self.y.join(self.F, lambda y, f: (loss.compute_grad(y, f), loss.compute_hess(y, f)))


def init_mean(y):
    ins = y.mapValues(lambda label: Instance(features=np.asarray([label])))
    ins.schema = {"header": ["label"]}
    m = MultivariateStatisticalSummary(ins, -1).get_mean()["label"]
    return y.mapValues(lambda x: np.asarray([m])), np.asarray([m])


def init_median(y):
    ins = y.mapValues(lambda label: Instance(features=np.asarray([label])))
    ins.schema = {"header": ["label"]}
    m = MultivariateStatisticalSummary(ins, -1).get_median()["label"]
    return y.mapValues(lambda x: np.asarray([m])), np.asarray([m])


def init_zero(y):
    return y.mapValues(lambda x: np.zeros(1)), np.zeros(1)


def init_zeros(y, dims=1):
    return y.mapValues(lambda x: np.zeros(dims)), np.zeros(dims)


def start_fit(self, data_instances):
    self.gen_feature_fid_mapping(data_instances.schema)
    data = self.data_alignment(data_instances)
    self.convert_feature_to_bin(data)
    self.set_y()
    if self.tree_dim > 1:
        self.F, self.init_score = self.loss.initialize(self.y, self.tree_dim)
    else:
        self.F, self.init_score = self.loss.initialize(self.y)
    self.generate_encrypter()
    self.sync_tree_dim()


def one_tree(self, i, k):
    tree = HeteroDecisionTreeGuest(self.tree_param)
    tree.set_inputinfo(self.data_bin, self.get_grad_and_hess(k), self.bin_split_points, self.bin_sparse_points)
    tree.set_valid_features(self.sample_valid_features())
    tree.set_encrypter(self.encrypter)
    tree.set_encrypted_mode_calculator(self.encrypted_calculator)
    tree.set_flowid(self.generate_flowid(i, k))
    tree.set_transfer_inst(self.transfer_inst)
    tree.fit()
    meta, param = tree.get_model()
    self.trees_.append(param)
    if self.tree_meta is None:
        self.tree_meta = meta
    lr = self.learning_rate

    def acc(f, w):
        f[k] = f[k] + lr * w
        return f
    self.F = self.F.join(tree.predict_weights, acc)
    self.update_feature_importance(tree.get_feature_importance())


def fit(self, data_instances):
    start_fit(self, data_instances)
    for i in range(self.num_trees):
        self.compute_grad_and_hess()
        for k in range(self.tree_dim):
            one_tree(self, i, k)
        loss = self.compute_loss()
        self.history_loss.append(loss)
        if self.n_iter_no_change is True:
            stop = self.check_convergence(loss)
            self.sync_stop_flag(stop, i)
            if stop:
                break


def predict_f(self, data_instances):
    init_score = self.init_score
    self.F = data_instances.mapValues(lambda v: copy.deepcopy(init_score))
    for i in range(len(self.trees_) // self.tree_dim):
        for k in range(self.tree_dim):
            tree = HeteroDecisionTreeGuest(self.tree_param)
            tree.load_model(self.tree_meta, self.trees_[i * self.tree_dim + k])
            tree.set_flowid(self.generate_flowid(i, k))
            tree.set_transfer_inst(self.transfer_inst)
            w = tree.predict(data_instances)
            lr = self.learning_rate

            def acc(f, w):
                f[k] = f[k] + lr * w
                return f
            self.F = self.F.join(w, acc)


# ------------------------------------------------------------------ C25
def is_converge(self, loss):
    if self.pre_loss is None:
        r = False
    else:
        r = abs(loss - self.pre_loss) < self.eps
    self.pre_loss = loss
    return r


def diff_init(self, pre_loss=None, eps=consts.FLOAT_ZERO):
    self.pre_loss = pre_loss
    self.eps = eps


def check_convergence(self, loss):
    if self.convegence is None:
        self.convegence = DiffConverge(None, self.tol)
    return self.convegence.is_converge(loss)


def compute_loss_classification(self):
    loss = self.loss
    return float(loss.compute_loss(self.y, self.F.mapValues(lambda f: loss.predict(f))))


def compute_loss_regression(self):
    if self.objective_param.objective in ["lse", "lae", "logcosh", "tweedie", "log_cosh", "huber"]:
        return float(self.loss.compute_loss(self.y, self.F))
    loss = self.loss
    return float(loss.compute_loss(self.y, self.F.mapValues(lambda f: loss.predict(f))))


def host_fit(self, data_instances):
    self.gen_feature_fid_mapping(data_instances.schema)
    data = self.data_alignment(data_instances)
    self.convert_feature_to_bin(data)
    self.sync_tree_dim()
    for i in range(self.num_trees):
        for k in range(self.tree_dim):
            tree = HeteroDecisionTreeHost(self.tree_param)
            tree.set_inputinfo(self.data_bin, bin_split_points=self.bin_split_points, bin_sparse_points=self.bin_sparse_points)
            tree.set_valid_features(self.sample_valid_features())
            tree.set_flowid(self.generate_flowid(i, k))
            tree.set_runtime_idx(self.runtime_idx)
            tree.set_transfer_inst(self.transfer_inst)
            tree.fit()
            meta, param = tree.get_model()
            self.trees_.append(param)
            if self.tree_meta is None:
                self.tree_meta = meta
        if self.n_iter_no_change is True:
            if self.sync_stop_flag(i):
                break


def host_predict(self, data_instances, predict_param=None):
    data = self.data_alignment(data_instances)
    for i in range(len(self.trees_) // self.tree_dim):
        for k in range(self.tree_dim):
            tree = HeteroDecisionTreeHost(self.tree_param)
            tree.load_model(self.tree_meta, self.trees_[i * self.tree_dim + k])
            tree.set_flowid(self.generate_flowid(i, k))
            tree.set_runtime_idx(self.runtime_idx)
            tree.set_transfer_inst(self.transfer_inst)
            tree.predict(data)


# ------------------------------------------------------------------ C23
def all_class(kv_iterator):
    d = {}
    for _, label in kv_iterator:
        d[label] = True
    if len(d) > consts.MAX_CLASSNUM:
        raise ValueError("too many classes")
    return [d]


def validate_y(y):
    d = {}
    for _, part in y.mapPartitions(all_class).collect():
        d.update(part)
    if len(d) > consts.MAX_CLASSNUM:
        raise ValueError("too many classes")
    return len(d), d.keys()


def predict_binary(self, data_instances):
    data = self.data_alignment(data_instances)
    self.predict_f_value(data)
    loss, cl, th = self.loss, self.classes_, self.predict_param.threshold
    p = self.F.mapValues(lambda f: float(loss.predict(f)))

    def row(inst, p):
        return [inst.label, cl[1] if p > th else cl[0], p, {"0": 1 - p, "1": p}]
    return data.join(p, row)


def predict_multi(self, data_instances):
    data = self.data_alignment(data_instances)
    self.predict_f_value(data)
    loss, cl = self.loss, self.classes_
    p = self.F.mapValues(lambda f: loss.predict(f).tolist())

    def row(inst, p):
        return [inst.label, cl[np.argmax(p)], np.max(p), dict(zip(map(str, cl), p))]
    return data.join(p, row)


def predict_regression(self, data_instances):
    data = self.data_alignment(data_instances)
    self.predict_f_value(data)
    if self.objective_param.objective not in ["lse", "lae", "huber", "log_cosh", "fair", "tweedie"]:
        raise NotImplementedError("objective")
    return data.join(self.F, lambda inst, f: [inst.label, float(f), float(f), {"label": float(f)}])


def set_y_0(self):
    """labels are mapped unless every class is the integer 0"""
    self.y = self.data_bin.mapValues(lambda inst: inst.label)
    num, cl = validate_y(self.y)
    self.num_classes = num
    if num > 2:
        self.tree_dim = num
    skip = all(c >= 0 and c < 1 and isinstance(c, int) for c in cl)
    self.classes_ = sorted(cl)
    if not skip:
        idx = {}
        for i, c in enumerate(self.classes_):
            idx[c] = i
        self.y = self.y.mapValues(lambda c: idx[c])


def set_y_all(self):
    """labels are always mapped"""
    self.y = self.data_bin.mapValues(lambda inst: inst.label)
    num, cl = validate_y(self.y)
    self.num_classes = num
    if num > 2:
        self.tree_dim = num
    self.classes_ = sorted(cl)
    idx = {}
    for i, c in enumerate(self.classes_):
        idx[c] = i
    self.y = self.y.mapValues(lambda c: idx[c])


def set_y_n(self):
    """labels are mapped unless the classes are the integers 0..n-1"""
    self.y = self.data_bin.mapValues(lambda inst: inst.label)
    num, cl = validate_y(self.y)
    self.num_classes = num
    if num > 2:
        self.tree_dim = num
    skip = all(c >= 0 and c < num and isinstance(c, int) for c in cl)
    self.classes_ = sorted(cl)
    if not skip:
        idx = {}
        for i, c in enumerate(self.classes_):
            idx[c] = i
        self.y = self.y.mapValues(lambda c: idx[c])


def set_y_regression(self):
    self.y = self.data_bin.mapValues(lambda inst: inst.label)
    for y in [v for k, v in self.y.collect()]:
        try:
            float(y)
        except Exception:
            raise ValueError("label")


def set_loss(self, objective_param):
    name, params = objective_param.objective, objective_param.params
    if self.task_type == "classification":
        if name != "cross_entropy":
            raise NotImplementedError(name)
        self.loss = SigmoidBinaryCrossEntropyLoss() if self.num_classes == 2 else SoftmaxCrossEntropyLoss()
    elif self.task_type == "regression":
        if name == "lse":
            self.loss = LeastSquaredErrorLoss()
        elif name == "lae":
            self.loss = LeastAbsoluteErrorLoss()
        elif name == "huber":
            self.loss = HuberLoss(params[0])
        elif name == "fair":
            self.loss = FairLoss(params[0])
        elif name == "tweedie":
            self.loss = TweedieLoss(params[0])
        elif name == "log_cosh":
            self.loss = LogCoshLoss()
        else:
            raise NotImplementedError(name)
    else:
        raise NotImplementedError(name)


def fit_rounds(self, data_instances):
    self.convert_feature_to_bin(self.data_alignment(data_instances))
    self.set_y()
    self.generate_encrypter()
    self.sync_tree_dim()
    for i in range(self.num_trees):
        for k in range(self.tree_dim):
            tree = HeteroDecisionTreeGuest(self.tree_param)
            tree.set_inputinfo(self.data_bin, self.get_grad_and_hess(k), self.bin_split_points, self.bin_sparse_points)
            tree.set_valid_features(self.sample_valid_features())
            tree.set_encrypter(self.encrypter)
            tree.set_encrypted_mode_calculator(self.encrypted_calculator)
            tree.set_transfer_inst(self.transfer_inst)
            tree.fit()
        loss = self.compute_loss()
        self.history_loss.append(loss)
        if self.n_iter_no_change is True:
            stop = self.check_convergence(loss)
            self.sync_stop_flag(stop, i)
            if stop:
                break


# ------------------------------------------------------------------ settings and rows
def init_model(self, param):
    self.tree_param = param.tree_param
    self.task_type = param.task_type
    self.objective_param = param.objective_param
    self.learning_rate = param.learning_rate
    self.num_trees = param.num_trees
    self.subsample_feature_rate = param.subsample_feature_rate
    self.n_iter_no_change = param.n_iter_no_change
    self.encrypt_param = param.encrypt_param
    self.tol = param.tol
    self.bin_num = param.bin_num
    self.calculated_mode = param.encrypted_mode_calculator_param.mode
    self.re_encrypted_rate = param.encrypted_mode_calculator_param.re_encrypted_rate
    self.predict_param = param.predict_param
    self.cv_param = param.cv_param


def make_encrypter(self):
    if self.encrypt_param.method != "Paillier":
        raise NotImplementedError("unknown encryption")
    self.encrypter = PaillierEncrypt()
    self.encrypter.generate_key(self.encrypt_param.key_length)
    self.encrypted_calculator = EncryptModeCalculator(self.encrypter, self.calculated_mode, self.re_encrypted_rate)


def sparse_form(row):
    if type(row.features).__name__ == "SparseVector":
        return row
    n = row.features.shape[0]
    where = [i for i in range(n) if not np.abs(row.features[i]) < 1e-6]
    out = copy.copy(row)
    out.features = SparseVector(where, [row.features[i] for i in where], n)
    return out


def alignment(self, data):
    abnormal_detection.empty_table_detection(data)
    out = data.mapValues(lambda row: sparse_form(row))
    out.schema = data.schema
    return out
