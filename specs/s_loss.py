"""Reference definitions for C09."""
import numpy as np
from ml.utils import consts
from ml.loss.cross_entropy import SigmoidBinaryCrossEntropyLoss, SoftmaxCrossEntropyLoss
from ml.loss.regression_loss import LeastAbsoluteErrorLoss, LeastSquaredErrorLoss, HuberLoss, FairLoss, TweedieLoss, LogCoshLoss


def lae_grad(y, y_pred):
    d = y_pred - y
    if d > consts.FLOAT_ZERO:
        return 1
    if d < -consts.FLOAT_ZERO:
        return -1
    return 0


def delta_init(self, delta):
    self.delta = consts.FLOAT_ZERO if delta is None else delta
    if np.abs(self.delta) < consts.FLOAT_ZERO:
        self.delta = consts.FLOAT_ZERO


def c_init(self, c):
    self.c = consts.FLOAT_ZERO if c is None else c
    if np.abs(self.c) < consts.FLOAT_ZERO:
        self.c = consts.FLOAT_ZERO


def rho_init(self, rho=None):
    self.rho = consts.FLOAT_ZERO if rho is None else rho


def identity(value):
    return value


def softmax(x, axis=-1):
    y = np.exp(x - np.max(x, axis, keepdims=True))
    return y / np.sum(y, axis, keepdims=True)


def softmax1(values):
    return softmax(values)


def softmax_grad(y, y_pred):
    g = y_pred.copy()
    g[y] = g[y] - 1
    return g


def prob_hess(y, y_pred):
    return y_pred * (1 - y_pred)


# the TweedieLoss recorded as a known finding
def tweedie_grad_known(self, y, y_pred):
    return -y * np.exp(1 - self.rho) * y_pred + np.exp(2 - self.rho) * y_pred


def tweedie_hess_known(self, y, y_pred):
    return -y * (1 - self.rho) * np.exp(1 - self.rho) * y_pred + (2 - self.rho) * np.exp(2 - self.rho) * y_pred


def tweedie_sample_known(self, y, yp):
    return -y * np.exp(1 - self.rho) * np.log(max(yp, consts.FLOAT_ZERO)) / (1 - self.rho) + \
        np.exp(2 - self.rho) * np.log(max(consts.FLOAT_ZERO, yp)) / (2 - self.rho)


def set_loss(self, objective_param):
    t = objective_param.objective
    params = objective_param.params
    if self.task_type == consts.CLASSIFICATION:
        if t != "cross_entropy":
            raise NotImplementedError()
        self.loss = SigmoidBinaryCrossEntropyLoss() if self.num_classes == 2 else SoftmaxCrossEntropyLoss()
    elif self.task_type == consts.REGRESSION:
        if t == "lse":
            self.loss = LeastSquaredErrorLoss()
        elif t == "lae":
            self.loss = LeastAbsoluteErrorLoss()
        elif t == "huber":
            self.loss = HuberLoss(params[0])
        elif t == "fair":
            self.loss = FairLoss(params[0])
        elif t == "tweedie":
            self.loss = TweedieLoss(params[0])
        elif t == "log_cosh":
            self.loss = LogCoshLoss()
        else:
            raise NotImplementedError()
    else:
        raise NotImplementedError()
