From 4caf056691b7435dd1735ce56e8c99f7e1e4f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:17 +0000
Subject: [PATCH 01/18] fix: receive whole header/body and fail on a closed
 connection in TransferInst.recv_data

---
 federation/transfer_inst.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/federation/transfer_inst.py b/federation/transfer_inst.py
index 0d1d7b0..bb51a65 100644
--- a/federation/transfer_inst.py
+++ b/federation/transfer_inst.py
@@ -33,19 +33,32 @@ class TransferInst:
         #     full_msg = full_msg + more
         #     nowsize += len(more)
 
-        msg = cs.recv(16)
-        length = int(msg[:16])
+        length = int(TransferInst.recv_exact(cs, 16))
         # LOGGER.debug('len of recv_msg is {}'.format(length))
-        full_msg = b''
-        nowsize = len(full_msg)
-        while nowsize < length:
-            more = cs.recv(length - nowsize)
-            full_msg = full_msg + more
-            nowsize += len(more)
+        full_msg = TransferInst.recv_exact(cs, length)
 
         # LOGGER.debug('true len of recv_msg is {}'.format(length))
         return pickle.loads(full_msg)
 
+    @staticmethod
+    def recv_exact(cs, size):
+        """
+        receive exactly ``size`` bytes, however the stream is segmented
+
+        Raises
+        ------
+        EOFError
+            if the peer closes the connection before ``size`` bytes arrived
+
+        """
+        buf = b''
+        while len(buf) < size:
+            more = cs.recv(size - len(buf))
+            if not more:
+                raise EOFError('connection closed after {} of {} bytes'.format(len(buf), size))
+            buf = buf + more
+        return buf
+
 
 class TransferInstGuest(TransferInst):
     def __init__(self, port: int=12345, conn_num: int=1) -> None:
-- 
2.43.0


From 0205f7dd722b995d7f182840651b255e54d1373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 02/18] fix: do not send plaintext leaf weights and gradient
 sums to hosts with the tree

---
 ml/tree/hetero_decision_tree_guest.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ml/tree/hetero_decision_tree_guest.py b/ml/tree/hetero_decision_tree_guest.py
index ac1e371..1f28589 100644
--- a/ml/tree/hetero_decision_tree_guest.py
+++ b/ml/tree/hetero_decision_tree_guest.py
@@ -306,7 +306,11 @@ class HeteroDecisionTreeGuest(DecisionTree):
     def sync_tree(self):
         self.logger.info("sync tree to host")
 
-        self.transfer_inst.send_data_to_hosts(self.tree_, -1)
+        # hosts only route samples, so leaf weights and gradient sums stay here
+        mask_tree = [Node(id=node.id, sitename=node.sitename, fid=node.fid, bid=node.bid,
+                          is_leaf=node.is_leaf, left_nodeid=node.left_nodeid,
+                          right_nodeid=node.right_nodeid) for node in self.tree_]
+        self.transfer_inst.send_data_to_hosts(mask_tree, -1)
 
         # federation.remote(obj=self.tree_,
         #                   name=self.transfer_inst.tree.name,
-- 
2.43.0


From 131cf98f8294f84d4d5153ef2a764fe94be80254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 03/18] fix: alignment and binning no longer overwrite the
 features of the caller's instances

---
 ml/feature/binning/base_binning.py | 7 +++++--
 ml/tree/boosting_tree.py           | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index c433b9d..e6102db 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import math
 
@@ -133,19 +134,21 @@ class Binning:
                 sparse_value.append(col_value)
 
         sparse_vector = SparseVector(indice, sparse_value, data_shape)
+        instances = copy.copy(instances)
         instances.features = sparse_vector
         return instances
 
     @staticmethod
     def _convert_dense_data(instances, transform_cols_idx, split_points_dict, header):
-        features = instances.features
-        for col_idx, col_value in enumerate(features):
+        features = copy.copy(instances.features)
+        for col_idx, col_value in enumerate(instances.features):
             if col_idx in transform_cols_idx:
                 col_name = header[col_idx]
                 split_points = split_points_dict[col_name]
                 bin_num = Binning.get_bin_num(col_value, split_points)
                 features[col_idx] = bin_num
 
+        instances = copy.copy(instances)
         instances.features = features
         return instances
 
diff --git a/ml/tree/boosting_tree.py b/ml/tree/boosting_tree.py
index 7e00998..0983f1e 100644
--- a/ml/tree/boosting_tree.py
+++ b/ml/tree/boosting_tree.py
@@ -1,5 +1,6 @@
 
 from computing.d_table import DTable
+import copy
 import numpy as np
 from ml.param.boosting_tree_param import BoostingTreeParam
 from ml.utils import consts
@@ -62,6 +63,7 @@ class BoostingTree(ModelBase):
                 indices.append(i)
                 data.append(row.features[i])
 
+            row = copy.copy(row)
             row.features = SparseVector(indices, data, feature_shape)
 
         return row
-- 
2.43.0


From ba9ef5af87987a214059014c18d4248619c328a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 04/18] fix: LogCoshLoss.initialize uses the mean of the label
 column

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 450c8db..fc9fe10 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -179,7 +179,7 @@ class LogCoshLoss(object):
         y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
         y_inst.schema = {"header": ["label"]}
         statistics = MultivariateStatisticalSummary(y_inst, -1)
-        mean = statistics.get_mean()
+        mean = statistics.get_mean()["label"]
         return y.mapValues(lambda x: np.asarray([mean])), np.asarray([mean])
 
     @staticmethod
-- 
2.43.0


From dd2d8f8a60f3fdb3169c6e04206e1eecd8bcba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 05/18] fix: NameError in FairLoss when c is None

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index fc9fe10..3ef6fc7 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -146,7 +146,7 @@ class FairLoss(object):
 
     def __init__(self, c):
         if c is None:
-            self.c = const.FLOAT_ZERO
+            self.c = consts.FLOAT_ZERO
         else:
             self.c = c
 
-- 
2.43.0


From 6339635933d1d61a31bde9d3e6e3684ebaa0ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 06/18] fix: zero residual has zero gradient in
 LeastAbsoluteErrorLoss

---
 ml/loss/regression_loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 3ef6fc7..1ef933e 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -76,7 +76,7 @@ class LeastAbsoluteErrorLoss(object):
         if type(y).__name__ == "ndarray" or type(y_pred).__name__ == "ndarray":
             diff = y_pred - y
             diff[diff > consts.FLOAT_ZERO] = 1
-            diff[diff < consts.FLOAT_ZERO] = -1
+            diff[diff < -consts.FLOAT_ZERO] = -1
             diff[np.abs(diff) <= consts.FLOAT_ZERO] = 0
 
             return diff
@@ -84,7 +84,7 @@ class LeastAbsoluteErrorLoss(object):
             diff = y_pred - y
             if diff > consts.FLOAT_ZERO:
                 return 1
-            elif diff < consts.FLOAT_ZERO:
+            elif diff < -consts.FLOAT_ZERO:
                 return -1
             else:
                 return 0
-- 
2.43.0


From da33d808579ad274466078d39096fa149f9f8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:55 +0000
Subject: [PATCH 07/18] fix: partition statistics return a list and
 fit_split_points returns the split points, as their callers need

---
 ml/feature/binning/quantile_binning.py | 1 +
 ml/statistic/statics.py                | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 3c50679..ce2ff9d 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -67,6 +67,7 @@ class QuantileBinning(Binning):
                     split_point.append(s_p)
             split_points[col_name] = split_point
         self.split_points = split_points
+        return self.split_points
 
     @staticmethod
     def approxiQuantile(data_instances, params, cols_dict, abnormal_list, header, is_sparse) -> dict:
diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 35ed40e..8f0cdce 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -200,7 +200,7 @@ class MultivariateStatisticalSummary(object):
                 stat_obj = summary_statistic_dict[col_name]
                 stat_obj.add_value(value)
 
-        return summary_statistic_dict
+        return [summary_statistic_dict]
 
     @staticmethod
     def static_summaries_in_partition(data_instances, cols_dict, abnormal_list):
@@ -238,7 +238,7 @@ class MultivariateStatisticalSummary(object):
                 summary_obj = summary_dict[col_name]
                 summary_obj.insert(value)
 
-        return summary_dict
+        return [summary_dict]
 
     @staticmethod
     def aggregate_statics(s_dict1, s_dict2):
-- 
2.43.0


From 848ee4ff0cfcac5271c50b0d660bb9f5f49c7939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 08/18] fix: keep the union of train and validation predictions
 in ModelBase

---
 ml/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/model_base.py b/ml/model_base.py
index 933e193..409ae17 100644
--- a/ml/model_base.py
+++ b/ml/model_base.py
@@ -105,7 +105,7 @@ class ModelBase(object):
                         predict_output_res = eval_data_predict_res.mapValues(lambda d: d + ["validation"])
 
                         if self.data_output:
-                            self.data_output.union(predict_output_res)
+                            self.data_output = self.data_output.union(predict_output_res)
                         else:
                             self.data_output = predict_output_res
 
@@ -134,7 +134,7 @@ class ModelBase(object):
                     eval_data_output = eval_data_output.mapValues(lambda value: value + ["validation"])
 
                 if self.data_output and eval_data_output:
-                    self.data_output.union(eval_data_output)
+                    self.data_output = self.data_output.union(eval_data_output)
                 elif not self.data_output and eval_data_output:
                     self.data_output = eval_data_output
 
-- 
2.43.0


From 03f8079c24dba6aac561bcf2df008b5d839e19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 09/18] fix: BoostingTreeParam.check also checks the encryption
 mode and predict parameters

---
 ml/param/boosting_tree_param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index a66117e..11e2a66 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -251,6 +251,8 @@ class BoostingTreeParam(BaseParam):
             raise ValueError("boosting tree param's tol {} not supported, should be numeric".format(self.tol))
 
         self.encrypt_param.check()
+        self.encrypted_mode_calculator_param.check()
+        self.predict_param.check()
 
         if type(self.bin_num).__name__ not in ["int", "long"] or self.bin_num < 2:
             raise ValueError(
-- 
2.43.0


From e76325a7217aedfe00de613a9de3238b34696a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 10/18] fix: EncryptParam.check accepts method None instead of
 raising AttributeError

---
 ml/param/encrypt_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/encrypt_param.py b/ml/param/encrypt_param.py
index 70d0f4c..ff8006a 100644
--- a/ml/param/encrypt_param.py
+++ b/ml/param/encrypt_param.py
@@ -48,7 +48,7 @@ class EncryptParam(BaseParam):
             raise ValueError(
                 "encrypt_param's method {} not supported, should be str type".format(
                     self.method))
-        else:
+        elif self.method is not None:
             user_input = self.method.lower()
             if user_input == 'paillier':
                 self.method = consts.PAILLIER
-- 
2.43.0


From 28e4b9bb62f84afff19911239d1f859b9805f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 11/18] fix: recursive_encrypt returns ciphertexts instead of
 casting them to float

---
 ml/secureprotol/encrypt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/secureprotol/encrypt.py b/ml/secureprotol/encrypt.py
index 7a17a73..564ca1a 100644
--- a/ml/secureprotol/encrypt.py
+++ b/ml/secureprotol/encrypt.py
@@ -97,7 +97,7 @@ class Encrypt(object):
         if not isinstance(A, np.ndarray) and not isinstance(A, list):
             data_dict = A.collect()
             data_dict = dict(data_dict)
-            A = data_dict.values()
+            A = list(data_dict.values())
             A = np.array(A)
 
         if isinstance(A, list):
@@ -112,7 +112,7 @@ class Encrypt(object):
             else:
                 encrypted_term = self.encrypt_list(row)
                 encrypt_row.append(encrypted_term)
-        return np.array(encrypt_row, dtype=np.float64)
+        return np.array(encrypt_row)
 
 
 class RsaEncrypt(Encrypt):
-- 
2.43.0


From 7bfa8583e3919d62a05d831393382e1eae62b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:04 +0000
Subject: [PATCH 12/18] fix: export the split points that were used for binning

---
 ml/feature/binning/base_binning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index e6102db..c1a14bf 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -105,9 +105,9 @@ class Binning:
         bin_sparse = self.get_sparse_bin(transform_cols_idx, split_points)
         split_points_result = []
         for idx, col_name in enumerate(self.header):
-            if col_name not in self.split_points:
+            if col_name not in split_points:
                 continue
-            s_ps = self.split_points[col_name]
+            s_ps = split_points[col_name]
             s_ps = np.array(s_ps)
             split_points_result.append(s_ps)
         split_points_result = np.array(split_points_result)
-- 
2.43.0


From 7c9059ec6d7cbd51ccaf1fefb89b3c87367cd1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:30 +0000
Subject: [PATCH 13/18] fix: keep the summaries above the largest buffered
 value when inserting the head buffer

---
 ml/feature/quantile_summaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 39d4763..abe2244 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -97,6 +97,7 @@ class QuantileSummaries(object):
             new_stats = Stats(current_sample, 1, delta)
             new_sampled.append(new_stats)
             ops_idx += 1
+        new_sampled += self.sampled[sample_idx:]
         self.sampled = new_sampled
         self.head_sampled = []
         self.count = current_count
-- 
2.43.0


From fb646c4e3cecf75435a54f8871814c85bcff3775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:30 +0000
Subject: [PATCH 14/18] fix: do not count abnormal values as below or above
 zero in sparse quantile summaries

---
 ml/feature/quantile_summaries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index abe2244..1f333f6 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -241,6 +241,8 @@ class SparseQuantileSummaries(QuantileSummaries):
         self._total_count = total_count
 
     def insert(self, x):
+        if x in self.abnormal_list:
+            return
         if x < consts.FLOAT_ZERO:
             self.smaller_num += 1
         elif x >= consts.FLOAT_ZERO:
-- 
2.43.0


From 928261fd6e64a7ed00f125b653f5b4891cad6f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:40 +0000
Subject: [PATCH 15/18] fix: minimum and maximum of values beyond the machine
 integer range

---
 ml/statistic/statics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 8f0cdce..905a476 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -16,7 +16,6 @@
 
 import functools
 import math
-import sys
 
 from ml.feature.binning.quantile_binning import QuantileBinning
 from ml.feature.quantile_summaries import QuantileSummaries
@@ -37,8 +36,8 @@ class SummaryStatistics(object):
 
         self.sum = 0
         self.sum_square = 0
-        self.max_value = - sys.maxsize - 1
-        self.min_value = sys.maxsize
+        self.max_value = -math.inf
+        self.min_value = math.inf
         self.count = 0
 
     def add_value(self, value):
-- 
2.43.0


From 07da99ade99fda0799945c0d3785ce1f1a40a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 16/18] fix: TransformParam.check compares transform_type
 itself, not its type's name, with the documented values

---
 ml/param/feature_binning_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index fb516b5..bdd2d8f 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -27,7 +27,7 @@ class TransformParam(BaseParam):
         descr = "Transform Param's "
         if self.transform_cols is not None and self.transform_cols != -1:
             self.check_defined_type(self.transform_cols, descr, ['list'])
-        self.check_defined_type(self.transform_type, descr, ['bin_num', None])
+        self.check_valid_value(self.transform_type, descr, ['bin_num', None])
         
 
 class FeatureBinningParam(BaseParam):
-- 
2.43.0


From 19db2d227046a999e72f98484e9283e634cf828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 17/18] fix: FeatureBinningParam.check rejects error = 1.0,
 outside its documented range [0, 1)

---
 ml/param/feature_binning_param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index bdd2d8f..417c64c 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -99,6 +99,8 @@ class FeatureBinningParam(BaseParam):
         self.check_positive_integer(self.compress_thres, descr)
         self.check_positive_integer(self.head_size, descr)
         self.check_decimal_float(self.error, descr)
+        if self.error >= 1:
+            raise ValueError(descr + " error {} not supported, should be in range [0, 1)".format(self.error))
         self.check_positive_integer(self.bin_num, descr)
         self.check_defined_type(self.cols, descr, ['list', 'int', 'RepeatedScalarContainer'])
         self.check_open_unit_interval(self.adjustment_factor, descr)
-- 
2.43.0


From e44bc6ab8e4ffc342bfbcba63f1836cf1ae7b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:54 +0000
Subject: [PATCH 18/18] fix: fixed-point arithmetic keeps the modulus of its
 operands

---
 ml/secureprotol/fixedpoint.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index f411d72..3a64f6b 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -127,7 +127,7 @@ class FixedPointNumber(object):
 
     def __truncate(self, a):
         scalar = a.decode()
-        return FixedPointNumber.encode(scalar)    
+        return FixedPointNumber.encode(scalar, self.n, self.max_int)
 
     def __add__(self, other):       
         if isinstance(other, FixedPointNumber):
@@ -148,7 +148,7 @@ class FixedPointNumber(object):
     def __rsub__(self, other):
         x = self.__sub__(other)
         x = -1 * x.decode()
-        return self.encode(x)
+        return self.encode(x, self.n, self.max_int)
     
     def __rmul__(self, other):
         return self.__mul__(other)
@@ -169,7 +169,7 @@ class FixedPointNumber(object):
    
     def __rtruediv__(self, other):
         res = 1.0 / self.__truediv__(other).decode() 
-        return FixedPointNumber.encode(res)
+        return FixedPointNumber.encode(res, self.n, self.max_int)
  
     def __lt__(self, other):
         x = self.decode()
@@ -238,13 +238,16 @@ class FixedPointNumber(object):
         else:
             return False   
   
-    def __add_fixpointnumber(self, other):        
+    def __add_fixpointnumber(self, other):
+        if self.n != other.n:
+            other = self.encode(other.decode(), self.n, self.max_int)
+
         x, y = self.__align_exponent(self, other)
-        encoding = (x.encoding + y.encoding) % self.Q        
-        return FixedPointNumber(encoding, x.exponent)
+        encoding = (x.encoding + y.encoding) % self.n
+        return FixedPointNumber(encoding, x.exponent, self.n, self.max_int)
  
     def __add_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__add_fixpointnumber(encoded)
   
     def __sub_fixpointnumber(self, other):        
@@ -255,13 +258,16 @@ class FixedPointNumber(object):
         scalar = -1 * scalar
         return self.__add_scalar(scalar)    
   
-    def __mul_fixpointnumber(self, other):     
-        encoding = (self.encoding * other.encoding) % self.Q
+    def __mul_fixpointnumber(self, other):
+        if self.n != other.n:
+            other = self.encode(other.decode(), self.n, self.max_int)
+
+        encoding = (self.encoding * other.encoding) % self.n
         exponet = self.exponent + other.exponent
-        mul_fixedpoint = FixedPointNumber(encoding, exponet)            
+        mul_fixedpoint = FixedPointNumber(encoding, exponet, self.n, self.max_int)
         truncate_mul_fixedpoint= self.__truncate(mul_fixedpoint)        
         return truncate_mul_fixedpoint
    
     def __mul_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__mul_fixpointnumber(encoded)
-- 
2.43.0

