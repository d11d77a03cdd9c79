"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=list(observe), hook_needed=None)))
NOTEST = "The 12 reliable tests only exercise the in-memory table; "
TI = "federation/transfer_inst.py"
GT, HT = "ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py"
GB, HB = "ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py"
XT, XB = "xgboost/hetero_decision_tree_guest.py", "xgboost/hetero_secureboosting_tree_guest.py"
BT = "ml/tree/boosting_tree.py"
FH, SP, CR, ND = "ml/tree/feateur_histogram.py", "ml/tree/splitter.py", "ml/tree/creterion.py", "ml/tree/node.py"
BB, QB, QS = "ml/feature/binning/base_binning.py", "ml/feature/binning/quantile_binning.py", "ml/feature/quantile_summaries.py"
PA, FX, GM = "ml/secureprotol/fate_paillier.py", "ml/secureprotol/fixedpoint.py", "ml/secureprotol/gmpy_math.py"
EN, EM, AF = "ml/secureprotol/encrypt.py", "ml/secureprotol/encrypt_mode.py", "ml/secureprotol/affine.py"
DT = "computing/d_table.py"

prop("C01", "Messages arrive exactly once, whole, in order, or fail",
     "An object sent by one party is received by its peer as exactly one equal object, however the network splits or merges the bytes, and consecutive messages on a connection never run into one another. If the connection closes before a whole message has arrived, receiving raises an error; it never returns partial data and never waits forever.",
     ["inputs", "schedules", "fault_sequences"], "every object and size, every segmentation of the byte stream, every point at which the peer closes",
     NOTEST + "no test opens a socket, and the segmentations and close points of a stream cannot be sampled exhaustively.",
     [TI], [("fixed-width length header then body, exact-read loop", TI + " TransferInst.send_data/recv_data/recv_exact")], observe=["bytes written to and read from a connection"])
prop("C02", "Host addressing: -1 is everyone once, an index is exactly that host",
     "Sending with index -1 delivers the object exactly once to every connected host, receiving with -1 returns one object per host in connection order, and a valid index touches exactly that host's connection. Any other index raises ValueError before anything is sent or received. The split evaluation computed from host i's statistics is sent back to host i and to no other host.",
     ["inputs", "configurations"], "every number of hosts and every index",
     NOTEST + "no test creates more than zero hosts.", [TI, GT], [("index dispatch", TI + " TransferInstGuest"), ("per-host reply loop", GT + " federated_find_split")])
prop("C03", "Guest and host message exchanges always match",
     "In every training and prediction run, each message the guest sends to hosts is received by a host at the matching point of its own run and the other way round: same order, same kind of payload, the same number of times. Both sides take every decision that changes the exchange (number of trees per round, depth limit, empty node queue, node batches, early stopping, end of prediction) from the same exchanged data or shared configuration, so no party is left waiting or misreads a message.",
     ["inputs", "configurations", "histories"], "every data set, configuration and resulting sequence of rounds, depths and batches",
     NOTEST + "no test runs a guest and a host together.", [GT, HT, GB, HB], [("sync_* message functions and the fit/predict loops that call them", GT + ", " + HT + ", " + GB + ", " + HB)], observe=["transfer_inst sends and receives"])
prop("C04", "Guest secrets leave the guest only encrypted",
     "Everything the guest sends to hosts in training and prediction is free of plaintext labels, predictions, gradients, hessians, their sums, leaf weights, split gains, the guest's feature values and split thresholds, and of the private key. Values derived from them are sent only as ciphertexts under the guest's public key, or as sample routing (node ids), tree shape, and stop or finish flags.",
     ["inputs", "configurations"], "every message of every run (direct data flow; what routing or control decisions reveal is outside the statement)",
     NOTEST + "a leak is a data flow on some path to a send, not an output a test compares.", [GT, GB], [("masked node queue and tree, encrypted gradients and gains, thresholds kept in a private mask table", GT)])
prop("C05", "Host features and thresholds never leave the host",
     "Nothing a host sends to the guest contains its feature values, its bin thresholds, its feature bins, or which threshold a chosen split uses: only encrypted per-bin sums, an opaque split record (site, feature index, encrypted sums and gain) and sample routing. The table that maps a host's tree nodes to thresholds stays on that host.",
     ["inputs", "configurations"], "every message of every run (direct data flow)",
     NOTEST + "a leak is a data flow on some path to a send, not an output a test compares.", [HT, HB, SP], [("best_bid masked before final split info is sent; mask table kept local", HT + " sync_final_splitinfo_host/encode")])
prop("C06", "Keys and ciphertext blinding use OS randomness, fresh every time",
     "Key material and Paillier blinding factors come from the operating system's cryptographic generator, never from a seedable generator, a constant or a value reused between ciphertexts. Every ciphertext returned by public-key encryption without an explicit random value is blinded with its own fresh factor drawn from the whole range of the modulus, and a ciphertext produced by homomorphic arithmetic counts as unblinded until it is blinded again, which happens before it is handed out as a secure ciphertext.",
     ["inputs", "histories"], "every key generation, encryption and homomorphic operation",
     NOTEST + "randomness quality and reuse are not observable from sampled outputs.", [PA, GM, AF, EN], [("SystemRandom in key generation and apply_obfuscator; obfuscator flag", PA + ", " + GM)])
prop("C07", "Homomorphic arithmetic is plaintext arithmetic; misuse is refused",
     "Adding, subtracting and scaling ciphertexts and fixed-point numbers (in any operand order and with any exponents) yields an encoding of the corresponding plaintext result modulo the key, with exponents aligned before addition and added on multiplication; decrypting inverts encrypting; lists and tables are encrypted and decrypted element by element. Combining Paillier ciphertexts of different keys, decrypting one under a different key, a plaintext out of the representable range, a corrupted or overflowed encoding, and lowering an exponent raise an error instead of giving a wrong number.",
     ["inputs"], "all keys, plaintexts, exponents and operand orders; rounding of floats to the encoding precision is outside the statement",
     NOTEST + "no test imports the cryptography.", [PA, FX, GM, AF, EN], [("exponent alignment, sign-by-range encoding, CRT decryption, key comparison", PA + ", " + FX)])
prop("C08", "Every encryption mode yields ciphertexts of the current gradients",
     "In strict, balance and fast mode, the table returned for a round has the same sample ids and row layout as its input and decrypts to that round's values: either each value is encrypted afresh, or the previous round's ciphertext plus (new value minus previous value). Strict mode, and the first call in any mode, always encrypts afresh, and each call stores its input and output as the base for the next call.",
     ["inputs", "histories", "configurations"], "every sequence of calls, mode, rate and row type",
     NOTEST + "a wrong carried-over base shows only after several rounds in one mode.", [EM], [("prev_data / prev_encrypted_data difference scheme", EM + " EncryptModeCalculator.encrypt")], state=[("prev_data, prev_encrypted_data", "previous round's plaintext and ciphertext tables", EM)])
prop("C09", "Gradient and hessian are the derivatives of the reported loss",
     "For each supported objective the gradient is the first and the hessian the second derivative of that objective's per-sample loss with respect to the score (least absolute error uses the sign of the residual with unit hessian and 0 at zero residual; softmax uses the diagonal), up to the documented constant conventions. The reported loss is the mean of the per-sample loss over all samples, and the sigmoid and softmax links are exact and computed without overflow for large scores.",
     ["inputs"], "every label, score and objective parameter",
     NOTEST + "no test imports a loss.", ["ml/loss/cross_entropy.py", "ml/loss/regression_loss.py", "ml/optim/activation.py"], [("compute_loss / compute_grad / compute_hess of each loss class", "ml/loss")])
prop("C10", "Histograms count every active sample once per feature and bin",
     "A node's histogram entry for a feature and bin is the sum of gradient, hessian and count over exactly the samples that are currently at that node (samples finished in a leaf or at nodes outside the batch excluded), taking a feature value absent from the sparse row as that feature's zero bin; features not selected contribute nothing. The accumulated histogram is the running sum over bins, so its last bin holds the node totals.",
     ["inputs", "configurations"], "every data set, feature subset, node batch and gradient type (plain or encrypted)",
     NOTEST + "no test computes a histogram.", [FH], [("batch_calculate_histogram / accumulate_histogram / aggregate_histogram", FH)])
prop("C11", "The split chosen is an admissible one with the greatest gain",
     "A candidate split is admissible when its feature is selected, the node has at least the minimum sample count, and both sides have at least the minimum leaf count; guest and host apply the same test. Gain is G_L^2/(H_L+lambda) + G_R^2/(H_R+lambda) - G^2/(H+lambda) and a node's weight is -G/(H+lambda); each party offers its admissible candidate of greatest gain exceeding the minimum gain, or none, and the guest keeps its own unless some host's gain is larger by more than the tolerance, in which case that best host's split is used with its decrypted sums.",
     ["inputs", "configurations"], "every histogram, parameter setting and number of hosts",
     NOTEST + "no test finds a split.", [SP, CR, GT, HT], [("find_split_single_histogram_guest/host, find_host_split, find_best_split_guest_and_host, XgboostCriterion", SP + ", " + GT + ", " + CR)])
prop("C12", "Binning, training and prediction route a sample the same way",
     "A sample goes to the left child exactly when its value for the split feature is at most the threshold, with absent sparse values treated as zero: in training by comparing bins (absent value = the feature's zero bin), in prediction by comparing the real value with the threshold of the chosen bin, on guest and host alike. The threshold stored for a node is the upper bound of the split bin of the split feature at that party, so training samples reach the same leaf in prediction as in training.",
     ["inputs", "histories"], "every sample, tree and party",
     NOTEST + "no test trains and predicts.", [GT, HT, BB, XT], [("get_bin_num, dispatch_node, convert_bin_to_real, traverse_tree", BB + ", " + GT + ", " + HT)])
prop("C13", "No sample is lost, duplicated or left behind while routing",
     "At every depth of training each active sample is either recorded once with its leaf's weight, routed by the guest, or sent to hosts and taken back from the one host that owns its split; every later depth and the score update see each sample exactly once. In prediction every sample keeps moving between guest and hosts until it has exactly one leaf weight, and prediction ends exactly when none is left.",
     ["inputs", "histories", "configurations"], "every data set, tree and number of hosts",
     NOTEST + "a lost sample shows only for particular mixes of leaf, guest and host nodes.", [GT, HT, XT], [("filter/subtract/union/join partition in redispatch_node and predict", GT), ("join with local data and pass-through of foreign nodes", HT)])
prop("C14", "Trees are well-formed: ids, children, depth, leaves",
     "In every tree a node's id is its position in the node list, each internal node has exactly two children with the next two unused ids whose gradient and hessian sums add up to its own and which carry their own optimal weights, and no leaf has children. A node becomes a leaf exactly when the maximum depth is reached or its best gain does not exceed the minimum, and the root is node 0 holding the totals of all samples.",
     ["inputs", "configurations"], "every training run",
     NOTEST + "no test builds a tree.", [GT, ND, XT], [("update_tree_node_queue, fit", GT)])
prop("C15", "Exported trees restore to the same trees",
     "Exporting a trained tree and loading it back restores every node field that prediction uses (id, owner, feature, weight, leaf flag, children), the node-to-threshold table and the tree parameters, in order and at both parties; nothing is swapped, dropped or defaulted. A tree that was loaded predicts from the restored state alone.",
     ["inputs"], "every tree",
     NOTEST + "no test exports a model.", [GT, HT, XT, "arch/api/boosting_tree_model_param_pb2.py", "arch/api/boosting_tree_model_meta_pb2.py"], [("get_model*/set_model* field tables", GT + ", " + HT)])
prop("C16", "Scores are initial value plus learning rate times each tree, per class",
     "After training and in prediction alike, a sample's score for class k is the initial score plus learning rate times the weight of its leaf in each of class k's trees, each tree used once, with round-major tree order; gradients of a round are computed from the scores before that round. Samples do not share score storage with one another or with the stored initial score.",
     ["inputs", "configurations", "histories"], "every number of rounds and classes, every data set",
     NOTEST + "no test fits a model.", [GB, HB, XB], [("update_f_value / accumulate_f / predict_f_value / fit loop", GB)])
prop("C17", "Training and prediction leave the caller's data untouched",
     "Aligning, binning, training on and predicting with a data table never changes the instances, feature arrays or tables the caller passed in, so the same table can be used again and gives the same answer as a fresh copy.",
     ["inputs", "histories"], "every dense or sparse data table and every later use of it",
     NOTEST + "aliasing shows only when the same data is used twice.", [BT, BB, QB, GB, HB], [("copies made by data_format_transform and the _convert_*_data functions", BT + ", " + BB)])
prop("C18", "Table operations obey keyed-table algebra",
     "map/mapValues/filter/join/union/subtractByKey/reduce/mapPartitions/mapReducePartitions/take/first/count/collect return what the same operation on a mapping from unique keys to values would: keys kept or combined exactly as named, join only on common keys and union on all, the combiner called as (own value, other value), left value by default. Operations do not modify their operands; duplicate keys and malformed input raise ValueError or TypeError.",
     ["inputs"], "every table content and every function argument",
     "Tests try each operation on one small table; the algebra must hold for all keys, values, overlaps, empty tables and combiners.", [DT], [("DTable methods", DT)])
prop("C19", "Guest and host split rows into train and test identically",
     "Given row-aligned files and the same ratio, the guest and host programs shuffle and cut their rows with the same permutation and the same offset, so the i-th training row and i-th test row of every party belong to the same sample; no row is lost or in both parts.",
     ["inputs", "configurations"], "every number of rows, ratio and seed",
     NOTEST + "the two programs are never compared.", ["guest.py", "host.py"], [("data_split and its call in each program", "guest.py, host.py")])
prop("C20", "CSV reading keeps columns and rows aligned",
     "Reading a file yields, for every data row in order, its id, its label (guest files) and its features as floats in header order, and a header naming exactly the feature columns; no row or column is skipped, repeated or shifted.",
     ["inputs"], "every file in the documented layout",
     NOTEST + "no test reads a file.", ["i_o/utils.py"], [("column positions popped from header and rows alike", "i_o/utils.py")])
prop("C21", "Invalid parameters are rejected before training",
     "Checking a parameter object raises ValueError for any value outside its documented type or range, accepts and normalises the documented ones, and checking the boosting parameters also checks the nested tree, objective, encryption, encryption-mode and prediction parameters. A component that is run with a configuration reads it, checks the resulting parameters, and only then initialises, loads or trains a model from them.",
     ["inputs", "configurations"], "every parameter value of any type",
     NOTEST + "no test checks a parameter.", ["ml/param/boosting_tree_param.py", "ml/param/base_param.py", "ml/param/encrypt_param.py", "ml/param/encrypted_mode_calculation_param.py", "ml/param/predict_param.py", "ml/model_base.py"], [("check methods", "ml/param")])
prop("C22", "Feature binning maps each column with its own split points",
     "Each value of each feature column is replaced by the index of the first of that column's split points that is not smaller than it (or the number of split points if none), for dense and sparse rows alike; the zero bin of a column is the bin of 0 under the same split points. The exported split points are listed in column order and are the ones used for binning; rows keep their id, label and weight.",
     ["inputs"], "every table, column and split point list",
     NOTEST + "no test bins a feature.", [BB, QB], [("convert_feature_to_bin, _convert_dense_data, _convert_sparse_data, get_bin_num, get_sparse_bin", BB)])
prop("C23", "Labels and classes map consistently in training and prediction",
     "Training labels are replaced by their index in the sorted list of distinct labels, the same list that turns predicted class indices back into labels; binary prediction gives the second class exactly when its probability exceeds the threshold, multi-class prediction gives the class of greatest probability, and regression gives the score. Each result row carries the true label, the predicted label, the score and the per-class detail of the same sample.",
     ["inputs", "configurations"], "every label type and set, every score and threshold",
     NOTEST + "no test predicts.", [GB, XB, "ml/utils/classfiy_label_checker.py"], [("check_label and predict", GB)])
prop("C24", "Merged statistics equal the statistics of the combined data",
     "Merging two partial summaries gives the count, sum, sum of squares, minimum and maximum of the combined data, and mean and variance derived from them follow their formulas. A quantile summary conserves observations: inserting adds each accepted value once, compressing and merging neither create nor lose rank weight and keep the samples sorted, and the counts of values below and above zero add up. Reading a statistic gives, for every requested column, that column's own; a sparse column's quantile is zero exactly where its zeros lie and otherwise the matching quantile of its nonzero values.",
     ["inputs", "histories"], "every partition of the data into summaries and every order of merging",
     NOTEST + "a lost count shows only when buffers overflow or partitions merge.", [QS, "ml/statistic/statics.py", QB], [("SummaryStatistics.merge, QuantileSummaries._insert_head_buffer/_compress_immut/merge", QS + ", ml/statistic/statics.py")])
prop("C25", "Early stopping follows the loss change",
     "Training stops after the first round whose loss differs from the previous round's loss by less than the tolerance, never on the first round, never when early stopping is off, and otherwise after the configured number of rounds; hosts stop in the same round. The loss of every completed round is recorded.",
     ["histories", "configurations"], "every sequence of losses",
     NOTEST + "no test runs a round.", [GB, HB, XB, "ml/optim/convergence.py"], [("DiffConverge.is_converge, check_convergence, sync_stop_flag", GB + ", ml/optim/convergence.py")])
prop("C29", "A component's run trains on the training table and returns every prediction once",
     "Running a component that is given a training table fits it exactly once, on that table, and then predicts that table and the evaluation table if there is one; given only an evaluation table it predicts that one without fitting. Every row predicted appears in the result under its own id with its prediction unchanged, marked with the part it came from (train, validation, test), predictions of one part never replace or swallow those of the other, and the result's header names its columns in order (label, result, score, detail, type). Cross validation, one-against-rest, plain fit and transform stages run exactly the corresponding step on the table they were given.",
     ["inputs", "configurations"], "every combination of tables and stage",
     NOTEST + "no test runs a component.", ["ml/model_base.py"], [("_run_data and set_predict_data_schema", "ml/model_base.py")])
prop("C26", "Federated training is lossless compared with pooled training",
     "Training over split columns gives the same trees and predictions as training one party on all columns, up to fixed-point rounding.",
     ["inputs", "configurations"], "every data set", NOTEST + "no end-to-end run.", [GT, HT, XT], [("whole training pipeline", "ml/tree, xgboost")])
prop("C27", "Quantile split points have bounded rank error",
     "Every split point's rank is within the configured relative error of the requested quantile.",
     ["inputs", "histories"], "every insertion order, buffer size and error setting", NOTEST + "no test builds a summary.", [QS], [("Greenwald-Khanna summary", QS)])
prop("C28", "Encrypted sums never overflow the plaintext space",
     "For every data set within documented sizes, sums of encoded gradients and hessians stay within the range that decrypts to the true sum.",
     ["inputs"], "every data set and key length", NOTEST + "no test encrypts.", [PA, FX], [("max_int bound of the encoding", FX)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
