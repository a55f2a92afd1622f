#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Every tree node takes the best admissible split, or is a leaf",
  "When a tree is grown, each internal node splits on the feature and threshold with the best gain among all admissible splits of the samples that reach it (for regular trees the largest reduction of squared error, for xgboost trees the largest regularised gain, which must be positive), where the threshold lies midway between two consecutive distinct observed values. A node above the depth limit is a leaf only if no such split exists.",
  ["inputs", "configurations"], "all datasets, targets/gradients/hessians, tree options, row subsets and allowed-column sets",
  "No passing test grows a tree at all (the data files are missing), and a sampled dataset cannot show optimality for all datasets: ties, duplicates, negative values, sort-size thresholds and option corners each matter.",
  ["tree.go", "utils/math.go"],
  [("findBetterSplit", "tree.go"), ("maybeInsertChildNode", "tree.go"), ("MemArgSort", "utils/math.go")],
  ["boo.NewTree", "utils.JSONTree", "Tree.Predict"])
p("C02", "Trees respect depth, child size, column and row limits at every level",
  "A grown tree never has more levels of splits than the maximum depth; every child of a split receives at least the (integer part of the) minimum child weight in training samples and never zero; every split at every level uses only allowed columns (when a set of allowed columns is given); and only the training rows selected by the caller count. The samples of a node are divided exactly among its two children, and the reported sample and branch counts agree with that.",
  ["inputs", "configurations"], "all datasets, depth limits, child-weight limits, column sets and row subsets",
  "Limits only bind on particular data/option combinations and deeper levels; existing tests print trees and assert nothing.",
  ["tree.go"], [("TreeOptions.clone", "tree.go"), ("findBetterSplit", "tree.go"), ("NewTree", "tree.go")],
  ["boo.NewTree", "utils.JSONTree", "Tree.Branches"])
p("C03", "Node values follow the formula and prediction reaches the right leaf",
  "A regular tree's node value is the mean target of the training samples that reach it, an xgboost tree's is -sum(gradient)/(sum(hessian)+lambda) over them. Predicting any row of numbers (no NaN), seen or unseen, one by one or in bulk, returns the value of the leaf reached by going left exactly when the row's feature value is less than or equal to the threshold.",
  ["inputs", "configurations"], "all trees and all query rows, including values equal to a threshold",
  "Tests sample no query rows; boundary rows (equal to a threshold) are the ones that break.",
  ["tree.go"], [("NewTree", "tree.go"), ("PredictSingle", "tree.go"), ("Predict", "tree.go")],
  ["Tree.Predict", "Tree.PredictSingle", "utils.JSONTree"])
p("C04", "Each boosting round fits every class to the current ensemble's errors",
  "In training, in every round and for every class still being trained, the tree added for that class is a correctly grown tree for the gradients and hessians of the chosen loss at the probabilities of the ensemble built so far (starting from the base score, each earlier tree counted with the learning rate, including trees of lower-numbered classes of the same round). For regular boosting each leaf then holds sum(negative gradient)/sum(hessian) over its samples, or 0 where the hessian sum is 0. A training run contains one tree per class per round for the requested number of rounds, except rounds whose row draw is too small and classes that stopped early.",
  ["inputs", "configurations", "histories"], "all datasets, label assignments, options and random draws",
  "The recurrence is a property of the whole training history; no passing test trains an ensemble.",
  ["xgb.go", "utils/loss_acti.go", "utils/math.go"],
  [("NewMultiClass", "xgb.go"), ("updateLeaves", "xgb.go"), ("SQErrLoss/MSELoss", "utils/loss_acti.go")],
  ["boo.NewMultiClass", "boo.JSONMultiClass"])
p("C05", "Predictions combine base score, learning rate and each class's own trees",
  "For any ensemble and any row, the predicted probabilities, one per class label in the order of the class labels, are the softmax of base score plus learning rate times the sum of the outputs of that class's trees; the predicted class is the index of a largest probability. A result slice the caller supplies, if long enough, receives the probabilities. The accuracy on a labelled dataset is exactly 100 times the fraction of rows whose predicted class carries the row's label, and the reported numbers of classes and of rounds per class are those of the ensemble.",
  ["inputs", "histories"], "all ensembles (trained or loaded), rows and datasets",
  "Needs agreement between every stored tree and every query; tests have no oracle for predictions.",
  ["multiclass.go"], [("PredictSingle", "multiclass.go"), ("PredictSingleClass", "multiclass.go"), ("Accuracy", "multiclass.go"), ("Rounds/Classes", "multiclass.go")],
  ["MultiClass.PredictSingle", "MultiClass.PredictSingleClass", "MultiClass.Accuracy", "MultiClass.Rounds", "MultiClass.Classes"])
p("C06", "Predicted probabilities are always a finite probability distribution",
  "For every dataset of finite feature values and every valid option set, the probabilities a trained ensemble returns are finite, lie in [0,1] and sum to 1, however many rounds are run and however confident the ensemble becomes. The softmax of any finite scores is such a distribution and preserves their order.",
  ["inputs", "configurations"], "all trainable datasets, numbers of rounds, learning rates up to 1, and all finite score vectors",
  "Breakdown needs saturated probabilities (many rounds, separable or single-class data) that no test reaches.",
  ["utils/loss_acti.go", "xgb.go", "tree.go"], [("SoftMax", "utils/loss_acti.go"), ("updateLeaves", "xgb.go")],
  ["MultiClass.PredictSingle", "utils.SoftMax", "utils.SoftMaxDense"])
p("C07", "Early stopping freezes only the class that stopped, and only when due",
  "With early stopping requested (EarlyStop = N > 0), a class stops receiving trees exactly when its own training loss has dropped to 1e-6 or less, or has failed to decrease in N consecutive rounds it was trained in (its first trained round never counts as a failure). A stopped class keeps the trees it has, and every other class keeps training and keeps being credited with its own trees only. With N = 0 no class ever stops.",
  ["inputs", "histories", "configurations"], "all training histories in which some classes stop before others",
  "Needs histories where classes stop in different rounds, which depend on data, order of labels and options.",
  ["xgb.go", "multiclass.go"], [("NewMultiClass early-stop bookkeeping", "xgb.go"), ("PredictSingle", "multiclass.go")],
  ["boo.NewMultiClass", "MultiClass.Rounds", "boo.JSONMultiClass", "MultiClass.PredictSingle"])
p("C08", "Training always completes and leaves the caller's data and options alone",
  "For every non-empty rectangular dataset of finite features with one label per row and every valid option set, training a tree or an ensemble terminates without panicking, whatever values are drawn for sub-sampling and however close or far apart feature values are, and gives an ensemble that can predict. It changes neither the dataset nor the options it was given, so reusing them gives what fresh copies would give.",
  ["inputs", "configurations", "fault_sequences"], "all datasets (one row, one class, constant columns, adjacent floats, huge values), options and random draws",
  "The failing inputs are corner cases of values, sizes and draws; no test trains on any.",
  ["tree.go", "xgb.go", "multiclass.go"], [("NewTree", "tree.go"), ("findBetterSplit threshold", "tree.go"), ("NewMultiClass", "xgb.go")],
  ["boo.NewTree", "boo.NewMultiClass", "MultiClass.PredictSingle"])
p("C09", "A saved model loads back as the same model",
  "Serialising any ensemble to JSON and loading it gives an ensemble with the same class labels, classes and rounds, which returns exactly the same probabilities for every row and the same feature-importance report, and which serialises to the same text again. A function registered under a name in the activation table is the one a model stored with that name uses. This holds for both kinds of boosting and however the reader delivers the bytes.",
  ["inputs", "histories", "fault_sequences"], "all ensembles, repeated save/load, and all ways of chunking the input",
  "The only JSON tests need missing data files and compare nothing.",
  ["xjson.go", "utils/json.go"], [("JSONMultiClass", "xjson.go"), ("UnJSONMultiClass", "xjson.go"), ("JSONTree/UnJSONTree", "utils/json.go")],
  ["boo.JSONMultiClass", "boo.UnJSONMultiClass", "utils.JSONTree", "utils.UnJSONTree"])
p("C10", "An incomplete save or load is reported, never taken for a model",
  "If writing a model fails at any point, saving reports an error. If the stored text is cut off at any byte, or reading it fails at any byte, or it names an unknown activation function, loading reports an error and returns no model, unless what was read determines the complete original model; it never panics and never silently returns a model with fewer trees.",
  ["crash_points", "fault_sequences"], "every write fault point, every truncation length and every read fault point of every small model's file",
  "Tests inject no faults; a crash point sits at any byte.",
  ["xjson.go", "utils/json.go"], [("JSONMultiClass error returns", "xjson.go"), ("UnJSONMultiClass", "xjson.go"), ("UnJSONTree", "utils/json.go")],
  ["boo.JSONMultiClass", "boo.UnJSONMultiClass"])
p("C11", "Cross-validation folds partition the data exactly",
  "For every dataset and requested fold count, the sampler delivers exactly n train/test pairs (n being the number it reports, reduced with an error if the data are too few) and then nothing; every sample is in exactly one test set, each training set is exactly the remaining samples, each test set has at least two samples, and labels and feature names stay attached. Too small datasets give an error, never a panic, and with copies requested, changing a fold's data never changes the original.",
  ["inputs", "fault_sequences"], "all dataset sizes and fold counts, and all random draws",
  "Fold assignment is random; tests sample one draw and have no data.",
  ["utils/stat.go"], [("CrossValidationSamples", "utils/stat.go"), ("fillRemaining", "utils/stat.go"), ("fillDataBunch", "utils/stat.go")],
  ["utils.CrossValidationSamples"])
p("C12", "Cross-validation scores held-out folds only and reports their mean",
  "A cross-validation run trains one ensemble per fold with the requested options on that fold's training set only, scores it on that fold's test set only, and reports the mean of the fold accuracies. The score, the options and any error reach the caller identically whether results are returned directly or through channels, and data too small to fold give an error.",
  ["inputs", "schedules", "fault_sequences"], "all datasets, fold counts, per-fold accuracies, random draws and schedules of the concurrent form",
  "Leakage or mis-averaging still gives plausible numbers; tests print them.",
  ["cv/cv.go", "utils/stat.go"], [("MultiClassCrossValidation", "cv/cv.go")],
  ["cv.MultiClassCrossValidation"])
p("C13", "Grid search tries every combination once and returns the best one",
  "A grid search evaluates every combination of hyperparameter values in the grid (each value reached from the minimum by whole steps without exceeding the maximum) exactly once, whatever the number of workers and even if it does not divide the number of combinations. It returns the highest accuracy found together with options that obtained it, and the accuracies of all evaluated combinations; the requested type of boosting and early stopping are passed on unchanged, and settings outside the grid have the default values of that type of boosting.",
  ["configurations", "schedules", "inputs"], "all grid shapes, worker counts, accuracy outcomes and worker schedules",
  "Coverage depends on grid size versus workers and on scheduling; the grid tests need missing data and assert nothing.",
  ["cv/cv.go"], [("Grid", "cv/cv.go"), ("rescueConcValues", "cv/cv.go")],
  ["cv.Grid"])
p("C14", "Hyperparameter searches never deadlock, leak goroutines or race",
  "Every search or cross-validation step that uses goroutines (grid search, gradient step, gradient search, hybrid search, channel-reporting cross-validation) returns under every interleaving, including when evaluations fail, after which every goroutine it started can finish. No interleaving contains a data race, and the outcome does not depend on the interleaving.",
  ["schedules", "fault_sequences"], "all interleavings of the goroutines of small searches, with and without failing evaluations",
  "Schedules are not controllable from a test and leaks/blocked sends are invisible to it.",
  ["cv/cv.go", "cv/grad.go", "cv/hybrid.go"], [("Grid", "cv/cv.go"), ("ParamaterGradStep", "cv/grad.go"), ("GradStep", "cv/grad.go")],
  ["cv.Grid", "cv.GradStep", "cv.GradientGrid", "cv.HybridGradientGrid", "cv.MultiClassCrossValidation"])
p("C15", "Gradient searches return evaluated options, inside the search space",
  "The options a gradient or hybrid search returns are exactly (in every hyperparameter) options that the search evaluated by cross-validation with the requested fold count and that scored the returned accuracy, and no later step of the search changes them; the returned accuracies end with that best one and increase. The returned hyperparameters are finite and inside the requested ranges, and a single gradient step never moves a parameter out of its range, moves it only towards higher estimated accuracy, and leaves the options it started from unchanged. Every combination of the parameters searched on a grid (child weight and depth, in hybrid search also rounds and lambda) is tried as a starting point, and the returned accuracy is not below that of any of them. Options that are not searched (type of boosting, early stopping) are passed on unchanged.",
  ["histories", "inputs", "schedules"], "all sequences of accuracy outcomes and random perturbations over short searches, and all gradient sign patterns of a step",
  "Aliasing between the current point and the recorded best shows only on multi-step histories.",
  ["cv/grad.go", "cv/hybrid.go"], [("GradStep", "cv/grad.go"), ("ParamaterGradStep", "cv/grad.go"), ("GradientGrid", "cv/grad.go"), ("HybridGradientGrid", "cv/hybrid.go"), ("fuzzOptions", "cv/grad.go")],
  ["cv.GradStep", "cv.GradientGrid", "cv.HybridGradientGrid"])
p("C16", "Data readers return exactly the file's content or an error",
  "Reading any text as CSV or libSVM data (with or without header, CSV with or without labels, any separator, with or without a final newline) either returns every row, label and feature name of the text in order, or returns an error when a label or value is not a number, a term is malformed, a CSV row has a different number of fields, or the input cannot be read; a label-name file likewise gives exactly its entries or an error. Blank lines are ignored, and no input causes a panic or a silently dropped or altered row.",
  ["inputs", "fault_sequences"], "all short texts over a separator/digit/letter alphabet, all larger well-formed tables of a family, all read-fault points",
  "The reader tests need missing files; malformed and boundary texts (no final newline, blank lines) are never tried.",
  ["utils/csv.go", "utils/libsvm.go", "confu/confu.go"], [("ParseCSVFromReader", "utils/csv.go"), ("ParseLibSVMFromReader", "utils/libsvm.go"), ("ReadNameMap", "confu/confu.go")],
  ["utils.ParseCSVFromReader", "utils.ParseLibSVMFromReader", "utils.DataBunchFromCSVFile", "utils.DataBunchFromLibSVMFile", "confu.ReadNameMap"])
p("C17", "Exported CSV and libSVM text reads back as the same dataset",
  "Writing any dataset (with feature names free of separators, quotes, blanks and colons) as CSV (any separator) or libSVM text and reading that text back gives the same number of rows, the same labels (-1 for unlabelled data), the same feature names when there is one per feature, and the same values rounded to four decimals; in libSVM text the terms of each row are numbered from 1. An empty dataset is written as empty text rather than failing.",
  ["inputs"], "all small datasets with and without labels and names",
  "Round trips are never executed by a test.",
  ["utils/csv.go", "utils/libsvm.go"], [("DataBunch.CSV", "utils/csv.go"), ("DataBunch.LibSVM", "utils/libsvm.go")],
  ["DataBunch.CSV", "DataBunch.LibSVM", "utils.ParseCSVFromReader", "utils.ParseLibSVMFromReader"])
p("C18", "Confusion reports count exactly the model's predictions",
  "For any model and labelled dataset, entry (i,j) of the confusion matrix is the number of samples whose actual label is the i-th class label and whose predicted label is the j-th. The top-N report for a label lists the min(N, classes) predicted classes (as positions in the label list) with the largest counts in descending order with those counts, is empty for an unknown label, the printed report shows the same non-zero numbers by name (leaving out labels without samples; by default each label is named by its number), and results do not depend on which reports were requested before.",
  ["inputs", "histories"], "all sequences of actual/predicted labels and all orders of report calls",
  "Confusion tests need missing data and only print.",
  ["confu/confu.go"], [("MCConfusions", "confu/confu.go"), ("Matrix", "confu/confu.go"), ("TopNForLabelM", "confu/confu.go")],
  ["confu.MCConfusions", "Confusions.Matrix", "Confusions.TopNForLabelM", "Confusions.TopNPerLabel", "Confusions.PrintTopN"])
p("C19", "Feature importance is the total gain per feature, best first, race-free",
  "The feature-importance report of a tree or ensemble lists each feature used by any split exactly once, with the sum of the recorded gains of all its splits over all trees, each recorded gain being the gain of that split, ordered from most to least important. Adding gains to a report from several goroutines at once, in any interleaving, loses nothing, lists no feature twice, and involves no data race.",
  ["inputs", "schedules"], "all small ensembles, and all interleavings of two or three concurrent writers",
  "The concurrent path has no test and the lost/duplicated entry needs a specific interleaving.",
  ["tree.go", "multiclass.go"], [("Feats.Add", "tree.go"), ("Feats.Merge", "tree.go"), ("FeatureImportance", "tree.go")],
  ["MultiClass.FeatureImportance", "Tree.FeatureImportance", "Feats.Add", "Feats.Merge", "Feats.String"])
p("C20", "Option copies are faithful and independent, comparison and checks exact",
  "A clone of training options or of grid options has every setting of the original and changing one never changes the other. Two option sets compare equal exactly when every setting is equal, and the validity check accepts exactly the option sets with positive rounds and learning rate, sub-sampling fractions in (0,1], non-negative lambda and gamma, minimum child weight of at least 1, depth of at least 2 and minimum sample of at least 1.",
  ["configurations"], "all single and pairwise changes of settings over boundary values",
  "No test touches cloning, comparison or validation; a forgotten field is invisible until it matters.",
  ["options.go", "cv/cv.go"], [("Options.Clone/Equal/Check", "options.go"), ("GridOptions.Clone", "cv/cv.go")],
  ["Options.Clone", "Options.Equal", "Options.Check", "GridOptions.Clone"])
p("C21", "Numeric building blocks compute what their documentation says",
  "For all small inputs: one-hot encoding marks exactly the label of each row with labels in order of first appearance; sorting helpers return the sorting permutation and sorted values without touching the input; row/column sampling, transposition, column extraction and column addition move exactly the named elements and reject columns that do not exist; losses are the mean squared error with gradient prediction minus target (its negation as negative gradient) and hessian 1 or p(1-p); normalisation divides by the sum, log-odds are log(p/(sum-p)), and the class from probabilities is the index of the largest.",
  ["inputs"], "all small vectors/matrices over a value alphabet, and structured larger ones",
  "Two tests assert one fixed input each.",
  ["utils/math.go", "utils/loss_acti.go", "utils/libsvm.go", "utils/sorter.go", "xgb.go"],
  [("ArgSort/MemArgSort", "utils/math.go"), ("DenseCol/AddToCol", "utils/math.go"), ("oneHotEncodeDense", "utils/libsvm.go"), ("losses", "utils/loss_acti.go"), ("LogOddsFromProbs", "xgb.go")],
  ["utils.*", "boo.LogOddsFromProbs", "boo.ClassesFromProbs"])
p("C22", "Models are independent, and using a model never changes it",
  "After training or loading, a model's predictions, serialised text, importance report and class labels stay the same whatever sequence of predictions, accuracy computations, reports, serialisations or trainings of other models follows, whatever result slices the caller supplies or overwrites, whatever is later done to the training dataset or options, and no later call changes a result already returned (except in a slice the caller supplies again). Several goroutines may predict with one model at the same time without a data race.",
  ["histories", "schedules"], "all short sequences of operations over two models, and concurrent prediction",
  "Shared scratch buffers show up only in particular operation sequences.",
  ["multiclass.go", "tree.go", "xgb.go"], [("PredictSingle buffers", "multiclass.go"), ("shared tin/tval scratch", "xgb.go"), ("ClassLabels copy", "multiclass.go")],
  ["MultiClass.*"])
p("C23", "Row and column sub-sampling uses exactly the drawn subset",
  "Sub-sampling returns each index below the total at most once and in increasing order, all of them at fraction 1, and includes each index independently with that probability, so that every subset can be drawn for a fraction strictly between 0 and 1. In xgboost training every tree of a round is grown on exactly the rows drawn for that round and splits, at every depth, only on the columns drawn for it (all columns if none was drawn); a round whose draw has fewer rows than the minimum sample (or none) adds no trees, and without sub-sampling all rows are used.",
  ["fault_sequences", "inputs", "configurations"], "all outcomes of all random draws for small datasets and round counts",
  "Draws are random; a test sees one outcome and the sub-sampling test asserts nothing.",
  ["xgb.go", "tree.go"], [("SubSample", "xgb.go"), ("NewMultiClass sampling", "xgb.go"), ("TreeOptions.clone", "tree.go")],
  ["boo.SubSample", "boo.NewMultiClass", "boo.JSONMultiClass"])

p("C24", "Searches asked to do so leave the complete best model in a file",
  "A grid, gradient or hybrid search asked to write the best model leaves, when it returns best accuracy A, a file xgbmodelN.json (N the integer part of A) in the working folder whose whole content is a complete, loadable model trained on all the data with the returned options, replacing any earlier content; every other model file it writes belongs to a lower accuracy and is complete too. It writes nothing else, nothing when not asked or when the search fails, and writing, or being unable to write, never changes what the search returns.",
  ["histories", "fault_sequences", "configurations"], "all sequences of accuracies of small searches, earlier files, and file faults",
  "The tests that search need missing data and never look at the file.",
  ["cv/cv.go", "cv/grad.go", "cv/hybrid.go", "xjson.go"], [("writeBest", "cv/cv.go"), ("rescueConcValues", "cv/cv.go"), ("GradientGrid", "cv/grad.go"), ("HybridGradientGrid", "cv/hybrid.go")],
  ["cv.Grid", "cv.GradientGrid", "cv.HybridGradientGrid", "boo.UnJSONMultiClass"])
p("C25", "Independent uses of shared data and models can run at the same time",
  "Training ensembles and trees, cross-validating, folding, predicting, computing accuracies (without a class count), reporting importance and confusions, saving, loading, printing, exporting and parsing may all run at the same time in several goroutines on the same dataset, options, model and tree: there is no data race, each gives what it gives alone, and the shared dataset, options and model do not change.",
  ["schedules", "inputs"], "all pairs and triples of such uses and all their interleavings",
  "Shared scratch data or package-level state shows only under concurrency; tests run nothing concurrently.",
  ["multiclass.go", "tree.go", "xgb.go", "xjson.go", "utils/json.go", "utils/stat.go", "utils/libsvm.go", "confu/confu.go", "cv/cv.go"],
  [("PredictSingle", "multiclass.go"), ("NewMultiClass", "xgb.go"), ("JSONTree", "utils/json.go"), ("CrossValidationSamples", "utils/stat.go")],
  ["boo.*", "utils.*", "cv.MultiClassCrossValidation", "confu.MCConfusions"])
p("C26", "Printed trees, options, datasets and matrices show their actual content",
  "The printed form of a tree lists all its splits and leaves, left before right, each split with its feature (by name if a name is given, else by number) and threshold and each leaf with its value, to three decimals. Printed options name the kind of boosting and show each listed hyperparameter under its own abbreviation to three decimals. A printed dataset shows the feature names, and per row the label (-1 if unlabelled) and every value to four decimals, in order; a printed matrix shows every element in its place. Printing never panics or changes what it prints.",
  ["inputs"], "all trees of the space of C01, all combinations of settings of a table, all small and some large datasets and matrices",
  "Tests print and never compare; a swapped or missing number is invisible to them.",
  ["tree.go", "options.go", "utils/libsvm.go", "utils/math.go"], [("Tree.Print", "tree.go"), ("Tree.feature", "tree.go"), ("Options.String", "options.go"), ("DataBunch.String", "utils/libsvm.go"), ("PrintDenseMatrix", "utils/math.go")],
  ["Tree.Print", "Options.String", "DataBunch.String", "utils.PrintDenseMatrix"])
p("C27", "Progress output is accurate and never changes results",
  "Training with Verbose prints one line per tree it trains, in order, with the number of the round (skipped rounds count), the class and that class's training loss after the tree was added, to three decimals. A verbose search prints each new best accuracy (the grid search rounded to whole percents) with the options that obtained it, never a lower one than before, and last the one it returns. Without Verbose nothing is printed to standard output. Turning Verbose or the debugging of trees on changes no tree, no trained model, no evaluation and no result.",
  ["inputs", "configurations", "fault_sequences"], "all trainings, trees and searches of the bounded spaces, each with and without output, with the same draws",
  "Tests never compare a verbose run with a quiet one, or printed losses with the model.",
  ["xgb.go", "tree.go", "cv/cv.go", "cv/grad.go", "cv/hybrid.go"], [("NewMultiClass verbose output", "xgb.go"), ("Tree.debug", "tree.go"), ("rescueConcValues", "cv/cv.go"), ("GradientGrid", "cv/grad.go"), ("HybridGradientGrid", "cv/hybrid.go")],
  ["boo.NewMultiClass", "boo.NewTree", "cv.Grid", "cv.GradientGrid", "cv.HybridGradientGrid"])
p("C28", "What is left out takes the documented defaults, which are always fresh",
  "Leaving out (or passing nil for) training options, cross-validation options or search options is the same as giving the default xgboost ones, a fold count of zero or less is the same as 5, and a separator or header setting left out is the same as a comma and no header. The plain default options are the xgboost ones and are valid. Every call that gives default options gives a new object with the same settings, whatever was done to the objects given before.",
  ["inputs", "histories", "configurations"], "all trainings, foldings, cross-validations, searches and files of the bounded spaces with the same draws; all sequences of three default-option calls with changes in between",
  "Tests always pass options, and never change default options between uses.",
  ["options.go", "tree.go", "xgb.go", "cv/cv.go", "cv/grad.go", "cv/hybrid.go", "utils/stat.go", "utils/csv.go", "utils/libsvm.go"],
  [("DefaultXOptions/DefaultGOptions", "options.go"), ("NewMultiClass", "xgb.go"), ("DefaultXGridOptions/DefaultGGridOptions", "cv/cv.go"), ("CrossValidationSamples", "utils/stat.go"), ("DataBunchFromCSVFile", "utils/csv.go")],
  ["boo.NewMultiClass", "boo.Default*", "cv.Default*", "cv.Grid", "cv.MultiClassCrossValidation", "utils.CrossValidationSamples", "utils.DataBunchFromCSVFile", "utils.DataBunchFromLibSVMFile"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
