#!/usr/bin/env python3
"""Writes checks.json (rule, bounds, assumptions of each check) and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "exhaustive enumeration of a bounded input/draw space on the real code against a reference model"
HIST = "exhaustive enumeration of operation sequences on the real objects against a reference model"
FAULT = "exhaustive enumeration of fault points (every byte, every write, every read) on the real code"
CONC = "stateless model checking of the real goroutines (controlled scheduler, dynamic partial-order reduction)"
RACE = CONC + " with race detection on every interleaving"
GEN = "Go's compiler and runtime, and the instrumenter (seams for goroutines, channels, locks, random numbers, map order; comparisons of its output with the plain build are in DESIGN.md)"
C = {}
def c(id, technique, rule, bounds, *assume):
    C[id] = dict(technique=technique, rule=rule, bounds=bounds, assumptions=[GEN] + list(assume))

c("C01", SEQ, "an evaluation is non-trivial when the grown tree has at least one split; distinct by dataset, targets and options",
  "all datasets of up to 5 rows x 2 columns (alphabets of 2-3 values), all targets/gradients over small alphabets, all depths 0-3, child weights, lambdas, gammas, row subsets and column sets of the tables in harness/trees.go, plus all pairs of column patterns x target patterns for 6-40 rows (past the sort-algorithm switch), enumerated families of up to 260 columns, 4100 rows, depths up to 400 (and unlimited), extreme and nearly equal values",
  "split gains that differ by less than 1e-9 (relative) count as ties, and any of the tied splits is accepted")
c("C02", SEQ, "an evaluation is non-trivial when the grown tree has at least one split; distinct by dataset, targets and options",
  "the space of C01; every node of every tree is compared with the rows that reach it")
c("C03", SEQ, "an evaluation is non-trivial when the grown tree has at least one split; distinct by dataset, targets and options",
  "the space of C01; every node's value, and predictions for all training rows and all rows over the values, thresholds and neighbours of thresholds",
  "sums of floating-point numbers are compared within 1e-9 relative")
c("C04", SEQ, "non-trivial when a trained tree has a split; distinct by dataset, options and draws",
  "all labelings of 2-5 rows into 1-4 classes x column patterns x hyperparameter table x both kinds of boosting x both losses, up to 3 rounds, all draws of rows and columns for the sub-sampled families, enumerated families of up to 101 classes, 257 rounds, 1030 rows, 129 columns and depth 60; each recorded round is replayed by the reference booster")
c("C05", SEQ, "non-trivial when the ensemble has a tree; distinct by ensemble and row",
  "every ensemble of up to 6 classes x 3 rounds over a library of trees (all assignments up to 4 trees, a covering family beyond), all stop patterns, all rows of a grid that hits every threshold, every kind of supplied slice; crafted ensembles of up to 257 classes, 1001 rounds and 5000 rows; trained ensembles of C04's space")
c("C06", SEQ, "non-trivial when the scores differ; distinct by score vector or training run",
  "all score vectors of length 1-4 over 13 magnitudes from 0 to 1e308 with both signs; trainings of up to 300 rounds that drive the ensemble to saturation over a table of extreme options and feature magnitudes")
c("C07", SEQ, "non-trivial when at least one class stops in the run; distinct by loss script",
  "all scripts of per-class loss values (a scripted loss answers every call) over 5 levels for up to 4-6 rounds and 1-3 classes, EarlyStop 0-3, plus trainings with the real losses")
c("C08", SEQ, "non-trivial when a tree has a split; distinct by dataset and options",
  "all pairs of column patterns (adjacent floats, huge, tiny, constant, duplicated...) x targets x options for 1-13 rows; ensembles for 1-13 rows, 1-3 classes, all draw patterns of the table, child weights below 1; every tree and ensemble of the large families; inputs are compared before and after and runs repeated")
c("C09", SEQ, "non-trivial when the model has a tree; distinct by model text",
  "every ensemble of C05's space, special floating-point values, depth up to 300, up to 20000 classes and 120 rounds, trained ensembles; read through readers that deliver 1 byte, 3 bytes, everything, or data with EOF")
c("C10", FAULT, "a fault point inside the text of a model; distinct by model and byte",
  "every truncation length and every failing-read byte of each model's text (1-3 classes, 0-3 rounds, stop patterns, both kinds), every line missing, doubled or damaged in 12 ways, every failing write index, all unknown activation names of a table",
  "the reader returns io.EOF or an error at the fault; partial lines are delivered")
c("C11", SEQ, "non-trivial when a fold is delivered; distinct by dataset size, fold count and draws",
  "all sizes 0-13 x fold counts -1..15 x copy/no copy x label patterns, all permutations the shuffle can draw for up to 6 samples, families of draw streams above (up to 1030 samples, 300 folds), special values (infinities, NaN, signed zero) and any number of names; folds kept while the next ones are made")
c("C12", CONC, "non-trivial when at least two folds are scored; distinct by size, folds, options and fold accuracies",
  "all sizes 2-12 x folds 1-6 x option tables x reporting modes (direct, channels of capacity 0/1), all interleavings; the accuracies of the folds are environment answers over a small alphabet, all combinations; up to 515 samples and 50 folds")
c("C13", CONC, "non-trivial when at least two combinations are evaluated; distinct by grid, workers and accuracies",
  "all grids of up to 3 varied parameters of 1-5 values (all 8 parameters), workers 0-7, accuracies as environment answers (every position of the best, ties, differences in the last bit, all zero), large grids and large step counts",
  "a last value equal to the maximum up to float rounding may be in the grid or not; all other values are checked")
c("C14", RACE, "an exploration of all interleavings of one scenario; distinct by scenario",
  "grid search (5 grid shapes x 0-6 workers), one-parameter steps, whole steps, gradient and hybrid searches, 1-3 simultaneous cross-validations, with enough and too few samples; all Mazurkiewicz traces, plus all interleavings with at most 1 preemption (quick, cut at 300 each) without reduction; the race build repeats the reduced exploration with the race detector",
  "goroutines interact only through the instrumented operations, or else the race detector reports it")
c("C15", CONC, "non-trivial when the search evaluates at least two option sets; distinct by search and answers",
  "all signs of finite differences for single steps over every parameter from 21 starting points x 7 step scales, with the exact size of every step that stays in the ranges; climbs of 0-6 steps on 8 linear and 12 scrambled landscapes, compared step by step with single steps; searches of up to 3 steps with the accuracies as environment answers (all sequences with up to 3 deviations from a base answer)")
c("C16", SEQ, "non-trivial when the text has at least one non-blank line; distinct by text",
  "all texts of up to 7 tokens over token alphabets for CSV (numbers, separators, newlines, CR, junk), libSVM and label-name files, all header/label/separator settings; tables with every line ending and every single-cell damage; long lines; real files incl. missing ones")
c("C17", SEQ, "non-trivial when the dataset has a row; distinct by dataset and format",
  "all datasets of up to 3 rows x 3 columns over a value alphabet with and without labels, names, x separators and both formats; families of large ones (70000 rows, 9000 columns), labels over the whole range of integers")
c("C18", HIST, "non-trivial when at least one sample; distinct by labels, predictions and dataset",
  "every prediction/actual assignment for up to 4 classes and 5 samples x every N and label, all sequences of reports up to depth 3, up to 130 classes and 1500 samples, trained models")
c("C19", RACE, "non-trivial when a feature has gain; distinct by model or by goroutine programs",
  "the trees and ensembles of C01's and C04's spaces, crafted ensembles over up to 300 features, 40 classes and 30 rounds, gains that differ in the last digits, all sequences of additions and merges up to depth 5, all interleavings of 2-3 goroutines that add and merge; race build repeats the interleavings")
c("C20", SEQ, "non-trivial when at least one setting differs; distinct by subset of settings",
  "every subset of settings changed (2^n for training options, all subsets up to size 2-3 and complements for grid options) for clone/equality, every combination of boundary values for the validity check; losses of different types that share a name")
c("C21", SEQ, "non-trivial when the input is non-empty; distinct by input",
  "all inputs of the tables in harness/misc.go (vectors up to length 5 over 3-4 values and patterns up to length 40, matrices up to 4x4, every index set)")
c("C22", RACE, "non-trivial when a result is kept across later operations; distinct by models and operation sequence",
  "all sequences of up to 3 operations (21 operations on either of two models) for 9 pairs of models (crafted, trained, loaded, many classes, one sample per class; thorough: 4 operations); all interleavings of 2-3 goroutines that predict, in the normal and race builds",
  "Accuracy with a class-count argument caches a buffer in the model and is only claimed for one goroutine at a time")
c("C23", SEQ, "non-trivial when a draw leaves out a row or column; distinct by dataset and draws",
  "all outcomes of all row and column draws for 2-4 rows, 1-3 columns, 1-3 rounds; SubSample for totals 0-8 x fractions x all draw outcomes; families of up to 1040 rows, 110 rounds and 40 columns with draws around the fraction")

c("C24", CONC, "non-trivial when a search has run; distinct by case",
  "grid searches of 1-3 combinations and gradient/hybrid searches with every tuple of 1-3 accuracies over 6 levels (two with the same integer part) as environment answers, 1-2 workers with their interleavings, both kinds, with and without sub-sampling; empty folder, longer old files, folders in the way, a full device, not asked; models of 30 rounds; too small data",
  "trainings on all the data are real, evaluations are answered by the environment")
c("C25", RACE, "one set of goroutines on one shared world; distinct by model and uses",
  "all pairs of 26 uses on 9 worlds (crafted, trained and loaded models of both kinds) and all triples on 4 of them, all Mazurkiewicz traces, in the normal build; all pairs, and all triples on one world, with race detection in the race build (thorough: all triples on all worlds in both)",
  "random draws are made per goroutine, so that results can be compared with those of the uses alone")
c("C26", SEQ, "non-trivial when the tree has a split, or the text has a row; distinct by text",
  "all trees of C01's space x 5 ways to give names x 2 indents; all 3^9 settings of options x both kinds; datasets of up to 3 x 3 over value alphabets with/without names and labels and up to 300 x 200; matrices up to 300 x 300")
c("C27", SEQ, "non-trivial when a tree is trained, a tree grown, or a best accuracy reported; distinct by model, tree or text",
  "every second training of C04's space (thorough: all; up to 59 rounds, 119 rows) and sub-sampled ones with skipped rounds for 24 draw streams, every fortieth tree of C01's space (thorough: all), grid searches (4 shapes x 0-5 workers), gradient and hybrid searches (0-3 steps, both differences, 12 draw patterns) x 6 accuracy functions x both kinds, each with and without output; trainings with scripted losses that stop classes early, with and without output",
  "one schedule per search (C14 enumerates them)")
c("C28", HIST, "non-trivial when a model is trained, a fold made, a search evaluated or a text read; distinct by input",
  "all sequences of three of the 8 default-option constructors with every field of the earlier objects changed; trainings of 1-60 rows x column patterns x 1-4 classes x 4 draw streams; foldings of 0-40 samples for 4 missing fold counts; cross-validations of 3-23 samples; the first 1, 2, 30 and 700 evaluations of searches; files of up to 3 x 3 with and without header, labels, final newline")

json.dump({k: {x: v[x] for x in ("rule", "bounds", "assumptions")} for k, v in C.items()}, open(V + "/checks.json", "w"), indent=1)
M = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every check instruments a scratch copy of the working tree (instr/) and links it with harness/. See DESIGN.md."}
for k, v in sorted(C.items()):
    M["checks"].append({"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
        "evidence_file": "evidence/%s.json" % k, "technique": v["technique"], "level": "model_checking",
        "level_note": "The property holds on every execution of the bounded space: %s. Beyond the bounds nothing is claimed. Trusts: %s." % (v["bounds"], "; ".join(v["assumptions"]))})
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
