"""Writes /verif/MANIFEST.json.  CLAIMED is the list of properties with a check."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked by TLC; recorded calls of the real code judged by a TLA+ trace spec"
NOTE = {
 "C01": "All sample_domain vectors to 4 rows (5 thorough) over {-2,-1,0,1} plus random ones to 30 rows; every call of the split/merge helpers is judged row by row. Trusts TLC and the array-to-integer encoding.",
 "C02": "All vectors to 3 (4) rows times all 32 switch settings times both validators, wrong lengths, lists, scalars and allowed-domain sets, plus random larger ones.",
 "C03": "All mask placements to 4 (6) rows times label kinds; plus equivalence runs of estimators with the domain omitted and passed.",
 "C04": "Non-interference checked by TLC on the pipeline machine (two runs side by side); real pipelines of recording stubs over every single step, sampled pairs and longer programs are replayed against the machine; 25 real estimators fitted twice with different target labels must predict identically.",
 "C06": "Every (selector, kind, routing) step, sampled pairs and programs to 5 steps, on interleaved domains; the rows, labels, weights, domains and features each base estimator receives and each prediction are compared with the pipeline machine.",
 "C07": "As C06 with programs biased to adapters producing weights, labels, domains and row subsets, and to unset/refused metadata.",
 "C08": "As C06 with programs ending in estimators unaware of domains, after adapters that mask labels.",
 "C09": "37 adapter configurations, alone and inside four pipeline layouts, on interleaved one- and multi-domain data: every row selection times allow_source; refused calls, output sizes and target-row answers judged by the row machine.",
 "C10": "Row machine (stack, compute, restack) checked over every interleaving and permutation of 4 (5) rows; 20 mapping and subspace configurations refitted on permuted rows; exact barycentric images and affine maps on integer lines. Eigenvector embeddings compared up to sign.",
 "C11": "As C10 for 15 reweighting configurations; near/far cluster preference; exact neighbour counts on integer lines. KLIEP picks random centres, so refitting on permuted rows is not compared for it.",
 "C12": "As C10 for label propagation: masks, label set, range for regression, cluster labels when clusters hold equal shares, exact transported labels on integer lines.",
 "C30": "Random step lists (bare, named, wrapped, nested; every default_selector form); names, order, wrapping, finality and mask flags judged by the specification.",
}
NOTE.update({
 "C33": "Definitions computed in integers by the specification on grids where they are exact (integer points, 0/1 labels, scores that are powers of two, logarithms in units of ln 2); every pair of small batches in the model, plus random batches replayed on the real torch losses for value, row order, symmetry, gradients and refusals.",
 "C13": "Every domain vector to 4 (6) rows times size settings for the shuffle splitters, plus ~900 (12000) random layouts over sizes, thinning shares, label kinds and seeds; every fold judged on disjointness, sizes per side, shares per domain and group, reproducibility, global random state; cross_validate must hand exactly the fold's rows to fit.",
 "C14": "As C13 for leave-one-domain-out on 1 to 6 domains with unequal sizes, arbitrary ids and shuffled rows; judged on held-out domain, rows of other domains, sizes, fold count, distinct held-out domains.",
})
NOTE.update({
 "C15": "Naming and merging machine over histories of 3 (4) operations; every history of 4 (5) additions over a small name space replayed on the real class, plus 1500 (15000) random histories of additions, merges, selections and packs over list/dict construction, dtypes, shapes and containers; registry and packs read back after every operation.",
 "C16": "Every (dtype, container, return type, mask, entry point, label shape) once, plus 1500 (15000) random histories; every packed label compared with the stored one or the mask. Non-numeric labels and mixed label kinds are out of scope.",
})
NOTE.update({
 "C18": "Seven scorers run on scripted estimators (170 (2500) scenarios each) whose probabilities, losses and densities make each formula exact in integers (fixed-point log2 in the specification); calls, rows, labels, weights and returned scores judged; each run repeated with other target labels; plus eight scorers on five real pipelines. String scoring is a known finding.",
 "C19": "Circular validation machine over every layout and prediction to 4 (5) rows; 900 (15000) scripted runs, classification and regression, judged call by call, plus real pipelines.",
})
NOTE.update({
 "C20": "Exchange machine with arbitrary classifiers (2-3 source, 3 target points, k 1-2, 3-4 rounds) checked for monotone removal, bounded exchange and reasons to stop; 900 (15000) real DASVM fits on a scripted classifier replayed round by round (rows, self-labels, withdrawals, saved indices, final classifier).",
 "C21": "700 (9000) real GradualEstimator fits on scripted linear classifiers with integer points: every stage's rows and labels, retained pairs against plan ranks, recorded estimators and data judged exactly.",
 "C22": "Joint OT machine (3 points, exact estimator: transport loss never increases); 700 (9000) real JDOT fits with equal masses, where plans are permutations and TLC recomputes the optimum, losses and stopping rule exactly, plus 120 (1500) weighted fits against a linear program.",
})
NOTE.update({
 "C17": "Every way to share out and draw rows for all layouts of up to 5 (7) rows in 3 groups; about 1700 (13000) real subsamplings, direct (exhaustive small layouts) and inside pipelines, judged row by row for size, shares and what travels with each row.",
})
NOTE.update({
 "C05": "Object machine as in C29; about 450 (2500) call histories over 75 estimators, adapters, selectors and pipelines and 24 functions, splitters, scorers and packs, most on read-only arrays; every array, and the nested estimator objects share, digested after every call.",
 "C28": "Object machine with and without the disciplines that keep it honest (three broken designs must be refuted); every constructor parameter of 75 public classes, factories and pipelines varied, about 1000 (4000) histories of new/set/clone/copy/fit/search drawn from the 19000 the specification enumerates; reported parameters and answers compared with fresh objects fitted in separate processes.",
 "C29": "As C28 with histories biased to refitting on data with other features, classes and domains, refused fits, and two objects sharing arguments: about 680 (3000) histories.",
})
NOTE.update({
 "C23": "Sampler machine over sides of up to 4 (5) rows: no row twice before its side is exhausted; a design that refills early must be refuted. Every (sides, batch size, policy) over several epochs of the real samplers and loaders judged index by index.",
 "C24": "Dataset machine over histories of 3 (4) operations; 1400 (thorough: far more) histories generated from it and at random, replayed on DeepDADataset over arrays, dicts, frames and tensors, every sample read back after every operation.",
 "C25": "Every domain vector to 3 (5) rows plus random batches handed to the real criterion with recording losses; whole fits with recording losses judged batch by batch, weights included; 12 deep methods fitted twice with different target labels must give equal losses and parameters.",
 "C26": "Prediction machine over every order of rows; fitted nets of 12 kinds asked for random row selections as arrays, tensors, dicts and datasets; each answer compared with the row's own, scores recomputed.",
 "C27": "Training machine over fits, epochs and batches (designs without reset or with label leaks must be refuted); recorded counters, schedules, memory bank updates, class centres and pairs of equal fits of 13 deep methods.",
})
NOTE.update({
 "C31": "Stream machine (seeded, shared and global streams; a design that reseeds must be refuted); 730 (8800) generator calls: single calls judged row by row, pairs and triples of calls against the laws of each shift, noise and seed; digits on stand-in image sets.",
 "C32": "Frank-Wolfe machine on every small problem (feasible and within 2C/(k+2) at every round; a design whose corners forget the bounds must be refuted); about 1200 (14000) problems solved by every solver, judged on feasibility, value, every feasible grid point and, for unit rows, round by round. Problems with an inequality parallel to an equality are left out (SciPy's SLSQP can fail there).",
 "C35": "Clustering machine over every small data set and start (stops; consistent at the end; a design that reassigns once must be refuted); 910 (13000) fits: exact replays on rows of integer length, and consistency of centres, labels, inertia, restarts and rounds elsewhere.",
 "C34": "Cache machine with a cut at every file operation (a design that downloads in place and one that trusts folders must be refuted); about 400 (3600) call histories of the fetchers on stand-in archives with faults injected at every file operation, judged on content, downloads and what a later call takes for the dataset. Concurrent fetching processes are out of scope.",
})
NOTE.update({
 "C36": "Histogram machine (every arrival order of few source and target samples; the ratio weights reproduce every target average, and a design that divides the other way round must be refuted); 1200 (14000) fits of six adapters on integer rows, with each weight recomputed by the specification in integers (fixed-point logarithm for Gaussian weights, optimality conditions for KLIEP).",
 "C37": "Assignment machine (cheaper exchanges end at the cheapest plan for every cost matrix; exchanging only pairs must be refuted); 1020 (12000) fits of seven mapping adapters on integer rows: every equal-share plan enumerated for exact transport, maps read off unit vectors and checked against exact covariances otherwise.",
 "C38": "Turning machine (growing spread ends at the best direction for every covariance; turning one way must be refuted); 900 (10800) fits of four subspace adapters on integer rows, judged against every direction of a lattice and exact scatter matrices.",
 "C39": "Search machine (fits and scores of candidates and folds in any order: each trained on its own fold, never asked about rows it was trained on, best candidate chosen, refit on all rows; sharing one estimator across folds must be refuted); 1500 (15000) cross-validations, grid and random searches over recording estimators, in one or two threads, judged row by row.",
 "C40": "Nets on a heap (copies allocate their own cell; copies that share a cell or continue with residue of the last training must be refuted): own history, independence, renewal of modules given as classes, over all histories of 5 (6) operations; 350 (4000) TLC-generated histories and 500 (6000) random ones over three nets replayed on twelve deep methods, every weight and answer compared by the history behind it.",
})
NA = {
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in NOTE:
        m["checks"].append(dict(property=i, quick_cmd=f"bash run.sh {i}", thorough_cmd=f"bash run.sh {i} --tier thorough",
                                technique=TECH, level="model_checking", level_note=NOTE[i]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "No check registered yet (work in progress); see DESIGN.md.")))
m["notes"] = "Specifications in spec/, drivers in harness/. bash run.sh <id> [--tier thorough] [--replay FILE]."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
