#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
CW, C3, TR, CL, EV, DS, VZ, PP, SM, CV, UT, DM = (
    "concept_formation/" + f for f in
    ("cobweb.py", "cobweb3.py", "trestle.py", "cluster.py", "evaluation.py", "datasets.py",
     "visualize.py", "preprocessor.py", "structure_mapper.py", "continuous_value.py", "utils.py", "dummy.py"))


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})


p("C01", "The tree is an exact record of everything that was fit",
  "After any history of fits (any tree type, any random tie-breaks, with queries, clusterings, rejected instances and checkpoints in between), the tree is one well-formed hierarchy whose concepts partition the fit instances: every fit instance is in exactly one leaf, the concept that fit returned for it, whose instances all agree on their non-hidden attributes. Every concept's size, value counts (hidden attributes included) and numeric summaries (number, mean, standard deviation) equal those of exactly the instances stored below it, and every non-leaf concept has at least two children. Nothing is lost, duplicated or filed under two concepts, and all concept ids in a tree differ. The tree's own structural queries (number of concepts, depth, ancestry) agree with this hierarchy.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of fit/batch fit/query/cluster/checkpoint operations, every instance stream with nominal, numeric, missing and hidden attributes, every outcome of the random tie-breaks, for the Cobweb, Cobweb/3, Trestle and dummy trees",
  "Tests build a handful of small trees and check the root's counts or one operator in isolation; merges, splits and fringe splits combine only over long histories and particular tie-breaks.",
  [CW, C3, CV, TR, DM],
  [("incremental counting on the path of each instance", CW + " CobwebTree.cobweb, CobwebNode.increment_counts"),
   ("merge, split, new child and fringe split keep the subtree sums", CW + " CobwebNode.merge, split, create_new_child"),
   ("numeric summaries are updated and combined without the raw data", CV + " ContinuousValue.update, combine")],
  ["tree.root and its descendants (count, av_counts, children, parent, concept_id)", "the concept returned by ifit"],
  [("node.av_counts", "attribute-value table of a concept", CW)])

p("C02", "Every fit takes category-utility-maximal steps and terminates",
  "Starting from the tree as it was, each fit transforms it by a sequence of steps (insert into the best child, new child, merge of the two best children, split of the best child, fringe split of a non-matching leaf, or absorbing into an exactly matching leaf), where every step has maximal category utility among the operators available at that concept, ties broken arbitrarily, and reaches its end in a bounded number of steps. Categorizing an instance ends in a leaf reached by descending, at every concept, into a child for which inserting the instance gives maximal category utility. Category utility is that of the documentation over the non-hidden attributes, with numeric attributes scaled by the spread of everything fit so far when scaling is on.",
  ["histories", "inputs", "configurations"],
  "every fit and every categorization in every history, for every outcome of the tie-breaks and every scaling configuration",
  "Tests check a few category-utility numbers and operator choices on hand-made nodes; none replays whole histories against an independent model of the algorithm.",
  [CW, C3, TR],
  [("operator choice", CW + " CobwebNode.get_best_operation, two_best_children"),
   ("category utility of hypothetical operations", CW + " cu_for_insert, cu_for_new_child, cu_for_merge, cu_for_split, relative_cu_for_insert"),
   ("expected correct guesses incl. numeric attributes and scaling", C3 + " Cobweb3Node.expected_correct_guesses")],
  ["tree shape before and after ifit", "the concept returned by categorize"])

p("C03", "Queries never change the tree or the caller's data, even when interrupted",
  "Categorizing, inferring missing values, predicting, asking probabilities, clustering, scoring, printing and exporting leave every concept of the tree (structure, counts, summaries, ids, scaling knowledge) and the instances and lists passed in exactly as they were, whether the query completes, fails, or is aborted at an arbitrary instant by an interrupt or a memory error. What a query returns is not connected to the tree: changing a returned instance or export does not change the tree.",
  ["histories", "crash_points", "inputs"],
  "every query on every reachable tree, and every instant at which the query can be interrupted",
  "Tests never compare the whole tree before and after queries, and never interrupt anything.",
  [CW, C3, TR, CL, EV, VZ],
  [("hypothetical operations work on copies", CW + " CobwebNode.shallow_copy"),
   ("clustering works on a deep copy", CL + " cluster_iter"),
   ("inference works on a copied instance", CW + " CobwebTree.infer_missing")],
  ["tree snapshot before/after each query", "deep comparison of the arguments"])

p("C04", "Separate trees never influence each other, under any thread schedule",
  "What a tree learns and answers depends only on the operations applied to that tree (and its random draws), not on other trees in the process: several threads each working on a tree of their own, interleaved at any point, end with the trees and answers each would have had alone. Concept ids stay unique within each tree.",
  ["schedules", "histories"],
  "every interleaving of several clients each using its own tree of any type, including creating, clearing and deleting trees while others learn",
  "Tests use one tree at a time in one thread; process-wide state (id counters, name generators, defaults, caches) only shows when several trees are alive.",
  [CW, C3, TR, PP, CV],
  [("all knowledge lives in the tree object", CW + " CobwebTree.__init__, CobwebNode.__init__"),
   ("process-wide counters are only used for unique names", CW + " CobwebNode.gensym")],
  ["tree shape, tables, answers per client"],
  [("CobwebNode._counter", "process-wide id counter", CW), ("_gensym_counter", "process-wide name counter", PP)])

p("C05", "Concurrent readers of one tree get the answers they would get alone",
  "Any number of threads may query one tree (categorize, infer, predict, probabilities, clustering, export) at the same time as long as none fits: under every thread schedule each query returns what it returns when run alone on that tree, no query fails because of another, and the tree stays unchanged.",
  ["schedules"],
  "every interleaving of concurrent read-only queries on a shared tree",
  "Tests are single-threaded; a query that parks intermediate state in the shared tree passes them all.",
  [CW, C3, TR, CL],
  [("queries keep intermediate state in local copies", CW + " shallow_copy, _cobweb_categorize")],
  ["return values of queries run under the simulated scheduler versus alone"])

p("C06", "A rejected instance leaves no trace",
  "An instance the tree cannot store (an unhashable value or, for the attribute-value trees, a None value; an attribute, or an element of a relation, that is not hashable and subscriptable) is refused with an exception before anything is learned: the tree's concepts, counts, scaling knowledge and all later behaviour are as if it had never been offered, wherever in the instance the invalid part is and however much has been learned before. This holds for fitting, categorizing and inferring, and a valid instance offered afterwards is accepted.",
  ["histories", "inputs", "fault_sequences"],
  "every position of invalid instances in every history, every kind of invalid part",
  "Tests offer no invalid instance to a trained tree and compare nothing afterwards.",
  [CW, C3, TR],
  [("validation before any update", CW + " CobwebTree._sanity_check_instance, ifit; " + TR + " TrestleTree.trestle")],
  ["tree snapshot around the rejected operation; twin run without it"])

p("C07", "Learning is reproducible from the random seed",
  "With the same random seed and the same sequence of operations, Cobweb and Cobweb/3 trees end up with the same structure, counts, predictions and inferred values in every process: independent of the interpreter's hash seed, the clock, memory addresses, what other trees existed before, and the names that ids were given.",
  ["histories", "configurations"],
  "every history, and every pair of processes (hash seed, clock, prior activity) it is run in",
  "One test process sees one hash seed and one clock, and compares nothing across runs.",
  [CW, C3, UT],
  [("all randomness comes from the seedable global generator", CW + " random(), shuffle; " + UT + " weighted_choice, most_likely_choice"),
   ("iteration follows insertion order wherever a float or a tie can depend on it", CW + " expected_correct_guesses, two_best_children")],
  ["canonical tree fingerprint and answers from separate simulated processes"])

p("C08", "Predictions and inferred values are legal for every random stream",
  "Inferring missing attributes returns a new instance that keeps every given attribute and value and only adds attributes known to the concept the instance is categorized to; with 'most likely' each prediction is a value of maximal observed frequency at the concept (the mean for numeric ones), with 'sampled' only values of positive frequency are drawn, in proportion to their frequency, and numeric ones from the concept's normal distribution. With missing values disallowed an attribute known to the concept is always filled in; with them allowed 'missing' competes as a value with its own frequency. No draw of the random generator, however extreme, makes a prediction fail.",
  ["histories", "inputs", "fault_sequences"],
  "every reachable concept, every partial instance, both choice functions, both settings for missing values, every sequence of random draws including the extremes of their range",
  "The test suite has no test of inference (a todo in the source says so), and ordinary random draws never reach the extremes.",
  [CW, C3, TR, UT],
  [("weighted and most-likely choice", UT + " weighted_choice, most_likely_choice"),
   ("prediction from the concept's table", CW + " CobwebNode.predict, get_weighted_values; " + C3 + " Cobweb3Node.predict"),
   ("inference", CW + " CobwebTree.infer_missing; " + TR + " TrestleTree.infer_missing")],
  ["return values of predict and infer_missing"])

p("C09", "Clusterings are successive cuts of the tree, isolated from the source tree",
  "Clustering labels every given instance with one concept; each clustering is a cut of the tree (every instance lies below its cluster, and no cluster lies below another), the n-th clustering is the result of n splits, each split replaces by its children the one cluster that gives the best heuristic value, clusterings from minsplit to maxsplit (or until nothing can be split) are produced, the heuristic values are those documented (category utility, AIC, AICc, BIC or the caller's own function), the split search returns the clustering with the best heuristic value, k-clustering returns the last one with at most k clusters, and depth labels list for each instance the concepts from root to leaf. Impossible requests (k below 2, minsplit below 1 or above maxsplit, no instances, an unknown heuristic name) are refused. Clustering works on a private copy: the source tree is not changed by it, and fitting the source tree while a clustering iterator is suspended does not change what the iterator yields; only depth labelling with modification fits the instances, each once, into the given tree.",
  ["histories", "inputs", "schedules"],
  "every trained tree, instance list, heuristic, split range and k, with or without fitting the instances, every interleaving of iterator steps with other work on the tree",
  "The cluster module has no tests.",
  [CL, CW],
  [("successive splits of a deep copy", CL + " cluster_iter"),
   ("split search, k-clustering, depth labels", CL + " cluster_split_search, k_cluster, depth_labels")],
  ["yielded labels/concepts and scores; source tree snapshot"])

p("C10", "Trestle files a faithful one-to-one renaming of each relational instance",
  "What a Trestle tree records for an instance is the instance itself, flattened, with its object variables renamed one-to-one and consistently in all attributes and relations, so that nothing but names changes and no two objects are merged. Up to ties, the renaming is at least as good, in the expected correct guesses of the root, as one that cannot be improved by exchanging the roles of two objects or by moving one object to a free role. Inferring missing values gives back the user's own object names, attributes, values and relations unchanged, plus inferred parts under names that do not clash with them.",
  ["histories", "inputs"],
  "every stream of structured instances (nested components, variables, relations, hidden parts), every naming of the objects, every tie-break and set-iteration order",
  "Tests match a few fixed pairs of instances; they never check that an arbitrary history of renamings stays faithful, nor the inverse renaming.",
  [TR, SM, PP],
  [("standardize apart, flatten, map, and undo in reverse order", TR + " TrestleTree.trestle, infer_missing"),
   ("assignment then hill climbing over mappings", SM + " flat_match, hungarian_mapping, StructureMappingOptProblem"),
   ("renaming", SM + " rename_flat; " + PP + " rename_relation, NameStandardizer")],
  ["root table before/after ifit", "infer_missing results"])

p("C11", "Undoing a transformation returns each client its own instance",
  "For the reversible preprocessors (name standardizing, flattening, sub-component extraction, list processing, relation parsing, structure mapping with or without an initial mapping, and pipelines of them), undoing a transform gives back exactly the original instance, the transform leaves its argument unchanged, and generated names are fresh: distinct for distinct objects and never shared by two clients using the shared name generator. This holds for every interleaving of any number of clients transforming and undoing at the same time, and for a client that retries after an aborted transform.",
  ["schedules", "inputs", "crash_points"],
  "every structured instance in the documented format, every interleaving of clients, every abort point",
  "Tests and doctests transform single instances, one client at a time, with the name counter reset.",
  [PP, SM],
  [("per-preprocessor reverse mappings", PP + " NameStandardizer, Flattener, SubComponentProcessor, ListProcessor, Tuplizer, Pipeline"),
   ("process-wide name generator", PP + " default_gensym")],
  ["transform/undo_transform results per client"],
  [("_gensym_counter", "names handed out so far", PP)])

p("C12", "Visualization output is complete and correct, or the call fails",
  "When a visualization call returns normally, the destination directory holds the support files byte for byte as shipped and a data file that describes exactly the tree (or the tree with its leaves cut the given number of times, or cut at the given clusters, named by label or concept), whatever short writes happened on the way, and the page of that destination has been opened once they were complete. Any disk error, full disk or interruption while writing surfaces as an exception, the tree is unaffected, files other than the output are untouched, and repeating the call once the disk works again produces the complete output.",
  ["fault_sequences", "crash_points", "inputs"],
  "every trained tree, every visualization variant and every sequence of failing, short or refused file operations, crashes and retries",
  "The visualize module has no tests and no test injects I/O faults.",
  [VZ, CW, C3],
  [("copy of the support files, then the data file", VZ + " _gen_viz, _copy_file"),
   ("export and trimming", CW + " output_json; " + VZ + " _trim_leaves, _trim_to_clusters")],
  ["files in the destination directory; exceptions; tree snapshot"])

p("C13", "Data sets load completely and independently, or the load fails",
  "Loading a bundled data set returns every instance of the file in file order, or exactly the first num_instances of them, under any pattern of short reads; a read error surfaces as an exception and never as a silently truncated result; every file is closed; and each call returns fresh objects, so changing one result does not change another load. A load repeated after a fault succeeds with the full result.",
  ["fault_sequences", "schedules", "inputs"],
  "every bundled data set, every num_instances, every sequence of short reads, open and read errors, and concurrent loads",
  "Tests check one instance per data set on a healthy disk.",
  [DS],
  [("line-wise parse of the data file", DS + " _load_json, _load_file")],
  ["return values, exceptions, open file handles"])

p("C14", "Incremental evaluation scores each instance before it is learned",
  "In incremental evaluation every run starts from an empty tree, and the i-th score of a run is the score, for the target attribute's value (missing if absent), of the tree trained on exactly the preceding i instances of that run; after the run the tree holds exactly the run's instances. The first run uses the given order unless told to shuffle, later runs are shuffled, each run uses each instance of the list at most once and as many instances as asked for (up to two more) and available, and an instance is scored without access to its own target value. A scoring function that fails surfaces its exception and a repeated evaluation is unaffected by the failed one.",
  ["histories", "inputs", "fault_sequences"],
  "every data set, target attribute, scoring function, number and length of runs, shuffle outcome and failing call",
  "incremental_evaluation has no tests.",
  [EV],
  [("clear, score, then fit", EV + " incremental_evaluation"), ("target attribute removed before categorizing", EV + " probability, error")],
  ["calls made to the scoring function and the tree at those moments; returned table"])

p("C15", "A cleared tree is indistinguishable from a new one",
  "After clear, a tree of any type behaves in every later operation exactly like a newly constructed tree with the same parameters, whatever it had learned, and keeps those parameters; concepts obtained before the clear are not affected by later fits.",
  ["histories"],
  "every history before the clear and every history after it, for every tree type and configuration",
  "No test fits after a clear and compares with a new tree; state left behind (scaling, name counters) only shows in later decisions.",
  [CW, C3, TR, DM],
  [("clear rebuilds root, scales and counters", CW + " CobwebTree.clear; " + C3 + " Cobweb3Tree.clear; " + TR + " TrestleTree.clear")],
  ["twin run: cleared tree versus new tree on the same operations and draws"])

p("C16", "A restored or copied tree continues exactly like the original",
  "A tree saved by pickling or deep-copied at any point of its history and restored, in the same process or in a fresh one after a crash, has the same concepts, knowledge and parameters and continues exactly as the original would have on the same further operations and random draws; the two share no state afterwards, and concept ids stay unique within the restored tree. Fitting a restored tree never changes the saved image or the original.",
  ["crash_points", "histories", "schedules"],
  "every point of every history at which the tree is saved, and every continuation after the restore",
  "No test copies or pickles a tree.",
  [CW, C3, TR, CV, CL],
  [("all knowledge is reachable from the tree object", CW + " CobwebTree, CobwebNode"), ("ids continue after a restore", CW + " CobwebNode.__setstate__")],
  ["twin run: original versus restored tree; id sets"])

p("C17", "Hidden attributes never influence concept formation",
  "Attributes marked hidden (a leading underscore, or a relation or component attribute marked hidden) are recorded in the concepts' tables and can be predicted, but have no influence on learning: adding, changing or removing hidden attributes in any instances of a history leaves the structure of the tree, every concept's non-hidden knowledge and every categorization exactly as they would have been (for structured instances: up to the names of roles, and ties between roles, which depend on the order in which objects are mentioned).",
  ["histories", "inputs"],
  "every history and every assignment of hidden attributes and values to its instances, for every tree type and configuration",
  "Tests never compare a run with hidden attributes to the run without them.",
  [CW, C3, TR, PP],
  [("the default attribute filter skips hidden attributes", CW + " CobwebNode.attrs, expected_correct_guesses, is_exact_match"),
   ("flattening keeps nested hidden attributes hidden", PP + " Flattener")],
  ["twin runs that differ only in hidden attributes, on the same draws"])

p("C18", "Concept probabilities are the frequencies of the stored instances",
  "For every concept at every point of any history, the probability of a nominal value is the fraction of the concept's instances that have it, the probability of a missing value is the fraction that lack the attribute (1 in an empty concept), and for a nominal attribute these sum to 1; numeric values have the documented Gaussian probability computed from the number, mean and spread of the concept's instances and the tree's scaling. All probabilities and expected correct guesses lie between 0 and 1, weighted values agree with the probabilities, and the attributes a concept lists are those of its instances, hidden ones only on request.",
  ["histories", "inputs", "configurations"],
  "every concept of every reachable tree, every attribute and value, every scaling configuration",
  "Tests evaluate probabilities on a few hand-built nodes, not after merges and splits, and not against the raw instances.",
  [CW, C3, CV],
  [("probability and weighted values", CW + " CobwebNode.probability, get_weighted_values; " + C3 + " Cobweb3Node.probability"),
   ("expected correct guesses", CW + " expected_correct_guesses; " + C3)],
  ["probability(), get_weighted_values(), expected_correct_guesses() of all concepts"])

p("C19", "Batch fit incorporates each instance exactly once per iteration",
  "Fitting a collection for n iterations incorporates every instance exactly n times, each iteration covering the whole collection once; without first-pass randomization the first pass is exactly the given order, i.e. a single pass equals fitting the instances one by one, and shuffled passes are permutations produced by the seeded generator. The collection may be any iterable and is not changed; if reading it fails nothing is learned, and if an instance is rejected the tree holds exactly the instances fit before it.",
  ["histories", "inputs", "fault_sequences"],
  "every collection, number of iterations, randomization flag, shuffle outcome, and position of a failing read or invalid instance",
  "Tests call fit once on small lists and look at the root count.",
  [CW],
  [("copy, shuffle, fit each", CW + " CobwebTree.fit")],
  ["tree contents after fit; twin run with one-by-one fits; the passed collection"])

p("C20", "Numeric summaries are exact for every schedule of updates and merges",
  "A numeric summary (ContinuousValue) that is fed by any sequence of single updates, batch updates and merges with other summaries, and is copied, sent, saved and restored along the way, always has the count, mean, sample standard deviation and bias-corrected standard deviation (0 below two values) of exactly the numbers that went into it, up to rounding and whatever their magnitude; scaled versions divide by the given scale (1 if it is not positive). Merging leaves the summary merged in unchanged, and merging an empty one changes nothing; copies are independent of the original; the overlap of two summaries is symmetric, between 0 and 1, and the documented integral. Stations working on summaries of their own in several threads, interleaved at any point, do not mix.",
  ["histories", "schedules", "crash_points", "inputs"],
  "every order of updates, merges, copies, messages, crashes and restarts, every thread schedule, every set of numbers whose squares do not overflow",
  "Tests update or merge a few short lists of similar numbers once.",
  [CV, UT],
  [("update, update_batch, combine, copy", CV), ("bias correction", UT + " c4")],
  ["num, mean, biased_std(), unbiased_std(), scaled_*(), output_json(), integral_of_gaussian_product()"])

for i, t, s, why, f in [
    ("C31", "Sanitizer output is always acceptable to the chosen tree",
     "Any instance without missing (None) values passed through the sanitizer for a tree type is accepted by that tree type.",
     "Doctests sample a few instances.", [PP]),
    ("C32", "Numeric/nominal conversion changes exactly the targeted attributes",
     "Converting numeric to nominal or nominal to numeric values changes only the targeted attributes, at every level of nesting, and applies the chosen failure policy to unconvertible ones.",
     "Doctests sample a few instances.", [PP]),
    ("C33", "Mean, standard deviation, bias correction and number test are exact",
     "The numeric helper functions return the mathematically defined values for every input and reject invalid input.",
     "Tests sample a few values.", [UT])]:
    p(i, t, s, ["inputs"], "every input", why, f, [("pure function", f[0])], ["return value"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
