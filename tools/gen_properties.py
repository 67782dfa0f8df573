#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

MF = "implicit/cpu/matrix_factorization_base.py"
TOPK = "implicit/cpu/topk.pyx"
SEL = "implicit/cpu/select.h"
ALS = "implicit/cpu/als.py"
_ALS = "implicit/cpu/_als.pyx"
BPR = "implicit/cpu/bpr.pyx"
LMF = "implicit/cpu/lmf.pyx"
KNN = "implicit/nearest_neighbours.py"
_KNN = "implicit/_nearest_neighbours.pyx"
KNNH = "implicit/nearest_neighbours.h"
EV = "implicit/evaluation.pyx"
UT = "implicit/utils.py"
BASE = "implicit/recommender_base.py"
ANN = ["implicit/ann/annoy.py", "implicit/ann/faiss.py", "implicit/ann/nmslib.py"]
DL = "implicit/datasets/_download.py"

prop("C01", "Matrix factorization recommend() is an exact top-N by inner product",
 "For every fitted matrix factorization model, recommend returns the N best eligible items for each user: distinct valid item ids, in non-increasing score order, each score equal to the inner product of that user's and item's factors, and no eligible item left out scores higher than one returned. When fewer than N items are eligible every one of them is returned exactly once. This holds for any factors (ties, zeros, negatives), any N, any float precision, any number of users in the call and any number of threads.",
 ["inputs", "configurations"],
 "all item/user factor matrices over a small value lattice, all N from 1 to past the number of items, both precisions, single and batched calls, and sizes around every internal block boundary",
 "The tests check recommend on one random matrix with loose rank expectations; ties, N >= number of items, negative scores and block boundaries are never combined.",
 [MF, TOPK, SEL], [("bounded heap selection", "select.h:select"), ("blocked scoring with a guided parallel loop", "topk.pyx:topk"), ("factor lookup", "matrix_factorization_base.py:recommend")],
 ["return value of recommend"])

prop("C02", "Excluded items are never recommended",
 "In every recommend and similar_items/similar_users call of every model (matrix factorization, item-item and ANN wrappers), an item the user already liked (when filtering of liked items is on), an item or user in the filter list, or one outside the given candidate list never appears as a result; a result position that cannot be filled is either absent or carries the lowest-possible sentinel score. Filtering never drops, reorders or rescores an item that is not excluded. Passing both a candidate list and a non-empty filter list is refused with an error.",
 ["inputs", "configurations"],
 "all subsets of liked, filtered and candidate items over a small catalogue, for every model kind, as lists or arrays, single or batched, with and without each option",
 "Tests try a handful of fixed filter lists; the space of combinations of likes x filters x candidates x batch rows is what the guarantee quantifies over.",
 [MF, TOPK, KNN, UT] + ANN, [("negative-infinity masking", "topk.pyx:_topk_batch"), ("candidate remapping", "matrix_factorization_base.py:_filter_items_from_sparse_matrix"), ("result masking", "nearest_neighbours.py:recommend"), ("over-fetch and filter", "utils.py:_filter_items_from_results")],
 ["return value of recommend, similar_items, similar_users"])

prop("C03", "similar_items and similar_users rank by exact cosine similarity",
 "For every matrix factorization model, similar_items and similar_users return the N nearest items (users) in non-increasing order with scores equal to the cosine similarity of the current factor vectors, the query itself scoring 1 and a zero vector scoring 0 against everything. No closer eligible neighbour is omitted, also when the query vector is recalculated from supplied interactions or the candidates are restricted. Results are finite for every factor matrix with finite entries, including all-zero rows.",
 ["inputs", "configurations"],
 "all factor matrices over a small lattice including zero rows, all queries, N, filters, candidate lists, precisions and batch shapes",
 "Tests compare against one random matrix; zero rows, ties, candidate lists and recalculated queries are not enumerated.",
 [MF, TOPK, SEL], [("norm caching with zero replacement", "matrix_factorization_base.py:item_norms,user_norms"), ("cosine scoring", "matrix_factorization_base.py:_get_similarity_score")],
 ["return value of similar_items, similar_users"], [("_item_norms/_user_norms", "cached vector norms", MF)])

prop("C04", "A batched call equals the same calls made one at a time",
 "For every model, calling recommend, similar_items or similar_users with an array of ids gives, row by row, the same ids and scores as calling it with each id separately (apart from the order of exact ties and padding of rows that have fewer results). This holds for every batch size, including duplicates and arbitrary order of ids, and for every thread count.",
 ["inputs", "configurations"],
 "all id vectors up to a small length over a small catalogue for every model kind and method, plus batch sizes around and across the internal block sizes",
 "Tests compare one batch of a fixed size with the scalar calls; row mix-ups that need a second block, duplicates or a particular order are not reached.",
 [MF, TOPK, UT, KNN] + ANN, [("per-block row offsets", "topk.pyx:topk"), ("per-row loop", "utils.py:_batch_call")],
 ["return values of scalar and batched calls"])

prop("C05", "ALS direct solves satisfy the regularized normal equations",
 "With the direct (non conjugate-gradient) solver, every user and item vector produced by fit, recalculate_user, recalculate_item, partial_fit_users and partial_fit_items is the minimiser of the confidence-weighted regularized squared error given the other side's factors: positive entries are targets of one with that confidence (scaled by alpha), negative entries are targets of zero with the absolute confidence, missing entries are targets of zero with confidence one. A row with no interactions gets the zero vector, and an all-zero system without regularization raises an error rather than returning numbers. The native and the pure Python solver agree.",
 ["inputs", "configurations"],
 "all small interaction matrices over a confidence alphabet with negative, fractional, one and large values, with all combinations of alpha, regularization, precision, thread count and solver",
 "Tests check one factorization reconstructs its input; they never check the solution against the normal equations for negative confidences, empty rows, alpha or singular systems.",
 [ALS, _ALS], [("per-row Cholesky solve", "_als.pyx:_least_squares"), ("recalculation", "als.py:recalculate_user,recalculate_item"), ("python reference", "als.py:least_squares")],
 ["user_factors/item_factors after fit or partial fit, return of recalculate_*"])

prop("C06", "ALS conjugate gradient performs the documented number of CG steps",
 "With the conjugate gradient solver, each row produced by a training half-step is the result of the configured number of standard conjugate gradient iterations, started from the row's previous value, on that row's regularized normal equations (stopping early only on convergence), and rows with no interactions become zero. With at least as many steps as factors it therefore coincides with the direct solution, and no half-step ever increases that row's objective. The native and the pure Python solver agree on rows that have interactions.",
 ["inputs", "configurations"],
 "all small interaction matrices over a confidence alphabet with starting factors on a lattice, step counts 1..4, alphas, regularizations, precisions, thread counts",
 "Tests only look at the reconstruction after many iterations, which hides wrong residuals or step counts because later iterations compensate.",
 [ALS, _ALS], [("native CG", "_als.pyx:_least_squares_cg"), ("python CG", "als.py:least_squares_cg")],
 ["user_factors/item_factors after one fit iteration"])

prop("C07", "Reported ALS training loss equals its definition",
 "When loss calculation is enabled the value passed to the per-iteration callback equals the regularized confidence-weighted squared error over all user/item pairs for the factors at that moment, divided by the total confidence, where negative confidences have target zero. The callback runs exactly once per iteration, in order, and the value does not depend on the thread count, the solver or the precision beyond rounding.",
 ["inputs", "configurations"],
 "all small interaction matrices (with negative, zero-row and fully dense cases), factor lattices, regularizations, precisions, thread counts",
 "Tests compare the loss on one random positive matrix; negatives, empty rows and parallel reductions are not covered.",
 [_ALS, ALS], [("parallel reduction", "_als.pyx:_calculate_loss"), ("callback", "als.py:fit")],
 ["callback arguments"])

prop("C08", "ALS answers always reflect the current factors, whatever the history",
 "After any sequence of fits, refits (also on data of another shape), partial fits of users or items (including new ids), queries, recalculations, pickling and save/load, every answer of an ALS model equals the answer of a fresh model holding the same factors and parameters; no earlier call leaves a stale result behind. A partial fit changes exactly the listed rows (growing the model with zero rows when ids are new), and queries change nothing.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over an alphabet of training, partial training, query and persistence operations on a small catalogue",
 "Tests run one fixed short sequence per feature; a stale cache needs a specific order such as query, partial fit, query on the other side.",
 [ALS, MF], [("cache invalidation", "als.py:fit,partial_fit_users,partial_fit_items"), ("lazy caches", "als.py:YtY,XtX; matrix_factorization_base.py:item_norms,user_norms")],
 ["answers of every query method after each operation"], [("_YtY,_XtX,_item_norms,_user_norms", "lazily computed caches", ALS)])

prop("C09", "Saving, loading and pickling preserve a model completely",
 "For every model type that supports it and every parameter setting, fitted or not, saving and loading (to a path with or without extension, or a file object) or pickling gives a model with the same parameters and bit-identical learned state, whose every query answer equals the original's; saving does not modify the original. A loaded model can be trained, saved or queried again exactly like the original (a random generator object used as seed is the only thing not stored).",
 ["configurations", "histories"],
 "all parameter combinations from a small alphabet for each model type, fitted and unfitted, for all sequences of save/load and pickle up to a depth",
 "Tests save one fitted model per class with fixed parameters and compare one query.",
 [ALS, BPR, LMF, KNN, BASE], [("save", "als.py:save, bpr.pyx:save, lmf.pyx:save, nearest_neighbours.py:save"), ("load", "recommender_base.py:load, nearest_neighbours.py:load"), ("pickling", "nearest_neighbours.py:__getstate__,__setstate__")],
 ["attributes and query answers of the restored model"])

prop("C10", "Item-item similarities are the exact top-K weighted co-occurrences",
 "For each item-item model the stored similarity of every item consists of its K largest weighted co-occurrence values (all of them when there are fewer), each equal to the inner product of the two items' weighted interaction columns under the model's weighting: raw, cosine (unit columns), TF-IDF (square root of the count times log(items/(1+user's item count)), unit columns) or BM25 with its K1 and B. similar_items returns exactly these in non-increasing order, and items never seen together are not neighbours. No valid input produces NaN, and cosine similarities never exceed one.",
 ["inputs", "configurations"],
 "all small interaction matrices over a value alphabet, all K up to beyond the catalogue, all four weightings, several BM25 parameters, thread counts and sizes around the parallel block size",
 "Tests check one random matrix against a slow reference for one K and no degenerate rows.",
 [KNN, _KNN, KNNH], [("sparse product with top-K heap", "_nearest_neighbours.pyx:all_pairs_knn, nearest_neighbours.h"), ("weighting", "nearest_neighbours.py:normalize,tfidf_weight,bm25_weight")],
 ["similar_items and the similarity matrix after fit"])

prop("C11", "Item-item recommend equals the similarity-weighted sum, call after call",
 "For every fitted item-item model, recommend scores each item with the sum over the user's interactions of weight times stored similarity, returns the N best of the reachable eligible items in non-increasing order, and lists an unreachable candidate only with the sentinel score. The answer depends only on the arguments of that call, not on any earlier or failed call on the same model.",
 ["inputs", "histories"],
 "all interaction rows over a small catalogue with positive and negative weights, all N, all filters, and all sequences of calls up to a depth on one model",
 "Tests call recommend once on a fresh model; the scorer reuses an accumulator between calls, so residue needs a specific call sequence.",
 [KNN, _KNN, KNNH], [("reused accumulator cleared while iterating", "nearest_neighbours.h:SparseMatrixMultiplier"), ("scorer", "_nearest_neighbours.pyx:NearestNeighboursScorer")],
 ["return value of recommend"], [("neighbours", "accumulator reused across calls", _KNN)])

prop("C12", "Concurrent queries on one fitted model do not affect each other",
 "When several threads call recommend, similar_items, similar_users or recalculating queries on the same fitted model, with any interleaving, each call returns what it would return alone, no call fails because of another, and the model is unchanged afterwards. This includes the first queries after fitting, loading or a partial fit, when cached values are first computed.",
 ["schedules"],
 "all interleavings of two or three query threads up to a preemption bound, at Python statement boundaries and at unlocked native memory accesses, for every model kind",
 "The tests are single threaded; a lazily published cache or shared scratch buffer only fails under a particular interleaving.",
 [MF, ALS, _KNN, KNNH, TOPK], [("lock around the shared accumulator", "_nearest_neighbours.pyx:NearestNeighboursScorer.recommend"), ("compute-then-publish caches", "matrix_factorization_base.py:item_norms,user_norms; als.py:YtY,XtX"), ("per-call buffers", "topk.pyx")],
 ["return value of each concurrent call"], [("neighbours, lock", "shared accumulator and its lock", _KNN), ("lazily computed caches", "norms and Gram matrices", MF)])

prop("C13", "Parallel training and batch queries do not depend on the thread schedule",
 "For ALS (both solvers and the training loss), item-item similarity computation, logistic MF with a fixed seed and thread count, and batched queries, the result is the same for every assignment of work to threads and every interleaving of those threads, and (except logistic MF) for every number of threads, up to rounding in summed losses. No schedule deadlocks, and an error in one worker surfaces as an exception.",
 ["schedules", "configurations"],
 "all assignments of work chunks to 1-3 threads and all interleavings up to a preemption bound at conflicting memory accesses, on inputs with at least two chunks",
 "Tests run whichever schedule the machine happens to produce on inputs that mostly fit one chunk.",
 [_ALS, LMF, _KNN, TOPK], [("per-thread buffers and disjoint row writes", "_als.pyx, lmf.pyx, _nearest_neighbours.pyx"), ("reduction variables", "_als.pyx:_calculate_loss"), ("per-thread generators", "lmf.pyx:RNGVector")],
 ["learned state after fit, callback loss, batched results"])

prop("C14", "BPR training performs exactly the documented SGD updates",
 "Each BPR epoch on one thread applies, for as many samples as there are interactions, one update for a triple (user, liked item, other item) whose liked pair is a stored interaction and whose other item is the item of some stored interaction (every such triple can be drawn), with the published gradient, learning rate and regularization; with negative verification on, a triple whose other item the user also liked is skipped and changes nothing. The callback's correct and skipped counts match the applied and skipped samples, the user bias coordinate stays one, and rows that take part in no sample are unchanged. A new model starts with non-zero factors for every row that has interactions and zeros (bias aside) for the others, whatever the weights.",
 ["inputs", "schedules"],
 "all outcomes of the sample generator for small interaction matrices, from lattice starting factors, with verification on and off, both precisions",
 "Tests only check that the learned ranking is sensible; a wrong sign in a regularization term or a leaking negative still learns.",
 [BPR], [("update loop", "bpr.pyx:bpr_update"), ("membership test", "bpr.pyx:has_non_zero"), ("initialization", "bpr.pyx:fit")],
 ["factors and callback arguments after one epoch"])

prop("C15", "Logistic MF training performs exactly the documented gradient steps",
 "Each logistic MF epoch on one thread updates every user with interactions once and then every item with interactions once, by an AdaGrad step along the gradient of the regularized logistic likelihood: all positive interactions with their weights plus min(number of items (users), negative proportion times positives) sampled negatives, each drawn from the items (users) that have interactions. The reserved bias coordinates stay one after the half-step that writes them, and rows without interactions change nothing else. A new model starts with non-zero factors for every row that has interactions and zeros for the others, whatever the weights.",
 ["inputs", "schedules"],
 "all outcomes of the negative sampler for small interaction matrices from lattice starting factors, several negative proportions, learning rates and regularizations",
 "Tests only check that positives rank above negatives after many epochs on one toy matrix.",
 [LMF], [("update loop", "lmf.pyx:lmf_update"), ("bias columns", "lmf.pyx:fit")],
 ["factors after one or two epochs"])

prop("C16", "Train/test splits partition the interactions",
 "For every interaction matrix and every outcome of the random generator, train_test_split and leave_k_out_split put each interaction with its value unchanged in exactly one of train and test, and invent none (train_test_split drops only negative ratings that fall on the test side). leave_k_out_split gives every user with more than K+1 interactions exactly K test interactions, except users reserved for training, and every other user none; the number of reserved users is the requested fraction (rounded down, at least one) of the users that have interactions. The same integer seed gives the same split.",
 ["inputs", "schedules"],
 "all small interaction matrices including users without interactions, all sampled outcomes of the generator, K values and reserved fractions",
 "Tests check sums on one dense random matrix, where user ids are consecutive and every user is eligible.",
 [EV], [("random threshold masks", "evaluation.pyx:train_test_split"), ("per-user tails", "evaluation.pyx:_take_tails, leave_k_out_split")],
 ["returned train and test matrices"])

prop("C17", "Ranking metrics equal their definitions",
 "precision_at_k, mean_average_precision_at_k, ndcg_at_k, AUC_at_k and ranking_metrics_at_k return the defined value for the lists the model recommends: users without test items are ignored, precision is hits over the sum of min(K, test items), MAP normalises by min(K, test items), NDCG uses log2 discounts with the ideal ranking, and AUC counts ordered positive/negative pairs with unranked pairs at one half. Every metric lies in [0,1] whenever some user has test items and some item outside them, for any K including K larger than the catalogue, any number of users, any internal batch boundary and any thread count.",
 ["inputs", "configurations"],
 "all test matrices and all rankings over a small catalogue, all K from 1 to beyond the catalogue, and user counts around the internal batch size",
 "Tests compare two or three hand-computed cases.",
 [EV], [("accumulation loop", "evaluation.pyx:ranking_metrics_at_k")],
 ["returned metrics"])

prop("C18", "ALS explanations decompose the recalculated score",
 "For every fitted ALS model, explain returns a total equal to the score of the item under the user's recalculated factors and contributions that sum to it: each liked item with positive confidence contributes its exact share, the N largest are listed in non-increasing order, and items with negative confidence are not listed. Passing back the returned user weights for another item gives the same answer as computing them afresh.",
 ["inputs", "configurations"],
 "all small interaction rows over a confidence alphabet, lattice item factors, all items, N, alphas and reuse of user weights across items",
 "Tests check a single user on one matrix without negatives or truncated N.",
 [ALS], [("Cholesky based decomposition", "als.py:explain, user_linear_equation")],
 ["return value of explain"])

prop("C19", "Calls never modify their arguments, and queries never modify the model",
 "No fit, partial fit, query, evaluation, split, weighting or save call changes the value of any matrix, array or list the caller passed in, and returned arrays are not tied to the model: writing into a returned result changes no later answer. Query and evaluation calls leave the model's parameters and learned factors bit-identical.",
 ["histories", "inputs"],
 "every public operation of every model kind with every argument representation, followed by scribbling over the returned arrays and repeating the query",
 "Tests almost never look at an argument after the call.",
 [MF, ALS, BPR, LMF, KNN, EV, UT] + ANN, [("copies before in-place arithmetic", "matrix_factorization_base.py:_filter_items_from_sparse_matrix; faiss.py:similar_items; nearest_neighbours.py weighting")],
 ["arguments and model state after each call"])

prop("C20", "ANN-backed models return correct scores for real, eligible items",
 "For the Annoy, NMSLib and Faiss wrappers, every result of recommend and similar_items is a valid distinct item id with a score equal (to single precision) to the wrapped model's inner product or cosine for that pair, in non-increasing order, at most N of them. When the index covers all cells or trees of a small catalogue, exactly the best N eligible items are returned, also with filters. With approximation turned off the answers are the wrapped model's own.",
 ["inputs", "configurations"],
 "lattice and random-seeded small catalogues for all three wrappers, both approximation switches, all N and filter subsets, single and batched",
 "Tests check that the top results overlap with the exact model on one dataset.",
 ANN + [UT], [("inner-product augmentation", "utils.py:augment_inner_product_matrix"), ("distance conversion", "annoy.py, nmslib.py"), ("over-fetch for filters", "annoy.py, faiss.py, nmslib.py")],
 ["return value of recommend, similar_items on the wrappers"])

prop("C21", "Equal seeds give equal models",
 "Training any model with the same data, parameters, thread count of one (any count for ALS and item-item) and an equal random_state (an integer, or RandomState or Generator in the same state) gives bit-identical factors, whatever was trained or drawn before in the process; global numpy random state is neither used nor changed. The same holds for the dataset splits.",
 ["configurations", "histories"],
 "all model kinds x seed kinds x sequences of preceding random activity up to a depth",
 "Tests only train twice back to back with an integer seed for one model.",
 [UT, ALS, BPR, LMF, EV], [("seed normalisation", "utils.py:check_random_state"), ("seeded per-thread generators", "bpr.pyx, lmf.pyx:RNGVector")],
 ["factors after fit, split outputs"])

prop("C22", "An interrupted dataset download is never used as a dataset",
 "If a dataset download fails, is truncated or the process dies at any point, the dataset cache is left either without that dataset or with the complete one: the next call downloads it again or returns the complete data, and never a partial file. A failed download raises an error, and a complete cached dataset is reused without contacting the network.",
 ["crash_points", "fault_sequences"],
 "every point of the download and publish sequence at which the connection fails, the data ends early, the file cannot be published or the process is killed, for every dataset, followed by retries",
 "Tests need the network for datasets and never fail a download.",
 [DL, "implicit/datasets/movielens.py", "implicit/datasets/lastfm.py", "implicit/datasets/reddit.py", "implicit/datasets/sketchfab.py", "implicit/datasets/million_song_dataset.py"],
 [("download to a temporary name, then rename", "_download.py:download_file"), ("cache lookup by existence", "get_* functions")],
 ["cache directory and return value of the dataset functions"])

prop("C23", "Results do not depend on how the interaction matrix is represented",
 "Training, querying and evaluating with the same interactions give the same results whatever the value dtype (integers, single or double precision), sparse format where formats are accepted, order of the stored indices within a row, memory order or container of id arguments (also a set of ids to exclude). Formats that are not accepted are refused with an error, never misread.",
 ["inputs", "configurations"],
 "all combinations of value dtype, sparse format, index order and id container for every model kind and operation on small matrices",
 "Tests use one float CSR matrix with sorted indices nearly everywhere.",
 [UT, ALS, BPR, LMF, KNN, _KNN, MF, EV], [("conversion to CSR", "utils.py:check_csr"), ("dtype casts", "fit methods"), ("index sorting before binary search", "bpr.pyx:fit")],
 ["learned state and answers"])

prop("C24", "Invalid requests fail loudly and leave the model unchanged",
 "A call with inconsistent arguments (wrong number of interaction rows, non-CSR interactions where CSR is required, candidate ids outside the model, interactions with items or users outside the model where they determine the answer, unsupported option, mismatched ids and rows in a partial fit, invalid leave-k-out sizes) raises an exception instead of returning an answer, and the model then answers as before. Training whose factors become NaN raises a fit error, and an unsupported precision is rejected.",
 ["inputs", "histories"],
 "every listed kind of invalid argument for every model kind and operation, in single and batched form, interleaved with valid calls",
 "Tests cover a few of these errors for a few models and do not check the state afterwards.",
 [MF, ALS, KNN, EV, UT, _ALS], [("argument validation", "matrix_factorization_base.py:recommend; als.py:recalculate_*,partial_fit_*; nearest_neighbours.py:recommend"), ("NaN check", "matrix_factorization_base.py:_check_fit_errors")],
 ["exceptions and later answers"])

prop("C25", "Native code never touches memory outside its buffers",
 "No sequence of valid calls (training, retraining on data of another shape, partial training, queries, evaluation, splits) makes the compiled code read or write outside the arrays involved, use freed memory, or crash, for any shape of valid input: empty rows or matrices, a single user, item or factor, sizes at and around internal block sizes, and any N, K (also 0 or far larger than the catalogue) or thread count.",
 ["inputs", "histories", "configurations"],
 "all small shapes and parameter combinations including degenerate ones for every native routine, and all short training/query histories, executed on a build that reports every invalid access",
 "An out-of-bounds access of a few bytes rarely changes a test's outcome.",
 [_ALS, BPR, LMF, TOPK, SEL, _KNN, KNNH, EV], [("index arithmetic in unchecked native loops", "all .pyx files and headers")],
 ["sanitizer reports and process exit"])

prop("C26", "GPU models give the same answers as the CPU models",
 "For the same factors and inputs, models running on the GPU return the same recommendations, similarities and training results as the CPU models up to rounding.",
 ["inputs", "configurations"], "all inputs, on hardware with CUDA",
 "The GPU tests are skipped without CUDA hardware.",
 ["implicit/gpu/als.py", "implicit/gpu/bpr.py", "implicit/gpu/matrix_factorization_base.py"], [("CUDA kernels", "implicit/gpu/*.cu")],
 ["return values of GPU models"])

prop("C27", "Factories and constructors build exactly the model asked for",
 "Every documented parameter passed to a model constructor, to the implicit.als, implicit.bpr and implicit.lmf factory functions or to the Annoy/NMSLib/Faiss ALS factories, by position or by keyword and in any combination, becomes that parameter of the resulting model, every omitted one takes its documented default, and training the factory's model gives the same factors as training the class directly. Asking for a GPU model where there is no GPU is refused with an error.",
 ["configurations"],
 "all subsets of parameters by keyword and all positional prefixes, with several values each, for every factory and constructor",
 "Tests pass a handful of parameters, always by keyword, and never look at the ones they omit.",
 ["implicit/als.py", "implicit/bpr.py", "implicit/lmf.py", "implicit/approximate_als.py", ALS, BPR, LMF, KNN] + ANN,
 [("positional forwarding of arguments", "als.py, bpr.py, lmf.py factories"), ("separation of index and model arguments", "approximate_als.py")],
 ["parameters and learned factors of the resulting model"])

prop("C28", "Observing training does not change it",
 "For ALS, BPR and logistic MF with a fixed seed, the progress bar, log level, callback (also ALS's fit_callback) and loss calculation change nothing in what is learned. The callback runs exactly once after each iteration, in order, and at that moment the model holds exactly the factors of a model trained for that many iterations and answers queries from them; queries made by the callback leave no trace in later answers. An exception raised by the callback stops training there and is passed on unchanged, and fitting again continues from the current factors.",
 ["histories", "configurations"],
 "all histories of what the callback does after each of the first iterations (nothing, any query, evaluation, pickling, raising), all combinations of observation options, and all splits of the iterations over several fits",
 "Tests never query a model from its callback, so values cached in mid-training and kept afterwards go unnoticed.",
 [ALS, BPR, LMF, MF] + ANN, [("iteration loop and callback", "als.py:fit, bpr.pyx:fit, lmf.pyx:fit"), ("cached norms and Gram matrices", "matrix_factorization_base.py, als.py")],
 ["factors and answers in the callback and after fit"], [("_item_norms, _user_norms, _YtY, _XtX", "values derived from the factors", "model attributes")])

prop("C29", "Parallel BPR training loses no sample under any interleaving",
 "When BPR trains on several threads, for every interleaving of those threads exactly as many samples are drawn as there are interactions, each thread from its own generator, so that the reported number of skipped samples depends only on seed and thread count; correct plus skipped never exceed the number of samples and are exact when nothing is learned. Executions in which samples do not overlap in time are runs of the documented SGD; overlapping ones may lose single updates of shared rows, but never change rows without interactions or the user bias coordinate, and every factor stays finite and within what that many updates can reach.",
 ["schedules", "inputs"],
 "all interleavings of two and three threads at conflicting memory accesses up to a preemption bound, for small interaction patterns, seeds and options",
 "A test runs one schedule, nearly always one without any conflict.",
 [BPR], [("lock free parallel loop with one generator per thread", "bpr.pyx:bpr_update, RNGVector"), ("reduction of the counts", "bpr.pyx:bpr_update")],
 ["factors after training and counts passed to the callback"])

prop("C30", "TF-IDF, BM25 and normalisation weights equal their definitions",
 "For every non-negative sparse matrix, in any sparse format and value type, tfidf_weight, bm25_weight and normalize return a sparse matrix of the same shape with weights exactly at the stored entries: TF-IDF is the square root of the entry times log(rows/(1+entries in its column)), BM25 is entry*(K1+1)/(K1*L+entry) times the same logarithm with L = 1-B+B*(row sum/mean row sum), by default K1=100 and B=0.8, and normalize divides each row by its Euclidean length (rows without entries stay empty). All weights are finite.",
 ["inputs", "configurations"],
 "all small matrices over several values, all formats, value types and parameter settings",
 "Tests check one matrix by its rough properties and never the parameters, empty rows or value types.",
 [KNN], [("weighting", "nearest_neighbours.py:tfidf_weight, bm25_weight, normalize")],
 ["values of the returned matrix"])

prop("C31", "Models in one process are independent of each other",
 "Whatever is done with one model (training, partial training, queries, saving, copying), in the same thread or in another thread at the same time, no other model changes: its answers and learned state are those of the same history alone, although both are given the same argument objects. This also holds for a model and its pickled, loaded or deep copy. Nor does any call change state of the whole process: the global random generators, NumPy's error handling, the environment, the current folder or the warning filters.",
 ["histories", "schedules"],
 "all merges of two operation histories on two models of equal or different kinds, all operation sequences on a model and its copy, and all interleavings of two threads working on two models up to a preemption bound",
 "Tests use one model at a time.",
 [MF, ALS, BPR, LMF, KNN, _KNN, "implicit/ann/annoy.py", "implicit/utils.py"], [("instance attributes and caches", "matrix_factorization_base.py, als.py, nearest_neighbours.py")],
 ["answers and learned state of both models"])

prop("C32", "An interrupted call does not damage the model",
 "If a query, recalculation, save, pickle or evaluation call is interrupted by an exception (Ctrl-C, out of memory) at any point of its Python code, the model and the arguments are unchanged, and every later query answers as if the call had never been made. After an interrupted fit or partial fit, a completed fit gives a model that answers from what it learned, as without the interruption.",
 ["crash_points", "histories"],
 "an exception at every line of every call, with cached values present or not, followed by every query",
 "Tests never interrupt a call.",
 [MF, ALS, KNN, _KNN, "implicit/utils.py", "implicit/evaluation.pyx"], [("temporary changes of model state and filling of caches", "matrix_factorization_base.py, als.py, nearest_neighbours.py")],
 ["model state and answers after the interruption"])

prop("C33", "A model file holds a whole model or is refused, and is never executed",
 "If save(path) does not complete - an exception (Ctrl-C, out of memory) at any point, or no room left after any number of bytes - the file at that path is what it was before: the model saved there earlier still loads, completely, and where there was none nothing loads. A file cut short after any number of bytes is refused by load() instead of being loaded as another model. load() never executes code from the file: a pickled object anywhere in it is refused.",
 ["crash_points", "histories"],
 "an exception at every line of save, a full disk after every byte, every prefix of a file, a pickled object in place of every member",
 "Tests save and load without failures and never read a damaged or hostile file.",
 ["implicit/recommender_base.py", KNN, ALS, BPR, LMF, "implicit/utils.py"], [("save and load of every model", "recommender_base.py, nearest_neighbours.py, als.py, bpr.pyx, lmf.pyx")],
 ["what load() gives for the file afterwards"])

prop("C34", "Every way of writing the same call gives the same answer",
 "Optional arguments of recommend, similar_items, similar_users, explain, the metrics and the splits that are left out mean the documented interface's defaults (N=10, filter_already_liked_items=True, no exclusions, no recalculation, K=10, train_percentage=0.8, K=1) on every model, and passing them by position or by name, ids as Python or NumPy integers of any width, lists or arrays of any layout, and flags and counts as NumPy types changes nothing. An empty exclusion list excludes nothing. rank_items and recommend_all equal the recommend call they stand for.",
 ["inputs"],
 "every subset of optional arguments left out x by position or by name x types of ids, counts and flags, on all models",
 "Tests call with one spelling each.",
 [MF, KNN, "implicit/recommender_base.py", "implicit/ann/annoy.py", "implicit/ann/nmslib.py", "implicit/ann/faiss.py", "implicit/evaluation.pyx", ALS],
 [("signatures and argument handling of every query", "recommender_base.py, matrix_factorization_base.py, nearest_neighbours.py, ann/*.py, evaluation.pyx")],
 ["ids, scores and metric values"])

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
