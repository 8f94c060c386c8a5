"""Writes properties.jsonl (kept as code so that the statements are easy to edit)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if state:
        a["state"] = [{"name": x} for x in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "recommend() returns the exact top N items by predicted score",
  "For every ALS, BPR or LMF model and every user or batch of users, recommend returns min(N, number of items) distinct valid item ids, in non-increasing score order, each with a score equal to the inner product of that user's and that item's factors, and no item left out scores higher than one returned. "
  "This holds for any N, catalogue size, number of factors, floating point type and pattern of tied scores, including N larger than the catalogue and N = 0.",
  ["inputs"], "all factor matrices (any size, dtype, ties, zero rows), all users / batches, all N",
  "Tests use checkerboard matrices and N<=10; ties, N beyond the catalogue, wide catalogues, several internal blocks and float64 are input dimensions a handful of samples cannot settle.",
  ["implicit/cpu/topk.pyx", "implicit/cpu/select.h", "implicit/cpu/matrix_factorization_base.py"],
  ["topk / select", "MatrixFactorizationBase.recommend"],
  ["user_factors", "item_factors"], ["return value of recommend"])
p("C02", "similar_items()/similar_users() are the exact top N by cosine similarity",
  "For every ALS, BPR or LMF model, similar_items and similar_users return min(N, number of candidates) distinct ids in non-increasing order of cosine similarity between the stored factor vectors, each with its cosine as the score, and no candidate left out is more similar than one returned. "
  "Vectors of zero length have similarity 0 to everything and never produce NaN.",
  ["inputs"], "all factor matrices including zero and parallel vectors, all ids / batches, all N",
  "Correctness over zero-norm vectors, ties, batches and norms of very different sizes is a universally quantified numeric relation; tests only look at parity of ids on one matrix.",
  ["implicit/cpu/matrix_factorization_base.py", "implicit/cpu/topk.pyx", "implicit/cpu/select.h"],
  ["_get_similarity_score", "user_norms / item_norms", "topk"], ["user_factors", "item_factors", "cached norms"],
  ["return values of similar_items, similar_users"])
p("C03", "Matrix factorization queries honour every filter",
  "A query on an ALS, BPR or LMF model never presents as a real result an item the user already liked (when filter_already_liked_items is set), an id in filter_items/filter_users, or an id outside the items/users selection; every eligible id that fits in N is still returned, best first. "
  "When fewer than N eligible ids exist, excluded candidates may only appear after all eligible ones and only with the lowest-possible sentinel score. "
  "This holds whatever the order, duplication or container type of the id lists and however many ids they contain.",
  ["inputs"], "all liked sets, filter lists, selections (unsorted, duplicated, list / int32 / int64), N, batches",
  "Filters combine (liked x filter list x selection x N x batch position); tests check single combinations with one id.",
  ["implicit/cpu/matrix_factorization_base.py", "implicit/cpu/topk.pyx"],
  ["_topk_batch filtering", "_filter_items_from_sparse_matrix", "items remapping"], None,
  ["return values of recommend, similar_items, similar_users"])
p("C04", "A batch query equals the individual queries, for any batch and thread count",
  "Each row returned by recommend, similar_items or similar_users for an array of ids equals what the same call returns for that id alone (up to the order of tied scores), for ALS, BPR, LMF and item-item models, whatever the batch size, the position of the id in the batch, repeated ids, and num_threads. "
  "Item-item models, which can have fewer than N results, pad batch rows at the end with id -1 and the lowest-possible score.",
  ["inputs", "schedules"], "all batches (size, order, repetition), all thread counts, matrix factorization and item-item models, with and without filters or recalculation",
  "Parallel blocks of rows, per-row filters and offsets only go wrong at particular batch sizes, positions or thread counts.",
  ["implicit/cpu/topk.pyx", "implicit/utils.py", "implicit/cpu/matrix_factorization_base.py", "implicit/nearest_neighbours.py"],
  ["topk prange over row blocks", "_batch_call"], None, ["return values of batch and scalar queries"])
p("C05", "Queries change nothing and can run concurrently",
  "recommend, similar_items, similar_users, explain, the recalculate_* methods and the ranking metrics leave the model's factors or similarity matrix and all arrays, lists and matrices passed in by the caller unchanged, and repeating a query gives the same answer. "
  "Queries issued from several threads at once on one model return exactly the answers they return one at a time.",
  ["inputs", "schedules", "histories"], "all queries and sequences of queries, all interleavings of concurrent queries on one model",
  "Aliasing of returned or cached arrays and races on shared scratch state need particular histories or interleavings.",
  ["implicit/_nearest_neighbours.pyx", "implicit/nearest_neighbours.h", "implicit/cpu/matrix_factorization_base.py", "implicit/cpu/als.py", "implicit/evaluation.pyx", "implicit/ann/faiss.py"],
  ["NearestNeighboursScorer.lock / SparseMatrixMultiplier", "cached norms / gram matrices", "_filter_items_from_sparse_matrix copy"],
  ["model factors, similarity, caller's arrays"], ["arguments and attributes before and after a query"])
p("C06", "Answers always reflect the current factors, after any history",
  "After any sequence of fit, refit, partial_fit_users, partial_fit_items, callbacks that query the model during fit, save/load, pickling and queries, every query on an ALS, BPR or LMF model gives the answer of a fresh model holding the same user and item factors, and every query on an item-item model the answer of a fresh model fitted on the same data. "
  "No answer is computed from norms, gram matrices or other derived values of factors that have since changed.",
  ["histories"], "all histories of model operations and interleaved queries",
  "Staleness needs a query between two updates; the number of histories is exponential and tests only fit once.",
  ["implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/cpu/matrix_factorization_base.py"],
  ["_user_norms/_item_norms/_YtY/_XtX invalidation in fit and partial_fit_*"],
  ["_user_norms, _item_norms, _YtY, _XtX"], ["answers of queries after each operation"])
p("C07", "ALS user/item factors solve the weighted least squares problem",
  "recalculate_user(ids, user_items) and recalculate_item(ids, item_users) return for every row the solution x of (Y'Y + Y'(C-I)Y + regularization*I) x = Y'C p, where a positive entry c has confidence alpha*c and preference 1, a negative entry has confidence alpha*|c| and preference 0, and absent entries have confidence 1 and preference 0; an empty row gives the zero vector. "
  "recommend(recalculate_user=True) and similar_items(recalculate_item=True) answer with exactly those factors.",
  ["inputs"], "all factor matrices, sparse rows (positive, negative, fractional, empty), alpha, regularization, dtype, batch shapes, thread counts",
  "The normal equations must hold for every row; tests compare one or two fits.",
  ["implicit/cpu/_als.pyx", "implicit/cpu/als.py"],
  ["_least_squares", "recalculate_user / recalculate_item", "YtY / XtX"], None,
  ["return values of recalculate_*, recommend, similar_items"])
p("C08", "ALS fit alternates exact half-steps and never increases its objective",
  "Each iteration of ALS fit first solves all user factors against the current item factors and then all item factors against the new user factors (exactly for the Cholesky solver and for a converged conjugate gradient), so that n iterations followed by m more equal n+m iterations and the regularized weighted squared error never increases from one iteration to the next. "
  "The native and pure Python solvers give the same factors, the result does not depend on num_threads, and the loss passed to callbacks is the objective of the current factors divided by the total confidence; the callback is called once per iteration with 0, 1, 2, ....",
  ["inputs", "schedules"], "all interaction matrices (including negative and fractional confidences, empty rows), alpha, regularization, solver variants, iteration counts, thread counts",
  "Alternation, monotonicity and agreement of four solvers are relations over all inputs and all iterations.",
  ["implicit/cpu/als.py", "implicit/cpu/_als.pyx"],
  ["fit", "least_squares, least_squares_cg (native and Python)", "_calculate_loss"], ["user_factors, item_factors per iteration"],
  ["factors after fit and in callbacks, loss passed to callbacks"])
p("C09", "partial_fit updates exactly the given rows",
  "partial_fit_users(ids, rows) sets exactly the factors of those users to their recalculated factors, and partial_fit_items does the same for items: every other user and item factor keeps its value bit for bit, and the matrix grows with zero rows only when an id is beyond its end. "
  "Existing and new users and items can then be queried, in any order and across any sequence of partial fits.",
  ["histories", "inputs"], "all sequences of partial fits over existing ids, new ids, gaps, unsorted id lists",
  "Frame conditions and growth depend on the history of ids; tests cover one new id.",
  ["implicit/cpu/als.py"], ["partial_fit_users / partial_fit_items"], ["user_factors, item_factors"],
  ["factors before and after, queries after"])
p("C10", "explain() decomposes the predicted score",
  "explain(user, user_items, item) returns as total score the score the user's recalculated factors give that item, equal to the sum over the user's positively rated items of their contributions y_item' W y_liked * alpha * confidence, where W is the inverse of the user's weighted normal matrix; the top contributions are the N largest ones in decreasing order. "
  "Passing the returned user_weights to further calls for the same user gives the same answers for any item.",
  ["inputs"], "all models, users (including negative and single ratings), items, N, alpha, regularization",
  "The decomposition identity must hold for every user/item pair.",
  ["implicit/cpu/als.py"], ["explain", "user_linear_equation"], None, ["return value of explain"])
p("C11", "Item-item similarity is the exact top K of the weighted item-item product",
  "Fitting ItemItemRecommender, CosineRecommender, TFIDFRecommender or BM25Recommender stores for every item exactly its min(K, number of co-occurring items) highest weighted-overlap neighbours with their exact values and nothing else, where the weights are the raw values, cosine normalised, tf-idf normalised (sqrt(count)*idf) or BM25 (with K1 and B) with idf = log(items) - log(1+items of the user). "
  "Items whose weights are all zero have similarity 0, never NaN. The result does not depend on num_threads, on the order of entries or on the numeric type of the input.",
  ["inputs", "schedules"], "all interaction matrices, K, thread counts, K1, B",
  "Exactness of a parallel top-K sparse product over all matrices, ties and thread counts.",
  ["implicit/_nearest_neighbours.pyx", "implicit/nearest_neighbours.h", "implicit/nearest_neighbours.py"],
  ["all_pairs_knn", "TopK", "SparseMatrixMultiplier", "tfidf_weight, bm25_weight, normalize"], ["similarity"],
  ["similarity attribute, all_pairs_knn, weighting functions"])
p("C12", "Item-item recommend()/similar_items() rank by the similarity matrix",
  "recommend on an item-item model returns the min(N, available) best items by the sum over the user's items of weight times similarity, in non-increasing order with that exact sum as score, without liked items (if filtered) or filter_items; similar_items returns the best N stored neighbours with their similarities. "
  "With an items selection exactly the selected items are ranked (at most N), those without any score last with the lowest-possible score.",
  ["inputs"], "all similarity matrices, user rows (any weights), N, filters, selections",
  "Each combination of filter, selection, N and sparsity is a separate code path.",
  ["implicit/nearest_neighbours.py", "implicit/_nearest_neighbours.pyx", "implicit/nearest_neighbours.h"],
  ["ItemItemRecommender.recommend / similar_items", "NearestNeighboursScorer.recommend"], None,
  ["return values of recommend, similar_items"])
p("C13", "Train/test splits partition the interactions as documented",
  "For a matrix with at least one interaction, train_test_split and leave_k_out_split put every interaction with its unchanged value in exactly one of train and test (train_test_split drops negative values from the test set), with the input shape; train_test_split puts each one in train with probability train_percentage. "
  "In leave_k_out_split every user with more than K+1 interactions has exactly K of them in test and every other user none, except that max(1, int(train_only_size * users)) randomly chosen users among those with interactions (when train_only_size > 0) stay entirely in train. "
  "The same random_state gives the same split, any interaction of an eligible user can be held out, and the input is not modified.",
  ["inputs"], "all sparse matrices (gaps in user ids, empty users, duplicates of counts, any format), K, percentages, seeds",
  "A partition property over all matrices and all random choices.",
  ["implicit/evaluation.pyx", "implicit/utils.py"], ["train_test_split", "leave_k_out_split", "_take_tails", "_choose", "check_random_state"],
  None, ["returned matrices"])
p("C14", "Ranking metrics equal their definitions",
  "For every model, train and test matrix, ranking_metrics_at_k and the precision, MAP, NDCG and AUC functions equal their definitions on the lists recommend returns with the user's train items filtered: hits / sum of min(K, |test|); mean average precision truncated at min(K, |test|); NDCG with binary gains and ideal DCG of min(K, |test|) items; and limited AUC where items outside the list are ranked uniformly at random below it. "
  "Users without test items do not count, lists shorter than K or padded with -1 have no further hits or misses, and the result does not depend on how users are grouped (a test user is assumed to have at least one item not in the test set).",
  ["inputs"], "all recommendation lists, test sets, K, numbers of users",
  "Definitions must hold for every list and test set; tests have a single movielens run (network) and p@1.",
  ["implicit/evaluation.pyx"], ["ranking_metrics_at_k"], None, ["returned metrics"])
p("C15", "Saved or pickled models come back equivalent",
  "Loading a model saved with save (to a path with or without .npz, or a file object), or unpickling it, gives a model of the same class with the same hyper-parameters and the same answers to every query, fitted or not, for ALS, BPR, LMF and all item-item models with an integer or absent random_state. "
  "Training the loaded model further gives the same result as training the original further, and changing either afterwards does not affect the other.",
  ["histories", "inputs"], "all models, hyper-parameters, fitted states and histories before and after saving",
  "Every parameter and every later operation has to survive the round trip.",
  ["implicit/recommender_base.py", "implicit/nearest_neighbours.py", "implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx"],
  ["save / load", "__getstate__ / __setstate__"], ["all hyper-parameters and factors"], ["attributes and answers after load"])
p("C16", "BPR training performs only legal stochastic steps",
  "Each BPR epoch performs as many samples as there are interactions; a sample takes an interaction (user, liked item) and another interaction's item, both drawn uniformly from all interactions, is skipped if the user also likes that item (when verify_negative_samples), and otherwise makes the regularized BPR gradient step on exactly that user, the liked and the disliked item. "
  "Hence the callback's skipped and correct counts never exceed the number of interactions, users who like every interacted item and users or items without interactions never change, every user keeps a constant 1 in the bias dimension, and users or items without interactions start as zero vectors (apart from that 1). "
  "These hold for every thread count, entry order and seed.",
  ["inputs", "schedules"], "all interaction matrices, seeds, thread counts, hyper-parameters, entry orders",
  "Sampling is random and parallel; a wrong membership test or update only shows for particular rows.",
  ["implicit/cpu/bpr.pyx", "implicit/cpu/bpr.h"], ["fit", "bpr_update", "has_non_zero"], ["user_factors, item_factors"],
  ["factors before and after fit, callback arguments"])
p("C17", "LMF training follows its update rule on exactly the interacting rows",
  "Each LMF epoch first moves the factors of every user with interactions by one Adagrad step along the gradient of the logistic likelihood of that user's interactions (weighted by their values, against neg_prop negatives per interaction, at most as many as there are items, sampled uniformly from the items of all interactions) minus regularization, with item factors fixed, and then does the same for items against the new user factors. "
  "The second to last user column and the last item column are 1 after training, rows without interactions start as zero vectors and otherwise keep their values, the callback is called once per epoch, and without negative samples (neg_prop=0) the result is deterministic and independent of num_threads.",
  ["inputs", "schedules"], "all interaction matrices and factor values, learning rates, seeds, thread counts",
  "The gradient must be right for every row and value; tests only check ranking on a checkerboard.",
  ["implicit/cpu/lmf.pyx"], ["fit", "lmf_update"], ["user_factors, item_factors"], ["factors before and after fit"])
p("C18", "Approximate (ANN) models return true scores and honour filters",
  "AnnoyModel, FaissModel and NMSLibModel wrapping a fitted model return distinct items with, as score, the inner product (recommend) or cosine (similar_items) that the wrapped model's current factors give, in non-increasing order, never a liked (if filtered) or filtered item, padded with id -1 and the lowest-possible score where a batch row has fewer than N results, and (when the index search is exhaustive) the same top N as the wrapped model; recalculate_user / recalculate_item use the recalculated factors. "
  "With approximate_recommend or approximate_similar_items off they answer exactly as the wrapped model, queries do not modify the wrapped model, and refitting rebuilds the indices.",
  ["inputs", "histories"], "all wrapped models, filters, N, batches, refits",
  "Over-querying and filtering have to be right for every combination of filter sizes and N.",
  ["implicit/ann/annoy.py", "implicit/ann/faiss.py", "implicit/ann/nmslib.py", "implicit/utils.py"],
  ["fit / similar_items / recommend of the wrappers", "_filter_items_from_results", "augment_inner_product_matrix"], None,
  ["return values of recommend, similar_items"])
p("C19", "The dataset cache is crash consistent",
  "A get_* dataset function downloads its file if it is not cached and uses the cached file otherwise, and its result is always the complete published dataset. "
  "If a download fails, is truncated, is interrupted or the process is killed at any point, no incomplete file is ever taken for the cached dataset: later calls download again and succeed, also when several processes or threads call it at once.",
  ["crash_points", "histories", "fault_sequences"], "all points at which a download can fail or the process can die, all sequences of calls and failures",
  "Needs faults at chosen points of a download and a later call in a new process.",
  ["implicit/datasets/_download.py", "implicit/datasets/movielens.py", "implicit/datasets/lastfm.py", "implicit/datasets/reddit.py", "implicit/datasets/sketchfab.py", "implicit/datasets/million_song_dataset.py"],
  ["download_file", "get_* isfile check"], ["files in the cache directory"], ["cache directory and return value after faults"])
p("C20", "Training is reproducible from random_state alone",
  "Two models with the same parameters, data and random_state (an int, or equally seeded numpy RandomState or Generator objects) train to the same factors, in ALS for any num_threads, in LMF for equal num_threads, in BPR with num_threads=1, whatever the state of numpy's or Python's global generators and whatever ran before; different seeds give different factors. "
  "Training, splitting and querying do not advance or reseed the global generators.",
  ["inputs", "schedules", "histories"], "all seeds, random_state kinds, models, thread counts, global generator states",
  "Reproducibility is a relation between pairs of runs.",
  ["implicit/utils.py", "implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/evaluation.pyx"],
  ["check_random_state", "per-thread RNG seeds", "factor initialisation"], None, ["factors after fit"])
p("C21", "Equivalent inputs give equal models; invalid inputs are rejected",
  "Fitting the same interactions passed as CSR, CSC, COO or LIL, as float32, float64 or integers, or with entries in another order gives the same model (up to rounding), and the caller's matrix keeps its values. "
  "Calls that read user_items (to filter liked items or recalculate) raise ValueError if recommend's user_items is not CSR or any such matrix has the wrong number of rows; ids in a selection, ids in a factor model's filter list, ids of the matrix outside the model (unless a selection makes them irrelevant), query ids beyond a factor model and negative ids in partial_fit raise IndexError or ValueError; a selection together with a filter list, refitting a factor model with other dimensions and leave_k_out_split with K < 1 or train_only_size outside [0, 1) raise ValueError; a fit that leaves NaN in the factors raises ModelFitError. No other rejected call changes the model, and valid calls are never rejected.",
  ["inputs", "histories"], "all matrix formats and types, all invalid shapes, ids and argument combinations",
  "Conversions and validations are needed on every entry point; a missing one reads out of bounds silently.",
  ["implicit/utils.py", "implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/cpu/matrix_factorization_base.py", "implicit/nearest_neighbours.py", "implicit/evaluation.pyx"],
  ["check_csr", "shape and range checks", "_check_fit_errors"], None, ["factors after fit, exceptions raised"])

p("C22", "Every entry point makes the model it documents",
  "The factory functions implicit.als / bpr / lmf (with use_gpu=False), the approximate_als factories and the model classes hold exactly the parameters given, by position in the documented order or by name, and the documented defaults for the others; models made through different entry points with the same parameters train to the same factors, with factors (plus bias columns) in the floating point type given by dtype and one callback per iteration. "
  "The deprecated calls are the recommend calls they stand for: rank_items(user, user_items, selected) ranks all selected items without filtering liked ones, and recommend_all(user_items, ..., users_items_offset=k) returns for each row r the items recommended to user k + r.",
  ["inputs"], "all entry points, all ways of passing parameters, all selections, offsets and filters",
  "A parameter that is dropped, swapped or given another default on one of a dozen entry points only shows with that parameter on that entry point.",
  ["implicit/als.py", "implicit/bpr.py", "implicit/lmf.py", "implicit/approximate_als.py", "implicit/nearest_neighbours.py", "implicit/recommender_base.py", "implicit/cpu/matrix_factorization_base.py"],
  ["factory functions", "constructors", "rank_items", "recommend_all"], None, ["attributes and factors of the models made, return values"])

with open("/verif/properties.jsonl", "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        fh.write(json.dumps(x) + "\n")
