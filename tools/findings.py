"""Writes KNOWN_FINDINGS.json: the defects repaired in /repo, and those only recorded."""
import json
import subprocess

PROP = [  # property, start of the commit subject, what failed
    ("C01", "don't pad top-N", "recommend/similar_* with N above the number of candidates padded the answer with item 0, score 0"),
    ("C20", "accept a numpy RandomState", "random_state=RandomState raised AttributeError"),
    ("C13", "make leave_k_out_split honour", "leave_k_out_split drew from numpy's global generator"),
    ("C13", "leave_k_out_split duplicated", "gaps in the candidate user ids put a test entry in twice (value doubled) and lost others"),
    ("C13", "leave_k_out_split train_only_size", "train_only_size compared positions with user ids"),
    ("C06", "norms and gram matrices cached", "a callback querying the model during fit left stale norms / gram matrices"),
    ("C06", "LMF didn't invalidate", "refitting LMF kept the norms of the old factors"),
    ("C15", "saving item-item models lost", "BM25 K1/B and num_threads were lost by save/load"),
    ("C12", "item-item similar_items failed", "similar_items(items=[...]) raised TypeError"),
    ("C12", "item-item recommend returned more than N", "scalar recommend with filter_items or items returned more than N results"),
    ("C12", "item-item recommend returned already liked", "liked items were returned with score 0 when few candidates existed"),
    ("C21", "item-item recommend read out of bounds", "liked items beyond the model read and wrote out of bounds"),
    ("C11", "all_pairs_knn made item 0", "row 0 got an explicit (0,0)=0 entry whenever an item had fewer than K neighbours"),
    ("C18", "annoy similar_items returned too few", "filter_items was applied to N instead of N+len(filter_items) neighbours"),
    ("C18", "faiss recommend failed", "approximate_recommend=False raised AttributeError"),
    ("C18", "faiss similar_items normalized", "similar_items divided the wrapped model's item factors in place"),
    ("C18", "ANN models failed to recommend", "filter_items as ndarray raised ValueError"),
    ("C18", "ANN models never supported", "recalculate_user always raised NotImplementedError"),
    ("C14", "AUC counted padding", "-1 padding counted as misses, AUC below 0"),
    ("C19", "interrupted dataset downloads", "an interrupted or truncated download was used as the cached dataset forever"),
    ("C21", "reject items together", "items with an ndarray filter_items was accepted and misapplied"),
    ("C03", "duplicate ids in the items list", "duplicate ids in items returned duplicates and liked items"),
    ("C21", "refitting a model on a matrix", "fit with a matrix of other dimensions read and wrote out of bounds"),
    ("C08", "ALS training loss counted", "the loss included the confidence of every negative entry"),
    ("C11", "normalize gives NaN", "items whose weights are all zero got NaN similarities"),
    ("C05", "a concurrent query could divide", "a query from another thread could see zero norms and return NaN"),
    ("C21", "recalculating factors from a matrix", "recalculate_* with a mismatched matrix read out of bounds"),
    ("C11", "item-item models couldn't be fit", "ItemItemRecommender.fit and all_pairs_knn raised ValueError on float32 and integer matrices"),
    ("C12", "item-item recommend failed on integer", "recommend with a user_items matrix of integers raised TypeError"),
    ("C18", "filtering batch ANN results", "batch queries of ANN models with filter_items raised ValueError or repeated an item when fewer than N items were left"),
    ("C18", "faiss recommend with approximate_recommend=False padded", "batch answers differed from the wrapped model's when N exceeds the number of items"),
    ("C21", "item-item recommend for one user accepted", "recommend(userid, user_items) used the first row of a matrix with any number of rows"),
    ("C21", "item-item similar_items returned selected", "similar_items(items=...) returned ids outside the model as results"),
    ("C21", "normalize overflowed on small", "CosineRecommender and TFIDFRecommender fitted on int8/uint8 counts had wrong or NaN similarities"),
    ("C17", "LMF limited the negative samples", "the number of negatives per row was capped by the number of factors, not items (documented: neg_prop per interaction)"),
    ("C18", "NMSLibModel ignored its method", "NMSLibModel(method=...) searched the recommend index with hnsw whatever method was given"),
    ("C22", "rank_items returned at most", "rank_items dropped all but the 10 best of the selected items"),
    ("C22", "recommend_all raised for every", "recommend_all(users_items_offset=k) raised ValueError for every k > 0"),
    ("C22", "LogisticMatrixFactorization ignored", "LogisticMatrixFactorization(dtype=float64) trained float32 factors"),
    ("C07", "recalculating factors overflowed", "recalculate_*, partial_fit_* and explain computed alpha * value in the (small) integer type of the matrix"),
    ("C11", "tf-idf weights of small", "TFIDFRecommender fitted on int8/uint8 counts had weights of half precision"),
    ("C12", "item-item models crashed when", "recommend(N=0) and fit with K=0 of item-item models crashed the process"),
    ("C01", "queries for 0 results", "recommend, similar_items and similar_users with N=0 raised IndexError"),
    ("C21", "negative ids in filter_items", "filter_items=[-1] silently removed the last item of the catalogue"),
    ("C21", "partial_fit with a negative id", "partial_fit_users([-1], ...) overwrote the factors of the last user"),
    ("C09", "partial_fit with no ids", "partial_fit_users([], ...) raised ValueError"),
    ("C19", "downloads that start at once", "two first downloads at the same time: the one that came second to create the cache directory raised FileExistsError"),
    ("C19", "concurrent downloads in threads", "threads of one process downloading the same dataset shared a temporary file: FileNotFoundError, or a truncated file in the cache"),
    ("C01", "top-N queries read out of bounds", "ranking 100 users at once against more than 2**31 / 100 items computed 32 bit offsets: the process crashed"),
]
KNOWN = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for prop, start, what in PROP:
    h = [x.split()[0] for x in log.splitlines() if x.split(" ", 1)[1].startswith("fix: " + start)]
    assert len(h) == 1, (start, h)
    fixed.append(f"fixed: property={prop} {h[0]} {what}")
json.dump({"known": KNOWN, "fixed": fixed}, open("/verif/KNOWN_FINDINGS.json", "w"), indent=1)
