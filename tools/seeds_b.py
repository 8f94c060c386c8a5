[
dict(id="S01", prop="C01",
  edits=[("implicit/cpu/select.h", "    std::sort_heap(results.begin(), results.end(), heap_order);\n",
  "    // the heap is already ordered closely enough for long result lists\n    if (k <= 64)\n      std::sort_heap(results.begin(), results.end(), heap_order);\n")],
  needs="N above 64", breaks="results of recommend are not in decreasing score order for large N",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=4, use_gpu=False)
rs = np.random.RandomState(1)
m.user_factors = rs.randn(3, 4).astype("float32")
m.item_factors = rs.randn(500, 4).astype("float32")
ids, scores = m.recommend(1, csr_matrix((1, 500), dtype="float32"), N=100)
assert (np.diff(scores) <= 0).all()
'''),
dict(id="S01b", prop="C01",
  edits=[("implicit/cpu/select.h", "      T score = batch[row * cols + col];\n", "      float score = batch[row * cols + col];\n")],
  needs="float64 factors with scores that differ by less than float32 precision",
  breaks="scores of float64 models are rounded to float32, and items whose scores differ by less are misordered",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=1, use_gpu=False, dtype="float64")
m.user_factors = np.ones((1, 1))
m.item_factors = np.array([[1.0], [1 + 3e-9], [1 + 1e-9], [1 + 2e-9]])
ids, scores = m.recommend(0, csr_matrix((1, 4), dtype="float32"), N=2)
assert ids.tolist() == [1, 3], ids
'''),
dict(id="S02", prop="C02",
  edits=[("implicit/cpu/topk.pyx", '''        with gil:
            _topk_batch(items, query, k, startidx, endidx, indices, distances, item_norms=item_norms, filter_query_items=filter_query_items, filter_items=filter_items)
''', '''        with gil:
            _topk_batch(items, query, k, startidx, endidx, indices, distances, filter_query_items=filter_query_items, filter_items=filter_items)
''')],
  needs="a similar_items or similar_users call for more than 100 ids", breaks="large batches rank by inner product instead of cosine",
  demo='''
import numpy as np
import implicit.als
rs = np.random.RandomState(0)
m = implicit.als.AlternatingLeastSquares(factors=3, use_gpu=False)
m.user_factors = rs.randn(150, 3).astype("float32")
m.item_factors = rs.randn(150, 3).astype("float32")
ids, scores = m.similar_items(np.arange(150), N=3)
assert (ids[:, 0] == np.arange(150)).all() and np.allclose(scores[:, 0], 1, atol=1e-4)
'''),
dict(id="S02b", prop="C02",
  edits=[("implicit/cpu/matrix_factorization_base.py", "            scores /= norm[:, None]\n", "            # guard against overflow for tiny vectors\n            scores /= np.maximum(norm[:, None], 1e-4)\n")],
  needs="a batch query for a vector with a norm below 1e-4", breaks="the similarities of users or items with small factors are wrong in batch queries",
  demo='''
import numpy as np
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False)
m.user_factors = np.array([[1e-5, 0], [1, 0], [1, 1]], dtype="float32")
m.item_factors = np.eye(2, dtype="float32")
ids, scores = m.similar_users([0, 1], N=1)
assert np.allclose(scores, 1, atol=1e-4), scores
'''),
dict(id="S03", prop="C03",
  edits=[("implicit/cpu/topk.pyx", "        for i, idx in enumerate(range(startidx, endidx)):\n            batch_distances[i, filter_query_items[idx].indices] = neginf\n",
  "        for i in range(endidx - startidx):\n            batch_distances[i, filter_query_items[i].indices] = neginf\n")],
  needs="a batch of more than 100 users with different liked items", breaks="users after the first 100 of a batch are filtered by the likes of other users",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False)
m.user_factors = np.ones((150, 2), dtype="float32")
m.item_factors = np.array([[1, 0], [2, 1], [3, 0], [4, 4]], dtype="float32")
d = np.zeros((150, 4), dtype="float32")
d[:100, 0] = 1
d[100:, 3] = 1
ids, scores = m.recommend(np.arange(150), csr_matrix(d), N=1)
assert (ids[:100, 0] == 3).all() and (ids[100:, 0] == 1).all(), ids
'''),
dict(id="S03b", prop="C03",
  edits=[("implicit/cpu/topk.pyx", "    if filter_items is not None:\n        batch_distances[:, filter_items] = neginf\n",
  "    # nothing would be left to return if all the items are filtered\n    if filter_items is not None and len(filter_items) < batch_distances.shape[1]:\n        batch_distances[:, filter_items] = neginf\n")],
  needs="a filter list as long as the catalogue (because of repeated ids)", breaks="long filter lists are ignored",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=1, use_gpu=False)
m.user_factors = np.ones((1, 1), dtype="float32")
m.item_factors = np.array([[3], [2], [1]], dtype="float32")
ids, scores = m.recommend(0, csr_matrix((1, 3), dtype="float32"), N=1, filter_items=[0, 0, 0, 0])
assert ids.tolist() == [1], ids
'''),
dict(id="S03c", prop="C03",
  edits=[("implicit/cpu/matrix_factorization_base.py", "            scores /= norm\n        else:\n", "            scores = np.clip(scores / norm, -1.0, 1.0)\n        else:\n")],
  needs="more results asked for than there are eligible ids", breaks="filtered ids are returned with an ordinary score",
  demo='''
import numpy as np
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=1, use_gpu=False)
m.user_factors = np.ones((3, 1), dtype="float32")
m.item_factors = np.array([[3], [2], [1]], dtype="float32")
ids, scores = m.similar_items(0, N=3, filter_items=[1])
assert scores[ids == 1] < -1e10, (ids, scores)
'''),
dict(id="S04", prop="C04",
  edits=[("implicit/cpu/topk.pyx", "    if query_rows % batch_size:\n        batches += 1\n", "    if query_rows % batch_size > 1 or not batches:\n        batches += 1\n")],
  needs="a batch of 101, 201, ... ids", breaks="the last id of such a batch gets a row of zeros",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
rs = np.random.RandomState(0)
m = implicit.als.AlternatingLeastSquares(factors=3, use_gpu=False)
m.user_factors = rs.randn(201, 3).astype("float32")
m.item_factors = rs.randn(7, 3).astype("float32")
E = csr_matrix((201, 7), dtype="float32")
ids, scores = m.recommend(np.arange(201), E, N=3)
a, b = m.recommend(200, E[200], N=3)
assert (ids[200] == a).all()
'''),
dict(id="S04b", prop="C04",
  edits=[("implicit/utils.py", '''    for i, idx in enumerate(ids):
        current_kwargs = kwargs
''', '''    seen = {}
    for i, idx in enumerate(np.asarray(ids).tolist()):
        # the same id gives the same results again
        if idx in seen:
            output_ids[i], output_scores[i] = output_ids[seen[idx]], output_scores[seen[idx]]
            continue
        seen[idx] = i
        current_kwargs = kwargs
''')],
  needs="a batch with a repeated user id and different rows of user_items for it", breaks="the later rows get the answer of the first one",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.nearest_neighbours import ItemItemRecommender
m = ItemItemRecommender(K=5)
m.fit(csr_matrix(np.array([[1, 1, 0, 0], [0, 0, 1, 1]], dtype="float64")), show_progress=False)
ids, scores = m.recommend([0, 0], csr_matrix(np.array([[1, 0, 0, 0], [0, 0, 1, 0]], dtype="float64")), N=1)
assert ids.tolist() == [[1], [3]], ids
'''),
dict(id="S05", prop="C05",
  edits=[("implicit/cpu/matrix_factorization_base.py", "    filter_query_items = query_items.tocoo()\n", "    filter_query_items = query_items.tocoo(copy=False)\n")],
  needs="recommend with an items selection, and the caller using user_items again", breaks="the caller's user_items values are overwritten with zeros",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=1, use_gpu=False)
m.user_factors = np.ones((1, 1), dtype="float32")
m.item_factors = np.array([[3], [2], [1]], dtype="float32")
u = csr_matrix(np.array([[1, 1, 0]], dtype="float32"))
m.recommend(0, u, N=1, items=[1, 2])
assert u.data.tolist() == [1, 1], u.data
'''),
dict(id="S05b", prop="C05",
  edits=[("implicit/_nearest_neighbours.pyx", "            with self.lock:\n", "            with (self.lock if remove_own_likes else contextlib.nullcontext()):\n"),
         ("implicit/_nearest_neighbours.pyx", "import threading\n", "import contextlib\nimport threading\n")],
  needs="concurrent recommend calls with filter_already_liked_items=False on one item-item model", breaks="the answers of the threads mix (or the process crashes)",
  demo='''
import threading
import numpy as np
from scipy.sparse import csr_matrix, random
from implicit.nearest_neighbours import ItemItemRecommender
m = ItemItemRecommender(K=500)
A = random(300, 500, 0.2, format="csr", random_state=1)
m.fit(A, show_progress=False)
want = [m.recommend(u, A[u], N=20, filter_already_liked_items=False)[1] for u in range(8)]
bad = []
def work(u):
    for _ in range(300):
        s = m.recommend(u, A[u], N=20, filter_already_liked_items=False)[1]
        if s.shape != want[u].shape or not np.allclose(s, want[u]):
            bad.append(u)
ts = [threading.Thread(target=work, args=(u,)) for u in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
'''),
dict(id="S06", prop="C06",
  edits=[("implicit/nearest_neighbours.py", "        self.scorer = NearestNeighboursScorer(self.similarity)\n\n    def recommend(",
   "        if self.scorer is None or self.scorer.shape != self.similarity.shape:\n            self.scorer = NearestNeighboursScorer(self.similarity)\n\n    def recommend("),
   ("implicit/_nearest_neighbours.pyx", "    cdef object lock\n", "    cdef object lock\n    cdef public object shape\n"),
   ("implicit/_nearest_neighbours.pyx", "        self.lock = threading.RLock()\n", "        self.lock = threading.RLock()  # guards neighbours\n        self.shape = similarity.shape\n")],
  needs="refitting an item-item model with a matrix with as many items", breaks="recommend keeps using the similarities of the first fit",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.nearest_neighbours import CosineRecommender
m = CosineRecommender(K=3)
A = csr_matrix(np.array([[1, 1, 0], [0, 1, 1]], dtype="float64"))
B = csr_matrix(np.array([[1, 0, 1], [0, 1, 0]], dtype="float64"))
m.fit(A, show_progress=False)
m.fit(B, show_progress=False)
ids, _ = m.recommend(0, csr_matrix(np.array([[1, 0, 0]], dtype="float64")), N=1)
assert ids.tolist() == [2], ids
'''),
dict(id="S06b", prop="C06",
  edits=[("implicit/cpu/als.py", '''        # clear any cached properties that are invalidated by this update
        self._item_norms = None
        self._YtY = None
''', '''        # clear any cached properties that are invalidated by this update
        self._item_norms = None
        if max_itemid >= items:
            self._YtY = None
''')],
  needs="recalculate_user, then partial_fit_items of an existing item, then recalculate_user", breaks="users are recalculated with the gram matrix of the old item factors",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
rs = np.random.RandomState(0)
m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False, dtype="float64")
m.user_factors = rs.randn(4, 2)
m.item_factors = rs.randn(3, 2)
u = csr_matrix(np.array([[1, 0, 2]], dtype="float32"))
m.recalculate_user(0, u)
m.partial_fit_items([1], csr_matrix(np.array([[5, 0, 3, 0]], dtype="float32")))
f = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False, dtype="float64")
f.user_factors, f.item_factors = m.user_factors, m.item_factors
assert np.allclose(m.recalculate_user(0, u), f.recalculate_user(0, u))
'''),
dict(id="S07", prop="C07",
  edits=[("implicit/cpu/als.py", "        if self.alpha != 1.0:\n            item_users =", "        if self.alpha > 1.0:\n            item_users =")],
  needs="alpha below 1", breaks="recalculate_item and partial_fit_items ignore alpha",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=1, use_gpu=False, dtype="float64", alpha=0.5, regularization=0)
m.user_factors = np.array([[1.0], [2.0]])
m.item_factors = np.array([[1.0]])
x = m.recalculate_item(0, csr_matrix(np.array([[2, 0]], dtype="float32")))
assert abs(x[0] - 1 / (1 + 4)) < 1e-6, x
'''),
dict(id="S07b", prop="C07",
  edits=[("implicit/cpu/_als.pyx", "                    for j in range(factors):\n                        temp = (confidence - 1) * Y[i, j]\n", "                    for j in range(factors if confidence > 1 else 0):\n                        temp = (confidence - 1) * Y[i, j]\n")],
  needs="an entry with a confidence below 1", breaks="such entries are weighted as if their confidence were 1",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=1, use_gpu=False, dtype="float64", regularization=0)
m.user_factors = np.array([[1.0]])
m.item_factors = np.array([[1.0], [2.0]])
x = m.recalculate_user(0, csr_matrix(np.array([[0.5, 0]], dtype="float32")))
assert abs(x[0] - 0.5 / (0.5 + 4)) < 1e-6, x
'''),
dict(id="S08", prop="C08",
  edits=[("implicit/cpu/_als.pyx", '''                    else:
                        temp = 0
                        confidence = -1 * confidence

                    temp = temp + (confidence - 1) * dot(''', '''                    else:
                        temp = 0

                    temp = temp + (confidence - 1) * dot(''')],
  needs="negative entries and calculate_training_loss", breaks="the loss reported to callbacks is wrong",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.cpu._als import calculate_loss
C = csr_matrix(np.array([[2, -3], [0, 1]], dtype="float32"))
X = np.array([[0.5], [1.0]])
Y = np.array([[1.0], [2.0]])
want = 2 * .25 + 3 * 1 + 1 * 1 + 1 * 1
got = calculate_loss(C, X, Y, 0.0) * (2 + 3 + 1 + 1)
assert abs(got - want) < 1e-6, (got, want)
'''),
dict(id="S08b", prop="C08",
  edits=[("implicit/cpu/als.py", "                r += -(confidence - 1) * Y[i].dot(x) * Y[i]\n", "                r -= confidence * Y[i].dot(x) * Y[i]\n")],
  needs="use_native=False, use_cg=True and negative entries", breaks="the pure Python solver gives other factors than the native one",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
C = csr_matrix(np.array([[2, -3, 0], [0, 1, -1]], dtype="float32"))
out = []
for native in (True, False):
    m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False, dtype="float64", use_native=native, random_state=3, iterations=4)
    m.fit(C, show_progress=False)
    out.append(m.user_factors)
assert np.allclose(*out, atol=1e-5)
'''),
dict(id="S09", prop="C09",
  edits=[("implicit/cpu/als.py", "        if max_itemid >= items:\n", "        if itemids[-1] >= items:\n")],
  needs="partial_fit_items with new ids that are not in increasing order", breaks="the model fails to grow (IndexError)",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=1, use_gpu=False)
m.user_factors = np.array([[1.0]], dtype="float32")
m.item_factors = np.array([[1.0], [2.0]], dtype="float32")
m.partial_fit_items([3, 0], csr_matrix(np.array([[1], [2]], dtype="float32")))
assert m.item_factors.shape == (4, 1)
'''),
dict(id="S09b", prop="C09",
  edits=[("implicit/cpu/als.py", "                [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]\n",
  "                [\n                    self.user_factors,\n                    # start from the average user\n                    np.tile(self.user_factors.mean(axis=0), (max_userid - users + 1, 1)),\n                ]\n")],
  needs="partial_fit_users with a user id that leaves a gap", breaks="the users in the gap get non zero factors",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=1, use_gpu=False)
m.item_factors = np.array([[1.0]], dtype="float32")
m.user_factors = np.array([[1.0], [2.0]], dtype="float32")
m.partial_fit_users([4], csr_matrix(np.array([[1]], dtype="float32")))
assert not m.user_factors[2:4].any(), m.user_factors
'''),
dict(id="S10", prop="C10",
  edits=[("implicit/cpu/als.py", "            contribution = (score, other_itemid)\n", "            contribution = (abs(score), other_itemid)\n"),
         ("implicit/cpu/als.py", "        top_contributions = list((i, s) for s, i in items)[::-1]\n", "        top_contributions = [(i, s) for s, i in items][::-1]\n")],
  needs="a liked item with a negative contribution", breaks="explain reports negative contributions as positive ones",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False, dtype="float64")
m.user_factors = np.ones((1, 2))
m.item_factors = np.array([[1.0, 0], [-1.0, 0.5], [0.3, 1]])
total, top, _ = m.explain(0, csr_matrix(np.array([[1, 2, 0]], dtype="float32")), 0)
assert abs(total - sum(s for _, s in top)) < 1e-6, (total, top)
'''),
dict(id="S10b", prop="C10",
  edits=[("implicit/cpu/als.py", "            if h_len < N:\n", "            if h_len < min(N, 10):\n")],
  needs="N above 10 and a user with more than 10 liked items", breaks="explain returns only 10 contributions",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
rs = np.random.RandomState(0)
m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False, dtype="float64")
m.user_factors = np.ones((1, 2))
m.item_factors = rs.randn(15, 2)
total, top, _ = m.explain(0, csr_matrix(np.ones((1, 15), dtype="float32")), 0, N=15)
assert len(top) == 15, top
'''),
dict(id="S11", prop="C11",
  edits=[("implicit/nearest_neighbours.py", '''    # calculate IDF
    N = float(X.shape[0])
    idf = log(N) - log1p(bincount(X.col))

    # apply''', '''    # calculate IDF
    N = float(X.shape[0])
    idf = np.maximum(log(N) - log1p(bincount(X.col)), 0)

    # apply''')],
  needs="a user with interactions with every item", breaks="the tf-idf weights of such users are 0 instead of negative",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.nearest_neighbours import tfidf_weight
X = csr_matrix(np.array([[1, 1], [1, 0]], dtype="float64"))
W = tfidf_weight(X).toarray()
assert np.allclose(W, [[np.log(2) - np.log(3), 0], [np.log(2) - np.log(3), 0]]), W
'''),
dict(id="S11b", prop="C11",
  edits=[("implicit/nearest_neighbours.py", "    average_length = row_sums.mean()\n", "    average_length = row_sums[row_sums > 0].mean()\n")],
  needs="an item without interactions", breaks="BM25 weights use another average length",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.nearest_neighbours import bm25_weight
X = csr_matrix(np.array([[1.0, 2, 0], [1, 0, 0], [0, 0, 0]]))
W = bm25_weight(X, 1.2, 0.75).toarray()
want = 2.2 * 1 / (1.2 * (0.25 + 0.75 * 3 / (4 / 3)) + 1) * (np.log(3) - np.log(3))
w2 = 2.2 * 2 / (1.2 * (0.25 + 0.75 * 3 / (4 / 3)) + 2) * (np.log(3) - np.log(2))
assert abs(W[0, 1] - w2) < 1e-9, (W, w2)
'''),
dict(id="S11c", prop="C11",
  edits=[("implicit/nearest_neighbours.h", "    if ((results.size() < K) || (score > results[0].first)) {\n", "    if ((results.size() < K && score > 0) || (results.size() >= K && score > results[0].first)) {\n")],
  needs="negative weights or items whose idf is not positive", breaks="neighbours with a negative weighted overlap are dropped",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.nearest_neighbours import ItemItemRecommender
m = ItemItemRecommender(K=3)
m.fit(csr_matrix(np.array([[1, -2, 0], [0, 1, 1]], dtype="float64")), show_progress=False)
assert m.similarity[0, 1] == -2, m.similarity.toarray()
'''),
dict(id="S12", prop="C12",
  edits=[("implicit/_nearest_neighbours.pyx", "                        weight = user_data[index1]\n", "                        weight = user_data[index1] if user_data[index1] > 0 else 0\n")],
  needs="a user with a negative rating", breaks="disliked items no longer lower the score of their neighbours",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.nearest_neighbours import ItemItemRecommender
m = ItemItemRecommender(K=3)
m.fit(csr_matrix(np.array([[1, 1, 1], [0, 1, 1]], dtype="float64")), show_progress=False)
ids, scores = m.recommend(0, csr_matrix(np.array([[1, -1, 0]], dtype="float64")), N=1)
assert scores.tolist() == [-1], scores
'''),
dict(id="S12b", prop="C12",
  edits=[("implicit/nearest_neighbours.py", "            mask = np.in1d(ids, filter_items, invert=True)\n            ids, scores = ids[mask], scores[mask]\n",
   "            keep = ~np.isin(ids[:N], filter_items)\n            ids, scores = ids[:N][keep], scores[:N][keep]\n")],
  needs="similar_items with filter_items and more stored neighbours than N", breaks="too few or the wrong neighbours are returned",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.nearest_neighbours import ItemItemRecommender
m = ItemItemRecommender(K=4)
m.fit(csr_matrix(np.array([[1, 1, 2, 3]], dtype="float64")), show_progress=False)
ids, scores = m.similar_items(0, N=2, filter_items=[0])
assert ids.tolist() == [3, 2], ids
'''),
dict(id="S12c", prop="C12",
  edits=[("implicit/nearest_neighbours.h", "      f(index, sums[index]);\n", "      if (sums[index] != 0)\n        f(index, sums[index]);\n")],
  needs="scores that cancel out to exactly zero", breaks="items with score 0 are missing from the results",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.nearest_neighbours import ItemItemRecommender
m = ItemItemRecommender(K=3)
m.fit(csr_matrix(np.array([[1, 1, 1]], dtype="float64")), show_progress=False)
ids, scores = m.recommend(0, csr_matrix(np.array([[1, -1, 0]], dtype="float64")), N=1)
assert ids.tolist() == [2] and scores.tolist() == [0], (ids, scores)
'''),
dict(id="S13", prop="C13",
  edits=[("implicit/evaluation.pyx", "    size = max(1, int(n * frac))\n", "    size = max(1, int(round(n * frac)))\n")],
  needs="train_only_size times the number of users with a fraction above one half", breaks="one more user than documented stays entirely in train",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.evaluation import leave_k_out_split
train, test = leave_k_out_split(csr_matrix(np.ones((4, 6))), K=1, train_only_size=0.45, random_state=1)
assert np.count_nonzero(np.ediff1d(test.indptr)) == 3
'''),
dict(id="S13b", prop="C13",
  edits=[("implicit/evaluation.pyx", "    candidate_mask = counts > K + 1\n", "    candidate_mask = counts > max(K + 1, 2 * K - 1)\n")],
  needs="K of at least 3 and a user with between K+2 and 2K-1 interactions", breaks="eligible users are left out of the test set",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.evaluation import leave_k_out_split
train, test = leave_k_out_split(csr_matrix(np.ones((4, 6))), K=4, random_state=1)
assert test.nnz == 16, test.nnz
'''),
dict(id="S14", prop="C14",
  edits=[("implicit/evaluation.pyx", "                idcg = cg_sum[min(K, likes.size()) - 1]\n", "                idcg = cg_sum[min(min(K, ids.shape[1]), likes.size()) - 1]\n")],
  needs="K above the number of items the model can return and a user with many test items", breaks="ndcg is too high",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.evaluation import ranking_metrics_at_k
class M:
    def recommend(self, users, user_items, N=10):
        return np.array([[0, 1]] * len(users), dtype="int32"), None
test = csr_matrix(np.array([[1, 1, 1, 0]]))
r = ranking_metrics_at_k(M(), csr_matrix((1, 4)), test, K=4, show_progress=False)
d = 1 / np.log2(np.arange(2, 6))
assert abs(r["ndcg"] - d[:2].sum() / d[:3].sum()) < 1e-9, r
'''),
dict(id="S14b", prop="C14",
  edits=[("implicit/evaluation.pyx", "    to_generate = to_generate[np.ediff1d(test_user_items.indptr) > 0]\n",
   "    to_generate = to_generate[(np.ediff1d(test_user_items.indptr) > 0) &\n                              (np.ediff1d(train_user_items.indptr) > 0)]\n")],
  needs="a test user without train items", breaks="such users are left out of the metrics",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.evaluation import ranking_metrics_at_k
class M:
    def recommend(self, users, user_items, N=10):
        return np.array([[1, 2]] * len(users), dtype="int32"), None
test = csr_matrix(np.array([[0, 1, 0, 0], [0, 0, 0, 1]]))
train = csr_matrix(np.array([[1, 0, 0, 0], [0, 0, 0, 0]]))
r = ranking_metrics_at_k(M(), train, test, K=2, show_progress=False)
assert r["precision"] == 0.5, r
'''),
dict(id="S15", prop="C15",
  edits=[("implicit/cpu/als.py", "        args = {k: v for k, v in args.items() if v is not None}\n", "        args = {k: v for k, v in args.items() if v is not None and v is not False}\n")],
  needs="a model with use_cg or use_native off", breaks="the loaded model has the option on again",
  demo='''
import tempfile, os
import numpy as np
import implicit.als, implicit.cpu.als
m = implicit.als.AlternatingLeastSquares(factors=1, use_gpu=False, use_cg=False)
with tempfile.TemporaryDirectory() as d:
    m.save(os.path.join(d, "m"))
    assert implicit.cpu.als.AlternatingLeastSquares.load(os.path.join(d, "m")).use_cg is False
'''),
dict(id="S15b", prop="C15",
  edits=[("implicit/cpu/bpr.pyx", "            dtype=self.dtype.name,\n            random_state=self.random_state\n        )\n",
   "            dtype=self.dtype.name,\n            random_state=self.random_state or None\n        )\n")],
  needs="random_state=0", breaks="the seed 0 is lost by save/load",
  demo='''
import tempfile, os
import numpy as np
from implicit.cpu.bpr import BayesianPersonalizedRanking as B
m = B(factors=1, random_state=0)
with tempfile.TemporaryDirectory() as d:
    m.save(os.path.join(d, "m"))
    assert B.load(os.path.join(d, "m")).random_state == 0
'''),
dict(id="S16", prop="C16",
  edits=[("implicit/cpu/bpr.pyx", "                liked[j] += learning_rate * (z * temp - reg * liked[j])\n", "                liked[j] += learning_rate * (z * user[j] - reg * liked[j])\n")],
  needs="a learning rate large enough to see the second order difference", breaks="the liked item is updated with the new user factors instead of the old ones",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.cpu.bpr import BayesianPersonalizedRanking as B
# without regularization what one item gains the other one loses
m = B(factors=2, learning_rate=0.5, regularization=0, iterations=3, num_threads=1, random_state=1)
m.user_factors = np.array([[1, 2, 1], [-1, 1, 1]], dtype="float32")
m.item_factors = np.array([[1, 0, 0], [2, -1, 0]], dtype="float32")
m.fit(csr_matrix(np.eye(2, dtype="float32")), show_progress=False)
assert np.allclose(m.item_factors.sum(axis=0), [3, -1, 0], atol=1e-4), m.item_factors
'''),
dict(id="S16b", prop="C16",
  edits=[("implicit/cpu/bpr.pyx", "        cdef RNGVector rng = RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)\n", "        cdef RNGVector rng = RNGVector(num_threads, max(len(user_items.data) - 2, 0), rng_seeds)\n")],
  needs="looking at the last interaction of the matrix", breaks="the last interaction is never sampled",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.cpu.bpr import BayesianPersonalizedRanking as B
m = B(factors=2, iterations=0, num_threads=1, random_state=1, learning_rate=0.1)
A = csr_matrix(np.eye(3, dtype="float32"))
m.fit(A, show_progress=False)
x = m.user_factors.copy()
m.iterations = 100
m.fit(A, show_progress=False)
assert (m.user_factors[:, :2] != x[:, :2]).any(axis=1).all()
'''),
dict(id="S17", prop="C17",
  edits=[("implicit/cpu/lmf.pyx", "        cdef RNGVector rng = RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)\n", "        cdef RNGVector rng = RNGVector(num_threads, min(len(user_items.data), items) - 1, rng_seeds)\n")],
  needs="more interactions than items", breaks="negatives are only drawn from the first interactions",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.cpu.lmf import LogisticMatrixFactorization as L
A = np.zeros((6, 3), dtype="float32")
A[:3, 0] = 1
A[3:, 1:] = 1
hit = False
for s in range(40):
    m = L(factors=3, iterations=1, num_threads=1, random_state=s, regularization=0, neg_prop=3)
    m.user_factors = np.zeros((6, 5), dtype="float32")
    m.item_factors = np.eye(3, 5, dtype="float32")
    m.fit(csr_matrix(A), show_progress=False)
    hit |= (m.user_factors[:3, 1:3] < 0).any()
assert hit
'''),
dict(id="S17b", prop="C17",
  edits=[("implicit/cpu/lmf.pyx", '''                if indptr[u] == indptr[u + 1]:
                    continue
                user_seen_item''', '''                user_seen_item''')],
  needs="a row without interactions that has non zero factors (e.g. a user who left between two fits)", breaks="rows without interactions are shrunk by the regularization",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.cpu.lmf import LogisticMatrixFactorization as L
m = L(factors=1, iterations=2, num_threads=1, random_state=1)
m.user_factors = np.ones((3, 3), dtype="float32")
m.item_factors = np.ones((2, 3), dtype="float32")
m.fit(csr_matrix(np.array([[1, 0], [0, 1], [0, 0]], dtype="float32")), show_progress=False)
assert (m.user_factors[2] == 1).all(), m.user_factors
'''),
dict(id="S18", prop="C18",
  edits=[("implicit/ann/annoy.py", "            count += len(user_likes)\n", "            count += min(len(user_likes), 100)\n")],
  needs="a user with more than 100 liked items at the top of the ranking", breaks="too few items are recommended",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
from implicit.ann.annoy import AnnoyModel
A = np.zeros((40, 300), dtype="float32")
A[:20, :150] = 1
A[20:, 150:] = 1
A[0, 149] = 0
A = csr_matrix(A)
m = AnnoyModel(implicit.als.AlternatingLeastSquares(factors=4, use_gpu=False, random_state=1))
m.fit(A, show_progress=False)
ids, scores = m.recommend(0, A[0], N=1)
assert ids.tolist() == [149], ids
'''),
dict(id="S18b", prop="C18",
  edits=[("implicit/ann/nmslib.py", "        if self.approximate_recommend:\n            log.debug(", "        if self.approximate_recommend and self.recommend_index is None:\n            log.debug(")],
  needs="fitting the ANN model a second time", breaks="recommend keeps answering from the index of the first fit",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
from implicit.ann.nmslib import NMSLibModel
rs = np.random.RandomState(0)
A = csr_matrix((rs.rand(40, 30) < 0.3).astype("float32"))
B = csr_matrix((rs.rand(40, 30) < 0.3).astype("float32"))
m = NMSLibModel(implicit.als.AlternatingLeastSquares(factors=8, use_gpu=False, random_state=1))
m.fit(A, show_progress=False)
m.fit(B, show_progress=False)
ids, scores = m.recommend(0, B[0], N=5)
want = m.model.item_factors[ids] @ m.model.user_factors[0]
assert np.allclose(scores, want, atol=1e-3), (scores, want)
'''),
dict(id="S19", prop="C19",
  edits=[("implicit/datasets/reddit.py", "    if not os.path.isfile(filename):\n", "    if not os.path.isdir(_download.LOCAL_CACHE_DIR):\n")],
  needs="a cache directory that exists without this dataset", breaks="the dataset is never downloaded",
  demo='''
import os, tempfile
import numpy as np
import h5py
import implicit.datasets._download as d
from implicit.datasets.reddit import get_reddit
def fake(url, filename, reporthook=None):
    with h5py.File(filename, "w") as f:
        g = f.create_group("item_user_ratings")
        g.create_dataset("data", data=np.ones(1, dtype="float32"))
        g.create_dataset("indptr", data=np.array([0, 1]))
        g.create_dataset("indices", data=np.array([0]))
        f.create_dataset("item", data=np.array([b"x"]))
        f.create_dataset("user", data=np.array([b"x"]))
    return filename, {}
d.urlretrieve = fake
with tempfile.TemporaryDirectory() as t:
    d.LOCAL_CACHE_DIR = t
    get_reddit()
'''),
dict(id="S19b", prop="C19",
  edits=[("implicit/datasets/movielens.py", "    if not os.path.isfile(path):\n", "    if not os.path.exists(path) and not os.path.exists(path.replace(\"movielens_10m\", \"movielens_1m\")):\n")],
  needs="get_movielens('10m') after get_movielens('1m')", breaks="the 10m dataset is not downloaded when the 1m one is cached",
  demo='''
import os, tempfile
import implicit.datasets._download as d
from implicit.datasets.movielens import get_movielens
asked = []
class Stop(Exception):
    pass
def fake(url, filename, reporthook=None):
    asked.append(url)
    raise Stop
d.urlretrieve = fake
with tempfile.TemporaryDirectory() as t:
    d.LOCAL_CACHE_DIR = t
    open(os.path.join(t, "movielens_1m.hdf5"), "w").close()
    try:
        get_movielens("10m")
    except Stop:
        pass
assert len(asked) == 1, asked
'''),
dict(id="S20", prop="C20",
  edits=[("implicit/cpu/als.py", "            self.item_factors = random_state.random((items, self.factors), dtype=self.dtype) * 0.01\n",
   "            if self.dtype == np.float32:\n                self.item_factors = (\n                    random_state.random((items, self.factors), dtype=self.dtype) * 0.01\n                )\n            else:\n                self.item_factors = np.random.random_sample((items, self.factors)) * 0.01\n")],
  needs="a float64 model", breaks="the item factors start from numpy's global generator",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
out = []
for g in (1, 2):
    np.random.seed(g)
    m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False, dtype="float64", random_state=1, iterations=1)
    m.fit(csr_matrix(np.eye(3, dtype="float32")), show_progress=False)
    out.append(m.item_factors)
assert np.array_equal(*out)
'''),
dict(id="S20b", prop="C20",
  edits=[("implicit/utils.py", "    return np.random.default_rng(random_state)\n", "    return np.random.default_rng(random_state or None)\n")],
  needs="random_state=0", breaks="seed 0 is not reproducible",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
out = []
for g in (1, 2):
    m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False, random_state=0, iterations=1)
    m.fit(csr_matrix(np.eye(3, dtype="float32")), show_progress=False)
    out.append(m.item_factors)
assert np.array_equal(*out)
'''),
dict(id="S21", prop="C21",
  edits=[("implicit/cpu/matrix_factorization_base.py", "        is_nan |= np.any(np.isnan(self.item_factors), axis=None)\n", "        is_nan &= np.any(np.isnan(self.item_factors), axis=None)\n")],
  needs="NaN in only one of the factor matrices", breaks="a fit that left NaN in the factors does not raise",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.cpu.bpr import BayesianPersonalizedRanking as B
from implicit.recommender_base import ModelFitError
m = B(factors=1, iterations=1, num_threads=1, random_state=1)
m.user_factors = np.array([[1, 1], [np.nan, 1]], dtype="float32")
m.item_factors = np.array([[1, 0], [1, 1]], dtype="float32")
try:
    m.fit(csr_matrix(np.array([[1, 0], [0, 0]], dtype="float32")), show_progress=False)
    ok = False
except ModelFitError:
    ok = True
assert ok
'''),
dict(id="S21b", prop="C21",
  edits=[("implicit/nearest_neighbours.py", "    X.data = X.data * (K1 + 1.0) / (K1 * length_norm[X.row] + X.data) * idf[X.col]\n", '    weights = (K1 + 1.0) / (K1 * length_norm[X.row] + X.data) * idf[X.col]\n    if X.data.dtype == weights.dtype:\n        X.data *= weights\n    else:\n        X.data = X.data * weights\n')],
  needs="fitting on a COO matrix of float64", breaks="the caller's matrix is overwritten with the weights",
  demo='''
import numpy as np
from scipy.sparse import coo_matrix
from implicit.nearest_neighbours import BM25Recommender
A = coo_matrix(np.array([[2.0, 1, 0], [0, 3, 1]]))
m = BM25Recommender(K=3)
m.fit(A, show_progress=False)
assert A.data.tolist() == [2, 1, 3, 1], A.data
'''),
dict(id="S08c", prop="C08",
  edits=[("implicit/cpu/als.py", """        if Cui.dtype != np.float32:
            Cui = Cui.astype(np.float32)

        # Give the positive examples more weight if asked for
        if self.alpha != 1.0:
            Cui = self.alpha * Cui
""", """
        # Give the positive examples more weight if asked for
        if self.alpha != 1.0:
            Cui = self.alpha * Cui

        if Cui.dtype != np.float32:
            Cui = Cui.astype(np.float32)
""")],
  needs="a matrix of a small integer type and an integer alpha", breaks="the confidences overflow, so that the factors solve another problem",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.cpu.als import AlternatingLeastSquares
d = np.array([[100, 5, 0], [0, 60, 30], [7, 0, 90]])
f = []
for t in ("uint8", "float32"):
    m = AlternatingLeastSquares(factors=2, alpha=40, iterations=3, random_state=3, num_threads=1, dtype=np.float64)
    m.fit(csr_matrix(d.astype(t)), show_progress=False)
    f.append(m.user_factors @ m.item_factors.T)
assert np.allclose(*f, atol=1e-3), f
'''),
dict(id="S14c", prop="C14",
  edits=[("implicit/evaluation.pyx", "        ids, _ = model.recommend(batch, train_user_items[batch], N=K)\n", "        ids, _ = model.recommend(batch, train_user_items[start_idx: start_idx + len(batch)], N=K)\n")],
  needs="a user without test items before one with train items", breaks="users are filtered by the train items of other users",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.cpu.als import AlternatingLeastSquares
from implicit.evaluation import ranking_metrics_at_k
m = AlternatingLeastSquares(factors=1)
m.user_factors = np.ones((3, 1), dtype="float32")
m.item_factors = np.array([[3], [2], [1], [0]], dtype="float32")
train = csr_matrix(np.array([[0, 0, 0, 0], [1, 0, 0, 0], [0, 0, 0, 0]], dtype="float32"))
test = csr_matrix(np.array([[0, 0, 0, 0], [0, 1, 0, 0], [1, 0, 0, 0]], dtype="float32"))
assert ranking_metrics_at_k(m, train, test, K=1, show_progress=False)["precision"] == 1
'''),
dict(id="S22", prop="C22",
  edits=[("implicit/als.py", "        calculate_training_loss,\n        num_threads,\n        random_state,\n    )", "        calculate_training_loss,\n        random_state=random_state,\n    )")],
  needs="giving num_threads to the ALS factory", breaks="the number of threads is not passed on",
  demo='''
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=3, use_gpu=False, num_threads=3, random_state=1)
assert m.num_threads == 3 and m.random_state == 1
'''),
dict(id="S22b", prop="C22",
  edits=[("implicit/bpr.py", "        iterations=iterations,\n        verify_negative_samples=verify_negative_samples,\n        random_state=random_state,\n    )\n", "        iterations=iterations,\n        random_state=random_state,\n    )\n")],
  needs="verify_negative_samples=False through the factory", breaks="the parameter is ignored",
  demo='''
import implicit.bpr
m = implicit.bpr.BayesianPersonalizedRanking(factors=3, use_gpu=False, verify_negative_samples=False)
assert not m.verify_negative_samples
'''),
dict(id="S22c", prop="C22",
  edits=[("implicit/approximate_als.py", "        n_trees=n_trees,\n        search_k=search_k,\n", "        n_trees=n_trees,\n")],
  needs="search_k through the Annoy factory", breaks="the parameter is ignored",
  demo='''
from implicit.approximate_als import AnnoyAlternatingLeastSquares
m = AnnoyAlternatingLeastSquares(factors=3, use_gpu=False, search_k=1234)
assert m.search_k == 1234
'''),
]
