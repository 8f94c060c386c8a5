[
dict(id="S01", prop="C01",
  edits=[("implicit/cpu/select.h", "    std::sort_heap(results.begin(), results.end(), heap_order);\n",
  "    // the heap is already ordered closely enough for long result lists\n    if (k <= 64)\n      std::sort_heap(results.begin(), results.end(), heap_order);\n")],
  needs="N above 64", breaks="results of recommend are not in decreasing score order for large N",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=4, use_gpu=False)
rs = np.random.RandomState(1)
m.user_factors = rs.randn(3, 4).astype("float32")
m.item_factors = rs.randn(500, 4).astype("float32")
ids, scores = m.recommend(1, csr_matrix((1, 500), dtype="float32"), N=100)
assert (np.diff(scores) <= 0).all()
'''),
dict(id="S02", prop="C02",
  edits=[("implicit/cpu/matrix_factorization_base.py", "            self._item_norms[self._item_norms == 0] = 1e-10\n",
  "            self._item_norms[self._item_norms < 1e-2] = 1e-2\n")],
  needs="an item whose factors have a small norm", breaks="cosine of items with small factors is wrong",
  demo='''
import numpy as np
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False)
m.user_factors = np.eye(2, dtype="float32")
m.item_factors = np.array([[1, 0], [1, 1], [0.001, 0]], dtype="float32")
ids, scores = m.similar_items(0, N=3)
s = dict(zip(ids.tolist(), scores.tolist()))
assert abs(s[2] - 1) < 1e-3, s
'''),
dict(id="S03", prop="C03",
  edits=[("implicit/cpu/topk.pyx", "        for i, idx in enumerate(range(startidx, endidx)):\n            batch_distances[i, filter_query_items[idx].indices] = neginf\n",
  "        for i in range(endidx - startidx):\n            batch_distances[i, filter_query_items[i].indices] = neginf\n")],
  needs="a batch of more than 100 users with different liked items", breaks="users after the first 100 of a batch are filtered by the likes of other users",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
import implicit.als
m = implicit.als.AlternatingLeastSquares(factors=2, use_gpu=False)
m.user_factors = np.ones((150, 2), dtype="float32")
m.item_factors = np.array([[1, 0], [2, 1], [3, 0], [4, 4]], dtype="float32")
d = np.zeros((150, 4), dtype="float32")
d[:100, 0] = 1
d[100:, 3] = 1
ids, scores = m.recommend(np.arange(150), csr_matrix(d), N=1)
assert (ids[:100, 0] == 3).all() and (ids[100:, 0] == 1).all(), ids
'''),
]
