"""Item-item models."""
import numpy as np
from scipy.sparse import csr_matrix

KNN = ["item", "cosine", "tfidf", "bm25"]


def knn_class(kind):
    from implicit import nearest_neighbours as nn
    return {"item": nn.ItemItemRecommender, "cosine": nn.CosineRecommender,
            "tfidf": nn.TFIDFRecommender, "bm25": nn.BM25Recommender}[kind]


def new_knn(kind, K, num_threads=0, **kw):
    return knn_class(kind)(K=K, num_threads=num_threads, **kw)


def dense(D, dtype="float64"):
    return csr_matrix(np.array(D, dtype=dtype))


def places(n, size, seed):
    """n increasing ids below size, the last one included"""
    if not size:
        return list(range(n))
    rs = np.random.RandomState(seed)
    return sorted(int(x) for x in rs.choice(size - 1, n - 1, replace=False)) + [size - 1]


def spread(D, users, items, dtype="float64"):
    """the interactions, at other (increasing) user and item ids"""
    rows = [(users[a], items[b], v) for a, r in enumerate(D) for b, v in enumerate(r) if v]
    return csr_matrix((np.array([r[2] for r in rows], dtype=dtype), ([r[0] for r in rows], [r[1] for r in rows])),
                      shape=(users[-1] + 1, items[-1] + 1))


def gen_counts(rng, users, items, p=0.4, hi=5, values=None):
    return [[(rng.choice(values) if values else rng.randint(1, hi)) if rng.random() < p else 0
             for _ in range(items)] for _ in range(users)]
