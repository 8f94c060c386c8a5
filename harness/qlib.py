"""Models with chosen integer factors, queries on them, and their recording."""
import numpy as np
from scipy.sparse import csr_matrix

from .core import q as quant

MODELS = ["als", "bpr", "lmf"]


def new_model(kind, **kw):
    import implicit.als
    import implicit.bpr
    import implicit.lmf
    if kind == "als":
        return implicit.als.AlternatingLeastSquares(use_gpu=False, **kw)
    if kind == "bpr":
        return implicit.bpr.BayesianPersonalizedRanking(use_gpu=False, **kw)
    return implicit.lmf.LogisticMatrixFactorization(**kw)


def model_with(kind, U, V, dtype="float32", shift=0, num_threads=0, **kw):
    """A model whose factors are the given integers / 2^shift."""
    f = len(V[0])
    m = new_model(kind, factors=max(1, f), num_threads=num_threads, **kw)
    m.user_factors = (np.array(U, dtype=np.float64) / 2.0**shift).astype(dtype)
    m.item_factors = (np.array(V, dtype=np.float64) / 2.0**shift).astype(dtype)
    return m


def csr_rows(rows, cols, data=None, dtype="float32"):
    indptr = np.cumsum([0] + [len(r) for r in rows]).astype(np.int32)
    indices = np.array([j for r in rows for j in r], dtype=np.int32)
    if data is None:
        data = np.ones(len(indices))
    else:
        data = [x for r in data for x in r]
    return csr_matrix((np.array(data, dtype=dtype), indices, indptr), shape=(len(rows), cols))


def attempt(fn, *a, **kw):
    """(status, value): 'ok' or the class name of the exception."""
    try:
        return "ok", fn(*a, **kw)
    except Exception as e:  # noqa
        return type(e).__name__, str(e)[:200]


def as_list(x, form):
    """ids as the argument forms the API accepts"""
    if form == "list":
        return [int(i) for i in x]
    if form == "tuple":
        return tuple(int(i) for i in x)
    if form == "u32":
        return np.array(x, dtype=np.uint32)
    if form == "i16" and max(x, default=0) < 2**15:
        return np.array(x, dtype=np.int16)
    if form == "i64":
        return np.array(x, dtype=np.int64)
    return np.array(x, dtype=np.int32)


# values of the interactions and their types: what counts is that there is an interaction
VALUES = [([1], "float32"), ([1, -1, 3, -0.5], "float32"), ([-2], "float64"), ([1, -4, 700], "int32"),
          ([1e-30, -1e30, 0.25], "float32"), ([5, -5], "int64"), ([1, 255], "uint8"), ([1e-300, 1e300, -7], "float64")]


def run_query(model, case_q, shift, n_items):
    """Perform one query on the model, return the event."""
    e = dict(case_q)
    op, qs, batch, N = e["op"], e["q"], e["batch"], e["N"]
    ids = as_list(qs, "i32" if e.get("form") in ("list", "tuple") else e.get("form", "i64")) if batch else int(qs[0])
    if not batch and e.get("npscalar"):
        ids = np.int32(ids)
    sel = as_list(e["sel"], e.get("form", "i64")) if e["hassel"] else None
    filt = as_list(e["filt"], e.get("form", "i64")) if e["filt"] or e.get("emptyfilt") else None
    if op == "rec":
        val, kind = VALUES[e.get("vals", 0) % len(VALUES)]
        ui = csr_rows(e["liked"], n_items, [[val[(j + k) % len(val)] for k, j in enumerate(r)] for r in e["liked"]], kind)
        kw = dict(N=N, filter_already_liked_items=e["flt"])
        if filt is not None:
            kw["filter_items"] = filt
        if sel is not None:
            kw["items"] = sel
        st, v = attempt(model.recommend, ids, ui, **kw)
        scale = 16.0 * 4.0**shift
    elif op == "simi":
        kw = dict(N=N)
        if filt is not None:
            kw["filter_items"] = filt
        if sel is not None:
            kw["items"] = sel
        if e.get("rows"):
            kw["recalculate_item"] = True
            kw["item_users"] = csr_rows([[a for a, _ in r] for r in e["rows"]], len(model.user_factors),
                                        [[b / 4 for _, b in r] for r in e["rows"]])
        st, v = attempt(model.similar_items, ids, **kw)
        scale = 10000.0
    else:
        kw = dict(N=N)
        if filt is not None:
            kw["filter_users"] = filt
        if sel is not None:
            kw["users"] = sel
        st, v = attempt(model.similar_users, ids, **kw)
        scale = 10000.0
    e["res"] = st
    e["ids"], e["sc"] = [], []
    if st != "ok":
        e["msg"] = v
        return e
    rid, rsc = v
    rid, rsc = np.asarray(rid), np.asarray(rsc)
    if not batch:
        rid, rsc = rid.reshape(1, -1), rsc.reshape(1, -1)
    e["ids"] = [[int(x) for x in row] for row in rid]
    e["sc"] = [[quant(x, scale) for x in row] for row in rsc]
    return e


# ----------------------------------------------------------------- generation (no numpy state)
def gen_vectors(rng, n, f, lo, hi, zero_p=0.05, dup_p=0.15):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < zero_p:
            out.append([0] * f)
        elif out and r < zero_p + dup_p:
            out.append(list(rng.choice(out)))          # exact ties
        else:
            out.append([rng.randint(lo, hi) for _ in range(f)])
    return out


def gen_liked(rng, n, style=None):
    style = style or rng.choice(["none", "few", "half", "most", "all"])
    p = {"none": 0, "few": 0.15, "half": 0.5, "most": 0.85, "all": 1}[style]
    r = [j for j in range(n) if rng.random() < p]
    if rng.random() < 0.3:
        rng.shuffle(r)                                  # unsorted CSR row
    return r


def pick_N(rng, n):
    return max(0, rng.choice([0, 1, 2, 3, 5, 10, n // 2, n - 1, n, n + 1, n + 7, 2 * n]))


_fits = [0]


def prog():
    """show_progress for the next call: on every third time. It must make no difference"""
    _fits[0] += 1
    return _fits[0] % 3 == 0
