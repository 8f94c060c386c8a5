"""C18: approximate (ANN) models return true scores and honour filters."""
import math

import numpy as np
from scipy.sparse import csr_matrix

from ..core import q as quant
from ..qlib import as_list, attempt, gen_liked, gen_vectors, new_model, pick_N, prog

LEVEL = "model_checking"
ASSUMPTIONS = ["factors are small integers; scores are compared with a tolerance of 4e-6 of the largest possible score "
               "(index libraries compute in single precision)", "nmslib does not index items with zero factors for "
               "similar_items", "GPU indices are not exercised"]
WRAPS = ["faiss", "annoy", "nmslib"]


def wrap(kind, model, full, **kw):
    # full: the index parameters that search everything
    if kind == "faiss":
        from implicit.ann.faiss import FaissModel
        return FaissModel(model, **{**(dict(nlist=1, nprobe=1) if full else dict(nlist=3, nprobe=2)), **kw, "use_gpu": False})
    if kind == "annoy":
        from implicit.ann.annoy import AnnoyModel
        return AnnoyModel(model, **{**(dict(n_trees=5, search_k=10**7) if full else dict(n_trees=10)), **kw})
    from implicit.ann.nmslib import NMSLibModel
    p = {}
    if full == "brute":                               # an exhaustive search
        p = dict(method="brute_force", index_params={}, query_params={})
    elif full:
        p = dict(index_params={"M": 100, "post": 0, "efConstruction": 400}, query_params={"ef": 500})
    return NMSLibModel(model, **{**p, **kw})


def gen_query(rng, n, nu, off=False):
    op = rng.choice(["rec", "rec", "simi"])
    batch = rng.random() < 0.5
    top = nu if op == "rec" else n
    k = rng.choice([1, 2, 4]) if batch else 1
    ids = [rng.randrange(top) for _ in range(k)]
    q = dict(op=op, q=ids, batch=batch, N=max(1, pick_N(rng, n)), form=rng.choice(["list", "i64", "i32"]),
             npscalar=rng.random() < 0.3, recalc=rng.random() < 0.3, flt=op == "rec" and rng.random() < 0.6, filt=None,
             hassel=False, sel=[])
    if rng.random() < 0.5:
        q["filt"] = rng.sample(range(n), rng.randint(0, n))
        if q["filt"] and rng.random() < 0.3:
            q["filt"] = q["filt"] + q["filt"][:1]
    m = n if op == "rec" else nu                      # entries given by the caller
    q["rows"] = [[[j, rng.choice([4, 4, 8, 12, 2, -4])] for j in gen_liked(rng, m)] for _ in ids]
    if off and q["filt"] is None and rng.random() < 0.4:
        q["hassel"], q["sel"] = True, rng.sample(range(n), rng.randint(1, n))
    return q


def hide_best(rng, q, x):
    """filter (or like) exactly the items that would have been the best ones"""
    if q["op"] == "simi":
        ref = x["V"]
        nrm = [math.sqrt(sum(a * a for a in v)) or 1.0 for v in x["V"]]
    else:
        ref, nrm = x["U"], [1.0] * len(x["V"])
    n = len(x["V"])
    L = rng.choice([1, 3, n // 4, n // 2, (3 * n) // 4, n - 1])
    q["N"], q["recalc"], q["hassel"], q["sel"] = rng.choice([1, 1, 3, 10]), False, False, []
    best = []
    for t in q["q"]:
        d = [sum(a * b for a, b in zip(ref[t], v)) / m for v, m in zip(x["V"], nrm)]
        best.append(sorted(range(n), key=lambda j: -d[j])[:L])
    how = rng.choice(["filter", "liked", "liked", "split", "both"]) if q["op"] == "rec" else "filter"
    if how != "liked":
        f = best[0][:L // 2] if how == "split" else best[0]
        q["filt"] = rng.sample(f, len(f))
    else:
        q["filt"] = None
    if q["op"] == "rec":
        q["flt"] = how != "filter"
        q["rows"] = [[[j, 4] for j in (b[L // 2:] if how == "split" else b)] for b in best]


def gen_case(rng, off=False, full=True, big=None, kind=None):
    best, kind = kind is not None, kind or rng.choice(WRAPS)
    n = big or rng.choice([1, 2, 3, 5, 9, 15, 24]) if full else rng.choice([12, 40])
    nu, f = rng.randint(1, 5), rng.choice([1, 2, 3, 4])
    model = rng.choice(["als", "als", "bpr", "lmf"])
    if model != "als":
        f += 2
    fits = [dict(U=gen_vectors(rng, nu, f, -3, 3), V=gen_vectors(rng, n, f, -3, 3, 0.1), qs=[])
            for _ in range(rng.choice([1, 1, 2]))]
    for x in fits:
        if kind != "faiss" and not any(any(v) for v in x["V"]):
            x["V"][0] = [1] * f
        if kind == "nmslib" and not any(any(v) for v in x["V"]):
            x["V"][0][0] = 1
        if rng.random() < 0.35:                       # a few items far larger than the others
            for j in rng.sample(range(n), rng.choice([1, min(3, n)])):
                x["V"][j] = [rng.choice([5, 12]) * v for v in x["V"][j]]
        x["qs"] = [gen_query(rng, n, nu, off) for _ in range(rng.randint(3, 7))]
        for q in x["qs"]:
            if best or rng.random() < 0.2:
                hide_best(rng, q, x)
    return dict(wrap=kind, model=model, fits=fits, off=off, full=full, brute=bool(big or rng.random() < 0.3), dtype=rng.choice(["float32", "float32", "float64"]),
                which=rng.choice(["both", "rec", "simi"]) if off else "both", threads=rng.choice([0, 1, 4]),
                unit=rng.choice([1, 1, 1, 2.0**-4, 2.0**-9, 2.0**-14, 16.0]))


def fine_case(rng):
    """inner products of vectors with more digits"""
    c = gen_case(rng)
    for x in c["fits"]:
        f = len(x["V"][0])
        x.update({a: gen_vectors(rng, len(x[a]), f, -4000, 4000) for a in "UV"})
        x["qs"] = [dict(q, recalc=False) for q in x["qs"] if q["op"] == "rec"]
    return dict(c, fine=True)


def csr4(rows, cols):
    indptr = np.cumsum([0] + [len(r) for r in rows])
    return csr_matrix((np.array([v / 4 for r in rows for _, v in r], dtype=np.float32),
                       np.array([j for r in rows for j, _ in r], dtype=np.int32), indptr), shape=(len(rows), cols))


def ask(w, q, nu, n):
    ids = as_list(q["q"], "i32" if q["form"] == "list" else q["form"]) if q["batch"] else int(q["q"][0])
    if not q["batch"] and q["npscalar"]:
        ids = np.int32(ids)
    kw = dict(N=q["N"])
    if q["filt"] is not None:
        kw["filter_items"] = as_list(q["filt"], q["form"])
    if q["hassel"]:
        kw["items"] = as_list(q["sel"], q["form"])
    if q["op"] == "rec":
        return attempt(w.recommend, ids, csr4(q["rows"], n), filter_already_liked_items=q["flt"],
                       recalculate_user=q["recalc"], **kw)
    if q["recalc"]:
        kw.update(recalculate_item=True, item_users=csr4(q["rows"], nu))
    return attempt(w.similar_items, ids, **kw)


def rows2(v, batch, scale):
    i, s = np.asarray(v[0]), np.asarray(v[1])
    if not batch:
        i, s = i.reshape(1, -1), s.reshape(1, -1)
    return [[int(x) for x in r] for r in i], [[quant(x, scale) for x in r] for r in s]


def execute(case):
    ev, Vs = [], []
    f = len(case["fits"][0]["V"][0])
    kw = dict(regularization=0.5, dtype=np.dtype(case["dtype"])) if case["model"] == "als" else {}
    m = new_model(case["model"], factors=f - {"als": 0, "bpr": 1, "lmf": 2}[case["model"]], iterations=0,
                  num_threads=case["threads"], **kw)
    flags = {}
    if case["off"]:
        flags = {"both": dict(approximate_recommend=False, approximate_similar_items=False),
                 "rec": dict(approximate_recommend=False), "simi": dict(approximate_similar_items=False)}[case["which"]]
    w = wrap(case["wrap"], m, "brute" if case.get("brute") else case["full"], **flags)
    for mi, fit in enumerate(case["fits"]):
        nu, n = len(fit["U"]), len(fit["V"])
        U, V = (np.array(fit[x], dtype=case["dtype"]) * case["unit"] for x in "UV")
        m.user_factors, m.item_factors = U.copy(), V.copy()
        st, v = attempt(w.fit, csr_matrix(np.ones((nu, n), dtype=np.float32)), show_progress=prog())
        Vs.append(fit["V"])
        if st != "ok":
            ev.append(dict(op="kept", res=st, msg=str(v), same=True))
            break
        # bpr and lmf fix their constant columns; whatever the factors are now, they are the model
        same = bool((np.asarray(m.user_factors) == U).all() and (np.asarray(m.item_factors) == V).all())
        ev.append(dict(op="kept", res="ok", same=same))
        for q in fit["qs"]:
            ev.append(one(case, w, m, q, fit, mi, nu, n))
            ev.append(dict(op="kept", res="ok", same=bool((np.asarray(m.user_factors) == U).all()
                                                           and (np.asarray(m.item_factors) == V).all())))
    return {"V": Vs}, ev


def one(case, w, m, q, fit, mi, nu, n):
    if case["model"] != "als":
        q = dict(q, recalc=False)
    zero_query = q["op"] == "simi" and not q["recalc"] and any(not any(fit["V"][j]) for j in q["q"])
    if case["wrap"] == "nmslib" and zero_query:
        q = dict(q, q=[next(j for j in range(n) if any(fit["V"][j]))] * len(q["q"]))
    st, v = ask(w, q, nu, n)
    approx = not case["off"] or case["which"] == {"rec": "simi", "simi": "rec"}[q["op"]]
    if case["off"] and not approx:
        st2, v2 = ask(m, q, nu, n)
        if st != st2 or st != "ok":
            # both may reject the same arguments
            return dict(op="off", res="ok" if st == st2 else f"{st}/{st2}", ids=[], sc=[], wids=[], wsc=[], eps=0)
        a, b = rows2(v, q["batch"], 10000.0), rows2(v2, q["batch"], 10000.0)
        return dict(op="off", res="ok", ids=a[0], sc=a[1], wids=b[0], wsc=b[1], eps=1)
    if q["hassel"]:                                   # selections are not supported by the indices
        return dict(op="kept", res="ok" if st == "NotImplementedError" else "selection_" + st, same=True)
    # the factors of the query
    if q["recalc"]:
        fn = m.recalculate_user if q["op"] == "rec" else m.recalculate_item
        x = np.asarray(fn(np.array(q["q"]), csr4(q["rows"], n if q["op"] == "rec" else nu)), dtype=np.float64)
        x = x.reshape(len(q["q"]), -1)
        x = x / case["unit"]                          # scores are recorded divided by unit^2
        top = max(1.0, float(np.abs(x).max()))
        S = 4096
        while S > 16 and S * top * 3 * x.shape[1] > 10**8:
            S //= 2
        if q["op"] == "simi":
            S = max(1, int(1500 / top * 3 / max(3, max(abs(t) for r in fit["V"] for t in r))))
    else:
        x = np.array([fit["U" if q["op"] == "rec" else "V"][j] for j in q["q"]], dtype=np.float64)
        S = (64 if not case.get("fine") else 1) if q["op"] == "rec" else 1
    if st == "ok" and q["op"] == "simi" and case["wrap"] == "nmslib" and (~x.any(axis=1)).any():
        return dict(op="kept", res="ok", same=True)   # no direction to compare with
    xs = [[int(round(t * S)) for t in r] for r in x]
    vmax = max(math.sqrt(sum(t * t for t in r)) for r in fit["V"]) or 1.0
    qmax = max(float(np.linalg.norm(r)) for r in x)
    if q["op"] == "rec":
        eps = int(S * vmax * qmax * 4e-6) + 2
    else:
        # rounding of a recalculated query moves its direction
        small = min([float(np.linalg.norm(r)) for r in x if r.any()] or [1.0])
        eps = 3 if not q["recalc"] else int(4 + 10000 * 0.75 * math.sqrt(x.shape[1]) / max(small * S, 1e-3))
        if q["recalc"] and eps > 300:
            eps = 20001                               # a nearly vanishing query: only the filters are checked
    hide = [sorted(set((q["filt"] or []) + ([j for j, _ in r] if q["op"] == "rec" and q["flt"] else []))) for r in q["rows"]]
    e = dict(op=q["op"], res=st, m=mi + 1, xs=xs, exact=not q["recalc"], hide=hide, N=q["N"], full=case["full"], eps=eps,
             skipzero=case["wrap"] == "nmslib", ids=[], sc=[], msg=str(v)[:100] if st != "ok" else "")
    if st == "ok":
        e["ids"], e["sc"] = rows2(v, q["batch"], float(S) / case["unit"] ** 2 if q["op"] == "rec" else 10000.0)
    return e


def run(ctx):
    ctx.model_check("AnnQuery", "AnnQuery_deep.cfg" if ctx.thorough else "AnnQuery_none.cfg")
    for bug in ("nofilterroom", "setroom", "nolikedroom", "keepliked", "nocut", "stale"):
        ctx.model_check("AnnQuery", f"AnnQuery_{bug}.cfg", expect_violation="Right")
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    cases = [gen_case(rng) for _ in range(420 * k)]
    cases += [gen_case(rng, big=rng.choice([60, 150, 320, 700])) for _ in range(45 * k)]
    cases += [gen_case(rng, big=n, kind=w) for n in (12, 60, 150, 320, 700) for w in WRAPS for _ in range(4 * k)]
    cases += [fine_case(rng) for _ in range(60 * k)]
    cases += [gen_case(rng, off=True) for _ in range(150 * k)]
    cases += [gen_case(rng, full=False) for _ in range(90 * k)]
    recs = ctx.drive(cases)
    ctx.validate("TraceAnn", recs)
    if not ctx.violations:
        def rescore(r):
            for e in r["ev"]:
                if e["op"] in ("rec", "simi") and e["eps"] < 100 and e["sc"][0] and e["sc"][0][0][0] == 0:
                    e["sc"][0][0][1] += 4000
                    return r

        def hidden(r):
            for e in r["ev"]:
                if e["op"] in ("rec", "simi") and e["ids"][0] and e["ids"][0][0] != -1:
                    e["hide"][0].append(e["ids"][0][0])
                    return r
        ctx.corrupt("TraceAnn", recs[:100], rescore, label="a score changed")
        ctx.corrupt("TraceAnn", recs[:100], hidden, label="a filtered item returned")


def replay(ctx):
    ctx.validate("TraceAnn", ctx.drive(ctx.only_cases))
