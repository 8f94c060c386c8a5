"""C05: queries change nothing and can run concurrently."""
import hashlib
import sys
import threading
import time

import numpy as np
from scipy.sparse import csr_matrix, issparse

from ..core import q as quant
from ..klib import KNN, dense, gen_counts, new_knn
from ..qlib import MODELS, as_list, attempt, csr_rows, gen_liked, gen_vectors, model_with

LEVEL = "model_checking"
ASSUMPTIONS = [
    "all interleavings of the scorer's and the caches' steps are explored in the specification; "
    "on the real code all single preemptions at the Python lines of a query are explored and "
    "free-running threads are sampled",
    "contents are compared, so re-sorting the entries of a caller's sparse matrix in place is "
    "not counted as a change"]
ANN = ["annoy", "faiss", "nmslib"]


# ---------------------------------------------------------------- content digests
class Intern:
    def __init__(self):
        self.d = {}

    def __call__(self, *xs):
        h = hashlib.sha1()
        for x in xs:
            _feed(h, x)
        return self.d.setdefault(h.hexdigest(), len(self.d))


def _feed(h, x):
    if issparse(x):
        m = x.tocoo(copy=True)
        o = np.lexsort((m.col, m.row))
        h.update(repr((x.format, x.shape, str(x.dtype))).encode())
        for a in (m.row[o].astype(np.int64), m.col[o].astype(np.int64), m.data[o]):
            h.update(np.ascontiguousarray(a).tobytes())
    elif isinstance(x, np.ndarray):
        h.update(repr((x.shape, str(x.dtype))).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for y in x:
            _feed(h, y)
        h.update(b"]")
    else:
        h.update(repr(x).encode())


def content(m):
    """the observable content of a model"""
    inner = getattr(m, "model", m)
    out = [type(m).__name__]
    for name in ("user_factors", "item_factors", "similarity"):
        v = getattr(inner, name, None)
        out.append(v if v is None or issparse(v) else np.asarray(v))
    for name in ("factors", "regularization", "alpha", "iterations", "K", "K1", "B",
                 "learning_rate", "num_threads"):
        out.append(repr(getattr(inner, name, None)))
    return out


# ---------------------------------------------------------------- models
def build(case):
    kind = case["kind"]
    if kind in KNN:
        m = new_knn(kind, case["K"], case["threads"])
        m.fit(dense(case["counts"]), show_progress=False)
        return m
    kw = {"regularization": 2.0, "alpha": case.get("alpha", 1.0)} if kind in ("als", *ANN) else {}
    if kind in ANN:
        import implicit.ann.annoy
        import implicit.ann.faiss
        import implicit.ann.nmslib
        inner = model_with("als", case["U"], case["V"], "float32", 0, case["threads"],
                           iterations=0, **kw)
        if kind == "annoy":
            m = implicit.ann.annoy.AnnoyModel(inner, n_trees=4)
        elif kind == "faiss":
            m = implicit.ann.faiss.FaissModel(inner, nlist=1, nprobe=1, use_gpu=False)
        else:
            m = implicit.ann.nmslib.NMSLibModel(inner)
        m.fit(csr_matrix((len(case["U"]), len(case["V"])), dtype=np.float32), show_progress=False)
        return m
    m = model_with(kind, case["U"], case["V"], case["dtype"], 0, case["threads"], **kw)
    if kind == "als":
        m.dtype = np.dtype(case["dtype"])
    return m


def shape(case):
    if case["kind"] in KNN:
        return len(case["counts"]), len(case["counts"][0])
    return len(case["U"]), len(case["V"])


def rows_of(v, scale=10000):
    ids, sc = np.asarray(v[0]), np.asarray(v[1])
    if ids.ndim == 1:
        ids, sc = ids.reshape(1, -1), sc.reshape(1, -1)
    return [[int(x) for x in r] for r in ids], [[quant(x, scale) for x in r] for r in sc]


def prepare(case, q):
    """-> (callable(model), list of the caller's objects)"""
    nu, n = shape(case)
    op = q["op"]
    mine = []
    ids = np.array(q["ids"]) if q["batch"] else int(q["ids"][0])
    mine.append(ids)
    kw = {"N": q["N"]}
    if q.get("filt") is not None:
        f = as_list(q["filt"], q["form"])
        kw["filter_users" if op == "simu" else "filter_items"] = f
        mine.append(f)
    if q.get("sel") is not None:
        s = as_list(q["sel"], q["form"])
        kw["users" if op == "simu" else "items"] = s
        mine.append(s)
    if "liked" in q:
        w = csr_rows(q["liked"], n if op in ("rec", "explain", "recu", "metrics") else nu,
                     q.get("w"), q.get("vtype", "float32"))
        mine.append(w)
    if op == "rec":
        kw["filter_already_liked_items"] = q["flt"]
        if q.get("recalc"):
            kw["recalculate_user"] = True
        return (lambda m: rows_of(m.recommend(ids, w, **kw))), mine
    if op == "simi":
        if q.get("recalc"):
            kw["recalculate_item"] = True
            kw["item_users"] = w
        return (lambda m: rows_of(m.similar_items(ids, **kw))), mine
    if op == "simu":
        return (lambda m: rows_of(m.similar_users(ids, **kw))), mine
    if op in ("recu", "reci"):
        def f(m):
            x = m.recalculate_user(ids, w) if op == "recu" else m.recalculate_item(ids, w)
            x = np.atleast_2d(x)
            return [list(range(x.shape[1]))] * x.shape[0], [[quant(y, 10000) for y in r] for r in x]
        return f, mine
    if op == "explain":
        def f(m):
            total, top, _ = m.explain(0, w, int(q["item"]), N=q["N"])
            return ([[int(i) for i, _ in top] + [-7]],
                    [[quant(s, 10000) for _, s in top] + [quant(total, 10000)]])
        return f, mine
    if op == "metrics":
        t = csr_rows(q["test"], n)
        mine.append(t)

        def f(m):
            from implicit.evaluation import ranking_metrics_at_k
            r = ranking_metrics_at_k(m, w, t, K=q["N"], show_progress=False)
            ks = sorted(r)
            return [list(range(len(ks)))], [[quant(r[k], 10000) for k in ks]]
        return f, mine
    raise KeyError(op)


def gen_query(rng, case, nu, n):
    kind = case["kind"]
    ops = ["rec"] * 4 + ["simi"] * 3
    if kind in MODELS:
        ops += ["simu"] * 2 + ["metrics"]
    if kind == "als":
        ops += ["recu", "reci", "explain"]
    op = rng.choice(ops)
    cnt = n if op in ("simi", "reci") else nu
    batch = rng.random() < 0.5 and op != "explain"
    size = rng.choice([1, 2, 5]) if batch else 1
    q = dict(op=op, batch=batch, ids=[rng.randrange(cnt) for _ in range(size)],
             N=rng.choice([1, 2, 4, 10]), form=rng.choice(["list", "i64", "i32"]),
             flt=rng.random() < 0.6)
    tgt = nu if op == "simu" else n
    if op in ("rec", "simi", "simu"):
        r = rng.random()
        if r < 0.3:
            q["filt"] = rng.sample(range(tgt), rng.randint(1, min(3, tgt)))
        elif r < 0.6 and kind not in ANN:
            q["sel"] = [rng.randrange(tgt) for _ in range(rng.randint(1, 5))]
        if op != "simu" and kind in ("als", *ANN) and rng.random() < 0.3:
            q["recalc"] = True
    if kind in ANN:
        q["batch"] = False                    # ragged results of nmslib are not claimed
        q["ids"] = q["ids"][:1]
    if op in ("rec", "recu", "explain"):
        q["liked"] = [gen_liked(rng, n) for _ in q["ids"]]
        if op == "explain":
            q["item"] = rng.randrange(n)
    elif op == "reci" or q.get("recalc"):
        q["liked"] = [gen_liked(rng, nu) for _ in q["ids"]]
    elif op == "metrics":
        q["liked"] = [gen_liked(rng, n, "few") for _ in range(nu)]
        q["test"] = [[rng.randrange(n)] for _ in range(nu)]
    if "liked" in q:
        q["w"] = [[rng.choice([1, 2, 0.5, 3]) for _ in r] for r in q["liked"]]
        q["vtype"] = rng.choice(["float32", "float32", "float64"])
    return q


def gen_case(rng, mode, kind=None):
    kind = kind or rng.choice(MODELS * 2 + KNN + ["als", "als"])
    case = dict(mode=mode, kind=kind, threads=rng.choice([1, 2, 0]), alpha=rng.choice([1.0, 2.0, 0.5]))
    if kind in KNN:
        nu, n = rng.choice([4, 9]), rng.choice([4, 8, 15])
        case.update(counts=gen_counts(rng, nu, n, rng.choice([0.2, 0.5])), K=rng.choice([2, 5, 20]))
    else:
        nu, n, f = rng.choice([4, 9]), rng.choice([5, 12]), rng.choice([1, 2, 3])
        case.update(U=gen_vectors(rng, nu, f, -3, 3), V=gen_vectors(rng, n, f, -3, 3, 0.2),
                    dtype=rng.choice(["float32", "float64"]))
        if kind in ANN:
            n = 14
            case["V"] = gen_vectors(rng, n, f, -3, 3, 0, 0)
            for j, v in enumerate(case["V"]):         # no zero rows, distinct norms
                v[0] = j + 1
    return case, nu, n


def pure_case(rng, kind=None):
    case, nu, n = gen_case(rng, "pure", kind)
    qs = [gen_query(rng, case, nu, n) for _ in range(6)]
    if case["kind"] in ANN:
        # deep enough lists only: the index returns what it finds
        for q in qs:
            q["N"] = min(q["N"], 4)
    order = [rng.randrange(6) for _ in range(14)]
    case.update(qs=qs, order=order, rej=[rng.choice(["rows", "csr", "range", None]) for _ in order])
    return case


def rejected(case, m, what):
    nu, n = shape(case)
    if what == "rows":
        return lambda: m.recommend(0, csr_rows([[0], [0]], n)), True
    if what == "csr":
        return lambda: m.recommend(0, csr_rows([[0]], n).tocoo()), True
    # beyond the model
    return lambda: m.recommend(0, csr_rows([[n + 2]], n + 5, None), N=2,
                               **({"recalculate_user": True} if case["kind"] == "als" else {})), \
        case["kind"] == "als" or case["kind"] in KNN


def record_q(intern, m, key, fn, mine, tol=3):
    b, a = intern(*content(m)), intern(*mine)
    st, v = attempt(fn, m)
    e = dict(op="q", key=key, before=b, args=a, args2=intern(*mine), after=intern(*content(m)),
             res=st, ids=[], sc=[], tol=tol)
    if st == "ok":
        e["ids"], e["sc"] = v
    else:
        e["msg"] = v
    return e


def execute(case):
    if case["mode"] == "pure":
        return exec_pure(case)
    if case["mode"] == "preempt":
        return exec_preempt(case)
    return exec_cold(case) if case["mode"] == "cold" else exec_stress(case)


def exec_pure(case):
    intern, m, ev = Intern(), build(case), []
    hdr = {"model": intern(*content(m))}
    prepared = [prepare(case, q) for q in case["qs"]]
    for k, rej in zip(case["order"], case["rej"]):
        fn, mine = prepared[k]
        ev.append(record_q(intern, m, f"q{k}", fn, mine))
        if rej and case["kind"] not in ANN:
            call, applies = rejected(case, m, rej)
            if applies and not (case["kind"] in KNN and rej == "rows"):
                b = intern(*content(m))
                st, v = attempt(call)
                ev.append(dict(op="rej", before=b, after=intern(*content(m)), args=0, args2=0,
                               res=st, key=rej, ids=[], sc=[], tol=0))
    return hdr, ev


# ---------------------------------------------------------------- one preemption at every line
def run_preempted(fa, fb, k):
    """run fa in a thread; before its k-th Python line inside implicit, run fb to its end (or until
    it has to wait for fa). Returns (reached, answer of a, answer of b)."""
    out = {}
    hit, go = threading.Event(), threading.Event()
    count = [0]

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == k:
                hit.set()
                go.wait(5)
        return local

    def tracer(frame, event, arg):
        return local if "/implicit/" in frame.f_code.co_filename else None

    def a():
        sys.settrace(tracer)
        try:
            out["a"] = attempt(fa)
        finally:
            sys.settrace(None)
            hit.set()

    def b():
        out["b"] = attempt(fb)

    ta, tb = threading.Thread(target=a), threading.Thread(target=b)
    ta.start()
    hit.wait(20)
    reached = count[0] >= k
    tb.start()
    tb.join(0.3)
    go.set()
    ta.join()
    tb.join()
    return reached, out["a"], out["b"]


def exec_preempt(case):
    intern = Intern()
    m0 = build(case)
    hdr = {"model": intern(*content(m0))}
    prepared = [prepare(case, q) for q in case["qs"]]
    ev = [record_q(intern, m0, f"q{k}", *prepared[k]) for k in range(len(prepared))]

    def conc(k, r):
        e = dict(op="conc", key=f"q{k}", res=r[0], ids=[], sc=[], tol=3)
        if r[0] == "ok":
            e["ids"], e["sc"] = r[1]
        else:
            e["msg"] = r[1]
        return e

    for a, b in case["pairs"]:
        for k in range(1, 400):
            m = build(case)                       # caches empty
            reached, ra, rb = run_preempted(lambda: prepared[a][0](m), lambda: prepared[b][0](m), k)
            if not reached:
                break
            ev += [conc(a, ra), conc(b, rb)]
    return hdr, ev


def preempt_case(rng, kind):
    case, nu, n = gen_case(rng, "preempt", kind)
    case["threads"] = 1
    if kind in MODELS:                            # a zero vector on both sides
        case["U"][0] = [0] * len(case["U"][0])
        case["V"][0] = [0] * len(case["V"][0])
    qs = [gen_query(rng, case, nu, n) for _ in range(3)]
    base = dict(batch=False, ids=[0], N=4, form="list", flt=False)
    qs.append(dict(base, op="simi"))
    if kind in MODELS:
        qs.append(dict(base, op="simu"))
    k = len(qs)
    pairs = [[3, 3]] + ([[4, 4]] if k > 4 else []) + [[rng.randrange(k), rng.randrange(k)] for _ in range(3)]
    case.update(qs=qs, pairs=pairs)
    return case


# ---------------------------------------------------------------- free-running threads
def stress_case(rng, kind, i):
    return dict(mode="stress", kind=kind, seed=rng.randrange(10**6), i=i,
                threads=rng.choice([1, 2]), workers=rng.choice([4, 8]))


def exec_stress(case):
    rs = np.random.RandomState(case["seed"])
    intern = Intern()
    kind = case["kind"]
    calls = []
    if kind in KNN:
        n, nu = 2500, 250
        d = (rs.rand(nu, n) < 0.12) * rs.randint(1, 6, size=(nu, n)).astype(float)
        m = new_knn(kind, 150, 0)
        m.fit(csr_matrix(d), show_progress=False)
        for k in range(6):
            row = np.zeros((1, n))
            row[0, rs.choice(n, 700, replace=False)] = rs.randint(1, 4, 700)
            w = csr_matrix(row)
            calls.append(lambda w=w, k=k: rows_of(
                m.recommend(0, w, N=15, filter_already_liked_items=bool(k % 2)), 1000))
    else:
        n, nu, f = 3000, 300, 24
        U = rs.randint(-3, 4, size=(nu, f))
        V = rs.randint(-3, 4, size=(n, f))
        m = model_with(kind, U, V, "float32", 2, case["threads"],
                       **({"regularization": 2.0} if kind == "als" else {}))
        d = csr_matrix((rs.rand(nu, n) < 0.02).astype(np.float32))
        for k in range(6):
            u = rs.randint(nu, size=120)
            it = rs.randint(n, size=60)
            if k % 3 == 0:
                calls.append(lambda u=u, k=k: rows_of(m.recommend(
                    u, d[u], N=8, recalculate_user=(kind == "als" and k == 3)), 1000))
            elif k % 3 == 1:
                calls.append(lambda it=it: rows_of(m.similar_items(it, N=8), 1000))
            else:
                calls.append(lambda u=u: rows_of(m.similar_users(u, N=8), 1000))
    hdr = {"model": intern(*content(m))}
    ev = [record_q(intern, m, f"q{k}", lambda _, c=c: c(), []) for k, c in enumerate(calls)]
    got, lock = [], threading.Lock()
    barrier = threading.Barrier(case["workers"])

    def work(t):
        rng = np.random.RandomState(case["seed"] + t)
        barrier.wait()
        for _ in range(10):
            k = rng.randint(len(calls))
            r = attempt(calls[k])
            with lock:
                got.append((k, r))
    ts = [threading.Thread(target=work, args=(t,)) for t in range(case["workers"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    seen = {}
    for k, r in got:
        e = dict(op="conc", key=f"q{k}", res=r[0], ids=[], sc=[], tol=3)
        if r[0] == "ok":
            e["ids"], e["sc"] = r[1]
        key = repr(e)
        if key not in seen:                       # identical answers once
            seen[key] = 1
            ev.append(e)
    b = intern(*content(m))
    ev.append(dict(op="rej", before=b, after=b, args=0, args2=0, res="end", key="end", ids=[], sc=[],
                   tol=0))
    return hdr, ev


# ------------------------------------------- threads that meet at a cache that is not there yet
def cold_case(rng, kind):
    return dict(mode="cold", kind=kind, seed=rng.randrange(10**6), workers=rng.choice([3, 4, 6]))


def exec_cold(case):
    rs = np.random.RandomState(case["seed"])
    kind, n, nu, f = case["kind"], 12000, 6000, 64
    U, V = (rs.randint(-3, 4, size=(k, f)) for k in (nu, n))

    def fresh():
        return model_with(kind, U, V, "float32", 2, 1, **({"regularization": 2.0} if kind == "als" else {}))
    d = csr_matrix((rs.rand(8, n) < 0.005).astype(np.float32))
    dt = csr_matrix((rs.rand(8, nu) < 0.005).astype(np.float32))
    calls = [lambda m: rows_of(m.similar_items(int(case["seed"] % n), N=8), 1000),
             lambda m: rows_of(m.similar_users(int(case["seed"] % nu), N=8), 1000)]
    if kind == "als":
        calls = [lambda m: rows_of(m.recommend(3, d[3], N=8, recalculate_user=True), 1000),
                 lambda m: rows_of(m.similar_items(5, N=8, recalculate_item=True, item_users=dt[5]), 1000)] + calls
    intern = Intern()
    ref = fresh()
    hdr = {"model": intern(*content(ref))}
    ev = [record_q(intern, ref, f"q{k}", lambda _, c=c: c(ref), []) for k, c in enumerate(calls)]
    got, lock = [], threading.Lock()
    for trial in range(16):
        m, k = fresh(), trial % len(calls)
        barrier = threading.Barrier(case["workers"])

        def work(t):
            barrier.wait()
            if t:
                time.sleep(t * 0.0005 * (trial // len(calls)))
            r = attempt(calls[k], m)
            with lock:
                got.append((k, r))
        ts = [threading.Thread(target=work, args=(t,)) for t in range(case["workers"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    seen = set()
    for k, r in got:
        e = dict(op="conc", key=f"q{k}", res=r[0], ids=[], sc=[], tol=3)
        if r[0] == "ok":
            e["ids"], e["sc"] = r[1]
        if repr(e) not in seen:                       # identical answers once
            seen.add(repr(e))
            ev.append(e)
    b = intern(*content(ref))
    ev.append(dict(op="rej", before=b, after=b, args=0, args2=0, res="end", key="end", ids=[], sc=[], tol=0))
    return hdr, ev


def run(ctx):
    ctx.model_check("MCScorer", "MCScorer_none_TRUE.cfg")
    ctx.model_check("MCScorer", "MCScorer_none_FALSE.cfg")
    ctx.model_check("MCScorer", "MCScorer_nolock_FALSE.cfg", expect_violation="OwnAnswer")
    ctx.model_check("MCScorer", "MCScorer_noclear_FALSE.cfg", expect_violation="CleanWhenIdle")
    if ctx.thorough:
        ctx.model_check("MCScorer", "MCScorer_deep.cfg")
        ctx.model_check("MCScorer", "MCScorer_earlyrelease_FALSE.cfg", expect_violation="OwnAnswer")
        ctx.model_check("MCScorer", "MCScorer_minusone_TRUE.cfg", expect_violation="OwnAnswer")
    ctx.model_check("CacheFill", "CacheFill_none.cfg")
    ctx.model_check("CacheFill", "CacheFill_publishfirst.cfg", expect_violation="OnlyFinished")
    rng = ctx.rng
    t = ctx.thorough
    cases = [pure_case(rng) for _ in range(1500 if t else 250)]
    cases += [pure_case(rng, k) for k in ANN for _ in range(60 if t else 12)]
    cases += [preempt_case(rng, k) for k in MODELS + KNN for _ in range(12 if t else 2)]
    recs = ctx.drive(cases)
    ctx.validate("TracePurity", recs)
    stress = [stress_case(rng, k, i) for k in ["item", "bm25"] + MODELS
              for i in range(8 if t else 2)]
    stress += [cold_case(rng, k) for k in ["als", "als"] + MODELS for _ in range(6 if t else 1)]
    srecs = ctx.drive(stress, procs=2)
    ctx.validate("TracePurity", srecs)
    if not ctx.violations:
        def touched(r):
            for e in r["ev"]:
                if e["op"] == "q":
                    e["after"] = 9999
                    return r

        def other(r):
            seen = {}
            for e in r["ev"]:
                if e["op"] == "q" and e["ids"] and e["ids"][0]:
                    if e["key"] in seen and e["sc"][0][0][0] == 0:
                        e["sc"][0][0][1] += 100
                        return r
                    seen[e["key"]] = 1
        ctx.corrupt("TracePurity", recs[:100], touched, label="model content changed by a query")
        ctx.corrupt("TracePurity", recs[:100], other, label="a repeated query answered differently")


def replay(ctx):
    ctx.validate("TracePurity", ctx.drive(ctx.only_cases))
