"""C06: answers always reflect the current factors, after any history."""
import io
import pickle

import numpy as np
from scipy.sparse import csr_matrix

from ..core import q as quant
from ..klib import KNN, new_knn
from ..qlib import attempt, new_model, prog
from .c05 import Intern, rows_of

LEVEL = "model_checking"
ASSUMPTIONS = ["the histories replayed on the real code are all histories of the specification up "
               "to a depth, on small random data, plus random deeper ones"]
DIMS = (6, 7, 3)


def data(rs, nu, n):
    d = (rs.rand(nu, n) < 0.45) * rs.randint(1, 6, size=(nu, n)).astype(np.float32)
    d[np.arange(nu), rs.randint(n, size=nu)] = 3
    d[rs.randint(nu, size=n), np.arange(n)] = 2
    return csr_matrix(d.astype(np.float32))


def make(kind, rs, f=3):
    if kind in KNN:
        return new_knn(kind, 4 if f < 6 else 30, 1)
    kw = dict(als=dict(regularization=0.5, alpha=1.5),
              bpr=dict(learning_rate=0.3, regularization=0.01),
              lmf=dict(learning_rate=0.8, neg_prop=2))[kind]
    return new_model(kind, factors=f, iterations=1, num_threads=1, random_state=int(rs.randint(99)), **kw)


class World:
    """one model and the real operations on it"""

    def __init__(self, case):
        self.kind = case["kind"]
        self.rs = np.random.RandomState(case["seed"])
        d = case.get("dims") or DIMS
        self.f = d[2]
        self.m = make(self.kind, self.rs, self.f)
        self.intern, self.ev = Intern(), []
        self.dims = (d[0], d[1])
        self.last = None
        self.cb_obs = []

    # the answers of every query, on model m
    def answers(self, m, seed):
        rs = np.random.RandomState(seed)
        nu, n = self.dims
        ids, sc = [], []

        def add(fn):
            a, b = fn()
            ids.extend(a)
            sc.extend(b)
        us, its = np.arange(nu), np.arange(n)
        ui = full = data(rs, nu, n)
        if self.f != DIMS[2]:       # many users and items: some of them, the newest included
            us = np.append(rs.permutation(nu)[:6], nu - 1)
            its = np.append(rs.permutation(n)[:6], n - 1)
            ui = full[us]
        top = 12
        order = rs.permutation(7)
        jobs = [lambda: rows_of(m.recommend(us, ui, N=4)),
                lambda: rows_of(m.similar_items(its, N=top)),
                lambda: rows_of(m.recommend(1, full[1], N=5, items=[0, 2, 3, 5],
                                            filter_already_liked_items=False))]
        if self.kind not in KNN:
            jobs.append(lambda: rows_of(m.similar_users(us, N=top)))
        if self.kind == "als":
            iu = full.T.tocsr()[its]
            jobs.append(lambda: rows_of(m.recommend(us, ui, N=4, recalculate_user=True)))
            jobs.append(lambda: rows_of(m.similar_items(its, N=top, recalculate_item=True,
                                                        item_users=iu)))

            def explain():
                t, top, _ = m.explain(2, full, 1, N=3)
                return [[int(i) for i, _ in top] + [-7]], [[quant(s, 10000) for _, s in top] + [quant(t, 10000)]]
            jobs.append(explain)
        for k in order:
            if k < len(jobs):
                add(jobs[k])
        return ids, sc

    def fresh(self):
        """a new model holding the same factors"""
        if self.kind in KNN:
            m = make(self.kind, np.random.RandomState(0), self.f)
            m.fit(self.last, show_progress=prog())
            return m
        m = make(self.kind, np.random.RandomState(0), self.f)
        m.user_factors = np.array(self.m.user_factors, copy=True)
        m.item_factors = np.array(self.m.item_factors, copy=True)
        return m

    def digests(self):
        if self.kind in KNN:
            d = self.intern(self.m.similarity.sorted_indices())
            return d, d
        return self.intern(np.asarray(self.m.user_factors)), self.intern(np.asarray(self.m.item_factors))

    def event(self, op, fn):
        st, v = attempt(fn)
        u, w = self.digests()
        self.ev.append(dict(op=op, res=st, u=u, v=w, ids=[], sc=[], fids=[], fsc=[], tol=20,
                            **({"msg": str(v)} if st != "ok" else {})))

    def observe(self, op="obs"):
        seed = int(self.rs.randint(10**6))
        st, v = attempt(self.answers, self.m, seed)
        e = dict(op=op, res=st, ids=[], sc=[], fids=[], fsc=[], tol=20)
        if st == "ok":
            e["ids"], e["sc"] = v
            e["fids"], e["fsc"] = self.answers(self.fresh(), seed)
        else:
            e["msg"] = v
        e["u"], e["v"] = self.digests()
        return e

    def row(self, k, n):
        d = data(self.rs, k, n) * 3
        if self.rs.rand() < 0.3:        # nothing left of one of them
            d = d.tolil()
            d[int(self.rs.randint(k))] = 0
        return csr_matrix(d, dtype=np.float32)

    def some(self, cnt, new):
        """ids of rows to update, in any order: only known ones, or new ones among them"""
        rs = self.rs
        if self.f == DIMS[2] and rs.rand() < 0.6:
            return [cnt + int(rs.randint(2))] if new else [int(rs.randint(cnt))]
        k = int(rs.randint(1, 4 if self.f == DIMS[2] else 30))
        ids = [int(x) for x in rs.permutation(cnt + (k + 3 if new else 0))[:k]]
        return ids + [cnt + k + 3] if new else ids

    def step(self, op):
        m, rs = self.m, self.rs
        nu, n = self.dims
        if op in ("fit", "fitcb"):
            ui = data(rs, nu, n)
            if rs.rand() < 0.3:         # a user and an item without interactions
                ui = ui.tolil()
                ui[int(rs.randint(nu))] = 0
                ui[:, int(rs.randint(n))] = 0
                ui = csr_matrix(ui, dtype=np.float32)
            if self.kind in KNN:
                self.last = ui.astype(np.float64)
                self.event(op, lambda: m.fit(self.last, show_progress=prog()))
                return
            cbs = []
            if op == "fitcb":
                m.iterations = 2
                self.event(op, lambda: m.fit(ui, show_progress=prog(),
                                             callback=lambda *a: cbs.append(self.observe())))
                m.iterations = 1
                # what a callback saw belongs to the factors of that moment
                for e in cbs:
                    e["op"] = "cb"
                self.ev[-1:] = cbs + self.ev[-1:]
            else:
                self.event(op, lambda: m.fit(ui, show_progress=prog()))
        elif op in ("pfu", "pfun"):
            ids = self.some(nu, op == "pfun")
            r = self.row(len(ids), n)
            self.event(op, lambda: m.partial_fit_users(np.array(ids), r))
            self.dims = (m.user_factors.shape[0], n)
        elif op in ("pfi", "pfin"):
            ids = self.some(n, op == "pfin")
            r = self.row(len(ids), nu)
            self.event(op, lambda: m.partial_fit_items(np.array(ids), r))
            self.dims = (nu, m.item_factors.shape[0])
        elif op == "qsi":
            self.event(op, lambda: m.similar_items(0))
        elif op == "qsu":
            if self.kind not in KNN:
                self.event(op, lambda: m.similar_users(0))
        elif op == "qru":
            ui = self.row(1, n)
            self.event(op, lambda: m.recommend(0, ui, recalculate_user=True))
        elif op == "qri":
            iu = self.row(1, nu)
            self.event(op, lambda: m.similar_items(0, recalculate_item=True, item_users=iu))
        elif op == "save":
            def f():
                b = io.BytesIO()
                m.save(b)
                b.seek(0)
                self.m = type(m).load(b)
            self.event(op, f)
        elif op == "pick":
            def f():
                self.m = pickle.loads(pickle.dumps(m))
            self.event(op, f)


def execute(case):
    w = World(case)
    d = data(w.rs, *w.dims)
    if w.kind in KNN:
        w.last = d = d.astype(np.float64)
    w.m.fit(d, show_progress=prog())
    u, v = w.digests()
    for op in case["hist"]:
        w.step(op)
        if op == "obs":
            w.ev.append(w.observe())
    w.ev.append(w.observe())
    return {"u": u, "v": v}, w.ev


def run(ctx):
    t = ctx.thorough
    for b in ("callback", "refit", "pfu_norms", "pfu_gram", "pfi_norms", "pfi_gram"):
        if t or b in ("callback", "pfu_gram"):
            ctx.model_check("Lifecycle", f"Lifecycle_bug_{b}.cfg", expect_violation="NoStaleAnswer")
    rng = ctx.rng
    cases = []
    for k in ("als", "bpr", "lmf"):
        gen = ctx.generate("Lifecycle", f"Lifecycle_{k}{'deep' if t else ''}.cfg")
        cases += gen
        if k == "bpr":
            cases += [dict(kind=x, hist=g["hist"]) for x in KNN
                      for g in rng.sample(gen, 400 if t else 40)]
    ops = {"als": ["fit", "fitcb", "pfu", "pfun", "pfi", "pfin", "qsi", "qsu", "qru", "qri", "save",
                   "pick", "obs"]}
    for _ in range(2000 if t else 250):
        k = rng.choice(["als", "als", "bpr", "lmf", "item", "bm25"])
        o = ops.get(k, ["fit", "fitcb", "qsi", "qsu", "save", "pick", "obs"])
        cases.append(dict(kind=k, hist=[rng.choice(o) for _ in range(rng.randint(5, 12))]))
    for _ in range(150 if t else 24):
        k = rng.choice(["als", "als", "als", "bpr", "lmf", "cosine"])
        o = ops.get(k, ["fit", "fitcb", "qsi", "qsu", "save", "pick", "obs"])
        cases.append(dict(kind=k, hist=[rng.choice(o) for _ in range(rng.randint(3, 7))],
                          dims=rng.choice([[40, 130, 8], [130, 40, 9], [20, 20, 33], [140, 150, 20], [30, 20, 70]])))
    for c in cases:
        c["seed"] = rng.randrange(10**6)
    recs = ctx.drive(cases, procs=8)
    ctx.validate("TraceLifecycle", recs)
    if not ctx.violations:
        def stale(r):
            e = r["ev"][-1]
            for k, row in enumerate(e["sc"]):
                if row and row[0][0] == 0:
                    row[0][1] += 50
                    return r

        def moved(r):
            for e in r["ev"]:
                if e["op"] in ("pfu", "qsi", "save"):
                    e["v"] += 1000
                    return r
        ctx.corrupt("TraceLifecycle", recs[:150], stale, label="an answer off by 0.005")
        ctx.corrupt("TraceLifecycle", recs[:150], moved, label="item factors changed by the wrong operation")


def replay(ctx):
    ctx.validate("TraceLifecycle", ctx.drive(ctx.only_cases))
