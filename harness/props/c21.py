"""C21: equivalent inputs give equal models; invalid inputs are rejected."""
import numpy as np
import scipy.sparse as sp

from ..klib import KNN, new_knn
from ..qlib import attempt, new_model, prog
from .c05 import Intern

LEVEL = "model_checking"
ASSUMPTIONS = ["every pair (thorough: triple) of valid and invalid calls of the specification is replayed on every kind "
               "of model; the ids, shapes and formats inside a call are sampled",
               "models fitted on other forms of the same interactions are compared to 2 digits (the order of "
               "summation may differ)"]
MF = ["als", "bpr", "lmf"]
FORMS = ["csr", "csc", "coo", "lil", "dok", "unsorted", "shuffledcoo", "csr_array", "explicit"]
DTYPES = ["float32", "float64", "int32", "int64", "int8", "uint8"]


# ---------------------------------------------------------------- equivalent forms
def form_of(d, form, dtype, seed):
    rs = np.random.RandomState(seed)
    b = sp.csr_matrix(d.astype(dtype))
    if form == "unsorted":
        for r in range(b.shape[0]):
            s = slice(b.indptr[r], b.indptr[r + 1])
            p = rs.permutation(b.indptr[r + 1] - b.indptr[r])
            b.indices[s], b.data[s] = b.indices[s][p], b.data[s][p]
        b.has_sorted_indices = False
        return b
    if form == "shuffledcoo":
        c = b.tocoo()
        p = rs.permutation(c.nnz)
        return sp.coo_matrix((c.data[p], (c.row[p], c.col[p])), shape=c.shape)
    if form == "csr_array":
        return sp.csr_array(b)
    if form == "explicit":
        return b
    return b.asformat(form)


def learned(m, kind):
    if kind in KNN:
        return np.asarray(m.similarity.todense())
    return np.concatenate([np.asarray(m.user_factors), np.asarray(m.item_factors)])


def ints(a, s=1000):
    return [[int(max(-10**8, min(10**8, round(float(x) * s)))) if x == x else 10**9 for x in r] for r in a]


def make(case):
    kind = case["kind"]
    if kind in KNN:
        return new_knn(kind, 50, case.get("nt", 1))      # every neighbour: no ties at the cut
    return new_model(kind, num_threads=case.get("nt", 1), random_state=case["rs"], **case["params"])


def small_params(rng, kind):
    p = dict(factors=rng.choice([1, 2, 4]), iterations=rng.choice([1, 2]))
    if kind == "als":
        p.update(regularization=rng.choice([1.0, 5.0]), alpha=rng.choice([1.0, 2.0, 0.5]), use_cg=rng.random() < 0.4,
                 use_native=rng.random() < 0.6)
        if p["use_cg"]:
            p["iterations"] = 1
    elif kind == "bpr":
        p.update(learning_rate=0.1, verify_negative_samples=True)
    else:
        p.update(learning_rate=0.3, neg_prop=rng.choice([0, 3]))
    return p


def same_case(rng, kind):
    forms = [["csr", "float32"]] + [[f, rng.choice(DTYPES)] for f in FORMS]
    forms += [["csr", t] for t in DTYPES[1:]] + [[rng.choice(FORMS), t] for t in DTYPES]
    return dict(mode="same", kind=kind, rs=rng.randrange(1000), params=small_params(rng, kind) if kind in MF else {},
                nu=rng.choice([3, 6, 9, 9, 60]), n=rng.choice([3, 5, 8, 12] + [12, 60] * (kind in MF)), data=rng.randrange(10**6), forms=forms,
                refit=rng.random() < 0.3, hi=rng.choice([1, 4, 120]), p=rng.choice([0.2, 0.5, 0.9]))


def exec_same(case):
    rs = np.random.RandomState(case["data"])
    d = (rs.rand(case["nu"], case["n"]) < case["p"]) * rs.randint(1, case["hi"] + 1, size=(case["nu"], case["n"]))
    d[rs.randint(case["nu"]), rs.randint(case["n"])] = 1
    d[rs.randint(case["nu"]), rs.randint(case["n"])] = 1
    intern, ev = Intern(), []
    for form, dtype in case["forms"]:
        x = form_of(d, form, dtype, case["data"])
        y = form_of(d, form, dtype, case["data"]) if case["refit"] else None
        m = make(case)
        a0 = intern(x)
        st, v = attempt(m.fit, x, show_progress=prog())
        if st == "ok" and y is not None:
            st, v = attempt(m.fit, y, show_progress=prog())
        e = dict(op="same", key="k", form=f"{form}/{dtype}", res=st, a0=a0, a1=intern(x), v=[], tol=20)
        if st == "ok":
            e["v"] = ints(learned(m, case["kind"]), 1000 if case["hi"] < 100 or case["kind"] != "item" else 1)
        else:
            e["msg"] = str(v)[:200]
        ev.append(e)
    return ev


# ---------------------------------------------------------------- NaN
def nan_case(rng, kind):
    p = small_params(rng, kind)
    what = rng.choice(["clean", "nan", "inf", "rate", "preset"])
    if kind == "als" and what == "rate":
        what = "nan"
    if what == "preset":
        p["iterations"] = 0
    if what == "rate":
        p.update(learning_rate=rng.choice([1e20, 1e30]), iterations=8)
        if kind == "bpr":
            p["regularization"] = 10.0
    return dict(mode="nan", size=rng.choice([(6, 7)] * 4 + [(350, 7), (6, 350)]), kind=kind, rs=rng.randrange(1000), params=p, what=what, data=rng.randrange(10**6),
                loss=rng.random() < 0.3)


def exec_nan(case):
    rs = np.random.RandomState(case["data"])
    nu, ni = case.get("size", (6, 7))
    d = ((rs.rand(nu, ni) < 0.5) * rs.randint(1, 4, size=(nu, ni))).astype(np.float32)
    d[2, 3] = 1
    if case["what"] in ("nan", "inf"):
        d[2, 3] = float(case["what"])
    p = dict(case["params"])
    m = make(dict(case, params=p))
    if case["what"] == "preset":
        # warm start from factors of which a single value is NaN
        m.fit(sp.csr_matrix(d), show_progress=prog())
        f = m.user_factors if rs.rand() < 0.5 else m.item_factors
        f[rs.randint(f.shape[0]), rs.randint(f.shape[1])] = np.nan
    with np.errstate(all="ignore"):
        st, v = attempt(m.fit, sp.csr_matrix(d), show_progress=prog())
    nan = any(x is not None and bool(np.isnan(x).any()) for x in (m.user_factors, m.item_factors))
    return [dict(op="nan", res=st, nan=nan, clean=case["what"] == "clean", native=case["kind"] != "als" or p["use_cg"],
                 msg=str(v)[:200] if st != "ok" else "")]


# ---------------------------------------------------------------- rejected calls
NU, NI = 7, 9


def gen_rows(rng, rows, cols):
    return [[j for j in range(cols) if rng.random() < 0.4] for _ in range(rows)]


def gen_call(rng, op, fault, kind):
    """a call with one fault (nu, n: dimensions at that time are filled in by the driver)"""
    c = dict(op=op, fault=fault, seed=rng.randrange(10**6), batch=rng.random() < 0.6, form=rng.choice(["list", "i64", "i32"]),
             fmt=rng.choice(["csc", "coo", "lil", "dense", "csr_array"]), flt=rng.random() < 0.7, dtype=rng.choice(["float32", "float64", "int64"]),
             recalc=kind == "als" and op in ("rec", "simi") and rng.random() < 0.4, big=op in ("rec", "recu") and rng.random() < 0.08)
    if op == "rec" and (fault in ("csr", "rows", "liked", "selliked") and kind not in KNN and not c["recalc"]):
        c["flt"] = True
    if fault == "id":
        c["recalc"] = False
    return c


def far(rs, n):
    return n + int(rs.choice([0, 1, 2, 17, 1000, 10**6]))


def perform(m, case, c, intern):
    kind = case["kind"]
    knn = kind in KNN
    rs = np.random.RandomState(c["seed"])
    if knn:
        nu, n = NU, int(m.similarity.shape[0])
    else:
        nu, n = int(m.user_factors.shape[0]), int(m.item_factors.shape[0])
    op, fault, batch = c["op"], c["fault"], c["batch"] or c["big"] or c["op"] in ("pfu", "pfi")
    side = nu if op in ("rec", "simu", "recu", "pfu") else n          # what the ids name
    cols = nu if op in ("reci", "pfi") or (op == "simi") else n       # what the matrix's columns name
    nq = 1 if not batch else (130 if c["big"] else int(rs.randint(1, 5)))
    if op in ("pfu", "pfi"):
        ids = rs.choice(side, size=min(nq, side), replace=False)
        nq = len(ids)
    else:
        ids = rs.randint(side, size=nq)
    if fault == "neg":
        ids[rs.randint(nq)] = int(rs.choice([-1, -side, -side - 1]))
    if fault == "id":
        ids[rs.randint(nq)] = far(rs, side)
    # the matrix
    usesm = op in ("recu", "reci", "pfu", "pfi") or (op == "rec" and (knn or c["flt"] or c["recalc"])) \
        or (op == "simi" and c["recalc"])
    rows = nq
    if fault == "rows":
        rows = int(rs.choice([r for r in (0, nq - 1, nq + 1, nq + 2, side) if r != nq and r >= 0]))
    dense = (rs.rand(rows, cols) < 0.4) * rs.randint(1, 4, size=(rows, cols))
    width = cols
    if fault in ("liked", "selliked") and rows:
        bad = far(rs, cols)
        width = bad + 1 + int(rs.randint(2))
        mat = sp.lil_matrix((rows, width))
        mat[:, :cols] = dense
        mat[rs.randint(rows), bad] = 1
        mat = mat.tocsr()
    else:
        mat = sp.csr_matrix(dense)
        if rs.rand() < 0.2 and op != "simi":
            mat = sp.csr_matrix((mat.data, mat.indices, mat.indptr), shape=(rows, cols + 3))   # room, but no such ids
    mat = mat.astype(c["dtype"])
    liked = sorted({int(j) for j in mat.indices})
    if op == "rec" and usesm and knn and not batch:
        liked = sorted({int(j) for j in mat[0].indices}) if rows else []
    csr = True
    arg = mat
    if fault == "csr":
        csr = False
        arg = np.asarray(mat.todense()) if c["fmt"] == "dense" else sp.csr_array(mat) if c["fmt"] == "csr_array" else mat.asformat(c["fmt"])
    ncand = nu if op == "simu" else n
    sel = filt = None
    if fault in ("both", "sel", "selliked"):
        sel = [int(x) for x in rs.randint(ncand, size=rs.randint(1, 4))]
        if fault == "sel":
            sel[rs.randint(len(sel))] = int(rs.choice([-1, -ncand, -ncand - 1, far(rs, ncand)]))
    elif fault == "none" and rs.rand() < 0.3:
        sel = [int(x) for x in rs.randint(ncand, size=rs.randint(1, 4))]
    if fault == "both" or (sel is None and rs.rand() < 0.3):
        filt = [int(x) for x in rs.randint(ncand, size=rs.randint(1, 4))]
    if fault == "filt":
        sel, filt = None, [int(x) for x in rs.randint(ncand, size=rs.randint(1, 4))]
        filt[rs.randint(len(filt))] = int(rs.choice([-1, -ncand, -ncand - 1, far(rs, ncand)]))
    conv = {"list": list, "i64": lambda x: np.array(x, dtype=np.int64), "i32": lambda x: np.array(x, dtype=np.int32)}[c["form"]]
    q = np.array(ids) if batch else int(ids[0])
    kw = {}
    if op in ("rec", "simi", "simu"):
        kw["N"] = int(rs.choice([1, 3, 20]))
        if sel is not None:
            kw["users" if op == "simu" else "items"] = conv(sel)
        if filt is not None:
            kw["filter_users" if op == "simu" else "filter_items"] = conv(filt)
    else:
        sel = filt = None
    m2 = [nu, n]
    if op == "refit":
        grow = [(-1, 0), (1, 0), (3, 0)] if fault == "users" else [(0, -1), (0, 1), (0, 4)] if fault == "items" else \
            [(1, 1), (-1, 2), (2, -1), (-1, -1)] if fault == "both" else [(0, 0)]
        g = grow[rs.randint(len(grow))]
        m2 = [nu + g[0], n + g[1]]
        arg = sp.csr_matrix(((rs.rand(*m2) < 0.5) * rs.randint(1, 4, size=m2)).astype(np.float32))
        call = lambda: m.fit(arg, show_progress=prog())
    elif op == "rec":
        if c["recalc"]:
            kw["recalculate_user"] = True
        call = lambda: m.recommend(q, arg, filter_already_liked_items=c["flt"], **kw)
    elif op == "simi":
        if c["recalc"]:
            kw.update(recalculate_item=True, item_users=arg)
        call = lambda: m.similar_items(q, **kw)
    elif op == "simu":
        call = lambda: m.similar_users(q, **kw)
    elif op == "recu":
        call = lambda: m.recalculate_user(q, arg)
    elif op == "reci":
        call = lambda: m.recalculate_item(q, arg)
    elif op == "pfu":
        call = lambda: m.partial_fit_users(q, arg)
    else:
        call = lambda: m.partial_fit_items(q, arg)
    given = [arg if sp.issparse(arg) or isinstance(arg, np.ndarray) else 0, q] + [kw[k] for k in sorted(kw)]

    def content():
        return intern(m.similarity) if knn else intern(np.asarray(m.user_factors), np.asarray(m.item_factors))
    a0, c0 = intern(*given), content()
    st, v = attempt(call)
    return dict(op=op, fault=fault, knn=knn, recalc=bool(c["recalc"]), nq=nq, ids=[int(x) for x in ids], rows=rows, csr=csr, usesm=bool(usesm and op != "refit"),
                liked=liked, hassel=sel is not None, sel=sel or [], hasfilt=filt is not None, filt=filt or [], nu=nu, n=n, m=m2,
                k=1, frac=0, res=st, a0=a0, a1=intern(*given), c0=c0, c1=content(), msg=str(v)[:150] if st != "ok" else "")


def reject_case(rng, hist, kind):
    ops = {"als": None, "bpr": {"rec", "simi", "simu", "refit"}, "lmf": {"rec", "simi", "simu", "refit"}}.get(
        kind, {"rec", "simi", "refit"} if kind in KNN else None)
    calls = [gen_call(rng, op, f, kind) for op, f in hist if ops is None or op in ops]
    if kind in KNN:
        calls = [c for c in calls if not (c["op"] == "refit" and c["fault"] != "none")]
    return dict(mode="reject", kind=kind, rs=rng.randrange(1000), params=small_params(rng, kind) if kind in MF else {},
                calls=calls, data=rng.randrange(10**6), nt=rng.choice([1, 2, 4]))


def exec_reject(case):
    rs = np.random.RandomState(case["data"])
    d = sp.csr_matrix(((rs.rand(NU, NI) < 0.5) * rs.randint(1, 4, size=(NU, NI))).astype(np.float32))
    m = make(case)
    m.fit(d, show_progress=prog())
    intern = Intern()
    return [perform(m, case, c, intern) for c in case["calls"]]


def split_case(rng):
    return dict(mode="split", data=rng.randrange(10**6), k=rng.choice([-1, 0, 1, 2]), frac=rng.choice([-50, -1, 0, 25, 50, 100, 101, 150]),
                fmt=rng.choice(["csr", "coo"]))


def exec_split(case):
    from implicit.evaluation import leave_k_out_split
    rs = np.random.RandomState(case["data"])
    d = sp.csr_matrix(((rs.rand(6, 7) < 0.6) * 1.0)).asformat(case["fmt"])
    intern = Intern()
    a0 = intern(d)
    st, v = attempt(leave_k_out_split, d, K=case["k"], train_only_size=case["frac"] / 100)
    return [dict(op="lko", k=case["k"], frac=case["frac"], knn=False, recalc=False, nq=0, ids=[], rows=0, csr=True, usesm=False,
                 liked=[], hassel=False, sel=[], hasfilt=False, filt=[], nu=0, n=0, m=[0, 0], res=st, a0=a0, a1=intern(d), c0=0, c1=0,
                 msg=str(v)[:150] if st != "ok" else "")]


def execute(case):
    return {"same": exec_same, "nan": exec_nan, "reject": exec_reject, "split": exec_split}[case["mode"]](case)


def run(ctx):
    ctx.model_check("Inputs", "Inputs_none.cfg")
    ctx.model_check("Inputs", "Inputs_unchecked.cfg", expect_violation="InBounds")
    ctx.model_check("Inputs", "Inputs_commitfirst.cfg", expect_violation="RejectedChangesNothing")
    ctx.model_check("Inputs", "Inputs_clobber.cfg", expect_violation="RejectedChangesNothing")
    rng, t = ctx.rng, ctx.thorough
    hists = ctx.generate("Inputs", "Inputs_gendeep.cfg" if t else "Inputs_gen.cfg")
    cases = [reject_case(rng, h, k) for h in hists for k in (["als"] if t else ["als", "als"])]
    for k in ["bpr", "lmf"] + KNN:
        cases += [reject_case(rng, h, k) for h in (rng.sample(hists, 4000) if t else hists) if rng.random() < (1 if t else 0.5)]
    # many calls on one model
    alle = sorted({(o, f) for h in hists for o, f in h})
    for k in MF + KNN:
        for _ in range(60 if t else 8):
            cases.append(reject_case(rng, rng.sample(alle, len(alle)), k))
    cases = [c for c in cases if c["calls"]]
    cases += [split_case(rng) for _ in range(60)]
    recs = ctx.drive(cases, procs=8)
    ctx.validate("TraceInputs", recs)
    same = [same_case(rng, k) for k in MF + KNN for _ in range(80 if t else 12)]
    same += [nan_case(rng, k) for k in MF for _ in range(300 if t else 50)]
    srecs = ctx.drive(same, procs=8)
    ctx.validate("TraceInputs", srecs)
    if not ctx.violations:
        def accepted(r):
            for e in r["ev"]:
                if e["res"] in ("ValueError", "IndexError"):
                    e["res"] = "ok"
                    return r

        def refused(r):
            for e in r["ev"]:
                if e["op"] == "rec" and e["res"] == "ok" and e["fault"] == "none":
                    e["res"] = "ValueError"
                    return r

        def changed(r):
            for e in r["ev"]:
                if e["res"] in ("ValueError", "IndexError"):
                    e["c1"] += 1000
                    return r

        def other(r):
            if r["ev"][0]["op"] == "same":
                r["ev"][-1]["v"][0][0] += 100
                return r
        ctx.corrupt("TraceInputs", recs[:400], accepted, label="an invalid call accepted")
        ctx.corrupt("TraceInputs", recs[:400], refused, label="a valid call refused")
        ctx.corrupt("TraceInputs", recs[:400], changed, label="a rejected call that changed the model")
        ctx.corrupt("TraceInputs", srecs, other, label="another model for another form")


def replay(ctx):
    ctx.validate("TraceInputs", ctx.drive(ctx.only_cases))
