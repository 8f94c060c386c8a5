"""C13: train/test splits partition the interactions as documented."""
import random

import numpy as np
from scipy.sparse import coo_matrix

from ..qlib import attempt

LEVEL = "model_checking"
ASSUMPTIONS = ["train_only_size and train_percentage are dyadic fractions / percent; coverage of the "
               "random choices is judged over a few hundred seeds (6 sigma)"]
FORMS = ["csr", "csc", "coo", "lil", "unsorted", "shuffled_coo"]


def gen_inp(rng, users=None, dense=None, items=None):
    nu, ni = users or rng.choice([1, 2, 3, 6, 12]), items or rng.choice([2, 4, 7, 15])
    vals = rng.choice([[4], [4, 8, 12], [1, 2, 3, 4], [-4, 4, 8, -2],
                       [4 * (2**24 + k) for k in (1, 3, 5)] + [4]])      # beyond single precision
    inp = []
    ids = sorted(rng.sample(range(nu + rng.choice([0, 0, 3])), nu))   # gaps between the users
    for u in ids:
        p = dense or rng.choice([0, 0.2, 0.5, 1])
        inp += [[u, j, rng.choice(vals)] for j in range(ni) if rng.random() < p]
    if not inp:
        inp = [[ids[0], 0, 4]]
    return inp, [max(ids) + 1 + rng.choice([0, 0, 2]), ni + rng.choice([0, 0, 3])]


def gen_case(rng, users=None, items=None):
    inp, shape = gen_inp(rng, users, items=items)
    evs = []
    for _ in range(4):
        op = rng.choice(["tts", "lko", "lko"])
        evs.append(dict(op=op, pct=rng.choice([0, 25, 50, 75, 100]), K=rng.choice([1, 1, 2, 3, 5] if not items else [1, 5, 20, 60, 120]),
                        frac64=rng.choice([0, 0, 1, 8, 16, 32, 48, 63]), form=rng.choice(FORMS),
                        seed=rng.randrange(10**6), rs=rng.choice(["int", "int", "RandomState", "Generator"]),
                        dtype=rng.choice(["float64"] + (["float32"] if all(x[2] < 2**24 for x in inp) else []) + (["int64", "int32"] if all(x[2] % 4 == 0 for x in inp) else []))))
    return dict(inp=inp, shape=shape, evs=evs)


def cover_case(rng, n):
    inp, shape = gen_inp(rng, users=rng.choice([3, 5]), dense=0.8)
    return dict(inp=inp, shape=shape, cover=dict(K=rng.choice([1, 2]), frac64=rng.choice([0, 16, 24]),
                n=n, seed=rng.randrange(10**6), form=rng.choice(FORMS), pct=rng.choice([20, 50, 80])))


def matrix(inp, shape, form, dtype, seed):
    order = list(range(len(inp)))
    if form == "shuffled_coo":
        random.Random(seed).shuffle(order)
    m = coo_matrix((np.array([inp[k][2] / 4 for k in order], dtype=dtype),
                    (np.array([inp[k][0] for k in order], dtype=np.int32),
                     np.array([inp[k][1] for k in order], dtype=np.int32))), shape=shape)
    if form == "unsorted":
        m = m.tocsr()
        for u in range(shape[0]):
            a, b = m.indptr[u], m.indptr[u + 1]
            p = np.array(random.Random(seed + u).sample(range(b - a), b - a), dtype=int)
            m.indices[a:b], m.data[a:b] = m.indices[a:b][p], m.data[a:b][p]
        m.has_sorted_indices = False
        return m
    return {"csr": m.tocsr, "csc": m.tocsc, "lil": m.tolil}.get(form, lambda: m)()


def entries(m):
    m = m.tocoo()
    out = []
    for u, j, v in zip(m.row.tolist(), m.col.tolist(), m.data.tolist()):
        x = v * 4 if v == v and abs(v) < 1e8 else 10**9
        out.append([u, j, int(round(x)) if abs(x - round(x)) < 1e-6 else 10**9])
    return sorted(out)


def rstate(kind, seed):
    return {"int": lambda: seed, "RandomState": lambda: np.random.RandomState(seed),
            "Generator": lambda: np.random.default_rng(seed)}[kind]()


def execute_large(case):
    """a split of very many users; the record is its projection on some of them (any whose
    number of interactions looks odd first): every clause is about one user at a time"""
    from implicit.evaluation import leave_k_out_split, train_test_split
    nu, ni, K = case["users"], case["items"], case["K"]
    r = np.random.RandomState(case["seed"])
    counts = r.choice(case["counts"], nu)
    rows = np.repeat(np.arange(nu, dtype=np.int32), counts)
    first = np.repeat(np.cumsum(counts) - counts, counts)
    cols = ((rows.astype(np.int64) * 7919 + (np.arange(len(rows)) - first) * 11) % ni).astype(np.int32)
    m = coo_matrix((np.ones(len(rows), dtype=case["dtype"]), (rows, cols)), shape=(nu, ni))
    m = m.tocsr() if case["form"] == "csr" else m
    g0, p0 = np.random.get_state(), random.getstate()

    def call():
        if case["op"] == "tts":
            return train_test_split(m, train_percentage=0.5, random_state=case["seed"])
        return leave_k_out_split(m, K=K, random_state=case["seed"])
    st, v = attempt(call)
    e = dict(op=case["op"], res=st, pct=50, K=K, frac64=0, train=[], test=[], again=[[], []], shapes=[],
             after=[], glob=True)
    inp = []
    if st != "ok":
        e["msg"] = v
    else:
        g1 = np.random.get_state()
        e["glob"] = bool(all(np.array_equal(a, b) for a, b in zip(g0, g1)) and random.getstate() == p0)
        e["shapes"] = [list(map(int, v[0].shape)), list(map(int, v[1].shape))]
        n = [np.bincount(x.tocoo().row, minlength=nu)[:nu] for x in v]
        odd = n[0] + n[1] != counts
        if case["op"] == "lko":
            odd |= n[1] != np.where(counts > K + 1, K, 0)
        pick = set(np.flatnonzero(odd)[:20].tolist()) | set(r.choice(nu, 20, replace=False).tolist()) | {0, nu - 1}

        def some(x):
            x = x.tocoo()
            keep = np.isin(x.row, sorted(pick))
            return entries(coo_matrix((x.data[keep], (x.row[keep], x.col[keep])), shape=x.shape))
        w = call()
        inp = some(coo_matrix((np.ones(len(rows)), (rows, cols)), shape=(nu, ni)))
        e.update(train=some(v[0]), test=some(v[1]), again=[some(w[0]), some(w[1])], after=some(m))
    return {"inp": inp, "shape": [nu, ni]}, [e]


def execute(case):
    if "users" in case:
        return execute_large(case)
    from implicit.evaluation import leave_k_out_split, train_test_split
    inp, shape = case["inp"], case["shape"]
    ev = []
    for e in case.get("evs", []):
        e = dict(e)
        m = matrix(inp, shape, e["form"], e["dtype"], e["seed"])
        g0, p0 = np.random.get_state(), random.getstate()

        def call():
            if e["op"] == "tts":
                return train_test_split(m, train_percentage=e["pct"] / 100, random_state=rstate(e["rs"], e["seed"]))
            return leave_k_out_split(m, K=e["K"], train_only_size=e["frac64"] / 64,
                                     random_state=rstate(e["rs"], e["seed"]))
        st, v = attempt(call)
        e.update(res=st, train=[], test=[], again=[[], []], shapes=[], after=[], glob=True)
        if st != "ok":
            e["msg"] = v
        else:
            g1 = np.random.get_state()
            e["glob"] = bool(all(np.array_equal(a, b) for a, b in zip(g0, g1)) and random.getstate() == p0)
            e["train"], e["test"] = entries(v[0]), entries(v[1])
            e["shapes"] = [list(map(int, v[0].shape)), list(map(int, v[1].shape))]
            np.random.random(3)
            st2, w = attempt(call)
            e["again"] = [entries(w[0]), entries(w[1])] if st2 == "ok" else [[[0, 0, 0]] * 2, []]
            e["after"] = entries(m)
        ev.append(e)
    if "cover" in case:
        c = case["cover"]
        m = matrix(inp, shape, c["form"], "float64", c["seed"])
        users = sorted({x[0] for x in inp})
        elig = [u for u in users if sum(x[0] == u for x in inp) > c["K"] + 1]
        held = {(x[0], x[1]): 0 for x in inp}
        skip = {u: 0 for u in elig}
        intrain = draws = 0
        res = "ok"
        for k in range(c["n"]):
            st, v = attempt(leave_k_out_split, m, K=c["K"], train_only_size=c["frac64"] / 64, random_state=c["seed"] + k)
            if st != "ok":
                res = st
                break
            t = entries(v[1])
            for x in t:
                if (x[0], x[1]) in held:
                    held[x[0], x[1]] += 1
            for u in set(elig) - {x[0] for x in t}:
                skip[u] += 1
            st, v = attempt(train_test_split, m, train_percentage=c["pct"] / 100, random_state=c["seed"] + k)
            if st != "ok":
                res = st
                break
            intrain += v[0].nnz
            draws += len(inp)
        ev.append(dict(op="cover", res=res, K=c["K"], frac64=c["frac64"], n=c["n"],
                       held=[held[x[0], x[1]] for x in inp], skipped=[[u, n] for u, n in skip.items()]))
        ev.append(dict(op="share", res=res, pct=c["pct"], draws=draws, intrain=intrain))
    return {"inp": inp, "shape": shape}, ev


def run(ctx):
    ctx.model_check("TakeTails", "TakeTails_deep.cfg" if ctx.thorough else "TakeTails_none.cfg")
    for bug in ("gaps", "shuffleall"):
        ctx.model_check("TakeTails", f"TakeTails_{bug}.cfg", expect_violation="Exact")
    rng = ctx.rng
    # every assignment of 0..3 interactions (and more) to three users, by the model's own inputs
    cases = []
    for counts in __import__("itertools").product([0, 1, 2, 3, 4], repeat=3):
        inp = [[u, j, 4] for u in range(3) for j in range(counts[u])]
        if not inp:
            continue
        for K in (1, 2):
            cases.append(dict(inp=inp, shape=[4, 5], evs=[
                dict(op="lko", pct=0, K=K, frac64=f, form="csr", seed=rng.randrange(1000), rs="int", dtype="float64")
                for f in (0, 32)]))
    cases += [gen_case(rng) for _ in range(6000 if ctx.thorough else 900)]
    cases += [gen_case(rng, rng.choice([40, 90])) for _ in range(60 if ctx.thorough else 10)]
    cases += [gen_case(rng, rng.choice([1, 3, 6]), rng.choice([70, 140, 300])) for _ in range(120 if ctx.thorough else 20)]
    cases += [cover_case(rng, 400 if ctx.thorough else 150) for _ in range(60 if ctx.thorough else 14)]
    for nu, ni, op in [(70001, 50, "lko"), (150000, 70000, "lko"), (70001, 70000, "tts")] + (
            [(600000, 50, "lko"), (400000, 100000, "lko")] if ctx.thorough else []):
        cases.append(dict(users=nu, items=ni, op=op, K=rng.choice([1, 2]), counts=[1, 2, 3, 4, 5],
                          seed=rng.randrange(10**6), dtype=rng.choice(["float32", "float64"]),
                          form=rng.choice(["csr", "coo"])))
    recs = ctx.drive(cases)
    ctx.validate("TraceSplit", recs)
    if not ctx.violations:
        def both(r):
            for e in r["ev"]:
                if e["op"] in ("lko", "tts") and e["test"]:
                    e["train"].append(e["test"][0])
                    return r

        def lost(r):
            for e in r["ev"]:
                if e["op"] == "lko" and e["train"]:
                    e["train"].pop()
                    return r

        def more(r):
            for e in r["ev"]:
                if e["op"] == "lko" and e["test"]:
                    u = e["test"][0][0]
                    x = next((y for y in e["train"] if y[0] == u), None)
                    if x:
                        e["train"].remove(x)
                        e["test"].append(x)
                        return r
        ctx.corrupt("TraceSplit", recs[::3], both, label="an interaction on both sides")
        ctx.corrupt("TraceSplit", recs[::3], lost, label="an interaction lost")
        ctx.corrupt("TraceSplit", recs[::3], more, label="K+1 held out")


def replay(ctx):
    ctx.validate("TraceSplit", ctx.drive(ctx.only_cases))
