"""C07: recalculated ALS factors solve the weighted least squares problem."""
import numpy as np

from ..core import q as quant
from ..qlib import attempt, csr_rows, gen_vectors, new_model

LEVEL = "model_checking"
ASSUMPTIONS = ["factors of the other side are integers and confidences multiples of 1/16, so that "
               "the normal equations are exact; solutions are checked by their residual at a "
               "scale between 2^8 and 2^20, and in double precision to 10^-12 for factors with fractional parts"]
ALPHAS = [1, 1, 1, 2, 0.5, 1.5, 0.25, 10]
VALUES = [1, 1, 2, 3, 5, 0.5, 0.25, -1, -2, -0.5, -0.25, 0.75, 4]


def stored_as(rng, rows, a4):
    """a type for the stored confidences, and whether alpha is given as an int: integers are
    stored as (small) integers too, which alpha must not overflow"""
    c = [e[1] for r in rows for e in r]
    kinds = ["float32", "float64"]
    if all(v % 4 == 0 for v in c):
        kinds += ["int8", "int32", "int64"] + (["uint8", "uint8"] if all(v >= 0 for v in c) else [])
    return rng.choice(kinds), a4 % 4 == 0 and rng.random() < 0.6


def gen_case(rng, wide=None):
    f = rng.choice([1, 1, 2, 2, 3, 4, 4, 7, 16, 33])
    f = {"factors": rng.choice([64, 65, 100, 130]), "long": rng.choice([2, 5]), "many": rng.choice([2, 6])}.get(wide, f)
    side = rng.choice(["user", "item"])
    lim = rng.choice([1, 2, 3]) if f <= 4 else 1
    n = rng.choice([1, 2, 4, 8, 12, 20])           # the other side
    n = {"factors": rng.choice([20, 90]), "long": rng.choice([130, 260, 520])}.get(wide, n)
    m = rng.choice([1, 3, 6])                  # this side
    rows = []
    style = rng.choice(["pos", "mixed", "mixed", "frac"] + (["large"] if f <= 4 else []))
    vals = {"large": [5, 30, 100, 120], "pos": [1, 2, 3, 5, 8], "mixed": VALUES, "frac": [0.25, 0.5, 0.75, -0.5, -0.25, 1]}[style]
    for _ in range(rng.choice([1, 2, 5, 9, 17, 30]) if wide is None else 3 if wide != "many" else rng.choice([70, 130, 300])):
        p = rng.choice([0, 0.2, 0.5, 1])
        ids = [j for j in range(n) if rng.random() < p]
        if rng.random() < 0.4:
            rng.shuffle(ids)
        rows.append([[j, int(4 * rng.choice(vals))] for j in ids])
    a4 = int(4 * rng.choice(ALPHAS + [3, 40] if style == "large" else ALPHAS))
    vtype, aint = stored_as(rng, rows, a4)
    return dict(f=f, side=side, Y=gen_vectors(rng, n, f, -lim, lim, 0.1),
                X=gen_vectors(rng, m, f, -lim, lim), rows=rows,
                a4=a4, aint=aint, l16=rng.choice([2, 8, 16, 32, 160]),
                dtype=rng.choice(["float32", "float64"]), threads=rng.choice([0, 1, 2, 3, 8]),
                vtype=vtype, N=rng.choice([1, 2, 5, 20]),
                probe=rng.randrange(len(rows)), flt=rng.random() < 0.5)


def scale_for(case, x):
    """largest power of two with every partial sum of the residual below 2^30"""
    a = max([abs(e[1]) for r in case["rows"] for e in r] or [0]) * case["a4"] + 16
    lim = max([abs(v) for y in case["Y"] for v in y] or [1]) or 1
    bound = (a * lim * lim * len(case["Y"]) * 2 + case["l16"]) * case["f"]
    top = max(float(np.abs(x).max()) if x.size else 0, 1.0)
    s = 1 << 20
    while s > 1 and s * bound * top > 2**30:
        s >>= 1
    return s


def alpha_of(case):
    return case["a4"] // 4 if case.get("aint") else case["a4"] / 4


def make(case):
    m = new_model("als", factors=case["f"], regularization=case["l16"] / 16, alpha=alpha_of(case),
                  dtype=np.dtype(case["dtype"]), num_threads=case["threads"])
    Y = np.array(case["Y"], dtype=case["dtype"])
    X = np.array(case["X"], dtype=case["dtype"])
    m.item_factors, m.user_factors = (Y, X) if case["side"] == "user" else (X, Y)
    return m


def ints(x, s):
    if not np.all(np.isfinite(x)):
        return [[10**9] * x.shape[-1]] * (x.shape[0] if x.ndim == 2 else 1)
    return [[int(max(min(round(float(v) * s), 10**9), -10**9)) for v in r] for r in np.atleast_2d(x)]


# -------------------------------------------------------- double precision
def precise_case(rng):
    """factors K / Z with more digits than single precision has in their products"""
    f, n, Z = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 4]), rng.choice([128, 128, 256])
    rows = []
    for _ in range(rng.choice([1, 2, 9])):
        ids = rng.sample(range(n), rng.randint(1, n))
        rows.append([[j, rng.choice([1, 1, 2, 3, -1, -2])] for j in ids])
    Q, digits, vtype = 1, (1000, 3500), rng.choice(["float32", "float64", "int32"])
    if rng.random() < 0.4:          # small confidences, in units of 1 / Q
        Z, Q, digits = rng.choice([16, 32]), rng.choice([256, 1024]), (20, 150)
        rows = [[[j, rng.choice([1, 1, -1]) * rng.choice([1, 1, 2, 3, 30, Q, 2 * Q, Q - 1])] for j, _ in r] for r in rows]
    return dict(mode="precise", Q=Q, by_alpha=rng.random() < 0.5, K=[[rng.choice([1, -1]) * rng.randint(*digits) for _ in range(f)] for _ in range(n)], Z=Z,
                rows=rows, l=rng.choice([1, 2]), threads=rng.choice([0, 1, 3]), vtype=vtype,
                side=rng.choice(["user", "item"]))


def limbs(x):
    out = []
    for v in x:
        n = int(round(float(v) * 10**12)) if np.isfinite(v) and abs(v) < 1e4 else 10**17
        s, n, d = (n > 0) - (n < 0), abs(n), []
        while n:
            d.append(s * (n % 1000))
            n //= 1000
        out.append(d)
    return out


def precise_matrix(case):
    """the matrix and alpha of a case: confidences c / Q as values, or as alpha times the values"""
    q = 1 if case["by_alpha"] else case["Q"]
    vtype = case["vtype"] if q == 1 or case["vtype"] != "int32" else "float32"
    w = csr_rows([[e[0] for e in r] for r in case["rows"]], len(case["K"]), [[e[1] / q for e in r] for r in case["rows"]], vtype)
    return w, q / case["Q"]


def run_precise(case):
    f = len(case["K"][0])
    w, alpha = precise_matrix(case)
    m = new_model("als", factors=f, regularization=float(case["l"]), dtype=np.float64, num_threads=case["threads"], alpha=alpha)
    Y, X = np.array(case["K"]) / case["Z"], np.ones((2, f))
    m.item_factors, m.user_factors = (Y, X) if case["side"] == "user" else (X, Y)
    st, x = attempt(m.recalculate_user if case["side"] == "user" else m.recalculate_item, np.zeros(len(case["rows"]), dtype=int), w)
    e = dict(op="precise", res=st, K=case["K"], Z=case["Z"], l=case["l"], Q=case["Q"], rows=case["rows"], x=[], slack=1000 * case["Q"])
    if st == "ok":
        e["x"] = [limbs(r) for r in np.atleast_2d(x)]
    else:
        e["msg"] = x
    return {"Y": [], "a4": 4, "l16": 0}, [e]


def execute(case):
    if case.get("mode") == "precise":
        return run_precise(case)
    m = make(case)
    n = len(case["Y"])
    rows = case["rows"]
    w = csr_rows([[e[0] for e in r] for r in rows], n, [[e[1] / 4 for e in r] for r in rows],
                 case["vtype"])
    ids = np.zeros(len(rows), dtype=int)
    ev = []
    recalc = m.recalculate_user if case["side"] == "user" else m.recalculate_item

    st, x = attempt(recalc, ids, w)
    e = dict(op="recalc", res=st, rows=rows, xs=[], S=1, many=True, ndim=0)
    if st == "ok":
        e["ndim"] = int(np.ndim(x))
        e["S"] = scale_for(case, x)
        e["xs"] = ints(x, e["S"])
    else:
        e["msg"] = x
    ev.append(e)
    # a single row, as a scalar id
    k = case["probe"]
    st, x1 = attempt(recalc, 0, w[k])
    e = dict(op="recalc", res=st, rows=[rows[k]], xs=[], S=1, many=False, ndim=int(np.ndim(x1)))
    if st != "ok":
        e["msg"] = x1
        ev.append(e)
        return {"Y": case["Y"], "a4": case["a4"], "l16": case["l16"]}, ev
    e["S"] = S = scale_for(case, x1)
    e["xs"] = ints(x1, S)
    ev.append(e)
    # queries with recalculation
    if case["side"] == "user":
        top = max(1.0, float(np.abs(x1).max()))
        S = 4096
        while S * top * 40 > 2**30 and S > 1:
            S >>= 1
        kw = dict(N=case["N"], recalculate_user=True, filter_already_liked_items=case["flt"])
        for batch in (False, True):
            uid = np.zeros(len(rows), dtype=int) if batch else 0
            st, v = attempt(m.recommend, uid, w if batch else w[k], **kw)
            e = dict(op="rec", res=st, xs=ints(x1, S)[0], S=S, N=case["N"], ids=[], sc=[],
                     hide=[a[0] for a in rows[k]] if case["flt"] else [])
            if st == "ok":
                i, s = (v[0][k], v[1][k]) if batch else v
                e["ids"], e["sc"] = [int(a) for a in i], [quant(a, S) for a in s]
            else:
                e["msg"] = v
            ev.append(e)
    else:
        top = float(np.abs(x1).max())
        if top == 0 or top > 1e-3:
            S = (1000.0 if case["f"] <= 33 else 300.0) / top if top else 1
            kw = dict(N=case["N"], recalculate_item=True)
            for batch in (False, True):
                iid = np.zeros(len(rows), dtype=int) if batch else 0
                st, v = attempt(m.similar_items, iid, item_users=w if batch else w[k], **kw)
                e = dict(op="simi", res=st, xs=ints(x1, S)[0], S=1, N=case["N"], ids=[], sc=[], tol=40)
                if st == "ok":
                    i, s = (v[0][k], v[1][k]) if batch else v
                    e["ids"], e["sc"] = [int(a) for a in i], [quant(a, 10000) for a in s]
                else:
                    e["msg"] = v
                ev.append(e)
    return {"Y": case["Y"], "V": case["X"], "a4": case["a4"], "l16": case["l16"]}, ev


def run(ctx):
    ctx.model_check("AlsObjective", "AlsObjective_f1.cfg")
    ctx.model_check("AlsObjective", "AlsObjective_deep.cfg" if ctx.thorough else "AlsObjective_f2.cfg")
    ctx.model_check("AlsObjective", "AlsObjective_sign.cfg", expect_violation="Expansion")
    ctx.model_check("MCBig")
    rng = ctx.rng
    cases = [gen_case(rng) for _ in range(12000 if ctx.thorough else 1200)]
    for w in ("factors", "long", "many"):
        cases += [gen_case(rng, w) for _ in range(120 if ctx.thorough else 12)]
    cases += [precise_case(rng) for _ in range(1000 if ctx.thorough else 100)]
    recs = ctx.drive(cases)
    ctx.validate("TraceAls", recs)
    if not ctx.violations:
        def off(r):
            e = r["ev"][0]
            for k, x in enumerate(e["xs"]):
                if e["rows"][k] and e["S"] >= 256:
                    x[0] += max(4, e["S"] // 8)
                    return r

        def score(r):
            for e in r["ev"]:
                if e["op"] == "rec" and e["sc"] and e["sc"][0][0] == 0:
                    e["sc"][0][1] += 60
                    return r
        def single(r):
            e = r["ev"][0]
            for x in e["x"]:
                for d in x:
                    if len(d) >= 4:             # the eighth digit
                        d[1] += 200 if d[1] < 0 else -200
                        return r
        ctx.corrupt("TraceAls", recs[:300], off, label="one factor off")
        ctx.corrupt("TraceAls", [r for r in recs if r["ev"][0]["op"] == "precise"], single, label="a factor in single precision")
        ctx.corrupt("TraceAls", recs[:300], score, label="a score off")


def replay(ctx):
    ctx.validate("TraceAls", ctx.drive(ctx.only_cases))
