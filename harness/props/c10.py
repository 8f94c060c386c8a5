"""C10: explain() decomposes the predicted score."""
import numpy as np

from ..qlib import attempt, csr_rows, gen_vectors, new_model
from .c07 import ALPHAS, VALUES, alpha_of, ints, stored_as

LEVEL = "model_checking"
ASSUMPTIONS = ["item factors are integers and confidences multiples of 1/16, so that the normal "
               "matrix is exact; the inverse applied to the item is supplied as a witness which "
               "the specification verifies"]


def gen_case(rng, users=None):
    f = rng.choice([1, 2, 3, 4, 8])
    n = rng.choice([1, 2, 5, 9, 16, 16, 60])
    vals = rng.choice([[1, 2, 3, 5], VALUES, [0.25, 0.5, 0.75, -0.5, 1], [5, 30, 100]])
    rows = []
    for _ in range(users or rng.choice([1, 3, 6])):
        p = rng.choice([0.1, 0.3, 0.6, 1])
        ids = [j for j in range(n) if rng.random() < p] or [rng.randrange(n)]
        if rng.random() < 0.4:
            rng.shuffle(ids)
        rows.append([[j, int(4 * rng.choice(vals))] for j in ids])
    u = rng.randrange(len(rows))
    qs = [dict(item=rng.randrange(n), N=rng.choice([0, 1, 2, 3, 10, 25, 40, 100]), reuse=rng.random() < 0.5)
          for _ in range(4)]
    qs[0]["reuse"] = False
    a4 = int(4 * rng.choice(ALPHAS))
    vtype, aint = stored_as(rng, rows, a4)
    return dict(f=f, Y=gen_vectors(rng, n, f, -2, 2, 0.1), rows=rows, u=u, qs=qs,
                a4=a4, aint=aint, l16=rng.choice([2, 8, 16, 32]),
                dtype=rng.choice(["float32", "float64"]), vtype=vtype)


def small_case(rng):
    """confidences far below 1: 2^-e times the values"""
    c = gen_case(rng)
    for q in c["qs"]:
        q["N"] = rng.choice([1, 3, 100])
    return dict(c, small=rng.choice([8, 12, 16, 20]), vtype=rng.choice(["float32", "float64"]), aint=False, dtype="float64")


def run_small(case):
    f, n, unit = case["f"], len(case["Y"]), 2.0 ** -case["small"]
    m = new_model("als", factors=f, regularization=case["l16"] / 16, alpha=alpha_of(case), dtype=np.float64)
    m.item_factors, m.user_factors = np.array(case["Y"], dtype=float), np.zeros((len(case["rows"]), f))
    rows = case["rows"]
    w = csr_rows([[e[0] for e in r] for r in rows], n, [[e[1] / 4 * unit for e in r] for r in rows], case["vtype"])
    score = m.item_factors @ m.recalculate_user(0, w[case["u"]])
    S = 1000 / unit
    big = lambda v: int(max(-10**9, min(10**9, round(float(v) * S))))  # noqa
    ev, weights = [], None
    for qn in case["qs"]:
        st, v = attempt(m.explain, case["u"], w, qn["item"], N=qn["N"], user_weights=weights if qn["reuse"] else None)
        e = dict(op="small", res=st, row=rows[case["u"]], item=qn["item"], N=qn["N"], total=0, top=[], score=big(score[qn["item"]]))
        if st == "ok":
            total, top, weights = v
            e.update(total=big(total), top=[[int(a), big(b)] for a, b in top])
        else:
            e["msg"] = v
        ev.append(e)
    return {"Y": case["Y"], "a4": case["a4"], "l16": case["l16"]}, ev


def execute(case):
    if "small" in case:
        return run_small(case)
    f, n = case["f"], len(case["Y"])
    Y = np.array(case["Y"], dtype=case["dtype"])
    m = new_model("als", factors=f, regularization=case["l16"] / 16, alpha=alpha_of(case),
                  dtype=np.dtype(case["dtype"]))
    m.item_factors = Y
    m.user_factors = np.zeros((len(case["rows"]), f), dtype=case["dtype"])
    rows = case["rows"]
    w = csr_rows([[e[0] for e in r] for r in rows], n, [[e[1] / 4 for e in r] for r in rows],
                 case["vtype"])
    row = rows[case["u"]]
    # the witness: W y
    Yd = np.array(case["Y"], dtype=float)
    A = Yd.T @ Yd + case["l16"] / 16 * np.eye(f)
    for j, c4 in row:
        A += (abs(c4 * case["a4"]) / 16 - 1) * np.outer(Yd[j], Yd[j])
    x = m.recalculate_user(0, w[case["u"]])
    ev, weights = [], None
    for qn in case["qs"]:
        st, v = attempt(m.explain, case["u"], w, qn["item"], N=qn["N"],
                        user_weights=weights if qn["reuse"] else None)
        wit = np.linalg.solve(A, Yd[qn["item"]])
        big = max(1.0, np.abs(wit).max(), np.abs(x).max())
        conf = max(abs(c4 * case["a4"]) for _, c4 in row)
        S = 1 << 14
        while S > 16 and S * big * max(np.abs(A * 16).sum(axis=1).max(), conf * 2 * f * len(row)) > 2**30:
            S >>= 1
        e = dict(op="explain", res=st, row=row, item=qn["item"], N=qn["N"], S=S, total=0, top=[],
                 w=ints(wit, S)[0], xs=ints(x, S)[0])
        if st == "ok":
            total, top, weights = v
            e["total"] = int(round(float(total) * S))
            e["top"] = [[int(a), int(round(float(b) * S))] for a, b in top]
        else:
            e["msg"] = v
        ev.append(e)
    return {"Y": case["Y"], "a4": case["a4"], "l16": case["l16"]}, ev


def run(ctx):
    ctx.model_check("ExplainIdentity", "ExplainIdentity_deep.cfg" if ctx.thorough else "ExplainIdentity_none.cfg")
    ctx.model_check("ExplainIdentity", "ExplainIdentity_negatives.cfg", expect_violation="Identity")
    rng = ctx.rng
    cases = [gen_case(rng) for _ in range(8000 if ctx.thorough else 900)]
    cases += [gen_case(rng, rng.choice([35, 70, 150, 300])) for _ in range(300 if ctx.thorough else 40)]
    cases += [small_case(rng) for _ in range(800 if ctx.thorough else 90)]
    recs = ctx.drive(cases)
    ctx.validate("TraceExplain", recs)
    bad = [v for v in ctx.violations if v["clauses"] == ["witness_is_wrong"]]
    if bad:
        from ..core import CheckError
        raise CheckError(f"{len(bad)} witnesses of the harness were refused: {bad[0]['case']}")
    if not ctx.violations:
        def total(r):
            e = r["ev"][0]
            e["total"] += 4 * e["S"]
            return r

        def top(r):
            for e in r["ev"]:
                if len(e["top"]) > 1 and e["top"][0][1] > e["top"][1][1]:
                    e["top"] = e["top"][::-1]
                    return r

        def neg(r):
            for e in r["ev"]:
                ids = [x[0] for x in e["row"] if x[1] < 0]
                if ids and e["top"]:
                    e["top"][-1][0] = ids[0]
                    return r
        ctx.corrupt("TraceExplain", recs[:200], total, label="the total off")
        ctx.corrupt("TraceExplain", recs[:200], top, label="contributions in the wrong order")
        ctx.corrupt("TraceExplain", recs[:200], neg, label="a negatively rated item as contribution")


def replay(ctx):
    ctx.validate("TraceExplain", ctx.drive(ctx.only_cases))
