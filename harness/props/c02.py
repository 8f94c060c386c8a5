"""C02: similar_items() / similar_users() are the exact top N by cosine similarity."""
from ..qlib import MODELS, gen_vectors, pick_N
from . import c01
from .c01 import base_query, corruptions, execute  # noqa: F401

LEVEL = "model_checking"
ASSUMPTIONS = c01.ASSUMPTIONS


def random_case(rng, n=None, nu=None, f=None, nq=6, filters=False, big=False, lim=None):
    n = n or rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 77])
    nu = nu or rng.choice([1, 2, 3, 5, 9, 17, 33])
    f = f or rng.choice([1, 2, 3, 4, 5])
    lim = lim or rng.choice([1, 2, 5])
    U = gen_vectors(rng, nu, f, -lim, lim, zero_p=0.12)
    V = gen_vectors(rng, n, f, -lim, lim, zero_p=0.12)
    qs = []
    for _ in range(nq):
        op = rng.choice(["simi", "simu"])
        cnt = n if op == "simi" else nu
        batch = rng.random() < 0.6
        ids = [rng.randrange(cnt) for _ in range(rng.choice([1, 2, 4]) if batch else 1)]
        if batch and big:
            ids = [rng.randrange(cnt) for _ in range(big)]
        e = base_query(op=op, q=ids, batch=batch, N=pick_N(rng, cnt), liked=[],
                       form=rng.choice(["list", "i64", "i32", "tuple", "u32", "i16"]), npscalar=rng.random() < 0.3)
        if filters:
            r = rng.random()
            if r < 0.5:
                e["filt"] = rng.sample(range(cnt), rng.randint(0, cnt))
                e["emptyfilt"] = True
            else:
                e["hassel"] = True
                e["sel"] = rng.sample(range(cnt), rng.choice([max(1, cnt - 1), rng.randint(1, cnt), rng.randint(1, cnt)]))
                if rng.random() < 0.3:
                    e["sel"].sort()
                if rng.random() < 0.2:
                    e["sel"] = e["sel"] + e["sel"][:1]
        qs.append(e)
    return dict(kind=rng.choice(MODELS), dtype=rng.choice(["float32", "float64"]),
                shift=rng.choice([0, 0, 2, 5, 9, 14, 20, 27, 30, 40, -12]), threads=rng.choice([0, 1, 2, 3, 8]), U=U, V=V,
                qs=qs)


def sweep_cases(rng, filters=False):
    out = []
    for n in [100, 130, 300, 700]:
        out.append(random_case(rng, n=n, nu=n // 2, f=2, nq=4, filters=filters, lim=5))
    for k in [99, 100, 101, 200, 201, 330]:
        out.append(random_case(rng, n=11, nu=9, f=2, nq=4, filters=filters, big=k))
    for f in [31, 64, 100, 130]:
        out.append(random_case(rng, n=12, nu=8, f=f, nq=4, filters=filters, lim=1))
    # thousands of results
    c = random_case(rng, n=6000, nu=5500, f=2, nq=4, lim=12)
    for q in c["qs"]:
        q.update(q=q["q"][:2], N=rng.choice([4200, 5300, 6000]))
        q["batch"] = q["batch"] and len(q["q"]) == 2
    out.append(c)
    # ids beyond 16 bits
    for op, n in (("simi", rng.choice([33000, 65600])), ("simu", rng.choice([33000, 65600]))):
        c = random_case(rng, n=n if op == "simi" else 3, nu=n if op == "simu" else 3, f=2, nq=2, lim=12)
        for k, q in enumerate(c["qs"]):
            q.update(op=op, q=[n - 1 - rng.randint(0, 200)], batch=k == 1, N=rng.choice([1, 10, 300]))
            if filters:
                some = rng.sample(range(n), 400) + [q["q"][0]]
                q.update(hassel=k == 1, sel=some if k == 1 else [], filt=some if k == 0 else [])
        out.append(c)
    return out


def recalc_case(rng):
    """similar_items with recalculate_item: the user factors are multiples of the unit vectors and
    there is no regularization, so the recalculated item is 1 for the users who like it and 0 for
    the others (up to a common factor)"""
    f = rng.choice([1, 2, 3, 5, 8, 30, 70, 130])
    c = random_case(rng, n=rng.choice([1, 3, 8, 20, 150]), nu=2, f=f, nq=5, filters=rng.random() < 0.4,
                    lim=rng.choice([1, 2, 5]) if f <= 5 else 1)
    c["kind"], c["kw"] = "als", dict(regularization=0, alpha=rng.choice([1, 1, 2, 0.5]))
    c["shift"] = rng.choice([0, 2, 5, 11, -3, -12, -17])
    c["U"] = [[int(a == b) for b in range(f)] for a in range(f)]
    n = len(c["V"])
    c["qs"] = [q for q in c["qs"] if q["op"] == "simi"]
    for q in c["qs"]:
        if q["batch"] and rng.random() < 0.2:
            q["q"] = [rng.randrange(n) for _ in range(rng.choice([100, 101, 230]))]
        p = rng.choice([0.1, 0.4, 0.9])
        q["rows"] = [[[u, rng.choice([4, 8, 2, 12, -4, -8])] for u in range(f) if rng.random() < p] for _ in q["q"]]
        q["xq"] = [[max([int(v > 0) for a, v in r if a == u], default=0) for u in range(f)] for r in q["rows"]]
    return c


def run(ctx):
    ctx.model_check("Select", "Select_deep.cfg" if ctx.thorough else "Select_none.cfg")
    # every small catalogue in two dimensions, every query on it
    cases = []
    import itertools
    grid = [[a, b] for a in (-1, 0, 1) for b in (0, 1, 2)]
    combos = list(itertools.combinations_with_replacement(range(9), 3))
    if not ctx.thorough:
        combos = ctx.rng.sample(combos, 60)
    for comb in combos:
        V = [grid[j] for j in comb]
        U = [grid[j] for j in comb][::-1]
        qs = [base_query(op=op, q=[a], N=N, liked=[]) for op in ("simi", "simu")
              for a in range(3) for N in (1, 2, 3, 4)]
        cases.append(dict(kind=ctx.rng.choice(MODELS), dtype="float32", shift=0, threads=1, U=U,
                          V=V, qs=qs))
    for _ in range(1500 if ctx.thorough else 160):
        cases.append(random_case(ctx.rng, filters=ctx.rng.random() < 0.3))
    for _ in range(6 if ctx.thorough else 1):
        cases += sweep_cases(ctx.rng) + sweep_cases(ctx.rng, filters=True)
    cases += [recalc_case(ctx.rng) for _ in range(400 if ctx.thorough else 60)]
    recs = ctx.drive(cases)
    ctx.validate("TraceQuery", recs)
    if not ctx.violations:
        corruptions(ctx, "TraceQuery", recs)


replay = c01.replay
