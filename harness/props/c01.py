"""C01: recommend() of matrix factorization models is the exact top N."""
import numpy as np

from ..qlib import MODELS, gen_liked, gen_vectors, model_with, pick_N, run_query

LEVEL = "model_checking"
ASSUMPTIONS = [
    "factors are integers divided by a power of two, so that scores are exact in floating point",
    "GPU implementations are not exercised (no CUDA in the sandbox)",
]


def base_query(**kw):
    e = dict(op="rec", q=[0], batch=False, N=1, liked=[[]], flt=False, filt=[], hassel=False,
             sel=[], form="i64")
    e.update(kw)
    return e


def grouped(gen, rng):
    """TLC-enumerated inputs, grouped by catalogue into one model each."""
    by = {}
    for g in gen:
        by.setdefault(tuple(g["score"]), []).append(g)
    cases = []
    for score, gs in by.items():
        qs = [base_query(N=g["N"], liked=[g["liked"]], flt=g["flt"], filt=g["filt"],
                         hassel=g["hassel"], sel=g["sel"],
                         form=rng.choice(["list", "i64", "i32"]), vals=rng.choice([0, 0, 1, 2, 3])) for g in gs]
        for a in range(0, len(qs), 400):
            cases.append(dict(kind=rng.choice(MODELS), dtype=rng.choice(["float32", "float64"]),
                              shift=0, threads=rng.choice([0, 1, 4]), U=[[1], [-1]],
                              V=[[s] for s in score], qs=qs[a:a + 400]))
    return cases


def random_case(rng, n=None, nu=None, f=None, nq=6, filters=False, big=False):
    n = n or rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 77])
    f = f or rng.choice([1, 2, 3, 4, 8])
    wide = rng.random() < 0.5
    lo, hi = (-40, 40) if wide else (-2, 2)
    shift = rng.choice([0, 0, 3, 6, 10, 30, 40, -15])
    nu = nu or rng.randint(1, 12)
    U = gen_vectors(rng, nu, f, lo, hi)
    V = gen_vectors(rng, n, f, lo, hi)
    qs = []
    for _ in range(nq):
        batch = rng.random() < 0.6
        k = rng.choice([1, 2, 3, nu]) if batch else 1
        if big and batch:
            k = nu
        us = [rng.randrange(nu) for _ in range(k)]
        if big and batch:
            us = list(range(nu))
            rng.shuffle(us)
        flt = rng.random() < (0.8 if filters else 0.3)
        liked = [gen_liked(rng, n) for _ in us]
        e = base_query(q=us, batch=batch, N=pick_N(rng, n), liked=liked, flt=flt,
                       form=rng.choice(["list", "i64", "i32", "tuple", "u32", "i16"]), npscalar=rng.random() < 0.3,
                       vals=rng.choice([0, 1, 2, 3, 4, 5, 6, 7]))
        if filters:
            r = rng.random()
            if r < 0.4:
                e["filt"] = sorted(rng.sample(range(n), rng.randint(0, n)))
                rng.shuffle(e["filt"])
                e["emptyfilt"] = True
            elif r < 0.8:
                e["hassel"] = True
                e["sel"] = rng.sample(range(n), rng.choice([max(1, n - 1), rng.randint(1, n), rng.randint(1, n)]))
                if rng.random() < 0.3:
                    e["sel"].sort()
                if rng.random() < 0.2:
                    e["sel"] = e["sel"] + e["sel"][:1]
        qs.append(e)
    return dict(kind=rng.choice(MODELS), dtype=rng.choice(["float32", "float64"]), shift=shift,
                threads=rng.choice([0, 1, 2, 3, 8]), U=U, V=V, qs=qs)


def fine_case(rng):
    """scores that use the full precision of the floating point type: large, with tiny differences"""
    c = random_case(rng, n=rng.choice([2, 5, 9, 30]), nu=3, f=rng.choice([1, 2]), nq=4)
    big = 2**26 if c["dtype"] == "float64" else 2**22
    f = len(c["V"][0])
    c["U"] = [[1] * f, [-1] + [1] * (f - 1), [1] + [-1] * (f - 1)]
    c["V"] = [[rng.choice([big, big, -big, 0]) + rng.randint(0, 5)] + [rng.randint(-2, 2)] * (f - 1) for _ in c["V"]]
    return c


def sweep_cases(rng, filters=False):
    """Catalogue sizes and N across a range of magnitudes, and batches across the internal
    block sizes."""
    out = []
    for n in [100, 129, 257, 600, 1500]:
        out.append(random_case(rng, n=n, f=2, nq=4, filters=filters))
        # a long selection, and many results from it
        c = random_case(rng, n=n, nu=4, f=2, nq=2, filters=filters)
        for q in c["qs"]:
            sel = rng.sample(range(n), n - rng.randint(0, n // 4))
            q.update(hassel=True, sel=sel, filt=[], emptyfilt=False, N=rng.choice([n // 2 + 20, n, len(sel) - 3]))
        out.append(c)
    for nu in [99, 100, 101, 150, 199, 200, 201, 330]:
        out.append(random_case(rng, n=rng.choice([3, 7, 12]), nu=nu, f=2, nq=3, filters=filters,
                               big=True))
    # thousands of results
    c = random_case(rng, n=6000, nu=3, f=2, nq=4, filters=filters)
    for k, q in enumerate(c["qs"]):
        q.update(q=[k % 3], liked=q["liked"][:1], N=rng.choice([4200, 5300, 6000]))
    out.append(c)
    # catalogues beyond 16 bit ids
    for n in (33000, rng.choice([65600, 70001])):
        c = random_case(rng, n=n, nu=2, f=1, nq=3 if filters else 1)
        for k, q in enumerate(c["qs"]):
            q.update(q=[0], batch=k == 1, N=rng.choice([1, 10, 300]) if k < 2 else 310, hassel=filters and k > 0, flt=filters or q["flt"],
                     liked=[sorted(rng.sample(range(n), 200)) if filters else q["liked"][0]])
            top = sorted(range(n), key=lambda j: -c["V"][j][0] * c["U"][0][0])[:900]
            some = rng.sample(top, 300)
            q["liked"][0] = sorted(set(q["liked"][0] + rng.sample(some, 60)))
            q["sel"] = some if q["hassel"] else []
            q["filt"] = rng.sample(top, 350) if filters and k == 0 else []
        out.append(c)
    # many factors
    for f in [31, 64, 100, 130]:
        c = random_case(rng, n=12, nu=5, f=f, nq=4, filters=filters)
        c["U"] = gen_vectors(rng, 5, f, -1, 1)
        c["V"] = gen_vectors(rng, 12, f, -1, 1)
        out.append(c)
    return out


HUGE = 21700000        # times 100 users: more scores than an int can count


def huge_case(rng, n=HUGE):
    """a catalogue where all but a few items are zero vectors and those score higher: the record lists only these,
    at their positions in at (any other id is not one of the record's)"""
    at = sorted(rng.sample(range(n), 5) + [n - 1])
    return dict(huge=n, at=at, kind="als", dtype="float32", shift=0, threads=1, U=[[rng.choice([1, 2])] for _ in range(100)],
                V=[[rng.randint(1, 50)] for _ in at], qs=[base_query(q=list(range(100)), batch=True, N=rng.randint(1, 6), liked=[[]] * 100)])


def execute_huge(case):
    m = model_with(case["kind"], case["U"], case["V"], case["dtype"], case["shift"], case["threads"])
    V = np.zeros((case["huge"], 1), dtype=case["dtype"])
    V[case["at"]] = case["V"]
    m.item_factors = V
    ev = [run_query(m, q, case["shift"], case["huge"]) for q in case["qs"]]
    pos = {j: k for k, j in enumerate(case["at"])}
    for e in ev:
        e["ids"] = [[pos.get(j, -5) for j in row] for row in e["ids"]]
    return {"U": case["U"], "V": case["V"]}, ev


def memory():
    """available memory in GB"""
    try:
        return next(int(x.split()[1]) for x in open("/proc/meminfo") if x.startswith("MemAvailable")) / 2**20
    except (OSError, StopIteration, ValueError):
        return 0


def execute(case):
    if "huge" in case:
        return execute_huge(case)
    m = model_with(case["kind"], case["U"], case["V"], case["dtype"], case["shift"],
                   case["threads"], **case.get("kw", {}))
    if case["kind"] == "als":
        m.dtype = m.item_factors.dtype
    ev = [run_query(m, q, case["shift"], len(case["V"])) for q in case["qs"]]
    return {"U": case["U"], "V": case["V"]}, ev


def corruptions(ctx, module, recs):
    def drop(r):
        for e in r["ev"]:
            if e["ids"] and len(e["ids"][0]) > 0:
                e["ids"][0], e["sc"][0] = e["ids"][0][:-1], e["sc"][0][:-1]
                return r

    def rescore(r):
        for e in r["ev"]:
            if e["sc"] and e["sc"][0] and e["sc"][0][0][0] == 0:
                e["sc"][0][0][1] += 900
                return r
    ctx.corrupt(module, recs[:40], drop, label="one result dropped")
    ctx.corrupt(module, recs[:40], rescore, label="one score changed")


def run(ctx):
    ctx.model_check("Select", "Select_deep.cfg" if ctx.thorough else "Select_none.cfg")
    ctx.model_check("Select", "Select_ge.cfg", expect_violation="Exact")
    ctx.model_check("Select", "Select_nopad.cfg", expect_violation="Exact")
    gen = ctx.generate("GenQuery", "GenQuery_plaindeep.cfg" if ctx.thorough else "GenQuery_plain.cfg")
    cases = grouped(gen, ctx.rng)
    for _ in range(1500 if ctx.thorough else 130):
        cases.append(random_case(ctx.rng, filters=ctx.rng.random() < 0.3))
    for _ in range(6 if ctx.thorough else 1):
        cases += sweep_cases(ctx.rng)
    cases += [fine_case(ctx.rng) for _ in range(300 if ctx.thorough else 50)]
    cases += [huge_case(ctx.rng, n) for n in (200, 5000, 300000)]
    recs = ctx.drive(cases)
    if ctx.thorough and memory() > 20:
        recs += ctx.drive([huge_case(ctx.rng)], procs=1)
    ctx.validate("TraceQuery", recs)
    if not ctx.violations:
        corruptions(ctx, "TraceQuery", recs)


def replay(ctx):
    ctx.validate("TraceQuery", ctx.drive(ctx.only_cases))
