"""C03: filters (liked items, filter_items / filter_users, items / users) are honoured."""
from . import c01, c02
from .c01 import execute  # noqa: F401

LEVEL = "model_checking"
ASSUMPTIONS = c01.ASSUMPTIONS


def run(ctx):
    gen = ctx.generate("GenQuery", "GenQuery_filtersdeep.cfg" if ctx.thorough
                       else "GenQuery_filters.cfg")
    cases = c01.grouped(gen, ctx.rng)
    for _ in range(1200 if ctx.thorough else 120):
        cases.append(c01.random_case(ctx.rng, filters=True))
        cases.append(c02.random_case(ctx.rng, filters=True))
    for _ in range(6 if ctx.thorough else 1):
        cases += c01.sweep_cases(ctx.rng, filters=True)
        cases += c02.sweep_cases(ctx.rng, filters=True)
    recs = ctx.drive(cases)
    ctx.validate("TraceQuery", recs)
    if not ctx.violations:
        def leak(r):
            for e in r["ev"]:
                if e["ids"] and e["filt"] and e["ids"][0] and e["sc"][0][0][0] == 0:
                    e["ids"][0][0] = e["filt"][0]
                    return r
        ctx.corrupt("TraceQuery", recs[:200], leak, label="a filtered id returned")


replay = c01.replay
