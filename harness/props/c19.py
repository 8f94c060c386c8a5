"""C19: the dataset cache is crash consistent."""
import os
import signal
import time

from .. import dl

LEVEL = "model_checking"
ASSUMPTIONS = ["a truncated transfer announces its length (otherwise truncation cannot be noticed)",
               "urllib is redirected to a loopback server; files live in a scratch HOME"]
NAMES = sorted(dl.FUNCS)


def execute(case):
    dl.setup()
    dl.clear()
    return {"line": run_lines, "hist": run_history, "basic": run_basic, "names": run_names,
            "pause": run_pause}[case["kind"]](case)


def run_history(case):
    """replays a history of the specification: <<call, step>>"""
    name, hist, chunks = case["name"], case["hist"], case["chunks"]
    calls, ev, open_ = {}, [], set()
    host = dl.Host() if case.get("threads") else None
    size = len(dl.STATE["pub"][name][0])

    def close(p):
        ev.append(calls[p].event(p, p == 1))
        open_.discard(p)

    def settle():
        # calls that were served completely come to an end
        for p in sorted(open_):
            if calls[p].ended():
                close(p)
    left = {}
    for p, what in hist:
        if what == "start":
            limit = None
            mine = [w for q, w in hist if q == p]
            if "nospace" in mine:
                limit = int(size / chunks * (mine.index("nospace") - 1 + 0.5))
            ev.append(dict(op="start", p=p, name=name))
            calls[p] = dl.ThreadCall(host, name, "gated", chunks) if host else dl.Call(name, "gated", chunks, limit)
            left[p] = chunks
            open_.add(p)
            calls[p].wait_request()
        elif p in open_ and not calls[p].ended():
            x = calls[p]
            if what == "recv":
                left[p] -= 1
                x.ctl["q"].put("recv")
                if left[p] == 0:
                    x.wait()
                else:
                    time.sleep(0.004)
            else:
                if what in ("kill", "int"):
                    time.sleep(0.01)
                    x.fault = what
                    os.kill(x.pid, signal.SIGKILL if what == "kill" else signal.SIGINT)
                else:
                    x.fault = "server"
                    if what != "nospace":
                        x.ctl["mode"] = what         # and every further attempt of this call
                    x.ctl["q"].put("rest" if what == "nospace" else what)
                x.wait()
        settle()
    for p in sorted(open_):
        calls[p].ctl["mode"] = "auto"
        calls[p].ctl["q"].put("rest")
        calls[p].wait()
        close(p)
    if host:
        host.close()
    for k in (8, 9):
        ev.append(dict(op="start", p=k, name=name))
        x = dl.Call(name, "auto" if k == 8 else "down")
        x.wait()
        ev.append(x.event(k, False))
    return ev


def run_lines(case):
    """a call killed or interrupted at every line (or sampled lines) it executes, then healthy ones"""
    ev, name = [], case["name"]
    for n in case["at"]:
        dl.clear()
        ev.append(dict(op="clear"))
        reached = True
        for p, (mode, line) in enumerate([("auto", [case["how"], n, case["where"]]), ("auto", None), ("down", None)], 1):
            ev.append(dict(op="start", p=p, name=name))
            x = dl.Call(name, mode, line=line)
            x.wait()
            e = x.event(p, p == 1)
            ev.append(e)
            if p == 1 and x.fault == "none":
                reached = False
        if not reached:
            break
    return ev


def run_pause(case):
    """calls that stop at some point until others are done: the calls stop in the order given, go on
    in the order given, and a call that does not stop comes in between"""
    ev, name = [], case["name"]
    for at in case["at"]:
        dl.clear()
        ev.append(dict(op="clear"))
        calls, stopped = [], False
        for p, n in enumerate(at, 1):
            ev.append(dict(op="start", p=p, name=name))
            x = dl.Call(name, "auto", line=["pause", n, case["where"]])
            calls.append((p, x, x.wait_stop()))
            stopped |= calls[-1][2]
        ev.append(dict(op="start", p=7, name=name))
        x = dl.Call(name, "auto")
        x.wait()
        ev.append(x.event(7, False))
        for p, x, stop in (calls if case["fifo"] else calls[::-1]):
            if stop:
                x.go_on()
            x.wait()
            ev.append(x.event(p, False))
        ev.append(dict(op="start", p=8, name=name))
        x = dl.Call(name, "down")
        x.wait()
        ev.append(x.event(8, False))
        if not stopped and case["where"] == "own":
            break
    return ev


def run_basic(case):
    """every dataset: download, use the cache without a server; others are independent files"""
    ev = []
    for name in case["names"]:
        for p, mode in enumerate(["down", "http", "auto", "auto", "down"], 1):
            ev.append(dict(op="start", p=p, name=name))
            x = dl.Call(name, mode)
            x.wait()
            ev.append(x.event(p, p <= 3))
    return ev


def run_names(case):
    """replays a history over several datasets: <<dataset, mode>>; then all of them without a server"""
    ev, got = [], set()
    for p, (d, mode) in enumerate(case["hist"] + [[d, "down"] for d in sorted({d for d, _ in case["hist"]})], 1):
        name = case["names"][d]
        ev.append(dict(op="start", p=p, name=name))
        x = dl.Call(name, mode)
        x.wait()
        ev.append(x.event(p, d not in got))
        if x.out["res"] == "ok":
            got.add(d)
    return ev


def run(ctx):
    ctx.model_check("DownloadCache", "DownloadCache_deep.cfg" if ctx.thorough else "DownloadCache_none.cfg")
    for bug in ("inplace", "nolength", "replaceanyway", "sharedtmp", "mkdirrace"):
        ctx.model_check("DownloadCache", f"DownloadCache_{bug}.cfg", expect_violation=
                        "HealthyCallsSucceed" if bug == "mkdirrace" else "RightResults")
    ctx.model_check("DatasetNames", "DatasetNames_none.cfg")
    for bug in ("sharedfile", "anyfile"):
        ctx.model_check("DatasetNames", f"DatasetNames_{bug}.cfg", expect_violation="RightDataset")
    rng = ctx.rng

    def dedup(x):
        return [list(map(list, t)) for t in sorted({tuple(map(tuple, h)) for h in x})]
    seq = dedup(ctx.generate("DownloadCache", "DownloadCache_seqdeep.cfg" if ctx.thorough else "DownloadCache_seq.cfg"))
    conc = dedup(ctx.generate("DownloadCache", "DownloadCache_conc.cfg"))
    both, conc = conc, conc if ctx.thorough else rng.sample(conc, 120)
    cases = [dict(kind="basic", names=[n]) for n in NAMES] + [dict(kind="basic", names=NAMES)]
    for _ in range(30 if ctx.thorough else 4):
        cases.append(dict(kind="basic", names=rng.sample(NAMES, len(NAMES))))
    pairs = [(a, b) for a in NAMES for b in NAMES if a != b]      # every pair of datasets, in both orders
    hists = ctx.generate("DatasetNames", "DatasetNames_gendeep.cfg" if ctx.thorough else "DatasetNames_gen.cfg")
    full = [["a", "auto"], ["b", "auto"]]
    cases += [dict(kind="names", names=dict(a=a, b=b), hist=full) for a, b in pairs]
    for h in rng.sample(hists, 4000 if ctx.thorough else 120):
        cases.append(dict(kind="names", names=dict(zip("abc", rng.sample(NAMES, 3))), hist=h))
    cases += [dict(kind="hist", name=rng.choice(NAMES), hist=h, chunks=2) for h in seq + conc]
    for name in (NAMES if ctx.thorough else rng.sample(NAMES, 3)):
        for how in ("kill", "int"):
            cases.append(dict(kind="line", name=name, how=how, where="own", at=list(range(1, 120))))
            cases.append(dict(kind="line", name=name, how=how, where="change", at=list(range(1, 200))))
        # schedules: one call stops at each of its lines, another one runs in between; two calls stop
        cases.append(dict(kind="pause", name=name, where="own", at=[[n] for n in range(1, 120)], fifo=True))
        cases.append(dict(kind="pause", name=name, where="change", at=[[n] for n in range(1, 9)], fifo=True))
        for fifo in (True, False):
            for where in ("own", "change"):
                hi = 40 if where == "own" else 8
                cases.append(dict(kind="pause", name=name, where=where, fifo=fifo,
                                  at=[[rng.randint(1, hi), rng.randint(1, hi)] for _ in range(200 if ctx.thorough else 8)]))
    # the overlapping histories without kills, as threads of one process
    calm = [h for h in both if not any(w in ("kill", "int", "nospace") for _, w in h)]
    cases += [dict(kind="hist", name=rng.choice(NAMES), hist=h, chunks=2, threads=True)
              for h in rng.sample(calm, min(len(calm), 400 if ctx.thorough else 50))]
    for _ in range(60 if ctx.thorough else 3):
        cases.append(dict(kind="line", name=rng.choice(NAMES), how=rng.choice(["kill", "int"]), where="any",
                          at=sorted(rng.sample(range(1, 5000), 10))))
    rng.shuffle(cases)
    recs = ctx.drive(cases, procs=8)
    ctx.validate("TraceDownload", recs)
    if not ctx.violations:
        def wrong(r):
            for e in r["ev"]:
                if e["op"] == "end" and e["res"] == "ok":
                    e["right"] = False
                    return r

        def again(r):
            if r["ev"][-1]["op"] == "end" and r["ev"][-1]["res"] == "ok":
                r["ev"][-1].update(reqs=1)
                return r
        ctx.corrupt("TraceDownload", recs[:60], wrong, label="an incomplete dataset returned")
        ctx.corrupt("TraceDownload", recs[:60], again, label="a cached dataset downloaded again")


def replay(ctx):
    ctx.validate("TraceDownload", ctx.drive(ctx.only_cases))
