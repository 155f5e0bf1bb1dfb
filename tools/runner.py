"""Runs scenario batches on the real code in parallel, judges the recorded traces with TLC, confirms deviations.

A scenario is (family, params, seed).  A family is a function f(ctx, rng, **params) that drives one scenario (from
its reset on) and leaves its events in ctx.ev; MODULES says which trace specification judges it.
"""
import os, sys, json, time, random, traceback, multiprocessing as mp
import rp, tlc

FAMILIES = {}       # name -> (function, trace module, uses real sockets)


def family(name, module, real=False):
    def d(f):
        FAMILIES[name] = (f, module, real)
        return f
    return d


class Ctx:
    """what a scenario runs in: a driver process, a scratch directory, the recorded events"""

    def __init__(self, seed=0, slow=0):
        self.seed, self.slow = seed, slow
        self.psc = None
        self.x = None
        self.sc = rp.Scratch()
        self.ev = []
        self.cache = {}

    def rpx(self):
        if self.x is None:
            self.x = rp.Rpx(*((4, 250), (14, 1500), (30, 4000))[self.slow], env={"QT_HASH_SEED": str(self.seed % 1000 + 1), **({"RPX_DEBUG": "1"} if self.seed % 2 == 0 else {})})     # (half of the processes with the debug output on)
        return self.x

    def world(self):
        w = rp.World(self.rpx(), self.sc)
        w.ev = self.ev
        return w

    def client(self):
        import cw
        w = cw.CW(self.rpx(), self.sc)
        w.ev = self.ev
        return w

    def drop(self):
        if self.x:
            self.x.close()
        self.x = None

    def end(self):
        self.drop()
        self.sc.drop()
        if self.psc:
            self.psc.drop()


def play(ctx, scn):
    """-> error of the implementation (crash), if any"""
    fam, params, seed = scn
    f = FAMILIES[fam][0]
    try:
        f(ctx, random.Random(seed), **params)
    except rp.Crash as e:
        ctx.drop()
        return str(e)
    return None


def batch(args):
    """one worker: plays scenarios, judges them"""
    scns, seed, deadline, slow = args
    import families  # noqa: registers them
    res = {"scenarios": 0, "events": 0, "devs": [], "crashes": [], "states": 0, "tlc": 0.0, "run": 0.0, "per": {}, "error": None, "sample": None}
    ctx = Ctx(seed, slow)
    try:
        by_mod = {}
        t = time.time()
        for scn in scns:
            if deadline and time.time() > deadline:
                break
            a = len(ctx.ev)
            crash = play(ctx, scn)
            ev = ctx.ev[a:]
            del ctx.ev[a:]
            res["scenarios"] += 1
            res["events"] += len(ev)
            p = res["per"].setdefault(scn[0], [0, 0])
            p[0] += 1
            p[1] += len(ev)
            if res["sample"] is None and len(ev) > 3:
                res["sample"] = {"scenario": [scn[0], scn[2]], "events": [json.dumps(e)[:400] for e in ev[:6]]}
            if crash:
                res["crashes"].append({"scn": scn, "crash": crash, "hash_seed": seed, "prefix": scns[:scns.index(scn)]})
                if len(res["crashes"]) >= 3:
                    break
            by_mod.setdefault(FAMILIES[scn[0]][1], []).append((scn, ev))
        res["run"] = time.time() - t
        t = time.time()
        for mod, parts in by_mod.items():
            evs, own = [], []
            for scn, ev in parts:
                for k, e in enumerate(ev):
                    evs.append(e)
                    own.append((scn, ev, k))
            if not evs:
                continue
            devs, exps, r = tlc.judge(evs, mod)
            res["states"] += r["distinct"]
            for d in devs:
                scn, ev, k = own[d["n"] - 1]
                res["devs"].append({"scn": scn, "dev": d, "at": k, "event": ev[k], "exp": exps.get(d["n"]), "events": ev[max(0, k - 400):k + 1],
                                    "hash_seed": seed, "prefix": scns[max(0, scns.index(scn) - 60):scns.index(scn)]})
        res["tlc"] = time.time() - t
    except Exception:
        res["error"] = traceback.format_exc()
    finally:
        ctx.end()
    return res


def run_jobs(jobs, seed=1, budget=None, slow=0):
    """each job, a list of scenarios, is played by its own worker (until the budget, seconds, is used up)"""
    deadline = time.time() + budget if budget else None
    with mp.Pool(len(jobs)) as pool:
        return pool.map(batch, [(c, seed * 100 + i, deadline, slow) for i, c in enumerate(jobs)], chunksize=1)


def run(scns, workers=8, budget=None, slow=0):
    n = min(workers, len(scns))
    return run_jobs([scns[i::n] for i in range(n)], budget=budget, slow=slow)
