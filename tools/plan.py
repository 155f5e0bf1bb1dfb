"""Which histories decide which property, and which deviations count as its violation.

A deviation is a step of the real code that the specification does not allow.  It counts for a property if the
stimulus that caused it (the event itself, or the stimulus marked "mk" that a sweep followed) or the kind of
observation that is wrong is what the property speaks about.
"""
import random
import gen_core, cfgw

ASSUME = ["Qt 5.15, Linux, loopback sockets; time is virtual (harness/vclock.cpp)",
          "the peers are the driver's own; the application code is the unmodified library code of /repo's working tree, built with AddressSanitizer"]


# ------------------------------------------------------------------ attribution
def stimuli(e):
    """what an event (and the stimulus a sweep belongs to) consists of"""
    r = {e["k"]}
    if e.get("mk"):
        r.add("a_" + e["mk"])
    if e.get("cut"):
        r.add("cut")
    for o in e.get("ops", []) + [e]:
        r.add(o.get("k"))
        for it in o.get("items", []) or []:
            r.add(it["k"])
    return r


DATA = {"data", "frame"}
REG = {"RegisterServer", "RegisterClient", "a_regs", "a_regc"}
CLOSING = {"close", "par", "a_close", "a_par", "a_reap", "kill", "bad", "a_bad", "a_disc", "DisconnectClient", "flood", "a_flood", "adv", "a_adv"}


def attributed(pid, d):
    v, e, fam = d["dev"], d["event"], d["scn"][0]
    kind, eo, f = v["dev"], {v.get("e"), v.get("o")}, v.get("f")
    s = stimuli(e)
    addr = kind.startswith("addr-") or kind == "churn-bad"
    close = kind in ("unexpected-close", "missing-close")
    if fam.startswith("e2e"):
        return pid in ("C21",)
    if fam.startswith("slip"):
        return pid in ("C02", "C18") or e["k"] == "in"
    if fam.startswith("text") or fam == "moncut":
        return True
    if fam.startswith("config"):
        return pid in ("C22",)
    if pid == "C23":
        return kind == "kept"
    if pid in ("C01", "C02"):
        return (kind == "msg" and bool(eo & DATA)) or (pid == "C01" and kind in ("addr-dup", "addr-range")) or (pid == "C01" and kind == "msg" and "weird" in eo and bool(s & {"frame", "data"})) \
            or (pid == "C02" and kind in ("msg", "unexpected-close") and bool(s & {"frame", "data", "drop"}))
    if fam == "deaf":
        return True
    if pid == "C03":
        return bool(s & REG)
    if pid == "C04":
        return bool(s & REG) or (kind == "stats" and bool(s & {"close", "a_close", "a_reap", "par", "a_par"}))
    if pid == "C05":
        return addr or (fam == "churn")
    if pid == "C06":
        return (kind == "msg" and bool(eo & {"conn", "gone"})) or kind in ("addr-dup", "addr-range", "churn-bad")
    if pid == "C07":
        return bool(s & CLOSING)
    if pid == "C08":
        return bool(s & {"DisconnectClient", "a_disc"})
    if pid == "C09":
        return (kind == "msg" and bool(eo & {"resp", "api", "err", "weird"})) or bool(s & {"bad", "call", "a_bad", "a_call"})
    if pid == "C10":
        return fam.startswith("chunks") or bool(s & {"cut", "drop"})
    if pid == "C11":
        return bool(s & {"adv", "a_adv"}) or kind == "missed-timeout"
    if pid == "C12":
        return fam.startswith("hostile") or bool(s & {"flood", "a_flood", "a_free", "bad", "a_bad", "drop"})
    if pid in ("C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"):
        return CLIENT[pid](v, e, s, fam) if pid in CLIENT else True
    return True


def _c15(v, e, s, fam):
    return v["dev"] in ("stats", "snapshots") or bool(s & {"monopen", "monclose", "monreq"}) or fam in ("monitor", "moncut")


def _c17(v, e, s, fam):
    return v.get("role") not in ("sock",) and not ({v.get("e"), v.get("o")} & {"frame"})


CLIENT = {"C15": _c15, "C17": _c17}

# ------------------------------------------------------------------ scenarios
_TOURS = {}


def tours(cfg, n=None, module="MCProxy", **k):
    """behaviours of the model that together take every transition (n: only that many)"""
    if cfg not in _TOURS:
        G, first, r = gen_core.graph(cfg, module=module)
        _TOURS[cfg] = gen_core.tours(G, first, random.Random(7))
    T = _TOURS[cfg]
    if n and n < len(T):
        T = random.Random(11).sample(T, n)
    return [dict(path=p, **k) for p in T]


CORE = [("MCProxy", "MCProxy")]
TQ = dict(tick=20500, asyn=("c2",), conf=dict(inactive=39000))
MIX = ("fake", "tcp", "unix", "ws")
DATAW = dict(data=40, frame=45, regc=20, adv=0, bad=0, close=4)


BURST = [("burst", dict(), 24), ("burst", dict(kinds=("tls", "wss", "unix")), 8), ("stall", dict(), 10), ("stall", dict(kinds=("tls", "wss", "unix")), 4)]
def DEAF(n, *ends):
    return [("deaf", dict(ends=ends), n), ("deaf", dict(kinds=("tls", "wss", "unix"), ends=ends), n // 2)]


CROWD = [("crowd", dict(), 16), ("crowd", dict(kinds=("tcp", "unix", "ws")), 8)]
REQS = [("requests", [dict(kind="fake", part=(i, 4)) for i in range(4)], 0), ("requests-real", [dict(kind=k, part=(i, 4)) for k in ("tcp", "unix") for i in range(4)], 0)]


def etours(cfg):
    return [dict(t, cfg=cfg) for t in tours(cfg, module="MCTunnel")]


CLIENTS = {"MCClient": dict(tps=("t1",), trc=("r1",)), "MCClientT": dict(tps=("t1",)), "MCClientR": dict(trc=("r1",)), "MCClientJ": dict(jrc=("j1",))}


def CT(*cfgs):
    return ("client-tour", [t for c in cfgs for t in tours(c, module="MCClient", **CLIENTS[c])], 0)


def vectors(n):
    V = cfgw.vectors()
    return [dict(vecs=V[i::n]) for i in range(n)]


def T(n=None):
    return ("tour", tours("MCProxy", n), 0)


# so many clients of one server that the addresses reach every size, and all of them are used
MANY = ("churn", [dict(n=(49300, 7000), hold=3), dict(n=(120, 122, 32500), hold=3)] + [dict(n=(k, 250 - k), hold=k % 7) for k in (100, 111, 122)], 0)

def SLIP(fam, n=5, parts=8, **k):
    return (fam, [dict(n=n, part=(i, parts), **k) for i in range(parts)], 0)


HIGH = ("slip", [dict(n=2, clients=20, high=h) for h in ((0x61C0 - 2,), (0xC000 - 2, 0xC0C0 - 2), (0xDB00 - 2, 0xDBDB - 2, 0xDCDC - 2))], 0)
MCJ = [("MCJson", "MCJson"), ("MCJson", "MCJsonAny", "Rule")]
TEXT = [("text", dict(), 48), ("text-real", [dict(kind=k) for k in ("tcp", "unix", "tls") * 6], 0)]
MCS = [("MCSlip", "MCSlip"), ("MCSlip", "MCSlip1")]

PLAN = {
    "C01": dict(mc=CORE + [("MCProxy", "MCProxy4")], mc_thorough=[("MCProxy", "MCProxy5")], quick=lambda: [T(), ("walk", dict(weights=DATAW), 120), ("walk", dict(weights=dict(DATAW, close=14, reap=14, disc=10, par=8)), 120), ("walk-real", dict(kinds=MIX, n=100), 48), MANY] + CROWD),
    "C02": dict(mc=CORE + MCS, quick=lambda: [("walk", dict(weights=DATAW, opts=dict(big=0.15, cut=0.4)), 160), ("walk-real", dict(kinds=MIX, weights=DATAW, opts=dict(big=0.12, cut=0.3)), 64),
                                         ("walk-real", dict(kinds=("tls", "wss", "unix"), weights=DATAW, opts=dict(big=0.1)), 24), ("chunks", dict(n=1, every=False), 8), MANY, SLIP("slip")] + BURST),
    "C03": dict(mc=CORE + [("MCProxy", "MCProxy4")], mc_thorough=[("MCProxy", "MCProxy5")], quick=lambda: [T(), ("sweeps", dict(weights=dict(open=6, regs=14, regc=18, close=4, disc=2, reap=3)), 500), ("walk", dict(opts=dict(stats=1.0), weights=dict(regs=20, regc=30)), 80), ("sweeps-real", dict(kinds=MIX, weights=dict(open=6, regs=14, regc=18, close=4, disc=2)), 100)]),
    "C04": dict(mc=CORE + [("MCProxy", "MCProxy4")], mc_thorough=[("MCProxy", "MCProxy5")], quick=lambda: [T(), ("sweeps", dict(weights=dict(open=8, regs=14, regc=18, close=12, reap=8, disc=3, bad=1, par=3)), 500), ("walk", dict(opts=dict(stats=1.0), weights=dict(regs=20, regc=30, close=12)), 80), ("sweeps-real", dict(kinds=MIX, weights=dict(open=8, regs=14, regc=18, close=12, disc=2)), 100)]),
    "C05": dict(mc=CORE + [("MCProxy", "MCProxyAddrQ")], mc_thorough=[("MCProxy", "MCProxyAddr")], quick=lambda: [("churn", [dict(), dict(n=(66000, 3000), hold=40)], 0), ("walk", dict(n=200, weights=dict(open=20, regs=3, regc=40, close=16, disc=8, reap=12)), 100)]),
    "C06": dict(mc=CORE + [("MCProxy", "MCProxy4")], mc_thorough=[("MCProxy", "MCProxy5")], quick=lambda: [T(), ("walk", dict(weights=dict(open=18, regs=8, regc=30, close=14, reap=10, disc=8, par=8, bad=2)), 200), ("sweeps", dict(), 200), ("walk-real", dict(kinds=MIX, weights=dict(regc=30, close=14, disc=8, par=6)), 64)] + CROWD),
    "C07": dict(mc=CORE + [("MCProxy", "MCProxy4"), ("MCProxy", "MCProxyLive")], mc_thorough=[("MCProxy", "MCProxy5")], quick=lambda: [T(), ("sweeps", dict(weights=dict(open=6, regs=5, regc=10, close=20, reap=8, par=12, disc=6, bad=3, adv=1)), 500), ("walk", dict(opts=dict(asyn=0.6, stats=0.6), weights=dict(close=16, par=14, reap=12)), 100), ("sweeps-real", dict(kinds=MIX, weights=dict(open=6, regs=6, regc=10, close=16, par=12, disc=6, bad=3)), 120)] + CROWD + DEAF(6, "close")),
    "C08": dict(mc=CORE + [("MCProxy", "MCProxy4")], mc_thorough=[("MCProxy", "MCProxy5")], quick=lambda: [T(), ("sweeps", dict(weights=dict(open=3, regs=4, regc=8, disc=40, close=4, reap=3)), 500), ("walk", dict(weights=dict(disc=30)), 100), ("sweeps-real", dict(kinds=MIX, weights=dict(open=3, regs=4, regc=8, disc=30, close=3)), 80)] + CROWD + DEAF(4, "disc")),
    "C09": dict(mc=CORE + [("MCProxy", "MCProxy4")], mc_thorough=[("MCProxy", "MCProxy5")], quick=lambda: [T(), ("walk", dict(weights=dict(call=40, bad=25, regs=14, open=30, disc=12)), 200), ("walk-real", dict(kinds=MIX, weights=dict(call=40, bad=20, open=30)), 64), ("chunks", dict(n=1, every=False), 8)] + REQS),
    "C10": dict(mc=CORE + MCS + MCJ, quick=lambda: TEXT + [SLIP("slip", mean=(1, 2, 4)), ("chunks", dict(n=2), 24), ("chunks", dict(n=2, every=False, pairs=60), 32), ("chunks-real", [dict(kind=k, n=1, every=False) for k in ("tcp", "unix", "tls") * 5], 0), ("walk", dict(opts=dict(cut=0.8)), 100)] + [("walk", dict(weights=dict(weave=20)), 60), ("walk-real", dict(kinds=MIX, weights=dict(weave=12)), 24)]),
    "C11": dict(mc=CORE + [("MCProxy", "MCProxyTimeQ"), ("MCProxy", "MCProxyTimeLive")], mc_thorough=[("MCProxy", "MCProxyTime")], quick=lambda: [("tour", tours("MCProxyTimeQ", 200, **TQ), 0), ("walk", dict(weights=dict(adv=60), opts=dict(timed=0.3)), 150), ("sweeps", dict(weights=dict(open=6, regs=5, regc=10, close=2, adv=14, call=4, frame=4), opts=dict(timed=0.3)), 150),
                                                                         ("walk-real", dict(kinds=MIX, weights=dict(adv=40, dribble=5), opts=dict(timed=0.3)), 48),
                                                                         ("walk", dict(n=60, weights=dict(adv=20, dribble=20, regs=16, call=6), opts=dict(timed=0.3)), 80)]
                                                                        + [("walk", dict(n=80, weights=dict(adv=30, dribble=8, regs=16), opts=dict(timed=0.3), conf=dict(inactive=k)), 12) for k in (1500, 40000, 75000, 200000)] + DEAF(8, "time", "anon")),
    "C12": dict(mc=CORE, quick=lambda: [("hostile", dict(), 300), ("hostile-real", dict(kinds=MIX), 80), ("walk", dict(opts=dict(hostile=0.6)), 120)] + REQS),
    "C13": dict(mc=CORE, quick=lambda: [("tls", dict(), 120)]),
    "C14": dict(mc=CORE, quick=lambda: [("walk-real", dict(kinds=MIX), 80), ("walk-real", dict(kinds=("tls", "wss", "unix")), 40), ("walk-real", [dict(kinds=(k, "fake"), srvkinds=None if k != "ws" else ("fake",)) for k in ("tcp", "unix", "ws") * 12], 0),
                                        ("walk-real", dict(kinds=MIX, weights=dict(kill_ws=8, close=10)), 40)] + BURST + DEAF(4, "stop", "time", "close", "disc", "anon")),
    "C15": dict(mc=CORE, quick=lambda: [("monitor", dict(), 140), ("monitor", dict(tool=0.15), 32), ("moncut", dict(), 40), ("walk-real", dict(kinds=MIX, opts=dict(stats=0.8)), 48), ("walk", dict(opts=dict(stats=0.8)), 60)] + CROWD),
    "C16": dict(mc=CORE + [("MCProgram", "MCProgram"), ("MCProgram", "MCProgramLive")], quick=lambda: [("restart", dict(), 240), ("walk", dict(stopstart=True), 60), ("program", dict(), 64)] + DEAF(8, "stop")),
    "C17": dict(mc=[("MCClient", "MCClient"), ("MCClient", "MCClientT")], mc_thorough=[("MCClient", "MCClient2")], quick=lambda: [CT("MCClient", "MCClientT"), ("client", dict(tps=1, trc=0, timed=0.3), 150), ("client", dict(tps=2, trc=0, timed=0.2, hooks=0.2), 60), ("client", dict(tps=1, trc=0, ws=0.5, tls=0.3, timed=0.2), 40)]),
    "C18": dict(mc=MCS + [("MCClient", "MCClient"), ("MCClient", "MCClientT")], mc_thorough=[("MCClient", "MCClient2")], quick=lambda: [SLIP("slip-lib"), CT("MCClient", "MCClientT"), ("client", dict(tps=2, trc=0, timed=0.03, cut=0.4, big=0.05), 200), ("client", dict(tps=1, trc=0, hooks=0.2, timed=0.03), 60), ("client", dict(n=50, tps=2, trc=0, big=0.4, huge=0.6, weights=dict(write=20)), 16), ("client-crowd", dict(), 16), ("client-crowd", dict(tls=True), 4)]),
    "C19": dict(mc=[("MCClient", "MCClient"), ("MCClient", "MCClientR")], mc_thorough=[("MCClient", "MCClient2")], quick=lambda: [CT("MCClient", "MCClientR"), ("client", dict(tps=0, trc=2, cut=0.4, big=0.05), 200), ("client", dict(tps=0, trc=1, ws=0.5, tls=0.4, hooks=0.15), 80), ("client", dict(n=50, tps=0, trc=2, ws=0.3, tls=0.3, big=0.4, huge=0.6, weights=dict(send=30)), 16)]),
    "C20": dict(mc=[("MCClient", "MCClientJ"), ("MCClient", "MCClient")], mc_thorough=[("MCClient", "MCClient2")], quick=lambda: [("text-lib", dict(), 48), CT("MCClientJ", "MCClient"), ("jrc", dict(cut=0.5), 230), ("jrc", dict(n=150, weights=dict(jcall=5)), 12), ("client", dict(tps=1, trc=1, cut=0.5), 100)]),
    "C21": dict(mc_thorough=[("MCTunnel", "MCTunnel2")], mc=[("MCTunnel", "MCTunnel"), ("MCProgram", "MCProgram"), ("Pipe", "Pipe"), ("Pipe", "PipeLowest", "Streams")], quick=lambda: [("e2e-tour", etours("MCTunnel"), 0), ("e2e", dict(), 120), ("e2e", dict(tls=True), 40), ("e2e", dict(n=50, big=0.3, timed=0.1), 24), ("tool", dict(), 40)]),
    "C22": dict(mc=[("MCConfig", "MCConfig")], quick=lambda: [("config", vectors(100), 0), ("config-real", dict(), 120), ("config-bin", dict(), 60)],
                thorough=lambda: [("config", vectors(200) * 3, 0), ("config-real", dict(), 1000), ("config-bin", dict(), 240)]),
    "C23": dict(mc=CORE + [("MCProxy", "MCProxy4")], mc_thorough=[("MCProxy", "MCProxy5")],
                quick=lambda: [("kept", dict(), 64), ("kept", dict(kinds=("fake",)), 80), ("kept", dict(kinds=("tls", "wss", "unix")), 48)] + [("kept", dict(kinds=(k,)), 16) for k in ("tcp", "unix", "ws", "tls", "wss")]),
}


NA = {}
NOTE = ("exhaustive for the specification within the model's bounds; the real code is bound to it by conformance: every transition of the model is replayed into it and seeded long histories "
        "beyond the model's bounds are recorded from it, each step of every trace judged by TLC")


def _scale(groups, k):
    out = []
    for g in groups:
        fam, p, n = g
        out.append((fam, p, n * k if not isinstance(p, list) else n))
    return out


# longer histories than a larger number of the same: what the thorough tier adds
DEEPER = {"C02": lambda: [SLIP("slip", 6, 16), HIGH], "C10": lambda: [SLIP("slip", 6, 16, mean=(1, 2, 4))], "C18": lambda: [SLIP("slip-lib", 6, 16)]}

for _pid, _p in PLAN.items():
    _p.setdefault("level", "model_checking")
    _p.setdefault("thorough", (lambda q, d: lambda: _scale(q(), 8) + d())(_p["quick"], DEEPER.get(_pid, lambda: [])))
