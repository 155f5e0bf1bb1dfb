"""Scenario families.  Each drives the real code through one history; see DESIGN.md for what each is for."""
import json, os, time, itertools, ssl
import rp, tlc, gen_core, gen_client, gen_tunnel, cfgw, progw
from rp import slip, js
from gen_core import U, NAMES, PEERS, payload
from runner import family

SSLKINDS = {"tls", "wss"}


# ---------------------------------------------------------------- the proxy: walks, tours
def _walk(ctx, r, kinds, n=120, opts=None, weights=None, conf=None, srvkinds=None, stopstart=False):
    conf = dict(conf or {})
    conf.setdefault("ssl", bool(set(kinds) & SSLKINDS))
    W = dict(weights or {})
    if stopstart:
        W["stop"] = 2
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=kinds, srvkinds=srvkinds, **(opts or {}))
    g.conf = conf
    g.run(n, weights=W, label="walk", **conf)
    if not g.dying:
        w.stats()


@family("walk", "TraceProxy")
def walk(ctx, r, **k):
    _walk(ctx, r, kinds=("fake",), **k)


@family("walk-real", "TraceProxy", real=True)
def walk_real(ctx, r, **k):
    _walk(ctx, r, **k)


def _sweeps(ctx, r, kinds, n=14, weights=None, setup=None, opts=None, conf=None, srvkinds=None):
    conf = dict(conf or {})
    conf.setdefault("ssl", bool(set(kinds) & SSLKINDS))
    g = gen_core.Walk(ctx.world(), r, kinds=kinds, srvkinds=srvkinds, **dict(dict(maxconn=8, stats=0, cut=0.1), **(opts or {})))
    W = dict(open=6, regs=8, regc=12, disc=5, call=3, bad=3, close=6, reap=4, par=4, frame=3, data=3)
    g.run_sweeps(n, weights or W, setup=setup or r.choice([6, 14, 25]), label="sweeps", **conf)


@family("sweeps", "TraceProxy")
def sweeps(ctx, r, **k):
    _sweeps(ctx, r, kinds=("fake",), **k)


@family("sweeps-real", "TraceProxy", real=True)
def sweeps_real(ctx, r, **k):
    _sweeps(ctx, r, **k)


@family("tour", "TraceProxy")
def tour(ctx, r, path, tick=None, asyn=None, conf=None):
    gen_core.replay_tour(ctx.world(), path, r, tick=tick, _async=asyn or ("c3", "c4"), **(conf or {}))


@family("tour-real", "TraceProxy", real=True)
def tour_real(ctx, r, path, kinds, conf=None):
    gen_core.replay_tour(ctx.world(), path, r, kinds=kinds, **(conf or {}))


# ---------------------------------------------------------------- the client library
@family("client", "TraceClient", real=True)
def client(ctx, r, n=100, weights=None, **k):
    gen_client.Walk(ctx.client(), r, **k).run(n, weights=weights, label="client")


@family("client-tour", "TraceClient", real=True)
def client_tour(ctx, r, path, tps=(), trc=(), jrc=(), **k):
    gen_client.tour(ctx.client(), r, [json.loads(a) if isinstance(a, str) else a for a in path], list(tps), list(trc), list(jrc), **k)


@family("client-crowd", "TraceClient", real=True)
def client_crowd(ctx, r, n=(30, 66, 130, 260), tls=False, rounds=2):
    """a tunnel server with many clients at the same time"""
    w = ctx.client()
    g = gen_client.Walk(w, r, trc=0, cut=0.1)
    w.reset(label="client-crowd")
    w.new("t1", "tps", U(r), r.choice(NAMES), tls=tls)
    w.up("t1")
    w.start("t1", "")
    for rd in range(rounds):
        g.hurry("t1")
        cs = w.cons("t1", mode="slip")
        if not cs:
            w.adv(5600)
            g.hurry("t1")
            cs = w.cons("t1", mode="slip")
        if not cs:
            return
        c = cs[0]
        k = r.choice(n)
        A = r.sample(range(1, 65536), k)
        while A:
            b, A = A[:9], A[9:]
            g.put(c, [w.wrap(c, w.conn(g.nextid(), a, U(r), r.choice(NAMES[:4]), r.choice(PEERS))) for a in b])
        A = [a for t, a in w.k.values()]
        for _ in range(4):
            r.shuffle(A)
            g.put(c, [w.frame(a, b"to %d" % a) for a in A[:r.choice([10, 50, len(A)])]])
            for s in r.sample(sorted(w.k), min(12, len(w.k))):
                w.write(s, payload(r))
            for s in r.sample(sorted(w.k), min(3, len(w.k))):
                w.disc(s)
            A = [a for t, a in w.k.values()]
            out = r.sample(A, min(len(A), r.choice([1, 5, 20])))
            g.put(c, [w.wrap(c, w.gone(g.nextid(), a)) for a in out])
            A = [a for t, a in w.k.values()]
        g.put(c, [w.frame(a, b"again %d" % a) for a in A])
        if r.random() < 0.7:
            w.pclose(c, abort=r.random() < 0.3)
        else:
            w.stop("t1")
            w.start("t1", "")
        w.info()


@family("jrc", "TraceClient")
def jrc(ctx, r, n=60, weights=None, **k):
    gen_client.Walk(ctx.client(), r, tps=0, trc=0, jrc=1, **k).run(n, label="jrc", weights=weights)


# ---------------------------------------------------------------- monitors
def _peers(g, kinds):
    """a few servers with clients"""
    for _ in range(g.r.choice([3, 6, 9])):
        g.a_open()
    for _ in range(3):
        g.a_regs()
    for _ in range(6):
        g.a_regc()


@family("monitor", "TraceProxy", real=True)
def monitor(ctx, r, kinds=("fake", "tcp", "unix", "ws"), n=80, tool=0.02):
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=kinds, maxconn=8, stats=0, hostile=0.02, timed=0.05)
    g.nf = 2
    w.reset(fake=2, label="monitor", ssl=bool(set(kinds) & SSLKINDS), name=r.choice(["rpx", "näme", "a b \"c\""[:3]]))
    _peers(g, kinds)
    W = dict(open=10, regs=8, regc=14, data=14, frame=16, disc=4, call=3, bad=1, close=6, reap=7, adv=2, par=2, free=1)
    ks = list(W)
    for _ in range(n):
        g.track()
        ms = [m for m, c in w.mons.items() if c.open]
        x = r.random()
        if x < 0.10 and len(ms) < 4:
            w.mon_open(raw=r.random() < 0.5)
        elif x < 0.14 and ms:
            w.mon_close(r.choice(ms))
        elif x < 0.40 and ms and not g.dying:
            m = r.choice(ms)
            want = [r.random() < 0.6 for _ in range(r.choice([1, 1, 1, 2, 3]))]
            raw = w.mons[m].raw
            bad = b""
            text = None
            if raw and r.random() < 0.15:
                bad = r.choice([b"{]\n", b"nonsense\n", js({"method": "reset"}), js({}), js({"params": {}}), js([1, 2]), b"\x00\xff\xfe\n", b"{\"method\":\n", b"}" * 500 + b"\n"])
                want = want[:r.randrange(2)]
            elif raw and r.random() < 0.15:
                want = [False]
                text = r.choice([js({"method": "refresh", "params": {}}), js({"method": "refresh", "params": None}), js({"method": "refresh", "id": 5}), b'{\n  "method": "refresh"\n}\n', b'  {"method": "refresh"}  \n'])
            e = w.mon_req(m, want, bad, nl=r.random() < 0.7, text=text)
        elif x < 0.40 + tool and not g.dying:
            w.mon_tool(r.random() < 0.6, r.random() < 0.4)
        else:
            getattr(g, "a_" + r.choices(ks, [W[k] for k in ks])[0])()
    if r.random() < 0.3:
        w.stop()
        for what in ("monitor", "unix"):
            w.probe(what)


# ---------------------------------------------------------------- stop, start, other configuration
@family("restart", "TraceProxy", real=True)
def restart(ctx, r, n=60, kinds=("fake", "tcp", "unix", "ws")):
    w = ctx.world()
    tls = r.random() < 0.2
    ks = lambda: [("tls" if k == "tcp" else "wss" if k == "ws" else k) for k in kinds] if w.tls else list(kinds)
    g = gen_core.Walk(w, r, kinds=kinds, maxconn=8, hostile=0.02, timed=0.03)
    g.nf = r.choice([1, 2])
    w.reset(fake=g.nf, label="restart", ssl=tls)
    g.kinds = ks()
    g.srvkinds = [k for k in g.kinds if k not in ("ws", "wss")]
    W = dict(open=14, regs=9, regc=16, data=12, frame=12, disc=3, call=2, bad=1, close=3, reap=4, par=2, free=1)
    wk = list(W)
    blocked = ()
    for rnd in range(r.choice([2, 3, 4])):
        for _ in range(n // 3):
            g.track()
            if r.random() < 0.05 and "monitor" not in blocked:
                w.mon_open(raw=r.random() < 0.5)
            getattr(g, "a_" + r.choices(wk, [W[k] for k in wk])[0])()
        if w.tls and "TCP" not in blocked and r.random() < 0.6:
            w.open("tcp", plain=True)        # handshake pending at the stop
        w.stop()
        g.dying = set()
        for c in w.c.values():
            c.open, c.reaped = False, True
        for what in ("TCP", "WebSocket", "unix", "monitor"):
            w.probe(what)
        if r.random() < 0.3:
            w.advance(r.choice([500, 12000, 70000]))
        g.nf = r.choice([1, 2])
        blocked = tuple(x for x in ("TCP", "WebSocket", "unix", "monitor") if r.random() < 0.15)
        stale = tuple(x for x in ("unix", "monitor") if r.random() < 0.4)
        w.start(fake=g.nf, blocked=blocked, stale=stale, ssl=r.random() < 0.25, inactive=r.choice([8000, 3000, 15000]), name=r.choice(["rpx", "other", "näme"]))
        off = {"TCP": ("tcp", "tls"), "WebSocket": ("ws", "wss"), "unix": ("unix",), "monitor": ()}
        g.kinds = [k for k in ks() if not any(k in off[b] for b in blocked)] or ["fake"]
        g.srvkinds = [k for k in g.kinds if k not in ("ws", "wss")]
        w.stats()
        # identities of the run before are free
        if "fake" in g.kinds:
            for u in g.uuids[:2]:
                c = w.open("fake")
                w.reg_server(c, u)
            w.stats()
        if "monitor" not in blocked and r.random() < 0.5:
            m = w.mon_open(raw=r.random() < 0.5)
            w.mon_req(m, [True])
    w.stop()


# ---------------------------------------------------------------- TLS
def client_hello():
    """what a TLS client says first"""
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    x.check_hostname, x.verify_mode = False, ssl.CERT_NONE
    b = x.wrap_bio(i, o)
    try:
        b.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return o.read()


@family("tls", "TraceProxy", real=True)
def tls(ctx, r, n=60):
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=("tls", "wss", "tls", "unix"), maxconn=9, stats=0.4, hostile=0.02, timed=0.05, asyn=0)
    g.nf = 1
    w.reset(fake=1, label="tls", ssl=True, inactive=r.choice([8000, 3000, 12000]))
    plain, late = [], []
    HELLO = bytes.fromhex("16030100c8010000c40303") + bytes(r.getrandbits(8) for _ in range(32)) + b"\x00"
    def junk():
        u = r.choice(g.uuids)
        return r.choice([js({"id": 1, "method": "RemoteProxy.Hello"}), js({"id": 1, "method": "TunnelProxy.RegisterServer", "params": {"serverName": "x", "serverUuid": u}}),
                         js({"id": 1, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "x", "clientUuid": U(r), "serverUuid": u}}),
                         slip(1, b"data"), b"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n",
                         HELLO[:r.randrange(1, len(HELLO))], b"\x16\x03\x01", bytes(r.getrandbits(8) for _ in range(r.randrange(1, 80))), b"\n", b"}\n"])
    W = dict(open=12, regs=9, regc=16, data=12, frame=14, disc=3, call=4, bad=1, close=3, adv=2)
    ks = list(W)
    for _ in range(n):
        g.track()
        x = r.random()
        plain = [c for c in plain if w.c[c].open]
        late = [c for c in late if w.c[c].open and not w.c[c].said]
        if x < 0.08 and len(plain) < 4:
            c = w.open(r.choice(["tcp", "tcp", "ws", "rawws"]), st=True)
            plain.append(c)
            if w.c[c].kind in ("tcp", "rawws") and r.random() < 0.5:
                # a handshake which stalls half way
                d = client_hello()
                w.send(c, r.choice([d, d, d, d[:r.randrange(1, len(d))], d[:60] + junk(), d + junk()]), st=True)
        elif x < 0.12 and len(late) < 3:
            late.append(w.open("tcp", plain=True, st=True))
        elif x < 0.26 and plain:
            c = r.choice(plain)
            if w.c[c].kind in ("tcp", "rawws"):
                if not w.c[c].said or r.random() < 0.2:
                    w.send(c, junk(), st=True)
        elif x < 0.31 and late:
            c = late.pop()
            if r.random() < 0.3:
                w.advance(r.choice([500, 2000, 4000]), st=True)
            if w.c[c].open:
                w.encrypt(c)
        elif x < 0.35 and plain + late:
            c = r.choice(plain + late)
            w.close(c, st=True, abort=r.random() < 0.5)
        elif x < 0.40:
            w.advance(r.choice([1000, 2500, 4800, 5600]), st=True)
        else:
            getattr(g, "a_" + r.choices(ks, [W[k] for k in ks])[0])()
    w.stats()


# ---------------------------------------------------------------- cutting of streams
def _chunk_scripts(r, g, s, cl, j):
    """-> [(connection, bytes)]: streams whose meaning does not depend on how they are cut"""
    w = g.w
    A = sorted(w.c[s].clients)
    S = bytearray()
    P = [b"a", b"\xc0", b"\xdb\xdc\xdd\xc0", b"}\n{", b"x" * 20, b"\x00\x00", bytes(range(0xBE, 0xE0)), payload(r)[:40]]
    n = r.randrange(4, 8)
    for i in range(n):
        x = r.random()
        if x < 0.6:
            S += slip(r.choice(A), r.choice(P))
        elif x < 0.7:
            S += b"\xc0" * r.randrange(1, 3)
        elif x < 0.8:
            S += r.choice([b"\xdb\xc0", b"\x00\x01\xdbx\xc0", b"\x00\x01ab\xdb\xc0", b"\x00\x00\xdbA\xc0"])
        elif x < 0.9:
            S += slip(0, js({"id": r.randrange(1000), "method": "TunnelProxy.Ping", "params": {"timestamp": r.randrange(1 << 31)}}))
        else:
            S += slip(r.choice([77, 4000, 0xC0DB]), b"nobody")
    J = b""
    for i in range(r.randrange(1, 5)):
        J += r.choice([js({"id": r.randrange(100), "method": "RemoteProxy.Hello"}), js({"id": 3, "params": {"timestamp": 5}, "method": "TunnelProxy.Ping"}),
                       js({"id": 4, "method": "RemoteProxy.Hello", "params": {}}), js({"params": {"serverName": "a b", "serverUuid": "nonsense"}, "id": 1, "method": "TunnelProxy.RegisterServer"}),
                       js({"params": {"clientUuid": "", "serverUuid": U(r), "clientName": r.choice(NAMES)}, "id": 12, "method": "TunnelProxy.RegisterClient"})])
    return [(s, bytes(S)), (cl, r.choice([payload(r)[:60], js({"id": 1, "method": "RemoteProxy.Hello"}), b"}\n{\xc0\xdb" + b"y" * 30]).replace(b"\x00", b"0")), (j, J)]


def _chunks(ctx, r, kind, pairs=0, every=True, n=3):
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=(kind,), stats=0, asyn=0)
    g.nf = 1
    w.reset(fake=1, label="chunks", ssl=kind in SSLKINDS)
    s = w.open(kind)
    w.reg_server(s, U(r))
    cl = []
    for _ in range(3):
        c = w.open(kind)
        w.reg_client(c, U(r), w.c[s].uuid)
        cl.append(c)
    for _ in range(n):
        j = w.open(kind)
        for cid, d in _chunk_scripts(r, g, s, r.choice(cl), j):
            c = w.c[cid]
            ks = gen_core.cut_points(d, c)
            for k in (ks if every else r.sample(ks, min(len(ks), 25))):
                w.send(cid, d, cuts=[k])
            w.send(cid, d, cuts=ks)
            w.send(cid, d + d if c.mode != "client" else d)
            for _ in range(pairs):
                w.send(cid, d, cuts=r.sample(ks, min(len(ks), r.choice([2, 2, 3]))))
        # a registration, cut anywhere
        m = js({"id": 5, "method": "TunnelProxy.RegisterServer", "params": {"serverName": "n m", "serverUuid": U(r)}})
        ks = gen_core.cut_points(m, w.c[j])
        w.send(j, m, cuts=r.sample(ks, r.choice([1, 2, 3])))
        k = w.open(kind)
        m = js({"id": 6, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "k", "clientUuid": U(r), "serverUuid": w.c[s].uuid}})
        ks = gen_core.cut_points(m, w.c[k])
        w.send(k, m, cuts=r.sample(ks, r.choice([1, 2, 3])))
        g.track()
        g.sweep(None)


@family("chunks", "TraceProxy")
def chunks(ctx, r, **k):
    _chunks(ctx, r, "fake", **k)


@family("chunks-real", "TraceProxy", real=True)
def chunks_real(ctx, r, kind, **k):
    _chunks(ctx, r, kind, **k)


# ---------------------------------------------------------------- socket addresses over the whole range
@family("churn", "TraceProxy")
def churn(ctx, r, n=(40000, 27000), hold=2):
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=("fake",), stats=0, asyn=0)
    g.nf = 1
    w.reset(fake=1, label="churn", inactive=3600000)
    s = w.open("fake")
    w.reg_server(s, U(r))
    v = w.open("fake")
    w.reg_server(v, U(r))
    for k in n:
        for t in (s, v):
            c = w.open("fake")
            w.reg_client(c, U(r), w.c[t].uuid)
        g.sweep(None, stats=False)
        w.churn(s, k, hold=hold)
        w.send(s, slip(0, js({"id": 1, "method": "TunnelProxy.Ping", "params": {"timestamp": 1}})))
        g.sweep(None, stats=False)
        for _ in range(5):
            c = w.open("fake")
            w.reg_client(c, U(r), w.c[s].uuid)
        g.sweep(None, stats=False)
        for a in sorted(w.c[s].clients)[-3:]:
            w.disconnect(s, a)
        g.sweep(None, stats=False)


# ---------------------------------------------------------------- many clients of one server
@family("crowd", "TraceProxy", real=True)
def crowd(ctx, r, kinds=("fake",), n=(33, 65, 129, 140), m=6):
    """whatever happens to a server happens to all of its clients, however many they are"""
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=kinds, stats=0, asyn=0)
    g.nf = 1
    w.reset(fake=1, label="crowd", ssl=bool(set(kinds) & SSLKINDS), inactive=r.choice([3600000, 20000]))
    s, t = w.open(r.choice([k for k in kinds if k not in ("ws", "wss")])), w.open("fake")
    for x in (s, t):
        w.reg_server(x, U(r), name=r.choice(NAMES))
    total = r.choice(n)
    for i in range(total):
        c = w.open(r.choice(kinds), peer=r.choice(PEERS))
        w.reg_client(c, U(r), w.c[t if i % 9 == 4 else s].uuid, name=r.choice(NAMES[:4]))
    g.sweep(None)

    def them(x):
        return [k for k in w.live("client") if w.c[k].srv == x and w.c[k].addr is not None]

    x = r.random()
    if x < 0.25 and len(them(s)) > 20:
        # half of them thrown out at once
        k = r.sample(them(s), len(them(s)) // 2)
        w.send(s, b"".join(slip(0, js({"id": i, "method": "TunnelProxy.DisconnectClient", "params": {"socketAddress": w.c[a].addr}})) for i, a in enumerate(k)))
        w.mk = "disc"
        g.sweep("disc")
    elif x < 0.5:
        # some leave, others take their place
        for k in r.sample(them(s), min(12, len(them(s)))):
            w.close(k)
            c = w.open("fake")
            w.reg_client(c, U(r), w.c[s].uuid)
        g.sweep("close")
    for _ in range(m):
        if not w.c[s].open:
            break
        x = r.random()
        if x < 0.3:
            w.close(s, abort=r.random() < 0.3)
        elif x < 0.45:
            w.send(s, slip(0, gen_core.bad_request(r)))
        elif x < 0.6:
            if w.c[t].open:
                w.rpc(t, "TunnelProxy.Ping", {"timestamp": 1})
            w.advance(45000)
            if w.c[t].open:
                w.rpc(t, "TunnelProxy.Ping", {"timestamp": 2})
            w.advance(19500)
        elif x < 0.7:
            w.send(s, b"".join(slip(w.c[k].addr, b"to " + k.encode()) for k in them(s)))
            continue
        else:
            continue
        g.sweep("close")
    c = w.open("fake")
    w.reg_server(c, w.c[s].uuid)
    if w.c[c].mode == "server":
        d = w.open("fake")
        w.reg_client(d, U(r), w.c[s].uuid)
    g.sweep(None)
    w.stop()


# ---------------------------------------------------------------- every kind of invalid request
@family("requests", "TraceProxy")
def requests(ctx, r, kind="fake", part=(0, 1)):
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=(kind,), stats=0, asyn=0)
    g.nf = 1
    w.reset(fake=1, label="requests", inactive=3600000)
    s = w.open("fake")
    w.reg_server(s, U(r))
    c = w.open(kind)
    w.reg_client(c, U(r), w.c[s].uuid)
    ok = [js({"id": 3, "method": "RemoteProxy.Hello"}), js({"id": 0, "method": "TunnelProxy.Ping", "params": {"timestamp": 7}}), js({"id": -7, "method": "RemoteProxy.Introspect"}),
          js({"id": 8, "method": "TunnelProxy.RegisterServer", "params": {"serverName": "x", "serverUuid": "nonsense"}})]
    for bad in gen_core.bad_requests(r)[part[0]::part[1]]:
        for srv in (False, True):
            x = w.open("fake" if srv else kind)
            if srv:
                w.reg_server(x, U(r))
            wrap = (lambda d: slip(0, d)) if srv else (lambda d: d)
            if r.random() < 0.5:
                w.send(x, wrap(r.choice(ok[:3])))
            w.send(x, wrap(bad), st=True)
            if w.c[x].open:
                w.close(x)
    g.sweep(None)


@family("requests-real", "TraceProxy", real=True)
def requests_real(ctx, r, **k):
    requests(ctx, r, **k)


# ---------------------------------------------------------------- bursts: much at once
@family("burst", "TraceProxy", real=True)
def burst(ctx, r, kinds=("tcp", "tcp", "unix", "ws"), n=7):
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=kinds, stats=0, asyn=0)
    g.nf = 1
    tls = bool(set(kinds) & SSLKINDS)
    w.reset(fake=1, label="burst", ssl=tls, inactive=3600000)
    s = w.open(r.choice([k for k in kinds if k not in ("ws", "wss")]))
    w.reg_server(s, U(r))
    cl = []
    for k in set(kinds):
        c = w.open(k)
        w.reg_client(c, U(r), w.c[s].uuid)
        cl.append(c)
    for _ in range(n):
        c = r.choice(cl)
        if not (w.c[c].open and w.c[s].open):
            break
        text = w.c[c].kind in ("ws", "wss")
        size = r.choice([20000, 65537, 66001, 70000, 131073, 200000, 262145, 400000, 524289, 700000, 1048577, 2100000, 5300000]) + r.randrange(0, 3)
        base = payload(r, text=text, big=True).replace(b"\x00", b"0" if text else b"\x00")
        d = (base * (size // len(base) + 1))[:size] if not text else (base * (size // len(base) + 1))
        if r.random() < 0.5:
            w.send(c, d)
            if r.random() < 0.5:
                w.send(c, b"after")
        else:
            a = w.c[c].addr
            x = r.random()
            if x < 0.3:
                # as many small frames
                m = d[:200000]
                k = r.choice([700, 1400, 4000])
                if text:
                    w.send(s, slip(a, b"abc" * (k // 3)) * (len(m) // k))
                else:
                    w.send(s, b"".join(slip(a, m[i:i + k]) for i in range(0, len(m), k)))
            else:
                w.send(s, slip(a, d) + (slip(a, b"after") if x < 0.6 else b""))
        if r.random() < 0.3:
            g.sweep(None, stats=False)
    g.sweep(None)
    # the last data of a connection, then its end
    for c in cl:
        if not (w.c[c].open and w.c[s].open):
            continue
        text = w.c[c].kind in ("ws", "wss")
        d = r.choice([b"x", b"bye", b"0123456789" * 9000, b"abcd" * 60000, b"z" * 300000])
        x = r.random()
        if x < 0.4:
            w.send(s, slip(w.c[c].addr, d) + slip(0, js({"id": 5, "method": "TunnelProxy.DisconnectClient", "params": {"socketAddress": w.c[c].addr}})))
        elif x < 0.7:
            w.par([("in", c, d), ("close", c)])
    if r.random() < 0.5:
        c = [k for k in cl if w.c[k].open]
        if c and w.c[s].open:
            w.par([("in", s, slip(w.c[c[0]].addr, b"w" * r.choice([3, 90000, 250000]))), ("close", s)])
    g.sweep(None, stats=False)


@family("stall", "TraceProxy", real=True)
def stall(ctx, r, kinds=("tcp", "unix"), mb=(5, 9, 14, 22)):
    """peers that do not read while megabytes are sent to them"""
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=kinds, stats=0, asyn=0)
    g.nf = 1
    w.reset(fake=1, label="stall", ssl=bool(set(kinds) & SSLKINDS), inactive=3600000)
    s = w.open(r.choice([k for k in kinds if k not in ("ws", "wss")]))
    w.reg_server(s, U(r))
    cl = []
    for k in list(kinds) + ["fake"]:
        c = w.open(k)
        w.reg_client(c, U(r), w.c[s].uuid)
        cl.append(c)
    for last, back in enumerate(r.choice(((True, False), (False, True), (False, False)))):
        n = r.choice(mb) << 20
        unit = bytes(r.getrandbits(8) for _ in range(r.choice((1009, 4001, 65521)))) if r.random() < 0.7 else b"\xc0\xdb" * 500
        if {"ws", "wss"} & set(kinds):
            unit = bytes(97 + x % 26 for x in unit)
        if back:
            # the tunnel server reads nothing while its clients send
            cl = [c for c in cl if w.c[c].open]
            ops = [("in", c, (unit, n // len(unit) // len(cl) + 1)) for c in r.sample(cl, len(cl))]
            if last and r.random() < 0.5:
                ops.append(("close", r.choice(cl)))
            w.stalled([s], ops)
        else:
            # one client reads nothing; another one of the same server is served
            k = r.choice([x for x in cl[:-1] if w.c[x].ws or w.c[x].kind not in ("ws", "wss")])
            o = r.choice([x for x in cl if x != k])
            f = slip(w.c[k].addr, unit)
            ops = [("in", s, (f, n // len(f) + 1)), ("in", s, slip(w.c[o].addr, b"meanwhile")), ("in", k, b"still here")]
            if last and r.random() < 0.7:   # what was sent to it before its end it still gets
                ops.append(r.choice([("close", s), ("in", s, slip(0, js({"id": 5, "method": "TunnelProxy.DisconnectClient", "params": {"socketAddress": w.c[k].addr}})))]))
            w.stalled([k], ops)
        g.sweep(None, stats=False)


@family("kept", "TraceProxy", real=True)
def kept(ctx, r, kinds=("fake", "tcp", "unix", "ws"), rounds=3, n=40, **k):
    """connections come and go; in the end nothing of them may be left"""
    w = ctx.world()
    g = gen_core.Walk(w, r, kinds=kinds, stats=0.05, **dict(dict(hostile=0.1, asyn=0.2), **k))
    g.nf = 1
    w.reset(fake=1, label="kept", ssl=bool(set(kinds) & SSLKINDS), inactive=300000)
    w.base = w.x.cmd(op="kept")["r"]
    for _ in range(rounds):
        ks = dict(open=16, regs=9, regc=16, data=12, frame=14, disc=6, call=6, bad=3, close=8, reap=8, adv=1, par=4, kill_ws=2, dribble=1, weave=1, part=3, free=3, flood=1)
        for _ in range(r.choice((n // 2, n))):
            g.track()
            getattr(g, "a_" + r.choices(list(ks), list(ks.values()))[0])()
            if r.random() < 0.15:
                g.track()
                w.kept()
            if {"tls", "wss"} & set(kinds) and r.random() < 0.08:
                # a handshake which does not end (Qt's WebSocket server itself keeps the sockets of those)
                c = w.open("tcp")
                w.send(c, client_hello()[:r.choice((9999, 100, 1))])
                w.advance(r.choice((1000, 5600)))
                if w.c[c].open and r.random() < 0.6:
                    w.close(c, abort=r.random() < 0.5)
        while g.dying:
            g.a_reap()
            g.track()
        ms = [w.mon_open(raw=r.random() < 0.5) for _ in range(r.choice((0, 1, 3)))]
        for m in ms:
            w.mon_req(m, [True])
        g.track()
        w.kept()
        for m in ms:
            w.mon_close(m)
        while g.dying:
            g.a_reap()
        for c in r.sample(w.live(), len(w.live())):
            if w.c[c].open:
                w.close(c, abort=r.random() < 0.2)
            g.track()
            while g.dying:
                g.a_reap()
        w.advance(20000)
        w.kept()


@family("deaf", "TraceProxy", real=True)
def deaf(ctx, r, kinds=("tcp", "unix"), mb=(6, 9), ends=("stop", "time", "close", "disc", "anon")):
    """peers that do not read what is sent to them, for good: the proxy gets rid of them, or stops, all the same"""
    w = ctx.world()
    inactive = r.choice((8000, 300000))
    conf = dict(label="deaf", ssl=bool(set(kinds) & SSLKINDS), inactive=inactive)
    w.reset(fake=1, **conf)
    conf.pop("label")

    def walk():
        g = gen_core.Walk(w, r, kinds=kinds, stats=0.3, asyn=0)
        g.nf = 1
        return g

    for n in range(r.choice((2, 3))):
        g = walk()
        s = w.open(r.choice([k for k in kinds if k not in ("ws", "wss")]))
        u = U(r)
        w.reg_server(s, u)
        cl = []
        for k in list(kinds) + ["fake"]:
            c = w.open(k)
            w.reg_client(c, U(r), u)
            cl.append(c)
        end = r.choice(ends)
        who = [w.mon_open(raw=True)] if end == "stop" and r.random() < 0.3 else []
        for _ in range(r.choice((0, 2, 5))):
            getattr(g, "a_" + r.choice(("frame", "data", "open", "regs", "regc")))()
            g.track()
        unit = bytes(97 + x % 26 for x in range(r.choice((1009, 4001, 65521))))
        nb = (r.choice(mb) << 20) // len(unit)
        k = [x for x in cl[:-1] if w.c[x].ws or w.c[x].kind not in ("ws", "wss")]
        k = r.sample(k, min(len(k), r.choice((1, 1, 2))))
        mine = [("in", c, (unit, nb)) for c in r.sample(cl, r.choice((1, len(cl))))]
        theirs = [("in", s, (slip(w.c[x].addr, unit), nb)) for x in k]
        if end == "stop":
            back = r.random() < 0.5
            w.deaf(who + ([s] if back else k), mine if back else theirs, w.stop)
            for what in ("TCP", "unix", "monitor"):
                w.probe(what)
            w.start(fake=1, **conf)
            continue
        if end == "time":
            ok = w.deaf([s], mine, lambda: w.advance(64000))
        elif end == "close":
            ok = w.deaf(k, theirs, lambda: w.close(s))
        elif end == "disc":
            ok = w.deaf(k[:1], theirs[:1], lambda: w.disconnect(s, w.c[k[0]].addr))
        elif end == "anon":
            # somebody who never registers, but asks and asks
            x = w.open("unix" if "unix" in kinds else "tcp" if "tcp" in kinds else "tls")
            ok = w.deaf([x], [("in", x, (js({"id": 7, "method": "RemoteProxy.Introspect"}), 160 if w.c[x].kind == "unix" else 1400))], lambda: w.advance(inactive * 1.07 + 1000))
            if ok and w.c[s].open:
                continue
        if not ok:
            return
        # the identity is free again
        for x in w.live("server"):
            w.send(x, slip(0, js({"id": 1, "method": "TunnelProxy.Ping", "params": {"timestamp": 1}})))
        x = w.open("fake")
        w.reg_server(x, u if end != "disc" else w.c[k[0]].uuid, st=True)
    walk().sweep(None, stats=False)


# ---------------------------------------------------------------- hostile input
def _hostile(ctx, r, kinds, n=16, **k):
    g = gen_core.Walk(ctx.world(), r, kinds=kinds, maxconn=9, stats=0, cut=0.1, hostile=0.3)
    g.run_sweeps(n, dict(free=30, flood=6, bad=8, open=3, regs=3, regc=4, close=2, junk=10), setup=r.choice([8, 16]), label="hostile", ssl=bool(set(kinds) & SSLKINDS))


@family("hostile", "TraceProxy")
def hostile(ctx, r, **k):
    _hostile(ctx, r, kinds=("fake",), **k)


@family("hostile-real", "TraceProxy", real=True)
def hostile_real(ctx, r, kinds, **k):
    _hostile(ctx, r, kinds, **k)


# ---------------------------------------------------------------- configuration
@family("config", "TraceConfig")
def config(ctx, r, vecs):
    """loads the files of the model, with concrete values"""
    c = cfgw.Cfg(ctx, r)
    for v in vecs:
        f = {}
        pair = {"1": r.choice([1, 2])}
        pair["2"] = 3 - pair["1"]
        for k, m in v["f"].items():
            f[k] = c.broken() if k in v["bad"] else c.val(k, pair[m[-1]])
        c.load(f, v["there"], keep=r.random() < 0.5)


def _usable(c, ctx, r, v6):
    pair = r.choice([1, 2])
    f = {k: c.val(k, pair, usable=True) for k in cfgw.SEC}
    f["logEngineEnabled"] = "false"
    for k in ("tcp", "ws"):
        if r.random() < 0.15:
            h = r.choice(["0.0.0.0"] + (["::1", "::"] if v6 else []))
            f[k + "Host"], f[k + "Port"] = h, str(cfgw.any_port(h))
    if r.random() < 0.1:
        f[r.choice(cfgw.CERTKEYS)] = c.broken()
    return f


def _probes(f, ctx, r):
    ps = []
    for tr, hk, pk in (("TCP", "tcpHost", "tcpPort"), ("WebSocket", "wsHost", "wsPort")):
        for how in ("plain", "tls"):
            ps.append((tr, f[hk], f[pk], how))
        if f[hk] == ctx.sc.host:
            ps.append((tr, ".".join(["127", "8"] + f[hk].split(".")[2:]), f[pk], r.choice(["plain", "tls"])))
        ps.append((tr, f[hk], str(cfgw.any_port(f[hk])), "plain"))
    ps += [("unix", f["unixSocketFileName"], "", "plain"), ("monitor", f["monitorSocket"], "", "plain")]
    r.shuffle(ps)
    return ps


@family("config-bin", "TraceConfig", real=True)
def config_bin(ctx, r, n=2):
    """the server program, with a configuration file and a log file"""
    c = cfgw.Bin(ctx, r)
    v6 = _v6()
    for _ in range(n):
        f = _usable(c, ctx, r, v6)
        for k in ("writeLogs", "jsonRpcTimeout", "inactiveTimeout", "name", "certificateChain", "sslEnabled", "logEngineEnabled"):
            if r.random() < 0.25:
                f.pop(k)
        c.load(f, there=r.random() < 0.9)
        up = c.exec(logopt=ctx.sc.path("own%d.log" % c.n) if r.random() < 0.4 else "", short=r.random() < 0.5)
        try:
            if up:
                for p in _probes(f, ctx, r):
                    c.look(*p)
                c.logged(f["logFile"])
                if c.logopt:
                    c.logged(c.logopt)
        finally:
            c.end()


# ------------------------------------------------------------------- the programs
@family("program", "TraceProgram", real=True)
def program(ctx, r, runs=4):
    """the server program, launched and ended in all ways"""
    g = progw.Prog(ctx, r)
    sigs = ["SIGTERM", "SIGINT", "SIGQUIT", "SIGHUP", "SIGKILL"]
    try:
        for _ in range(runs):
            tls = r.random() < 0.3
            if r.random() < 0.15:
                g.launch(tls, wait=False)
                time.sleep(r.choice([0, 0.01, 0.03, 0.06, 0.1, 0.2, 0.4]))
                g.signal(r.choice(sigs))
                continue
            if not g.launch(tls):
                return
            us = ["u%d" % k for k in range(4)]
            n = 0
            for _ in range(r.randrange(0, 9)):
                free = [c for c in g.peers if c not in g.regd]
                if not free or r.random() < 0.4:
                    n += 1
                    g.attach("p%d" % n)
                elif r.random() < 0.75:
                    c = r.choice(free)
                    role = "s" if not g.regd or r.random() < 0.4 else "c"
                    if g.register(c, role, r.choice(us), r.choice(us) if role == "c" else ""):
                        g.regd.add(c)
                else:
                    g.away(r.choice(list(g.peers)))
                    g.list(settle=0.5)
                if r.random() < 0.3:
                    g.list()
            busy = r.random() < 0.6
            if busy:
                g.load(r.choice([2, 4, 6]))
                time.sleep(r.uniform(0.02, 0.3))
            g.signal(r.choice(sigs), again=r.random() < 0.2)
            if busy:
                g.calm()
    except progw.Over:
        pass
    finally:
        g.end()


@family("tool", "TraceProgram", real=True)
def tool(ctx, r, part=None, host=None):
    """the tunnel client program against the server program"""
    g = progw.Prog(ctx, r)
    part = part or r.choice(["echo", "echo", "text", "args", "trust", "restart"])
    tls = r.random() < 0.5
    names = ["tool", "two words", "n\u00e4me", "--x", ""]
    if host or (host is None and r.random() < 0.3):
        g.sc.localhost()
    try:
        if not g.launch(tls):
            return
        if part == "args":
            for k in range(3):
                a = r.choice([dict(server=True, client=True, suuid=r.choice(["", "u1"])), dict(client=True), dict(client=True, suuid="bad"), dict(url="bad", server=True),
                              dict(client=True, suuid="u1", url="bad"), dict(insecure=tls), dict(server=True, insecure=tls, suuid="bad"), dict(client=True, suuid="u1", insecure=tls)])
                # (a tunnel client without its server stays unregistered)
                g.tool("t%d" % k, expect=not (a.get("client") and not a.get("server") and a.get("suuid") == "u1" and a.get("url") != "bad"), **a)
            g.list()
            return
        if part == "trust":
            # a certificate or a transport that does not fit
            ins = r.random() < 0.5
            sch = r.choice(["ssl", "tcp"])
            ok = sch == ("ssl" if tls else "tcp") and (not tls or ins)
            g.tool("t", u="u1", server=True, insecure=ins, scheme=sch, expect=ok)
            g.list()
            return
        if part == "text":
            g.attach("s", r.choice([k for k in g.kinds() if k not in ("ws", "wss")]))
            g.register("s", "s", "u1")
            t0 = time.time()
            if g.tool("t", u=r.choice(["u2", ""]), client=True, suuid="u1", insecure=tls, random=r.random() < 0.5, name=r.choice(names)):
                g.text("s", t0)
                g.list()
                g.toolend("t")
                g.list(settle=1)
            return
        echo = r.random() < 0.65
        u = r.choice(["u1", ""])
        if not g.tool("t", u=u, server=r.random() < 0.7, insecure=tls, random=echo, name=r.choice(names)):
            return
        u = u or "t uuid"
        for cyc in range(2 if part == "restart" else 1):
            cs = ["c%d" % k for k in range(r.randrange(1, 4))]
            for c in cs:
                g.attach(c)
                g.register(c, "c", "cu" + c, u)
            for _ in range(r.randrange(1, 4)):
                g.echo(r.choice(cs), [r.choice([1, 2, 10, 500, 5000, 70000]) for _ in range(r.randrange(1, 5))], not echo)
            g.list()
            if r.random() < 0.5:
                g.away(cs.pop())
                g.list(settle=0.5)
            if part == "restart" and cyc == 0:
                g.signal(r.choice(["SIGTERM", "SIGKILL"]))
                time.sleep(r.choice([0, 0, 3, 7]))
                if not g.launch(tls):
                    return
                g.again("t")
        if r.random() < 0.5:
            g.toolend("t")
            g.list(settle=1)
    except progw.Over:
        pass
    finally:
        g.end()


def _v6():
    return os.path.exists("/proc/net/if_inet6") and "00000000000000000000000000000001" in open("/proc/net/if_inet6").read()


@family("config-real", "TraceConfig", real=True)
def config_real(ctx, r, n=4):
    """starts the proxy with files and looks what it offers"""
    c = cfgw.Cfg(ctx, r)
    v6 = _v6()
    for _ in range(n):
        f = _usable(c, ctx, r, v6)
        f["writeLogs"] = "false"
        for k in ("logEngineEnabled", "writeLogs", "logFile", "jsonRpcTimeout", "inactiveTimeout", "name", "certificateChain", "sslEnabled"):
            if r.random() < 0.25:
                f.pop(k)
        if not c.load(f):
            c.start()
            continue
        c.start()
        ps = _probes(f, ctx, r)
        for p in ps:
            c.probe(*p)
        c.idle(int(f.get("inactiveTimeout", "8000")))
        if r.random() < 0.8:
            c.stop()
            for p in r.sample(ps, 3):
                c.probe(*p)


# ---------------------------------------------------------------- everything together
@family("e2e", "TraceTunnel", real=True)
def e2e(ctx, r, n=80, timed=0.3, **k):
    w = gen_tunnel.TW(ctx, r, nsv=r.choice([1, 2, 3]), nrc=r.choice([2, 4, 6]), **k)
    gen_tunnel.Walk(w, r).run(n, timed)


@family("e2e-tour", "TraceTunnel", real=True)
def e2e_tour(ctx, r, path, cfg, **k):
    svs, rcs, rel = gen_tunnel.MODELS[cfg]
    gen_tunnel.tour(ctx, r, [json.loads(a) if isinstance(a, str) else a for a in path], svs, rcs, rel, **k)


# ---------------------------------------------------------------- framing, byte by byte
FB = (0x00, 0x01, 0x61, 0xDB, 0xDC, 0xDD)


def _decoded(body):
    """first two decoded bytes of a frame body, None if it does not decode that far"""
    out, k = [], 0
    while k < len(body):
        c = body[k]
        if c == 0xDB:
            k += 1
            if k >= len(body) or body[k] not in (0xDC, 0xDD):
                return None
            c = 0xC0 if body[k] == 0xDC else 0xDB
        out.append(c)
        k += 1
    return out


def _bodies(n, part):
    """every body up to length n over the bytes that matter; frames for the proxy itself (address 0) are left out,
    the other families send those"""
    k = 0
    for ln in range(1, n + 1):
        for t in itertools.product(FB, repeat=ln):
            k += 1
            if k % part[1] != part[0]:
                continue
            d = _decoded(t)
            if d is None or (len(d) >= 2 and d[:2] != [0, 0]):
                yield bytes(t)


def _chunked(r, data, mean):
    """cut anywhere, mean bytes each on average"""
    out, k = [], 0
    while k < len(data):
        n = 1 + int(r.expovariate(1 / mean))
        out.append(data[k:k + n])
        k += n
    return out


def _slip_in(r, send, frames, addrs, mean):
    """frames: bodies and complete frames; send(chunks) -> {address: bytes}, lost"""
    rest = b""
    fs = list(frames)
    r.shuffle(fs)
    for a in addrs:
        fs += [slip(a, bytes([b]) + bytes(r.choice((b, 0xC0, 0xDB, 0xDC)) for _ in range(r.randrange(3))))[:-1] for b in (range(256) if len(addrs) < 4 else r.sample(range(256), 12))]
    for k in range(0, len(fs), 150):
        data = rest + b"".join(r.choice((b"", b"", b"", b"\xc0")) + f + b"\xc0" for f in fs[k:k + 150])
        x = len(data) - r.choice((0, r.randrange(1, 5)))      # the end of a frame may arrive with the next lot
        data, rest = data[:x], data[x:]
        send(_chunked(r, data, r.choice(mean)))
    if rest:
        send([rest])


@family("slip", "TraceSlip")
def slip_proxy(ctx, r, n=4, part=(0, 1), clients=480, mean=(3, 40, 400), high=()):
    w = ctx.world()
    ev, w.ev = w.ev, []
    w.reset(fake=1, label="slip", inactive=3600000)
    s = w.open("fake")
    w.reg_server(s, U(r))
    at = {}
    for tgt in [0] + list(high):
        if tgt:
            top = max(at)
            if tgt - top - 2 > 0:
                w.churn(s, tgt - top - 2, 0)
        for _ in range(clients if not tgt else 4):
            c = w.open("fake")
            w.reg_client(c, U(r), w.c[s].uuid)
            if w.c[c].addr:
                at[w.c[c].addr] = c
    ids = {c: a for a, c in at.items()}
    ev.append({"k": "reset", "known": sorted(at), "label": "slip"})
    x = w.x

    def feed(chunks):
        res = x.cmd(op="fsend", id=s, chunks=[c.hex() for c in chunks])
        got, lost = {}, False
        for _, who, what, arg in res["ev"]:
            if what == "rx" and who in ids:
                got.setdefault(ids[who], bytearray()).extend(bytes.fromhex(arg))
            elif what == "closed" or what == "rx":
                lost = True
        ev.append({"k": "in", "raw": list(b"".join(chunks)), "got": [{"a": a, "p": list(b)} for a, b in got.items()], "lost": lost})

    special = [a for a in at if {a >> 8, a & 255} <= {0, 1, 0x61, 0xC0, 0xDB, 0xDC, 0xDD}]
    _slip_in(r, feed, _bodies(n, part), special, mean)
    feed([b"\xc0"])
    pays = [bytes(t) for k in range(1, 4) for t in itertools.product((0x00, 0xC0, 0xDB, 0xDC, 0xDD), repeat=k)] + [bytes([b]) for b in range(256)] + [bytes(r.getrandbits(8) for _ in range(r.randrange(1, 3000))) for _ in range(3)]
    for a in special:
        ps = r.sample(pays, 60)
        res = x.cmd(op="fsend", id=at[a], chunks=[p.hex() for p in ps])
        raw, lost = bytearray(), False
        for _, who, what, arg in res["ev"]:
            if what == "rx" and who == s:
                raw.extend(bytes.fromhex(arg))
            elif what in ("rx", "closed"):
                lost = True
        ev.append({"k": "out", "got": [{"a": a, "p": list(b"".join(ps))}], "raw": list(raw), "lost": lost})


@family("slip-lib", "TraceSlip", real=True)
def slip_lib(ctx, r, n=4, part=(0, 1), mean=(5, 60, 600)):
    w = ctx.client()
    ev, w.ev = w.ev, []
    w.reset(label="slip-lib")
    w.new("t1", "tps", U(r), "srv")
    w.up("t1")
    w.start("t1")
    c = w.cons("t1")[0]
    for _ in range(2):
        for rid, m in list(w.a[c].calls.items()):
            w.put(c, [w.resp(int(rid), True, "", gen_client.hello(r)) if m == "Hello" else w.resp(int(rid), True, "NoError", {"slipEnabled": True})])
    al = [0, 1, 0x61, 0xC0, 0xDB, 0xDC, 0xDD]
    every = [a << 8 | b for a in al for b in al if a or b]
    known = set(r.sample(every, 30))
    for k, a in enumerate(sorted(known)):
        w.put(c, [w.wrap(c, w.conn(k, a, U(r), "n", "1.2.3.4"))])
    sock = {a: "k%d" % k for k, (o, a) in w.k.items()}
    ids = {v: a for a, v in sock.items()}
    ev.append({"k": "reset", "known": sorted(known), "label": "slip-lib"})

    def seen(res):
        got, raw, lost = {}, bytearray(), False
        for _, who, what, arg in res["ev"]:
            if what == "rx" and who in ids:
                got.setdefault(ids[who], bytearray()).extend(bytes.fromhex(arg))
            elif what == "rx" and who == c:
                raw.extend(bytes.fromhex(arg))
            elif what in ("closed", "gone", "running", "delsock", "newsock", "rx"):
                lost = True
        return [{"a": a, "p": list(b)} for a, b in got.items()], raw, lost

    def feed(chunks):
        got, raw, lost = seen(w.x.cmd(op="send", id=c, chunks=[x.hex() for x in chunks], bin=False))
        ev.append({"k": "in", "raw": list(b"".join(chunks)), "got": got, "lost": lost or bool(raw)})

    _slip_in(r, feed, _bodies(n, part), sorted(known)[::3], mean)
    feed([b"\xc0"])
    pays = [bytes(t) for k in range(1, 4) for t in itertools.product((0x00, 0xC0, 0xDB, 0xDC, 0xDD), repeat=k)] + [bytes([b]) for b in range(256)] + [bytes(r.getrandbits(8) for _ in range(r.randrange(1, 3000))) for _ in range(3)]
    for a in sorted(sock):
        raw, lost, ps = bytearray(), False, r.sample(pays, 30)
        for p in ps:
            got, rw, l = seen(w.x.cmd(op="sk_write", id=sock[a], hex=p.hex()))
            raw.extend(rw)
            lost = lost or l or bool(got)
        ev.append({"k": "out", "got": [{"a": a, "p": list(b"".join(ps))}], "raw": list(raw), "lost": lost})


# ---------------------------------------------------------------- the end of a JSON message, byte by byte
def _value(r, d=3):
    x = r.random()
    if x < 0.5 or not d:
        return "".join(r.choice("{}[]\"\\,:a\n é\u2028\u20ac/") for _ in range(r.randrange(7)))
    if x < 0.7:
        return {_value(r, 0): _value(r, d - 1) for _ in range(r.randrange(4))}
    if x < 0.85:
        return [_value(r, d - 1) for _ in range(r.randrange(4))]
    return r.choice([None, True, 0, -12, 1.5, {}, [], {"": {}}, "}", "}\n{", "\\", "\""])


def _text(r, o):
    """a JSON text of o: compact or not, with or without escapes, keys in any order"""
    ks = list(o)
    r.shuffle(ks)
    x = r.random()
    return json.dumps({k: o[k] for k in ks}, ensure_ascii=r.random() < 0.5, separators=(",", ":") if x < 0.7 else (", ", ": "), indent=None if x < 0.85 else r.choice((0, 1))).encode()


def _pieces(r, data, mean, safe):
    """cut anywhere, but where safe says no"""
    out, k = [], 0
    while k < len(data):
        n = 1 + int(r.expovariate(1 / mean)) if mean > 1 else 1
        while k + n < len(data) and not safe(k + n):
            n += 1
        out.append(data[k:k + n])
        k += n
    return out


def _texts(ctx, r, kind, n, per):
    w = ctx.world()
    ev, w.ev = w.ev, []
    w.reset(fake=1, label="text", inactive=3600000, ssl=kind in SSLKINDS)
    for _ in range(n):
        c = w.open(kind)
        ev.append({"k": "reset", "label": "text"})
        data = b""
        for k in range(1, per + 1):
            o = {"id": k, "method": r.choice(("RemoteProxy.Hello", "TunnelProxy.Ping"))}
            if o["method"] == "TunnelProxy.Ping":
                o["params"] = {"timestamp": 3}
            if r.random() < 0.8:
                o[r.choice(("x", "aaa", "z{}", "\"}"))] = _value(r)
            data += _text(r, o) + (b"\n" if k < per or r.random() < 0.7 else b"")
        # known finding: a chunk that ends behind a bracket within a string
        bad, s, e = set(), False, False
        for k, b in enumerate(data):
            if s:
                if e:
                    e = False
                elif b == 0x5c:
                    e = True
                elif b == 0x22:
                    s = False
                if s and b == 0x7d:
                    bad.add(k + 1)
            elif b == 0x22:
                s = True
        for q in _pieces(r, data, r.choice((1, 1, 3, 30, 300)), lambda k: k not in bad):
            res = w.x.cmd(**(dict(op="fsend", id=c, chunks=[q.hex()]) if kind == "fake" else dict(op="send", id=c, chunks=[q.hex()], bin=False)))
            raw, lost = b"", False
            for _, who, what, arg in res["ev"]:
                if who == c and what == "rx":
                    raw += bytes.fromhex(arg)
                elif what in ("rx", "closed"):
                    lost = True
            ids = []
            for l in raw.split(b"\n"):
                if l:
                    try:
                        m = json.loads(l)
                        ids.append(m["id"] if m.get("status") == "success" else -5)
                    except Exception:
                        ids.append(-6)
            ev.append({"k": "feed", "by": "bracket", "q": list(q), "ids": ids, "lost": lost})
            if lost:
                break
        w.x.cmd(op="fclose" if kind == "fake" else "close", id=c)


@family("text", "TraceText")
def texts(ctx, r, n=6, per=6):
    _texts(ctx, r, "fake", n, per)


@family("text-real", "TraceText", real=True)
def texts_real(ctx, r, kind="tcp", n=2, per=4):
    _texts(ctx, r, kind, n, per)


@family("text-lib", "TraceText")
def text_lib(ctx, r, n=6, per=6):
    w = ctx.client()
    ev, w.ev = w.ev, []
    for _ in range(n):
        w.reset(label="text-lib")
        w.new("j1", "jrc", U(r), "")
        rid = []
        for k in range(per):
            w.jcall("j1", "Hello", 0)
            rid.append(int(list(w.a["j1"].calls)[-1]))
        call = {}
        data = b""
        for k in range(per):
            data += _text0(r, {"id": rid[k], "status": "success", "params": {"server": _value(r, 0), "x": _value(r)}}) + b"\n"
        ev.append({"k": "reset", "label": "text-lib"})
        done = 0
        for q in _pieces(r, data, r.choice((1, 1, 3, 30, 300)), lambda k: True):
            res = w.x.cmd(op="jrc_data", id="j1", chunks=[q.hex()])
            ids = []
            for _, who, what, arg in res["ev"]:
                if what == "done":
                    i = arg["resp"].get("id")
                    ids.append(rid.index(int(i)) + 1 if i is not None and int(i) in rid else -5)
            ev.append({"k": "feed", "by": "line", "q": list(q), "ids": ids, "lost": False})


def _text0(r, o):
    ks = list(o)
    r.shuffle(ks)
    return json.dumps({k: o[k] for k in ks}, ensure_ascii=r.random() < 0.5, separators=(",", ":") if r.random() < 0.7 else (", ", ": ")).encode()


# ---------------------------------------------------------------- the monitor's client against a scripted proxy
@family("moncut", "TraceText", real=True)
def moncut(ctx, r, n=4, per=5):
    w = ctx.world()
    x = w.x
    for _ in range(n):
        x.cmd(op="reset")
        p = ctx.sc.path("mc%d" % r.randrange(1 << 30))
        x.cmd(op="llisten", id="LM", path=p)
        ev = ctx.ev
        ev.append({"k": "reset", "label": "moncut"})
        res = x.cmd(op="mon_new", id="m1", path=p)
        acc = [arg for _, who, what, arg in res["ev"] if what == "acc"]
        asked = 0
        objs, data = [], b""
        for k in range(1, per + 1):
            o = {"apiVersion": "0.6", "serverName": str(k), "x": _value(r), "tunnelProxyStatistic": {"tunnelConnections": [{"name": _value(r, 0), "clientConnections": [{"name": _value(r, 0)}] * r.randrange(3)} for _ in range(r.randrange(0, 40 if r.random() < 0.2 else 3))]}}
            objs.append(o)
            data += _text0(r, o) + b"\n"
            for t in x.cmd(op="mon_refresh", id="m1", all=r.random() < 0.5)["ev"]:
                if t[2] == "rx":
                    asked += bytes.fromhex(t[3]).count(b"\n")
        lost = len(acc) != 1 or asked != per
        for q in _pieces(r, data, r.choice((1, 7, 40, 400, 4000)), lambda k: True):
            res = x.cmd(op="send", id=acc[0] if acc else "a0", chunks=[q.hex()], bin=False)
            ids = []
            for _, who, what, arg in res["ev"]:
                if what == "snap":
                    try:
                        k = int(arg["serverName"])
                        ids.append(k if arg == json.loads(json.dumps(objs[k - 1])) else -5)
                    except Exception:
                        ids.append(-6)
                elif what == "closed":
                    lost = True
            ev.append({"k": "feed", "by": "line", "q": list(q), "ids": ids, "lost": lost})
        x.cmd(op="mon_close", id="m1")
        x.cmd(op="unlisten", id="LM")
