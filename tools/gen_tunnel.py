"""Both libraries and the real proxy together: histories for Tunnel.tla."""
import rp
from gen_core import payload as text_payload
from rp import pstr, canon_uuid


# the models' tunnel servers, remote connections, and which of these may be cut off
MODELS = {"MCTunnel": (["s1", "s2"], ["c1", "c2", "c3"], ["s1", "c1", "c2"]), "MCTunnel2": (["s1", "s2"], ["c1", "c2"], ["s1", "c2"]), "MCTunnelQ": (["s1"], ["c1", "c2"], ["s1", "c1"])}


class TW:
    def __init__(self, ctx, r, nsv=2, nrc=4, tls=None, relay=0.5, big=0.05, ws=0.4, names=None, relayed=None):
        self.x, self.sc, self.r, self.ev = ctx.rpx(), ctx.sc, r, ctx.ev
        self.big = big
        self.tls = r.random() < 0.3 if tls is None else tls
        self.x.cmd(op="reset")
        self.t0 = self.x.cmd(op="nop")["t"]
        self.now = 0
        self.up = False
        self.kof = {}           # remote connection -> socket number at its server
        self.kc = {}            # socket -> remote connection
        self.on = {}            # remote connection -> tunnel server
        self.run = {}
        self.want = {}
        self.sv, self.rc = {}, {}
        self.ev.append({"k": "reset"})
        self.proxy(True)
        n = 0
        for i in range(nsv + nrc):
            n += 1
            o = names[i] if names else ("s%d" if i < nsv else "c%d") % n
            d = dict(u="{%08x-0000-4000-8000-%012x}" % (r.randrange(1 << 32), n), n=r.choice(["x", "näme", "", "a \"b\"", "c%d" % n]), relay=o in relayed if relayed is not None else r.random() < relay, ws=i >= nsv and r.random() < ws, down=False)
            (self.sv if i < nsv else self.rc)[o] = d
            port = self.sc.ws if d["ws"] else self.sc.tcp
            if d["relay"]:
                d["port"], d["to"] = rp.free_port(), port
                self.x.cmd(op="relay", id="R" + o, host=self.sc.host, port=d["port"], to=port)
                port = d["port"]
            d["url"] = "%s://%s:%d" % ((("wss" if self.tls else "ws") if d["ws"] else "ssl" if self.tls else "tcp"), self.sc.host, port)
            res = self.x.cmd(op="tps_new" if i < nsv else "trc_new", id=o, uuid=d["u"], name=d["n"], ws=d["ws"])
            self.run[o] = self.want[o] = False
            self.done({"k": "sv" if i < nsv else "rc", "o": o, "u": canon_uuid(d["u"]), "n": d["n"]}, res)
        self.byu = {canon_uuid(d["u"]): c for c, d in self.rc.items()}

    # ---- observation
    def done(self, e, res, sent=None, cutoff=()):
        """sent: receiving end -> bytes sent to it in this step"""
        run, rem, new, gone, rx, weird, cnt = {}, {}, [], [], {}, [], {}
        for t, who, what, arg in res["ev"]:
            if who in self.sv:
                if what == "running":
                    if run.get(who, self.run[who]) == arg:
                        weird.append("%s reports running=%s twice" % (who, arg))
                    run[who] = arg
                elif what == "newsock":
                    c = self.byu.get(canon_uuid(arg["uuid"]))
                    new.append({"o": who, "u": canon_uuid(arg["uuid"]), "n": arg["name"]})
                    if c:
                        self.kof[c], self.kc[arg["s"]], self.on[c] = arg["s"], c, who
                    if arg["peer"] != self.sc.host and not arg["peer"].startswith("127."):
                        weird.append("peer address %s" % arg["peer"])
            elif who in self.rc:
                if what == "remote":
                    if rem.get(who, self.run[who]) == arg:
                        weird.append("%s reports remote=%s twice" % (who, arg))
                    rem[who] = arg
                elif what == "rx":
                    rx[who] = rx.get(who, b"") + bytes.fromhex(arg)
            elif who in self.kc:
                c = self.kc[who]
                if what == "rx":
                    rx[c + "/s"] = rx.get(c + "/s", b"") + bytes.fromhex(arg)
                elif what == "gone":
                    gone.append(c)
                    self.kof.pop(c, None)
                    self.on.pop(c, None)
        sent = sent or {}
        alien = [w for w, b in rx.items() if w in cutoff and not sent.get(w, b"").startswith(b)]
        # what changed and changed back within the step
        for o in list(run):
            if run[o] == self.run[o] and e["k"] != "adv" and e["k"] != "par":
                weird.append("%s flickers" % o)
        e["run"] = [{"o": o, "v": v} for o, v in run.items() if v != self.run[o]]
        e["rem"] = [{"o": o, "v": v} for o, v in rem.items() if v != self.run[o]]
        if e["k"] == "adv" and any(v == self.run[o] for o, v in run.items()):
            weird.append("a tunnel server went away and came back: %s" % [o for o, v in run.items() if v == self.run[o]])
        self.run.update(run)
        self.run.update(rem)
        e.update(new=new, gone=gone, rx=[{"w": w, "p": pstr(b)} for w, b in rx.items() if b], cutoff=list(cutoff), alien=alien, weird=weird)
        if e["k"] == "adv":
            e["to"] = int(res["t"] - self.t0)
            self.now = e["to"]
        self.ev.append(e)

    def proxy(self, up):
        if up:
            res = self.x.cmd(op="start", conf=self.sc.conf(ssl=self.tls), fake=0)
            ok = res["r"].get("ok")
            self.up = True
            self.done({"k": "pup"}, res)
            if not ok:
                self.ev[-1]["weird"].append("proxy did not start")
        else:
            self.up = False
            self.done({"k": "pdown"}, self.x.cmd(op="stop"))

    # ---- operations: (event, command, receiving end and bytes, ends cut off)
    def payload(self, c):
        r = self.r
        if self.rc[c]["ws"]:    # a WebSocket carries text without NUL
            return text_payload(r, text=True, big=r.random() < self.big).replace(b"\x00", b"0")
        n = r.choice([1, 1, 2, 10, 100, 1400]) if r.random() > self.big else r.choice([5000, 20000, 70000, 300000, 1200000])
        k = r.random()
        if k < 0.3:
            return bytes(r.choice([0xC0, 0xDB, 0xDC, 0xDD, 0, 10, 0x7b]) for _ in range(min(n, 3000)))
        if k < 0.4:
            return rp.js({"id": 1, "method": "RemoteProxy.Hello"})
        if k < 0.45:
            return rp.slip(0, rp.js({"id": 3, "notification": "TunnelProxy.ClientDisconnected", "params": {"socketAddress": 1}}))
        return r.randbytes(n)

    def op(self, k, o, **a):
        d = self.sv.get(o) or self.rc.get(o)
        if k == "start":
            self.want[o] = True
            return {"k": k, "o": o}, dict(op="tps_start", id=o, url=d["url"]), {}, []
        if k == "stop":
            self.want[o] = False
            return {"k": k, "o": o}, dict(op="tps_stop", id=o), {}, [w for c, s in self.on.items() if s == o for w in (c, c + "/s")]
        if k == "connect":
            return {"k": k, "o": o, "u": canon_uuid(a["u"])}, dict(op="trc_connect", id=o, url=d["url"], srv=a["u"]), {}, []
        if k == "disc":
            return {"k": k, "o": o}, dict(op="trc_disc", id=o), {}, [o, o + "/s"]
        if k == "skdisc":
            return {"k": k, "o": o}, dict(op="sk_disc", id=self.kof[o]), {}, [o, o + "/s"]
        if k == "send":
            return {"k": k, "o": o, "p": pstr(a["b"])}, dict(op="trc_send", id=o, hex=a["b"].hex()), {o + "/s": a["b"]}, []
        if k == "write":
            return {"k": k, "o": o, "p": pstr(a["b"])}, dict(op="sk_write", id=self.kof[o], hex=a["b"].hex()), {o: a["b"]}, []
        if k == "cut":
            return {"k": k, "o": o}, dict(op="relaycut", id="R" + o), {}, [o, o + "/s"] if o in self.rc else [w for c, s in self.on.items() if s == o for w in (c, c + "/s")]

    def do(self, k, o, **a):
        e, c, sent, cut = self.op(k, o, **a)
        if c["op"] == "sk_write" and len(a["b"]) > 2 and not self.rc[o]["ws"] and self.r.random() < 0.2:
            # in several writes
            b, p = a["b"], sorted(self.r.randrange(1, len(a["b"])) for _ in range(2))
            c = dict(op="par", ops=[dict(c, hex=x.hex()) for x in (b[:p[0]], b[p[0]:p[1]], b[p[1]:])])
        self.done(e, self.x.cmd(**c), sent, cut)

    def par(self, ops):
        es, cs, sent, cut = [], [], {}, []
        for k, o, a in ops:
            e, c, s, x = self.op(k, o, **a)
            es.append(e)
            cs.append(c)
            sent.update(s)
            cut += x
        self.done({"k": "par", "ops": es}, self.x.cmd(op="par", ops=cs), sent, set(cut))

    def adv(self, ms):
        self.done({"k": "adv"}, self.x.cmd(op="adv", ms=int(ms), _limit=300))

    def reach(self, o, v):
        d = self.sv.get(o) or self.rc[o]
        d["down"] = not v
        res = self.x.cmd(op="relay", id="R" + o, host=self.sc.host, port=d["port"], to=d["to"]) if v else self.x.cmd(op="relaydown", id="R" + o)
        self.done({"k": "reach", "o": o, "v": v}, res)


class Walk:
    def __init__(self, w, r):
        self.w, self.r = w, r

    def data_op(self):
        w, r = self.w, self.r
        c = r.choice(list(w.on))
        return r.choice(["send", "write"]), c, dict(b=w.payload(c))

    def connectable(self):
        w = self.w
        return [c for c in w.rc if not w.run[c]]

    def target(self):
        w, r = self.w, self.r
        if r.random() < 0.06:
            return "{99999999-0000-4000-8000-000000000000}"
        return w.sv[r.choice(list(w.sv))]["u"]

    def step(self, timed):
        w, r = self.w, self.r
        k = r.choices(["start", "stop", "connect", "disc", "skdisc", "data", "cut", "reach", "proxy", "adv", "par", "oneway"],
                      [10, 3, 26, 6, 5, 40, 4, 4, 3, 30 * timed, 14, 6 * timed])[0]
        if k == "start":
            o = [o for o in w.sv if not w.want[o]]
            if o:
                w.do("start", r.choice(o))
        elif k == "stop":
            w.do("stop", r.choice(list(w.sv)))
        elif k == "connect":
            c = self.connectable()
            if c:
                w.do("connect", r.choice(c), u=self.target())
        elif k in ("disc", "skdisc"):
            if w.on:
                w.do(k, r.choice(list(w.on)))
        elif k == "data":
            if w.on:
                a, c, x = self.data_op()
                w.do(a, c, **x)
        elif k == "cut":
            o = [o for o, d in list(w.sv.items()) + list(w.rc.items()) if d["relay"]]
            if o:
                w.do("cut", r.choice(o))
        elif k == "reach":
            o = [o for o, d in list(w.sv.items()) + list(w.rc.items()) if d["relay"]]
            if o:
                o = r.choice(o)
                w.reach(o, (w.sv.get(o) or w.rc[o])["down"])
        elif k == "proxy":
            w.proxy(not w.up)
        elif k == "adv":
            w.adv(r.choice([300, 4900, 5100, 8000, 29000, 31000, 61000, 130000, 600000, 3600000 if r.random() < 0.3 else 90000]))
        elif k == "oneway":
            # for minutes only one side speaks
            if w.on:
                a, c, _ = self.data_op()
                gap = r.choice([3000, 10000, 20000, 29500, 45000])
                for _ in range(r.choice([4, 8, 14])):
                    if c in w.on:
                        w.do(a, c, b=w.payload(c)[:2000] if not w.rc[c]["ws"] else b"x")
                        w.adv(gap)
        elif k == "par":
            ops, used = [], set()
            for _ in range(r.choice([2, 3, 3])):
                q = r.random()
                if q < 0.6 and w.on:
                    a, c, x = self.data_op()
                    if (a, c) in used:
                        continue
                    used.add((a, c))
                    ops.append((a, c, x))
                elif q < 0.8:
                    c = [c for c in self.connectable() if c not in used]
                    if c:
                        c = r.choice(c)
                        used.add(c)
                        ops.append(("connect", c, dict(u=self.target())))
                elif q < 0.93 and w.on:
                    c = r.choice(list(w.on))
                    if c not in used:
                        used.add(c)
                        ops.append((r.choice(["disc", "skdisc"]), c, {}))
                else:
                    o = r.choice(list(w.sv))
                    if o not in used:
                        used.add(o)
                        ops.append(("stop" if w.want[o] else "start", o, {}))
            if len(ops) > 1:
                w.par(ops)

    def run(self, n, timed=0.3):
        w, r = self.w, self.r
        for o in w.sv:
            if r.random() < 0.8:
                w.do("start", o)
        for _ in range(n):
            self.step(timed)
        if not w.up:
            w.proxy(True)
        for o, d in list(w.sv.items()) + list(w.rc.items()):
            if d["down"]:
                w.reach(o, True)
        w.adv(8000)
        for c in self.connectable():
            w.do("connect", c, u=self.target())
        for _ in range(6):
            if w.on:
                a, c, x = self.data_op()
                w.do(a, c, **x)


def tour(ctx, r, path, svs, rcs, relayed, **k):
    """plays a behaviour of MCTunnel"""
    w = TW(ctx, r, nsv=len(svs), nrc=len(rcs), names=svs + rcs, relayed=relayed, **k)
    for a in path:
        q = a["k"]
        if q == "adv":
            w.adv(r.choice([7000, 8000, 20000, 70000]))
        elif q in ("pup", "pdown"):
            w.proxy(q == "pup")
        elif q == "reach":
            w.reach(a["o"], a["v"])
        elif q == "connect":
            w.do(q, a["o"], u=w.sv[a["s"]]["u"])
        elif q in ("send", "write", "disc", "skdisc") and a["o"] not in w.on:
            return      # the trace has left the model already
        elif q in ("send", "write"):
            w.do(q, a["o"], b=w.payload(a["o"]))
        else:
            w.do(q, a["o"])
