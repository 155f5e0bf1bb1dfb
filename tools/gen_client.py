"""Histories for the client library against a scripted proxy."""
import random, json
import rp
from rp import js, slip
from gen_core import U, NAMES, PEERS, payload

def hello(r):
    d = {"server": r.choice(["nymea-remoteproxy", "other"]), "name": r.choice(NAMES), "version": r.choice(["1.13.0", "0.0.1", "2"]), "apiVersion": r.choice(["0.6", "1.0"])}
    if r.random() < 0.1:
        d.pop(r.choice(list(d)))
    return d


def cuts(r, n, p):
    if n < 2 or r.random() > p:
        return None
    if n < 120 and r.random() < 0.15:
        return list(range(1, n))
    return [r.randrange(1, n) for _ in range(r.choice([1, 1, 2, 4]))]


class Walk:
    def __init__(self, w, r, tps=1, trc=1, jrc=0, cut=0.3, timed=0.1, big=0.02, huge=0.3, ws=0.0, tls=0.0, hooks=0.05, merge=0.15):
        self.w, self.r = w, r
        self.p = dict(cut=cut, timed=timed, big=big, huge=huge, hooks=hooks, merge=merge)
        self.n = (tps, trc, jrc)
        self.wsp, self.tlsp = ws, tls
        self.nid = 0
        self.addr = {}

    def objs(self, *kinds):
        return [o for o, d in self.w.o.items() if d["kind"] in kinds]

    def nextid(self):
        # notification ids: any, often equal to an outstanding call
        r = self.r
        if r.random() < 0.5:
            return r.randrange(4)
        self.nid += 1
        return self.nid

    def put(self, c, parts):
        n = sum(len(b) for b, _ in parts)
        a = self.w.a[c]
        cs = cuts(self.r, n, self.p["cut"])
        if cs and self.w.o[a.o]["lkind"] == "ws":
            d = b"".join(b for b, _ in parts)
            cs = [k for k in cs if (d[k] & 0xC0) != 0x80]
        self.w.put(c, parts, cs)

    # -- actions
    def a_start(self):
        o = self.r.choice(self.objs("tps", "trc"))
        d = self.w.o[o]
        if any(self.w.cons(o)) and self.r.random() < 0.8:
            return
        if not d["listening"] and self.r.random() < 0.6:
            self.w.up(o)
        if self.w.cons(o):
            self.w.hook(o, "none", "stop")      # restarting from within the restart is not judged
        self.w.start(o, U(self.r) if d["kind"] == "trc" else "")

    def a_stop(self):
        self.w.stop(self.r.choice(self.objs("tps", "trc")))

    def a_listen(self):
        o = self.r.choice(self.objs("tps", "trc"))
        if self.w.o[o]["listening"]:
            self.w.down(o)
        else:
            self.w.up(o)

    def a_step(self):
        """move a handshake forward"""
        r, w = self.r, self.w
        cs = [c for c in w.cons(mode="json") if w.a[c].calls]
        if not cs:
            return
        c = r.choice(cs)
        a = w.a[c]
        rid, m = r.choice(list(a.calls.items()))
        x = r.random()
        if m == "Hello":
            if x < 0.9:
                msg = w.resp(int(rid), True, "", hello(r))
            else:
                msg = w.resp(int(rid), False)
            return self.put(c, [msg])
        if x < 0.85:
            msg = w.resp(int(rid), True, "NoError", {"slipEnabled": True} if m == "RegisterServer" else {})
        elif x < 0.95:
            msg = w.resp(int(rid), True, r.choice(["AlreadyRegistered", "ServerNotFound", "InvalidUuid", "InternalServerError"]), {"slipEnabled": False} if m == "RegisterServer" else {})
        else:
            msg = w.resp(int(rid), False)
        parts = [msg]
        if x < 0.85 and r.random() < self.p["merge"] * 3:
            # what follows the registration comes along in the same segment
            if m == "RegisterServer":
                ad = r.choice([1, 2, 0xC0DB, 300])
                b, it = w.conn(self.nextid(), ad, U(r), r.choice(NAMES), r.choice(PEERS))
                parts.append((slip(0, b), it))
                self.addr.setdefault(a.o, set()).add(ad)
                if r.random() < 0.5:
                    parts.append(w.frame(ad, payload(r)))
            elif w.o[a.o]["lkind"] != "ws":
                parts.append(w.raw(r.choice([payload(r), b"{\"a\":1}\n", b"\n\n", b"}\n{"])))
        self.put(c, parts)

    def a_notify(self):
        r, w = self.r, self.w
        cs = w.cons(mode="slip")
        if not cs:
            return
        c = r.choice(cs)
        o = w.a[c].o
        used = self.addr.setdefault(o, set())
        live = {a for t, a in w.k.values() if t == o}
        parts = []
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            x = r.random()
            if x < 0.35:
                a = r.choice([1, 2, 3, 5, 255, 256, 0xC0C0, 0xDBDC, 0xC000, 65534, r.randrange(1, 65535)])
                if a in live:
                    continue
                live.add(a)
                parts.append(w.wrap(c, w.conn(self.nextid(), a, U(r), r.choice(NAMES), r.choice(PEERS))))
            elif x < 0.5 and live:
                a = r.choice(sorted(live)) if r.random() < 0.85 else r.randrange(1, 65535)
                live.discard(a)
                parts.append(w.wrap(c, w.gone(self.nextid(), a)))
            else:
                a = r.choice(sorted(live)) if live and r.random() < 0.85 else r.choice([1, 2, 0xC0C0, r.randrange(1, 65535)])
                big = r.random() < self.p["big"]
                if big and parts:
                    continue
                parts.append(w.frame(a, payload(r, big=big, huge=self.p["huge"])))
                if big:
                    break
            if r.random() < 0.05:
                parts.append((r.choice([b"\xdb\xc0", b"\x00\x01\xdbx\xc0", b"\x00\x01abc\xdb\xc0", b"\xc0", b"\xc0\xc0"]), {"k": "junk"}))
            if r.random() < 0.04:
                parts.append((slip(0, r.choice([b"{]\n", b"[]\n", b"{}\n", b"{\"id\":1,\"notification\":\"X\"}\n", js({"id": 5000, "notification": "TunnelProxy.Other", "params": {}})])), {"k": "junk"}))
        if parts:
            self.put(c, parts)

    def a_answer(self):
        """answer outstanding calls, in any order"""
        r, w = self.r, self.w
        cs = [c for c in w.cons(mode="slip") if w.a[c].calls]
        if not cs:
            return
        c = r.choice(cs)
        ids = list(w.a[c].calls)
        r.shuffle(ids)
        parts = []
        for i in ids[:r.choice([1, 1, 2, 3])]:
            m = w.a[c].calls[i]
            parts.append(w.wrap(c, w.resp(int(i), r.random() < 0.95, r.choice(["NoError", "UnknownSocketAddress"]) if m == "DisconnectClient" else "", {"timestamp": 1} if m == "Ping" else {})))
        self.put(c, parts)

    def a_raw(self):
        r, w = self.r, self.w
        cs = w.cons(mode="raw")
        if not cs:
            return
        c = r.choice(cs)
        ws = w.o[w.a[c].o]["lkind"] == "ws"
        # (what comes in more than one piece cannot be told from several deliveries, the first of which ends the connection)
        p = payload(r, text=ws, big=r.random() < self.p["big"] and w.o[w.a[c].o].get("armed") != "rx", huge=self.p["huge"])
        if ws:
            p = p.replace(b"\x00", b"0")
        self.put(c, [w.raw(p)])

    def a_pclose(self):
        cs = self.w.cons()
        if cs:
            self.w.pclose(self.r.choice(cs), abort=self.r.random() < 0.3)

    def a_write(self):
        ks = list(self.w.k)
        if ks:
            self.w.write(self.r.choice(ks), payload(self.r, big=self.r.random() < self.p["big"], huge=self.p["huge"]))

    def a_disc(self):
        ks = list(self.w.k)
        if ks:
            self.w.disc(self.r.choice(ks))

    def a_send(self):
        o = self.objs("trc")
        if o:
            o = self.r.choice(o)
            ws = self.w.o[o]["ws"]
            p = payload(self.r, text=ws, big=self.r.random() < self.p["big"], huge=self.p["huge"])
            self.w.send(o, p.replace(b"\x00", b"0") if ws else p)

    def a_adv(self):
        r = self.r
        self.w.adv(r.choice([1000, 2500, 5600, 5600, 5600, 11000, 31000, 70000]) if r.random() < self.p["timed"] * 5 else 5600)
        for c in self.w.cons(mode="slip"):
            # a healthy proxy answers pings
            if any(m == "Ping" for m in self.w.a[c].calls.values()) and r.random() < 0.8:
                i = [k for k, m in self.w.a[c].calls.items() if m == "Ping"][0]
                self.put(c, [self.w.wrap(c, self.w.resp(int(i), True, "", {"timestamp": 1}))])

    def a_feed(self):
        """the proxy keeps talking for minutes, the application says nothing"""
        r, w = self.r, self.w
        cs = w.cons(mode="slip")
        if not cs:
            return
        c = r.choice(cs)
        for _ in range(r.randrange(3, 14)):
            if c not in w.cons(mode="slip"):
                return
            used = [a for t, a in w.k.values() if t == w.a[c].o]
            self.put(c, [w.frame(r.choice(used or [7]), b"tick%d" % r.randrange(99))])
            w.adv(r.choice([4000, 11000, 17000, 23000, 28000]))
            if c in w.cons(mode="slip") and r.random() < 0.7:
                for i in [k for k, m in w.a[c].calls.items() if m == "Ping"]:
                    self.put(c, [w.wrap(c, w.resp(int(i), True, "", {"timestamp": 1}))])

    def a_badstart(self):
        o = self.objs("tps")
        if o:
            self.w.bad_start(self.r.choice(o), self.r.choice(["", "http://[::", "tcp://a b:1"]))

    def partial(self, c):
        """the beginning of something that never gets complete"""
        r, w = self.r, self.w
        m = w.a[c].mode
        if m in ("json", "slip"):
            d = js({"id": r.randrange(9), "status": "success", "params": {"x": "y"}})
            d = r.choice([slip(0, d), slip(r.choice([1, 300]), payload(r))]) if m == "slip" else d
            d = d[:r.randrange(1, len(d))]
            if w.o[w.a[c].o]["lkind"] == "ws":
                d = d.decode("utf-8", "ignore").encode() or b"{"
            w.put(c, [(d, {"k": "part"})])

    def a_partial(self):
        r, w = self.r, self.w
        c = [k for k in w.cons() if w.a[k].mode in ("json", "slip")]
        if not c:
            return
        c = r.choice(c)
        o = w.a[c].o
        w.hook(o, "none", "stop")
        self.partial(c)
        if c not in w.cons():
            return
        if r.random() < 0.5:
            w.pclose(c, abort=r.random() < 0.3)
        else:
            if r.random() < 0.5:
                w.stop(o)
            w.start(o, U(r) if w.o[o]["kind"] == "trc" else "")
        # and once more, up to frames
        if w.o[o]["kind"] == "tps" and w.o[o]["listening"] and not w.cons(o):
            w.adv(5600)
        for _ in range(2):
            c = [k for k in w.cons(o, mode="json") if w.a[k].calls]
            if c:
                rid, m = list(w.a[c[0]].calls.items())[0]
                w.put(c[0], [w.resp(int(rid), True, "" if m == "Hello" else "NoError", hello(r) if m == "Hello" else {})])

    def hurry(self, o):
        """the proxy answers what a handshake asks"""
        w, r = self.w, self.r
        for _ in range(3):
            c = [k for k in w.cons(o, mode="json") if w.a[k].calls]
            if not c:
                return
            rid, m = list(w.a[c[0]].calls.items())[0]
            w.put(c[0], [w.resp(int(rid), True, "" if m == "Hello" else "NoError", hello(r) if m == "Hello" else {"slipEnabled": True} if m == "RegisterServer" else {})])

    def a_info(self):
        self.w.info()

    def a_hook(self):
        r = self.r
        o = r.choice(self.objs("tps", "trc"))
        if self.w.o[o]["kind"] == "tps":
            on, do = r.choice([("rx", "stop"), ("rx", "write"), ("rx", "disc"), ("new", "stop"), ("new", "write"), ("new", "disc"), ("gone", "stop"), ("up", "stop"), ("down", "stop"), ("down", "start"), ("down", "disc"), ("down", "write")])
        else:
            on, do = r.choice([("rx", "stop"), ("rx", "send"), ("up", "send"), ("up", "stop"), ("down", "start"), ("down", "stop"), ("down", "send")])
        self.w.hook(o, on, do, b"hooked")

    def a_losthook(self):
        """the application uses a socket from within its end, as the connection is lost"""
        r, w = self.r, self.w
        cs = w.cons(mode="slip")
        if cs:
            c = r.choice(cs)
            w.hook(w.a[c].o, "gone", r.choice(["disc", "write"]), b"late")
            if r.random() < 0.6:
                w.pclose(c, abort=r.random() < 0.3)
            else:
                w.stop(w.a[c].o)
            w.hook(w.a[c].o, "none", "stop")

    def a_jcall(self):
        o = self.objs("jrc")
        if o:
            self.w.jcall(self.r.choice(o), self.r.choice(["Hello", "RegisterServer", "RegisterClient", "Ping", "DisconnectClient", "DisconnectClient"]), self.r.randrange(1, 65535))

    def a_jdata(self):
        r, w = self.r, self.w
        o = self.objs("jrc")
        if not o:
            return
        o = r.choice(o)
        ids = list(w.a[o].calls)
        r.shuffle(ids)
        parts = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            x = r.random()
            if x < 0.5 and ids:
                i = ids.pop()
                parts.append(w.resp(int(i), r.random() < 0.9, "", {"v": r.choice(NAMES), "n": {"a": {"b": r.randrange(1000)}}, "l": [{}, {"x": "}\n{"}]}, error=r.choice(NAMES)))
            elif x < 0.85:
                parts.append(w.conn(self.nextid(), r.randrange(1, 65535), U(r), r.choice(NAMES), r.choice(PEERS)) if r.random() < 0.5 else w.gone(self.nextid(), r.randrange(1, 65535)))
            elif x < 0.95:
                parts.append(w.resp(900000 + r.randrange(1000), True, "", {}))
            else:
                parts.append((js({"id": self.nextid(), "notification": "Other.Thing", "params": {"q": r.choice(NAMES)}}), {"k": "junk"}))
        self.put(o, parts)

    def run(self, n, weights=None, label=""):
        r, w = self.r, self.w
        w.reset(label=label)
        for i in range(self.n[0]):
            w.new("t%d" % (i + 1), "tps", U(r), r.choice(NAMES), tls=r.random() < self.tlsp, strict=r.random() < 0.2)
        for i in range(self.n[1]):
            ws = r.random() < self.wsp
            w.new("r%d" % (i + 1), "trc", U(r), r.choice(NAMES), ws=ws, tls=not ws and r.random() < self.tlsp, strict=r.random() < 0.2)
        for i in range(self.n[2]):
            w.new("j%d" % (i + 1), "jrc", U(r), "")
        W = dict(start=8, stop=1.5, listen=2, step=22, notify=22, answer=6, raw=10, pclose=1.5, write=10, disc=5, send=9, adv=self.p["timed"] * 50, feed=self.p["timed"] * 8 * bool(self.n[0]), info=10, badstart=1, partial=2, hook=self.p["hooks"] * 40, losthook=self.p["hooks"] * 6, jcall=15 * bool(self.n[2]), jdata=15 * bool(self.n[2]))
        W.update(weights or {})
        ks = list(W)
        if not self.n[0] and not self.n[1]:
            ks = ["jcall", "jdata"]
            W = dict(dict(jcall=1, jdata=1), **(weights or {}))
        for _ in range(n):
            getattr(self, "a_" + r.choices(ks, [W[k] for k in ks])[0])()


def tour(w, r, path, tps, trc, jrc, merge=0.3, cut=0.2):
    """plays a behaviour of MCClient: the model names objects, addresses and outcomes, everything else is drawn"""
    g = Walk(w, r, cut=cut)
    w.reset(label="client-tour")
    for o in tps + trc + jrc:
        kind = "tps" if o in tps else "trc" if o in trc else "jrc"
        ws = kind == "trc" and r.random() < 0.3
        w.new(o, kind, U(r), r.choice(NAMES), ws=ws, tls=not ws and kind != "jrc" and r.random() < 0.15)
    adr = dict(zip((1, 2), r.sample([1, 2, 3, 255, 256, 0xC0C0, 0xDBDC, 0xC000, 0x00C0, 65534, 127, 128], 2)))
    srv = U(r)
    buf, of = [], None
    jid = {}

    def sock(o, a):
        return [k for k, v in w.k.items() if v == (o, adr[a])]

    def flush():
        nonlocal buf, of
        if buf:
            c = w.cons(of)
            if c:
                g.put(c[0], buf)
            buf, of = [], None

    def say(o, part):
        nonlocal of
        if of not in (None, o):
            flush()
        of = o
        buf.append(part)
        if r.random() > merge:
            flush()

    def con(o):
        return (w.cons(o) or [None])[0]

    def slipped(b):
        return (slip(0, b[0]), b[1])

    for a in path:
        q, o = a["k"], a.get("o")
        if q in ("conn", "gone", "frame", "raw", "junk"):
            # a registration answered in the same segment has not changed the mode yet
            if q == "conn":
                say(o, slipped(w.conn(g.nextid(), adr[a["a"]], U(r), r.choice(NAMES), r.choice(PEERS))))
            elif q == "gone":
                say(o, slipped(w.gone(g.nextid(), adr[a["a"]])))
            elif q == "frame":
                say(o, w.frame(adr[a["a"]], payload(r)))
            elif q == "raw":
                p = payload(r, text=w.o[o]["ws"])
                say(o, w.raw(p.replace(b"\x00", b"0") if w.o[o]["ws"] else p))
            else:
                say(o, (r.choice([b"\xdb\xc0", b"\x00\x01\xdbx\xc0", b"\xc0\xc0", slip(0, b"{]\n"), slip(0, b"{}\n"), slip(0, js({"id": 77, "notification": "X.Y", "params": {}}))]), {"k": "junk"}))
            continue
        if q == "resp" and a["m"] != "Hello" and a["v"] == "ok":
            flush()
            c = con(o)
            ids = [i for i, m in w.a[c].calls.items() if m == a["m"]] if c else []
            if not ids:
                return      # the trace has left the model already
            say(o, w.resp(int(ids[0]), True, "NoError", {"slipEnabled": True} if a["m"] == "RegisterServer" else {}))
            if buf and w.o[o]["lkind"] == "ws":
                flush()
            continue
        flush()
        if r.random() < 0.4:
            w.info()
        if q in ("pclose", "stop") and con(o) and r.random() < 0.5:
            g.partial(con(o))
        if q == "up":
            w.up(o)
        elif q == "down":
            w.down(o)
        elif q == "start":
            w.start(o, srv if o in trc else "")
        elif q == "stop":
            w.stop(o)
        elif q == "hook":
            w.hook(o, a["on"], a["do"], b"hooked")
        elif q in ("resp", "stray"):
            c = con(o)
            if not c:
                return
            if q == "stray":
                m = w.resp(r.choice([4711, 99999, 12345678]), r.random() < 0.5, r.choice(["", "NoError"]))
            else:
                ids = [i for i, m in w.a[c].calls.items() if m == a["m"]]
                if not ids:
                    return
                m = w.resp(int(ids[0]), a["v"] != "fail", r.choice(["AlreadyRegistered", "ServerNotFound", "InvalidUuid", "InternalServerError"]) if a["v"] == "refuse" else "", hello(r) if a["v"] == "ok" else {})
            g.put(c, [w.wrap(c, m)])
        elif q == "pclose":
            c = con(o)
            if not c:
                return
            w.pclose(c, abort=r.random() < 0.3)
        elif q in ("write", "disc"):
            k = sock(o, a["a"])
            if not k:
                return
            w.write(k[0], payload(r)) if q == "write" else w.disc(k[0])
        elif q == "send":
            p = payload(r, text=w.o[o]["ws"])
            w.send(o, p.replace(b"\x00", b"0") if w.o[o]["ws"] else p)
        elif q == "adv":
            w.adv(r.choice([5600, 6000, 7000, 12000, 40000, 70000]))
            for c in w.cons(mode="slip"):
                for i in [k for k, m in w.a[c].calls.items() if m == "Ping"]:
                    g.put(c, [w.wrap(c, w.resp(int(i), True, "", {"timestamp": 1}))])
        elif q == "jcall":
            w.jcall(o, r.choice(["Hello", "RegisterServer", "RegisterClient", "Ping", "DisconnectClient"]), r.randrange(1, 65535))
            new = [i for i in w.a[o].calls if i not in jid.values()]
            jid[a["i"]] = new[0] if new else "0"
        elif q == "jresp":
            i = jid.pop(a["i"], None) or str(900000 + r.randrange(1000))
            g.put(o, [w.resp(int(i), r.random() < 0.9, "", {"v": r.choice(NAMES), "n": {"a": {"b": r.randrange(1000)}}, "l": [{}, {"x": "}\n{"}]}, error=r.choice(NAMES))])
        elif q == "jconn":
            g.put(o, [w.conn(r.choice([g.nextid()] + [int(x) for x in jid.values()]), r.randrange(1, 65535), U(r), r.choice(NAMES), r.choice(PEERS))])
        elif q == "jgone":
            g.put(o, [w.gone(r.choice([g.nextid()] + [int(x) for x in jid.values()]), r.randrange(1, 65535))])
    flush()
