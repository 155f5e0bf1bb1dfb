"""Histories for the proxy itself: seeded random walks and tours through the specification's state graph."""
import random, uuid as _uuid, re, json
import rp, tlc
from rp import slip, js

SPECIAL = bytes([0xC0, 0xDB, 0xDC, 0xDD, 0x00, 0x0A, 0x7B, 0x7D, 0xFF, 0x80])
NAMES = ["srv", "a", "", "näme ✓ 漢字 🚀", "with \"quotes\" and \\ backslash", "}\\n{", "x" * 300, "{\"id\":1}", "tab\there", "}{][", "line\nbreak", "  padded  name ", "\n", "MiXeD Case", "a\u0301 \u00e1", "%1 %2 %n", "x" * 5000]
PEERS = ["127.0.0.1", "10.1.2.3", "192.168.255.254", "::1", "2001:db8::17", "8.8.8.8"]


def U(r):
    return "{%s}" % _uuid.UUID(int=r.getrandbits(128), version=4)


def notation(r, u):
    k = r.randrange(4)
    return u if k < 2 else u[1:-1] if k == 2 else u.upper()


INVALID = ["", "{00000000-0000-0000-0000-000000000000}", "00000000-0000-0000-0000-000000000000", "not-a-uuid", "{}", "{1234}"]


HUGE = [100000, 131073, 200000, 262145, 300001, 524289, 700000, 1100000, 1600000, 2500000, 4300000]


def payload(r, text=False, big=False, huge=0):
    if big and huge and r.random() < huge:
        base = payload(r, text=text, big=True)
        base = base * (70000 // len(base) + 1)
        n = r.choice(HUGE) + r.randrange(3)
        return base * (n // len(base) + 1) if text else (base * (n // len(base) + 1))[:n]
    k = r.randrange(12)
    n = r.choice([1, 1, 2, 3, 7, 16, 63, 64, 65, 127, 200, 254, 255, 256, 257])
    if big:
        n = r.choice([1400, 2048, 4095, 4096, 4097, 8192, 10240, 10241, 16383, 16384, 16385, 30000, 65535, 65536, 66000])
    if text:
        if k < 6:
            return "".join(r.choice("abc {}\"\n\r\t,:[]") for _ in range(n)).encode()
        if k < 9:
            return "".join(r.choice("aé漢🚀ß") for _ in range(max(1, n // 3))).encode()
        return js({"id": 7, "method": "RemoteProxy.Hello"})
    if k < 2:
        return bytes(r.choice(b"abcdefgh0123456789 ") for _ in range(n))
    if k < 5:
        return bytes(r.choice(SPECIAL) for _ in range(n))
    if k < 6:
        return bytes([r.choice(SPECIAL)]) * min(n, 400 if not big else n)
    if k < 7:
        return js({"id": r.randrange(99), "method": "RemoteProxy.Hello"})
    if k < 8:
        return js({"id": 1, "method": "TunnelProxy.RegisterServer", "params": {"serverName": "x", "serverUuid": U(r)}})
    if k < 9:
        return slip(r.choice([0, 1, 2, 3, 0xFFFF]), b"inner")
    if k < 10:
        return r.choice([b"\n", b"}", b"}\n", b"}\n{", b"\xc0", b"\xdb", b"\x00", b"\x00\x00", b"\x00\x01", b"\xdb\xdc", b"\xc0\xc0"])
    return bytes(r.getrandbits(8) for _ in range(n))


def stamp(r):
    """a time a Ping may carry: whatever converts to a number comes back as it was"""
    return r.choice([0, 1, 1600000000, 4294967295, r.randrange(1 << 32), 4294967296, 1767225600123, r.randrange(1 << 53), -1, -r.randrange(1 << 40), 0.5, 1600000000.25, 1e15, "1600000000", "", "x y", True])


def bad_request(r):
    return r.choice(bad_requests(r))


def bad_requests(r):
    """clearly invalid requests, balanced and on one line"""
    u = U(r)
    i = r.choice([1, 42, 100000, 0])
    L = [b'{"id":1,}\n', b'{id:1}\n', b'{"id":1 "method":"RemoteProxy.Hello"}\n', b'{"a":nope}\n', b'{"id":1,"method":"RemoteProxy.Hello",}\n', b'{"id":tru}\n',
         js({"method": "RemoteProxy.Hello"}), js({}), js({"id": "x", "method": "RemoteProxy.Hello"}), js({"id": None, "method": "RemoteProxy.Hello"}),
         js({"id": [1], "method": "RemoteProxy.Hello"}), js({"id": {}, "method": "RemoteProxy.Hello"}),
         js({"id": i}), js({"id": i, "method": ""}), js({"id": i, "method": "Hello"}), js({"id": i, "method": "RemoteProxy.Hello.World"}), js({"id": i, "method": 5}),
         js({"id": i, "method": "TunnelProxy.v2.Ping", "params": {"timestamp": 5}}), js({"id": i, "method": "TunnelProxy..Ping", "params": {"timestamp": 5}}),
         js({"id": i, "method": ".TunnelProxy.Ping", "params": {"timestamp": 5}}), js({"id": i, "method": "TunnelProxy.Ping.", "params": {"timestamp": 5}}),
         js({"id": i, "method": "RemoteProxy.RemoteProxy.Hello"}), js({"id": i, "method": "RemoteProxy.Hello.RemoteProxy.Hello"}), js({"id": i, "method": " RemoteProxy.Hello"}),
         js({"id": i, "method": "RemoteProxy.Hello "}), js({"id": i, "method": "RemoteProxy. Hello"}), js({"id": i, "method": "RemoteProxy:Hello"}), js({"id": i, "method": "RemoteProxy/Hello"}),
         js({"id": i, "method": "x.y.RegisterServer", "params": {"serverName": "x", "serverUuid": u}}), js({"id": i, "method": "TunnelProxy.x.RegisterServer", "params": {"serverName": "x", "serverUuid": u}}),
         js({"id": i, "method": "RemoteProxy."}), js({"id": i, "method": ".Hello"}), js({"id": i, "method": "."}), js({"id": i, "method": ["RemoteProxy.Hello"]}),
         js({"id": i, "method": "NoSuch.Hello"}), js({"id": i, "method": "remoteproxy.Hello"}), js({"id": i, "method": "RemoteProxy.hello"}), js({"id": i, "method": "TunnelProxy.Hello"}),
         js({"id": i, "method": "RemoteProxy.Ping"}), js({"id": i, "method": "RemoteProxy.processDataPacket"}), js({"id": i, "method": "TunnelProxy.deleteLater"}),
         js({"id": i, "method": "TunnelProxy.ClientConnected", "params": {}}), js({"id": i, "method": "TunnelProxy.ClientDisconnected", "params": {"socketAddress": 1}}),
         js({"id": i, "method": "RemoteProxy.Hello", "params": {"extra": 1}}), js({"id": i, "method": "RemoteProxy.Introspect", "params": {"x": []}}),
         js({"id": i, "method": "TunnelProxy.RegisterServer"}), js({"id": i, "method": "TunnelProxy.RegisterServer", "params": {}}),
         js({"id": i, "method": "TunnelProxy.RegisterServer", "params": {"serverUuid": u}}), js({"id": i, "method": "TunnelProxy.RegisterServer", "params": {"serverName": "x"}}),
         js({"id": i, "method": "TunnelProxy.RegisterServer", "params": {"serverName": "x", "serverUuid": u, "more": 1}}),
         js({"id": i, "method": "TunnelProxy.RegisterServer", "params": {"servername": "x", "serverUuid": u}}),
         js({"id": i, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "x", "clientUuid": u}}),
         js({"id": i, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "x", "serverUuid": u}}),
         js({"id": i, "method": "TunnelProxy.RegisterClient", "params": {"clientUuid": u, "serverUuid": u}}),
         js({"id": i, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "x", "clientUuid": u, "serverUuid": U(r), "z": None}}),
         js({"id": i, "method": "TunnelProxy.DisconnectClient"}), js({"id": i, "method": "TunnelProxy.DisconnectClient", "params": {"address": 1}}),
         js({"id": i, "method": "TunnelProxy.DisconnectClient", "params": {"socketAddress": 1, "x": 1}}), js({"id": i, "method": "TunnelProxy.Ping"}),
         js({"id": i, "method": "TunnelProxy.Ping", "params": {"time": 1}}), js({"id": i, "method": "TunnelProxy.Ping", "params": {"timestamp": 1, "z": 2}})]
    # a parameter of another type than the introspection tells
    for x in ([], [1], ["x"], {}, {"a": 1}):
        L += [js({"id": i, "method": "TunnelProxy.Ping", "params": {"timestamp": x}}), js({"id": i, "method": "TunnelProxy.DisconnectClient", "params": {"socketAddress": x}}),
              js({"id": i, "method": "TunnelProxy.RegisterServer", "params": {"serverName": x, "serverUuid": u}}), js({"id": i, "method": "TunnelProxy.RegisterServer", "params": {"serverName": "x", "serverUuid": x}}),
              js({"id": i, "method": "TunnelProxy.RegisterClient", "params": {"clientName": x, "clientUuid": u, "serverUuid": u}}),
              js({"id": i, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "x", "clientUuid": x, "serverUuid": u}}),
              js({"id": i, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "x", "clientUuid": u, "serverUuid": x}})]
    return L


def cut_points(d, c):
    """cut positions that leave no doubt about the meaning (see DESIGN.md: ambiguous cuts)"""
    ok = set(range(1, len(d)))
    if c.mode == "json":
        # not after a '}' inside a string, not between the final '}' and the newline
        instr, esc = False, False
        for k, b in enumerate(d[:-1]):
            if instr:
                if b == 0x7d:
                    ok.discard(k + 1)
                if esc:
                    esc = False
                elif b == 0x5c:
                    esc = True
                elif b == 0x22:
                    instr = False
            elif b == 0x22:
                instr = True
        if d.endswith(b"}\n"):
            ok.discard(len(d) - 1)
    if c.kind in ("ws", "wss"):
        ok = {k for k in ok if (d[k] & 0xC0) != 0x80}
    return sorted(ok)


def cuts_for(r, d, c):
    if len(d) < 2:
        return None
    cs = [r.randrange(1, len(d)) for _ in range(r.choice([1, 1, 2, 3, 6]))]
    if r.random() < 0.15 and len(d) < 200:
        cs = list(range(1, len(d)))
    ok = set(cut_points(d, c))
    return [k for k in cs if k in ok] or None


class Walk:
    def __init__(self, w, r, kinds=("fake",), asyn=0.3, cut=0.25, stats=0.15, hostile=0.05, big=0.03, timed=0.05, maxconn=9, par=0.06, srvkinds=None, focus=()):
        self.w, self.r = w, r
        self.kinds, self.srvkinds = kinds, srvkinds or [k for k in kinds if k not in ("ws", "wss")]
        self.p = dict(asyn=asyn, cut=cut, stats=stats, hostile=hostile, big=big, timed=timed, par=par)
        self.maxconn = maxconn
        self.uuids = [U(r) for _ in range(6)]
        self.stale = {}
        self.dying = set()     # killed, not yet let go by the transport
        self.ident = {}        # conn -> uuid that may still be held
        self.focus = focus
        self.woven = None      # packets held back by a_weave

    # -- views
    def st(self):
        return self.r.random() < self.p["stats"] and not self.dying

    def conns(self, mode=None):
        # (a connection with an unfinished request cannot be used for another one)
        return [k for k in self.w.live(mode) if not self.w.c[k].free and not (self.w.c[k].mode == "json" and self.w.c[k].jin.buf)]

    def servers(self):
        return self.conns("server")

    def held(self):
        return {self.w.c[k].uuid for k in self.w.c if self.w.c[k].uuid and (self.w.c[k].open or k in self.dying)}

    def dying_uuids(self):
        return {self.w.c[k].uuid for k in self.dying if self.w.c[k].uuid}

    def usable(self, u):
        return u not in self.dying_uuids()

    def track(self):
        for k, c in self.w.c.items():
            if not c.open and c.asyn and not getattr(c, "reaped", False) and k not in self.dying:
                self.dying.add(k)

    # -- actions
    def a_open(self):
        if len(self.w.live()) >= self.maxconn:
            return
        r = self.r
        k = r.choice(self.kinds)
        if k == "fake":
            self.w.open("fake", peer=r.choice(PEERS), asyn=r.random() < self.p["asyn"], tr=r.randrange(self.nf), st=self.st())
        else:
            self.w.open(k, st=self.st(), bind="127.0.0.%d" % r.randrange(1, 9) if k in ("tcp", "tls") and r.random() < 0.5 else None)

    def cut(self, d, c, pr=None):
        return cuts_for(self.r, d, c) if self.r.random() < (pr or self.p["cut"]) else None

    def _send(self, cid, d, **k):
        c = self.w.c[cid]
        if self.woven is not None:
            self.woven.setdefault(cid, d)
            return
        self.w.send(cid, d, cuts=self.cut(d, c), st=self.st(), **k)

    def _rpc(self, cid, method, params=None, rid=None):
        c = self.w.c[cid]
        r = self.r
        o = {"id": rid if rid is not None else r.choice([0, 1, 2, 7, 1000, 65536, 2147483647, r.randrange(1 << 31), -5])}
        items = [("id", o["id"]), ("method", method)]
        if params is not None or r.random() < 0.3:
            items.append(("params", params or {}))
        r.shuffle(items)
        d = js(dict(items))
        if r.random() < 0.15:
            d = (json.dumps(dict(items), ensure_ascii=r.random() < 0.5, indent=None) + "\n").encode()
        if c.kind in ("ws", "wss") and c.mode == "json" and r.random() < 0.5:
            d = d[:-1]
        if c.mode == "server":
            d = (slip(0, d) if r.random() < 0.9 else b"\xc0" + slip(0, d[:-1]))
        self._send(cid, d)

    def a_regs(self):
        c = self.conns("json")
        c = [k for k in c if self.w.c[k].kind in self.srvkinds]
        if not c:
            return
        r = self.r
        cid = r.choice(c)
        x = r.random()
        free = [u for u in self.uuids if u not in self.held() and self.usable(u)]
        used = [u for u in self.held() if self.usable(u)]
        if x < 0.62 and free:
            u = r.choice(free)
        elif x < 0.88 and used:
            u = r.choice(used)
        elif x < 0.94:
            u = None
        else:
            u = U(r)
        self._rpc(cid, "TunnelProxy.RegisterServer", {"serverName": r.choice(NAMES), "serverUuid": notation(r, u) if u else r.choice(INVALID)})

    def a_regc(self):
        c = self.conns("json")
        if not c:
            return
        r = self.r
        cid = r.choice(c)
        x = r.random()
        sv = [self.w.c[k].uuid for k in self.servers()]
        su = r.choice(sv) if sv and x < 0.85 else None
        if su is None:
            y = r.random()
            cl = [self.w.c[k].uuid for k in self.conns("client")]
            su = U(r) if y < 0.5 else (r.choice(cl) if cl and y < 0.8 else (r.choice(INVALID) if y > 0.9 else r.choice([u for u in self.uuids if self.usable(u)] or [U(r)])))
        x = r.random()
        free = [u for u in self.uuids if u not in self.held() and self.usable(u)]
        used = [u for u in self.held() if self.usable(u)]
        u = U(r) if x < 0.45 else r.choice(free) if free and x < 0.75 else r.choice(used) if used and x < 0.93 else su if x < 0.96 and su not in INVALID else r.choice(INVALID)
        n = lambda v: v if v in INVALID else notation(r, v)
        self._rpc(cid, "TunnelProxy.RegisterClient", {"clientName": r.choice(NAMES), "clientUuid": n(u), "serverUuid": n(su)})

    def a_data(self):
        c = self.conns("client")
        if not c:
            return
        cid = self.r.choice(c)
        k = self.w.c[cid]
        d = payload(self.r, text=k.kind in ("ws", "wss"), big=self.r.random() < self.p["big"])
        if k.kind in ("ws", "wss"):
            d = d.replace(b"\x00", b"0")
        self._send(cid, d)

    def addr_choice(self, s, valid=0.7):
        r, c = self.r, self.w.c[s]
        mine = list(c.clients)
        if mine and r.random() < valid:
            return r.choice(mine)
        others = [a for k in self.servers() if k != s for a in self.w.c[k].clients]
        x = r.random()
        if x < 0.35 and self.stale.get(s):
            return r.choice(list(self.stale[s]))
        if x < 0.6 and others:
            return r.choice(others)
        return r.choice([1, 2, 3, 255, 256, 0xC0DB, 0xDBC0, 0xFFFE, 0xFFFF, r.randrange(1, 65536)])

    def a_frame(self):
        s = self.servers()
        if not s:
            return
        r = self.r
        cid = r.choice(s)
        d = b""
        if r.random() < 0.1:
            d = b"\xc0" * r.randrange(1, 4)
        tot = 0
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            a = self.addr_choice(cid)
            k = self.holder(cid, a)
            text = k is not None and self.w.c[k].kind in ("ws", "wss") \
                or self.woven is not None and any(self.w.c[x].kind in ("ws", "wss") for x in self.w.live())   # (one of them may register before this arrives)
            big = r.random() < self.p["big"] and tot == 0
            p = payload(r, text=text, big=big)
            if text:
                p = p.replace(b"\x00", b"0")
            tot += len(p)
            d += slip(a, p)
            if big or tot > 1200:
                break
            if r.random() < 0.06:
                d += r.choice([b"\xdb\xc0", b"\x00\x01\xdbx\xc0", b"\x00\x01abc\xdb\xc0", b"\xdb\xdb\xc0", b"\x00\x00\xdb\x41\xc0"])   # malformed frame: dropped
            if r.random() < 0.05:
                d += b"\xc0\xc0"
            if r.random() < 0.08:
                d += slip(0, js({"id": r.randrange(1000), "method": "TunnelProxy.Ping", "params": {"timestamp": stamp(r)}}))
        self._send(cid, d)

    def holder(self, s, a):
        for k in self.conns("client"):
            c = self.w.c[k]
            if c.srv == s and c.addr == a:
                return k
        return None

    def a_disc(self):
        r = self.r
        s = self.servers()
        if s and r.random() < 0.85:
            cid = r.choice(s)
            a = self.addr_choice(cid, 0.55)
            if r.random() < 0.2:
                a = r.choice([a + 65536, a + 131072, 0, 65536, 4294967295, 65535])
            mine = list(self.w.c[cid].clients)
            # a disconnect of somebody who is just being let go is not decided
            self._rpc(cid, "TunnelProxy.DisconnectClient", {"socketAddress": a})
            self.stale.setdefault(cid, set()).add(a & 0xFFFF or 1)
        else:
            c = self.conns("json")
            if c:
                self._rpc(r.choice(c), "TunnelProxy.DisconnectClient", {"socketAddress": r.choice([0, 1, 2, 65536])})

    def a_call(self):
        c = self.conns("json") + self.servers()
        if not c:
            return
        r = self.r
        cid = r.choice(c)
        if r.random() < 0.4:
            # several requests at once
            d = b""
            srv = self.w.c[cid].mode == "server"
            for _ in range(r.choice([2, 3, 5])):
                m = js({"id": r.randrange(100), "method": "RemoteProxy.Hello"} if r.random() < 0.5 else {"id": r.randrange(100), "method": "TunnelProxy.Ping", "params": {"timestamp": stamp(r)}})
                d += slip(0, m) if srv else m
            if self.w.c[cid].kind in ("ws", "wss"):
                return self.w.send(cid, d, st=self.st())
            return self._send(cid, d)
        m = r.choice(["RemoteProxy.Hello", "RemoteProxy.Introspect", "TunnelProxy.Ping", "TunnelProxy.Ping"])
        self._rpc(cid, m, {"timestamp": stamp(r)} if m.endswith("Ping") else None)

    def a_bad(self):
        c = self.conns("json") + self.servers()
        if not c:
            return
        cid = self.r.choice(c)
        d = [bad_request(self.r)]
        c = self.w.c[cid]
        if self.r.random() < 0.5 and d[0].rstrip().endswith(b"}") and c.kind in ("fake", "tcp", "unix") and not c.asyn:
            # requests behind it come too late: these connections end at once
            for _ in range(self.r.choice([1, 1, 2, 4])):
                m, p = self.r.choice([("TunnelProxy.RegisterServer", {"serverName": "late", "serverUuid": U(self.r)}), ("TunnelProxy.RegisterServer", {"serverName": "late", "serverUuid": U(self.r)}),
                                      ("TunnelProxy.RegisterClient", {"clientName": "late", "clientUuid": U(self.r), "serverUuid": self.w.c[self.r.choice(self.servers())].uuid if self.servers() else U(self.r)}),
                                      ("RemoteProxy.Hello", {}), ("TunnelProxy.DisconnectClient", {"socketAddress": 1}), ("TunnelProxy.Ping", {"timestamp": 1})])
                d.append(js({"id": self.r.randrange(100), "method": m, "params": p}))
        self.w.send(cid, b"".join(slip(0, x) for x in d) if self.w.c[cid].mode == "server" else b"".join(d), st=self.st())

    def a_close(self):
        c = self.w.live()
        if not c:
            return
        cid = self.r.choice(c)
        if self.w.c[cid].srv:
            self.stale.setdefault(self.w.c[cid].srv, set()).add(self.w.c[cid].addr)
        self.w.c[cid].reaped = True
        self.w.close(cid, st=self.st(), abort=self.r.random() < 0.3)

    def a_reap(self):
        if not self.dying:
            return
        cid = self.r.choice(sorted(self.dying))
        self.dying.discard(cid)
        self.w.c[cid].reaped = True
        self.w.close(cid, st=self.st())

    def a_adv(self):
        r = self.r
        if r.random() < self.p["timed"] * 4:
            self.w.advance(r.choice([1000, 3000, 5000, 9000, 20000, 31000, 59000, 61500]), st=self.st())

    def a_dribble(self):
        """one packet in pieces, with time between them"""
        r, w = self.r, self.w
        c = self.servers() if r.random() < 0.6 else self.conns("json") + self.servers()
        c = [k for k in c if not w.c[k].jin.buf and not w.c[k].asyn and w.c[k].kind not in ("ws", "wss")]
        if not c:
            return
        cid = r.choice(c)
        x = w.c[cid]
        d = js({"id": r.randrange(100), "method": "TunnelProxy.Ping", "params": {"timestamp": stamp(r)}})
        if x.mode == "server":
            if x.clients and r.random() < 0.6:
                a = r.choice(sorted(x.clients))
                d = slip(a, payload(r, text=True).replace(b"\x00", b"0") if any(w.c[k].kind in ("ws", "wss") for k in w.live()) else payload(r))
            else:
                d = slip(0, d)
        ok = cut_points(d, x)
        ps = sorted(r.sample(ok, min(len(ok), r.choice([1, 2, 3, 5]))))
        for a, b in zip([0] + ps, ps + [len(d)]):
            if a:
                w.advance(r.choice([1000, 15000, 20500, 31000, 43000, 55000]) if x.mode == "server" else r.choice([500, 2000, 5000]), st=self.st())
                self.track()
            if not x.open:
                return
            w.send(cid, d[a:b], st=self.st(), part=True)

    def a_part(self):
        """somebody sends something and leaves at once"""
        r = self.r
        self.woven = {}
        for _ in range(6):
            getattr(self, "a_" + r.choice(["regs", "regc", "data", "data", "frame", "frame", "call"]))()
            if self.woven:
                break
        todo, self.woven = self.woven, None
        for cid, d in todo.items():
            c = self.w.c[cid]
            if c.mode == "server":      # (a response that cannot be delivered would end it at once)
                d = b"".join(slip(self.addr_choice(cid), payload(r, text=True).replace(b"\x00", b"0")) for _ in range(r.choice([1, 2, 4])))
            if c.open and c.kind in ("tls", "wss"):
                self._send(cid, d)      # (TLS may lose it: a reset overtakes)
            elif self.w.c[cid].open:
                self.w.c[cid].reaped = True
                if self.w.c[cid].srv:
                    self.stale.setdefault(self.w.c[cid].srv, set()).add(self.w.c[cid].addr)
                self.w.parting(cid, d, st=self.st())

    def a_weave(self):
        """packets of several connections, in pieces that arrive in turns"""
        r, w = self.r, self.w
        self.woven, n = {}, r.choice([2, 2, 3, 4])
        for _ in range(3 * n):
            if len(self.woven) >= n:
                break
            getattr(self, "a_" + r.choice(["regs", "regs", "regc", "regc", "data", "frame", "frame", "call"]))()
        todo, self.woven = self.woven, None
        left = {}
        for cid, d in todo.items():
            if w.c[cid].open and len(d) > 1:
                ok = cut_points(d, w.c[cid])
                ps = sorted(r.sample(ok, min(len(ok), r.choice([1, 1, 2, 3, 6]))))
                left[cid] = [d[a:b] for a, b in zip([0] + ps, ps + [len(d)])]
        while left:
            cid = r.choice(list(left))
            if not w.c[cid].open:
                del left[cid]
                continue
            w.send(cid, left[cid].pop(0), st=self.st(), part=True)
            if not left[cid]:
                del left[cid]
            self.track()

    def a_par(self):
        """several things before the proxy gets to run"""
        r = self.r
        ops, seen, closing = [], set(), []
        cl, sv = self.conns("client"), self.servers()
        for _ in range(r.choice([2, 2, 3])):
            x = r.random()
            if x < 0.5 and self.w.live():
                k = r.choice(self.w.live())
                if k in seen:
                    continue
                closing.append(k)
                ops.append(("close", k))
            elif x < 0.75 and cl:
                k = r.choice(cl)
                if k in seen:
                    continue
                ops.append(("in", k, b"par%d" % r.randrange(100)))
            elif sv:
                k = r.choice(sv)
                if k in seen:
                    continue
                a = self.addr_choice(k)
                ops.append(("in", k, slip(a, b"p%d" % r.randrange(100))))
            else:
                continue
            seen.add(k)
        if len(ops) < 2:
            return
        for k in closing:
            self.w.c[k].reaped = True
            if self.w.c[k].srv:
                self.stale.setdefault(self.w.c[k].srv, set()).add(self.w.c[k].addr)
        self.w.par(ops, st=self.st())

    def a_kill_ws(self):
        c = [k for k in self.conns() if self.w.c[k].kind in ("ws", "wss")]
        if c:
            self.w.send(self.r.choice(c), b"\x01\x02\xff", items=[{"k": "kill"}], binary=True, st=self.st())

    def a_free(self):
        """a connection that sends arbitrary bytes; only its effect on others is judged"""
        r = self.r
        f = [k for k in self.w.live() if self.w.c[k].free]
        if len(f) < 2 and len(self.w.live()) < self.maxconn:
            k = r.choice(self.kinds)
            self.w.open(k, free=True, tr=0)
            return
        if f:
            k = r.choice(f)
            d = r.choice([payload(r), payload(r), bytes(r.getrandbits(8) for _ in range(r.randrange(1, 300))), b"{" * r.randrange(1, 2000), b"[" * 3000, b"}\n{" * 50, b"\"}\n", b"}", b"{}" * 9,
                          b"\xff\xfe{}\n", b'{"id":' + b"9" * 400 + b"}\n", b'{"id":1e400,"method":"RemoteProxy.Hello"}\n', js({"id": 1.5, "method": "RemoteProxy.Hello"}),
                          js({"id": 1, "method": "TunnelProxy.Ping", "params": {"timestamp": "x"}}), js({"id": 1, "method": "TunnelProxy.Ping", "params": [1]}), js([1, 2]), b"null\n", b"\x00" * 20 + b"}\n",
                          js({"id": 1, "method": "TunnelProxy.DisconnectClient", "params": {"socketAddress": r.choice([-1, 1e30, "1", None, [1], {}])}}), js({"id": 1, "method": {"a": 1}}), js({"id": 2 ** 40, "method": "RemoteProxy.Hello"}),
                          js({"id": 1, "method": "TunnelProxy.RegisterServer", "params": {"serverName": {"a": 1}, "serverUuid": 5}}), js({"id": 1, "method": "TunnelProxy.RegisterClient", "params": {"clientName": [], "clientUuid": {}, "serverUuid": [1]}})])
            if b"RegisterServer" in d and b'"serverUuid":5' not in d:
                d = b"{}}"           # it must not become a registered peer
            if self.w.c[k].kind in ("ws", "wss") and r.random() < 0.7:
                d = d.decode("latin1").encode()
            self.w.send(k, d, binary=r.random() < 0.3)

    def a_junk(self):
        """malformed frames of a tunnel server, any bytes of a tunnel client"""
        r = self.r
        c = self.servers() + self.conns("client")
        if not c:
            return
        cid = r.choice(c)
        k = self.w.c[cid]
        if k.mode == "client":
            d = payload(r, text=k.kind in ("ws", "wss"))
            return self._send(cid, d.replace(b"\x00", b"0") if k.kind in ("ws", "wss") else d)
        d = b""
        for _ in range(r.choice([1, 2, 5])):
            x = r.randrange(6)
            d += (b"\xc0" * r.randrange(1, 50) if x == 0 else b"\x00\x00\xdb" + bytes([r.choice([0, 1, 0xdb, 0xff])]) + b"x\xc0" if x == 1 else
                  slip(self.addr_choice(cid, 0.2), bytes(r.getrandbits(8) for _ in range(r.randrange(1, 300)))) if x == 2 and not any(self.w.c[q].kind in ("ws", "wss") for q in self.conns("client")) else
                  slip(r.choice([9999, 65535, 0xC0C0]), payload(r)) if x < 5 else b"\x00\x05ab\xdb\xc0")
        self._send(cid, d)

    def a_flood(self):
        c = self.conns("json")
        c = [k for k in c if self.w.c[k].kind in ("fake",)]
        if not c:
            return
        cid = self.r.choice(c)
        if self.w.c[cid].jin.buf:
            return
        n = self.r.choice([10240, 10241, 10300, 10000, 5000, 12000])
        front = js({"id": 5, "method": "RemoteProxy.Hello"}) if self.r.random() < 0.4 else b""
        d = b'{"id":1,"method":"RemoteProxy.Hello","params":{"x":"'
        d = front + d + b"y" * (n - len(d))
        c = self.w.c[cid]
        k = self.r.choice([len(d), len(d) - 1, 5000])
        self.w.send(cid, d, cuts=[k] if k < len(d) else None)
        if c.open and self.r.random() < 0.6:
            self.w.send(cid, b"zz")

    def sweep(self, mk, stats=True):
        """everybody shows that he is still there and still attached to the same peers"""
        w, r = self.w, self.r
        w.mk = mk
        for k in self.conns():
            c = w.c[k]
            if not c.open or c.jin.buf:
                continue
            if c.mode == "client":
                w.send(k, b"S" + k.encode())
            elif c.mode == "server":
                d = b"".join(slip(a, b"F" + k.encode()) for a in sorted(c.clients))
                st = sorted(a for a in self.stale.get(k, ()) if a not in c.clients and 0 < a < 65536)[:3]
                d += b"".join(slip(a, b"stale") for a in st)
                if d:
                    w.send(k, d)
            elif r.random() < 0.3:
                w.send(k, js({"id": r.randrange(1000), "method": "RemoteProxy.Hello"}))
        if stats and not self.dying:
            w.stats()
        self.track()
        w.mk = None

    def run_sweeps(self, n, weights, nf=2, setup=10, **conf):
        """set up, then: one stimulus, a look at everything, the next stimulus, ..."""
        self.nf = nf
        w = self.w
        w.reset(fake=nf, **conf)
        S = dict(open=14, regs=8, regc=16)
        for _ in range(setup):
            self.track()
            getattr(self, "a_" + self.r.choices(list(S), list(S.values()))[0])()
        self.track()
        self.sweep(None)
        ks = list(weights)
        for _ in range(n):
            self.track()
            a = self.r.choices(ks, [weights[k] for k in ks])[0]
            k = len(w.ev)
            getattr(self, "a_" + a)()
            self.track()
            if len(w.ev) > k:
                for e in w.ev[k:]:
                    e["mk"] = a
                self.sweep(a)

    def a_stop(self):
        self.w.stop()
        self.dying = set()
        self.w.start(fake=self.nf)

    def run(self, n, weights=None, nf=2, **conf):
        self.nf = nf
        self.w.reset(fake=nf, **conf)
        W = dict(open=14, regs=9, regc=16, data=16, frame=18, disc=5, call=4, bad=self.p["hostile"] * 40, close=5, reap=7, adv=self.p["timed"] * 40, par=self.p["par"] * 60, kill_ws=1, dribble=0, weave=3, part=3, free=self.p["hostile"] * 30, flood=self.p["hostile"] * 6, stop=0)
        W.update(weights or {})
        ks = list(W)
        for _ in range(n):
            self.track()
            getattr(self, "a_" + self.r.choices(ks, [W[k] for k in ks])[0])()
        self.track()


# ---------------------------------------------------------------- tours through the state graph of the specification
def graph(cfg="MCProxy", timeout=300, module="MCProxy"):
    """all transitions of the model: {state: [(action, state)]}, initial state"""
    import os, tempfile, shutil
    d = tempfile.mkdtemp(prefix="mc.")
    try:
        for f in os.listdir(tlc.SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(tlc.SPEC, f), d)
        p = os.path.join(d, cfg + ".cfg")
        s = open(p).read().replace("PrintEdges = FALSE", "PrintEdges = TRUE")
        s = re.sub(r"(?m)^(INVARIANTS|PROPERTIES).*$", "", s).replace("FairSpec", "Spec") + "\nACTION_CONSTRAINT Edges\n"
        open(p, "w").write(s)
        r = tlc.run(module, cfg=cfg, cwd=d, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r["rc"] != 0:
        raise tlc.TlcError(r["out"][-2000:])
    G, first = {}, None
    for m in re.finditer(r'<<"EDGE", (-?\d+), "((?:[^"\\]|\\.)*)", (-?\d+)>>', r["out"]):
        a, b = m.group(1), m.group(3)
        if first is None:
            first = a
        G.setdefault(a, set()).add((m.group(2).replace('\\"', '"'), b))
    return {k: sorted(v) for k, v in G.items()}, first, r


def tours(G, init, r, maxlen=400, limit=None):
    """paths from the initial state that together use every transition"""
    todo = {s: list(v) for s, v in G.items()}
    for v in todo.values():
        r.shuffle(v)
    left = sum(len(v) for v in todo.values())
    out = []
    # distance to the next state with unused transitions: plain BFS on demand
    from collections import deque
    while left > 0 and (limit is None or len(out) < limit):
        s, path = init, []
        while len(path) < maxlen and left > 0:
            if todo.get(s):
                a, t = todo[s].pop()
                left -= 1
                path.append(a)
                s = t
                continue
            q, seen, hit = deque([s]), {s: None}, None
            while q:
                x = q.popleft()
                if todo.get(x):
                    hit = x
                    break
                for a, t in G.get(x, ()):
                    if t not in seen:
                        seen[t] = (x, a)
                        q.append(t)
            if hit is None:
                break
            seg = []
            while hit != s:
                x, a = seen[hit]
                seg.append((a, hit))
                hit = x
            for a, t in reversed(seg):
                path.append(a)
                s = t
        out.append(path)
    return out


def replay_tour(w, path, r, tick=None, kinds=None, st=0.1, **conf):
    """an abstract behaviour of MCProxy on the real proxy"""
    w.reset(fake=1, **conf)
    ids = {}       # abstract connection -> current id
    us = {}
    dying = set()
    free = lambda c: ids.get(c)
    def uu(u):
        return us.setdefault(u, U(r))
    for a in path:
        a = json.loads(a)
        k, c = a["k"], a.get("c")
        cid = ids.get(c)
        s = r.random() < st and not any(not w.c[x].open for x in ids.values())
        if k == "open":
            kind = (kinds or {}).get(c, "fake")
            ids[c] = w.open(kind, asyn=a["c"] in conf.get("_async", ("c3", "c4")) and kind == "fake", peer=r.choice(PEERS) if kind == "fake" else None, st=s)
        elif cid is None:
            continue
        elif k == "close":
            w.close(cid, st=s)
            del ids[c]
        elif not w.c[cid].open and k != "tick":
            continue
        elif k == "regs":
            w.reg_server(cid, notation(r, uu(a["u"])), name=r.choice(NAMES), st=s)
        elif k == "regc":
            w.reg_client(cid, notation(r, uu(a["u"])), notation(r, uu(a["s"])), name=r.choice(NAMES), st=s)
        elif k in ("disc", "frame"):
            cc = w.c[cid]
            hold = ids.get("c%d" % a["a"])
            ad = None
            if hold and w.c[hold].role == "client":
                h = w.c[hold]
                if h.srv == cid:
                    ad = h.addr
                elif h.addr is not None and h.addr not in cc.clients:
                    ad = h.addr
            if ad is None:
                ad = r.choice([x for x in (1, 2, 3, 9, 77, 300, 65534, 65535) if x not in cc.clients])
                if k == "disc" and r.random() < 0.3:
                    ad = r.choice([0, 65536 + (list(cc.clients) or [1])[0], 1 << 20])
            if k == "disc":
                w.disconnect(cid, ad, st=s)
            else:
                w.send(cid, slip(ad, payload(r)), st=s)
        elif k == "data":
            w.send(cid, payload(r), st=s)
        elif k == "bad":
            d = bad_request(r)
            w.send(cid, slip(0, d) if w.c[cid].mode == "server" else d, st=s)
        elif k == "call":
            w.rpc(cid, "TunnelProxy.Ping", {"timestamp": r.randrange(1000)}, st=s)
        if k == "tick":
            w.advance(tick, st=s)
        # what the model removed and the proxy has let go
        for x, i in list(ids.items()):
            if not w.c[i].open and not w.c[i].asyn:
                del ids[x]
