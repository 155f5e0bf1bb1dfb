"""Drives the real client library against a scripted proxy and records traces for ClientLib.tla."""
import json, time
import rp
from rp import slip, js, pstr, SlipDecoder, JsonDecoder, canon_uuid


class A:
    """a connection of the library, seen from the scripted proxy"""

    def __init__(self, cid, o):
        self.id, self.o, self.mode = cid, o, "json"
        self.open = True
        self.out = b""
        self.dec = SlipDecoder()
        self.calls = {}      # id -> method
        self.pend = b""      # unfinished input: bytes of an item already sent


class CW:
    def __init__(self, rpx, scratch):
        self.x, self.sc = rpx, scratch
        self.ev = []

    def reset(self, label=""):
        self.x.cmd(op="reset")
        r = self.x.cmd(op="nop")
        self.t0 = r["t"]
        self.o = {}
        self.a = {}
        self.ended = set()
        self.k = {}          # live socket number -> (tps, address)
        self.port = {}
        self.now = 0
        self.ev.append({"k": "reset", "label": label})

    # ---- objects
    def new(self, o, kind, u, n, ws=False, tls=False, strict=False, lkind=None):
        # every object has a listener of its own
        self.o[o] = dict(kind=kind, u=u, n=n, ws=ws, tls=tls, lkind=lkind or ("ws" if ws else "tls" if tls else "tcp"), run=False, listening=False, state="StateDisconnected")
        self.port[o] = rp.free_port()
        if kind == "jrc":
            res = self.x.cmd(op="jrc_new", id=o)
            c = self.a[o] = A(o, o)
            c.mode = "jrc"
        else:
            res = self.x.cmd(op="tps_new" if kind == "tps" else "trc_new", id=o, uuid=u, name=n, ws=ws, strict=strict)
        self.done({"k": "new", "o": o, "kind": kind, "u": u, "n": n, "ok": not (strict and tls)}, res)

    def url(self, o):
        d = self.o[o]
        sch = ("wss" if d["tls"] else "ws") if d["ws"] else ("ssl" if d["tls"] else "tcp")
        return "%s://%s:%d" % (sch, rp.own_host(), self.port[o])

    def up(self, o):
        self.o[o]["listening"] = True
        res = self.x.cmd(op="listen", id="L" + o, kind=self.o[o]["lkind"], host=rp.own_host(), port=self.port[o], cert=rp.CERT + "/cert.pem", key=rp.CERT + "/key.pem")
        for _ in range(20):
            if res["r"]["ok"]:
                break
            time.sleep(0.1)
            res = self.x.cmd(op="listen", id="L" + o, kind=self.o[o]["lkind"], host=rp.own_host(), port=self.port[o], cert=rp.CERT + "/cert.pem", key=rp.CERT + "/key.pem")
        if not res["r"]["ok"]:
            raise RuntimeError("cannot listen")
        self.done({"k": "up", "o": o}, res)

    def down(self, o):
        self.o[o]["listening"] = False
        self.done({"k": "down", "o": o}, self.x.cmd(op="unlisten", id="L" + o))

    def start(self, o, srv=""):
        if self.o[o]["kind"] == "tps":
            res = self.x.cmd(op="tps_start", id=o, url=self.url(o))
        else:
            self.o[o]["srv"] = srv
            res = self.x.cmd(op="trc_connect", id=o, url=self.url(o), srv=srv)
        self.done({"k": "start", "o": o, "s": srv, "url": self.url(o)}, res)

    def bad_start(self, o, url):
        """a tunnel server is started with an URL that is none"""
        res = self.x.cmd(op="tps_start", id=o, url=url)
        self.done({"k": "badstart", "o": o, "ok": res["r"]["ok"]}, res)

    def stop(self, o):
        self.done({"k": "stop", "o": o}, self.x.cmd(op="tps_stop" if self.o[o]["kind"] == "tps" else "trc_disc", id=o))

    def hook(self, o, on, do, p=b""):
        self.o[o]["armed"] = on
        kind = self.o[o]["kind"]
        key = o + "/" + {"up": "run" if kind == "tps" else "remote", "down": "norun" if kind == "tps" else "noremote"}.get(on, on)
        op = {"stop": dict(op="tps_stop" if kind == "tps" else "trc_disc", id=o),
              "start": dict(op="tps_start", id=o, url=self.url(o)) if kind == "tps" else dict(op="trc_connect", id=o, url=self.url(o), srv=self.o[o].get("srv", "")),
              "write": dict(op="sk_write", id="@", hex=p.hex()), "disc": dict(op="sk_disc", id="@"), "send": dict(op="trc_send", id=o, hex=p.hex())}[do]
        res = self.x.cmd(op="hook", id=key, ops=[op])
        self.done({"k": "hook", "o": o, "on": on, "do": do, "p": pstr(p), "s": self.o[o].get("srv", "")}, res)

    def info(self):
        """what the objects say about themselves"""
        res = self.x.cmd(op="look")
        self.done({"k": "info", "objs": [dict(x, err=str(x["err"]), last=self.o[x["o"]]["state"]) for x in res["r"]["o"] if x["o"] in self.o],
                   "socks": [dict(x, s=int(x["s"][1:]), u=canon_uuid(x["u"])) for x in res["r"]["k"]]}, res)

    # ---- application
    def write(self, k, p):
        self.done({"k": "write", "s": k, "p": pstr(p)}, self.x.cmd(op="sk_write", id="k%d" % k, hex=p.hex()))

    def disc(self, k):
        self.done({"k": "disc", "s": k}, self.x.cmd(op="sk_disc", id="k%d" % k))

    def send(self, o, p):
        res = self.x.cmd(op="trc_send", id=o, hex=p.hex())
        self.done({"k": "send", "o": o, "p": pstr(p), "ok": res["r"]["ok"]}, res)

    def adv(self, ms):
        res = self.x.cmd(op="adv", ms=int(ms))
        self.done({"k": "adv"}, res)

    # ---- the proxy
    def put(self, c, parts, cuts=None, binary=False):
        """parts: [(bytes, item)]; an item takes effect when its bytes are complete; raw data as it comes"""
        a = self.a[c]
        ends, off = [], 0
        data = b""
        for b, it in parts:
            data += b
            ends.append((len(data), it, len(b)))
        ps = [0] + sorted(set(p for p in (cuts or []) if 0 < p < len(data))) + [len(data)]
        for x, y in zip(ps, ps[1:]):
            if not a.open:
                return
            items = []
            for end, it, ln in ends:
                if it["k"] == "raw":
                    s, e = max(x, end - ln), min(y, end)
                    if s < e:
                        items.append({"k": "raw", "p": pstr(data[s:e])})
                elif x < end <= y:
                    items.append(it)
                elif x < end and y > end - ln:
                    items.append({"k": "part"})
            for it in items:
                if it["k"] == "resp" and a.calls.get(it["id"], "").startswith("Register") and it["ok"] and it["r"] == "NoError":
                    a.mode = "slip" if self.o[a.o]["kind"] == "tps" else "raw"
                if it["k"] == "resp":
                    a.calls.pop(it["id"], None)
            if a.mode == "jrc" or a.id == a.o:
                res = self.x.cmd(op="jrc_data", id=a.o, chunks=[data[x:y].hex()])
                self.done({"k": "jdata", "o": a.o, "items": items}, res)
            else:
                res = self.x.cmd(op="send", id=c, chunks=[data[x:y].hex()], bin=binary)
                self.done({"k": "in", "c": c, "items": items}, res)

    def pclose(self, c, abort=False):
        self.a[c].open = False
        self.done({"k": "pclose", "c": c}, self.x.cmd(op="abort" if abort else "close", id=c))

    def jcall(self, o, m, arg):
        self.done({"k": "jcall", "o": o, "m": m}, self.x.cmd(op="jrc_call", id=o, m=m, arg=arg))

    # ---- messages of a proxy
    @staticmethod
    def resp(rid, ok=True, r="", extra=None, error=None):
        o = {"id": rid, "status": "success" if ok else "error"}
        if ok:
            o["params"] = dict(extra or {})
            if r:
                o["params"]["tunnelProxyError"] = "TunnelProxyError" + r
        else:
            o["error"] = error or "no"
        return js(o), {"k": "resp", "id": str(rid), "ok": ok, "r": r, "si": [str(o.get("params", {}).get(x, "")) for x in ("server", "name", "version", "apiVersion")], "p": json.dumps(o, sort_keys=True, ensure_ascii=False)}

    @staticmethod
    def conn(nid, a, u, n, p):
        return js({"id": nid, "notification": "TunnelProxy.ClientConnected", "params": {"clientName": n, "clientUuid": u, "clientPeerAddress": p, "socketAddress": a}}), \
            {"k": "conn", "a": a, "u": canon_uuid(u), "n": n, "p": p}

    @staticmethod
    def gone(nid, a):
        return js({"id": nid, "notification": "TunnelProxy.ClientDisconnected", "params": {"socketAddress": a}}), {"k": "gone", "a": a}

    def wrap(self, c, msg):
        """a JSON message as the connection carries it at the moment"""
        b, it = msg
        return (slip(0, b), it) if self.a[c].mode == "slip" else (b, it)

    @staticmethod
    def frame(addr, p):
        return slip(addr, p), {"k": "frame", "a": addr, "p": pstr(p)}

    @staticmethod
    def raw(p):
        return p, {"k": "raw", "p": pstr(p)}

    # ---- observation
    def done(self, e, res):
        per, acc, pings, ids, errs = {}, [], [], [], []
        def ob(c):
            return per.setdefault(c, {"c": c, "m": [], "x": False})
        def add(c, m):
            q = ob(c)["m"]
            if "b" in m and q and q[-1]["t"] == m["t"] and q[-1].get("a") == m.get("a"):
                q[-1]["b"] += m["b"]
            elif "b" not in m or m["b"]:
                q.append(m)
        def request(a, line, t):
            try:
                o = json.loads(line)
                i, m, p = str(int(o["id"])), o["method"], o.get("params", {})
            except Exception:
                return add(a.id, {"t": "weird", "p": "request %r" % line[:120]})
            short = m.split(".")[-1]
            ids.append({"c": a.id, "id": i, "m": short})
            a.calls[i] = short
            if a.id == a.o:
                good = short != "Ping" or set(p) == {"timestamp"}
                return add(a.id, {"t": "sent", "m": short if good else "malformed"})
            if m == "TunnelProxy.Ping" and set(p) == {"timestamp"}:
                pings.append({"c": a.id, "t": t})
                return
            if m == "RemoteProxy.Hello" and not p:
                return add(a.id, {"t": "req", "m": "Hello"})
            if m == "TunnelProxy.RegisterServer" and set(p) == {"serverName", "serverUuid"}:
                return add(a.id, {"t": "req", "m": "RegisterServer", "u": canon_uuid(p["serverUuid"]), "n": p["serverName"]})
            if m == "TunnelProxy.RegisterClient" and set(p) == {"clientName", "clientUuid", "serverUuid"}:
                return add(a.id, {"t": "req", "m": "RegisterClient", "u": canon_uuid(p["clientUuid"]), "n": p["clientName"], "s": canon_uuid(p["serverUuid"])})
            if m == "TunnelProxy.DisconnectClient" and set(p) == {"socketAddress"}:
                return add(a.id, {"t": "req", "m": "DisconnectClient", "a": p["socketAddress"]})
            add(a.id, {"t": "weird", "p": "request %r" % line[:120]})
        def decode(a, data, t):
            if a.mode == "raw":
                return add(a.id, {"t": "raw", "b": data})
            if a.mode == "json":
                a.out += data
                while b"\n" in a.out:
                    l, a.out = a.out.split(b"\n", 1)
                    request(a, l, t)
                return
            for f in a.dec.feed(data):
                if f is None:
                    add(a.id, {"t": "weird", "p": "malformed frame"})
                elif f[0] == 0:
                    for l in f[1].split(b"\n"):
                        if l:
                            request(a, l, t)
                else:
                    add(a.id, {"t": "frame", "a": f[0], "b": f[1]})
        for t, who, what, arg in res["ev"]:
            t = int(t - self.t0)
            if what == "acc":
                o = who[1:]
                self.a[arg] = A(arg, o)
                acc.append({"o": o, "c": arg, "t": t})
            elif who in self.a and who != self.a[who].o:
                a = self.a[who]
                if what == "rx":
                    decode(a, bytes.fromhex(arg), t)
                elif what == "bin":
                    add(who, {"t": "weird", "p": "binary"})
                elif what == "closed":
                    a.open = False
                    ob(who)["x"] = True
            elif who in self.o:
                d = self.o[who]
                if what in ("running", "remote"):
                    d["run"] = arg
                    add(who, {"t": what, "v": arg})
                elif what == "rx":
                    add(who, {"t": "data", "b": bytes.fromhex(arg)})
                elif what == "state":
                    d["state"] = arg
                elif what == "err":
                    errs.append({"o": who, "e": str(arg)})
                elif what == "newsock":
                    n = int(arg["s"][1:])
                    self.k[n] = (who, arg["a"])
                    add(who + "/s", {"t": "new", "s": n, "a": arg["a"], "u": canon_uuid(arg["uuid"]), "n": arg["name"], "p": arg["peer"]})
                    if not arg["up"]:
                        add(who + "/s", {"t": "weird", "p": "new socket is not connected"})
                elif what == "delsock":
                    add(arg["s"] + "/d", {"t": "del"})
                    if arg["up"]:
                        add(arg["s"] + "/d", {"t": "weird", "p": "socket is still connected"})
                elif what == "sent":
                    b = bytes.fromhex(arg)
                    a = self.a[who]
                    if b.endswith(b"\xc0"):
                        for f in SlipDecoder().feed(b):
                            if f and f[0] == 0:
                                request(a, f[1].strip(), t)
                            else:
                                add(who, {"t": "weird", "p": "frame"})
                    else:
                        request(a, b.strip(), t)
                elif what == "done":
                    add(who, {"t": "done", "n": arg["call"], "p": json.dumps(_ints(arg["resp"]), sort_keys=True, ensure_ascii=False)})
                elif what == "conn":
                    add(who, {"t": "conn", "a": arg["a"], "u": canon_uuid(arg["u"]), "n": arg["n"], "p": arg["p"]})
                elif what == "gone":
                    add(who, {"t": "gone", "a": arg})
            elif who[:1] == "k" and who[1:].isdigit():
                if what == "rx":
                    add(who, {"t": "data", "b": bytes.fromhex(arg)})
                elif what == "gone":
                    self.k.pop(int(who[1:]), None)
                    add(who, {"t": "gone"})
                    if arg or who not in self.ended:
                        add(who, {"t": "weird", "p": "socket is still connected"})
                elif what == "cc" and arg:
                    add(who, {"t": "weird", "p": "connected again"})
                elif what == "cc":
                    self.ended.add(who)
        for o in per.values():
            for m in o["m"]:
                if "b" in m:
                    m["p"] = pstr(m.pop("b"))
        e["obs"] = [o for o in per.values() if o["m"] or o["x"]]
        e["acc"], e["pings"], e["ids"], e["errs"] = acc, pings, ids, errs
        if e["k"] == "adv":
            e["to"] = self.now = int(res["t"] - self.t0)
        self.ev.append(e)
        return e

    # ---- views for generators
    def cons(self, o=None, mode=None):
        return [c for c, a in self.a.items() if a.open and c != a.o and (o is None or a.o == o) and (mode is None or a.mode == mode)]


def _ints(v):
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, dict):
        return {k: _ints(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_ints(x) for x in v]
    return v
