"""Runs the real proxy (harness/rpx) and turns what happens into traces for the TLA+ specification.

Everything that interprets bytes here is an independent implementation of the documented wire formats:
newline-separated JSON before registration, SLIP frames (END 0xC0, ESC 0xDB) on a tunnel server connection,
raw bytes on a tunnel client connection.
"""
import os, re, sys, json, random, subprocess, tempfile, shutil, socket, hashlib, threading, uuid as _uuid, select, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("RP_BUILD", os.path.join(VERIF, "build"))
CERT = os.path.join(VERIF, "harness", "cert")
END, ESC, ESC_END, ESC_ESC = 0xC0, 0xDB, 0xDC, 0xDD
BIG = 1500


class Crash(Exception):
    pass


class Rpx:
    """One driver process."""

    def __init__(self, rounds=4, us=250, env=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
        e["OPENSSL_CONF"] = "/dev/null"
        e.update(env or {})
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([BUILD + "/rpx"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e)
        self.last = []
        self.cmd(op="settle", rounds=rounds, us=us)

    def cmd(self, _limit=60, **k):
        line = (json.dumps(k) + "\n").encode()
        self.last.append(line[:300].decode())
        if len(self.last) > 30:
            self.last.pop(0)
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
        except BrokenPipeError:
            self._dead()
        r, _, _ = select.select([self.p.stdout], [], [], _limit)
        if not r:
            self.p.kill()
            self._dead("no answer within %d s (endless loop)" % _limit + "")
        out = self.p.stdout.readline()
        if not out:
            self._dead()
        return json.loads(out)

    def _dead(self, why=None):
        self.p.wait()
        self.err.seek(0)
        txt = self.err.read().decode(errors="replace")
        head = [l for l in txt.splitlines() if "ERROR: AddressSanitizer" in l or l.strip().startswith("#")][:12]
        raise Crash("%s\n%s\nlast commands:\n%s" % (why or "process ended with code %s" % self.p.returncode, "\n".join(head) or txt[-1500:], "".join(self.last[-6:])))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.err.close()


def own_host():
    """a loopback address nobody else uses: ports of concurrent workers (or of other programs) cannot get mixed up"""
    p = os.getpid()
    return "127.%d.%d.%d" % (16 + (p >> 16) % 128, p >> 8 & 255, p & 255)


_ports = []


def free_port():
    """a port nobody listens on, and none of those given out lately"""
    while True:
        s = socket.socket()
        s.bind((own_host(), 0))
        p = s.getsockname()[1]
        s.close()
        if p not in _ports:
            _ports.append(p)
            del _ports[:-400]
            return p


class Scratch:
    """A scratch directory with socket paths and ports of its own."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="rpv.")
        self.n = 0
        self.host = own_host()
        self.ws, self.tcp, self.x1, self.x2 = free_port(), free_port(), free_port(), free_port()

    def localhost(self):
        """the address that has a name"""
        self.host, p = "127.0.0.1", 10000 + os.getpid() * 37 % 20000
        for k in ("ws", "tcp"):
            while True:
                p = 10000 + (p + 1) % 20000
                s = socket.socket()
                try:
                    s.bind((self.host, p))
                    break
                except OSError:
                    pass
                finally:
                    s.close()
            setattr(self, k, p)

    def path(self, name):
        return os.path.join(self.dir, name)

    def conf(self, **k):
        self.n += 1
        d = dict(name="rpx", inactive=8000, ssl=False, cert=CERT + "/cert.pem", key=CERT + "/key.pem", chain="",
                 mon=self.path("mon"), unix=self.path("unix"), ws=self.ws, tcp=self.tcp, wshost=self.host, tcphost=self.host)
        d.update(k)
        p = self.path("c%d.conf" % self.n)
        with open(p, "w") as f:
            f.write("[ProxyServer]\nname=%(name)s\nwriteLogs=false\nlogFile=%(mon)s.log\nlogEngineEnabled=false\nmonitorSocket=%(mon)s\n"
                    "jsonRpcTimeout=10000\ninactiveTimeout=%(inactive)d\n\n[SSL]\nenabled=%(sslt)s\ncertificate=%(cert)s\ncertificateKey=%(key)s\ncertificateChain=%(chain)s\n\n"
                    "[UnixSocketServerTunnelProxy]\nunixSocketFileName=%(unix)s\n\n[WebSocketServerTunnelProxy]\nhost=%(wshost)s\nport=%(ws)d\n\n"
                    "[TcpServerTunnelProxy]\nhost=%(tcphost)s\nport=%(tcp)d\n" % dict(d, sslt="true" if d["ssl"] else "false"))
        return p

    def drop(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ codecs
def slip(addr, data):
    raw = bytes([addr >> 8 & 255, addr & 255]) + data
    out = bytearray()
    for b in raw:
        if b == END:
            out += bytes([ESC, ESC_END])
        elif b == ESC:
            out += bytes([ESC, ESC_ESC])
        else:
            out.append(b)
    out.append(END)
    return bytes(out)


class SlipDecoder:
    WELL, SEQ = re.compile(rb"(?:[^\xdb]|\xdb[\xdc\xdd])*+" if sys.version_info >= (3, 11) else rb"(?:[^\xdb]|\xdb[\xdc\xdd])*", re.S), re.compile(rb"\xdb[\xdc\xdd]", re.S)

    def __init__(self):
        self.buf = bytearray()

    def feed(self, data):
        """-> list of (addr, payload), or None for a frame that is to be dropped"""
        *fs, rest = bytes(self.buf + data).split(b"\xc0")
        self.buf = bytearray(rest)
        res = []
        for f in fs:
            if not f:
                continue
            if ESC in f:
                f = None if not self.WELL.fullmatch(f) else self.SEQ.sub(lambda m: b"\xc0" if m.group() == b"\xdb\xdc" else b"\xdb", f)
            res.append(None if f is None or len(f) < 2 else ((f[0] << 8) | f[1], f[2:]))
        return res


class JsonDecoder:
    """Cuts a stream of JSON objects at the end of each object."""

    def __init__(self):
        self.buf = b""
        self.pos = self.depth = 0
        self.instr = self.esc = False

    def feed(self, data):
        res = []
        self.buf += data
        while self.pos < len(self.buf):
            c = self.buf[self.pos]
            self.pos += 1
            if self.instr:
                if self.esc:
                    self.esc = False
                elif c == 0x5c:
                    self.esc = True
                elif c == 0x22:
                    self.instr = False
            elif c == 0x22:
                self.instr = True
            elif c in b"{[":
                self.depth += 1
            elif c in b"}]":
                self.depth -= 1
                if self.depth <= 0:
                    res.append(self.buf[:self.pos].strip())
                    self.buf = self.buf[self.pos:]
                    self.pos = self.depth = 0
            elif self.depth == 0 and c in b" \t\r\n":
                self.buf = self.buf[self.pos:]
                self.pos = 0
        return res


def canon_uuid(s):
    """canonical form of a UUID string, '' if it is none (or the null UUID)"""
    if not isinstance(s, str):
        return ""
    t = s[1:-1] if s.startswith("{") and s.endswith("}") else s
    if len(t) != 36 or [i for i, ch in enumerate(t) if ch == "-"] != [8, 13, 18, 23]:
        return ""
    try:
        u = _uuid.UUID(t)
    except ValueError:
        return ""
    return "" if u.int == 0 else "{%s}" % u


def pstr(b):
    return b.hex() if len(b) <= BIG else "#%d:%s" % (len(b), hashlib.sha1(b).hexdigest()[:20])


def js(o):
    return (json.dumps(o, ensure_ascii=False, separators=(",", ":")) + "\n").encode()


ENUM = "TunnelProxyError"
PARAMS = {"RegisterServer": {"serverName": str, "serverUuid": str},
          "RegisterClient": {"clientName": str, "clientUuid": str, "serverUuid": str},
          "DisconnectClient": {"socketAddress": "uint"}, "Ping": {"timestamp": "uint"}}


def scalar(v):
    """a JSON value, whatever way its number is written"""
    return json.dumps(int(v) if isinstance(v, float) and v == int(v) else v)


def classify(pkt, name):
    """one JSON request -> item of the specification"""
    try:
        o = json.loads(pkt)
    except Exception:
        return {"k": "bad", "id": "-1"}
    if not isinstance(o, dict) or isinstance(o.get("id"), bool) or not isinstance(o.get("id"), (int, float)):
        return {"k": "bad", "id": "-1"}
    i = str(int(o["id"]))
    m = o.get("method")
    if not isinstance(m, str) or m.count(".") != 1:
        return {"k": "bad", "id": i}
    ns, meth = m.split(".")
    p = o.get("params", {})
    if not isinstance(p, dict):
        p = {}
    if ns == "RemoteProxy" and meth in ("Hello", "Introspect"):
        if p:
            return {"k": "bad", "id": i}
        return {"k": "call", "id": i, "r": ("Hello:" + name) if meth == "Hello" else "Introspect"}
    if ns != "TunnelProxy" or meth not in PARAMS or set(p) != set(PARAMS[meth]):
        return {"k": "bad", "id": i}
    if any(isinstance(v, (list, dict)) for v in p.values()):
        return {"k": "bad", "id": i}
    if meth == "Ping":
        return {"k": "call", "id": i, "r": "Ping:" + scalar(p["timestamp"])}
    if meth == "DisconnectClient":
        a = p["socketAddress"]
        return {"k": meth, "id": i, "a": a if 0 <= a <= 65535 else -1}
    it = {"k": meth, "id": i, "u": canon_uuid(p.get("serverUuid" if meth == "RegisterServer" else "clientUuid")),
          "n": p.get("serverName" if meth == "RegisterServer" else "clientName"), "s": ""}
    if meth == "RegisterClient":
        it["s"] = canon_uuid(p.get("serverUuid"))
    return it


def read_message(line):
    """one JSON message of the proxy -> observed message of the specification"""
    try:
        o = json.loads(line)
    except Exception:
        return {"t": "weird", "p": "not JSON: %r" % line[:80]}
    W = {"t": "weird", "p": json.dumps(o, sort_keys=True)[:300]}
    if not isinstance(o, dict) or "id" not in o or isinstance(o["id"], bool) or not isinstance(o["id"], (int, float)):
        return W
    p = o.get("params", {})
    if "notification" in o:
        if not isinstance(p, dict):
            return W
        if o["notification"] == "TunnelProxy.ClientConnected" and set(p) == {"clientName", "clientUuid", "clientPeerAddress", "socketAddress"}:
            if isinstance(p["socketAddress"], (int, float)):
                return {"t": "conn", "a": int(p["socketAddress"]), "u": str(p["clientUuid"]), "n": str(p["clientName"]), "p": str(p["clientPeerAddress"])}
        if o["notification"] == "TunnelProxy.ClientDisconnected" and set(p) == {"socketAddress"} and isinstance(p["socketAddress"], (int, float)):
            return {"t": "gone", "a": int(p["socketAddress"])}
        return W
    i = str(int(o["id"]))
    if o.get("status") == "error" and isinstance(o.get("error"), str):
        return {"t": "err", "id": i}
    if o.get("status") != "success" or not isinstance(p, dict):
        return W
    ks = set(p)
    if ks == {"tunnelProxyError"} or ks == {"tunnelProxyError", "slipEnabled"}:
        e = p["tunnelProxyError"]
        if isinstance(e, str) and e.startswith(ENUM):
            r = e[len(ENUM):]
            if "slipEnabled" in p:
                if not isinstance(p["slipEnabled"], bool) or p["slipEnabled"] != (r == "NoError"):
                    return W
                r = r + ("+slip" if p["slipEnabled"] else "")
            return {"t": "resp", "id": i, "r": r}
    if ks == {"server", "name", "version", "apiVersion"}:
        if p["server"] == "nymea-remoteproxy" and p["version"] and p["apiVersion"]:
            return {"t": "resp", "id": i, "r": "Hello:" + str(p["name"])}
    if ks == {"timestamp"}:
        return {"t": "resp", "id": i, "r": "Ping:" + scalar(p["timestamp"])}
    if ks == {"methods", "types", "notifications"}:
        pairs = lambda d: [[k, d[k]] for k in sorted(d)]
        try:
            if all(x["description"] for k in ("methods", "notifications") for x in p[k].values()):
                return {"t": "api", "id": i, "m": [[k, pairs(x["params"]), pairs(x["returns"])] for k, x in sorted(p["methods"].items())],
                        "n": [[k, pairs(x["params"])] for k, x in sorted(p["notifications"].items())], "y": pairs(p["types"])}
        except (KeyError, TypeError, AttributeError):
            return W
    return W


class Ws:
    """a WebSocket peer of its own: fragmented messages, pings in between, frames cut anywhere"""
    UP = b"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.ok, self.buf, self.bad, self.part = False, b"", None, 0

    def frame(self, op, data, fin=True):
        m = bytes(self.r.getrandbits(8) for _ in range(4))
        n = len(data)
        h = bytes([op | (128 if fin else 0)]) + (bytes([128 | n]) if n < 126 else bytes([254]) + n.to_bytes(2, "big") if n < 65536 else bytes([255]) + n.to_bytes(8, "big"))
        k = int.from_bytes((m * (n // 4 + 1))[:n], "big") if n else 0
        return h + m + (int.from_bytes(data, "big") ^ k).to_bytes(n, "big")

    def wire(self, data, binary=False):
        """one message -> pieces to send one after the other"""
        r = self.r
        ps = [data]
        if r.random() < 0.6 and len(data) > 1:
            k = sorted({r.randrange(1, len(data)) for _ in range(r.choice((1, 1, 2, 4)))})
            ps = [data[a:b] for a, b in zip([0] + k, k + [len(data)])]
            if r.random() < 0.2:
                ps.insert(r.choice((0, len(ps))), b"")      # (Qt loses a character that is split around an empty frame)
        out = b""
        for i, p in enumerate(ps):
            if r.random() < 0.15:
                out += self.frame(9, b"ping")
            out += self.frame((2 if binary else 1) if i == 0 else 0, p, i == len(ps) - 1)
        if r.random() < 0.4 and len(out) < 5000:
            k = sorted({r.randrange(1, len(out)) for _ in range(r.choice((1, 2)))}) if len(out) > 1 else []
            return [out[a:b] for a, b in zip([0] + k, k + [len(out)])]
        return [out]

    def feed(self, data):
        """bytes received -> payload of the text messages"""
        self.buf += data
        out = b""
        if not self.ok:
            k = self.buf.find(b"\r\n\r\n")
            if k < 0:
                return b""
            self.ok = self.buf.startswith(b"HTTP/1.1 101") and b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=" in self.buf[:k]
            self.buf = self.buf[k + 4:]
        while len(self.buf) >= 2:
            n, h = self.buf[1] & 127, 2
            if n > 125:
                h += 2 if n == 126 else 8
                if len(self.buf) < h:
                    break
                n = int.from_bytes(self.buf[2:h], "big")
            if len(self.buf) < h + n:
                break
            op, p, fin = self.buf[0] & 15, self.buf[h:h + n], self.buf[0] & 128
            self.buf = self.buf[h + n:]
            if op == 1 and not self.part or op == 0 and self.part:
                out += p
                self.part = not fin
            elif op in (0, 1, 2):
                self.bad = "frame of type %d" % op
        return out


class Conn:
    def __init__(self, cid, kind, tr, peer):
        self.id, self.kind, self.tr, self.peer = cid, kind, tr, peer
        self.mode = "json"        # what the proxy sends: json / client / server
        self.open = True
        self.out = b""            # undecoded output
        self.sdec = SlipDecoder()
        self.jin = JsonDecoder()
        self.sin = SlipDecoder()
        self.free = False
        self.hs = False
        self.said = False       # something was sent on it
        self.asyn = False
        self.role = None
        self.uuid = None
        self.srv = None
        self.addr = None
        self.clients = {}
        self.ws = None


class World:
    """Drives one real proxy and records the trace."""

    def __init__(self, rpx, scratch):
        self.x, self.sc = rpx, scratch
        self.ev = []
        self.c = {}
        self.nid = 0
        self.name = "rpx"
        self.tls = False
        self.mut, self.seen = set(), set()      # peers that do not read for the moment; those of them found disconnected
        self.mk = None            # what a following deviation is put down to
        self.info = []

    # ---- scenario control
    def reset(self, fake=1, label="", **conf):
        self.x.cmd(op="reset")
        self.c = {}
        self.nid = 0
        self.name = conf.get("name", "rpx")
        self.tls = conf.get("ssl", False)
        r = self.x.cmd(op="start", conf=self.sc.conf(**conf), fake=fake)
        self.mons = {}
        self.block = []
        self.ev.append({"k": "reset", "inact": conf.get("inactive", 8000), "name": self.name, "up": ["TCP", "WebSocket", "unix", "monitor"], "label": label})
        self.t0 = r["t"]
        self.now = 0
        if not r.get("r", {}).get("ok"):
            self.ev.append({"k": "nop", "obs": [{"c": "engine", "m": [{"t": "weird", "p": "proxy did not start"}], "x": False, "nb": 0}]})

    # ---- observation
    def _decode(self, c, data, msgs):
        """bytes the proxy sent to c -> messages"""
        def add(m):
            if m["t"] in ("data", "frame") and msgs and msgs[-1]["t"] == m["t"] and msgs[-1].get("a") == m.get("a"):
                msgs[-1]["b"] += m["b"]
            else:
                msgs.append(m)
        c.out += data
        while c.hs and c.out and 0x14 <= c.out[0] <= 0x17:      # TLS records
            n = 5 + (c.out[3] << 8 | c.out[4]) if len(c.out) >= 5 else 0
            if not n or len(c.out) < n:
                return
            c.out = c.out[n:]
        while c.out:
            if c.mode == "json":
                k = c.out.find(b"\n")
                if k < 0:
                    break
                line, c.out = c.out[:k], c.out[k + 1:]
                m = read_message(line)
                add(m)
                if m["t"] == "resp" and m["r"] == "NoError+slip":
                    c.mode = "server"
                elif m["t"] == "resp" and m["r"] == "NoError" and c.mode == "json" and getattr(c, "regclient", False):
                    c.mode = "client"
            elif c.mode == "client":
                add({"t": "data", "b": c.out})
                c.out = b""
            else:
                d, c.out = c.out, b""
                for f in c.sdec.feed(d):
                    if f is None:
                        add({"t": "weird", "p": "malformed frame"})
                    elif f[0] == 0:
                        ls = f[1].split(b"\n")
                        for l in ls:
                            if l:
                                m = read_message(l)
                                add(m)
                                if m["t"] == "conn":
                                    c.clients[m["a"]] = m["u"]
                                elif m["t"] == "gone":
                                    c.clients.pop(m["a"], None)
                    else:
                        add({"t": "frame", "a": f[0], "b": f[1]})

    def _obs(self, res):
        per, order, closes = {}, [], []
        raw = {}
        for t, who, what, arg in res["ev"]:
            c = self.c.get(who)
            if c is None:
                continue
            if who not in per:
                per[who] = {"c": who, "m": [], "x": False, "nb": 0}
            o = per[who]
            if what == "rx":
                b = bytes.fromhex(arg)
                if c.ws:
                    b = c.ws.feed(b)
                    if c.ws.bad:
                        o["m"].append({"t": "weird", "p": c.ws.bad})
                        c.ws.bad = None
                o["nb"] += len(b)
                raw.setdefault(who, bytearray()).extend(b)
            elif what == "bin":
                o["m"].append({"t": "weird", "p": "binary message"})
            elif what == "closed":
                o["x"] = True
                c.open = False
                closes.append({"c": who, "t": int(t - self.t0)})
            elif what == "snap":
                c.snaps.append(self._snap(arg))
            elif what == "up":
                c.up = True
                if arg is not None:
                    c.hs = False        # TLS is up
        for who, b in raw.items():
            if self.c[who].mode == "monitor":
                c = self.c[who]
                c.out += bytes(b)
                *ls, c.out = c.out.split(b"\n")
                for l in ls:
                    try:
                        c.snaps.append(self._snap(json.loads(l)))
                    except Exception:
                        per[who]["m"].append({"t": "weird", "p": "monitor data"})
                per[who]["nb"] = 0
                continue
            self._decode(self.c[who], bytes(b), per[who]["m"])
        for who, o in per.items():
            for m in o["m"]:
                if "b" in m:
                    m["p"] = pstr(m.pop("b"))
            c = self.c[who]
            if c.out and c.mode != "client" and o["x"]:
                o["m"].append({"t": "weird", "p": "incomplete output"})
                c.out = b""
        return [o for o in per.values() if o["m"] or o["x"] or o["nb"]], closes

    def _stats(self, st):
        t = st["tunnelProxyStatistic"]
        def e(m, key):
            return {"u": canon_uuid(m[key]) or str(m[key]), "n": m["name"], "p": m["address"], "rx": int(m["rxDataCount"]), "tx": int(m["txDataCount"])}
        return {"nm": st["serverName"] if st.get("serverVersion") and st.get("apiVersion") else "?", "tot": int(t["totalClientCount"]), "nsrv": int(t["serverConnectionsCount"]), "ncli": int(t["clientConnectionsCount"]),
                "trs": [{"t": k, "n": int(v)} for k, v in t["transports"].items()],
                "tun": [{"s": e(s, "serverUuid"), "c": [e(k, "clientUuid") for k in s["clientConnections"]]} for s in t["tunnelConnections"]]}

    def _snap(self, o):
        try:
            return self._stats(o)
        except Exception:
            return {"nm": "incomplete snapshot", "tot": -1, "nsrv": -1, "ncli": -1, "trs": [], "tun": []}

    def _done(self, e, res, st=False):
        e["obs"], closes = self._obs(res)
        self.closes = closes
        if self.mut:
            self.seen |= {o["c"] for o in e["obs"] if o["x"]}
            e["obs"] = [o for o in e["obs"] if o["c"] not in self.mut]
            e["mute"] = sorted(self.mut | set(e.get("mute", [])))
            e["deaf"] = e["mute"]
        if self.mk:
            e["mk"] = self.mk
        if e["k"] == "adv":
            e["x"] = closes
            e["to"] = int(res["t"] - self.t0)
            self.now = e["to"]
        if st and res.get("st"):
            e["st"] = self._stats(res["st"])
        self.ev.append(e)
        return e

    # ---- stimuli
    def new_id(self, p="c"):
        self.nid += 1
        return "%s%d" % (p, self.nid)

    def open(self, kind="fake", cid=None, peer=None, tr=0, asyn=False, free=False, plain=False, st=False, bind=None):
        cid = cid or self.new_id()
        if kind == "fake":
            c = Conn(cid, kind, "Fake%d" % tr, peer or "127.0.0.1")
            self.c[cid] = c
            res = self.x.cmd(op="fconn", id=cid, tr=tr, addr=c.peer, **{"async": asyn}, st=st)
        else:
            trn = {"tcp": "TCP", "tls": "TCP", "ws": "WebSocket", "wss": "WebSocket", "unix": "unix", "rawws": "WebSocket"}[kind]
            c = Conn(cid, kind, trn, bind or "127.0.0.1")
            self.c[cid] = c
            a = dict(op="opentcpssl" if (plain and kind == "tcp") else "open", id=cid, kind="tcp" if kind == "rawws" else kind, st=st)
            if kind == "unix":
                a["path"] = self.sc.path("unix")
            else:
                a["host"] = self.sc.host
                a["port"] = self.sc.ws if trn == "WebSocket" else self.sc.tcp
            if bind:
                a["bind"] = bind
            if kind in ("tls", "wss") and self.nid % 3 == 0:
                a["old"] = True         # TLS 1.2
            c.up = False
            if kind == "wss" and self.nid % 4 == 1 or kind == "ws" and not self.tls and self.nid % 2 == 1:
                a["kind"] = "tls" if kind == "wss" else "tcp"
                c.ws = Ws(self.nid * 7919 + len(self.ev))
                res = self.x.cmd(**dict(a, st=False))
                ev = res["ev"]
                res = self.x.cmd(op="send", id=cid, chunks=[p.hex() for p in ((Ws.UP,) if self.nid % 3 else (Ws.UP[:77], Ws.UP[77:]))], st=st)
                res["ev"] = ev + res["ev"]
            else:
                res = self.x.cmd(**a)
        c.asyn = asyn
        c.free = free
        e = {"k": "open", "c": cid, "tr": c.tr, "peer": c.peer, "async": asyn}
        if kind in ("tcp", "ws") and self.tls or kind == "rawws":
            e["k"] = "openhs"
            c.hs = True
        if free:
            e["free"] = True
        self._done(e, res, st)
        if kind != "fake" and e["k"] == "open" and not (c.ws.ok if c.ws else c.up):
            e["obs"].append({"c": cid, "m": [{"t": "weird", "p": "connection not established"}], "x": False, "nb": 0})
        return cid

    def encrypt(self, cid):
        """start TLS on a connection opened plain"""
        res = self.x.cmd(op="starttls", id=cid)
        c = self.c[cid]
        e = self._done({"k": "enc", "c": cid}, res)
        if c.hs:
            e["obs"].append({"c": cid, "m": [{"t": "weird", "p": "TLS not established"}], "x": False, "nb": 0})

    def items_of(self, c, chunk):
        """what a chunk of input completes, according to the wire format"""
        if c.free or c.hs:
            return []
        if c.mode == "client":
            return [{"k": "data", "b": chunk}]
        items = []
        if c.mode == "server":
            for f in c.sin.feed(chunk):
                if f is None:
                    items.append({"k": "drop"})
                elif f[0] == 0:
                    it = classify(f[1].decode(errors="replace"), self.name)
                    items.append(it)
                elif items and items[-1]["k"] == "frame" and items[-1]["a"] == f[0]:
                    items[-1]["b"] += f[1]
                else:
                    items.append({"k": "frame", "a": f[0], "b": f[1]})
            return items
        for pkt in c.jin.feed(chunk):
            it = classify(pkt.decode(errors="replace"), self.name)
            c.regclient = it["k"] == "RegisterClient"
            items.append(it)
        if len(c.jin.buf) > 10240:
            items.append({"k": "flood"})
        return items

    def _fin(self, items):
        for it in items:
            if "b" in it:
                it["p"] = pstr(it.pop("b"))
        return items

    def send(self, cid, data, cuts=None, items=None, st=False, binary=False, part=False):
        """cuts: offsets at which the data is split into separately received chunks"""
        c = self.c[cid]
        c.said = True
        chunks = [data]
        if cuts:
            ps = [0] + sorted(set(p for p in cuts if 0 < p < len(data))) + [len(data)]
            chunks = [data[a:b] for a, b in zip(ps, ps[1:])]
        for k, ch in enumerate(chunks):
            if not c.open:
                return
            its = self._fin(items if (items is not None and k == len(chunks) - 1) else [] if items is not None else self.items_of(c, ch))
            s = st and k == len(chunks) - 1
            if c.kind == "fake":
                res = self.x.cmd(op="fsend", id=cid, chunks=[ch.hex()], st=s)
            else:
                res = self.x.cmd(op="send", id=cid, chunks=self._wire(c, ch, binary), bin=binary, st=s)
            e = {"k": "in", "c": cid, "items": its, "n": len(ch)}
            if [i["k"] for i in its] == ["call", "flood"]:
                e["alt"] = its[1:]          # the request in front of it may be answered or not
            if len(chunks) > 1 or part:
                e["cut"] = 1
            self._done(e, res, s)
            if any(i["k"] == "RegisterServer" for i in its) and c.mode == "server":
                c.role, c.uuid = "server", next(i["u"] for i in its if i["k"] == "RegisterServer")
            if any(i["k"] == "RegisterClient" for i in its) and c.mode == "client":
                c.role, c.uuid = "client", next(i["u"] for i in its if i["k"] == "RegisterClient")
                for o in e["obs"]:
                    for m in o["m"]:
                        if m["t"] == "conn" and m["u"] == c.uuid:
                            c.srv, c.addr = o["c"], m["a"]

    def _wire(self, c, data, binary, whole=False):
        if not c.ws:
            return [data.hex()]
        if c.free and c.ws.r.random() < 0.5:
            return [data.hex()]
        ps = c.ws.wire(data, binary)
        return [b"".join(ps).hex()] if whole else [p.hex() for p in ps]

    def rpc(self, cid, method, params=None, rid=None, nl=True, **k):
        c = self.c[cid]
        o = {"id": rid if rid is not None else len(self.ev), "method": method}
        if params is not None:
            o["params"] = params
        d = js(o)
        if not nl:
            d = d[:-1]
        self.send(cid, slip(0, d) if c.mode == "server" else d, **k)

    def reg_server(self, cid, uuid, name="srv", **k):
        self.rpc(cid, "TunnelProxy.RegisterServer", {"serverName": name, "serverUuid": uuid}, **k)

    def reg_client(self, cid, uuid, srv, name="cli", **k):
        self.rpc(cid, "TunnelProxy.RegisterClient", {"clientName": name, "clientUuid": uuid, "serverUuid": srv}, **k)

    def disconnect(self, cid, addr, **k):
        self.rpc(cid, "TunnelProxy.DisconnectClient", {"socketAddress": addr}, **k)

    def close(self, cid, st=False, abort=False):
        """the peer closes (or, for a killed asynchronous peer, the transport finally lets go)"""
        c = self.c[cid]
        c.open = False
        if c.kind == "fake":
            res = self.x.cmd(op="fclose", id=cid, st=st)
        else:
            res = self.x.cmd(op="abort" if abort else "close", id=cid, st=st)
        self._done({"k": "close", "c": cid}, res, st)

    def par(self, ops, st=False):
        """ops: list of ('in', cid, data) / ('close', cid) / ('open', peer) executed without the proxy running in between"""
        h, t = [], []
        for o in ops:
            c = self.c[o[1]]
            if o[0] == "in":
                its = self._fin(self.items_of(c, o[2]))
                t.append({"k": "in", "c": o[1], "items": its, "n": len(o[2])})
                h.append({"op": "fsend" if c.kind == "fake" else "send", "id": o[1], "chunks": self._wire(c, o[2], False, True)})
            else:
                c.open = False
                t.append({"k": "close", "c": o[1]})
                h.append({"op": "fclose" if c.kind == "fake" else "close", "id": o[1]})
        res = self.x.cmd(op="par", ops=h, st=st)
        e = self._done({"k": "par", "ops": t, "mute": [o[1] for o in ops if o[0] == "close" and self.c[o[1]].kind != "fake"]}, res, st)
        for o, r in zip(ops, t):
            if r["k"] == "in":
                c = self.c[o[1]]
                for it in r["items"]:
                    if it["k"] == "RegisterServer" and c.mode == "server":
                        c.role, c.uuid = "server", it["u"]
                    if it["k"] == "RegisterClient" and c.mode == "client":
                        c.role, c.uuid = "client", it["u"]
                        for ob in e["obs"]:
                            for m in ob["m"]:
                                if m["t"] == "conn" and m["u"] == c.uuid:
                                    c.srv, c.addr = ob["c"], m["a"]

    def parting(self, cid, data, st=False):
        """a peer that sends something and closes at once: what it sent counts"""
        c = self.c[cid]
        its = self._fin(self.items_of(c, data))
        fake = c.kind == "fake"
        c.open = False
        res = self.x.cmd(op="par", ops=[{"op": "fsend" if fake else "send", "id": cid, "chunks": self._wire(c, data, False, True)}, {"op": "fclose" if fake else "close", "id": cid}], st=st)
        self._done({"k": "seq", "ops": [{"k": "in", "c": cid, "items": its, "n": len(data)}, {"k": "close", "c": cid}], "mute": [] if fake else [cid]}, res, st)

    def stalled(self, who, ops):
        """peers who do not read while the others do something: ops as for par, one after the other; data may be (unit, count)"""
        for k in who:
            self.x.cmd(op="hold", id=k)
        t, ev = [], []
        for o in ops:
            c = self.c[o[1]]
            if o[0] == "close":
                c.open = False
                t.append({"k": "close", "c": o[1]})
                ev += self.x.cmd(op="fclose" if c.kind == "fake" else "close", id=o[1])["ev"]
                continue
            d, n = o[2] if isinstance(o[2], tuple) else (o[2], 1)
            t.append({"k": "in", "c": o[1], "items": self._fin(self.items_of(c, d * n)), "n": len(d) * n})
            if c.ws and n > 1 or c.kind == "fake":
                d, n = d * n, 1
            res = self.x.cmd(op="fsend" if c.kind == "fake" else "send", id=o[1], chunks=self._wire(c, d, False, True), rep=n)
            ev += res["ev"]
        for k in who:
            res = self.x.cmd(op="release", id=k)
            ev += res["ev"]
        res["ev"] = ev
        self._done({"k": "seq", "ops": t, "mute": [o[1] for o in ops if o[0] == "close" and self.c[o[1]].kind != "fake"]}, res, False)

    def deaf(self, who, ops, then):
        """peers who do not read while the others send to them, and go on not reading while
        then() happens and the proxy has had time to let them go: nobody asks what they still get, but all traces of them have to be gone"""
        for k in who:
            self.x.cmd(op="hold", id=k)
        self.mut, self.seen = set(who), set()
        self._done({"k": "deafen"}, self.x.cmd(op="nop"))
        t, ev = [], []
        for k in who:
            if self.c[k].mode == "monitor":
                for _ in range(40):
                    self.x.cmd(op="send", id=k, chunks=[(js({"method": "refresh", "params": {"printAll": True}}) * 100).hex()])
        for o in ops:
            c = self.c[o[1]]
            d, n = o[2] if isinstance(o[2], tuple) else (o[2], 1)
            t.append({"k": "in", "c": o[1], "items": self._fin(self.items_of(c, d * n)), "n": len(d) * n})
            if c.ws and n > 1 or c.kind == "fake":
                d, n = d * n, 1
            res = self.x.cmd(op="fsend" if c.kind == "fake" else "send", id=o[1], chunks=self._wire(c, d, False, True), rep=n)
            ev += res["ev"]
        res["ev"] = ev
        self._done({"k": "par", "ops": t}, res, False)
        now = [k for k in who if self.c[k].mode != "monitor"]
        stuck = self.x.cmd(op="pending").get("r") or 0
        ev = []
        if stuck < 1000 and then != self.stop:
            now = []                    # all of it has found room in the system: nothing is pending
        else:
            then()
        if not now and then != self.stop:
            self._done({"k": "hears"}, self.x.cmd(op="nop"))
        elif self.ev[-1]["k"] != "stop":
            # by now the transport has let go of them
            res = self.x.cmd(op="adv", ms=13000)
            self.now = int(res["t"] - self.t0)
            e = self._done({"k": "seq", "ops": [{"k": "adv", "to": self.now}] + [{"k": "close", "c": k} for k in now]}, res)
            e["ops"][0]["x"] = self.closes
            self.stats()
        for k in who:
            ev += self.x.cmd(op="release", id=k)["ev"]
        ev += self.x.cmd(op="nop")["ev"]
        res = {"ev": ev}
        e = self._done({"k": "nop"}, res)
        for k in now:
            if k not in self.seen:
                e["obs"].append({"c": k, "m": [{"t": "weird", "p": "still connected"}], "x": False, "nb": 0})
        self.mut = set()
        return bool(now)

    def advance(self, ms, st=False):
        res = self.x.cmd(op="adv", ms=int(ms), st=st)
        self._done({"k": "adv"}, res, st)

    def churn(self, srv, n, hold=0, prefix=None):
        prefix = prefix or "h%d_" % len(self.ev)
        s = self.c[srv]
        res = self.x.cmd(_limit=400, op="churn", srv=srv, uuid=s.uuid, n=n, hold=hold, prefix=prefix)
        r = res["r"]
        e = {"k": "churn", "srv": srv, "bad": r.get("bad", 1), "why": r.get("why", ""), "runs": r.get("runs", []), "mind": r.get("mind", 0), "n": r.get("n", 0),
             "held": [{"c": h[0], "u": h[1], "a": h[2], "n": "n", "p": "10.9.8.7"} for h in r.get("held", [])], "obs": []}
        for h in e["held"]:
            c = Conn(h["c"], "fake", "Fake0", "10.9.8.7")
            c.mode = c.role = "client"
            c.uuid, c.srv, c.addr, c.asyn = h["u"], srv, h["a"], False
            self.c[h["c"]] = c
            s.clients[h["a"]] = h["u"]
        self.ev.append(e)

    def stop(self):
        res = self.x.cmd(op="stop")
        self._done({"k": "stop"}, res)
        for b in self.block:
            b.close()
        self.block = []

    def start(self, fake=1, blocked=(), stale=(), **conf):
        """blocked: endpoints that cannot be listened on; stale: socket files left behind"""
        self.name = conf.get("name", "rpx")
        self.tls = conf.get("ssl", False)
        for what in ("unix", "monitor"):
            key = "mon" if what == "monitor" else "unix"
            p = self.sc.path(key)
            if what in blocked:
                conf[key] = self.sc.path("missing/" + key)
            elif what in stale:
                if os.path.exists(p):
                    os.unlink(p)
                if len(stale) % 2:
                    open(p, "w").write("left behind")
                else:
                    z = socket.socket(socket.AF_UNIX)
                    z.bind(p)
                    z.close()
        for what, port in (("TCP", self.sc.tcp), ("WebSocket", self.sc.ws)):
            if what in blocked:
                b = socket.socket()
                b.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                b.bind((self.sc.host, port))
                b.listen(1)
                self.block.append(b)
        res = self.x.cmd(op="start", conf=self.sc.conf(**conf), fake=fake)
        e = self._done({"k": "start", "inact": conf.get("inactive", 8000), "name": self.name, "up": [u for u in ("TCP", "WebSocket", "unix", "monitor") if u not in blocked]}, res)
        if not res.get("r", {}).get("ok"):
            e["obs"].append({"c": "engine", "m": [{"t": "weird", "p": "configuration rejected"}], "x": False, "nb": 0})

    def kept(self):
        """what the proxy still holds, compared with what it held when it had just been started"""
        res = self.x.cmd(op="kept")
        k = res["r"]
        by = {n: c - self.base["by"].get(n, 0) for n, c in k["by"].items() if c > self.base["by"].get(n, 0)}
        self._done({"k": "kept", "objects": k["objects"] - self.base["objects"], "socks": k["socks"] - self.base["socks"], "left": ["%d %s" % (by[n], n) for n in sorted(by)]}, res)

    def probe(self, what):
        """does the endpoint accept a connection?  (only while the proxy is stopped: it must not)"""
        s = socket.socket(socket.AF_UNIX if what in ("unix", "monitor") else socket.AF_INET)
        s.settimeout(5)
        try:
            s.connect(self.sc.path("mon" if what == "monitor" else "unix") if what in ("unix", "monitor") else (self.sc.host, self.sc.tcp if what == "TCP" else self.sc.ws))
            ok = True
        except OSError:
            ok = False
        s.close()
        res = self.x.cmd(op="nop")
        self._done({"k": "probe", "what": what, "ok": ok}, res)

    # ---- monitors
    def mon_open(self, raw=False, asyn=0):
        """a monitor: the MonitorClient of the monitor tool, or raw requests on its socket"""
        m = self.new_id("m")
        c = Conn(m, "mon", "monitor", "")
        c.raw, c.snaps, c.up = raw, [], False
        self.mons[m] = self.c[m] = c
        c.mode = "monitor"
        if raw:
            res = self.x.cmd(op="open", id=m, kind="unix", path=self.sc.path("mon"))
        else:
            res = self.x.cmd(op="mon_new", id=m, path=self.sc.path("mon"))
        e = self._done({"k": "monopen", "c": m}, res)
        if not c.up:
            e["obs"].append({"c": m, "m": [{"t": "weird", "p": "monitor not connected"}], "x": False, "nb": 0})
        return m

    def mon_req(self, m, want, bad=b"", nl=True, text=None):
        """requests (want: printAll flags) sent in one piece, then possibly something malformed"""
        c = self.mons[m]
        c.snaps = []
        if c.raw:
            d = b"".join(text or (js({"method": "refresh", "params": {"printAll": a}}) if a or i % 2 else js({"method": "refresh"})) for i, a in enumerate(want)) + bad
            if not nl and len(want) == 1 and not bad:
                d = d.rstrip(b"\n")
            res = self.x.cmd(op="send", id=m, chunks=[d.hex()])
        else:
            res = self.x.cmd(op="par", ops=[{"op": "mon_refresh", "id": m, "all": a} for a in want])
        e = {"k": "monreq", "c": m, "want": list(want), "bad": bool(bad)}
        self._done(e, res)
        e["snaps"] = c.snaps
        return e

    def mon_tool(self, all_, as_json):
        """the monitor program, run once; everything stands still meanwhile"""
        st = None
        self.stats()
        for t in self.ev[-1].get("st", {}).get("tun", []):
            st = st or {}
            for e in [t["s"]] + t["c"]:
                st[e["u"]] = e
        st = st or {}
        as_json = as_json or any(not e["n"].isprintable() or not e["n"].strip() == e["n"] for e in st.values())
        m = self.new_id("m")
        env = dict(os.environ, LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0")
        p = subprocess.Popen([BUILD + "/rpm", "-j" if as_json else "-n", "-s", self.sc.path("mon")] + (["-a"] if all_ else []), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=self.sc.dir)
        seen = []
        t = time.time()
        th = threading.Thread(target=lambda: seen.append(p.stdout.read()))
        th.start()
        evs = []
        while th.is_alive():
            res = self.x.cmd(op="nop")
            evs += res["ev"]
            th.join(0.005)
            if time.time() - t > 20:
                p.kill()
        p.wait()
        res = self.x.cmd(op="nop")
        res["ev"] = evs + res["ev"]
        e = {"k": "monreq", "c": m, "want": [all_], "bad": False, "tool": "json" if as_json else "text"}
        self._done(e, res)
        out = (seen or [b""])[0]
        try:
            e["snaps"] = [self._snap(json.loads(out))] if as_json else [self._listing(out.decode(), st)]
        except Exception:
            e["snaps"] = []

    def _listing(self, text, st):
        """what the program prints -> a snapshot; counters are shown rounded, names padded: compared with what they are"""
        def human(n):
            u, d = "B", float(n)
            for k in ("KB", "MB", "GB", "TB"):
                if d < 1024:
                    break
                u, d = k, d / 1024
            return "%.2f %s" % (d, u)
        s = {"nm": "", "tot": -1, "nsrv": -1, "ncli": -1, "trs": [], "tun": []}
        ver = api = ""
        for l in text.split("\n"):
            k, _, v = l.partition(":")
            if k == "Server name":
                s["nm"] = v
            elif k == "Server version":
                ver = v
            elif k == "API version":
                api = v
            elif k in ("Total client count", "Server connections", "Client connections"):
                s[{"T": "tot", "S": "nsrv", "C": "ncli"}[k[0]]] = int(v)
            elif k.startswith("Connections on "):
                s["trs"].append({"t": k[15:], "n": int(v)})
            elif l[:1] in "\u251c\u2502" and l:
                f = re.match("^([\u251c\u2502\u2514\u252c\u2500]+)[0-9.]{10} [0-9:]{8} \\| ([^|]*) \\| (.*?) RX: (.*?) TX: (.*?) \\| (.*)$", l)
                u = canon_uuid(f.group(2))
                x = st.get(u, {"n": "", "rx": -8, "tx": -8})
                e = {"u": u, "n": x["n"] if f.group(6).rstrip() == x["n"] else f.group(6), "p": f.group(3).rstrip(),
                     "rx": x["rx"] if human(x["rx"]) == f.group(4).rstrip() else -7, "tx": x["tx"] if human(x["tx"]) == f.group(5).rstrip() else -7}
                if l[0] == "\u251c":
                    s["tun"].append({"s": e, "c": []})
                else:
                    s["tun"][-1]["c"].append(e)
        if ver in ("", "-") or api in ("", "-"):
            s["nm"] = "?"
        return s

    def mon_close(self, m):
        c = self.mons[m]
        c.open = False
        res = self.x.cmd(op="close" if c.raw else "mon_close", id=m)
        e = self._done({"k": "monclose", "c": m}, res)
        e["obs"] = [o for o in e["obs"] if o["c"] != m]

    def stats(self):
        res = self.x.cmd(op="nop", st=True)
        self._done({"k": "nop"}, res, True)

    # ---- helpers for generators
    def live(self, mode=None):
        return [k for k, c in self.c.items() if c.open and c.mode != "monitor" and (mode is None or c.mode == mode)]
