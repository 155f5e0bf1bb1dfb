"""Configuration files for the real proxy: writes them, lets it load them, starts it with them and looks what it offers."""
import os, ssl, json, hashlib, socket, subprocess, time
import rp, tlc

SEC = {"name": ("ProxyServer", "name"), "writeLogs": ("ProxyServer", "writeLogs"), "logFile": ("ProxyServer", "logFile"), "logEngineEnabled": ("ProxyServer", "logEngineEnabled"),
       "monitorSocket": ("ProxyServer", "monitorSocket"), "jsonRpcTimeout": ("ProxyServer", "jsonRpcTimeout"), "inactiveTimeout": ("ProxyServer", "inactiveTimeout"),
       "sslEnabled": ("SSL", "enabled"), "certificate": ("SSL", "certificate"), "certificateKey": ("SSL", "certificateKey"), "certificateChain": ("SSL", "certificateChain"),
       "unixSocketFileName": ("UnixSocketServerTunnelProxy", "unixSocketFileName"), "wsHost": ("WebSocketServerTunnelProxy", "host"), "wsPort": ("WebSocketServerTunnelProxy", "port"),
       "tcpHost": ("TcpServerTunnelProxy", "host"), "tcpPort": ("TcpServerTunnelProxy", "port")}
BOOL = ("writeLogs", "logEngineEnabled", "sslEnabled")
CERTKEYS = ("certificate", "certificateKey", "certificateChain")
DEFAULT = {"certificate": "/etc/ssl/certs/ssl-cert-snakeoil.pem", "certificateKey": "/etc/ssl/private/ssl-cert-snakeoil.key"}
NAMES = ["rpx", "nymea-remoteproxy", "Proxy Wien 1", "näme ünïcode", "世界", "a,b, c", 'with "quotes"', "semi;colon", "eq=ual", "back\\slash", "tab\tin", " blanks around ", "100%", "[x]", "#hash", "a" * 300, "0", "false", "x\\n", "pass:word@host"]


def vectors(cfg="MCConfigVec"):
    """files of the model, every one that it loads"""
    r = tlc.run("MCConfig", cfg=cfg, workers=8, timeout=300, mem="4g")
    if r["rc"] != 0:
        raise tlc.TlcError(r["out"][-3000:])
    out, seen = [], set()
    for v in tlc.printed(r["out"], "VEC"):
        v["f"] = v["f"] if isinstance(v["f"], dict) else {}
        k = json.dumps(v, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return sorted(out, key=lambda v: json.dumps(v, sort_keys=True))


def ini(v, r, quote=None):
    """a value as it is written into an INI file"""
    special = any(c in v for c in ',;="\\\t\n') or v != v.strip() or not v
    if not special and not (r.random() < 0.2 if quote is None else quote):
        return v
    if not v and r.random() < 0.5:
        return v
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t").replace("\n", "\\n") + '"'


def render(file, r):
    """the file's text: sections and keys in any order, with comments, blank lines and blanks around the values"""
    by = {}
    for k, v in file.items():
        by.setdefault(SEC[k][0], []).append((SEC[k][1], v))
    secs = list(by.items())
    if r.random() < 0.5:
        r.shuffle(secs)
    nl = "\r\n" if r.random() < 0.1 else "\n"
    out = []
    if r.random() < 0.3:
        out.append("; written by a test")
    for s, kv in secs:
        if r.random() < 0.5:
            r.shuffle(kv)
        cut = r.randrange(1, len(kv)) if len(kv) > 1 and r.random() < 0.1 else len(kv)
        out.append("[%s]" % s)
        for j, (k, v) in enumerate(kv):
            if j == cut:
                out += ["[Other]", "name=other", "port=1", "[%s]" % s]     # a section continued after another one
            if r.random() < 0.1:
                out.append("; " + k + "=commented")
            sp = " " if r.random() < 0.2 else ""
            out.append(k + sp + "=" + sp + ini(v, r))
        out.append("")
    if r.random() < 0.3:
        out += ["[Unknown]", "enabled=true", "host=1.2.3.4", "port=7", ""]
    return nl.join(out) + (nl if r.random() < 0.9 else "")


def digest(path):
    try:
        with open(path, "rb") as f:
            t = f.read()
    except OSError:
        return None
    try:
        return hashlib.sha1(ssl.PEM_cert_to_DER_cert(t.decode())).hexdigest()
    except Exception:
        return "file"


def any_port(host):
    s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
    s.bind((host, 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Cfg:
    def __init__(self, ctx, r):
        self.x, self.sc, self.r, self.ctx = ctx.rpx(), ctx.sc, r, ctx
        self.n = 0
        self.cid = 0
        self.file = None
        ctx.ev.append({"k": "reset"})
        self.x.cmd(op="reset")
        d = self.sc.path("c e r t")
        os.makedirs(d, exist_ok=True)
        for i, s in ((1, ""), (2, "2")):
            for a in ("cert", "key"):
                t = "%s/%s ü%d.pem" % (d, a, i)
                if not os.path.exists(t):
                    open(t, "wb").write(open("%s/%s%s.pem" % (rp.CERT, a, s), "rb").read())
        self.dir = d

    def val(self, k, pair=1, usable=False):
        """a valid value, in its canonical form"""
        r = self.r
        if k == "name":
            return r.choice(NAMES)
        if k in BOOL:
            return r.choice(["true", "false"])
        if k in ("wsPort", "tcpPort"):
            return str(rp.free_port() if usable else r.choice([1, 80, 2212, 2213, 8080, 32767, 32768, 49152, 65535, r.randrange(1, 65536)]))
        if k in ("wsHost", "tcpHost"):
            return self.sc.host if usable else r.choice(["127.0.0.1", "0.0.0.0", "::1", "::", "192.168.100.200", "10.0.0.1", "255.255.255.255", "fe80::1234:5678", "127.0.0.53"])
        if k == "jsonRpcTimeout":
            return str(r.choice([1, 100, 9999, 10001, 2147483647, r.randrange(1, 100000)]))
        if k == "inactiveTimeout":
            return str(r.choice([500, 1000, 2345, 8001, 15000]) if usable else r.choice([1, 100, 7999, 8001, 2147483647, r.randrange(1, 100000)]))
        if k == "certificate":
            return "%s/cert ü%d.pem" % (self.dir, pair) if r.random() < 0.5 else "%s/cert%s.pem" % (rp.CERT, "2" if pair == 2 else "")
        if k == "certificateKey":
            return "%s/key ü%d.pem" % (self.dir, pair) if r.random() < 0.5 else "%s/key%s.pem" % (rp.CERT, "2" if pair == 2 else "")
        if k == "certificateChain":
            return "" if r.random() < 0.2 else "%s/cert%s.pem" % (rp.CERT, r.choice(["", "2"]))
        self.n += 1
        s = r.choice(["sock", "so ck", "söck", "s,k", "s.k"])
        return self.sc.path("%s%d" % (s, self.n)) if usable or r.random() < 0.6 else r.choice(["/run/x.socket", "/tmp/nymea-remoteproxy-monitor.sock", "relative/path", "/var/log/ö.log"])

    def broken(self):
        return self.r.choice([self.sc.path("nothing here"), self.dir, "/dev/null/x", self.sc.path("missing") + "/cert.pem"])

    def load(self, file, there=True, keep=False):
        path = self.sc.path("conf %d" % self.n if self.r.random() < 0.2 else "conf%d" % self.n)
        self.n += 1
        if os.path.exists(path):
            os.unlink(path)
        if there:
            with open(path, "w", newline="", encoding="utf-8") as f:
                f.write(render({k: (v if k not in BOOL else self.r.choice({"true": ["true", "1"], "false": ["false", "0"]}[v])) for k, v in file.items()}, self.r))
        self.path, self.file, self.there = path, dict(file), there
        self.read = []
        for k in CERTKEYS:
            p = file.get(k, DEFAULT.get(k, ""))
            d = digest(p) if p else None
            if d and p not in [x["k"] for x in self.read]:
                self.read.append({"k": p, "v": d})
        o = self.x.cmd(op="conf", conf=path, keep=keep)["r"]
        b = lambda x: "true" if x else "false"
        got = {}
        if o["ok"]:
            for k in SEC:
                v = o[k]
                got[k] = b(v) if isinstance(v, bool) else str(int(v)) if isinstance(v, (int, float)) else v
            got["certificateDigest"], got["chainDigest"], got["key"] = o["certHash"], o["caHash"], "null" if o["keyNull"] else "loaded"
        self.ctx.ev.append({"k": "load", "file": [{"k": k, "v": v} for k, v in file.items()], "there": there, "readable": self.read, "ok": o["ok"], "got": [{"k": k, "v": v} for k, v in got.items()],
                            "text": open(path, encoding="utf-8").read() if there else ""})
        return o["ok"]

    def start(self):
        res = self.x.cmd(op="start", conf=self.path, fake=1)
        self.ctx.ev.append({"k": "start", "ok": bool(res["r"].get("ok"))})
        return res["r"].get("ok")

    def stop(self):
        self.x.cmd(op="stop")
        self.ctx.ev.append({"k": "stop"})

    def probe(self, tr, at, port, how):
        """connects and says Hello"""
        self.cid += 1
        c = "p%d" % self.cid
        hello = b'{"id":1,"method":"RemoteProxy.Hello"}\n'
        if tr in ("unix", "monitor"):
            ev = self.x.cmd(op="open", id=c, kind="unix", path=at)["ev"]
        elif tr == "WebSocket" and how == "plain":
            ev = self.x.cmd(op="open", id=c, kind="ws", host=at, port=int(port))["ev"]
        elif tr == "WebSocket":
            ev = self.x.cmd(op="open", id=c + "t", kind="tls", host=at, port=int(port))["ev"]
            wcert = [e[3] for e in ev if e[1] == c + "t" and e[2] == "up"]
            self.x.cmd(op="abort", id=c + "t")
            ev = self.x.cmd(op="open", id=c, kind="wss", host=at, port=int(port))["ev"]
        elif how == "plain":
            ev = self.x.cmd(op="open", id=c, kind="tcp", host=at, port=int(port))["ev"]
        else:
            ev = self.x.cmd(op="open", id=c, kind="tls", host=at, port=int(port))["ev"]
        up = [e for e in ev if e[1] == c and e[2] == "up"]
        # does anything listen there at all?
        s = socket.socket(socket.AF_UNIX if tr in ("unix", "monitor") else socket.AF_INET6 if ":" in at else socket.AF_INET)
        s.settimeout(5)
        try:
            s.connect(at if tr in ("unix", "monitor") else (at, int(port)))
            res = "no service"
        except OSError:
            res = "refused"
        s.close()
        name, cert = "", ((wcert or [""])[0] if tr == "WebSocket" else up[0][3] or "") if up and how == "tls" else ""
        if up:
            ev = ev + self.x.cmd(op="send", id=c, chunks=[(b'{"method":"refresh"}\n' if tr == "monitor" else hello).hex()])["ev"]
            rx = b"".join(bytes.fromhex(e[3]) for e in ev if e[1] == c and e[2] == "rx")
            try:
                o = json.loads(rx)
                name, res = (o["serverName"] if tr == "monitor" else o["params"]["name"]), "served"
            except Exception:
                if rx:
                    res = "garbage"
        self.x.cmd(op="abort", id=c)
        e = {"k": "probe", "tr": tr, "at": at, "port": port, "how": how, "res": res, "name": name, "cert": cert}
        self.ctx.ev.append(e)
        return e

    def idle(self, want):
        self.cid += 1
        c = "p%d" % self.cid
        t0 = self.x.cmd(op="fconn", id=c, tr=0, addr="127.0.0.1")["t"]
        ev = self.x.cmd(op="adv", ms=int(want * 1.2) + 2000)["ev"]
        x = [e[0] for e in ev if e[1] == c and e[2] == "closed"]
        self.ctx.ev.append({"k": "idle", "want": want, "at": int(x[0] - t0) if x else -1})


# ------------------------------------------------------------------ the server program itself, in real time
def talk(tr, at, port, how, wait):
    """-> (result, name, digest of the certificate)"""
    fam = socket.AF_UNIX if tr in ("unix", "monitor") else socket.AF_INET6 if ":" in at else socket.AF_INET
    s = socket.socket(fam)
    s.settimeout(wait)
    cert = ""
    try:
        s.connect(at if fam == socket.AF_UNIX else (at, int(port)))
    except OSError:
        return "refused", "", ""
    try:
        if how == "tls":
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
            s = c.wrap_socket(s)
            cert = hashlib.sha1(s.getpeercert(True)).hexdigest()
        req = b'{"method":"refresh"}\n' if tr == "monitor" else b'{"id":1,"method":"RemoteProxy.Hello"}\n'
        buf = b""
        if tr == "WebSocket":
            s.sendall(b"GET / HTTP/1.1\r\nHost: proxy\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n")
            while b"\r\n\r\n" not in buf:
                d = s.recv(65536)
                if not d:
                    return "no service", "", cert
                buf += d
            if not buf.startswith(b"HTTP/1.1 101"):
                return "no service", "", cert
            buf = buf[buf.index(b"\r\n\r\n") + 4:]
            s.sendall(bytes([0x81, 0x80 | len(req), 0, 0, 0, 0]) + req)
        else:
            s.sendall(req)
        while b"\n" not in buf:
            d = s.recv(65536)
            if not d:
                return "no service", "", cert
            buf += d
        if tr == "WebSocket":
            buf = buf[4 if buf[1] == 126 else 2:]
        o = json.loads(buf)
        return "served", o["serverName"] if tr == "monitor" else o["params"]["name"], cert
    except (OSError, ValueError, KeyError, IndexError) as e:
        return "no service", "", ""
    finally:
        s.close()


class Bin(Cfg):
    def exec(self, logopt="", short=True):
        """runs the server program with the file"""
        for old in (logopt, self.file.get("logFile", "")):
            if old.startswith(self.sc.dir + "/") and os.path.exists(old):
                os.unlink(old)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OPENSSL_CONF="/dev/null", TMPDIR=self.sc.dir)
        a = ["-c" if short else "--configuration", self.path] + (["-l" if short else "--logging", logopt] if logopt else [])
        self.p = subprocess.Popen([rp.BUILD + "/rps"] + a, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=self.sc.dir)
        mon = self.file.get("monitorSocket", "")
        t = time.time()
        st = "slow"
        while time.time() - t < 40:
            if self.p.poll() is not None:
                st = "exit %d" % self.p.returncode
                break
            if os.path.exists(mon) and talk("monitor", mon, "", "plain", 20)[0] == "served":
                st = "running"
                break
            time.sleep(0.02)
        self.logopt = logopt
        self.ctx.ev.append({"k": "exec", "log": logopt, "res": st})
        return st == "running"

    def look(self, tr, at, port, how):
        ssl_ = self.file.get("sslEnabled", "true") == "true" and tr in ("TCP", "WebSocket")
        res, name, cert = talk(tr, at, port, how, 20 if ssl_ == (how == "tls") else 1)
        self.ctx.ev.append({"k": "probe", "tr": tr, "at": at, "port": port, "how": how, "res": res, "name": name, "cert": cert})

    def logged(self, path):
        self.ctx.ev.append({"k": "logfile", "path": path, "written": os.path.exists(path) and os.path.getsize(path) > 0})

    def end(self):
        self.p.kill()
        self.p.wait()
        self.ctx.ev.append({"k": "stop"})
