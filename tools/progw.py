"""The server program and the tunnel client program, run as processes, in real time."""
import os, ssl, json, time, uuid, base64, struct, signal, socket, hashlib, resource, threading, subprocess
import rp

SIG = {n: getattr(signal, n) for n in ("SIGTERM", "SIGINT", "SIGQUIT", "SIGHUP", "SIGKILL")}
ALNUM = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")


def _child():
    for s in (signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGTERM):
        signal.signal(s, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def spawn(prog, args, cwd):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OPENSSL_CONF="/dev/null", TMPDIR=cwd)
    return subprocess.Popen([rp.BUILD + "/" + prog] + args, stdin=subprocess.DEVNULL, stdout=open(os.environ.get('PROGLOG','/dev/null'),'a'), stderr=subprocess.STDOUT, env=env, cwd=cwd, preexec_fn=_child)


def how(rc):
    if rc >= 0:
        return "exit %d" % rc
    return "by " + signal.Signals(-rc).name


class Peer:
    """a blocking connection of kind tcp, tls, ws, wss, unix or mon"""

    def __init__(self, sc, kind, timeout=20):
        self.kind, self.buf, self.raw, self.closed, self.frames = kind, b"", b"", False, []
        if kind in ("unix", "mon"):
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(timeout)
            s.connect(sc.path(kind))
        else:
            s = socket.create_connection((sc.host, sc.ws if kind in ("ws", "wss") else sc.tcp), timeout)
            if kind in ("tls", "wss"):
                c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
                c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
                s = c.wrap_socket(s)
        self.s = s
        if kind in ("ws", "wss"):
            s.sendall(b"GET / HTTP/1.1\r\nHost: proxy\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n")
            h = b""
            while not h.endswith(b"\r\n\r\n"):
                d = s.recv(1)
                if not d:
                    raise OSError("no web socket")
                h += d
            if b" 101 " not in h[:20]:
                raise OSError("no web socket")

    def send(self, data):
        if self.kind in ("ws", "wss"):
            m = b"\x01\x02\x03\x04"
            n = len(data)
            head = bytes([0x81]) + (bytes([0x80 | n]) if n < 126 else bytes([0xfe]) + struct.pack(">H", n) if n < 65536 else bytes([0xff]) + struct.pack(">Q", n))
            data = head + m + bytes(b ^ m[i & 3] for i, b in enumerate(data))
        try:
            self.s.settimeout(20)
            self.s.sendall(data)
        except OSError:
            self.closed = True

    def pump(self, t):
        if self.closed:
            return
        self.s.settimeout(max(t, 0.001))
        try:
            d = self.s.recv(1 << 18)
        except (socket.timeout, ssl.SSLWantReadError):
            return
        except OSError:
            d = b""
        if not d:
            self.closed = True
            return
        if self.kind not in ("ws", "wss"):
            self.buf += d
            return
        self.raw += d
        while len(self.raw) >= 2:
            n, o = self.raw[1] & 127, 2
            if n >= 126:
                o = 4 if n == 126 else 10
                if len(self.raw) < o:
                    return
                n = int.from_bytes(self.raw[2:o], "big")
            if len(self.raw) < o + n:
                return
            op, body, self.raw = self.raw[0] & 15, self.raw[o:o + n], self.raw[o + n:]
            if op in (0, 1, 2):
                self.buf += body
            elif op == 8:
                self.closed = True

    def until(self, cond, t):
        end = time.time() + t
        while not cond() and not self.closed and time.time() < end:
            self.pump(end - time.time())
        return cond()

    def line(self, t=30):
        if not self.until(lambda: b"\n" in self.buf, t):
            return None
        l, self.buf = self.buf.split(b"\n", 1)
        try:
            return json.loads(l)
        except ValueError:
            return None

    def payload(self):
        """complete frames of tunnel clients received so far (as a tunnel server)"""
        while b"\xc0" in self.buf:
            f, self.buf = self.buf.split(b"\xc0", 1)
            f = f.replace(b"\xdb\xdc", b"\xc0").replace(b"\xdb\xdd", b"\xdb")
            if len(f) > 2 and f[:2] != b"\0\0":
                self.frames.append(f[2:])
        return b"".join(self.frames)

    def gone(self, t):
        self.until(lambda: self.closed, t)
        return self.closed

    def close(self):
        self.closed = True
        self.s.close()


def mark(b):
    return b.hex() if len(b) <= 40 else "%d bytes %s" % (len(b), hashlib.sha1(b).hexdigest())


class Over(Exception):
    """what was waited for did not come; it is recorded, and there is nothing left to look at"""


class Prog:
    def __init__(self, ctx, r):
        if ctx.psc is None:
            ctx.psc = rp.Scratch()      # (the driver of the other families keeps its own ports)
        self.ctx, self.r, self.sc = ctx, r, ctx.psc
        self.threads, self.stop = [], None
        self.p, self.tls, self.peers, self.uu, self.tools, self.regd = None, False, {}, {}, {}, set()
        for f in ("unix", "mon"):
            if os.path.exists(self.sc.path(f)):
                os.unlink(self.sc.path(f))
        self.rec(k="reset")

    def rec(self, **e):
        self.ctx.ev.append(e)

    # ------------------------------------------------------------ the server program
    def launch(self, tls, wait=True):
        self.tls = tls
        conf = self.sc.conf(ssl=tls, inactive=120000)
        self.p = spawn("rps", [self.r.choice(["-c", "--configuration"]), conf], self.sc.dir)
        self.rec(k="launch", tls=tls)
        if wait:
            t, st = time.time(), "slow"
            while time.time() - t < 60:
                if self.p.poll() is not None:
                    st = how(self.p.returncode)
                    break
                if not self.silent():
                    st = "serving"
                    break
                time.sleep(0.02)
            self.rec(k="ready", res=st)
            return st == "serving"

    def silent(self):
        """which of the four sockets accept nobody"""
        out = []
        for k in ("mon", "unix", "tcp", "ws"):
            s = socket.socket(socket.AF_UNIX if k in ("mon", "unix") else socket.AF_INET)
            s.settimeout(10)
            try:
                s.connect(self.sc.path(k) if k in ("mon", "unix") else (self.sc.host, self.sc.ws if k == "ws" else self.sc.tcp))
            except OSError:
                out.append(k)
            s.close()
        return out

    def signal(self, sig, again=False):
        self.p.send_signal(SIG[sig])
        if again and sig != "SIGKILL":
            for _ in range(self.r.choice([1, 3])):
                time.sleep(self.r.choice([0, 0.001, 0.02]))
                if self.p.poll() is None:
                    self.p.send_signal(SIG[sig])
        self.rec(k="signal", sig=sig)
        try:
            res = how(self.p.wait(30))
        except subprocess.TimeoutExpired:
            res = "still running"
            self.p.kill()
            self.p.wait()
        files = [{"mon": "monitor"}.get(f, f) for f in ("unix", "mon") if os.path.exists(self.sc.path(f))]
        self.rec(k="exit", res=res, files=files)
        if res not in ("exit 0", "by " + sig):
            raise Over
        self.rec(k="left", listening=sorted({"tcp", "ws", "unix", "mon"} - set(self.silent())), connected=sorted(c for c, p in self.peers.items() if not p.gone(3)))
        for p in self.peers.values():
            p.close()
        self.peers = {}
        self.regd = set()

    def load(self, n=4):
        """peers that keep the program busy until it is gone"""
        sc, kinds, stop = self.sc, self.kinds(), threading.Event()
        seeds = [self.r.random() for _ in range(n)]

        def run(k):
            import random
            r = random.Random(seeds[k])
            while not stop.is_set():
                try:
                    p = Peer(sc, r.choice(kinds + ["mon"]), 2)
                    su, sv = "{%s}" % uuid.UUID(int=r.getrandbits(128)), None
                    for _ in range(r.choice([1, 20, 200])):
                        if p.closed or stop.is_set():
                            break
                        p.send(b'{"method":"refresh","params":{"printAll":true}}\n' if p.kind == "mon" else b'{"id":1,"method":"RemoteProxy.Hello"}\n' * r.choice([1, 5, 30]))
                        p.until(lambda: len(p.buf) > 0, 1)
                        p.buf = b""
                    if p.kind != "mon" and not p.closed and r.random() < 0.5:
                        p.send(req("TunnelProxy.RegisterServer", {"serverName": "load", "serverUuid": su}))
                        p.line(2)
                        q = Peer(sc, r.choice(kinds), 2)
                        q.send(req("TunnelProxy.RegisterClient", {"clientName": "load", "clientUuid": "{%s}" % uuid.UUID(int=r.getrandbits(128)), "serverUuid": su}))
                        for _ in range(20):
                            if q.closed or stop.is_set():
                                break
                            q.send(b"x" * r.choice([1, 1000, 20000]))
                        q.close()
                    p.close()
                except (OSError, ValueError):
                    if stop.wait(0.005):
                        return
        self.threads = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(n)]
        self.stop = stop
        for t in self.threads:
            t.start()

    def calm(self):
        self.stop.set()
        for t in self.threads:
            t.join(30)
        self.threads = []

    # ------------------------------------------------------------ peers
    def kinds(self):
        return ["tls", "wss", "unix"] if self.tls else ["tcp", "ws", "unix"]

    def real(self, u):
        if u in ("", "bad"):
            return "no uuid" if u else ""
        if u not in self.uu:
            self.uu[u] = "{%s}" % uuid.UUID(int=self.r.getrandbits(128), version=4)
        return self.uu[u]

    def back(self, real):
        real = "{" + real.strip("{}") + "}"
        for k, v in self.uu.items():
            if v == real:
                return k
        return real

    def attach(self, c, kind=None):
        kind = kind or self.r.choice(self.kinds())
        try:
            self.peers[c] = Peer(self.sc, kind)
            self.peers[c].send(b'{"id":0,"method":"RemoteProxy.Hello"}\n')
            ok = self.peers[c].line() is not None
        except OSError:
            ok = False
        self.rec(k="attach", c=c, tr=kind, ok=ok)
        if not ok:
            raise Over

    def register(self, c, role, u, s=""):
        p = self.peers[c]
        if role == "s":
            p.send(req("TunnelProxy.RegisterServer", {"serverName": "server " + c, "serverUuid": self.real(u)}))
        else:
            p.send(req("TunnelProxy.RegisterClient", {"clientName": "client " + c, "clientUuid": self.real(u), "serverUuid": self.real(s)}))
        a = p.line()
        res = a.get("params", {}).get("tunnelProxyError", "none").replace("TunnelProxyError", "") if isinstance(a, dict) and a.get("status") == "success" else "none"
        self.rec(k="reg", c=c, role=role, u=u, s=s, res=res)
        if res == "none":
            raise Over
        if res != "NoError":
            p.gone(10)
            self.peers.pop(c)
        return res == "NoError"

    def away(self, c):
        self.peers.pop(c).close()
        self.rec(k="away", c=c)

    def snap(self):
        m = Peer(self.sc, "mon")
        m.send(b'{"method":"refresh","params":{"printAll":true}}\n')
        a = m.line()
        m.close()
        try:
            return a["tunnelProxyStatistic"]["tunnelConnections"]
        except (TypeError, KeyError):
            return []

    def list(self, settle=0.0):
        """what the monitor lists; ends of connections may need a moment to be noticed"""
        t = time.time()
        last, since = None, t
        while True:
            try:
                tc = self.snap()
            except OSError:
                tc = []
            now = (sorted(self.back(s["serverUuid"]) for s in tc), sorted(self.back(c["clientUuid"]) for s in tc for c in s["clientConnections"]))
            if now != last:
                last, since = now, time.time()
            if time.time() - since >= settle:
                break
            time.sleep(0.03)
        self.rec(k="list", servers=last[0], clients=last[1])

    # ------------------------------------------------------------ the tunnel client program
    def tool(self, t, u="", suuid="", server=False, client=False, url="ok", name="", insecure=False, random=False, scheme=None, expect=True):
        """starts it; expect: how long to wait for it to be registered"""
        scheme = scheme or ("ssl" if self.tls else "tcp")
        a = dict(server=server, client=client, suuid=suuid, url=url, name=name, insecure=insecure, random=random, scheme=scheme)
        r = self.r
        short = r.random() < 0.5
        args = []
        for on, o in ((server, ("-s", "--server")), (client, ("-c", "--client")), (insecure, ("-i", "--ignore-ssl")), (random, ("-r", "--random"))):
            if on:
                args.append([o[0] if short else o[1]])
        args.append(["-u" if short else "--url", "%s://%s:%d" % (scheme, "localhost" if self.sc.host == "127.0.0.1" else self.sc.host, self.sc.tcp) if url == "ok" else "http://[::"])
        if name:
            args.append(["-n" if short else "--name", name])
        if u:
            args.append(["--uuid", self.real(u) if r.random() < 0.5 else self.real(u).strip("{}")])
        if suuid:
            args.append(["--server-uuid", self.real(suuid)])
        if r.random() < 0.2:
            args.append([r.choice(["--verbose", "--very-verbose"])])
        r.shuffle(args)
        before = {s["serverUuid"] for s in self.snap()} | {c["clientUuid"] for s in self.snap() for c in s["clientConnections"]} if self.p.poll() is None else set()
        p = spawn("rptc", sum(args, []), self.sc.dir)
        self.tools[t] = p
        seen = self.await_(p, lambda x: x["u"] not in before and (not u or self.back(x["u"]) == u), 30 if expect else 2)
        if not u:
            u = t + " uuid"
            if seen:
                self.uu[u] = "{" + seen["u"].strip("{}") + "}"
        self.rec(k="tool", c=t, a=a, u=u, res="runs" if p.poll() is None else "refused")
        if p.poll() is None:
            self.toolin(t, seen)
            if expect and not seen:
                raise Over
        else:
            self.tools.pop(t)
        a["u"] = u
        p.args_ = a
        return p.poll() is None

    def await_(self, p, cond, wait):
        t = time.time()
        while time.time() - t < wait and p.poll() is None:
            try:
                tc = self.snap()
            except OSError:
                tc = []
            for s in tc:
                for x in [dict(u=s["serverUuid"], name=s["name"])] + [dict(u=c["clientUuid"], name=c["name"]) for c in s["clientConnections"]]:
                    if cond(x):
                        return x
            time.sleep(0.05)
        return None

    def toolin(self, t, seen):
        self.rec(k="toolin", c=t, yes=seen is not None, name=seen["name"] if seen else "", u=self.back(seen["u"]) if seen else "")

    def again(self, t, expect=True):
        """does the tool get registered (again)?"""
        u = self.real(self.tools[t].args_["u"])
        seen = self.await_(self.tools[t], lambda x: x["u"].strip("{}") == u.strip("{}"), 30 if expect else 2)
        self.toolin(t, seen)
        if expect and not seen:
            raise Over

    def toolend(self, t):
        p = self.tools.pop(t)
        p.terminate()
        p.wait()
        self.rec(k="toolend", c=t)

    def echo(self, c, sizes, silent):
        """a tunnel client sends to the tool and looks what comes back"""
        p = self.peers[c]
        sent = b""
        for n in sizes:
            d = bytes(self.r.choice(b"abcdefghijklmnopqrstuvwxyz{}\n ") for _ in range(n)) if p.kind in ("ws", "wss") else self.r.randbytes(n)
            if n > 3 and p.kind not in ("ws", "wss"):
                d = d[:-3] + bytes([0xC0, 0xDB, 0xDC])
            p.send(d)
            sent += d
            if self.r.random() < 0.5:
                p.pump(0.02)
        p.until(lambda: len(p.buf) >= len(sent), 1 if silent else 25)
        p.pump(0.05)
        got, p.buf = p.buf, b""
        self.rec(k="echo", c=c, sent=mark(sent) if sent else "", got=mark(got) if got else "")
        if not silent and got != sent:
            raise Over

    def text(self, c, t0):
        """what a tool sent to a tunnel server"""
        p = self.peers[c]
        p.until(lambda: len(p.payload()) >= 300, 15)
        p.until(lambda: False, 0.5)
        d = p.payload()
        self.rec(k="text", c=c, n=len(d), alnum=all(b in ALNUM for b in d), ms=int((time.time() - t0) * 1000))

    def end(self):
        if self.threads:
            self.calm()
        for p in list(self.tools.values()) + ([self.p] if self.p else []):
            if p.poll() is None:
                p.kill()
            p.wait()
        for p in self.peers.values():
            p.close()


def req(method, params, id=1):
    return json.dumps({"id": id, "method": method, "params": params}).encode() + b"\n"
