"""Runs TLC and reads what it prints."""
import os, re, json, subprocess, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run(module, cfg=None, env=None, workers=1, args=(), timeout=600, mem="3g", cwd=None):
    meta = tempfile.mkdtemp(prefix="tlcm.")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    try:
        t = time.time()
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out = p.stdout + p.stderr
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "wall": time.time() - t}


def _unq(s):
    return json.loads('"' + s + '"') if False else s.encode().decode("unicode_escape").encode("latin1", "replace").decode("utf-8", "replace")


def printed(out, tag):
    """values printed as <<"TAG", "json">>"""
    r = []
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, out):
        s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        try:
            r.append(json.loads(s))
        except Exception:
            r.append({"raw": s})
    return r


def judge(events, module="TraceProxy", timeout=800):
    """-> (deviations, expectations by event, tlc result)"""
    d = tempfile.mkdtemp(prefix="trace.")
    try:
        f = os.path.join(d, "t.ndjson")
        with open(f, "w") as h:
            for e in events:
                h.write(json.dumps(e) + "\n")
        r = run(module, env={"TRACE": f}, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r["rc"] != 0:
        raise TlcError("TLC could not judge the trace (rc %s):\n%s" % (r["rc"], r["out"][-3000:]))
    return printed(r["out"], "DEV"), {x.get("n"): x for x in printed(r["out"], "EXP")}, r
