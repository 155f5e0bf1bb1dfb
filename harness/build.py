#!/usr/bin/env python3
"""Builds the conformance driver from /repo's working tree (out of tree, ninja, precompiled header)."""
import os, sys, glob, subprocess, re, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RP_REPO", "/repo")
OUT = os.environ.get("RP_BUILD", os.path.join(os.path.dirname(HERE), "build"))
ASAN = os.environ.get("RP_ASAN", "1") == "1"

QT = ["QtCore", "QtNetwork", "QtWebSockets"]
BASE = "/usr/include/x86_64-linux-gnu/qt5"

def sh(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True).stdout.strip()

def qtinc():
    b = sh("/usr/lib/qt5/bin/qmake -query QT_INSTALL_HEADERS") or BASE
    return b, sh("/usr/lib/qt5/bin/qmake -query QT_INSTALL_LIBS")

def version_h(path):
    pro = open(REPO + "/nymea-remoteproxy.pro").read()
    v = dict(re.findall(r"^(\w+)\s*=\s*(.*)$", pro, re.M))
    ver = "0"
    try:
        ver = re.match(r"\S+ \(([^)]*)\)", open(REPO + "/debian/changelog").read()).group(1)
    except Exception:
        for d in ("debian-qt5", "debian-qt6"):
            try:
                ver = re.match(r"\S+ \(([^)]*)\)", open(REPO + "/%s/changelog" % d).read()).group(1)
            except Exception:
                pass
    v["SERVER_VERSION"] = ver
    def sub(m):
        return v.get(m.group(1), "")
    txt = open(REPO + "/version.h.in").read()
    txt = re.sub(r"\$\$(\w+)", sub, txt).replace("'\"", '"').replace("\"'", '"')
    write(path, txt)
    return v

def write(path, txt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == txt:
        return
    open(path, "w").write(txt)

def main():
    os.makedirs(OUT, exist_ok=True)
    inc, lib = qtinc()
    version_h(OUT + "/inc/version.h")
    os.makedirs(OUT + "/inc/x", exist_ok=True)
    def srcs(d):
        r = []
        for root, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith(".cpp") or f.endswith(".h"):
                    r.append(os.path.join(root, f))
        return r
    S, C = REPO + "/libnymea-remoteproxy", REPO + "/libnymea-remoteproxyclient"
    groups = {
        "srv": ([f for f in srcs(S)], [S, OUT + "/inc/x", REPO + "/common", REPO]),
        "cli": ([f for f in srcs(C)], [C, OUT + "/inc/x", REPO + "/common", REPO]),
        "com": (srcs(REPO + "/common"), [REPO + "/common", REPO]),
        "mon": ([f for f in srcs(REPO + "/monitor") if os.path.basename(f).startswith(("monitorclient.", "utils."))], [REPO + "/monitor", OUT + "/inc/x"]),
        "mta": ([f for f in srcs(REPO + "/monitor") if not os.path.basename(f).startswith("monitorclient.")], [REPO + "/monitor", OUT + "/inc/x", REPO]),
        "app": (srcs(REPO + "/server"), [REPO + "/server", S, OUT + "/inc/x", REPO + "/common", REPO]),
        "tcl": (srcs(REPO + "/tunnelclient"), [REPO + "/tunnelclient", C, S, OUT + "/inc/x", REPO + "/common", REPO]),
        "har": (sorted(glob.glob(HERE + "/*.cpp")) + sorted(glob.glob(HERE + "/*.h")), [S, C, OUT + "/inc/x", REPO + "/common", REPO, REPO + "/monitor", HERE]),
    }
    opt = ["-O1", "-g1"]
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if ASAN else []
    base = (["-std=gnu++17", "-fPIC", "-w", "-D_REENTRANT", "-DQT_NO_DEBUG", "-DQT_DISABLE_DEPRECATED_UP_TO=0x050F00",
             "-DQT_WEBSOCKETS_LIB", "-DQT_NETWORK_LIB", "-DQT_CORE_LIB"] + opt + san +
            ["-isystem", inc] + sum((["-isystem", inc + "/" + m] for m in QT), []))
    pch = OUT + "/pch/qt.h"
    write(pch, "\n".join("#include <%s>" % m for m in QT) + "\n#include <functional>\n#include <map>\n#include <vector>\n#include <set>\n")
    n = ["ninja_required_version = 1.5",
         "cxxflags = " + " ".join(base),
         "rule cxx\n command = g++ $cxxflags $incs -include %s -Winvalid-pch -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc" % pch,
         "rule pch\n command = g++ $cxxflags -x c++-header $in -o $out",
         "rule moc\n command = /usr/lib/qt5/bin/moc -DQT_NO_DEBUG -D__GNUC__=13 -D__cplusplus=201703L -I%s %s $incs $in -o $out" % (inc, " ".join("-I%s/%s" % (inc, m) for m in QT)),
         "rule link\n command = g++ %s -rdynamic -o $out $in -L%s -lQt5WebSockets -lQt5Network -lQt5Core -lpthread -ldl $libs" % (" ".join(opt + san), lib),
         "build %s.gch: pch %s" % (pch, pch)]
    objs, own = [], {"app": [], "mta": [], "tcl": []}
    for g, (files, incs) in groups.items():
        I = " ".join("-I" + i for i in incs)
        for f in files:
            tag = g + "_" + re.sub(r"\W", "_", os.path.relpath(f, "/"))
            if f.endswith(".cpp"):
                o = "%s/o/%s.o" % (OUT, tag)
                n.append("build %s: cxx %s | %s.gch %s/inc/version.h\n incs = %s" % (o, f, pch, OUT, I))
                own.get(g, objs).append(o)
            else:
                t = open(f, errors="replace").read()
                if re.search(r"\bQ_(OBJECT|GADGET|NAMESPACE)\b", t):
                    m = "%s/o/moc_%s.cpp" % (OUT, tag)
                    o = m[:-4] + ".o"
                    n.append("build %s: moc %s\n incs = %s" % (m, f, I))
                    n.append("build %s: cxx %s | %s.gch\n incs = %s -I%s" % (o, m, pch, I, os.path.dirname(f)))
                    own.get(g, objs).append(o)
    n.append("build %s/rpx: link %s" % (OUT, " ".join(objs)))
    n.append("build %s/rps: link %s" % (OUT, " ".join(own["app"] + [o for o in objs if re.search(r"/o/(moc_)?(srv|com)_", o)])))
    n.append("build %s/rpm: link %s\n libs = -lncurses" % (OUT, " ".join(own["mta"] + [o for o in objs if re.search(r"/o/(moc_)?mon_", o)])))
    n.append("build %s/rptc: link %s" % (OUT, " ".join(own["tcl"] + [o for o in objs if re.search(r"/o/(moc_)?(cli|com)_", o)])))
    n.append("default " + " ".join("%s/%s" % (OUT, x) for x in ("rpx", "rps", "rpm", "rptc")))
    write(OUT + "/build.ninja", "\n".join(n) + "\n")
    r = subprocess.run(["ninja", "-C", OUT, "-f", OUT + "/build.ninja"], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
    return r.returncode

if __name__ == "__main__":
    sys.exit(main())
