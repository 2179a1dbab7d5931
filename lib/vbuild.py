"""Builds the project (from /repo's current working tree) and the harness processes, with sanitizers.

The build directory is keyed by the content of everything that goes into it, so a build is reused only
when nothing changed; /repo itself is never written to.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD_ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
HARNESS = os.path.join(VERIF, "harness")
QMAKE = "/usr/lib/qt5/bin/qmake"

FLAVOURS = {
    # name: (compile flags, link flags)
    "asan": ("-O1 -g1 -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -fsanitize=address,undefined -fno-sanitize-recover=undefined",
             "-fsanitize=address,undefined"),
    "plain": ("-O1 -g -fno-omit-frame-pointer", ""),
}

SKIP_DIRS = {".git", "_build", "tests", "debian", "docs"}


def _files():
    res = []
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP_DIRS and not d.startswith(".")]
        for f in files:
            if re.search(r"\.(cpp|cc|cxx|c|h|hpp|hh|pro|pri|qrc|in|conf|prf|ui)$", f) or "version" in f:
                res.append(os.path.join(base, f))
    for f in os.listdir(HARNESS):
        res.append(os.path.join(HARNESS, f))
    return sorted(res)


def tree_hash(flavour):
    h = hashlib.sha256()
    h.update(repr(FLAVOURS[flavour]).encode())
    h.update(open(__file__, "rb").read())
    for f in _files():
        if not os.path.isfile(f):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\1")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _run(cmd, cwd, log, env):
    with open(log, "ab") as fh:
        fh.write(("$ %s\n" % " ".join(cmd)).encode())
        fh.flush()
        r = subprocess.run(cmd, cwd=cwd, stdout=fh, stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        tail = open(log, errors="replace").read()[-4000:]
        raise BuildError("%s failed\n%s" % (" ".join(cmd[:3]), tail))


class Build:
    def __init__(self, d):
        self.dir = d
        self.proxyd = os.path.join(d, "hx", "proxyd")
        self.clientd = os.path.join(d, "hx", "clientd")
        self.server = os.path.join(d, "p", "server", "nymea-remoteproxy")
        self.monitor = os.path.join(d, "p", "monitor", "nymea-remoteproxy-monitor")
        self.tunnelclient = os.path.join(d, "p", "tunnelclient", "nymea-remoteproxy-tunnelclient")
        self.libpath = ":".join(os.path.join(d, "p", n) for n in ("libnymea-remoteproxy", "libnymea-remoteproxyclient"))

    def env(self, **extra):
        env = {k: v for k, v in os.environ.items() if not k.startswith("QT_")}
        env["LD_LIBRARY_PATH"] = self.libpath
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:handle_abort=1:allocator_may_return_null=1:quarantine_size_mb=64"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
        env["QT_NO_GLIB"] = "1"
        env["LC_ALL"] = "C.UTF-8"
        env["QT_LOGGING_TO_CONSOLE"] = "1"
        env.update(extra)
        return env


def ensure(flavour="asan"):
    os.makedirs(BUILD_ROOT, exist_ok=True)
    lock = open(os.path.join(BUILD_ROOT, "lock." + flavour), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = tree_hash(flavour)
        d = os.path.join(BUILD_ROOT, flavour + "-" + key)
        if os.path.exists(os.path.join(d, "complete")):
            return Build(d)
        for old in os.listdir(BUILD_ROOT):
            p = os.path.join(BUILD_ROOT, old)
            if old.startswith(flavour + "-") and os.path.isdir(p) and p.startswith(BUILD_ROOT + "/"):
                shutil.rmtree(p, ignore_errors=True)
        t0 = time.time()
        proj, hx = os.path.join(d, "p"), os.path.join(d, "hx")
        os.makedirs(proj)
        os.makedirs(hx)
        log = os.path.join(d, "build.log")
        cflags, lflags = FLAVOURS[flavour]
        env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "QT_SELECT", "QMAKEFLAGS")}
        env["LC_ALL"] = "C.UTF-8"
        _run([QMAKE, "-r", os.path.join(REPO, "nymea-remoteproxy.pro"), "CONFIG+=disabletests", "QMAKE_CXX=g++", "-after",
              "QMAKE_CXXFLAGS+=-Wno-error -w " + cflags, "QMAKE_LFLAGS+=" + lflags], proj, log, env)
        # A makefile of our own runs the project's make and the harness compilation side by side.
        qt = "/usr/include/x86_64-linux-gnu/qt5"
        inc = " ".join("-I" + p for p in (qt, qt + "/QtCore", qt + "/QtNetwork", qt + "/QtWebSockets", REPO, HARNESS))
        cxx = "g++ -std=c++14 -fPIC -w " + cflags
        mk = ["all: proxyd clientd", "PROJ=" + proj, "project:", "\t+$(MAKE) -C $(PROJ)"]
        mk += ["version: project_qmake", "project_qmake:", "\ttrue"]
        srv_inc = "%s -I%s/libnymea-remoteproxy -I$(PROJ)" % (inc, REPO)
        cli_inc = "%s -I%s/libnymea-remoteproxyclient -I$(PROJ)" % (inc, REPO)
        mk += ["common.o: %s/common.cpp" % HARNESS, "\t%s %s -c $< -o $@" % (cxx, inc)]
        mk += ["proxyd.o: %s/proxyd.cpp" % HARNESS, "\t%s %s -c $< -o $@" % (cxx, srv_inc)]
        mk += ["clientd.o: %s/clientd.cpp" % HARNESS, "\t%s %s -c $< -o $@" % (cxx, cli_inc)]
        libs = "-lQt5WebSockets -lQt5Network -lQt5Core -lpthread"
        mk += ["proxyd: proxyd.o common.o project", "\tg++ %s proxyd.o common.o -o $@ -L$(PROJ)/libnymea-remoteproxy -lnymea-remoteproxy %s" % (lflags, libs)]
        mk += ["clientd: clientd.o common.o project", "\tg++ %s clientd.o common.o -o $@ -L$(PROJ)/libnymea-remoteproxyclient -lnymea-remoteproxyclient %s" % (lflags, libs)]
        mk += [".PHONY: all project version project_qmake"]
        open(os.path.join(hx, "Makefile"), "w").write("\n".join(mk) + "\n")
        _run(["make", "-j%d" % max(2, os.cpu_count() or 2), "-C", hx], d, log, env)
        open(os.path.join(d, "complete"), "w").write("%.1f\n" % (time.time() - t0))
        sys.stderr.write("built %s in %.1f s\n" % (flavour, time.time() - t0))
        return Build(d)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["asan"]:
        print(ensure(fl).dir)
