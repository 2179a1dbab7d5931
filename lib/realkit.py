"""The installed executables (server, monitor) in real time, with the helpers of kit."""
import json
import os
import re
import select
import shutil
import signal
import socket
import subprocess
import time

import peers as P
import sim
import vbuild
from hproc import Crash
from kit import Kit


class Exe:
    """A process of one of the project's executables."""

    def __init__(self, path, args, d, build, name="exe", env=None):
        self.out = os.path.join(d, name + ".out")
        self.err = os.path.join(d, name + ".err")
        self.cmd = [path] + args
        with open(self.out, "wb") as o, open(self.err, "wb") as e:
            self.p = subprocess.Popen(self.cmd, stdin=subprocess.DEVNULL, stdout=o, stderr=e, cwd=d, env=build.env(**(env or {})), start_new_session=True)

    def texts(self):
        return open(self.out, errors="replace").read(), open(self.err, errors="replace").read()

    def report(self):
        """What a sanitizer said, or None."""
        for t in self.texts()[::-1]:
            m = re.search(r"^.*(ERROR: AddressSanitizer|runtime error:|AddressSanitizer:DEADLYSIGNAL).*$", t, re.M)
            if m:
                return m.group(0)[:300] + "\n" + t[m.start():][:6000]
        return None

    def alive(self):
        return self.p.poll() is None

    def wait(self, seconds):
        """Exit status, None if it is still running."""
        try:
            return self.p.wait(seconds)
        except subprocess.TimeoutExpired:
            return None

    def check(self):
        r = self.report()
        if r:
            raise Crash(r.splitlines()[0], r)
        if not self.alive():
            raise Crash("exit %s" % self.p.returncode, "the server process ended by itself\n" + self.texts()[1][-3000:])

    def kill(self):
        if self.alive():
            self.p.kill()
            self.p.wait()


class RealKit(Kit):
    TIMEOUT = 40

    def __init__(self, res, ssl=False, args=(), start=True, prefix=(), name="proxy under test", inactive=60000, env=None, **kw):
        self.res = res
        self.build = vbuild.ensure("asan")
        self.dir = sim.scratch("vr-")
        self.conf = sim.Config(self.dir, ssl=ssl, inactive=inactive, name=name, **kw)
        self.peers = []
        self.server_exe = None
        self.prefix = list(prefix)
        self.env = env
        if start:
            self.start(args)

    def start(self, args=(), wait=True):
        cmd = self.prefix + [self.build.server, "-c", self.conf.path] + list(args)
        self.server_exe = Exe(cmd[0], cmd[1:], self.dir, self.build, "server", self.env)
        if wait:
            self.await_listening()

    def await_listening(self):
        end = time.monotonic() + self.TIMEOUT
        while time.monotonic() < end:
            self.server_exe.check()
            if os.path.exists(self.conf.monitor) and os.path.exists(self.conf.unix):
                s = socket.socket(socket.AF_UNIX)
                try:
                    s.connect(self.conf.monitor)
                    return
                except OSError:
                    pass
                finally:
                    s.close()
            time.sleep(0.005)
        raise Crash("hang", "the server does not listen on its Unix sockets\n" + self.server_exe.texts()[0][-2000:])

    def step(self):
        moved = False
        for p in self.peers:
            if p.s is not None and p.poll():
                moved = True
        if not moved:
            fds = [p.s for p in self.peers if p.s is not None and not p.closed and not p.paused]
            select.select(fds, [], [], 0.003)
        return moved

    def until(self, cond, patience=None):
        end = time.monotonic() + (self.TIMEOUT if patience is None else patience)
        while not cond():
            if self.step():
                continue
            if self.server_exe is not None and not self.server_exe.alive():
                for _ in range(3):
                    self.step()
                return cond()
            if time.monotonic() > end:
                return cond()
        return True

    def quiet(self):
        last = time.monotonic()
        while time.monotonic() - last < 0.05:
            if self.step():
                last = time.monotonic()

    def adv(self, ms, step=50):
        end = time.monotonic() + ms / 1000
        while time.monotonic() < end:
            self.step()

    def monitor(self, all=True):
        p = self.peer("monitor")
        p.send(b'{"method":"refresh","params":{"printAll":%s}}\n' % (b"true" if all else b"false"))
        m = self.line(p, None)
        p.close()
        self.peers.remove(p)
        if m is None:
            self.fail("not_served", "no monitor data", {"C15", "C19"})
        return m["tunnelProxyStatistic"]

    def line(self, p, patience=None):
        return super().line(p, None)

    def frame(self, p, patience=None):
        return super().frame(p, None)

    def stats(self):
        return None

    def end(self):
        self.server_exe.check()

    def kill(self):
        for p in self.peers:
            p.dispose()
        if self.server_exe:
            self.server_exe.kill()
        shutil.rmtree(self.dir, ignore_errors=True)
