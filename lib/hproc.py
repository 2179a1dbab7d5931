"""A harness process (proxyd or clientd) driven by a line protocol."""
import os
import select
import signal
import subprocess
import tempfile
import time


class Crash(Exception):
    """The process under test died, was stopped by a sanitizer, or hung."""

    def __init__(self, kind, report):
        super().__init__(kind)
        self.kind = kind
        self.report = report


class HProc:
    TIMEOUT = 150

    def __init__(self, exe, build, workdir, env=None, prefix=()):
        self.errfile = tempfile.NamedTemporaryFile(prefix="err-", dir=workdir, delete=False)
        self.p = subprocess.Popen(list(prefix) + [exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errfile,
                                  env=build.env(**(env or {})), cwd=workdir, bufsize=0)
        self.buf = b""
        self.pos = 0
        self.sink = None  # called with every report line that is not the answer to the command
        self.dead = False
        self.commands = 0

    def _read_line(self, deadline):
        while True:
            i = self.buf.find(b"\n", self.pos)
            if i >= 0:
                line = self.buf[self.pos:i]
                self.pos = i + 1
                return line.decode()
            self.buf = self.buf[self.pos:]
            self.pos = 0
            left = deadline - time.monotonic()
            if left <= 0:
                self._stacks()
                self.kill()
                raise Crash("hang", "no answer to a command within %d s\n%s" % (self.TIMEOUT, self.stderr()))
            r, _, _ = select.select([self.p.stdout], [], [], min(left, 5))
            if not r:
                continue
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                self._died()
            self.buf += d

    def _stacks(self):
        pass

    def _died(self):
        self.dead = True
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rc = self.p.wait()
        rep = self.stderr()
        kind = "exit %s" % rc
        for l in rep.splitlines():
            if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "SUMMARY:" in l:
                kind = l.strip()[:300]
                break
        raise Crash(kind, rep[-12000:])

    def stderr(self):
        try:
            return open(self.errfile.name, errors="replace").read()
        except OSError:
            return ""

    def send(self, lines):
        """Writes command lines; returns how many answers to expect."""
        data = ("\n".join(lines) + "\n").encode()
        fd = self.p.stdin.fileno()
        off = 0
        try:
            while off < len(data):
                # keep draining what comes back so that neither side blocks
                r, w, _ = select.select([self.p.stdout], [fd], [], 30)
                if r:
                    d = os.read(self.p.stdout.fileno(), 1 << 20)
                    if not d:
                        self._died()
                    self.buf = self.buf[self.pos:] + d
                    self.pos = 0
                if w:
                    off += os.write(fd, data[off:off + 32768])
        except BrokenPipeError:
            self._died()
        self.commands += len(lines)
        return len(lines)

    def collect(self, n):
        """Reads the answers of n commands: a list of (word, report lines)."""
        res = []
        deadline = time.monotonic() + self.TIMEOUT
        for _ in range(n):
            lines = []
            while True:
                l = self._read_line(deadline)
                if l.startswith(". "):
                    res.append((l[2:], lines))
                    break
                if l.startswith("hang "):
                    self.kill()
                    raise Crash("hang", l)
                if self.sink and self.sink(l):
                    continue
                lines.append(l)
        return res

    def cmds(self, lines):
        if not lines:
            return []
        return self.collect(self.send(lines))

    def cmd(self, line):
        return self.cmds([line])[0]

    def ask(self, line, key):
        for l in self.cmd(line)[1]:
            if l.startswith(key + " "):
                return l[len(key) + 1:]
        raise Crash("protocol", "no %s in answer to %s" % (key, line))

    def quit(self):
        """Orderly end; the destructors run under the sanitizers."""
        if self.dead:
            return
        try:
            self.cmd("Q")
        finally:
            self.close()

    def kill(self):
        if not self.dead:
            self.dead = True
            self.p.kill()
            self.p.wait()

    def close(self):
        if not self.dead:
            self.dead = True
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                rc = self.p.wait(30)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
                raise Crash("hang", "process did not end")
            if rc != 0:
                rep = self.stderr()
                raise Crash("exit %s at shutdown" % rc, rep[-12000:])
