"""The SLIP codec on its own: round trips, the shape of encodings, malformed input. Compared with a codec written independently."""
import itertools
import random

import model as M
import sim
import vbuild
from hproc import HProc

ALPHA = [0x00, 0x01, 0xC0, 0xDB, 0xDC, 0xDD, 0xFF]


def cases(rng, tier):
    n = 8 if tier == "deep" else 4
    return [{"part": "short", "i": i} for i in range(3)] + [{"part": "random", "seed": rng.randrange(1 << 30), "n": 40000 if tier == "deep" else 6000} for _ in range(n)]


def inputs(case):
    if case["part"] == "short":
        if case["i"] == 0:  # everything up to two bytes
            yield b""
            for a in range(256):
                yield bytes([a])
            for a in range(256):
                for b in ALPHA:
                    yield bytes([a, b])
                    yield bytes([b, a])
        elif case["i"] == 1:  # all strings over the interesting bytes up to length 5
            for n in range(3, 6):
                for t in itertools.product(ALPHA, repeat=n):
                    yield bytes(t)
        else:
            for n in (255, 256, 257, 4096, 10240, 65535, 65536, 200000):
                yield bytes(i % 256 for i in range(n))
                yield b"\xc0" * n
                yield b"\xdb" * n
                yield b"\xdb\xdc" * n
        return
    r = random.Random(case["seed"])
    for _ in range(case["n"]):
        n = r.choice([1, 2, 3, 8, 30, 200, 1000])
        if r.random() < 0.5:
            yield bytes(r.choice(ALPHA) for _ in range(n))
        else:
            yield bytes(r.randrange(256) for _ in range(n))


def run(res, case):
    build = vbuild.ensure("asan")
    d = sim.scratch("vw-")
    h = HProc(build.proxyd, build, d)
    try:
        def fail(what, x, got, want):
            raise sim.Divergence("codec", what, "input %s: got %s instead of %s" % (sim.clip(x), got if got is None else sim.clip(got), want if want is None else sim.clip(want)), {"C12", "C01"})
        batch = []

        def flush():
            lines = []
            for x, a in batch:
                hx = x.hex() or "-"
                lines += ["enc " + hx, "dec " + hx, "dec " + (M.slip_encode(x).hex()), "bld %d %s" % (a, hx), "prs " + (bytes([a >> 8, a & 255]) + x).hex()]
            ans = h.cmds(lines)
            vals = []
            for word, rep in ans:
                v = rep[0][2:]
                vals.append(v)

            def val(v):
                return None if v == "null" else (b"" if v == "-" else bytes.fromhex(v))
            for i, (x, a) in enumerate(batch):
                e, dd, back, bld, prs = vals[5 * i:5 * i + 5]
                if val(e) != M.slip_encode(x):
                    fail("encoding", x, val(e), M.slip_encode(x))
                # what follows an END byte in the input is not part of the frame
                body = x[:-1] if x.endswith(b"\xc0") else x
                if b"\xc0" not in body:
                    want = M.slip_decode(body)
                    got = val(dd)
                    if (got or b"") != (want or b"") or (want is None and got):
                        fail("decoding", x, got, want)
                if (val(back) or b"") != x:
                    fail("decoding the encoding", x, val(back), x)
                full = M.slip_encode(bytes([a >> 8, a & 255]) + x)
                if val(bld) not in (full, bytes([a >> 8, a & 255]) + x):
                    fail("building a frame", x, val(bld), full)
                pa, pd = prs.split(" ")
                if int(pa) != a or (val(pd) or b"") != x:
                    fail("parsing a frame with address %#06x" % a, x, val(pd), x)
                res.count("codec")
            batch.clear()
        r = random.Random(5)
        for k, x in enumerate(inputs(case)):
            a = k % 65536 if k % 3 else r.choice([0, 1, 0xC0, 0xC0C0, 0xDBDC, 0xFFFF, 0xDB, 0xC000])
            batch.append((x, a))
            if len(batch) >= 300 or len(x) > 5000:
                flush()
        flush()
        # every address
        if case["part"] == "short" and case["i"] == 0:
            for lo in range(0, 65536, 4096):
                ans = h.cmds([c for a in range(lo, lo + 4096) for c in ("bld %d c0db" % a, "prs %04xc0db" % a)])
                for i, a in enumerate(range(lo, lo + 4096)):
                    full = bytes([a >> 8, a & 255, 0xC0, 0xDB])
                    b = bytes.fromhex(ans[2 * i][1][0][2:])
                    if b not in (full, M.slip_encode(full)) or ans[2 * i + 1][1][0][2:] != "%d c0db" % a:
                        fail("address %#06x" % a, full, b, full)
                    res.count("codec_addresses")
        res.samples.append(case)
        h.quit()
    finally:
        h.kill()
        import shutil
        shutil.rmtree(d, ignore_errors=True)
