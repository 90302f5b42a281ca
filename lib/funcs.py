"""Inputs for the checksum, hash, order and byte-order functions (Crc.tla)."""
import subprocess, os, struct
from vlib import *
import ffile


class FScript:
    """commands for hdrv; each yields events of CrcTrace"""
    def __init__(self, tag):
        self.tag, self.note, self.keys, self.vals = tag, {}, [], []
        self.segs = [[("I", dict(op="begin"))]]

    def add(self, line, ev):
        self.segs[-1].append((line, ev))

    def string(self, *segs):
        self.add("S " + " ".join(s.hex() or "-" for s in segs), dict(op="S", segs=[list(s) for s in segs]))

    def order(self, a, b):
        self.add("O %s %s" % (a.hex() or "-", b.hex() or "-"), dict(op="order", a=list(a), b=list(b)))

    def log2(self, n):
        self.add("L %d" % n, dict(op="log2", n=n))

    def net(self, width, v):
        self.add("N %d %d" % (width, v), dict(op="net"))

    def database(self, bs, n, seed):
        self.add("D db %d %d %d" % (bs, n, seed), dict(op="D"))

    def steps(self):
        return sum(len(s) for s in self.segs)


def w(x):
    return [x >> 16, x & 0xffff]


def stored(path):
    """every checksum and the hash kept in a file, with the bytes it speaks for"""
    img = ffile.load(path)
    h = img.h
    yield img.raw[:ffile.HDRLEN - 4], [h["chksum"]], None
    yield b"%$sniglet^&\0", [], [h["h_charkey"]]
    for p in range(1, img.n):
        b = img.page(p)
        b = b + bytes(img.bs - len(b))
        m = img.meta(p)
        if m is not None:
            yield b[:20] + b[24:], [m["chk"]], None
    for b in range(h["maxb"] + 1):
        for e in img.entries(b):
            if not e["bad"]:
                v = img.value(e)
                if v is not None and len(v[0]) < 400:
                    yield v[0], [e["chk"]], None


def feed(b, n=8):
    """the stream, a few bytes per step (TLC evaluates recursively)"""
    return [dict(op="more", b=b[i:i + n]) for i in range(0, len(b), n)]


def run_funcs(exe, sc, d, timeout=60):
    r = RunResult()
    r.reset = dict(op="reset")
    inp = "\n".join(line for line, _ in sc.segs[0]) + "\n"
    try:
        p = subprocess.run([exe], input=inp.encode(), capture_output=True, cwd=d, timeout=timeout, env=dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0"))
        out, code, r.stderr = p.stdout.decode().splitlines(), p.returncode, p.stderr.decode(errors="replace")[-3000:]
    except subprocess.TimeoutExpired as x:
        out, code = (x.stdout or b"").decode().splitlines(), "hang"
        r.hang = True
    for i, (line, ev) in enumerate(sc.segs[0]):
        if i >= len(out):
            r.events.append(dict(op="died", code=str(code)))
            break
        f = out[i].split()
        if ev["op"] == "begin":
            r.events.append(dict(op="begin"))
        elif ev["op"] == "S":
            r.events.append(dict(op="begin"))
            r.events += feed([x for s in ev["segs"] for x in s])
            parts, cur = [], []
            for x in f[1:]:
                if x == "h":
                    parts.append(cur); cur = []
                else:
                    cur.append(w(int(x)))
            parts.append(cur)
            r.events.append(dict(op="result", crcs=parts[0], hashes=parts[1:]))
        elif ev["op"] == "order":
            v = [int(x) for x in f[1:]]
            for j in range(0, len(v), 4):
                r.events.append(dict(ev, xs=v[j:j + 4]))
        elif ev["op"] == "log2":
            r.events.append(dict(ev, r=int(f[1])))
        elif ev["op"] == "net":
            v = [int(x) for x in f[1:]]
            n = len(v) // 3
            r.events.append(dict(ev, v=v[:n], m=v[n:2 * n], back=v[2 * n:]))
        elif ev["op"] == "D":
            if f[1] != "0":
                r.events.append(dict(op="failed", code=f[1]))
                continue
            try:
                for b, crcs, hashes in stored(os.path.join(d, "db")):
                    r.events.append(dict(op="begin"))
                    r.events += feed(list(b))
                    r.events.append(dict(op="result", crcs=[w(x) for x in crcs], hashes=[[w(x) for x in hashes]] if hashes else []))
            except (ffile.BadFile, OSError, struct.error) as x:
                r.events.append(dict(op="badimage", why=str(x)))
    if len(out) >= len(sc.segs[0]) and code != 0:
        r.events.append(dict(op="died", code=str(code)))
    return r


FUNCS = Kind("CrcTrace", "Dummy = 0", "TView", run_funcs)


def rbytes(rng, n):
    m = rng.random()
    if m < .6:
        return bytes(rng.getrandbits(8) for _ in range(n))
    if m < .8:
        return bytes([rng.choice([0, 255, 128, 127, 1])]) * n
    return bytes(rng.choice([0, 0x80, 0xff, 0x41]) for _ in range(n))


def split(rng, b):
    k = rng.choice([0, 1, 1, 2, 3, 7])
    cuts = sorted(rng.randrange(len(b) + 1) for _ in range(k))
    return [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]


def inputs(rng, n):
    out = []
    sc = FScript("bytes")
    for b in range(256):                       # every table entry
        sc.string(bytes([b]))
    for ln in range(0, 41):                    # every residue of unrolled loops
        sc.string(rbytes(rng, ln))
    sc.string(b"123456789")
    for i in range(0, 10):
        sc.string(b"123456789"[:i], b"123456789"[i:])
    out.append(sc)
    sc = FScript("byte pairs")
    for _ in range(40):
        s = rbytes(rng, rng.randrange(2, 9))
        for i in range(len(s) + 1):
            sc.string(s[:i], s[i:])
    out.append(sc)
    for i in range(n):
        sc = FScript("strings %d" % i)
        for _ in range(20):
            ln = rng.choice([rng.randrange(20), rng.randrange(100), rng.randrange(600)])
            sc.string(*split(rng, rbytes(rng, ln)))
        out.append(sc)
    for i in range(max(1, n // 4)):
        sc = FScript("order %d" % i)
        for _ in range(60):
            a = rbytes(rng, rng.choice([0, 1, 2, 5, 9, 40]))
            t = rng.random()
            b = rbytes(rng, rng.choice([0, 1, 2, 5, 9, 40]))
            if t < .3 and a:
                j = rng.randrange(len(a)); b = a[:j] + bytes([a[j] ^ (1 << rng.randrange(8))]) + a[j + 1:]
            elif t < .5:
                b = a + rbytes(rng, rng.randrange(4))
            elif t < .7:
                b = a[:rng.randrange(len(a) + 1)]
            sc.order(a, b)
        out.append(sc)
    sc = FScript("logarithm and byte order")
    for k in range(31):
        for dlt in (-1, 0, 1):
            v = (1 << k) + dlt
            if 0 <= v <= 1 << 30:
                sc.log2(v)
    for k in range(16):
        for width in (2, 4, 8):
            sc.net(width, rng.getrandbits(8 * width))
    for width in (2, 4, 8):
        for k in range(8 * width):
            sc.net(width, 1 << k)
    out.append(sc)
    return out


def files(rng, n):
    out = []
    for i in range(n):
        sc = FScript("file %d" % i)
        sc.database(512, rng.choice([3, 9, 20]), rng.getrandbits(30))
        out.append(sc)
    return out
