"""Scenarios for the C++ layer: typed stores, ensembles, unions, merges.
Counterpart of vlib.Script / scen for spec/Store.tla and harness/sdrv.cpp."""
import os, subprocess
from vlib import *

STORE_KINDS = {"S": ("conf", "s"), "C": ("conf", "s"), "I": ("conf", "i"), "V": ("conf", "s"), "P": ("conf", "s"),
               "E": ("ens", "s"), "F": ("ens", "i")}
UNION_KINDS = {"S": ("mconf", "s"), "I": ("mconf", "i"), "E": ("mens", "s")}


class SScript:
    def __init__(self, tag="", fixlen=8):
        self.tag, self.note = tag, {}
        self.fixlen = fixlen
        self.keys = []                       # (mode, serialized length)
        self.vals = [("0", fixlen)]          # id 1 is the default datum
        self.segs = [[]]
        self.names = set(range(0, 9))
        self.dbs = {}                        # store -> database object
        self.kind = {}

    def key(self, n, mode="r"):
        self.keys.append((mode, n)); return len(self.keys)

    def val(self, n, mode="r"):
        self.vals.append((mode, n)); return len(self.vals)

    def add(self, line, ev):
        self.segs[-1].append((line, ev))

    def newproc(self):
        if self.segs[-1]:
            self.segs.append([])
        self.dbs, self.kind = {}, {}

    def new(self, s, kind, bs=512, nb=1, cache=0, rearr=0, umax=-1, ncfg=0, ctor=0, cfgs=()):
        k, cod = STORE_KINDS[kind]
        d = min(x for x in range(1, 9) if x not in self.dbs.values())
        self.dbs[s] = d; self.kind[s] = kind
        line = "NEW %d %s %d %d %d %d %d %d" % (s, kind, bs, nb, cache, rearr, umax, ncfg)
        if k == "ens":
            if ctor == 0:
                cfgs = []
            if ctor == 1:
                cfgs = [(c, 0) for c, _ in cfgs]
            line += " %d %d %s" % (ctor, len(cfgs), " ".join("%d %d" % x for x in cfgs))
            self.names |= set(n for _, n in cfgs)
        self.add(line, dict(op="new", s=s, d=d, kind=k, cod=cod, opt=dict(bs=bs, umax=umax, ncfg=0 if k == "ens" else ncfg, cache=2 ** 20 if cache == 70000 else cache), cfgs=[list(c) for c in cfgs]))

    def union(self, s, kind, fs):
        k, cod = UNION_KINDS[kind]
        self.kind[s] = "m" + kind
        self.add("UNION %d %s %d %s" % (s, kind, len(fs), " ".join(map(str, fs))), dict(op="union", s=s, kind=k, cod=cod, fs=list(fs)))

    def copy(self, s, t):
        self.dbs[t] = self.dbs[s]; self.kind[t] = self.kind[s]
        self.add("COPY %d %d" % (s, t), dict(op="copy", s=s, t=t))

    def delete(self, s):
        self.dbs.pop(s, None); self.kind.pop(s, None)
        self.add("DEL %d" % s, dict(op="del", s=s))

    def open(self, s, f, mode): self.add("OPEN %d %d %s" % (s, f, mode), dict(op="open", s=s, f=f, mode=mode))
    def close(self, s): self.add("CLOSE %d" % s, dict(op="close", s=s))
    def flush(self, s): self.add("FLUSH %d" % s, dict(op="flush", s=s))
    def name(self, s): self.add("NAME %d" % s, dict(op="name", s=s))
    def ins(self, s, k, v, how="t"): self.add("INS %d %s %d %d" % (s, how, k, v), dict(op="ins", s=s, k=k, v=v))
    def eins(self, s, k, vs, how="t"): self.add("EINS %d %s %d %d %s" % (s, how, k, len(vs), " ".join(map(str, vs))), dict(op="eins", s=s, k=k, vs=list(vs)))
    def upd(self, s, k, v, cf, ix): self.add("UPD %d %d %d %d %d" % (s, k, v, cf, ix), dict(op="upd", s=s, k=k, v=v, ix=ix))
    def done(self, s): self.add("DONE %d" % s, dict(op="done", s=s))
    def get(self, s, k, how="t"): self.add("GET %d %s %d" % (s, how, k), dict(op="get", s=s, k=k, how="b" if how == "b" else "t"))
    def exist(self, s, k): self.add("EXIST %d %d" % (s, k), dict(op="exist", s=s, k=k))
    def listing(self, s, how="t"): self.add("KEYS %d %s" % (s, how), dict(op="keys", s=s, how="b" if how == "b" else "t"))
    def pairs(self, s, how="t"): self.add("PAIRS %d %s" % (s, how), dict(op="pairs", s=s, how=how))
    def some(self, s): self.add("SOME %d" % s, dict(op="some", s=s))
    def eq(self, t, a, b, how="o"): self.add("EQ %s %s %d %d" % (t, how, a, b), dict(op="eq", a=a, b=b))
    def there(self, s, kind, fs): self.add("THERE %d %s %d %s" % (s, kind, len(fs), " ".join(map(str, fs))), dict(op="there", fs=list(fs)))
    def size(self, s): self.add("SIZE %d" % s, dict(op="size", s=s))
    def uset(self, s, v): self.add("USET %d %d" % (s, v), dict(op="uset", s=s, v=v))
    def uget(self, s): self.add("UGET %d" % s, dict(op="uget", s=s))
    def caps(self, s): self.add("CAPS %d" % s, dict(op="caps", s=s))

    def cset(self, s, ix, cf, nm, ins, tag):
        self.names.add(nm)
        self.add("CSET %d %d %d %d %d %d" % (s, ix, cf, nm, ins, tag), dict(op="cset", s=s, ix=ix, cf=cf, nm=nm, ins=ins, tag=tag))

    def cget(self, s, cf): self.add("CGET %d %d" % (s, cf), dict(op="cget", s=s, cf=cf))
    def call(self, s): self.add("CALL %d" % s, dict(op="call", s=s))

    def merge(self, s, ents, budget, ctor=2):
        self.add("MERGE %d %d %d %d %s" % (s, ctor, budget, len(ents), " ".join("%d %d %d" % x for x in ents)),
                 dict(op="merge", s=s, ents=[list(x) for x in ents], budget=budget))

    def digest(self, f): self.add("FSTAT %d" % f, dict(op="digest", f=f))
    def mem(self): self.add("MEM", dict(op="mem"))
    def res(self): self.add("RES", dict(op="res"))
    def kill(self): self.add("KILL", dict(op="kill")); self.newproc()

    def steps(self):
        return sum(len(x) for x in self.segs)


def run_store(exe, sc, d, timeout=60):
    os.makedirs(d, exist_ok=True)
    res = RunResult()
    decl = ["FIXLEN %d" % sc.fixlen]
    decl += ["KEY %d %s %d" % (i + 1, m, l) for i, (m, l) in enumerate(sc.keys)]
    decl += ["VAL %d %s %d" % (i + 1, m, l) for i, (m, l) in enumerate(sc.vals)]
    decl.append("NAMES " + " ".join(map(str, sorted(sc.names))))
    for si, seg in enumerate(sc.segs):
        if res.died:                 # afterwards only what nobody wrote is looked at
            seg = [x for x in seg if x[1]["op"] == "digest"]
        if not seg:
            continue
        sf, of, ef = [os.path.join(d, "%s%d.txt" % (x, si)) for x in "soe"]
        with open(sf, "w") as fp:
            fp.write("\n".join(decl + [s[0] for s in seg]) + "\n")
        hang = False
        p = subprocess.Popen([exe, sf, of], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(ef, "w"), env=RUN_ENV)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = None; hang = True
        if rc == 90:
            raise ToolError("driver failed on %s: %s" % (sc.tag, open(ef, errors="replace").read()[-500:]))
        outs, ended = {}, False
        with open(of) as fp:
            for l in fp:
                w = l.split()
                if len(w) > 1 and w[1] == "END":
                    ended = True
                elif l.endswith("\n"):
                    outs[int(w[0])] = w[1:]
        last = None
        for j, (line, ev) in enumerate(seg):
            n = len(decl) + j + 1
            if n not in outs:
                last = ev
                break
            res.events.append(store_event(ev, outs[n]))
        if seg[-1][0] == "KILL" and last is None:
            continue
        if ended and last is None:
            res.events.append(dict(op="kill"))
            if rc != 0:
                res.events.append(dict(op="died", why="memory", inop="exit", s=0, n=0, ents=[]))
                res.stderr = open(ef, errors="replace").read()[-3000:]
                break
            continue
        why = "hang" if hang else "report" if rc in (1, 123, 143) else "memory" if rc == 99 else "crash"
        last = last or {}
        res.events.append(dict(op="died", why=why, code=rc if rc is not None else -999, inop=last.get("op", "none"), s=last.get("s", 0),
                               n=len(last.get("vs", [])), ents=last.get("ents", [])))
        res.stderr = open(ef, errors="replace").read()[-3000:]
        res.died = why
        res.hang = hang
        if why != "report":
            break
    res.reset = dict(op="reset", kl=[l for _, l in sc.keys], vl=[l for _, l in sc.vals],
                     kd=[0 if m == "x" else 1 for m, _ in sc.keys], vd=[0 if m == "x" else 1 for m, _ in sc.vals])
    return res


def store_event(ev, o):
    e = dict(ev)
    op = e["op"]
    if op == "digest":
        e["d"] = o[0]
        return e
    if op in ("pairs", "some"):
        parts = " ".join(o).split(";")
        h = [int(x) for x in parts[0].split()]
        e["thrown"], e["ks"] = h[0], h[1:]
        e["vss"] = [[int(x) for x in p.split()] for p in parts[1:-1]]
        return e
    x = [int(t) for t in o]
    if op in ("open", "close", "union", "ins", "eins", "upd", "uset", "cset"): e["rc"] = x[0]
    elif op == "name": e["f"] = x[0]
    elif op == "get": e["rc"] = x[0]; e["vs"] = x[1:]
    elif op in ("exist", "there"): e["yes"] = x[0]
    elif op == "keys": e["thrown"] = x[0]; e["ks"] = x[1:]
    elif op == "eq": e["eq"], e["ne"] = x
    elif op == "size": e["n"] = x[0]
    elif op == "mem": e["bytes"] = x[0]
    elif op == "merge": e["peak"] = x[0]
    elif op == "uget": e["rc"] = x[0]; e["v"] = x[1]
    elif op == "res": e["fds"], e["live"] = x
    elif op == "caps": e["um"], e["nc"] = x
    elif op == "cget":
        e["rc"] = x[0]; e["ix"] = x[1] if len(x) > 1 else -1; e["c"] = x[2:]
    elif op == "call": e["rc"] = x[0]; e["cs"] = [x[i:i + 5] for i in range(1, len(x), 5)]
    return e


STORE = Kind("StoreTrace", "NF = 8 NS = 8 ND = 8", "TView", run_store)


# -------------------------------------------------------------------- inputs
def keylen(rng, bs):
    return rng.choice([4, 5, 6, 7, 8, 9, 12, 12, 16, 16, 24, 33, bs // 8, bs // 2, bs - 57, bs - 56, bs - 55, bs + 3])


def mkkeys(rng, sc, n, bs, raw=0.0, fit=False):
    """distinct keys; raw ones do not decode as the typed class"""
    empty, out, rawlens = False, [], set()
    while len(out) < n:
        l = keylen(rng, bs)
        if fit and l > bs - 56:
            continue
        if rng.random() < raw:
            l = rng.choice([1, 2, 3])
            if l in rawlens:
                continue
            rawlens.add(l)
            out.append(sc.key(l, "x"))
            continue
        if l == 4:
            if empty:
                continue
            empty = True
        mode = "r" if l >= 11 else "b"
        if l >= 9 and rng.random() < 0.4:
            mode = rng.choice(["p", "b"])
        out.append(sc.key(l, mode))
    return out


def mkvals(rng, sc, n, bs, kind, raw=0.0):
    """distinct data of the class of a store kind"""
    out, seen = [], set([sc.fixlen])
    tries = 0
    while len(out) < n:
        tries += 1
        l = rng.choice([0, 0, 1, 2, 4, 5, 6, 9, 12, 13, 20, 40, 40, 64, 100, bs // 2, bs - 90, bs - 60, bs - 52, bs - 31, bs, bs + 17, 2 * bs - 84, 3 * bs, 5 * bs + 1])
        if kind == "V":
            l = 8 + 4 * (l // 4)
        if kind in ("S", "P", "V"):
            l = max(l, 4 if kind != "V" else 8)
        if kind == "S" and rng.random() < raw / 3:
            l = rng.choice([0, 1, 3])
        if (kind == "V" or l < 11) and l in seen:
            if tries > 200:
                break
            continue
        seen.add(l)
        if kind == "S" and (l < 4 or rng.random() < raw):
            out.append(sc.val(l, "x"))
        else:
            out.append(sc.val(l, "z" if l >= 20 and rng.random() < 0.2 else "r"))
    return out


def fixvals(rng, sc, n):
    return [1] + [sc.val(sc.fixlen) for _ in range(n)]


CACHES = [0, 0, 1, 1, 3000, 70000]
def mkopts(rng, bs):
    return dict(bs=bs, nb=rng.choice([1, 1, 2, 7]), cache=rng.choice(CACHES), rearr=rng.choice([0, 1]), umax=rng.choice([-1, -1, 0, 10, 100, 700]), ncfg=rng.choice([0, 0, 1, 3]))


def look(rng, sc, s, keys, deep=False):
    """ask a store for everything it can tell"""
    kind = sc.kind[s]
    ks = list(keys) if deep else rng.sample(keys, min(len(keys), 6))
    for k in ks:
        raw = sc.keys[k - 1][0] == "x"
        hows = {"S": "tb", "C": "tb", "I": "tb", "V": "tb", "P": "t", "E": "tsb", "F": "tsb", "mS": "tb", "mI": "tb", "mE": "t"}[kind]
        how = rng.choice(hows)
        if raw:
            if "b" not in hows:
                continue
            how = "b"
        sc.get(s, k, how)
        if not raw and rng.random() < 0.5:
            sc.exist(s, k)
    if kind in "SCIV":
        sc.listing(s, rng.choice("tb")); sc.pairs(s, rng.choice("tsb"))
        if rng.random() < 0.3: sc.some(s)
    elif kind == "P":
        sc.listing(s, "t"); sc.pairs(s, "t")
    elif kind in "EF":
        sc.listing(s, rng.choice("tbij")); sc.pairs(s, rng.choice("ts")); sc.size(s); sc.call(s)
    elif kind in ("mS", "mI"):
        sc.listing(s, "t")
    if rng.random() < 0.6 or deep:
        sc.uget(s)
    if kind in "SCIVPEF" and (deep or rng.random() < 0.3):
        sc.caps(s)
        if kind != "P":
            sc.name(s)


# -------------------------------------------------------------------- families
def conf_sessions(rng, n, raw=0.0):
    """one or two files, several store objects and processes"""
    out = []
    for i in range(n):
        sc = SScript("conf%d" % i)
        bs = rng.choice([512, 512, 512, 1024, 4096])
        kind = rng.choice("SSCIVP")
        r = raw if kind == "S" else (raw if kind in "CI" else 0)
        keys = mkkeys(rng, sc, rng.choice([3, 10, 30, 60]), bs, raw=r if kind != "P" else 0)
        vals = mkvals(rng, sc, rng.choice([4, 12]), bs, kind, raw=r if kind == "S" else 0)
        if rng.random() < 0.12: vals += [sc.val(x) for x in (65540, 70000, 300008)]
        us = [sc.val(x) for x in (11, 12, 99, 101, 700, 4000)]
        twin = {"S": "P", "P": "S"}.get(kind, kind)
        o = mkopts(rng, bs)
        first = True
        for p in range(rng.choice([1, 2, 4])):
            sc.newproc()
            kd = kind if first or twin == kind or r else rng.choice([kind, twin])
            sc.new(1, kd, **o)
            if rng.random() < 0.3 and kd != "P":   # operations on a closed store
                sc.ins(1, rng.choice([k for k in keys if sc.keys[k - 1][0] != "x"] or keys), rng.choice([v for v in vals if sc.vals[v - 1][0] != "x"] or [1]), "t") if any(sc.keys[k - 1][0] != "x" for k in keys) and any(sc.vals[v - 1][0] != "x" for v in vals) else None
                look(rng, sc, 1, keys)
                sc.uset(1, us[0]); sc.flush(1)
            if rng.random() < 0.3: sc.there(1, kd, [1])
            sc.open(1, 1, rng.choice("ct") if first else rng.choice("wwcr"))
            if rng.random() < 0.3: sc.there(1, kd, [1]); sc.there(1, kd, [7])
            copies = [1]
            for _ in range(rng.choice([5, 20, 80])):
                x = rng.random()
                s = rng.choice(copies)
                if x < 0.6:
                    k, v = rng.choice(keys), rng.choice(vals)
                    rk, rv = sc.keys[k - 1][0] == "x", sc.vals[v - 1][0] == "x"
                    hows = "t" if kd == "P" else ("b" if rv else "sb" if rk else "tsb")
                    sc.ins(s, k, v, rng.choice(hows))
                elif x < 0.8: look(rng, sc, s, keys)
                elif x < 0.85: sc.uset(s, rng.choice(us))
                elif x < 0.9: sc.flush(s)
                elif x < 0.92 and len(copies) < 3:
                    t = max(copies) + 1
                    sc.copy(s, t); copies.append(t)
                elif x < 0.94 and len(copies) > 1:
                    copies.remove(s); sc.delete(s)
                elif x < 0.96:
                    sc.close(s)
                    if kd != "P" and rng.random() < 0.5: look(rng, sc, s, keys)
                    sc.open(s, 1, rng.choice("wwr"))
                elif x < 0.97:
                    sc.flush(s); sc.open(s, 1, rng.choice("wwr"))
            first = False
            look(rng, sc, copies[0], keys, deep=True)
            if rng.random() < 0.3:
                sc.flush(copies[0]); sc.kill()
            else:
                sc.close(copies[0]) if rng.random() < 0.5 else [sc.delete(c) for c in list(copies)]
        sc.newproc()
        sc.new(1, kind, bs=rng.choice([512, 2048]), cache=rng.choice(CACHES))
        sc.open(1, 1, "r"); look(rng, sc, 1, keys, deep=True); sc.close(1)
        out.append(sc)
    return out


def has_nan(v, length):
    """as vfloat in sdrv.cpp"""
    js = [0] if v % 5 == 2 else range((length - 8) // 4)
    return any((v + 5 * j) % 4 == 1 and (v + 5 * j) // 4 % 7 in (4, 5) for j in js)


def equality(rng, n):
    """objects compared with one another: equal exactly if the same object was stored"""
    out = []
    for i in range(n):
        sc = SScript("eq%d" % i)
        keys = [sc.key(4)] + [sc.key(l, "z") for l in rng.sample(range(5, 40), 4)] + [sc.key(rng.choice([9, 12, 20, 60]), m) for m in "bbpprr"]
        vals = [1] + [sc.val(l, "0") for l in rng.sample(range(9, 40), 3)] + [sc.val(rng.choice([23, 24, 60, 61, 700]), m) for m in "zzzzrr"]
        fl = [sc.val(l) for l in rng.sample(range(8, 80, 4), 6)]
        fl = [v for v in fl if not has_nan(v, sc.vals[v - 1][1])]      # what is not a number equals nothing
        for t, ids in (("k", keys), ("u", vals), ("v", fl)):
            for a in ids:
                for b in ids:
                    sc.eq(t, a, b, rng.choice("osap" if t != "v" else "osa"))
        out.append(sc)
    return out


def conf_bulk(rng, n, count):
    """many entries with typed access"""
    out = []
    for i in range(n):
        sc = SScript("bulk%d" % i)
        kind = rng.choice("SCIV")
        keys = [sc.key(rng.choice([12, 16, 20])) for _ in range(count)]
        vals = mkvals(rng, sc, 10, 512, kind)
        sc.new(1, kind, bs=rng.choice([512, 1024]), cache=rng.choice(CACHES), rearr=1)
        sc.open(1, 1, "c")
        for k in keys:
            sc.ins(1, k, rng.choice(vals), rng.choice("tsb"))
        sc.pairs(1, "t"); sc.pairs(1, "b"); sc.listing(1, "t"); sc.delete(1)
        sc.newproc()
        sc.new(1, kind); sc.open(1, 1, "r"); sc.pairs(1, "s"); sc.listing(1, "b")
        for k in rng.sample(keys, 40): sc.get(1, k, rng.choice("tb"))
        sc.close(1)
        out.append(sc)
    return out


def unions(rng, n):
    out = []
    for i in range(n):
        kind = rng.choice("SSIE")
        sc = SScript("union%d" % i, fixlen=rng.choice([8, 40]))
        bs = 512
        keys = mkkeys(rng, sc, rng.choice([4, 12, 30]), bs, fit=True)
        vals = mkvals(rng, sc, 8, bs, kind) if kind != "E" else fixvals(rng, sc, 8)
        us = [sc.val(x) for x in (11, 99)]
        nf = rng.choice([1, 2, 3, 4])
        cfgs = [(rng.choice([3, 10]) + 7 * j, 0) for j in range(rng.choice([1, 2, 4]))]
        for f in range(1, nf + 1):
            if kind == "E":
                sc.new(1, "E", bs=bs, ctor=1, cfgs=cfgs)
            else:
                sc.new(1, kind, bs=bs)
            sc.open(1, f, "c")
            for k in rng.sample(keys, rng.randint(0 if kind != "E" else 1, len(keys))):
                if kind == "E": sc.eins(1, k, [rng.choice(vals) for _ in cfgs], rng.choice("tsb"))
                else: sc.ins(1, k, rng.choice(vals), rng.choice("tsb"))
            if rng.random() < 0.7: sc.uset(1, rng.choice(us))
            if rng.random() < 0.2:
                sc.close(1)
            sc.delete(1)
        if rng.random() < 0.3: sc.newproc()
        for f in range(1, nf + 1): sc.digest(f)
        fs = [rng.randint(1, nf) for _ in range(rng.randint(1, 4))] if rng.random() < 0.3 else rng.sample(range(1, nf + 1), nf)
        if rng.random() < 0.15: fs.insert(rng.randint(0, len(fs)), 8)
        for _ in range(3):
            fx = list(fs)
            if rng.random() < 0.5: fx[rng.randrange(len(fx))] = rng.choice([7, 8])
            sc.there(0, rng.choice("MN"), fx); sc.there(0, rng.choice("SPE"), fx[:1])
        sc.union(2, kind, fs)
        if 8 not in fs:
            sc.there(2, "M", fs); sc.there(2, "M", fs + [7]); sc.there(2, "M", [7] + fs[1:])
            sc.caps(2)
            look(rng, sc, 2, keys, deep=True)
            for f in range(1, nf + 1): sc.digest(f)
            if rng.random() < 0.5: sc.close(2)
            sc.delete(2)
            sc.union(2, kind, fs[::-1]); look(rng, sc, 2, keys, deep=True)
        for f in range(1, nf + 1): sc.digest(f)
        out.append(sc)
    return out


def mkcfgs(rng, n, names=True):
    base = rng.choice([0, 1, 100, 5000])
    step = rng.choice([1, 7, 100])
    c = [base + step * j for j in range(n)]
    if rng.random() < 0.4: rng.shuffle(c)
    return [(x, rng.choice([0, 100 + rng.randint(0, 60), 100 + rng.randint(0, 60)]) if names else 0) for x in c]


def ensembles(rng, n, big=False):
    """inserts, updates, listings, configuration records, several sessions"""
    out = []
    for i in range(n):
        sc = SScript("ens%d" % i, fixlen=rng.choice([1, 4, 8, 24, 100, 333]))
        kind = rng.choice("EEF")
        bs = rng.choice([512, 512, 1024, 4096])
        keys = mkkeys(rng, sc, rng.choice([1, 3, 10, 25]), bs)
        vals = fixvals(rng, sc, 6) if sc.fixlen >= 8 else [1]
        if sc.fixlen == 1: vals = [1, sc.val(1)]
        if sc.fixlen == 4: vals = [1, sc.val(4), sc.val(4)]
        odds = [sc.val(sc.fixlen + 1), sc.val(sc.fixlen - 1)] + ([sc.val(sc.fixlen // 2)] if sc.fixlen >= 8 else [])
        us = [sc.val(x) for x in (11, 50, 99, 101, 700)]
        nc = rng.choice([1, 2, 3, 5, 8, 20, 60] if big else [1, 2, 3, 5])
        cfgs = mkcfgs(rng, nc)
        ctor = rng.choice([1, 2, 2])
        o = mkopts(rng, bs)
        o["umax"] = rng.choice([-1, 50, 100])
        first = True
        for p in range(rng.choice([1, 2, 3])):
            sc.newproc()
            if first:
                sc.new(1, kind, ctor=ctor, cfgs=cfgs, **o)
                sc.open(1, 1, rng.choice("ct"))
                if rng.random() < 0.3:                 # reopened before anything was stored
                    sc.close(1); sc.open(1, 1, "w")
                sc.eins(1, keys[0], [rng.choice(vals) for _ in cfgs]) if sc.keys[keys[0] - 1][1] <= bs - 56 else None
            else:
                z = rng.choice([0, 0, 1, 2])
                sc.new(1, kind, ctor=z, cfgs=mkcfgs(rng, rng.choice([nc, 2])) if z else (), **o)
                sc.open(1, 1, rng.choice("wwcr"))
            ro = sc.segs[-1][-1][0].endswith(" r")
            copies = [1]
            for _ in range(rng.choice([4, 15, 50])):
                x, s = rng.random(), rng.choice(copies)
                if x < 0.3: sc.eins(s, rng.choice(keys), [rng.choice(vals) for _ in cfgs], rng.choice("tsb"))
                elif x < 0.55:
                    ix = rng.randrange(nc)
                    sc.upd(s, rng.choice(keys), rng.choice(vals), cfgs[ix][0], ix)
                elif x < 0.58:
                    ix = rng.randrange(nc)
                    sc.upd(s, keys[0], rng.choice(odds), cfgs[ix][0], ix) if sc.keys[keys[0] - 1][1] <= bs - 56 else None
                elif x < 0.59:
                    sc.upd(s, rng.choice(keys), rng.choice(vals), cfgs[0][0], rng.choice([-1, -3, nc, nc + 1, nc + 50, 2 ** 31 - 1]))
                elif x < 0.60: sc.done(s)
                elif x < 0.75: look(rng, sc, s, keys)
                elif x < 0.80:
                    ix = rng.randrange(-1, nc + 1)
                    cf = cfgs[ix][0] if 0 <= ix < nc and rng.random() < 0.8 else 77777
                    sc.cset(s, ix, cf, rng.choice([0, 110, 131, 143, 145, 103]), rng.choice([0, 1]), rng.randint(1, 900))
                elif x < 0.85: sc.cget(s, rng.choice([c for c, _ in cfgs] + [77777]))
                elif x < 0.88: sc.uset(s, rng.choice(us))
                elif x < 0.91: sc.flush(s)
                elif x < 0.93 and len(copies) < 3:
                    t = max(copies) + 1
                    sc.copy(s, t); copies.append(t)
                elif x < 0.96 and sc.keys[keys[0] - 1][1] <= bs - 56:
                    sc.close(s); sc.open(s, 1, rng.choice("wwr"))
            first = False
            look(rng, sc, 1, keys, deep=True)
            sc.call(1); sc.cget(1, cfgs[0][0])
            y = rng.random()
            if y < 0.3: sc.flush(1); sc.kill()
            elif y < 0.6: sc.close(1)
            else: [sc.delete(c) for c in copies]
            if not (sc.keys[keys[0] - 1][1] <= bs - 56):
                break
        sc.newproc()
        if sc.keys[keys[0] - 1][1] <= bs - 56:
            sc.new(2, kind); sc.open(2, 1, rng.choice("rw")); look(rng, sc, 2, keys, deep=True)
            if rng.random() < 0.4: sc.eins(2, rng.choice([keys[0], sc.key(9)]), [1] * rng.choice([nc + 1, nc - 1, 2 * nc, 0]), rng.choice("tsb"))   # ends the program
        out.append(sc)
    return out


def wide(rng, n):
    """ensembles of hundreds of configurations"""
    out = []
    for i in range(n):
        sc = SScript("wide%d" % i, fixlen=[8, 13, 400][i % 3])
        nc = rng.choice([257, 300])
        keys = [sc.key(rng.choice([12, 20])) for _ in range(3)]
        vals = fixvals(rng, sc, 5)
        cfgs = [(1000 + 10 * j, rng.choice([0, 100 + j])) for j in range(nc)]
        sc.new(1, "E", bs=rng.choice([512, 4096]), ctor=2, cfgs=cfgs)
        sc.open(1, 1, "c")
        sc.eins(1, keys[0], [rng.choice(vals) for _ in cfgs], rng.choice("tsb"))
        for ix in (0, 1, 127, 128, 255, 256, nc - 1):
            sc.upd(1, keys[0], rng.choice(vals), cfgs[ix][0], ix)
        sc.upd(1, keys[1], vals[2], cfgs[256][0], 256)
        sc.get(1, keys[0], "t"); sc.get(1, keys[1], "b"); sc.size(1)
        for ix in (255, 256, nc - 1):
            sc.cset(1, ix, cfgs[ix][0], rng.choice([103, 131]), 1, ix + 1)
        sc.call(1)
        for ix in (0, 256, nc - 1): sc.cget(1, cfgs[ix][0])
        sc.delete(1)
        sc.newproc()
        sc.new(2, "E"); sc.open(2, 1, "w"); sc.size(2); sc.call(2)
        sc.upd(2, keys[1], vals[3], cfgs[nc - 1][0], nc - 1); sc.pairs(2, "t"); sc.get(2, keys[2]); sc.close(2)
        out.append(sc)
    return out


def merges(rng, n, budgets=None):
    out = []
    for i in range(n):
        sc = SScript("merge%d" % i, fixlen=rng.choice([1, 8, 8, 40, 200, 700]))
        kind, ek = rng.choice([("C", "E"), ("C", "E"), ("I", "F")])
        bs = rng.choice([512, 512, 1024])
        keys = mkkeys(rng, sc, rng.choice([1, 2, 5, 16, 40]), bs, fit=True)
        vals = fixvals(rng, sc, 8) if sc.fixlen > 1 else [1, sc.val(1)]
        nf = rng.choice([1, 2, 3, 5, 7])
        base = rng.sample(keys, rng.randint(1, len(keys)))
        have = {}
        for f in range(1, nf + 1):
            sc.new(1, kind, bs=rng.choice([512, bs]), nb=rng.choice([1, 3]), rearr=rng.choice([0, 1]))
            sc.open(1, f, "c")
            ks = list(base)
            if f > 1 and rng.random() < 0.4: ks = ks + [k for k in keys if k not in base and rng.random() < 0.5]
            if rng.random() < 0.025 and len(ks) > 1: ks = ks[:-1]        # a missing key: refused
            rng.shuffle(ks)
            for k in ks: sc.ins(1, k, rng.choice(vals), rng.choice("tsb"))
            sc.delete(1)
        nc = rng.choice([nf, nf, nf, nf + 1, nf + 2, max(1, nf - 1)])
        cf = [x for x, _ in mkcfgs(rng, nc, False)]
        fl = list(range(1, nf + 1))[:nc]
        rng.shuffle(fl)
        fs = fl + [0] * (nc - len(fl))
        if rng.random() < 0.5: rng.shuffle(fs)
        if rng.random() < 0.1: fs[rng.randrange(nc)] = rng.choice([0, 6 if nf < 6 else 0])   # absent file or none
        if rng.random() < 0.1 and nc > 1: fs[0] = fs[1]                              # one file for two configurations
        ctor = rng.choice([1, 2])
        ents = [(j, cf[j], fs[j]) for j in range(nc)]
        if ctor == 1 and rng.random() < 0.5:
            perm = list(range(nc)); rng.shuffle(perm)
            ents = [(perm[j], cf[perm[j]], fs[j]) for j in range(nc)]
        for f in range(1, nf + 1): sc.digest(f)
        if rng.random() < 0.3: sc.newproc()
        esz = sc.fixlen
        budget = rng.choice(budgets) if budgets else rng.choice([0, 1, esz, esz * nc, esz * nc * 2, esz * nc * max(1, len(base) - 1), esz * nc * len(base), 10000, 10 ** 6, 2 ** 30])
        sc.note = dict(budget=budget, nf=nf, nc=nc, keys=len(base), fixlen=sc.fixlen)
        ec = rng.choice([1, 2])
        dup = len(set(cf)) < nc
        sc.new(5, ek, bs=rng.choice([512, bs, bs, bs, bs]), cache=rng.choice(CACHES), rearr=rng.choice([0, 1]), ctor=ec, cfgs=[(c, 0) for c in cf])
        sc.open(5, 8, rng.choice("ct"))
        sc.merge(5, ents, budget, ctor)
        look(rng, sc, 5, keys, deep=True); sc.call(5)
        for c in cf[:3]: sc.cget(5, c)
        for f in range(1, nf + 1): sc.digest(f)
        if rng.random() < 0.4:
            sc.upd(5, rng.choice(base), rng.choice(vals), cf[0], 0)
            look(rng, sc, 5, keys)
        sc.delete(5)
        sc.newproc()
        sc.new(5, ek); sc.open(5, 8, "r"); look(rng, sc, 5, keys, deep=True); sc.call(5)
        for f in range(1, nf + 1): sc.digest(f)
        out.append(sc)
    return out


def merge_budgets(rng, nk, nf, step=1):
    """one set of inputs, every chunk size: budgets around every multiple of an element's size"""
    out = []
    fix = rng.choice([8, 20])
    for b in range(0, nk + 3):
        for d in (-1, 0, 1):
            sc = SScript("budget%d_%d" % (b, d), fixlen=fix)
            keys = [sc.key(16) for _ in range(nk)]
            vals = fixvals(rng, sc, 9)
            for f in range(1, nf + 1):
                sc.new(1, "C", bs=512); sc.open(1, f, "c")
                for k in keys: sc.ins(1, k, rng.choice(vals))
                sc.delete(1)
            asize = (16 + fix) * nf
            sc.new(2, "E", bs=512, ctor=1, cfgs=[(10 * j, 0) for j in range(nf)])
            sc.open(2, 8, "c")
            sc.merge(2, [(j, 10 * j, j + 1) for j in range(nf)], max(0, asize * b + d))
            sc.pairs(2, "t"); sc.call(2); sc.delete(2)
            out.append(sc)
    return out


def merge_many(rng, n):
    """hundreds of keys in hundreds of chunks"""
    out = []
    for i in range(n):
        fix = rng.choice([8, 20])
        sc = SScript("mergemany%d" % i, fixlen=fix)
        nk, nf = rng.choice([300, 520, 700]), rng.choice([2, 3])
        keys = [sc.key(16) for _ in range(nk)]
        vals = fixvals(rng, sc, 9)
        for f in range(1, nf + 1):
            sc.new(1, "C", bs=512); sc.open(1, f, "c")
            ks = list(keys); rng.shuffle(ks)
            for k in ks: sc.ins(1, k, rng.choice(vals))
            sc.delete(1)
        budget = [1, fix * nf * 2, (16 + fix) * nf * 257, 10 ** 7][i % 4]
        sc.note = dict(keys=nk, files=nf, budget=budget)
        sc.new(2, "E", bs=512, ctor=1, cfgs=[(10 * j, 0) for j in range(nf)])
        sc.open(2, 8, "c")
        sc.merge(2, [(j, 10 * j, j + 1) for j in range(nf)], budget)
        sc.pairs(2, "t"); sc.call(2); sc.delete(2)
        out.append(sc)
    return out


def released(rng, n):
    """the same work several times; when every store object is gone nothing is left"""
    out = []
    for i in range(n):
        sc = SScript("released%d" % i, fixlen=rng.choice([8, 40, 300]))
        bs = rng.choice([512, 1024])
        what = rng.choice(["conf", "conf", "simple", "ens", "union", "merge"])
        keys = mkkeys(rng, sc, rng.choice([3, 12, 30]), bs, raw=0.2 if what == "conf" else 0, fit=what in ("merge", "union"))
        good = [k for k in keys if sc.keys[k - 1][0] != "x"]
        kind = rng.choice("SCIV") if what == "conf" else "S"
        vals = mkvals(rng, sc, 8, bs, kind, raw=0.2) if what in ("conf", "simple", "union") and kind != "C" and kind != "I" else fixvals(rng, sc, 5)
        if what in ("ens", "merge"): vals = fixvals(rng, sc, 5)
        us = sc.val(20)
        cfgs = mkcfgs(rng, rng.choice([1, 2, 5]))
        seed = rng.random()
        for rnd in range(4):
            r = random.Random(seed)
            if what in ("conf", "simple"):
                kd = "P" if what == "simple" else kind
                sc.new(1, kd, bs=bs, cache=r.choice(CACHES), rearr=r.choice([0, 1]))
                sc.open(1, 1, "t")
                for k in keys:
                    v = r.choice(vals)
                    rk, rv = sc.keys[k - 1][0] == "x", sc.vals[v - 1][0] == "x"
                    if kd == "P" and (rk or rv): continue
                    sc.ins(1, k, v, "t" if kd == "P" else r.choice("b" if rv else "sb" if rk else "tsb"))
                look(r, sc, 1, good if kd == "P" else keys, deep=True)
                if kd != "P":
                    sc.pairs(1, "t"); sc.listing(1, "t"); sc.some(1); sc.pairs(1, "s")
                sc.uset(1, us); sc.uget(1)
                if r.random() < 0.4: sc.copy(1, 2); sc.delete(1); look(r, sc, 2, good if kd == "P" else keys); sc.delete(2)
                else:
                    if r.random() < 0.3: sc.close(1)
                    if r.random() < 0.3: sc.open(1, 1, "r"); sc.open(1, 1, "w"); sc.open(1, 7, "r")
                    sc.delete(1)
            elif what == "ens":
                sc.new(1, "E", bs=bs, ctor=2, cfgs=cfgs)
                sc.open(1, 1, "t")
                for k in keys: sc.eins(1, k, [r.choice(vals) for _ in cfgs], r.choice("tsb"))
                for k in keys: sc.upd(1, k, r.choice(vals), cfgs[0][0], 0)
                look(r, sc, 1, keys, deep=True); sc.listing(1, "i"); sc.listing(1, "j"); sc.call(1); sc.cget(1, cfgs[0][0])
                if r.random() < 0.5: sc.copy(1, 2); sc.delete(2)
                sc.delete(1)
                if any(sc.keys[k - 1][1] <= bs - 56 for k in keys):
                    sc.new(1, "E", ctor=r.choice([0, 2]), cfgs=cfgs); sc.open(1, 1, "r"); look(r, sc, 1, keys)
                    if r.random() < 0.5: sc.close(1)
                    sc.delete(1)
            elif what == "union":
                for f in (1, 2):
                    sc.new(1, "S", bs=bs); sc.open(1, f, "t")
                    for k in r.sample(keys, len(keys) // 2 + 1):
                        v = r.choice(vals)
                        sc.ins(1, k, v, "b" if sc.vals[v - 1][0] == "x" else "t")
                    sc.delete(1)
                sc.union(3, "S", [1, 2])
                for k in keys: sc.get(3, k, "b")
                sc.listing(3); sc.uget(3)
                if r.random() < 0.5: sc.close(3)
                sc.delete(3)
                sc.union(3, "S", [1, 7])
            else:
                for f in (1, 2):
                    sc.new(1, "C", bs=bs); sc.open(1, f, "t")
                    for k in keys: sc.ins(1, k, r.choice(vals))
                    sc.delete(1)
                sc.new(1, "E", bs=bs, ctor=1, cfgs=[(3, 0), (4, 0)])
                sc.open(1, 3, "t")
                sc.merge(1, [(0, 3, 1), (1, 4, 2)], r.choice([0, 100, 10000]))
                look(r, sc, 1, keys); sc.delete(1)
            if rnd > 0: sc.res()
        sc.note = dict(what=what, kind=kind)
        out.append(sc)
    return out


def bounded(rng, n):
    """what stores hold while much more than their caches is stored and read"""
    out = []
    for i in range(n):
        sc = SScript("bounded%d" % i, fixlen=rng.choice([40, 700]))
        kind = "SCIPVEF"[i % 7]
        ens = kind in "EF"
        bs = rng.choice([512, 1024, 4096])
        cache = rng.choice([1, 40 * bs, 70000])
        nc = rng.choice([1, 5, 12])
        cfgs = mkcfgs(rng, nc)
        keys = [sc.key(rng.choice([12, 16, 20])) for _ in range(300 if cache != 70000 else 700)]
        vals = fixvals(rng, sc, 5) if ens or kind in "CI" else [sc.val(x) for x in ((1208, 2008, 4048) if cache != 70000 else (4048, 6008))]
        sc.note = dict(kind=kind, bs=bs, cache=cache)
        for ses in range(rng.choice([1, 2])):
            sc.new(1, kind, bs=bs, nb=rng.choice([1, 30]), cache=cache, rearr=rng.choice([0, 1]), ctor=2, cfgs=cfgs if ens else ())
            sc.mem()
            sc.open(1, 1, "w" if ses else "c"); sc.mem()
            for j in range(0, len(keys), 100):
                for k in keys[j:j + 100]:
                    if ens: sc.eins(1, k, [rng.choice(vals) for _ in cfgs], rng.choice("tsb"))
                    else: sc.ins(1, k, rng.choice(vals), "t" if kind == "P" else rng.choice("tsb"))
                sc.mem()
                look(rng, sc, 1, keys); sc.mem()
                if rng.random() < 0.2: sc.flush(1); sc.mem()
                if ens and rng.random() < 0.5:
                    for k in rng.sample(keys[:j + 1], min(j + 1, 30)): sc.upd(1, k, rng.choice(vals), cfgs[0][0], 0)
                    sc.mem()
            if rng.random() < 0.3:
                sc.copy(1, 2); sc.get(2, keys[0]); sc.mem(); sc.delete(1); sc.mem(); sc.delete(2)
            else:
                if rng.random() < 0.5: sc.close(1); sc.mem()
                sc.delete(1)
        sc.newproc()
        sc.new(1, kind, cache=cache, ctor=0); sc.open(1, 1, "r"); sc.mem()
        for k in keys: sc.get(1, k, "t" if kind == "P" else rng.choice("tb"))
        sc.mem(); sc.listing(1); sc.mem(); sc.pairs(1); sc.mem(); sc.delete(1)
        out.append(sc)
    return out


def merge_bounded(rng, n):
    """merges of much more than their memory budget; of many configurations (one file may serve several)"""
    out = []
    for i in range(n):
        sc = SScript("mergebounded%d" % i, fixlen=rng.choice([4000, 7000]))
        nf, nk = 7, rng.choice([200, 300])
        nc = 40 if i % 4 == 1 else nf
        if nc > nf: nf, nk = 2, 200
        keys = [sc.key(16) for _ in range(nk)]
        vals = fixvals(rng, sc, 6)
        for f in range(1, nf + 1):
            sc.new(1, "C", bs=4096); sc.open(1, f, "c")
            for k in keys: sc.ins(1, k, rng.choice(vals))
            sc.delete(1)
        budget = [1, (16 + sc.fixlen) * nc * rng.choice([2, 7, 20] if nc < 20 else [2]), 10 ** 6][i % 3]
        sc.note = dict(keys=nk, files=nf, configurations=nc, budget=budget, fixlen=sc.fixlen)
        sc.new(2, "E", bs=4096, cache=rng.choice([1, 100000]), ctor=1, cfgs=[(10 * j, 0) for j in range(nc)])
        sc.open(2, 8, "c")
        sc.merge(2, [(j, 10 * j, 1 + j % nf) for j in range(nc)], budget)
        sc.mem()
        for k in rng.sample(keys, 20): sc.get(2, k)
        sc.delete(2)
        out.append(sc)
    return out


# -------------------------------------------------------------------- TLC-generated
BASE_OPS = ["new"] * 3 + ["open"] * 5 + ["close", "del", "copy", "flush", "look", "look", "get", "get", "uset", "flushkill", "digest", "miss"]
CONF_OPS = BASE_OPS + ["ins"] * 16 + ["union"] * 2 + ["kill"]
ENS_OPS = BASE_OPS + ["eins"] * 7 + ["upd"] * 8 + ["done"] + ["cset"] * 3 + ["kill"]
MERGE_OPS = BASE_OPS + ["ins"] * 22 + ["merge"] * 12 + ["upd"] * 2 + ["cset", "open", "open", "new"]


def generated(chk, num, ops, nconf=2, nf=3, depth=110, per=40, modes="ccccwwrt", stats=None):
    """behaviours chosen by TLC from the specification"""
    rng = chk.rng
    jobs = []
    while num > 0:
        n = min(num, per); num -= n
        cod = rng.choice("ssi")
        fix = rng.choice([8, 40, 300])
        bs = rng.choice([512, 1024])
        sc = SScript("x", fix)
        keys = mkkeys(rng, sc, rng.choice([2, 4, 8, 20]), bs, raw=0.1 if nconf == nf else 0)
        vals = [("0", fix)] + [("r", fix)] * 3
        if nconf == nf:
            vals += [("r", l) for l in (11, 60, bs - 52, bs, 3 * bs)]
        opts = []
        for _ in range(4):
            o = mkopts(rng, bs); opts.append(o)
        prof = dict(depth=depth, ops=ops, kl=[l for _, l in sc.keys], kd=[0 if m == "x" else 1 for m, _ in sc.keys], vl=[l for _, l in vals], opts=opts,
                    modes=list(modes), cod=cod, nconf=nconf, letters=["union"] if cod == "i" else ["none"], _keys=list(sc.keys), _vals=vals, _fix=fix)
        jobs.append((prof, n, rng.randrange(1 << 30)))

    def one(j):
        prof, n, seed = j
        return prof, gen_behaviours(chk.work, prof, n, seed, consts="NF = %d NS = 3 ND = 3" % nf, tag="sgen", module="StoreGen")
    with ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(one, jobs))
    res = []
    for prof, (behs, r) in outs:
        if stats is not None:
            stats["generated_behaviours"] = stats.get("generated_behaviours", 0) + len(behs)
            stats["generated_states"] = stats.get("generated_states", 0) + r["generated"]
        for b in behs:
            res.append(from_behaviour(rng, prof, b, "tlc%d" % len(res)))
    return res


def from_behaviour(rng, prof, b, tag):
    sc = SScript(tag, prof["_fix"])
    sc.keys, sc.vals = list(prof["_keys"]), list(prof["_vals"])
    letter = dict(conf="C" if prof["cod"] == "s" else "I", ens="E" if prof["cod"] == "s" else "F")
    keys = list(range(1, len(sc.keys) + 1))
    for o in b["ops"]:
        op = o["op"]
        if op == "skip": continue
        if op == "new": sc.new(o["s"], letter[o["kind"]], ctor=o["ctor"], cfgs=[tuple(c) for c in o["cfgs"]], **o["opt"])
        elif op == "open": sc.open(o["s"], o["f"], o["mode"])
        elif op == "copy": sc.copy(o["s"], o["t"])
        elif op == "del": sc.delete(o["s"])
        elif op == "close": sc.close(o["s"])
        elif op == "flush": sc.flush(o["s"])
        elif op == "ins": sc.ins(o["s"], o["k"], o["v"], o["how"])
        elif op == "eins": sc.eins(o["s"], o["k"], o["vs"], o["how"])
        elif op == "upd": sc.upd(o["s"], o["k"], o["v"], o["cf"], o["ix"])
        elif op == "done": sc.done(o["s"])
        elif op == "look": look(rng, sc, o["s"], keys)
        elif op == "get":
            raw = sc.keys[o["k"] - 1][0] == "x"
            sc.get(o["s"], o["k"], "b" if raw else rng.choice("tb" if sc.kind[o["s"]] in "CI" or sc.kind[o["s"]][0] == "m" else "tsb"))
            if not raw: sc.exist(o["s"], o["k"])
        elif op == "uset": sc.uset(o["s"], o["v"]); sc.uget(o["s"])
        elif op == "cset": sc.cset(o["s"], o["ix"], o["cf"], o["nm"], o["ins"], o["tag"]); sc.call(o["s"]); sc.cget(o["s"], o["cf"])
        elif op == "union": sc.union(o["s"], "I", o["fs"])
        elif op == "merge": sc.merge(o["s"], [tuple(e) for e in o["ents"]], o["budget"], o["ctor"]); look(rng, sc, o["s"], keys)
        elif op == "kill": sc.kill()
        elif op == "flushkill": sc.flush(o["s"]); sc.kill()
        elif op == "digest": sc.digest(o["f"])
        else: raise ToolError("unknown op " + op)
    for s in sorted(b["slots"]): sc.delete(s)
    sc.newproc()
    for f in sorted(set(b["dbs"]) - set(b["bare"])):
        for mode in "rw":
            sc.new(1, letter["conf" if f <= prof["nconf"] else "ens"], bs=1024); sc.open(1, f, mode); look(rng, sc, 1, keys, deep=True); sc.delete(1)
    return sc
