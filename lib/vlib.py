"""Common machinery: building the code under test, running driver scripts,
turning observations into traces, running TLC, evidence and verdicts."""
import json, os, re, struct, shutil, subprocess, sys, tempfile, time, random, threading
from concurrent.futures import ThreadPoolExecutor
import ffile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JOBS = min(8, os.cpu_count() or 8)
CSRC = sorted(f for f in os.listdir(os.path.join(REPO, "filehash")) if f.startswith("ffdb_") and f.endswith(".c"))


class ToolError(Exception):
    """the machinery itself failed (never reported as a violation)"""


# --------------------------------------------------------------------------
class Work:
    """a scratch directory removed at exit"""
    def __init__(self, tag):
        base = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > 2 << 30 else "/tmp")
        self.dir = tempfile.mkdtemp(prefix="vf_%s_" % tag, dir=base)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def sub(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(p, exist_ok=True)
        return p

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise ToolError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_c(work, name, main, wraps=(), sanitize="address", extra=(), defs=(), srcs=None, opt="-O1", more=()):
    """compile a harness together with the library sources of the current tree"""
    d = work.sub("build_" + name)
    fh = os.path.join(REPO, "filehash")
    srcs = [os.path.join(fh, s) for s in (CSRC if srcs is None else srcs)]
    flags = ["gcc", "-g", opt, "-w", "-fno-omit-frame-pointer", "-D_FILE_OFFSET_BITS=64", "-D_LARGE_FILES", "-I" + fh, "-I" + os.path.join(VERIF, "harness")]
    flags += ["-D" + x for x in defs]
    if sanitize:
        flags += ["-fsanitize=" + sanitize]
    objs = []
    todo = []
    own = [os.path.join(VERIF, "harness", x) for x in (main,) + tuple(more)]
    for s in srcs + own:
        o = os.path.join(d, os.path.basename(s) + ".o")
        objs.append(o)
        todo.append(flags + ([] if s in own else list(extra)) + ["-c", s, "-o", o])
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(sh, todo))
    exe = os.path.join(d, name)
    sh(flags + objs + ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread", "-o", exe])
    return exe


def build_cxx(work, name, main, sanitize="address", opt="-O1", defs=(), wraps=()):
    """compile a C++ harness with the C++ layer and the C library of the current tree"""
    d = work.sub("build_" + name)
    fh, sr = os.path.join(REPO, "filehash"), os.path.join(REPO, "src")
    open(os.path.join(d, "filedb_config_internal.h"), "w").close()
    com = ["-g", opt, "-w", "-fno-omit-frame-pointer", "-D_FILE_OFFSET_BITS=64", "-D_LARGE_FILES", "-D_FILEDB_LITTLE_ENDIAN", "-I" + fh, "-I" + sr, "-I" + d, "-I" + os.path.join(VERIF, "harness")] + ["-D" + x for x in defs]
    if sanitize:
        com.append("-fsanitize=" + sanitize)
    cpp = sorted(f for f in os.listdir(sr) if f.endswith(".cpp") and "Test" not in f)
    todo, objs = [], []
    for cc, s in [("gcc", os.path.join(fh, x)) for x in CSRC] + [("g++", os.path.join(sr, x)) for x in cpp] + [("g++", os.path.join(VERIF, "harness", main))]:
        o = os.path.join(d, os.path.basename(s) + ".o")
        objs.append(o)
        todo.append([cc] + com + ["-c", s, "-o", o])
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(sh, todo[::-1]))
    exe = os.path.join(d, name)
    sh(["g++"] + com + objs + ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread", "-o", exe])
    return exe


IO_WRAPS = ["read", "write", "lseek", "lseek64", "ftruncate", "ftruncate64", "pread", "pread64", "pwrite", "pwrite64",
            "malloc", "calloc", "realloc", "free", "strdup"]


def build_drv(work, sanitize="address", opt="-O1", name="drv"):
    return build_c(work, name, "drv.c", IO_WRAPS, sanitize, opt=opt)


LOCK_WRAPS = ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
              "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast"]


def build_tdrv(work):
    """the driver with threads under a chosen schedule"""
    return build_c(work, "tdrv", "drv.c", IO_WRAPS + LOCK_WRAPS, defs=("VSCHED",), extra=["-fsanitize-coverage=trace-pc"], more=["vsched.c"])


RUN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:handle_abort=0",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=99")


# --------------------------------------------------------------------------
class Script:
    """A scenario: a list of process segments, each a list of steps.  Every
    step is (script line or python callable, event template)."""

    def __init__(self, tag=""):
        self.tag = tag
        self.keys = []        # (mode, len)
        self.vals = [0]       # lengths; value id 1 is the empty value
        self.vmodes = {}      # how the bytes of some values are made
        self.segs = [[]]
        self.maxtag = 0
        self.note = {}
        self.table = False
        self.huge = False      # files may become larger than 1 GB
        self.thread = None     # operations are those of this thread, until run_threads

    # ids ------------------------------------------------------------
    def key(self, length, mode="r"):
        self.keys.append((mode, length)); return len(self.keys)

    def val(self, length, mode="", of=0):
        """a value; mode z, o: all bits clear, set; l, f, p, t: made from value `of` - other last byte, other first byte,
        a prefix, other bytes with the same CRC-32"""
        if length == 0:
            return 1
        self.vals.append(length)
        if mode:
            self.vmodes[len(self.vals)] = (mode, of)
        return len(self.vals)

    def repl(self, rng, v):
        """a value that may replace v"""
        n = self.vals[v - 1]
        x = rng.random()
        if n < 5 or n >= 2 ** 31 or x < 0.5: return self.val(rng.randint(0, n))
        if x < 0.65: return self.val(n, "t", v)
        if x < 0.72: return self.val(n, "l", v)
        if x < 0.78: return self.val(n, "f", v)
        if x < 0.86: return self.val(rng.choice([n - 1, rng.randint(0, n)]), "p", v)
        if x < 0.91: return self.val(rng.choice([n, rng.randint(0, n)]), "z")
        if x < 0.94: return self.val(n, "o")
        if x < 0.97: return self.val(n)
        return v

    # steps ----------------------------------------------------------
    def add(self, line, ev):
        if self.thread is not None:
            line = "T %d %s" % (self.thread, line)
        self.segs[-1].append((line, ev))

    def run_threads(self, seed, pbb, plk, psp):
        self.thread = None
        self.add("RUN %d %d %d %d" % (seed, pbb, plk, psp), None)

    def newproc(self):
        if self.segs[-1]:
            self.segs.append([])

    def open(self, h, f, mode, bs=512, nb=1, cache=0, rearr=1, umax=0, ncfg=0, hash=0, cmp=0, fl=None):
        # further flags of open(2): b (O_NONBLOCK) and, for a file that is there, C (O_CREAT) make no difference;
        # x a s d are not supported: refused like the mode "W"
        self.nopen = getattr(self, "nopen", 0) + 1
        if fl is None: fl = ["", "b", ""][self.nopen % 3]
        ev = "W" if set(fl) & set("xasd") else mode
        self.add("OPEN %d f%d %s %d %d %d %d %d %d %d %d" % (h, f, mode + fl, bs, nb, cache, rearr, umax, ncfg, hash, cmp),
                 dict(op="open", h=h, f=f, mode=ev, p=dict(bs=min(bs, 2 ** 31 - 1) or 4096, nb=min(nb, 2 ** 31 - 1), hash=hash, ncfg=min(ncfg, 2 ** 31 - 1000), umax=min(umax, 2 ** 31 - 2 ** 21), cache=min(cache, 2 ** 31 - 1))))

    def put(self, h, k, v, flag=0):
        self.add("PUT %d %d %d %d" % (h, k, v, flag), dict(op="put", h=h, k=k, v=v, flag=flag))

    def get(self, h, k, buf=-1):
        self.add("GET %d %d %d" % (h, k, buf), dict(op="get", h=h, k=k, buf=buf))

    def putn(self, h, kv, flag=0):
        """store several distinct keys"""
        if kv:
            self.add("PUTN %d %d %s" % (h, flag, " ".join("%d %d" % x for x in kv)), dict(op="putn", h=h, flag=flag, kv=list(kv)))

    def getall(self, h):
        self.add("GETALL %d" % h, dict(op="getall", h=h))

    def scan(self, h, d="F", wd=1):
        self.add("SCAN %d %s %d" % (h, d, wd), dict(op="scan", h=h, d=d, wd=wd))

    def mem(self):
        self.add("MEM", dict(op="mem"))

    def res(self):
        self.add("RES", dict(op="res"))

    def delete(self, h, k):
        self.add("DEL %d %d" % (h, k), dict(op="del", h=h, k=k))

    def copen(self, h, c):
        self.add("COPEN %d %d" % (h, c), dict(op="copen", h=h, c=c))

    def copenbad(self, h, t):
        self.add("CBAD %d %d" % (h, t), dict(op="copenbad", h=h))

    def cget(self, c, d, wd=1, kbuf=-1, dbuf=-1):
        self.add("CGET %d %s %d %d %d" % (c, d, wd, kbuf, dbuf), dict(op="cget", c=c, d=d, wd=wd, kbuf=kbuf, dbuf=dbuf))

    def cclose(self, c):
        self.add("CCLOSE %d" % c, dict(op="cclose", c=c))

    def sync(self, h):
        self.add("SYNC %d" % h, dict(op="sync", h=h))

    def close(self, h):
        self.add("CLOSE %d" % h, dict(op="close", h=h))

    def uset(self, h, v):
        self.add("USET %d %d" % (h, v), dict(op="uset", h=h, v=v))

    def uget(self, h, buf=-1):
        self.add("UGET %d %d" % (h, buf), dict(op="uget", h=h, buf=buf))

    def umaxq(self, h):
        self.add("UMAX %d" % h, dict(op="umax", h=h))

    def ncfgq(self, h):
        self.add("NCFG %d" % h, dict(op="ncfg", h=h))

    def csetall(self, h, s):
        self.maxtag = max([self.maxtag] + [t for _, t in s])
        self.add("CSETALL %d %d %s" % (h, len(s), " ".join("%d %d" % x for x in s)), dict(op="csetall", h=h, s=[list(x) for x in s]))

    def cgetall(self, h):
        self.add("CGETALL %d %d" % (h, self.maxtag), dict(op="cgetall", h=h))

    def cset1(self, h, ix, cf, tag):
        self.maxtag = max(self.maxtag, tag)
        self.add("CSET1 %d %d %d %d" % (h, ix, cf, tag), dict(op="cset1", h=h, ix=ix, cf=cf, tag=tag))

    def cget1(self, h, cf):
        self.add("CGET1 %d %d %d" % (h, cf, self.maxtag), dict(op="cget1", h=h, cf=cf))

    def fault(self, kind, after=1, count=1, mode="e"):
        self.add("FAULT %s %d %d %s" % (kind, after, count, mode), None)

    def nofault(self):
        self.add("FAULT - 1 0 e", None)

    def kill(self):
        self.add("KILL", dict(op="kill")); self.newproc()

    def copy(self, f, g):
        self.add("COPY f%d f%d" % (f, g), dict(op="copy", f=f, g=g))

    def remove(self, f):
        self.add("RM f%d" % f, dict(op="remove", f=f))

    def digest(self, f):
        self.add("FSTAT f%d" % f, dict(op="digest", f=f))

    def host(self, fn, ev):
        """python callback run between process segments (all handles closed)"""
        self.newproc()
        self.segs[-1].append((fn, ev))
        self.newproc()

    def image(self, f, hash=0):
        """the structure of file f as decoded from its bytes (all handles closed)"""
        self.table = True
        spread = 1 if hash in (0, 4) else 0

        def fn(d):
            kt, vt = load_table(d)
            try:
                g = ffile.image_event(ffile.load(os.path.join(d, "f%d" % f)), kt, vt, hash)
            except (ffile.BadFile, OSError, struct.error) as x:
                return dict(op="badimage", why=str(x))
            return dict(g=g)
        self.host(fn, dict(op="image", f=f, spread=spread))

    def steps(self):
        return sum(len(s) for s in self.segs)


def key_bytes(d):
    """bytes of the short keys"""
    out = {}
    with open(os.path.join(d, "tab.txt")) as fp:
        for l in fp:
            w = l.split()
            if w[0] == "K" and len(w) > 4:
                out[int(w[1])] = bytes.fromhex(w[4])
    return out


def load_table(d):
    kt, vt = {}, {}
    with open(os.path.join(d, "tab.txt")) as fp:
        for l in fp:
            w = l.split()
            (kt if w[0] == "K" else vt).setdefault((int(w[2]), int(w[3])), int(w[1]))
    return kt, vt


class RunResult:
    def __init__(self):
        self.events = []
        self.died = None
        self.hang = False
        self.stderr = ""
        self.lines = []
        self.outputs = []
        self.switches = 0
        self.calls = []       # calls made between arming and disarming a fault


def run_script(exe, sc, d, timeout=60):
    """run all segments of a scenario in directory d; returns RunResult"""
    os.makedirs(d, exist_ok=True)
    res = RunResult()
    kalias, valias = {}, {}
    decl = ["KEY %d %s %d" % (i + 1, m, l) for i, (m, l) in enumerate(sc.keys)]
    decl += ["VAL %d %d" % (i + 1, l) + (" %s %d" % sc.vmodes[i + 1] if i + 1 in sc.vmodes else "") for i, l in enumerate(sc.vals)]
    if sc.table:
        decl.append("TABLE tab.txt")
    nk = len(sc.keys)
    kc = lambda k: kalias.get(k, k)
    vc = lambda v: valias.get(v, v)
    queue = list(sc.segs)
    si = -1
    while queue:
        seg = queue.pop(0)
        si += 1
        if not seg:
            continue
        if callable(seg[0][0]):
            ev = dict(seg[0][1]) if seg[0][1] else None
            try:
                out = seg[0][0](d)
            except ToolError:
                raise
            except Exception as x:      # what the program left behind cannot be read
                out = dict(op="badimage", why=repr(x))
                if ev is None:
                    ev = {}
            if isinstance(out, dict) and "_segs" in out:
                queue[0:0] = out.pop("_segs")
            if ev is not None:
                if isinstance(out, dict):
                    ev.update(out)
                res.events.append(ev)
            continue
        sf, of = os.path.join(d, "s%d.txt" % si), os.path.join(d, "o%d.txt" % si)
        lines = decl + [s[0] for s in seg]
        with open(sf, "w") as fp:
            fp.write("\n".join(lines) + "\n")
        hang = False
        p = subprocess.Popen([exe, sf, of], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=open(os.path.join(d, "e%d.txt" % si), "w"), env=dict(RUN_ENV, VERIF_HUGE="1") if sc.huge else RUN_ENV)
        end = time.time() + timeout
        while True:
            try:
                rc = p.wait(timeout=0.5 if timeout > 200 else timeout); break
            except subprocess.TimeoutExpired:
                if time.time() < end and not STOP.is_set():
                    continue
                p.kill(); p.wait(); rc = None; hang = True; break
        if rc == 90:
            raise ToolError("driver failed on %s: %s" % (sf, open(os.path.join(d, "e%d.txt" % si), errors="replace").read()[-500:]))
        outs = {}
        fired_at = {}
        last = len(decl)
        try:
            with open(of + ".f") as fp:
                for l in fp:
                    n = int(l.split()[0]); fired_at[n] = fired_at.get(n, 0) + 1
        except OSError:
            pass
        ended = stop = False
        partial = []
        with open(of) as fp:
            for l in fp:
                w = l.split()
                if not w:
                    continue
                n = int(w[0])
                if len(w) > 1 and w[1] == "END":
                    ended = True; continue
                if len(w) > 2 and w[1] == "alias":
                    src = n
                    if src <= nk:
                        kalias[src] = kc(int(w[2]))
                    else:
                        valias[src - nk] = vc(int(w[2]))
                    continue
                if not l.endswith("\n"):
                    # the process ended inside this step: keep what a traversal had returned
                    partial = w[1:-1]; continue
                outs[n] = w[1:]; last = n
        for j, (line, ev) in enumerate(seg):
            n = len(decl) + j + 1
            if n not in outs:
                break
            if ev is None:
                if line.startswith("FAULT -"):
                    res.calls.append([int(x) for x in outs[n]])
                if line.startswith("RUN"):
                    res.switches += int(outs[n][0])
                continue
            o = outs[n]
            if o and o[0] == "NOHANDLE":
                stop = True; break
            res.events.extend(mkevents(ev, o, fired_at.get(n, 0), kc, vc, nk))
        if stop:
            break
        if not ended:
            if rc == 77 and seg[min(last - len(decl) - 1, len(seg) - 1)][0] == "KILL":
                continue
            # the process ended inside the step after the last reported one
            pend = fired_at.get(last + 1, 0)
            j = last - len(decl)
            ev = seg[j][1] if j < len(seg) else {}
            ev = ev or {}
            err = open(os.path.join(d, "e%d.txt" % si), errors="replace").read()
            if hang:
                why = "hang"
            elif rc in (1, 123):
                why = "report"
            elif rc == -6:
                why = "report"
            elif rc == 99:
                why = "memory"
            else:
                why = "crash"
            inh = ev.get("h", 0)
            if ev.get("op") in ("cget", "cclose"):
                # find the handle of the cursor
                for (l2, e2) in reversed(seg[:j]):
                    if e2 and e2.get("op") == "copen" and e2.get("c") == ev.get("c"):
                        inh = e2["h"]; break
            if ev.get("op") == "scan" and len(partial) >= 2:
                x = [int(t) for t in partial[:len(partial) // 2 * 2]]
                res.events.append(dict(op="scan", h=ev["h"], d=ev["d"], wd=ev["wd"], ks=x[0::2], vs=x[1::2], rcs=[-77], fi=pend))
            res.events.append(dict(op="died", why=why, code=(rc if rc is not None else -999), fi=pend,
                                   inop=ev.get("op", "none"), inh=inh, inf=ev.get("f", 0), k=kc(ev.get("k", 0)), mode=ev.get("mode", "")))
            res.died = why
            res.hang = hang
            res.stderr = err[-3000:]
            if why != "report":
                break
        else:
            # normal end of process: whatever is still open is closed by the kernel
            opened = set()
            for (l2, e2) in seg:
                if e2 and e2["op"] == "open": opened.add(e2["h"])
                if e2 and e2["op"] == "close": opened.discard(e2["h"])
            if opened:
                res.events.append(dict(op="kill"))
    # reset event
    kl = [l for (m, l) in sc.keys]
    # TLC's integers have 32 bits: huge lengths become numbers in the same order
    big = {l: (1 << 30) + (l >= 1 << 40 and 1 << 29 or l >= 1 << 32 and 1 << 28 or 0) + i
           for i, l in enumerate(sorted(set(l for l in sc.vals if l >= 1 << 30)))}
    vl = [big.get(l, l) for l in sc.vals]
    for e in res.events:
        e.setdefault("fi", 0)
        if "n" in e and e["n"] >= 1 << 30 and e["op"] == "get":
            e["n"] = big.get(e["n"], -5)
    res.reset = dict(op="reset", kl=kl, vl=vl)
    return res


def mkevents(ev, o, fi, kc, vc, nk):
    op = ev["op"]
    if op == "putn":
        done, rc = int(o[0]), int(o[1])
        kv = [(kc(k), vc(v)) for k, v in ev["kv"]]
        out = []
        if done:
            vs = [0] * nk
            for k, v in kv[:done]:
                if vs[k - 1]:        # alias of an earlier key in the same batch
                    out.append(dict(op="putn", h=ev["h"], flag=ev["flag"], vs=vs, fi=0)); vs = [0] * nk
                vs[k - 1] = v
            out.append(dict(op="putn", h=ev["h"], flag=ev["flag"], vs=vs, fi=fi))
        if done < len(kv):
            k, v = kv[done]
            out.append(dict(op="put", h=ev["h"], k=k, v=v, flag=ev["flag"], rc=rc, intact=1, fi=fi))
        return out
    if op == "getall":
        vs = [int(x) for x in o]
        return [dict(op="getall", h=ev["h"], vs=[vs[kc(i + 1) - 1] if True else 0 for i in range(nk)], ali=[i + 1 for i in range(nk) if kc(i + 1) != i + 1], fi=fi)]
    if op == "scan":
        j = o.index(":")
        x = [int(t) for t in o[:j]]; rcs = [int(t) for t in o[j + 1:]]
        return [dict(op="scan", h=ev["h"], d=ev["d"], wd=ev["wd"], ks=x[0::2], vs=x[1::2], rcs=rcs, fi=fi)]
    return [mkevent(ev, o, fi, kc, vc)]


def mkevent(ev, o, fi, kc, vc):
    e = dict(ev)
    op = e["op"]
    e["fi"] = fi
    if "k" in e: e["k"] = kc(e["k"])
    if "v" in e: e["v"] = vc(e["v"])
    if op == "open": e["rc"] = int(o[0])
    elif op == "put": e["rc"] = int(o[0]); e["intact"] = int(o[2])
    elif op == "get":
        e["rc"] = int(o[0]); e["v"] = int(o[1]); e["n"] = int(o[3])
        if int(o[4]): e["v"] = -3
    elif op == "cget": e["rc"] = int(o[0]); e["k"] = int(o[1]); e["v"] = int(o[2])
    elif op in ("copen", "copenbad", "cclose", "del", "sync", "close", "uset", "csetall", "cset1"): e["rc"] = int(o[0])
    elif op == "uget": e["rc"] = int(o[0]); e["v"] = int(o[1]); e["n"] = int(o[3])
    elif op in ("umax", "ncfg"): e["n"] = int(o[0])
    elif op == "mem": e["bytes"] = int(o[0])
    elif op == "cgetall":
        e["rc"] = int(o[0]); e["n"] = int(o[1])
        x = [int(t) for t in o[2:]]
        e["s"] = [x[i:i + 3] for i in range(0, len(x), 3)]
    elif op == "cget1": e["rc"] = int(o[0]); e["ix"] = int(o[1]); e["cf"] = e["cf"]; e["tag"] = int(o[3])
    elif op == "res": e["fds"] = int(o[0]); e["live"] = int(o[1])
    elif op == "digest": e["d"] = o[0] + ":" + o[1]
    return e


# --------------------------------------------------------------------------
JAVA = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"]
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar"


def tla_cp():
    d = "/opt/veriftools/tla"
    return ":".join([os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith(".jar")])


def tlc(work, module, cfg_text, env=None, workers=1, args=(), mem="3g", timeout=600, spec_dir=None, tag="t", xss="64m"):
    """run TLC on spec/<module>.tla with the given configuration text"""
    d = tempfile.mkdtemp(prefix="tlc_%s_" % tag, dir=work.dir)
    sdir = spec_dir or os.path.join(VERIF, "spec")
    for f in os.listdir(sdir):
        if f.endswith(".tla"):
            os.symlink(os.path.join(sdir, f), os.path.join(d, f))
    with open(os.path.join(d, module + ".cfg"), "w") as fp:
        fp.write(cfg_text)
    e = dict(os.environ)
    if env:
        e.update(env)
    cmd = JAVA + ["-Xmx" + mem, "-Xss" + xss, "-Djava.io.tmpdir=" + d, "-cp", tla_cp(), "tlc2.TLC", "-metadir", os.path.join(d, "states"),
                  "-workers", str(workers), "-config", module + ".cfg"] + list(args) + [module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        shutil.rmtree(d, ignore_errors=True)
        raise ToolError("TLC timeout on %s" % module)
    shutil.rmtree(d, ignore_errors=True)
    out = r.stdout
    m = re.findall(r"(\d+) states generated(?:.*?), (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=r.returncode, out=out, generated=gen, distinct=dist, wall=time.time() - t0)


class Kind:
    """how scenarios of one specification are run and judged"""
    def __init__(self, module, consts, view, runner):
        self.module, self.consts, self.view, self.runner = module, consts, view, runner


def validate_traces(work, results, kind=None, tag="tr", chunks=None, timeout=800):
    """results: list of (script, RunResult).  Returns (stats, rejects) where
    rejects is a list of (index into results, position in events, event)."""
    kind = kind or FILEDB
    module = kind.module
    n = len(results)
    if n == 0:
        return dict(traces=0, events=0, states=0, transitions=0), []
    total = sum(len(r.events) + 1 for _, r in results)
    if chunks is None:
        chunks = max(1, min(JOBS, total // 4000 + 1, n))
    parts = [[] for _ in range(chunks)]
    load = [0] * chunks
    weight = lambda i: (len(results[i][1].events) + 1) * (20 + len(results[i][1].reset.get("kl", [])))
    for idx in sorted(range(n), key=lambda i: -weight(i)):
        j = load.index(min(load))
        parts[j].append(idx); load[j] += weight(idx)
    rejects = []
    stats = dict(traces=n, events=0, states=0, transitions=0)

    def one(j):
        fn = work.path("traces", "%s_%d.ndjson" % (tag, j))
        lens = [len(results[i][1].events) + 1 for i in parts[j]]
        starts = []
        pos = 1
        with open(fn, "w") as fp:
            for i, ln in zip(parts[j], lens):
                starts.append((pos, i))
                rs = dict(results[i][1].reset); rs["skip"] = pos + ln
                fp.write(json.dumps(rs) + "\n")
                for e in results[i][1].events:
                    fp.write(json.dumps(e) + "\n")
                pos += ln
        cfg = "SPECIFICATION Spec\nVIEW %s\nINVARIANT Done\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % (kind.view, kind.consts)
        r = tlc(work, module, cfg, env=dict(TRACE_FILE=fn), tag=tag, timeout=timeout)
        os.unlink(fn)
        return j, starts, pos - 1, r
    with ThreadPoolExecutor(min(JOBS, chunks)) as ex:
        outs = list(ex.map(one, [j for j in range(chunks) if parts[j]]))
    for j, starts, nlines, r in outs:
        m = re.search(r'<<\s*"DONE",\s*(\d+),\s*(\d+)\s*>>', r["out"])
        if not m or r["rc"] != 0:
            raise ToolError("TLC did not finish validating traces (%s): rc=%s\n%s" % (module, r["rc"], "\n".join(re.findall(r"(?:Error|Exception).*(?:\n(?!State).*){0,6}", r["out"])[:3]) + " ... " + r["out"][-1500:]))
        stats["states"] += r["distinct"]; stats["transitions"] += r["generated"]; stats["events"] += int(m.group(1))
        nb = 0
        for mm in re.finditer(r'<<\s*"REJECT",\s*(\d+),', r["out"]):
            pos = int(mm.group(1)); nb += 1
            ii = [s for s in starts if s[0] <= pos][-1]
            evpos = pos - ii[0] - 1
            rr = results[ii[1]][1]
            rejects.append((ii[1], evpos, rr.events[evpos] if 0 <= evpos < len(rr.events) else None))
        if nb != int(m.group(2)):
            raise ToolError("reject count mismatch")
    # every reject is reported twice when ENABLED is evaluated again; deduplicate
    seen, uniq = set(), []
    for x in rejects:
        if (x[0], x[1]) not in seen:
            seen.add((x[0], x[1])); uniq.append(x)
    return stats, uniq


FILEDB = Kind("FileDBTrace", "NF = 8 NH = 8 NC = 8", "View", run_script)


STOP = threading.Event()       # set when the verdict is known and long runs need not end
MAXHANG = 8


def run_all(exe, scripts, work, timeout=60, jobs=None, keep=False, kind=None, sub="run"):
    """runs the scenarios; after MAXHANG of them have not ended in time, the rest are not started (and not in the result)"""
    run = (kind or FILEDB).runner
    hung = []

    def one(ix):
        if len(hung) >= MAXHANG:
            return None
        d = work.sub(sub, "%05d" % ix)
        try:
            r = run(exe, scripts[ix], d, timeout)
        finally:
            if not keep:
                shutil.rmtree(d, ignore_errors=True)
        if getattr(r, "hang", False):
            hung.append(ix)
        return scripts[ix], r
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return [x for x in ex.map(one, range(len(scripts))) if x]


# --------------------------------------------------------------------------
class Check:
    """verdict, replay files, evidence"""
    def __init__(self, pid, level, tier):
        self.pid, self.level, self.tier = pid, level, tier
        self.t0 = time.time()
        self.work = Work(pid)
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.rng = random.Random("%s/%s" % (pid, SEED))

    def violation(self, what, detail):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s_%d.txt" % (self.pid, len(self.violations) + 1))
        with open(fn, "w") as fp:
            fp.write("property %s\n%s\n\n%s\n" % (self.pid, what, detail))
        self.violations.append((what, fn))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
        self.work.cleanup()
        for what, fn in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, fn))
            print("  " + what)
        sys.stdout.flush()
        return 1 if self.violations else 0


def account(*a):
    try:
        return describe(*a)
    except Exception as e:           # what cannot be told in full is still reported
        return "rejected event: %r (%r)" % (a[3:], e)


def describe(sc, res, pos, ev, ctx=25):
    """human readable replay of a rejected trace"""
    o = ["scenario: %s %s" % (sc.tag, json.dumps(sc.note, default=str)),
         "rejected event #%d: %s" % (pos, json.dumps(ev))]
    if res.stderr:
        o.append("stderr of the process that ended:\n" + res.stderr)
    o.append("events before it:")
    for e in res.events[max(0, pos - ctx):pos]:
        o.append("  " + json.dumps(e))
    o.append("full driver script (segments separated by --):")
    for s in sc.segs:
        for line, e in s:
            o.append("  " + (line if isinstance(line, str) else "<host action %s>" % json.dumps(e, default=str)))
        o.append("  --")
    o.append("keys (mode,len): %s" % sc.keys)
    o.append("value lengths: %s" % sc.vals)
    if getattr(sc, "vmodes", None):
        o.append("values made from others: %s" % sc.vmodes)
    return "\n".join(o)


# --------------------------------------------------------------------------
# behaviours generated by TLC from FileDBGen
def gen_behaviours(work, profile, num, seed, consts="NF = 2 NH = 3 NC = 2", tag="gen", module="FileDBGen"):
    """profile: dict(depth, ops, kl, vl, opts, modes, bulk, maxtag); returns a list of op lists"""
    fn = work.path("prof", "%s_%d.json" % (tag, seed))
    prof = {k: v for k, v in profile.items() if not k.startswith("_")}
    with open(fn, "w") as fp:
        json.dump(prof, fp)
    cfg = "SPECIFICATION GSpec\nINVARIANT GInv\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % consts
    r = tlc(work, module, cfg, env=dict(GEN_PROFILE=fn), args=["-simulate", "num=%d" % num, "-depth", str(profile["depth"] + 5), "-seed", str(seed)], tag=tag)
    if r["rc"] != 0:
        raise ToolError("behaviour generation failed: %s" % r["out"][-3000:])
    out = []
    for l in r["out"].splitlines():
        if l.startswith('"BEH '):
            out.append(json.loads(json.loads(l)[4:]))
    if not out:
        raise ToolError("no behaviours generated: %s" % r["out"][-2000:])
    return out[:num], r


def script_from_behaviour(profile, beh, tag, keymodes):
    """concretise a behaviour; the epilogue closes everything and inspects every file"""
    sc = Script(tag)
    sc.keys = list(zip(keymodes, profile["kl"]))
    sc.vals = list(profile["vl"])
    sc.maxtag = profile.get("maxtag", 0)
    sc.note = dict(profile=profile.get("_name"))
    for o in beh["ops"]:
        op = o["op"]
        if op == "skip": continue
        if op == "open":
            p = o["p"]
            sc.open(o["h"], o["f"], o["mode"], bs=p["bs"], nb=o["nb"], cache=o["cache"], rearr=o["rearr"], umax=p["umax"], ncfg=p["ncfg"], hash=p["hash"], cmp=o["cmp"])
        elif op == "put": sc.put(o["h"], o["k"], o["v"], o["flag"])
        elif op == "putn": sc.putn(o["h"], [(i + 1, v) for i, v in enumerate(o["vs"]) if v])
        elif op == "get": sc.get(o["h"], o["k"], o["buf"])
        elif op == "getall": sc.getall(o["h"])
        elif op == "scan": sc.scan(o["h"], o["d"], o["wd"])
        elif op == "del": sc.delete(o["h"], o["k"])
        elif op == "copen": sc.copen(o["h"], o["c"])
        elif op == "cget": sc.cget(o["c"], o["d"], o["wd"])
        elif op == "cclose": sc.cclose(o["c"])
        elif op == "uset": sc.uset(o["h"], o["v"])
        elif op == "uget": sc.uget(o["h"], o["buf"])
        elif op == "caps": sc.umaxq(o["h"]); sc.ncfgq(o["h"])
        elif op == "csetall": sc.csetall(o["h"], [tuple(x) for x in o["s"]])
        elif op == "cgetall": sc.cgetall(o["h"])
        elif op == "cset1": sc.cset1(o["h"], o["ix"], o["cf"], o["tag"])
        elif op == "cget1": sc.cget1(o["h"], o["cf"])
        elif op == "sync": sc.sync(o["h"])
        elif op == "close": sc.close(o["h"])
        elif op == "kill": sc.kill()
        elif op == "synckill": sc.sync(o["h"]); sc.kill()
        elif op == "copy": sc.copy(o["f"], o["g"])
        elif op == "digest": sc.digest(o["f"])
        elif op == "remove": sc.remove(o["f"])
        else: raise ToolError("unknown op " + op)
    for c in sorted(beh["cur"]): sc.cclose(c)
    for h in sorted(beh["hds"]): sc.close(h)
    for f, hash in sorted(beh["dbs"]):
        inspect(sc, f, hash)
    return sc


def inspect(sc, f, hash, meta=True, write=True, h=1, fresh=True):
    """what a fresh process sees in a file: read only, then for update, then again"""
    if fresh:
        sc.newproc()
    for mode in ("r", "w", "r") if write else ("r",):
        sc.open(h, f, mode, hash=hash, rearr=1)
        sc.getall(h)
        sc.scan(h, "F" if mode == "r" else "L")
        if meta:
            sc.uget(h); sc.cgetall(h); sc.umaxq(h); sc.ncfgq(h)
        sc.close(h)
