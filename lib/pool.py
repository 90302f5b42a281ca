"""Programs and schedules for the page pool (PagePool.tla, PoolAlgo.tla)."""
import subprocess, os, json, re, random
from concurrent.futures import ThreadPoolExecutor
from vlib import *

NT, NPG = 4, 64


def build_pool(work):
    return build_c(work, "pdrv", "pdrv.c", wraps=LOCK_WRAPS + ["read", "write", "lseek", "lseek64", "pread", "pread64", "pwrite", "pwrite64"], extra=["-fsanitize-coverage=trace-pc"], more=["vsched.c"])


class PScript:
    """one program, run under one or more schedules"""
    def __init__(self, tag, cap=1, n0=4, filter=0, ro=0, nth=2, byfd=0, maxpage=None):
        self.tag, self.note = tag, {}
        self.nth, self.n0 = nth, n0
        # page i is page base + i of a sparse file: numbers and offsets beyond 16, 31 and 32 bits too
        r = random.Random("%d %s" % (SEED, tag))
        psz = r.choice([512, 512, 512, 1024, 4096, 65536])
        base = r.choice([0, 0, 0, 0, 1, 65530, 65536, 2 ** 31 // psz - 2, 2 ** 32 // psz - 2, 2 ** 31 - 7, 2 ** 31, 2 ** 32 - 1000])
        if base * psz > 2 ** 42: base = 2 ** 32 // psz - 2
        self.lines = ["cfg %d %d %d %d %d %d %d %d %d" % (cap, n0, filter, ro, nth, byfd, maxpage or NPG, psz, base)]

    def op(self, t, k, *a):
        self.lines.append("op %d %s %s" % (t, k, " ".join(str(int(x)) for x in (a + (0, 0, 0, 0))[:4])))

    def add(self, line):
        self.lines.append(line)


def runs_of(exe, sc, d, timeout):
    """execute; returns a list of runs (lists of events), stderr"""
    try:
        p = subprocess.run([exe], input=("\n".join(sc.lines) + "\n").encode(), capture_output=True, cwd=d, timeout=timeout,
                           env=dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0"))
        out, code, err = p.stdout, p.returncode, p.stderr.decode(errors="replace")[-3000:]
    except subprocess.TimeoutExpired as x:
        out, code, err = x.stdout or b"", "hang", ""
    runs, cur, info = [], None, {}
    for l in out.decode(errors="replace").splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e["e"] == "dfs":
            info = e
            continue
        if e["e"] == "start":
            cur = []
            runs.append(cur)
        if cur is not None:
            cur.append(e)
    if code != 0 and runs and runs[-1][-1]["e"] not in ("end", "stuck"):
        runs[-1].append(dict(e="died", code=str(code)))
    elif code != 0 and (not runs or runs[-1][-1]["e"] == "end"):
        runs.append([dict(e="start", n=0, ro=0), dict(e="died", code=str(code))])
    return [annotate(r) for r in runs], err, info


def annotate(run):
    """requests are given what they return"""
    out, open_ = [], {}
    for e in run:
        if e["e"] == "start":
            out.append(dict(e="start", n=e["n"], ro=bool(e["ro"])))
        elif e["e"] == "call":
            r = dict(op=e["o"], p=e["p"], done=False, rc=-99, v=0, fi=0, dirty=bool(e.get("dirty", 0)), create=bool(e.get("create", 0)), q=e.get("q", -1))
            open_[e["t"]] = r
            out.append(dict(e="call", t=e["t"], r=r))
        elif e["e"] == "ret":
            r = open_.pop(e["t"])
            r["rc"], r["v"], r["fi"] = e["rc"], e["v"], e["fi"]
            if r["op"] == "new":
                r["p"] = e["p"]
            out.append(dict(e="ret", t=e["t"]))
        else:
            out.append(e)
    return out


def judge(work, runs, tag="pool", far=False, timeout=800):
    """runs: list of event lists; returns (set of rejected indices, far positions, stats)"""
    n = len(runs)
    total = sum(len(r) for r in runs)
    chunks = max(1, min(JOBS, total // 3000 + 1))
    parts = [list(range(j, n, chunks)) for j in range(chunks)]
    stats = dict(states=0, generated=0)
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Far\nCONSTANTS Threads = {%s} Pages = {%s}\n" % (
        ", ".join(str(i + 1) for i in range(NT)), ", ".join(str(i) for i in range(NPG)))

    def one(j):
        fn = work.path("traces", "%s_%d.ndjson" % (tag, j))
        pos, starts = 1, {}
        with open(fn, "w") as fp:
            for i in parts[j]:
                starts[pos] = i
                s = dict(runs[i][0], last=pos + len(runs[i]) - 1)
                for e in [s] + runs[i][1:]:
                    fp.write(json.dumps(e) + "\n")
                pos += len(runs[i])
        r = tlc(work, "PoolTrace", cfg, env=dict(TRACE_FILE=fn, TRACE_FAR="1" if far else "0"), tag=tag, timeout=timeout)
        os.unlink(fn)
        if r["rc"] != 0:
            raise ToolError("TLC failed on pool runs: %s" % r["out"][-3000:])
        ok = set(starts[int(m)] for m in re.findall(r'<<\s*"OK",\s*(\d+)\s*>>', r["out"]))
        at = {}
        for a, b in re.findall(r'<<\s*"AT",\s*(\d+),\s*(\d+)\s*>>', r["out"]):
            i = starts[int(a)]
            at[i] = max(at.get(i, 0), int(b) - int(a))
        return ok, at, r
    ok, at = set(), {}
    with ThreadPoolExecutor(JOBS) as ex:
        for o, a, r in ex.map(one, range(chunks)):
            ok |= o; at.update(a)
            stats["states"] += r["distinct"]; stats["generated"] += r["generated"]
    return set(range(n)) - ok, at, stats


# --------------------------------------------------------------------------
def program(rng, sc, t, nops, n0, qs, create=True, changes=True):
    """operations of one thread; pages are taken in order of their numbers"""
    hi = n0 + (3 if create else 0)
    for _ in range(nops):
        x = rng.random()
        if x < .42:
            p = rng.randrange(hi)
            sc.op(t, "g", p, rng.random() < .5, p >= n0 or rng.random() < .1, rng.random() < .05)
        elif x < .54:
            sc.op(t, "w")
        elif x < .60:
            sc.op(t, "l")
        elif x < .80:
            sc.op(t, "p", rng.random() < .2)
        elif x < .85:
            sc.op(t, "x")
        elif x < .88 and changes and qs:
            sc.op(t, "c", qs.pop())
        elif x < .93:
            sc.op(t, "s")
        elif x < .96 and create:
            sc.op(t, "n", 0, rng.random() < .6, rng.random() < .5)
        else:
            sc.op(t, "k", rng.randrange(hi))


def randoms(rng, n, runs=6, faults=0.0, maxops=14):
    out = []
    for i in range(n):
        nth = rng.choice([1, 2, 2, 3, 3, 4])
        n0 = rng.choice([1, 2, 3, 3, 5, 8])
        sc = PScript("random %d" % i, cap=rng.choice([0, 1, 1, 2, 3, 5, 12]), n0=n0, filter=rng.random() < .4, ro=0, nth=nth, byfd=rng.random() < .5)
        qs = list(range(30, 38))
        rng.shuffle(qs)
        for t in range(nth):
            program(rng, sc, t, rng.randrange(3, maxops if nth > 1 else 40), n0, qs)
        if rng.random() < faults:
            sc.add("fault %s %d %d" % (rng.choice("rws"), rng.randrange(1, 9), rng.choice([1, 1, 2, 5, 50])))
        for _ in range(runs if nth > 1 else 1):
            sc.add("run %d %d %d %d" % (rng.getrandbits(40), rng.choice([0, 20, 100, 400, 1500]), rng.choice([300, 2000, 6000]), rng.choice([0, 0, 300, 2000])))
        out.append(sc)
    return out


def readonly(rng, n):
    out = []
    for i in range(n):
        n0 = rng.choice([1, 3, 6])
        nth = rng.choice([1, 2, 3])
        sc = PScript("read only %d" % i, cap=rng.choice([0, 1, 3]), n0=n0, ro=1, nth=nth, byfd=rng.random() < .5, filter=rng.random() < .3)
        for t in range(nth):
            for _ in range(rng.randrange(3, 14)):
                x = rng.random()
                if x < .55:
                    sc.op(t, "g", rng.randrange(n0), rng.random() < .25, 0)
                elif x < .85:
                    sc.op(t, "p", 0)
                else:
                    sc.op(t, "k", rng.randrange(n0))
        for _ in range(3):
            sc.add("run %d %d %d %d" % (rng.getrandbits(40), rng.choice([0, 100, 1000]), rng.choice([300, 3000]), rng.choice([0, 500])))
        out.append(sc)
    return out


def exhaustive(rng, n, bound, limit):
    """small programs, every schedule with at most so many preemptions"""
    out = []
    for i in range(n):
        nth = rng.choice([2, 2, 3])
        n0 = rng.choice([1, 2, 3])
        sc = PScript("exhaustive %d" % i, cap=rng.choice([0, 0, 1]), n0=n0, nth=nth, filter=rng.random() < .3)
        qs = [30, 31, 32, 33]
        for t in range(nth):
            p = rng.randrange(n0)
            k = rng.random()
            d = rng.random() < .6
            if k < .6:
                sc.op(t, "g", p, d)
                if d:
                    sc.op(t, "w")
                if rng.random() < .25:
                    sc.op(t, "g", p, rng.random() < .5)
                if rng.random() < .3 and p + 1 < n0:
                    sc.op(t, "g", p + 1, rng.random() < .5)
                x = rng.random()
                if x < .7:
                    sc.op(t, "p", 0)
                elif x < .85:
                    sc.op(t, "x")
                else:
                    sc.op(t, "c", qs.pop())
                if rng.random() < .4:
                    sc.op(t, "g", rng.randrange(n0), 0)
                    sc.op(t, "p", 0)
            elif k < .8:
                sc.op(t, "s")
                sc.op(t, "k", p)
                sc.op(t, "g", rng.randrange(n0), 1)
                sc.op(t, "w")
                sc.op(t, "p", 0)
            else:
                sc.op(t, "n", 0, 1)
                sc.op(t, "w")
                sc.op(t, "p", 1)
                sc.op(t, "s")
        sc.add("dfs %d %d" % (bound, limit))
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def generated(chk, num, stats=None):
    """behaviours of PoolAlgo, replayed with the same interleaving"""
    confs = [(2, 3, 1), (3, 2, 0), (3, 3, 1), (4, 2, 1), (3, 4, 2), (2, 2, 0), (4, 3, 0), (2, 5, 3)]
    per = max(1, num // len(confs))
    seeds = [chk.rng.randrange(1, 10 ** 6) for _ in confs]

    def one(i):
        nt, np, cap = confs[i]
        consts = 'NT = %d NP = %d Cap = %d MaxOps = %d Group = {"get", "mod", "del", "sync"} Spurious = FALSE' % (nt, np, cap, 24)
        return gen_behaviours(chk.work, dict(depth=60), per, seeds[i], consts, tag="pg%d" % i, module="PoolGen")
    out = []
    with ThreadPoolExecutor(JOBS) as ex:
        for i, (behs, r) in enumerate(ex.map(one, range(len(confs)))):
            nt, np, cap = confs[i]
            for j, b in enumerate(behs):
                sc = PScript("generated %d.%d" % (i, j), cap=cap, n0=np, nth=nt, filter=j % 3 == 0, byfd=j % 2)
                d = []
                for o in b["ops"]:
                    t = o["t"] - 1
                    d.append(t)
                    if o["o"] == "g":
                        sc.op(t, "g", o["p"], o["d"])
                    elif o["o"] == "w":
                        sc.op(t, "w", 0, 0, 0, o["p"] + 1)
                        d.append(t)
                    elif o["o"] in "px":
                        sc.op(t, o["o"], 0, 0, 0, o["p"] + 1)
                    elif o["o"] == "s":
                        sc.op(t, "s")
                sc.add("dir " + " ".join(str(x) for x in d))
                out.append(sc)
    if stats is not None:
        stats["generated_behaviours"] = stats.get("generated_behaviours", 0) + len(out)
    return out


def pool_check(chk, exe, scripts, what, timeout=60):
    """run the programs under their schedules, judge every run with TLC"""
    hung = []

    def hangs(rs):
        return bool(rs) and rs[-1][-1] == dict(e="died", code="hang")

    def one(ix):
        if len(hung) >= MAXHANG:
            return [], "", {}
        g = runs_of(exe, scripts[ix], chk.work.sub("prun", str(ix)), timeout)
        if hangs(g[0]):
            hung.append(ix)
        return g
    with ThreadPoolExecutor(JOBS) as ex:
        got = list(ex.map(one, range(len(scripts))))
    runs, src, seen, total = [], [], set(), 0
    for ix, (rs, err, info) in enumerate(got):
        for r in rs:
            total += 1
            k = json.dumps(r)
            if k not in seen:
                seen.add(k)
                runs.append(r)
                src.append(ix)
    rej, _, st = judge(chk.work, runs)
    c = chk.coverage
    c["schedules_run"] = c.get("schedules_run", 0) + total
    c["traces_validated_against_impl"] = c.get("traces_validated_against_impl", 0) + len(runs)
    c["trace_events"] = c.get("trace_events", 0) + sum(len(r) for r in runs)
    c["trace_states"] = c.get("trace_states", 0) + st["states"]
    d = [info for _, _, info in got if info]
    if d:
        c["programs_explored_exhaustively"] = c.get("programs_explored_exhaustively", 0) + sum(1 for x in d if x["complete"])
        c["programs_explored_partly"] = c.get("programs_explored_partly", 0) + sum(1 for x in d if not x["complete"])
    sm = c.setdefault("samples", [])
    for i in (0, len(runs) // 2):
        if len(sm) < 6 and runs:
            sm.append(dict(scenario=scripts[src[i]].tag, program=scripts[src[i]].lines[:12], events=runs[i][:12]))
    if not rej:
        return
    # a rejected run counts only if its program is rejected again
    idx = sorted(set(src[i] for i in rej), key=lambda i: (i in hung, i))[:12]
    idx = [i for i in idx if i not in hung] or idx[:4]
    runs2, src2 = [], []
    with ThreadPoolExecutor(4) as ex:
        again = list(ex.map(lambda ix: runs_of(exe, scripts[ix], chk.work.sub("prun2", str(ix)), timeout * 2), idx))
    for ix, (rs, err, _) in zip(idx, again):
        for r in rs:
            runs2.append(r)
            src2.append((ix, err))
    rej2, _, _ = judge(chk.work, runs2, tag="again")
    rr = sorted(rej2)[:5]
    if not rr:
        c["unconfirmed_rejections"] = len(rej)
        return
    _, at, _ = judge(chk.work, [runs2[i] for i in rr], tag="far", far=True)
    for j, i in enumerate(rr):
        ix, err = src2[i]
        pos = min(at.get(j, 1), len(runs2[i]) - 1)
        chk.violation("%s: the specification cannot explain %s" % (what, json.dumps(runs2[i][pos])),
                      "program and schedules (%s):\n  %s\nrun:\n%s\nstderr:\n%s" % (
                          scripts[ix].tag, "\n  ".join(scripts[ix].lines),
                          "\n".join("%s %3d %s" % ("=>" if k == pos else "  ", k, json.dumps(e)) for k, e in enumerate(runs2[i][:pos + 6])), err))
