"""One function per property: which scenarios are run and how they are judged."""
import random
from vlib import *
import scen, store, funcs, pool

MC_GROUPS = {
    "lookup": ('{"put", "get"}', "NF = 1 NH = 2 NC = 0 NKeys = 3"),
    "cursor": ('{"put", "cur"}', "NF = 1 NH = 1 NC = 1 NKeys = 3"),
    "meta": ('{"meta", "put"}', "NF = 1 NH = 2 NC = 0 NKeys = 2"),
    "env": ('{"put", "env"}', "NF = 2 NH = 2 NC = 0 NKeys = 1"),
    "damage": ('{"put", "dmg"}', "NF = 2 NH = 1 NC = 0 NKeys = 1"),
}
MC_CFG = """SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS %s
  Group = %s
INVARIANTS TypeOK ExclusiveWriter ReadersSeeDurable CommittedMatches CursorLeftExists KeysFit UserFits CfgShape LookupDeterministic StoreDecided DamageNeverLies
PROPERTIES KeysOnlyGrow ReadOnlyInert
"""
LAYOUT_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS %s
INVARIANTS Structure Lookup NeverLonger
PROPERTIES OneAtATime RoundTrip
"""
LAYOUT_QUICK = ["MaxKeys = 7 HashVals = {0, 1, 3} Cap = 1 Slots = 2 Bigs = {0} Nb = {1, 2}",
                "MaxKeys = 4 HashVals = {0, 1, 2, 3} Cap = 1 Slots = 2 Bigs = {0, 1} Nb = {1, 2, 4}"]
LAYOUT_DEEP = ["MaxKeys = 9 HashVals = {0, 1} Cap = 2 Slots = 2 Bigs = {0, 1} Nb = {1}",
               "MaxKeys = 6 HashVals = {0, 1, 2, 3} Cap = 1 Slots = 2 Bigs = {0, 1} Nb = {1, 2}"]


def spec_check(chk, module, cfg, mem="8g", timeout=800):
    """exhaustive exploration of a specification; failing it is a defect of the machinery"""
    r = tlc(chk.work, module, cfg, workers=JOBS, timeout=timeout, mem=mem, tag="mc")
    if r["rc"] != 0:
        raise ToolError("the specification %s breaks its own invariants: %s" % (module, r["out"][-3000:]))
    c = chk.coverage
    c["states"] = c.get("states", 0) + r["distinct"]
    c["transitions"] = c.get("transitions", 0) + r["generated"]


def layout_check(chk, quick_ones=(0, 1)):
    for i in quick_ones:
        spec_check(chk, "Layout", LAYOUT_CFG % LAYOUT_QUICK[i])
    if not quick(chk):
        for x in LAYOUT_DEEP:
            spec_check(chk, "Layout", LAYOUT_CFG % x)


def model_check(chk, groups):
    """exhaustive exploration of the specification with small constants"""
    for g in groups:
        grp, consts = MC_GROUPS[g]
        spec_check(chk, "FileDBMC", MC_CFG % (consts, grp))


def api_check(chk, scripts, what, timeout=90, exe=None, kind=None):
    """run scenarios against the real library, judge the traces with TLC"""
    exe = exe or build_drv(chk.work)
    # large scenarios first so that the workers stay busy
    scripts.sort(key=lambda s: -s.steps() * (20 + len(s.keys)))
    res = run_all(exe, scripts, chk.work, timeout, kind=kind)
    scripts = [x for x, _ in res]
    st, rej = validate_traces(chk.work, res, kind)
    c = chk.coverage
    c["traces_validated_against_impl"] = c.get("traces_validated_against_impl", 0) + st["traces"]
    c["trace_events"] = c.get("trace_events", 0) + st["events"]
    c["trace_states"] = c.get("trace_states", 0) + st["states"]
    c["operations_executed"] = c.get("operations_executed", 0) + sum(s.steps() for s in scripts)
    c["keys_used"] = c.get("keys_used", 0) + sum(len(s.keys) for s in scripts)
    sm = c.setdefault("samples", [])
    for x, r in (res[0], res[len(res) // 2], res[-1]):
        if len(sm) < 6:
            sm.append(dict(scenario=x.tag, note=x.note, keys=len(x.keys), events=[shorten(e) for e in r.events[:12]]))
    if rej:
        confirm(chk, exe, scripts, rej, what, timeout, kind)
    return res


def shorten(e):
    return {k: (v if not isinstance(v, list) or len(v) < 9 else v[:8] + ["..."]) for k, v in e.items()}


def confirm(chk, exe, scripts, rej, what, timeout, kind=None):
    """a rejected trace counts only if the scenario is rejected again"""
    hung = set(i for i, _, ev in rej if (ev or {}).get("why") == "hang")
    idx = sorted(set(i for i, _, _ in rej), key=lambda i: (i in hung, i))[:24]
    if len(idx) > len(hung & set(idx)) + 3:       # a few that do not take long decide
        idx = [i for i in idx if i not in hung]
    idx = [i for n, i in enumerate(idx) if i not in hung or n < 8]
    again = [scripts[i] for i in idx]
    res = run_all(exe, again, chk.work, timeout * 2 if timeout < 100 else timeout, jobs=4, kind=kind)
    again = [x for x, _ in res]
    st, rej2 = validate_traces(chk.work, res, kind, tag="again")
    for i, pos, ev in rej2[:5]:
        e = {k: v for k, v in (ev or {}).items() if k not in ("vs", "ks", "ali")}
        chk.violation("%s: the specification does not allow %s" % (what, e), account(again[i], res[i][1], pos, ev))
    if not rej2:
        chk.coverage["unconfirmed_rejections"] = len(rej)


def quick(chk):
    return chk.tier == "quick"


class Huge:
    """values beyond 4 GB run beside the other scenarios; join() judges them"""
    def __init__(self, chk, whats):
        import threading
        self.chk = chk
        rng = random.Random("huge/%s/%s" % (chk.pid, SEED))
        self.scripts = [scen.huge(rng, w) for w in whats]
        self.exe = build_drv(chk.work, sanitize=None, opt="-O2", name="hdrv")
        self.res = self.err = None
        self.th = threading.Thread(target=self.run)
        self.th.start()

    def run(self):
        try:
            self.res = run_all(self.exe, self.scripts, self.chk.work, 240, jobs=2, sub="huge")
        except Exception as x:
            self.err = x

    def join(self):
        if self.chk.violations:
            STOP.set()
            self.th.join()
            return
        self.th.join()
        if self.err:
            raise self.err
        st, rej = validate_traces(self.chk.work, self.res, tag="huge")
        self.chk.coverage["huge_value_scenarios"] = [s.note for s in self.scripts]
        if rej:
            confirm(self.chk, self.exe, self.scripts, rej, "values beyond 4 GB", 240)


def fault_runs(chk, n, what, exe=None, targets=None):
    """scenarios in which chosen I/O calls fail"""
    exe = exe or build_drv(chk.work)
    seed = chk.rng.getrandbits(60)
    # first without failures, to learn how many calls each operation makes
    s = scen.faults(random.Random(seed), n, targets=targets)
    dry = run_all(exe, s, chk.work)
    if len(dry) < len(s):
        # too many do not end even without failures
        st, rej = validate_traces(chk.work, dry)
        if rej:
            confirm(chk, exe, [x for x, _ in dry], rej, what, 60)
        return
    calls = [([sum(x) for x in zip(*r.calls)] if r.calls else [0, 0, 0, 0]) for _, r in dry]
    s = scen.faults(random.Random(seed), n, calls, targets=targets)
    s = [x for x, c in zip(s, calls) if any(c)]
    res = api_check(chk, s, what, exe=exe)
    chk.coverage["scenarios_with_a_failed_call"] = sum(1 for _, r in res if any(e.get("fi", 0) > 0 for e in r.events))


# --------------------------------------------------------------------------
def c01(chk):
    rng, q = chk.rng, quick(chk)
    huge = Huge(chk, ["lookup"] if q else ["lookup"] * 3)
    model_check(chk, ["lookup"])
    s = scen.growth(rng, 60 if q else 400)
    s += scen.sweeps(rng, chk.tier)
    s += scen.big_pages(rng, chk.tier)
    s += scen.interleaved(rng, 40 if q else 250)
    for hs, n, nb in ((0, 5000, 1), (4, 3000, 3), (6, 2500, 1), (1, 350, 1), (5, 500, 2), (2, 900, 1), (3, 600, 4), (0, 2500, 50)):
        s.append(scen.many_keys(rng, n if q else n * 4, hash=hs, nb=nb, cache=rng.choice([0, 1, 8192])))
    # more keys, and more pages, than 16 bits count
    s.append(scen.many_keys(rng, 68000, klens=(300, 400, 440), vl=(0, 4), batches=2))
    s.append(scen.many_keys(rng, 3000 if q else 20000, bs=1024, klens=(8, 9, 200), vl=(0, 40, 1100)))
    s += scen.generated(chk, 120 if q else 1200, stats=chk.coverage)
    s += scen.sessions(rng, 25 if q else 200)
    s += scen.rearrange(rng, 25 if q else 200)
    s += scen.cache_variants(rng, 3 if q else 20)
    s += scen.tall(rng, 1 if q else 8)
    s += scen.many_buckets(rng, 1 if q else 8)
    api_check(chk, s, "lookups")
    huge.join()


def c02(chk):
    rng, q = chk.rng, quick(chk)
    huge = Huge(chk, ["drop", "refuse"] if q else ["drop", "refuse", "shrink", "shrink", "limits"])
    model_check(chk, ["lookup"])
    b = 512
    lens = [0, 1, 2, 10, b - 56, b - 53, b - 52, b - 51, b - 32, b - 31, b, b + 20, 2 * b - 84, 2 * b - 83, 3 * b, 6 * b + 3]
    s = [scen.replace_matrix(rng, 512, lens, cache=c, hash=h) for c, h in ((1, 0), (0, 4), (4000, 1))]
    b = 1024
    lens = [0, 1, b - 56, b - 52, b - 51, b - 32, b + 1, 2 * b - 84, 2 * b - 80, 4 * b]
    s += [scen.replace_matrix(rng, 1024, lens, cache=c, hash=h) for c, h in ((1, 0), (0, 0))]
    s += [scen.replace_matrix(rng, 4096, [0, 5, 4040, 4044, 4045, 4064, 4096, 9000, 20000], cache=c) for c in (1, 0)]
    for _ in range(6 if q else 60):
        bs = rng.choice([512, 1024])
        s.append(scen.replace_matrix(rng, bs, sorted(set(scen.vlen(rng, bs) for _ in range(12))), cache=scen.cache_choice(rng, bs), hash=rng.choice([0, 4, 6, 1])))
    s += scen.refusals(rng, 30 if q else 200)
    s += scen.interleaved(rng, 60 if q else 400)
    s += scen.generated(chk, 120 if q else 1200, stats=chk.coverage, ops=["open", "open", "put", "bulk", "bulk", "reput", "reput", "reput", "refit", "refit", "refit", "get", "getall", "scan", "del", "close", "sync"])
    s += scen.sessions(rng, 25 if q else 200)
    s += scen.tall(rng, 1 if q else 8)
    api_check(chk, s, "refused and replacing stores")
    huge.join()


def c03(chk):
    rng, q = chk.rng, quick(chk)
    huge = Huge(chk, ["session"] if q else ["session"] * 3)
    model_check(chk, ["lookup", "meta"])
    s = scen.sessions(rng, 110 if q else 900)
    s += scen.creeping(rng, 8 if q else 40, total=150 if q else 400)
    s += scen.creeping(rng, 4 if q else 20, total=200 if q else 600, step=(3, 7, 11), klens=(8, 12), vlens=(4, 9))
    s += scen.generated(chk, 120 if q else 1200, stats=chk.coverage, ops=["open"] * 4 + ["close"] * 3 + ["bulk", "bulk", "put", "refit", "uset", "csetall", "cset1", "getall", "copy", "uget", "cgetall", "sync"])
    s += scen.freechain(rng, 4 if q else 30, keys=300 if q else 900)
    s += scen.rearrange(rng, 30 if q else 200)
    s += scen.tall(rng, 2 if q else 12, meta=True)
    s += scen.many_buckets(rng, 2 if q else 12)
    s += scen.freeturn(rng, 1 if q else 8)
    api_check(chk, s, "persistence")
    huge.join()


def c04(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["lookup"])
    s = scen.sync_points(rng, 150 if q else 1200)
    s += scen.creeping(rng, 10 if q else 50, total=120 if q else 350, kill=True)
    s += scen.creeping(rng, 4 if q else 20, total=150 if q else 500, step=(3, 7, 11), klens=(8, 12), vlens=(4, 9), kill=True)
    s += scen.generated(chk, 160 if q else 1500, stats=chk.coverage, ops=["open"] * 4 + ["synckill"] * 3 + ["bulk", "bulk", "put", "refit", "uset", "csetall", "cset1", "getall", "sync", "sync", "kill", "kill", "close", "scan", "get"])
    s += scen.tall(rng, 2 if q else 12, kill=True, meta=True)
    api_check(chk, s, "durability of sync")


def c05(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["cursor"])
    s = scen.cursors(rng, 160 if q else 1200)
    s += scen.growth(rng, 40 if q else 300, scanp=1.0)
    s += scen.generated(chk, 160 if q else 1500, stats=chk.coverage, depth=110, ops=["open"] * 2 + ["copen", "copen", "cclose"] + ["cget"] * 8 + ["bulk", "bulk", "put", "refit", "refit", "get", "scan", "scan", "close"])
    s += scen.tall(rng, 2 if q else 12)
    s += scen.many_buckets(rng, 3 if q else 20)
    api_check(chk, s, "cursor traversal")


def c07(chk):
    rng, q = chk.rng, quick(chk)
    huge = Huge(chk, ["moves"] if q else ["moves"] * 3)
    model_check(chk, ["lookup"])
    layout_check(chk, (0,))
    s = scen.rearrange(rng, 120 if q else 900)
    s += scen.creeping(rng, 10 if q else 60, total=130 if q else 400, rearr=1)
    s += scen.creeping(rng, 6 if q else 30, total=130 if q else 400)
    s += scen.sessions(rng, 40 if q else 300, rearr=1)
    s += scen.freechain(rng, 8 if q else 60, keys=500 if q else 1500)
    s += scen.structure_creep(rng, 8 if q else 60, total=40 if q else 120)
    s += scen.moves_creep(rng, 24 if q else 160, total=90 if q else 200)
    s += scen.generated(chk, 80 if q else 800, stats=chk.coverage, ops=["open"] * 4 + ["close"] * 3 + ["bulk", "bulk", "put", "refit", "getall", "copy", "scan", "digest"], rearrs=(1, 1, 0))
    s += scen.tall(rng, 3 if q else 16, rearr=1, image=True)
    s += scen.many_buckets(rng, 1 if q else 6, rearr=1, image=True)
    s += scen.freeturn(rng, 2 if q else 12)
    api_check(chk, s, "page rearrangement")
    huge.join()


def c08(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["lookup"])
    s = scen.cache_variants(rng, 14 if q else 90)
    s += scen.growth(rng, 30 if q else 200)
    s += scen.cursors(rng, 30 if q else 200)
    s += scen.metadata(rng, 20 if q else 150)
    s += scen.generated(chk, 80 if q else 800, stats=chk.coverage, caches=[1, 1, 1000, 5000])
    s += scen.tall(rng, 2 if q else 12, caches=(1, 3000, 20000))
    s += scen.freeturn(rng, 1 if q else 6)
    api_check(chk, s, "cache transparency")


def c11(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["lookup", "meta"])
    s = scen.readonly(rng, 200 if q else 1500)
    s += scen.generated(chk, 120 if q else 1200, stats=chk.coverage, modes=["c", "w", "r", "r", "r", "r"], ops=["open"] * 4 + ["close"] * 2 + ["bulk", "put", "reput", "uset", "csetall", "cset1", "del", "getall", "scan", "digest", "digest", "sync", "uget", "cgetall"])
    s += scen.tall(rng, 2 if q else 10, ro=True, meta=True)
    api_check(chk, s, "read-only handles")


def c12(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["meta"])
    s = scen.metadata(rng, 260 if q else 2000)
    s += scen.metadata(rng, 12 if q else 100, big=True)
    s += scen.sessions(rng, 40 if q else 300)
    s += scen.generated(chk, 120 if q else 1200, stats=chk.coverage, ops=["open"] * 2 + ["close", "sync", "bulk", "put"] + ["uset", "uget", "caps", "csetall", "cgetall", "cset1", "cset1", "cget1", "cget1", "synckill"])
    api_check(chk, s, "user information and configurations")


def c06(chk):
    rng, q = chk.rng, quick(chk)
    layout_check(chk)
    s = scen.structure(rng, 90 if q else 900)
    s += scen.structure_creep(rng, 14 if q else 80, total=45 if q else 120)
    s += scen.freechain(rng, 8 if q else 60, keys=500 if q else 1500)
    s += scen.tall(rng, 3 if q else 16, image=True)
    s += scen.tall(rng, 1 if q else 6, image=True, kill=True)
    s += scen.many_buckets(rng, 1 if q else 6, image=True)
    s += scen.freeturn(rng, 3 if q else 20)
    api_check(chk, s, "structure of the file")


def c13(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["damage"])
    s = scen.damages(rng, 100 if q else 700, 24 if q else 60)
    chk.coverage["damages_injected"] = sum(len([1 for x in sc.segs if x and callable(x[0][0]) and x[0][1].get("op") == "corrupt"]) for sc in s)
    api_check(chk, s, "damaged files")


def c16(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["damage"])
    huge = Huge(chk, ["v5"])
    s = scen.foreign(rng, 240 if q else 2000)
    s += scen.tall_foreign(rng, 2 if q else 12)
    api_check(chk, s, "older versions and foreign byte orders")
    huge.join()


def c14(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["lookup"])
    fault_runs(chk, 2200 if q else 20000, "I/O failures")
    api_check(chk, scen.move_faults(rng, 250 if q else 3000), "I/O failures while pages are moved")


def c15(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["env"])
    s = scen.refused_opens(rng, 160 if q else 1500)
    s += scen.option_ranges(rng, 240 if q else 2000)
    s += scen.sessions(rng, 30 if q else 200)
    api_check(chk, s, "validation at open")


def c20(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["lookup", "cursor"])
    s = scen.hygiene(rng, 160 if q else 1600)
    s += scen.refusals(rng, 30 if q else 300)
    s += scen.cursors(rng, 40 if q else 300)
    s += scen.interleaved(rng, 30 if q else 300)
    s += scen.metadata(rng, 30 if q else 200)
    s += scen.generated(chk, 100 if q else 1000, stats=chk.coverage, caches=[1, 1, 1, 1000, 0])
    api_check(chk, s, "memory, descriptors and termination")
    fault_runs(chk, 500 if q else 5000, "memory after failed I/O", targets=["getall", "getall", "scan", "reads", "reads", "reads", "ropen", "open", "sync", "close"])
    exe = build_cxx(chk.work, "sdrv", "sdrv.cpp", sanitize=None, defs=("COUNT_ALLOCS",), wraps=("malloc", "calloc", "realloc", "free", "strdup"))
    api_check(chk, store.released(rng, 90 if q else 900), "memory and descriptors of the stores", exe=exe, kind=store.STORE)


def c22(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["lookup"])
    api_check(chk, scen.bounded(rng, 90 if q else 900), "memory held by open databases")
    exe = build_cxx(chk.work, "sdrv", "sdrv.cpp", sanitize=None, defs=("COUNT_ALLOCS",), wraps=("malloc", "calloc", "realloc", "free", "strdup"))
    api_check(chk, store.bounded(rng, 28 if q else 280) + store.merge_bounded(rng, 6 if q else 60), "memory held by stores and needed by merges", exe=exe, kind=store.STORE)


STORE_CFG = """SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS %s
  Group = %s
INVARIANTS TypeOK ExclusiveWriter EnsembleShape SharedNames KeysFit UnionsReadable LookupDecided
PROPERTIES OneKey KeysStay NoWriterNoChange MergedRight
"""
STORE_GROUPS = {
    "conf": ('{"conf", "copy"}', "NF = 1 NS = 2 ND = 2 NK = 2"),
    "ens": ('{"ens", "upd"}', "NF = 1 NS = 1 ND = 1 NK = 2"),
    "enscopy": ('{"ens", "upd", "copy"}', "NF = 1 NS = 2 ND = 2 NK = 1"),
    "union": ('{"conf", "union"}', "NF = 2 NS = 2 ND = 1 NK = 1"),
    "merge": ('{"conf", "ens", "merge"}', "NF = 2 NS = 2 ND = 2 NK = 1"),
    "all": ('{"conf", "ens", "upd", "merge"}', "NF = 2 NS = 2 ND = 2 NK = 1"),
}


def store_model(chk, groups):
    for g in groups:
        grp, consts = STORE_GROUPS[g]
        spec_check(chk, "StoreMC", STORE_CFG % (consts, grp))


def store_exe(chk):
    return build_cxx(chk.work, "sdrv", "sdrv.cpp")


def c17(chk):
    rng, q = chk.rng, quick(chk)
    store_model(chk, ["conf", "union"] if q else ["conf", "union", "all"])
    s = store.conf_sessions(rng, 220 if q else 2500)
    s += store.conf_sessions(rng, 160 if q else 1500, raw=0.15)
    s += store.equality(rng, 10 if q else 100)
    s += store.conf_bulk(rng, 6 if q else 30, 400 if q else 1500)
    s += store.unions(rng, 200 if q else 2000)
    s += store.released(rng, 20 if q else 200)
    s += store.generated(chk, 320 if q else 3000, store.CONF_OPS, nconf=3, nf=3, stats=chk.coverage)
    api_check(chk, s, "typed stores", exe=store_exe(chk), kind=store.STORE)


def c18(chk):
    rng, q = chk.rng, quick(chk)
    store_model(chk, ["ens", "enscopy"] if q else ["ens", "enscopy", "all"])
    s = store.ensembles(rng, 500 if q else 5000)
    s += store.ensembles(rng, 80 if q else 800, big=True)
    s += store.wide(rng, 4 if q else 20)
    s += store.unions(rng, 60 if q else 600)
    s += store.generated(chk, 320 if q else 3000, store.ENS_OPS, nconf=0, nf=2, stats=chk.coverage)
    api_check(chk, s, "ensemble stores", exe=store_exe(chk), kind=store.STORE)


def c19(chk):
    rng, q = chk.rng, quick(chk)
    store_model(chk, ["merge"] if q else ["merge", "all"])
    s = store.merges(rng, 500 if q else 5000)
    for nk, nf in ((1, 1), (5, 2), (8, 3)) + (() if q else ((13, 4), (30, 7), (2, 7))):
        s += store.merge_budgets(rng, nk, nf)
    s += store.merge_many(rng, 4 if q else 24)
    s += store.generated(chk, 320 if q else 3000, store.MERGE_OPS, nconf=2, nf=3, stats=chk.coverage)
    res = api_check(chk, s, "merge", exe=store_exe(chk), kind=store.STORE)
    chk.coverage["merges_done"] = sum(1 for _, r in res for e in r.events if e["op"] == "merge")
    chk.coverage["merges_refused"] = sum(1 for _, r in res for e in r.events if e["op"] == "died")


CRC_CFG = """SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS Alphabet = {%s} MaxLen = %d
INVARIANTS TableRight Incremental StreamRight OneByte Burst CmpRight Known
"""


def c21(chk):
    rng, q = chk.rng, quick(chk)
    every = ", ".join(str(i) for i in range(256))
    for alpha, ln in (("0, 1, 128, 255, 90", 4), (every, 1)) if q else (("0, 1, 128, 255, 90", 6), (every, 2)):
        spec_check(chk, "CrcMC", CRC_CFG % (alpha, ln))
    s = funcs.inputs(rng, 60 if q else 1500) + funcs.files(rng, 12 if q else 200)
    api_check(chk, s, "checksum, hash and order functions", exe=build_cxx(chk.work, "hdrv", "hdrv.cpp"), kind=funcs.FUNCS)


def c09(chk):
    rng, q = chk.rng, quick(chk)
    model_check(chk, ["lookup", "cursor"])
    spec_check(chk, "PoolAlgo", POOL_LIVE % ('NT = 3 NP = 2 Cap = 0 MaxOps = %d Group = {"get"} Spurious = TRUE' % (5 if q else 6)))
    exe = build_tdrv(chk.work)
    s = scen.concurrent(rng, 1500 if q else 25000)
    s += scen.concurrent(rng, 400 if q else 6000, meta=True)
    res = api_check(chk, s, "concurrent readers", exe=exe)
    chk.coverage["schedules_run"] = sum(1 for sc in s for g in sc.segs for l, _ in g if isinstance(l, str) and l.startswith("RUN"))
    chk.coverage["thread_switches"] = sum(r.switches for _, r in res)


POOL_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS %s
INVARIANTS FetchRight Marks Stays Woken Lru
PROPERTIES OnlyReleased GrowsIfNeeded
"""
POOL_LIVE = """SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
CONSTANTS %s
PROPERTIES Served
"""
ALLOPS = 'Group = {"get", "mod", "del", "sync"}'


def c10(chk):
    rng, q = chk.rng, quick(chk)
    spec_check(chk, "PoolAlgo", POOL_CFG % ("NT = 2 NP = 3 Cap = 1 MaxOps = %d %s Spurious = FALSE" % (6 if q else 7, ALLOPS)))
    spec_check(chk, "PoolAlgo", POOL_CFG % ("NT = 3 NP = 2 Cap = 0 MaxOps = %d %s Spurious = FALSE" % (5 if q else 7, ALLOPS)))
    spec_check(chk, "PoolAlgo", POOL_LIVE % ('NT = 3 NP = 2 Cap = 0 MaxOps = %d Group = {"get"} Spurious = TRUE' % (5 if q else 7)))
    exe = pool.build_pool(chk.work)
    s = pool.randoms(rng, 350 if q else 6000)
    s += pool.randoms(rng, 200 if q else 3000, faults=1.0)
    s += pool.readonly(rng, 60 if q else 600)
    s += pool.generated(chk, 320 if q else 6000, stats=chk.coverage)
    pool.pool_check(chk, exe, s, "page pool")
    n = 1 if q else 8
    for i in range(n):
        pool.pool_check(chk, exe, pool.exhaustive(rng, 40 if q else 80, 2 if q else 3, 250 if q else 2500), "page pool, every schedule")


CHECKS = {
    "C01": (c01, "model_checking"), "C02": (c02, "model_checking"), "C03": (c03, "model_checking"), "C04": (c04, "model_checking"),
    "C05": (c05, "model_checking"), "C06": (c06, "model_checking"), "C07": (c07, "model_checking"), "C08": (c08, "model_checking"), "C09": (c09, "model_checking"), "C10": (c10, "model_checking"), "C11": (c11, "model_checking"),
    "C12": (c12, "model_checking"), "C13": (c13, "model_checking"), "C14": (c14, "model_checking"), "C15": (c15, "model_checking"), "C16": (c16, "model_checking"),
    "C17": (c17, "model_checking"), "C18": (c18, "model_checking"), "C19": (c19, "model_checking"),
    "C20": (c20, "model_checking"), "C21": (c21, "model_checking"), "C22": (c22, "model_checking"),
}

DEFAULT_NOTE = ("TLA+ spec FileDB checked by TLC; TLC-generated and directed behaviours replayed into the real library, traces validated by TLC",
                "The specification is explored exhaustively for small constants; the implementation is checked on the behaviours explored (bounded, seeded). Trusted: gcc, ASan, TLC, the driver's mapping between bytes and abstract ids.")
STORE_NOTE = ("TLA+ spec Store checked by TLC; TLC-generated and directed behaviours replayed into the real C++ layer, traces validated by TLC", DEFAULT_NOTE[1])
CRC_NOTE = ("TLA+ spec Crc checked by TLC; results recorded from the real functions and checksums stored in real files validated by TLC", DEFAULT_NOTE[1])
POOL_NOTE = ("TLA+ specs PoolAlgo (algorithm, safety and liveness) and PagePool (what callers see) checked by TLC; TLC-generated behaviours replayed into the real page pool with the same interleaving; random and exhaustive schedules of the real code, all runs validated by TLC", DEFAULT_NOTE[1])
THREAD_NOTE = ("TLA+ spec FileDB (and PoolAlgo for liveness) checked by TLC; threads of the real library run under chosen schedules (interposed locks, preemption at basic blocks, spurious wakeups), results validated by TLC", DEFAULT_NOTE[1])
MEM_NOTE = ("TLA+ specs FileDB and Store (bounds of the memory held, as functions of their state) checked by TLC; directed behaviours run on the real library and C++ layer with allocations counted, traces validated by TLC", DEFAULT_NOTE[1])
NOTES = {"C22": MEM_NOTE, "C09": THREAD_NOTE, "C10": POOL_NOTE, "C21": CRC_NOTE, "C17": STORE_NOTE, "C18": STORE_NOTE, "C19": STORE_NOTE}
