"""Scenario families.  Every function returns a list of Script objects; the
observations of all of them are judged by TLC against spec/FileDBTrace.tla."""
import random
from vlib import *

PAGES = [512, 1024, 2048, 4096, 8192]
HASHES = [0, 0, 0, 4, 6, 2, 3, 5, 1]


def maxkey(bs):
    return bs - 56


def cache_choice(rng, bs):
    return rng.choice([1, 1, bs * 2, bs * 5, bs * 12, 40000, 0])


def klen(rng, bs, small=False):
    x = rng.random()
    if x < 0.75 or small:
        return rng.choice([4, 5, 6, 7, 8, 11, 16, 20, 31, 32, 33])
    if x < 0.9:
        return rng.randint(40, max(41, bs // 4))
    if x < 0.97:
        return rng.randint(bs // 4, maxkey(bs))
    return maxkey(bs) - rng.randint(0, 6)


def vlen(rng, bs, big=True):
    x = rng.random()
    if x < 0.45:
        return rng.randint(0, 40)
    if x < 0.6:
        return rng.randint(40, bs // 2)
    if x < 0.8:
        return bs - rng.randint(0, 120)
    if x < 0.9 or not big:
        return rng.randint(bs // 2, bs * 2)
    if x < 0.97:
        return rng.randint(1, 4) * (bs - 32) + rng.randint(-60, 60)
    return rng.randint(bs * 2, bs * 9)


def newkv(sc, rng, n, bs, small=False, big=True, modes="rrrpb", klens=None, vlens=None):
    out = []
    for _ in range(n):
        k = sc.key(rng.choice(klens) if klens else klen(rng, bs, small), rng.choice(modes))
        l = rng.choice(vlens) if vlens is not None else vlen(rng, bs, big)
        x = rng.random()
        if x < 0.04: v = sc.val(l, "z")
        elif x < 0.06: v = sc.val(l, "o")
        elif x < 0.12 and out: v = out[rng.randrange(len(out))][1]; l = sc.vals[v - 1]; v = sc.val(l, "t" if l >= 5 else "l", v)
        else: v = sc.val(l)
        out.append((k, v))
    return out


# --------------------------------------------------------------------------
def growth(rng, n, pages=PAGES, sizes=(0, 1, 2, 5, 30, 120, 400), scanp=0.5):
    """a life of a database in one session: mixed stores and complete lookups"""
    out = []
    for i in range(n):
        bs = rng.choice(pages)
        sc = Script("growth%d" % i)
        hs = rng.choice(HASHES)
        p = dict(bs=bs, nb=rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 33, 64]), cache=cache_choice(rng, bs), rearr=rng.choice([0, 1]), hash=hs, cmp=rng.choice([0, 0, 1]))
        sc.note = dict(p)
        sc.open(1, 1, "c", **p)
        tot = 0
        for r in range(rng.randint(2, 6)):
            m = rng.choice(sizes)
            if hs in (1, 5, 2, 3):
                m = min(m, 60)
            kv = newkv(sc, rng, m, bs)
            tot += m
            sc.putn(1, kv)
            sc.getall(1)
            if rng.random() < scanp:
                sc.scan(1, rng.choice("FLNP"), rng.choice([0, 1, 1]))
        newkv(sc, rng, 5, bs)      # keys never stored
        sc.getall(1)
        sc.close(1)
        inspect(sc, 1, hs, meta=False, write=False)
        out.append(sc)
    return out


def key_sweep(rng, bs, lens, mode, hash=0, vl=(0, 7), nb=1, cache=1):
    sc = Script("keysweep bs=%d mode=%s" % (bs, mode))
    sc.open(1, 1, "c", bs=bs, nb=nb, cache=cache, hash=hash)
    kv = [(sc.key(l, mode), sc.val(rng.choice(vl))) for l in lens]
    for j in range(0, len(kv), 16):
        sc.putn(1, kv[j:j + 16])
        sc.getall(1)
    sc.scan(1, "F")
    for l in (maxkey(bs) + 1, maxkey(bs) + 2, bs - 28, bs - 1, bs, bs + 1, 3 * bs):
        k = sc.key(l, mode)
        sc.put(1, k, 1)
        sc.get(1, k)
    sc.getall(1)
    sc.close(1)
    inspect(sc, 1, hash, meta=False)
    return sc


def val_sweep(rng, bs, lens, hash=0, keylen=6, nb=1, cache=1, shuffle=True, check=24):
    sc = Script("valsweep bs=%d" % bs)
    sc.open(1, 1, "c", bs=bs, nb=nb, cache=cache, hash=hash)
    lens = list(lens)
    if shuffle:
        rng.shuffle(lens)
    kv = [(sc.key(keylen, "r"), sc.val(l)) for l in lens]
    for j in range(0, len(kv), check):
        sc.putn(1, kv[j:j + check])
        sc.getall(1)
    for k, v in rng.sample(kv, min(len(kv), 25)):
        l = sc.vals[v - 1]
        for b in (l, l + 1, l - 1, max(1, l // 2), l + 5000):
            if b > 0:
                sc.get(1, k, b)
        sc.get(1, k)
    sc.scan(1, "L")
    sc.getall(1)
    sc.close(1)
    inspect(sc, 1, hash, meta=False)
    return sc


def sweeps(rng, tier):
    out = []
    mk = maxkey(512)
    full = list(range(1, mk + 1))
    for mode in "rpzb":
        l = full if mode in "rz" else [rng.randint(1, mk) for _ in range(120)] + [mk, mk - 1, mk - 2, mk - 3, mk - 4, mk - 5]
        if mode in "rp":
            rng.shuffle(l)
        out.append(key_sweep(rng, 512, l, mode, hash=rng.choice([0, 4, 6]), cache=rng.choice([1, 0])))
    for bs in (1024, 4096, 65536):
        mk2 = maxkey(bs)
        l = sorted(set([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, bs // 2 - 40, bs // 2 - 28, bs // 2, bs // 2 + 1] + [mk2 - i for i in range(12)] + [rng.randint(1, mk2) for _ in range(40)]))
        l = [x for x in l if 0 < x <= mk2]
        rng.shuffle(l)
        out.append(key_sweep(rng, bs, l, "r", nb=rng.choice([1, 4])))
    # every value length over the first pages
    cuts = list(range(0, 3 * 512 + 80))
    rng.shuffle(cuts)
    step = 4
    for j in range(step):
        out.append(val_sweep(rng, 512, cuts[j::step], cache=rng.choice([1, 0, 3000]), nb=rng.choice([1, 2, 64])))
    for bs in (1024, 2048, 4096, 16384):
        l = []
        for m in range(1, 5):
            for base in (m * bs, m * (bs - 32), m * (bs - 28), m * (bs - 32) - 20, m * (bs - 52), m * (bs - 56)):
                l += [base + d for d in range(-6, 7)]
        l = sorted(set(x for x in l if x >= 0))
        rng.shuffle(l)
        out.append(val_sweep(rng, bs, l[:(160 if tier == "quick" else 400)], cache=rng.choice([1, 0])))
    # equal sized values placed one after another so that every residue of the page is hit
    for l in ([1, 4, 17, 100, 231, 232, 233, 439, 440, 441, 448, 452, 456, 459, 460, 461, 480, 481] if tier == "quick" else list(range(0, 520, 3))):
        out.append(val_sweep(rng, 512, [l] * 40, shuffle=False, cache=1, check=40))
    return out


def many_keys(rng, n, bs=512, hash=0, nb=1, cache=0, rearr=1, vl=(8, 9, 12), batches=8, klens=(8, 9, 12)):
    sc = Script("many n=%d bs=%d hash=%d nb=%d cache=%d" % (n, bs, hash, nb, cache))
    sc.open(1, 1, "c", bs=bs, nb=nb, cache=cache, hash=hash, rearr=rearr)
    kv = newkv(sc, rng, n, bs, klens=klens, vlens=vl)
    st = max(1, n // batches)
    for j in range(0, n, st):
        sc.putn(1, kv[j:j + st])
        sc.getall(1)
    sc.scan(1, "F"); sc.scan(1, "L")
    sc.close(1)
    inspect(sc, 1, hash, meta=False)
    return sc


def tall(rng, n, kill=False, rearr=None, caches=(0, 200000), meta=False, ro=False, image=False):
    """files of more than 65536 pages: big values first, so that buckets, overflow
    pages, short values and the pages after the next doublings get high numbers"""
    out = []
    for i in range(n):
        sc = Script("tall%d" % i)
        hs = rng.choice([0, 0, 4, 5])
        ra = (lambda: rng.choice([0, 1])) if rearr is None else (lambda: rearr)
        p = dict(bs=512, nb=rng.choice([1, 5]), hash=hs)
        sc.note = dict(p)
        small = [(sc.key(rng.choice([9, 20, 130, 300, 440])), sc.val(rng.choice([0, 5, 40, 600, 1500]))) for _ in range(900)]
        bigs = [(sc.key(12), sc.val(rng.choice([300000, 420007, 350000]))) for _ in range(105)]
        sc.open(1, 1, "c", cache=rng.choice(caches), rearr=ra(), **p)
        if meta: sc.uset(1, sc.val(700))
        sc.putn(1, small[:150]); sc.putn(1, bigs[:100]); sc.putn(1, small[150:500])
        sc.getall(1)
        if kill:
            sc.sync(1); sc.kill()
        else:
            sc.scan(1, "F"); sc.close(1)
            if rng.random() < 0.5: sc.newproc()
        if image: sc.image(1, hs)
        sc.open(1, 1, "w", cache=rng.choice(caches), rearr=ra(), **p)
        if meta: sc.uget(1)
        sc.putn(1, small[500:800]); sc.putn(1, bigs[100:])
        for j in range(3):
            k, v = bigs[rng.randrange(100)]
            sc.put(1, k, sc.val(sc.vals[v - 1] - rng.choice([0, 1, 100000])))
        sc.scan(1, "L")
        if kill: sc.sync(1); sc.kill()
        else: sc.close(1)
        if image: sc.image(1, hs)
        if ro:
            sc.digest(1)
        sc.open(1, 1, "r", cache=rng.choice(caches), **p)
        if ro:
            sc.put(1, small[0][0], 1); sc.put(1, small[899][0], 1)
        sc.getall(1); sc.scan(1, "F"); sc.close(1)
        if ro:
            sc.digest(1)
        sc.open(1, 1, "w", cache=rng.choice(caches), rearr=ra(), **p)
        sc.putn(1, small[800:]); sc.close(1)
        if image: sc.image(1, hs)
        inspect(sc, 1, hs, meta=meta)
        out.append(sc)
    return out


def many_buckets(rng, n, rearr=None, image=False, hint=(65537, 70000, 131072, 131073)):
    """files made for more than 65536 buckets, nearly all of them empty"""
    out = []
    for i in range(n):
        sc = Script("buckets%d" % i)
        hs = rng.choice([0, 4])
        p = dict(bs=512, nb=rng.choice(hint), hash=hs)
        sc.note = dict(p)
        ra = (lambda: rng.choice([0, 1])) if rearr is None else (lambda: rearr)
        kv = newkv(sc, rng, rng.choice([1, 3, 40, 200]), 512)
        h = len(kv) // 2
        sc.open(1, 1, "c", cache=rng.choice([0, 1, 200000]), rearr=ra(), **p)
        sc.putn(1, kv[:h]); sc.getall(1)
        sc.scan(1, rng.choice("FL")); sc.close(1)
        if image: sc.image(1, hs)
        sc.open(1, 1, "w", cache=rng.choice([0, 200000]), rearr=ra(), **p)
        sc.putn(1, kv[h:])
        for k, v in rng.sample(kv, min(len(kv), 5)): sc.put(1, k, sc.repl(rng, v))
        sc.scan(1, "F"); sc.scan(1, "L"); sc.close(1)
        if image: sc.image(1, hs)
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    return out


def big_pages(rng, tier):
    out = []
    for bs in (16384, 65536, 262144, 1048576):
        sc = Script("bigpage %d" % bs)
        hs = rng.choice([0, 4])
        sc.open(1, 1, "c", bs=bs, nb=rng.choice([1, 4]), cache=rng.choice([1, 4 * bs, 0]), hash=hs)
        kv = newkv(sc, rng, 40, bs, klens=[5, 9, 100, 1000, maxkey(bs), maxkey(bs) - 1, maxkey(bs) // 2, maxkey(bs) // 3], vlens=[0, 1, 100, bs - 52, bs - 51, bs - 60, bs, 2 * bs + 7])
        for j in range(0, 40, 10):
            sc.putn(1, kv[j:j + 10]); sc.getall(1)
        sc.scan(1, "F")
        sc.close(1)
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    sc = Script("bigvalue")
    sc.open(1, 1, "c", bs=4096, nb=1, cache=rng.choice([1, 0]))
    ks = [(sc.key(9), sc.val(l)) for l in (1 << 20, (1 << 20) - 32, 100, 5000000, 3, 70000, 65536, 65535, 65537, 16777216 + 5)]
    sc.putn(1, ks); sc.getall(1); sc.close(1); inspect(sc, 1, 0, meta=False)
    out.append(sc)
    return out


def interleaved(rng, n, steps=150):
    """single stores and lookups with small value pools: replacement, refusals, buffers"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 1024, 4096])
        sc = Script("inter%d" % i)
        hs = rng.choice(HASHES)
        p = dict(bs=bs, nb=rng.choice([1, 2, 5, 16]), cache=cache_choice(rng, bs), rearr=rng.choice([0, 1]), hash=hs)
        sc.note = dict(p)
        sc.open(1, 1, "c", **p)
        ks = [sc.key(klen(rng, bs), rng.choice("rrpb")) for _ in range(rng.choice([3, 12, 60]))]
        vs = [sc.val(vlen(rng, bs)) for _ in range(18)] + [1]
        for _ in range(8):
            v = rng.choice(vs); l = sc.vals[v - 1]
            vs.append(sc.val(l, rng.choice("ttlfz"), v) if l >= 5 else sc.val(l))
        for s in range(steps):
            k = rng.choice(ks)
            x = rng.random()
            if x < 0.5:
                sc.put(1, k, rng.choice(vs), 20 if rng.random() < 0.25 else 0)
            elif x < 0.85:
                sc.get(1, k, rng.choice([-1, -1, 0, 1, 17, bs, bs * 10]))
            elif x < 0.9:
                sc.delete(1, k)
            elif x < 0.93:
                kk = sc.key(maxkey(bs) + rng.randint(1, 60)); sc.put(1, kk, rng.choice(vs)); sc.get(1, kk)
            elif x < 0.96:
                sc.getall(1)
            else:
                sc.scan(1, rng.choice("FLNP"))
        sc.getall(1)
        sc.close(1)
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def replace_matrix(rng, bs, lens, cache=1, hash=0):
    """every (old length, new length) pair, neighbours stored around each"""
    sc = Script("replace bs=%d cache=%d" % (bs, cache))
    sc.open(1, 1, "c", bs=bs, nb=rng.choice([1, 8]), cache=cache, hash=hash)
    pairs = [(a, b) for a in lens for b in lens]
    rng.shuffle(pairs)
    items, kv = [], []
    for a, b in pairs:
        k = sc.key(rng.choice([6, 7, 20]))
        kv.append((k, sc.val(a)))
        items.append((k, a, b))
        if rng.random() < 0.4:
            kv.append((sc.key(8), sc.val(rng.choice([0, 3, 50, bs - 52]))))
    for j in range(0, len(kv), 100):
        sc.putn(1, kv[j:j + 100])
    sc.getall(1)
    rng.shuffle(items)
    for n, (k, a, b) in enumerate(items):
        sc.put(1, k, sc.val(b))
        if n % 6 == 0:
            sc.getall(1)
        else:
            sc.get(1, k)
        if rng.random() < 0.15:
            sc.put(1, k, sc.val(rng.choice([a, b, max(0, b - 1), b + 1])))
            sc.get(1, k)
        if rng.random() < 0.1:
            sc.put(1, k, sc.val(b), 20)
    sc.getall(1)
    sc.scan(1, "F")
    sc.close(1)
    inspect(sc, 1, hash, meta=False)
    return sc


def refusals(rng, n):
    """many refused requests on a tiny cache, then full use"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 1024, 4096])
        cache = rng.choice([1, 1, bs * 4])
        sc = Script("refuse%d" % i)
        sc.note = dict(bs=bs, cache=cache)
        hs = rng.choice([0, 1, 4])
        sc.res()
        sc.open(1, 1, "c", bs=bs, cache=cache, nb=rng.choice([1, 4, 20]), hash=hs)
        kv = newkv(sc, rng, rng.choice([20, 60, 150]) if hs != 1 else 30, bs)
        sc.putn(1, kv)
        big = sc.val(60000)
        for j in range(rng.choice([60, 150])):
            k, v = rng.choice(kv)
            x = rng.random()
            if x < 0.33: sc.put(1, k, v, 20)
            elif x < 0.4: sc.put(1, rng.choice([k, sc.key(12)]), v, rng.choice([1, 2, 19, 21, 4, 16, 1 << 30]))
            elif x < 0.6: sc.put(1, k, big)
            elif x < 0.7: sc.put(1, sc.key(bs + rng.randint(-55, 40)), v)
            elif x < 0.8: sc.delete(1, k)
            elif x < 0.9: sc.get(1, k, max(1, sc.vals[v - 1] // 2))
            else: sc.get(1, sc.key(9))
            if rng.random() < 0.05:
                sc.getall(1)
        sc.getall(1)
        more = newkv(sc, rng, 80 if hs != 1 else 20, bs)
        sc.putn(1, more)
        sc.getall(1); sc.scan(1, rng.choice("FL"))
        sc.close(1)
        sc.res()
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def sessions(rng, n, nsess=(3, 8), adds=(0, 1, 2, 7, 25, 90), rearr=None, procs=0.5, meta=True, small_ok=True):
    """several sessions with different options; contents compared after each"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 1024, 4096, 8192])
        hs = rng.choice([0, 0, 4, 6, 2, 1])
        umax, ncfg = rng.choice([(0, 0), (100, 3), (2000, 12), (bs, 7), (bs * 3, 40)])
        sc = Script("sess%d" % i)
        sc.note = dict(bs=bs, hash=hs, umax=umax, ncfg=ncfg)
        nb = rng.choice([0, 1, 1, 2, 3, 4, 8, 15, 16, 17, 64])
        live = []
        for s in range(rng.randint(*nsess)):
            if s and rng.random() < procs:
                sc.newproc()
            o = dict(cache=cache_choice(rng, bs), rearr=rng.choice([0, 1]) if rearr is None else rearr, hash=hs)
            if s == 0:
                sc.open(1, 1, "c", bs=bs, nb=nb, umax=umax, ncfg=ncfg, **o)
            else:
                # hints of later opens must not matter
                sc.open(1, 1, rng.choice("wwc"), bs=rng.choice([512, 1024, 8192, 0, bs]), nb=rng.choice([1, 7, 200]), umax=rng.choice([0, 9, 100000]), ncfg=rng.choice([0, 1, 99]), **o)
                sc.getall(1)
                if rng.random() < 0.3: sc.scan(1, rng.choice("FL"))
            m = rng.choice(adds)
            if hs in (1, 2): m = min(m, 40)
            kv = newkv(sc, rng, m, bs)
            sc.putn(1, kv)
            live += kv
            for _ in range(rng.choice([0, 0, 3, 8])):
                if live:
                    k, v = rng.choice(live)
                    sc.put(1, k, sc.repl(rng, v))
            if meta and rng.random() < 0.5:
                um = umax or 4000
                sc.uset(1, sc.val(rng.choice([0, 1, um, um - 1, um // 2, um + 1])))
            if meta and rng.random() < 0.4:
                nc = ncfg or 1
                sc.csetall(1, [(100 + j * 3, rng.randint(0, 30)) for j in range(nc)])
                if rng.random() < 0.5:
                    j = rng.randrange(nc); sc.cset1(1, j, 100 + j * 3, rng.randint(0, 30))
            if rng.random() < 0.3: sc.getall(1)
            if rng.random() < 0.2: sc.sync(1)
            sc.close(1)
            if rng.random() < 0.5:
                inspect(sc, 1, hs, meta=meta, write=False, fresh=rng.random() < 0.3)
        inspect(sc, 1, hs, meta=meta)
        if rng.random() < 0.15:
            sc.open(1, 1, "t", bs=bs, hash=hs); sc.getall(1); sc.scan(1, "F"); sc.uget(1)
            sc.putn(1, live[:5]); sc.close(1)
            inspect(sc, 1, hs)
        out.append(sc)
    return out


def creeping(rng, n, total=140, step=(1, 1, 2, 3), rearr=None, bs=512, kill=False, klens=None, vlens=None, nb=None):
    """one session per handful of stores: every growth point is crossed with a close or a sync+kill"""
    out = []
    for i in range(n):
        sc = Script("creep%d" % i)
        hs = rng.choice([0, 0, 4, 6])
        bsz = bs if bs else rng.choice([512, 1024])
        nb0 = rng.choice([1, 1, 2, 4, 7]) if nb is None else nb
        sc.note = dict(hash=hs, bs=bsz, nb=nb0, rearr=rearr, kill=kill)
        first = True
        left = total
        cache = rng.choice([1, 3000, 0])
        while left > 0:
            sc.open(1, 1, "c", bs=bsz, nb=nb0, hash=hs, rearr=(rng.choice([0, 1]) if rearr is None else rearr), cache=cache)
            if not first:
                sc.getall(1)
            first = False
            m = min(left, rng.choice(step))
            sc.putn(1, newkv(sc, rng, m, bsz, klens=klens, vlens=vlens, small=False))
            left -= m
            if kill and rng.random() < 0.6:
                if rng.random() < 0.3: sc.sync(1)
                sc.sync(1); sc.kill()
            else:
                sc.close(1)
            if rng.random() < 0.15:
                sc.open(2, 1, "r", hash=hs, cache=cache); sc.getall(2); sc.scan(2, rng.choice("FL")); sc.close(2)
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    return out


def sync_points(rng, n):
    """sync followed by a kill at many points of a life, small and large caches"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 1024, 4096])
        hs = rng.choice([0, 0, 4, 6, 1])
        umax, ncfg = rng.choice([(0, 0), (100, 3), (bs * 2, 20)])
        sc = Script("sync%d" % i)
        sc.note = dict(bs=bs, hash=hs)
        first = True
        live = []
        for s in range(rng.randint(2, 7)):
            sc.open(1, 1, "c", bs=bs, nb=rng.choice([0, 1, 3, 8, 32]), hash=hs, cache=cache_choice(rng, bs), rearr=rng.choice([0, 1]), umax=umax, ncfg=ncfg)
            if not first and rng.random() < 0.7: sc.getall(1)
            first = False
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                m = rng.choice([0, 1, 1, 3, 12, 60]) if hs != 1 else rng.choice([0, 1, 5])
                kv = newkv(sc, rng, m, bs); live += kv
                sc.putn(1, kv)
                if live and rng.random() < 0.4:
                    k, v = rng.choice(live); sc.put(1, k, sc.repl(rng, v))
                if rng.random() < 0.3: sc.uset(1, sc.val(rng.randint(0, umax or 4000)))
                if rng.random() < 0.3: sc.csetall(1, [(7 + j, rng.randint(0, 9)) for j in range(ncfg or 1)])
                if rng.random() < 0.3: sc.cset1(1, 0, 7, rng.randint(0, 9))
                if rng.random() < 0.4: sc.sync(1)
                if rng.random() < 0.2: sc.getall(1)
                if rng.random() < 0.1: sc.scan(1, "F")
            sc.sync(1)
            # reads between the sync and the kill change nothing
            if rng.random() < 0.3: sc.getall(1)
            if rng.random() < 0.2: sc.scan(1, "L")
            if rng.random() < 0.2: sc.sync(1)
            if rng.random() < 0.8: sc.kill()
            else: sc.close(1); sc.newproc()
            if rng.random() < 0.6:
                inspect(sc, 1, hs, write=False)
                sc.newproc()
        inspect(sc, 1, hs)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def cursors(rng, n):
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 1024, 4096])
        hs = rng.choice([0, 0, 4, 6, 1, 5, 2, 3])
        sc = Script("cur%d" % i)
        nk = rng.choice([0, 0, 1, 2, 3, 10, 40, 120])
        if hs in (1, 5, 3, 2): nk = min(nk, 50)
        p = dict(bs=bs, hash=hs, cache=cache_choice(rng, bs), rearr=rng.choice([0, 1]), nb=rng.choice([1, 2, 4, 16, 33, 100]))
        sc.note = dict(p, nk=nk)
        sc.open(1, 1, "c", **p)
        kv = newkv(sc, rng, nk, bs)
        sc.putn(1, kv)
        extra = [sc.key(7) for _ in range(3)]
        if rng.random() < 0.6:
            sc.close(1)
            sc.open(1, 1, rng.choice("rw"), hash=hs, cache=cache_choice(rng, bs))
        for d in rng.sample("FLNP", 4):
            sc.scan(1, d, rng.choice([0, 1, 1]))
        for r in range(3):
            c = 1
            sc.copen(1, c)
            d = rng.choice("FLNP")
            step = "N" if d in "FN" else "P"
            total = nk + 2
            stop = rng.choice([total, total, rng.randint(0, total)])
            for s in range(stop):
                sc.cget(c, d if s == 0 else step, rng.choice([0, 1, 1]))
                if rng.random() < 0.25 and kv:
                    k, v = rng.choice(kv); sc.get(1, k)
                if rng.random() < 0.08: sc.get(1, rng.choice(extra))
                if rng.random() < 0.15 and kv:
                    k, v = rng.choice(kv); sc.put(1, k, sc.repl(rng, v))
                if rng.random() < 0.05 and kv:
                    sc.copen(1, 2); sc.cget(2, rng.choice("FL")); sc.cget(2, "N") if False else None; sc.cclose(2)
                if rng.random() < 0.03: sc.getall(1)
                if rng.random() < 0.03: sc.cget(c, "X", 1, rng.choice([-1, 30]))
                if rng.random() < 0.02: sc.copenbad(1, rng.choice([0, 1, 0x1002, 0x1003, 0x1005]))
            if rng.random() < 0.3:
                # restart in the middle
                sc.cget(c, "F")
                for s in range(rng.choice([1, nk + 1])): sc.cget(c, "N")
            if rng.random() < 0.3:
                sc.cget(c, "L")
                for s in range(rng.choice([1, nk + 1])): sc.cget(c, "P")
            sc.cclose(c)
        # caller supplied buffers
        if nk:
            mx = max(l for _, l in sc.keys); mv = max(sc.vals)
            sc.copen(1, 1)
            for s in range(min(nk, 6)): sc.cget(1, "F" if s == 0 else "N", 1, mx + rng.randint(0, 3), mv + rng.randint(1, 3))
            sc.cclose(1)
            sc.copen(1, 1); sc.cget(1, "F", 1, 1, mv + 1); sc.cclose(1)
            sc.copen(1, 1); sc.cget(1, "L", 1, mx, 1); sc.cclose(1)
        sc.getall(1)
        # the database continues to work after all this
        if hs not in (1, 5, 3, 2):
            pass
        sc.close(1)
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def rearrange(rng, n):
    """cycles of sessions with page moves on and off at all fill levels"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 512, 1024, 4096])
        hs = rng.choice([0, 0, 4, 6, 1])
        nb = rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 31, 32, 33, 64, 128])
        sc = Script("rearr%d" % i)
        sc.note = dict(bs=bs, hash=hs, nb=nb)
        tot = 0
        for s in range(rng.randint(2, 7)):
            re = rng.choice([1, 1, 0])
            sc.open(1, 1, "c", bs=bs, nb=nb, hash=hs, rearr=re, cache=cache_choice(rng, bs))
            if tot or s: sc.getall(1)
            m = rng.choice([0, 0, 1, 2, 3, 5, 9, 17, 40, 130, 300]) if hs != 1 else rng.choice([0, 1, 4])
            if tot > 700: m = min(m, 9)
            sc.putn(1, newkv(sc, rng, m, bs, vlens=rng.choice([None, [4, 9], [100], [bs * 2]])))
            tot += m
            sc.close(1)
            if rng.random() < 0.5: sc.newproc()
            sc.digest(1)
            sc.open(2, 1, "r", hash=hs, cache=cache_choice(rng, bs), rearr=rng.choice([0, 1])); sc.getall(2); sc.scan(2, rng.choice("FL")); sc.close(2)
            sc.digest(1)
        inspect(sc, 1, hs)
        out.append(sc)
    return out


def cache_variants(rng, n):
    """the same operations under several cache sizes"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 1024, 4096])
        hs = rng.choice([0, 4, 6, 2])
        seed = rng.random()
        nk = rng.choice([40, 120, 300])
        for cache in (1, bs, bs * 3, bs * 9, bs * 10, bs * 11, bs * 17, bs * 40, 0, 1 << 22):
            r = random.Random(seed)
            sc = Script("cache%d/%d" % (i, cache))
            sc.note = dict(bs=bs, hash=hs, cache=cache)
            o = dict(hash=hs, cache=cache)
            sc.open(1, 1, "c", bs=bs, nb=r.choice([1, 4, 16]), rearr=1, umax=bs * 3, ncfg=20, **o)
            kv = newkv(sc, r, nk, bs, klens=None)
            for j in range(0, nk, 37):
                sc.putn(1, kv[j:j + 37])
                for k, v in r.sample(kv[:j + 37], 6):
                    sc.get(1, k)
                    if r.random() < 0.3: sc.put(1, k, sc.repl(r, v))
                if r.random() < 0.5: sc.uset(1, sc.val(r.randint(0, bs * 3)))
                if r.random() < 0.5: sc.csetall(1, [(1 + z, r.randint(0, 9)) for z in range(20)])
                if r.random() < 0.5: sc.scan(1, r.choice("FL"))
                if r.random() < 0.3: sc.sync(1)
            sc.getall(1)
            sc.copen(1, 1)
            d = r.choice("FL")
            for s in range(min(nk, 60)):
                sc.cget(1, d if s == 0 else ("N" if d == "F" else "P"))
                if r.random() < 0.4:
                    k, v = r.choice(kv); sc.get(1, k)
                if r.random() < 0.2:
                    k, v = r.choice(kv); sc.put(1, k, sc.val(0))
            sc.cclose(1)
            sc.uget(1); sc.cgetall(1)
            sc.close(1)
            sc.open(1, 1, "w", **o); sc.getall(1)
            sc.putn(1, newkv(sc, r, 30, bs)); sc.getall(1); sc.scan(1, "L"); sc.uget(1); sc.cgetall(1)
            sc.close(1)
            inspect(sc, 1, hs)
            out.append(sc)
    return out


# --------------------------------------------------------------------------
def readonly(rng, n):
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 1024, 4096, 8192])
        hs = rng.choice([0, 0, 4, 1])
        umax, ncfg = rng.choice([(0, 0), (100, 3), (bs * 2, 20)])
        sc = Script("ro%d" % i)
        sc.note = dict(bs=bs, hash=hs)
        for s in range(rng.choice([1, 1, 2, 3])):
            sc.open(1, 1, "c", bs=bs, nb=rng.choice([1, 4, 32]), hash=hs, rearr=rng.choice([0, 1]), umax=umax, ncfg=ncfg, cache=cache_choice(rng, bs))
            nk = rng.choice([0, 1, 10, 60, 200]) if hs != 1 else rng.choice([0, 5, 20])
            kv = newkv(sc, rng, nk, bs)
            sc.putn(1, kv)
            if rng.random() < 0.5: sc.uset(1, sc.val(rng.randint(0, umax or 4000)))
            if rng.random() < 0.5: sc.csetall(1, [(7 + j, rng.randint(0, 9)) for j in range(ncfg or 1)])
            sc.close(1)
        sc.newproc()
        sc.digest(1)
        hsn = rng.choice([1, 1, 2, 3])
        for h in range(1, hsn + 1):
            sc.open(h, 1, "r", hash=hs, rearr=rng.choice([0, 1]), cache=cache_choice(rng, bs), bs=rng.choice([512, 0, 8192]), nb=rng.choice([1, 99]), umax=rng.choice([0, 5]), ncfg=rng.choice([0, 5]), fl=rng.choice(["", "C", "b", "Cb"]))
        nkeys = [sc.key(8) for _ in range(3)]
        for s in range(40):
            h = rng.randint(1, hsn)
            x = rng.random()
            if x < 0.15: sc.put(h, rng.choice(nkeys), sc.val(rng.choice([0, 5, 2000])), rng.choice([0, 20]))
            elif x < 0.3 and kv: k, v = rng.choice(kv); sc.put(h, k, sc.repl(rng, v), rng.choice([0, 0, 20]))
            elif x < 0.4: sc.uset(h, sc.val(rng.randint(0, 100)))
            elif x < 0.5: sc.csetall(h, [(7 + j, rng.randint(0, 9)) for j in range(ncfg or 1)])
            elif x < 0.6: sc.cset1(h, 0, 7, rng.randint(0, 9))
            elif x < 0.65: sc.delete(h, rng.choice(nkeys))
            elif x < 0.72: sc.sync(h)
            elif x < 0.8: sc.scan(h, rng.choice("FLNP"))
            elif x < 0.9: sc.getall(h)
            elif x < 0.95: sc.uget(h); sc.umaxq(h)
            else: sc.cgetall(h); sc.cget1(h, 7); sc.ncfgq(h)
            if rng.random() < 0.2: sc.digest(1)
        for h in range(1, hsn + 1):
            sc.getall(h); sc.close(h); sc.digest(1)
        inspect(sc, 1, hs)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def metadata(rng, n, big=False):
    """big: capacities beyond 8 and 16 bits"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 1024, 4096])
        hs = rng.choice([0, 4])
        f1, f2 = bs - 32, bs - 28
        umax = rng.choice([0, 1, 2, 17, f1 - 4, f1 - 1, f1, f1 + 1, f1 + f2 - 1, f1 + f2, f1 + f2 + 1, f1 + 5 * f2, f1 + 5 * f2 + 1, rng.randint(1, bs * 12), 4000, 4001, bs, bs - 28, 2 * bs])
        per = (bs - 28) // 148
        ncfg = rng.choice([0, 1, 2, per - 1, per, per + 1, 2 * per, 2 * per + 1, 7 * per + 1, rng.randint(1, 60)])
        ncfg = max(0, ncfg)
        if big:
            umax, ncfg = rng.choice([4000, 65535, 65536, 65540, 70000, 300000]), rng.choice([255, 256, 257, 300, 1000])
        sc = Script("meta%s%d" % ("big" if big else "", i))
        sc.note = dict(bs=bs, umax=umax, ncfg=ncfg)
        um, nc = umax or 4000, ncfg or 1
        sc.open(1, 1, "c", bs=bs, nb=rng.choice([1, 2, 16, 100]), hash=hs, umax=umax, ncfg=ncfg, cache=cache_choice(rng, bs), rearr=rng.choice([0, 1]))
        sc.umaxq(1); sc.ncfgq(1)
        if rng.random() < 0.5: sc.uget(1)
        base = rng.choice([0, 100, 1000])
        have = False
        for s in range(20 if big else 45):
            x = rng.random()
            if x < 0.2: sc.uset(1, sc.val(max(0, rng.choice([0, 1, um, um, um - 1, um + 1, um + 100, f1, f1 - 1, f1 + 1, f1 + f2, f1 + f2 + 1, rng.randint(0, um)]))))
            elif x < 0.4: sc.uget(1)
            elif x < 0.46: sc.uget(1, rng.choice([um, um + 10, um * 2]))
            elif x < 0.55:
                m = nc if rng.random() < 0.85 else rng.choice([nc + 1, max(0, nc - 1), 0, nc * 2 + 1])
                base = rng.choice([0, 100, 1000])
                sc.csetall(1, [(base + j * 2, rng.randint(0, 40)) for j in range(m)])
                if m == nc: have = True
            elif x < 0.65: sc.cgetall(1)
            elif x < 0.75:
                j = rng.choice([rng.randrange(nc), nc - 1, 0, nc, -1, nc + 7])
                sc.cset1(1, j, base + j * 2 if rng.random() < 0.85 else 99999, rng.randint(0, 40))
            elif x < 0.83: sc.cget1(1, base + 2 * rng.randrange(nc) if rng.random() < 0.8 else 99998)
            elif x < 0.9: sc.putn(1, newkv(sc, rng, rng.choice([1, 5, 40]), bs))
            elif x < 0.93: sc.sync(1)
            elif x < 0.96: sc.getall(1)
            else:
                sc.close(1)
                if rng.random() < 0.3: sc.newproc()
                sc.open(1, 1, "w", hash=hs, umax=rng.choice([0, 3]), ncfg=rng.choice([0, 2]), cache=cache_choice(rng, bs), rearr=rng.choice([0, 1]))
                sc.umaxq(1); sc.ncfgq(1)
        sc.uget(1); sc.cgetall(1); sc.getall(1)
        sc.close(1)
        inspect(sc, 1, hs)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
ALL_OPS = (["open"] * 3 + ["put", "put", "reput", "refit", "bulk", "bulk", "get", "get", "getall", "scan", "del", "copen", "cget", "cget", "cget", "cclose", "uset", "uget", "caps",
           "csetall", "cgetall", "cset1", "cget1", "sync", "close", "kill", "synckill", "copy", "digest", "remove"])


def profile(rng, name, depth=70, ops=ALL_OPS, modes=("c", "c", "w", "r", "t", "r"), bss=(512, 700, 1024), hashes=(0, 1, 4), nk=60, bulk=25, caches=None, rearrs=(0, 1)):
    bs = 512
    kl = [klen(rng, bs) for _ in range(nk)] + [maxkey(bs), maxkey(bs) + 1, maxkey(bs) + 30, 1, 2, 3]
    vl = [0] + sorted(set(vlen(rng, bs) for _ in range(40)) - {0})
    opts = []
    for _ in range(12):
        b = rng.choice(bss)
        n, u = rng.choice([(0, 0), (3, 100), (10, 2000), (4, 600)])
        opts.append(dict(p=dict(bs=b, nb=1, hash=rng.choice(hashes), ncfg=n, umax=u, cache=0), cache=rng.choice(caches or [0, 1, 2000, 6000]), rearr=rng.choice(rearrs), nb=rng.choice([0, 1, 1, 2, 4, 9, 40]), cmp=rng.choice([0, 1])))
    return dict(_name=name, depth=depth, ops=list(ops), modes=list(modes), kl=kl, vl=vl, opts=opts, bulk=bulk, maxtag=6)


def generated(check, num, nprof=8, stats=None, **kw):
    """behaviours of the specification chosen by TLC"""
    rng = check.rng
    profs = [profile(rng, "p%d" % i, **kw) for i in range(nprof)]
    per = max(1, num // nprof)
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda i: gen_behaviours(check.work, profs[i], per, SEED * 1000 + i + 1), range(nprof)))
    out = []
    for i, (bb, r) in enumerate(res):
        if stats is not None:
            stats["generated_transitions"] = stats.get("generated_transitions", 0) + sum(len(b["ops"]) for b in bb)
            stats["generated_behaviours"] = stats.get("generated_behaviours", 0) + len(bb)
        for j, b in enumerate(bb):
            modes = [rng.choice("rrpb") for _ in profs[i]["kl"]]
            out.append(script_from_behaviour(profs[i], b, "tlc%d.%d" % (i, j), modes))
    return out


# --------------------------------------------------------------------------
def structure(rng, n, tier="quick"):
    """lives of a database whose bytes are decoded after closes and after sync + kill"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 512, 1024, 2048, 4096])
        hs = rng.choice([0, 0, 0, 4, 6, 2, 5, 1])
        nb = rng.choice([0, 1, 1, 2, 3, 4, 7, 8, 16, 33, 64])
        umax, ncfg = rng.choice([(0, 0), (100, 3), (bs * 2, 20), (bs - 32, 1), (bs - 31, 4)])
        sc = Script("struct%d" % i)
        sc.note = dict(bs=bs, hash=hs, nb=nb, umax=umax, ncfg=ncfg)
        style = rng.choice(["small", "small", "mixed", "large"])
        live, tot = [], 0
        for s in range(rng.randint(2, 6)):
            sc.open(1, 1, "c", bs=bs, nb=nb, hash=hs, rearr=rng.choice([0, 1, 1]), umax=umax, ncfg=ncfg, cache=cache_choice(rng, bs))
            m = rng.choice([0, 1, 3, 10, 40, 120, 250])
            if hs in (1, 2, 5): m = min(m, 25)
            if style != "small": m = min(m, 80)
            kv = newkv(sc, rng, m, bs, klens=(4, 8, 9, 13) if style == "small" else None, vlens=dict(small=(0, 3, 8, 20), mixed=None, large=(bs - 52, bs, 3 * bs, 2 * bs - 84))[style])
            live += kv
            step = max(1, m // rng.choice([1, 2, 3]))
            for j in range(0, m, step):
                sc.putn(1, kv[j:j + step], rng.choice([0, 0, 20]))
                for k, v in rng.sample(live, min(len(live), 3)):
                    sc.put(1, k, sc.repl(rng, v), rng.choice([0, 0, 0, 20]))
                if rng.random() < 0.3:
                    # refused stores leave no trace in the file
                    k, v = rng.choice(live)
                    sc.put(1, k, sc.val(sc.vals[v - 1] + rng.choice([1, bs])))
                    sc.put(1, sc.key(bs - 56 + rng.choice([1, 7])), v)
                if rng.random() < 0.15: sc.getall(1)
            if rng.random() < 0.3: sc.uset(1, sc.val(rng.randint(0, umax or 4000)))
            if rng.random() < 0.3: sc.csetall(1, [(7 + j, rng.randint(0, 9)) for j in range(ncfg or 1)])
            if rng.random() < 0.2: sc.scan(1, "F")
            if rng.random() < 0.35:
                sc.sync(1); sc.kill()
            else:
                sc.close(1)
            sc.image(1, hs)
            if rng.random() < 0.25:
                sc.open(1, 1, "w", hash=hs, rearr=rng.choice([0, 1])); sc.getall(1)
                if rng.random() < 0.4: sc.sync(1); sc.kill()
                else: sc.close(1)
                sc.image(1, hs)
        inspect(sc, 1, hs)
        out.append(sc)
    return out


def structure_creep(rng, n, total=60):
    """every store followed by a decode: all growth points of a small table"""
    out = []
    for i in range(n):
        hs = rng.choice([0, 4, 6])
        sc = Script("screep%d" % i)
        nb = rng.choice([1, 1, 2, 3])
        re = rng.choice([0, 1, None])
        kill = rng.random() < 0.4
        big = rng.random() < 0.5
        sc.note = dict(hash=hs, nb=nb, rearr=re, kill=kill, big=big)
        for s in range(total):
            sc.open(1, 1, "c", bs=512, nb=nb, hash=hs, rearr=rng.choice([0, 1]) if re is None else re, cache=1)
            sc.putn(1, newkv(sc, rng, rng.choice([1, 1, 2]), 512, klens=(100, 150, 200, 231) if big else (8, 30, 60), vlens=(0, 10, 300, 460, 700)))
            if kill: sc.sync(1); sc.kill()
            else: sc.close(1)
            sc.image(1, hs)
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    return out


def moves_creep(rng, n, total=110):
    """one store per session with page moves, entries of all sizes in long
    chains: every position of the moved range relative to the links of chains,
    big values and free pages"""
    out = []
    for i in range(n):
        hs = rng.choice([7, 8, 8, 0, 4, 5])
        sc = Script("mcreep%d" % i)
        nb = rng.choice([1, 1, 2, 5])
        kls = rng.choice([(20, 130, 300, 400), (300, 400, 440), (8, 30, 60, 231)])
        vls = rng.choice([(0, 5, 40, 600, 1500), (600, 1500, 3000), (0, 10)])
        sc.note = dict(hash=hs, nb=nb, klens=kls, vlens=vls)
        live = []
        for s in range(total):
            sc.open(1, 1, "c", bs=512, nb=nb, hash=hs, rearr=1 if rng.random() < 0.9 else 0, cache=rng.choice([1, 0, 6000]))
            kv = newkv(sc, rng, rng.choice([1, 1, 1, 2, 4]), 512, klens=kls, vlens=vls)
            sc.putn(1, kv); live += kv
            if rng.random() < 0.2:
                k, v = rng.choice(live); sc.put(1, k, sc.repl(rng, v))
            sc.close(1)
            if s % 3 == 0: sc.image(1, hs)
            elif s % 3 == 1: sc.open(2, 1, "r", hash=hs); sc.getall(2); sc.close(2)
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    return out


def freechain(rng, n, keys=700, every=7):
    """all keys in the bucket that is split last on its level: long chains whose
    pages are freed on the level in use, so that lists of free pages are long,
    span several pages, are reused and are moved"""
    out = []
    for i in range(n):
        hs = rng.choice([7, 7, 8, 1])
        bs = 512
        sc = Script("freechain%d" % i)
        m = rng.choice([keys // 4, keys // 2, keys])
        pat = rng.choice(["holes", "holes", "mixed"])
        sc.note = dict(hash=hs, keys=m, pattern=pat)
        ks = [sc.key(300 if (j * 3) % m < m * 2 else 130) if pat == "holes" else sc.key(rng.choice([20, 130, 300, 400])) for j in range(m)]
        if pat == "holes" and rng.random() < 0.5:
            big = [k for k in ks if sc.keys[k - 1][1] == 300]; sm = [k for k in ks if sc.keys[k - 1][1] != 300]
            ks = []
            while big or sm:
                a, b = rng.randint(1, 60), rng.randint(1, 60)
                ks += big[:a] + sm[:b]; del big[:a]; del sm[:b]
        kv = [(k, sc.val(rng.choice([0, 5, 40, 600]))) for k in ks]
        pos = 0
        while pos < m:
            sc.open(1, 1, "c", bs=bs, nb=1, hash=hs, rearr=rng.choice([0, 1]), cache=rng.choice([1, 0, 20000]))
            a = rng.randint(1, max(2, m // every))
            sc.putn(1, kv[pos:pos + a]); pos += a
            if rng.random() < 0.5:
                k, v = rng.choice(kv[:pos]); sc.put(1, k, sc.repl(rng, v))
            if rng.random() < 0.25: sc.sync(1); sc.kill()
            else: sc.close(1)
            sc.image(1, hs)
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    return out


def freeturn(rng, n):
    """one long chain in a bucket that is split after three quarters of its level:
    more pages become free at once than one list page names, and all of them are
    used again on the same level, first list page first"""
    out = []
    for i in range(n):
        hs, bs = 9, 512
        sc = Script("freeturn%d" % i)
        a = rng.choice([560, 590, 620])
        sc.note = dict(big=a)
        big = [(sc.key(300), 1) for _ in range(a)]
        # three of them fill what a big key leaves, or a page
        small = [(sc.key(rng.choice([100, 130, 130])), sc.val(rng.choice([0, 0, 5]))) for _ in range(3 * (800 - a))]
        last = [(sc.key(rng.choice([300, 300, 440])), sc.val(rng.choice([0, 0, 40, 600]))) for _ in range(rng.choice([150, 230]))]
        kv = big + small + last
        cuts = sorted([len(big) + len(small) // 2, len(big) + len(small)] + [len(big) + len(small) + rng.randrange(len(last)) for _ in range(rng.choice([0, 2, 5]))] + [len(kv)])
        pos = 0
        for c in cuts:
            sc.open(1, 1, "c", bs=bs, nb=1024, hash=hs, rearr=rng.choice([0, 1]), cache=rng.choice([1, 0, 20000]))
            sc.putn(1, kv[pos:c]); pos = c
            if rng.random() < 0.25: sc.sync(1); sc.kill()
            else: sc.close(1)
            sc.image(1, hs)
        inspect(sc, 1, hs, meta=False)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def foreign(rng, n):
    """a database rewritten in another version / byte order, then used normally"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 1024, 4096])
        hs = rng.choice([0, 0, 4, 6, 1])
        umax, ncfg = rng.choice([(0, 0), (100, 3), (bs * 3, 30), (5000, 40)])
        ver, order = rng.choice([(5, 1234), (5, 4321), (6, 4321), (6, 4321), (5, 4321)])
        sc = Script("foreign%d" % i)
        sc.note = dict(bs=bs, hash=hs, umax=umax, ncfg=ncfg, ver=ver, order=order)
        sc.open(1, 1, "c", bs=bs, nb=rng.choice([1, 1, 2, 5, 16]), hash=hs, umax=umax, ncfg=ncfg, rearr=rng.choice([0, 1]))
        m = rng.choice([0, 1, 5, 30, 100]) if hs != 1 else 15
        live = newkv(sc, rng, m, bs)
        sc.putn(1, live)
        if rng.random() < 0.8: sc.uset(1, sc.val(rng.randint(1, umax or 4000)))
        if rng.random() < 0.8: sc.csetall(1, [(500 + 3 * j, rng.randint(0, 40)) for j in range(ncfg or 1)])
        sc.close(1)
        if rng.random() < 0.3:
            sc.open(1, 1, "w", hash=hs, rearr=1)
            kv = newkv(sc, rng, rng.choice([3, 20]), bs); live += kv
            sc.putn(1, kv); sc.close(1)

        def fn(d, ver=ver, order=order):
            with open(os.path.join(d, "f1"), "rb") as fp:
                x = ffile.convert(fp.read(), ver, order)
            with open(os.path.join(d, "f2"), "wb") as fp:
                fp.write(x)
            return None
        sc.host(fn, dict(op="convert", f=1, g=2, ver=ver, ord=0 if order == 1234 else 1))
        inspect(sc, 2, hs, write=False)
        for s in range(rng.randint(1, 4)):
            sc.open(1, 2, rng.choice("wwc"), hash=hs, cache=cache_choice(rng, bs), rearr=rng.choice([0, 1]), bs=rng.choice([512, 4096]), umax=rng.choice([0, 77]))
            if rng.random() < 0.5: sc.getall(1)
            kv = newkv(sc, rng, rng.choice([0, 2, 15, 60]) if hs != 1 else 5, bs)
            step = max(1, len(kv) // 2)
            for j in range(0, len(kv), step):
                sc.putn(1, kv[j:j + step]); live += kv[j:j + step]
                for k, v in rng.sample(live, min(len(live), 5)):
                    sc.put(1, k, sc.repl(rng, v))
                if rng.random() < 0.4: sc.getall(1)
            if live and rng.random() < 0.5:
                k, v = rng.choice(live); sc.put(1, k, sc.val(sc.vals[v - 1] + 1)); sc.put(1, k, v, 20)
            if rng.random() < 0.5: sc.uset(1, sc.val(rng.randint(0, umax or 4000))); sc.uget(1)
            if rng.random() < 0.4:
                sc.csetall(1, [(500 + 3 * j, rng.randint(0, 40)) for j in range(ncfg or 1)])
                sc.cset1(1, (ncfg or 1) - 1, 500 + 3 * ((ncfg or 1) - 1), 41); sc.cgetall(1)
            sc.getall(1)
            if rng.random() < 0.5: sc.scan(1, rng.choice("FL"))
            if rng.random() < 0.3:
                sc.sync(1); sc.kill()
            else:
                if rng.random() < 0.3: sc.sync(1)
                sc.close(1)
            sc.image(2, hs)
            inspect(sc, 2, hs, write=False)
        inspect(sc, 2, hs)
        if rng.random() < 0.5:
            # and back again
            def fb(d):
                with open(os.path.join(d, "f2"), "rb") as fp:
                    x = ffile.convert(fp.read(), 6, 1234)
                with open(os.path.join(d, "f3"), "wb") as fp:
                    fp.write(x)
            sc.host(fb, dict(op="convert", f=2, g=3, ver=6, ord=0))
            inspect(sc, 3, hs)
        out.append(sc)
    return out


def tall_foreign(rng, n):
    """as tall, rewritten in between"""
    out = []
    for i in range(n):
        ver, order = [(5, 4321), (6, 4321), (5, 1234)][i % 3]
        hs = rng.choice([0, 4])
        sc = Script("tallforeign%d" % i)
        sc.note = dict(hash=hs, ver=ver, order=order)
        small = [(sc.key(rng.choice([9, 20, 130, 300, 440])), sc.val(rng.choice([0, 5, 40, 600, 1500]))) for _ in range(700)]
        bigs = [(sc.key(12), sc.val(rng.choice([300000, 420007, 350000]))) for _ in range(105)]
        sc.open(1, 1, "c", bs=512, hash=hs, rearr=rng.choice([0, 1]))
        sc.putn(1, small[:150]); sc.putn(1, bigs[:100]); sc.putn(1, small[150:400]); sc.uset(1, sc.val(700)); sc.close(1)

        def fn(d, ver=ver, order=order):
            with open(os.path.join(d, "f1"), "rb") as fp:
                x = ffile.convert(fp.read(), ver, order)
            with open(os.path.join(d, "f2"), "wb") as fp:
                fp.write(x)
        sc.host(fn, dict(op="convert", f=1, g=2, ver=ver, ord=0 if order == 1234 else 1))
        inspect(sc, 2, hs, write=False)
        for a, b, x, y in ((400, 550, 100, 103), (550, 700, 103, 105)):
            sc.open(1, 2, "w", hash=hs, rearr=rng.choice([0, 1]), cache=rng.choice([0, 20000]))
            sc.putn(1, small[a:b]); sc.putn(1, bigs[x:y])
            k, v = bigs[rng.randrange(100)]
            sc.put(1, k, sc.val(sc.vals[v - 1] - 1000)); sc.getall(1); sc.close(1)
            inspect(sc, 2, hs, write=False)
        inspect(sc, 2, hs)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
HDR_FIELDS = [(4 * i, 4) for i in range(13)] + [(52 + 2 * i, 2) for i in range(4)] + [(60 + 4 * i, 4) for i in range(3)] + [(72 + 4 * i, 4) for i in range(64)] + [(328, 4)]


def damage_sites(img, rng):
    """(unit page or 0, first byte, length, label) of interesting places, one list per kind"""
    kinds = {}

    def add(kind, p, off, ln):
        if ln > 0 and off >= 0 and off + ln <= img.bs:
            kinds.setdefault(kind, []).append((p, off, ln))
    for o, l in HDR_FIELDS:
        add("header", 0, o, l)
    h = img.h
    role = {}
    for i in range(h["uinfo_npages"]): role[h["uinfo_page"] + i] = "uinfo"
    for i in range(h["cfig_npages"]): role[h["cfig_page"] + i] = "config"
    for b in range(h["maxb"] + 1):
        ch = img.chain(b)
        if not ch: role[img.bucket_page(b)] = "emptybucket"
        for j, (p, m) in enumerate(ch):
            role[p] = "bucket" if j == 0 else "overflow"
        for e in img.entries(b, ch):
            p = e["page"]
            add("entry", p, 28 + 12 * e["idx"], 12)
            add("key", p, e["ko"], e["kl"])
            add("datap", p, e["do"], 16)
            v = img.value(e)
            if v:
                for j, (q, a, z) in enumerate(v[1]):
                    role.setdefault(q, "data")
                    if j == 0:
                        add("dheader", q, a, 20); add("value", q, a + 20, z - a - 20)
                    else:
                        add("value2", q, a, z - a)
    for p in range(1, img.n):
        m = img.meta(p)
        t = role.get(p)
        if t is None:
            t = "unused0" if m is None else ("freemap" if m["type"] == ffile.FREE else "unused")
        for o in (0, 4, 8, 12, 16, 18, 20, 24, 28):
            add(t + "/hd", p, o, 4 if o not in (16, 18) else 2)
        add(t + "/body", p, 28, img.bs - 28)
        add(t + "/end", p, img.bs - 4, 4)
    return kinds, role


def burst(rng, off, ln):
    """a burst of at most 32 bits inside [off, off+ln) bytes: (first bit, mask)"""
    nbits = min(rng.choice([1, 1, 2, 3, 8, 9, 16, 31, 32]), ln * 8)
    first = off * 8 + rng.randint(0, ln * 8 - nbits)
    mask = 1 | (1 << (nbits - 1)) | rng.getrandbits(nbits)
    return first, mask


def damaged_copy(d, src, dst, page, bs, first, mask):
    with open(os.path.join(d, src), "rb") as fp:
        x = bytearray(fp.read())
    i = 0
    while mask >> i:
        if mask >> i & 1:
            bit = page * bs * 8 + first + i
            x[bit // 8] ^= 1 << (bit % 8)
        i += 1
    with open(os.path.join(d, dst), "wb") as fp:
        fp.write(bytes(x))


def straddles(page, off_bits, n):
    """does the burst touch both the stored checksum and other bytes?"""
    a, z = (328 * 8, 332 * 8) if page == 0 else (20 * 8, 24 * 8)
    lo, hi = off_bits, off_bits + n
    inside = lo >= a and hi <= z
    outside = hi <= a or lo >= z
    return not (inside or outside)


def damages(rng, nbase, ndam, pages=(512, 512, 1024, 4096)):
    out = []
    for i in range(nbase):
        bs = rng.choice(pages)
        hs = rng.choice([0, 0, 4, 6])
        order = rng.choice([1234, 1234, 4321])
        ver = rng.choice([6, 6, 6, 5])
        umax, ncfg = rng.choice([(0, 0), (100, 3), (bs * 2, 20)])
        sc = Script("damage%d" % i)
        sc.table = True
        sc.note = dict(bs=bs, hash=hs, order=order, ver=ver)
        sc.open(1, 1, "c", bs=bs, nb=rng.choice([1, 2, 5]), hash=hs, umax=umax, ncfg=ncfg, rearr=rng.choice([0, 1]))
        sc.putn(1, newkv(sc, rng, rng.choice([12, 30, 60]), bs))
        for j in range(6): sc.key(rng.choice([4, 9, 20]))        # absent
        sc.uset(1, sc.val(rng.randint(20, umax or 4000)))
        sc.csetall(1, [(30 + j, j) for j in range(ncfg or 1)])
        sc.close(1)
        if rng.random() < 0.5:
            sc.open(1, 1, "w", hash=hs, rearr=rng.choice([0, 1])); sc.putn(1, newkv(sc, rng, 8, bs)); sc.close(1)
        base = 1
        if order != 1234 or ver != 6:
            def conv(d, ver=ver, order=order):
                with open(os.path.join(d, "f1"), "rb") as fp: x = ffile.convert(fp.read(), ver, order)
                with open(os.path.join(d, "f3"), "wb") as fp: fp.write(x)
            sc.host(conv, dict(op="convert", f=1, g=3, ver=ver, ord=0 if order == 1234 else 1))
            base = 3
        nk = len(sc.keys)
        sc.note["damages"] = []
        for j in range(ndam):
            seed = rng.getrandbits(60)
            sc.host(lambda d, seed=seed, j=j, sc=sc, hs=hs, base=base: one_damage(d, random.Random(seed), sc, hs, base, j), dict(op="corrupt", f=base, g=2))
        out.append(sc)
    return out


def one_damage(d, r, sc, hs, base, j):
    with open(os.path.join(d, "f%d" % base), "rb") as fp:
        img = ffile.Image(fp.read())
    kt, vt = load_table(d)
    kinds, role = damage_sites(img, r)
    while True:
        kind = r.choice(sorted(kinds))
        page, off, ln = r.choice(kinds[kind])
        if ln > 64 and r.random() < 0.3: off, ln = (off + ln - 4, 4)
        first, mask = burst(r, off, ln)
        if not straddles(page, first, mask.bit_length()): break
    damaged_copy(d, "f%d" % base, "f2", page, img.bs, first, mask)
    part = "header" if page == 0 else role.get(page, "x")
    part = part if part in ("header", "uinfo", "config") else "page"
    # opening looks for the last data page from the end of the file
    ends = [p for p in range(1, img.n) for m in [img.meta(p)] if m and m["type"] == ffile.DATA and m["next"] == ffile.INVALID]
    if part == "page" and (not ends or page >= max(ends)): part = "tail"
    safe, must = [], []
    if part in ("page", "tail"):
        stored = {}
        chains = {b: img.chain(b) for b in range(img.h["maxb"] + 1)}
        for b, ch in chains.items():
            pref = [p for p, m in ch] or [img.bucket_page(b)]
            for e in img.entries(b, ch):
                k = kt.get(ffile.fp(e["key"]), 0)
                v = img.value(e)
                if not k or v is None: continue
                stored[k] = 1
                need = pref[:pref.index(e["page"]) + 1] + [x[0] for x in v[1]]
                if page in need: must.append(k)
                elif page not in pref: safe.append(k)
        for k, b in key_bytes(d).items():
            if k in stored or kt.get(ffile.fp(b)) != k: continue
            x = ffile.HASHES[hs](b)
            n = x & img.h["high"]
            if n > img.h["maxb"]: n = x & img.h["low"]
            pref = [p for p, m in chains[n]] or [img.bucket_page(n)]
            (must if page in pref else safe).append(k)
    elif part in ("uinfo", "config"):
        safe = []
    ntry = r.sample(safe, min(len(safe), 6))
    segs = []
    t = Script(); t.keys, t.vals, t.vmodes, t.maxtag = sc.keys, sc.vals, sc.vmodes, sc.maxtag
    t.open(1, 2, "r", hash=hs, cache=r.choice([0, 1]))
    for k in ntry: t.get(1, k)
    t.umaxq(1); t.ncfgq(1); t.uget(1); t.cgetall(1)
    for k in r.sample(range(1, len(sc.keys) + 1), 4): t.get(1, k)
    t.close(1); t.newproc()
    for k in r.sample(must, min(len(must), 2)):
        t.open(1, 2, "r", hash=hs); t.get(1, k); t.close(1); t.newproc()
    t.open(1, 2, "r", hash=hs); t.scan(1, r.choice("FL"), r.choice([0, 1, 1])); t.newproc()
    x = r.random()
    if x < 0.3:
        t.open(1, 2, r.choice("rw"), hash=hs, cache=1); t.getall(1); t.newproc()
    elif x < 0.5:
        t.open(1, 2, "w", hash=hs, cache=1, rearr=r.choice([0, 1]))
        for k in r.sample(range(1, len(sc.keys) + 1), 3): t.put(1, k, 1)
        for k in r.sample(range(1, len(sc.keys) + 1), 3): t.get(1, k)
        t.close(1); t.newproc()
        t.open(1, 2, "r", hash=hs, cache=1); t.getall(1); t.newproc()
    segs = [s for s in t.segs if s]
    sc.note["damages"].append((j, kind, page, first, hex(mask)))
    sc.note["damages"] = sc.note["damages"][-80:]
    return dict(safe=safe, must=must, part=part, _segs=segs, what="%s page %d bit %d mask %x" % (kind, page, first, mask))


# --------------------------------------------------------------------------
def junk(d, r, kind):
    """bytes that are not a usable database; f1 is a proper one"""
    with open(os.path.join(d, "f1"), "rb") as fp:
        good = fp.read()
    rb = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    if kind == "empty": return b""
    if kind == "byte": return rb(1)
    if kind == "short": return good[:r.choice([4, 8, 100, 327, 328, 331])]
    if kind == "shortjunk": return rb(r.choice([10, 331]))
    if kind == "junk": return rb(r.choice([332, 333, 512, 3000, 9000]))
    if kind == "zeros": return bytes(r.choice([332, 512, 4096, 20000]))
    if kind == "text": return b"configuration list\nnothing here\n" * r.choice([1, 10, 100, 400])
    if kind == "shifted": return rb(r.choice([1, 4, 16, 512])) + good
    if kind == "late": return bytes(332) + good[332:]
    h = dict(ffile.Image(good).h)
    if kind == "version": h["version"] = r.choice([0, 1, 2, 3, 4, 7, 8, 60, 0x05000000, 0x06000000, 0xffffffff, 65542])
    if kind == "magic": h["magic"] = r.choice([0, 0x3434cece, 0xcece3435, 0xcece3434 ^ (1 << r.randrange(32)), 0x61561])
    return ffile.pack_header(h) + good[332:]


JUNK = ["empty", "byte", "short", "shortjunk", "junk", "zeros", "text", "shifted", "late", "version", "version", "magic", "magic"]


def refused_opens(rng, n):
    """opens that must be refused, and that must leave the bytes alone"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 1024, 4096])
        hs = rng.choice([0, 0, 4, 1, 6, 2, 3, 5])
        sc = Script("badopen%d" % i)
        sc.note = dict(bs=bs, hash=hs)
        sc.open(1, 1, "c", bs=bs, nb=rng.choice([1, 2, 8]), hash=hs, rearr=rng.choice([0, 1]))
        kv = newkv(sc, rng, rng.choice([0, 1, 5, 20]), bs)
        sc.putn(1, kv); sc.uset(1, sc.val(30)); sc.close(1)
        kinds = rng.sample(JUNK, 4)
        for kd in kinds:
            seed = rng.getrandbits(40)

            def fn(d, kd=kd, seed=seed):
                x = junk(d, random.Random(seed), kd)
                with open(os.path.join(d, "f2"), "wb") as fp: fp.write(x)
                return dict(what="%s %d bytes" % (kd, len(x)))
            sc.host(fn, dict(op="clobber", f=2))
            # each attempt in its own process: it may end with a diagnostic
            for mode in rng.sample("rwcW", 3):
                sc.digest(2)
                sc.open(1, 2, mode, hash=rng.choice([0, hs]), bs=rng.choice([0, 512, bs]), nb=rng.choice([1, 9]))
                sc.newproc()
                sc.digest(2)
                sc.newproc()
        # a missing file
        sc.digest(3)
        for mode in "rwW":
            sc.open(1, 3, mode, bs=bs, hash=hs)
            sc.digest(3)
        # another hash function
        for h2 in rng.sample([x for x in range(9) if x != hs], 3):
            for mode in rng.sample("rwce", 2):
                sc.digest(1)
                sc.open(1, 1, mode, hash=h2)
                sc.digest(1)
        sc.open(1, 1, "W", hash=hs); sc.digest(1)
        # flags that are not supported, with every mode, on files that are there or not
        for m in "rwct":
            f = rng.choice([1, 3])
            sc.open(1, f, m, bs=bs, hash=hs, fl=rng.choice("xasd")); sc.digest(f)
        # create, but only if it is not there
        sc.open(1, 1, "e", bs=bs, hash=hs); sc.digest(1)
        if rng.random() < 0.5:
            sc.open(2, 4, "e", bs=bs, hash=hs); sc.putn(2, newkv(sc, rng, 5, bs)); sc.getall(2); sc.close(2)
            sc.open(2, 4, "e", bs=bs, hash=hs); sc.digest(4); inspect(sc, 4, hs, fresh=False)
        # still intact and usable in the same process
        inspect(sc, 1, hs, fresh=False)
        out.append(sc)
    return out


def option_ranges(rng, n):
    """creation options at and beyond their limits; options of later opens are overridden"""
    out = []
    big = 1 << 20
    for i in range(n):
        sc = Script("options%d" % i)
        bs = rng.choice([0, 1, 16, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1025, 4095, 4096, 4097, 60000, 65536, 100000, big - 1, big, big + 1, 2 * big, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1])
        nb = rng.choice([0, 1, 2, 3, 5, 63, 64, 65, 1000, 5000, 70000]) if rng.random() < 0.85 else rng.choice([1 << 31, (1 << 31) + 1, (1 << 32) - 1])
        umax = rng.choice([0, 1, 3, 4, 99, 480, 481, 4000, 70000])
        ncfg = rng.choice([0, 1, 2, 3, 4, 27, 200])
        x = rng.random()
        pg = 512 if bs < 512 else min(bs, big)
        if x < 0.06 and bs <= 8192: umax = rng.choice([(1 << 32) - 1, (1 << 32) - 4, 4000000000, 2000000000])
        elif x < 0.12 and bs <= 8192: ncfg = rng.choice([(1 << 32) - 1, 2000000000])
        elif x < 0.18 and 0 < bs <= 1024: umax = 65540 * (pg * 2) + rng.choice([0, 999])
        elif x < 0.22 and 0 < bs <= 512: ncfg = rng.choice([200000, 300000])
        cache = rng.choice([0, 1, 100, 511, 5000, 1 << 20, 1 << 34])
        eff = 4096 if bs == 0 else 1 << ffile.log2ceil(bs)
        if eff <= big and nb < 1 << 30 and nb * eff > 1 << 22: nb = max(1, (1 << 22) // eff)
        sc.note = dict(bs=bs, nb=nb, umax=umax, ncfg=ncfg, cache=cache)
        sc.open(1, 1, rng.choice("ct"), bs=bs, nb=nb, umax=umax, ncfg=ncfg, cache=cache, rearr=rng.choice([0, 1]))
        kv = newkv(sc, rng, rng.choice([0, 1, 10, 40]), 512)
        sc.putn(1, kv); sc.getall(1)
        sc.umaxq(1); sc.ncfgq(1)
        um = min(umax or 4000, 100000)
        sc.uset(1, sc.val(um)); sc.uget(1)
        nc = ncfg or 1
        if nc <= 200: sc.csetall(1, [(3 * j, j % 7) for j in range(nc)]); sc.cgetall(1)
        sc.close(1)
        sc.image(1)
        for s in range(rng.choice([1, 2, 3])):
            sc.open(1, 1, rng.choice("wcr"), bs=rng.choice([0, 1, 512, 3000, big, big * 4, (1 << 32) - 1]), nb=rng.choice([0, 1, 77, 1 << 31]), umax=rng.choice([0, 1, 9999, 1 << 31]), ncfg=rng.choice([0, 1, 50, 1 << 31]),
                    cache=rng.choice([0, 1, 5000]), rearr=rng.choice([0, 1]))
            sc.getall(1); sc.umaxq(1); sc.ncfgq(1); sc.uget(1); sc.cgetall(1); sc.scan(1, rng.choice("FL"))
            sc.close(1)
            sc.image(1)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def faults(rng, n, calls=None, targets=None):
    """one or several I/O calls fail inside a chosen operation.  calls: per
    scenario the number of calls of each kind the operation makes when nothing
    fails (from a run with calls = None, which never fires); the failing call
    is chosen among them"""
    out = []
    base = rng.getrandbits(60)
    for i in range(n):
        rng = random.Random("%d/%d" % (base, i))
        kr = random.Random("%d/%d/k" % (base, i))
        bs = rng.choice([512, 512, 1024, 4096])
        hs = rng.choice([0, 0, 4, 1])
        umax, ncfg = rng.choice([(0, 0), (bs * 2, 12)])
        cache = rng.choice([1, 1, 1, bs * 10, 0])
        sc = Script("fault%d" % i)
        style = rng.choice([None, "small", "big"])
        kw = dict(klens=(6, 9, 40), vlens=(0, 9, 100)) if style == "small" else dict(vlens=(bs - 60, bs, 3 * bs, 6 * bs)) if style == "big" else {}
        m = rng.choice([0, 5, 40, 120]) if hs != 1 else rng.choice([0, 4, 20])
        live = []
        fresh = rng.random() < 0.25
        rearr = rng.choice([0, 1])
        if not fresh:
            sc.open(1, 1, "c", bs=bs, nb=rng.choice([1, 2, 8]), hash=hs, umax=umax, ncfg=ncfg, rearr=rng.choice([0, 1]))
            live = newkv(sc, rng, m, bs, **kw)
            sc.putn(1, live); sc.uset(1, sc.val(rng.randint(1, umax or 4000)))
            sc.close(1)
        target = rng.choice(targets or ["open", "ropen", "put", "put", "putn", "putn", "getall", "getall", "scan", "sync", "sync", "close", "close", "uset", "cset", "reput", "reads", "reads"])
        count = kr.choice([1, 1, 1, 2, 5, -1])
        mode = kr.choice("eesn")
        if calls is None:
            kind, after = "r", 10 ** 9
        else:
            c = dict(zip("rwst", calls[i]))
            ks = [k for k in "rrwwwst" if c[k] > 0]
            kind = kr.choice(ks) if ks else "w"
            top = max(1, c[kind])
            after = kr.choice([1, top, kr.randint(1, top), kr.randint(1, top), kr.randint(1, top)])
        sc.note = dict(bs=bs, hash=hs, cache=cache, target=target, kind=kind, after=after, count=count, mode=mode, rearr=rearr, fresh=fresh)
        arm = lambda: sc.fault(kind, after, count, mode)
        o = dict(bs=bs, hash=hs, umax=umax, ncfg=ncfg, rearr=rearr, cache=cache, nb=rng.choice([1, 4]))
        if target in ("ropen", "reads"):
            if fresh:
                sc.open(1, 1, "c", **o); sc.putn(1, newkv(sc, rng, 20, bs, **kw)); sc.close(1); sc.newproc()
            sc.digest(1)
            if target == "ropen": arm()
            sc.open(1, 1, "r", hash=hs, cache=cache)
            if target == "reads": arm()
            for j in range(6):
                if live: sc.get(1, rng.choice(live)[0])
            sc.getall(1)
            if rng.random() < 0.5: sc.scan(1, rng.choice("FL"))
            sc.uget(1); sc.cgetall(1)
            if rng.random() < 0.5: sc.nofault()
            sc.getall(1); sc.scan(1, "F"); sc.nofault(); sc.getall(1)
            sc.close(1); sc.digest(1)
            sc.newproc(); sc.digest(1)
            inspect(sc, 1, hs, fresh=True)
            out.append(sc); continue
        if target == "open": arm()
        sc.open(1, 1, "c" if fresh else "w", **o)
        if target == "open": sc.nofault()
        add = newkv(sc, rng, rng.choice([1, 10, 40]) if hs != 1 else 8, bs, **kw)
        a, b = add[:len(add) // 2], add[len(add) // 2:]
        sc.putn(1, a); live += a
        if target == "getall": arm(); sc.getall(1); sc.nofault()
        if target == "scan": arm(); sc.scan(1, rng.choice("FL")); sc.nofault()
        if target == "put":
            arm()
            for k, v in b: sc.put(1, k, v)
            sc.nofault()
        elif target == "putn":
            arm(); sc.putn(1, b); sc.nofault()
        else:
            sc.putn(1, b)
        live += b
        if target == "reput":
            arm()
            for k, v in rng.sample(live, min(len(live), 10)): sc.put(1, k, sc.repl(rng, v))
            sc.nofault()
        if target == "uset": arm(); sc.uset(1, sc.val(rng.randint(0, umax or 4000))); sc.nofault(); sc.uget(1)
        if target == "cset": arm(); sc.csetall(1, [(3 + j, j % 5) for j in range(ncfg or 1)]); sc.cset1(1, 0, 3, 7); sc.nofault(); sc.cgetall(1)
        if target == "sync":
            arm(); sc.sync(1)
            if kr.random() < 0.35:
                sc.nofault(); sc.kill()
                inspect(sc, 1, hs)
                out.append(sc); continue
            if count > 0 and rng.random() < 0.5: sc.sync(1)
            sc.nofault()
            if rng.random() < 0.6:
                if rng.random() < 0.5: sc.getall(1)
                sc.sync(1); sc.kill()
                inspect(sc, 1, hs)
                out.append(sc); continue
        if rng.random() < 0.5: sc.getall(1)
        if target == "close": arm()
        elif rng.random() < 0.3:
            sc.sync(1); sc.kill()
            inspect(sc, 1, hs)
            out.append(sc); continue
        sc.close(1)
        sc.nofault()
        inspect(sc, 1, hs)
        out.append(sc)
    return out


def move_faults(rng, n):
    """I/O calls fail while pages are moved at close or moved back at open; the
    database then grows into the pages that were vacated"""
    out = []
    for i in range(n):
        hs = rng.choice([0, 0, 4, 8])
        sc = Script("mfault%d" % i)
        where = rng.choice(["open", "open", "close"])
        kind, after, count, mode = rng.choice("wwwwsrt"), rng.randint(1, 14), rng.choice([1, 1, 2]), rng.choice("een")
        kl = rng.choice([(6, 9, 40), (100, 200, 300)])
        sc.note = dict(hash=hs, kind=kind, after=after, count=count, mode=mode, where=where, klens=kl)
        sc.open(1, 1, "c", bs=512, nb=1, hash=hs, rearr=1)
        sc.putn(1, newkv(sc, rng, rng.randint(5, 60), 512, klens=kl, vlens=(0, 9, 100, 600)))
        if where == "close": sc.fault(kind, after, count, mode)
        sc.close(1)
        if where == "close": sc.nofault()
        else: sc.fault(kind, after, count, mode)
        sc.open(1, 1, "w", hash=hs, rearr=rng.choice([0, 1]), cache=rng.choice([1, 0]))
        sc.nofault()
        sc.putn(1, newkv(sc, rng, rng.randint(10, 120), 512, klens=kl, vlens=(0, 9, 100, 600)))
        sc.getall(1)
        if rng.random() < 0.4: sc.sync(1); sc.kill()
        else: sc.close(1)
        inspect(sc, 1, hs)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def bounded(rng, n, mb=6):
    """databases much larger than the cache: what the handles hold stays within it"""
    out = []
    for i in range(n):
        sc = Script("bounded%d" % i)
        bs = rng.choice([512, 1024, 4096])
        cache = rng.choice([1, bs, 64 * bs, 300 * bs])
        shape = rng.choice(["small", "mid", "big", "mixed", "onebucket"])
        hs = 0 if shape != "onebucket" else rng.choice([1, 5])
        vl = dict(small=(8, 20), mid=(bs // 3, bs // 2), big=(bs * 4, bs * 40), mixed=(0, 30, bs, bs * 20), onebucket=(bs // 2,))[shape]
        umax, ncfg = rng.choice([(0, 0), (bs * 30, 200)])
        rearr = rng.choice([0, 1])
        sc.note = dict(bs=bs, cache=cache, shape=shape, rearr=rearr)
        keys = []
        total = 0
        for ses in range(rng.choice([1, 2, 3])):
            if ses and rng.random() < 0.4: sc.newproc()
            o = dict(bs=bs, nb=rng.choice([1, 8, 200]), hash=hs, umax=umax, ncfg=ncfg, cache=cache, rearr=rearr)
            sc.open(1, 1, "w" if ses else "c", **o)
            sc.mem()
            for b in range(4):
                m = (40 if shape == "onebucket" else 60 if shape == "big" else 300)
                kv = newkv(sc, rng, m, bs, klens=(8, 12, 40), vlens=vl)
                keys += kv
                sc.putn(1, kv); sc.mem()
                x = rng.random()
                if x < 0.4: sc.scan(1, rng.choice("FLNP"), rng.choice([0, 1])); sc.mem()
                if x < 0.2: sc.sync(1); sc.mem()
                if 0.3 < x < 0.6:
                    for k, v in rng.sample(keys, min(60, len(keys))): sc.put(1, k, sc.repl(rng, v))
                    sc.mem()
                if 0.5 < x < 0.8:
                    for k, v in rng.sample(keys, min(60, len(keys))):
                        sc.put(1, k, v, 20); sc.put(1, k, sc.val(sc.vals[v - 1] + 1)); sc.get(1, k, 1); sc.get(1, sc.key(14))
                    sc.put(1, sc.key(maxkey(bs) + 1), 1); sc.delete(1, keys[0][0])
                    sc.mem()
                if x > 0.7: sc.getall(1); sc.mem()
                if x > 0.8:
                    sc.copen(1, 1)
                    for _ in range(200): sc.cget(1, "N")
                    sc.mem(); sc.cclose(1); sc.mem()
                if 0.6 < x < 0.75:
                    sc.uset(1, sc.val(umax or 3000)); sc.csetall(1, [(3 + j, j % 5) for j in range(ncfg or 1)]); sc.uget(1); sc.cgetall(1); sc.cget1(1, 3)
                    sc.mem()
            if rng.random() < 0.3: sc.sync(1); sc.mem()
            sc.close(1)
        sc.newproc()
        nh = rng.choice([1, 2])
        for h in range(1, nh + 1):
            sc.open(h, 1, "r", hash=hs, cache=rng.choice([1, cache])); sc.mem()
        for h in range(1, nh + 1):
            sc.getall(h); sc.mem(); sc.scan(h, rng.choice("FL")); sc.mem()
        for h in range(1, nh + 1): sc.close(h)
        out.append(sc)
    return out


def hygiene(rng, n):
    """mixed histories in one process; descriptors and memory are the same whenever nothing is open"""
    out = []
    for i in range(n):
        sc = Script("hyg%d" % i)
        sc.res()
        bs = rng.choice([512, 512, 1024, 4096])
        hs = rng.choice([0, 0, 4, 1, 6])
        umax, ncfg = rng.choice([(0, 0), (bs * 2, 12), (50, 1)])
        sc.note = dict(bs=bs, hash=hs)
        live = []
        for s in range(rng.randint(2, 6)):
            cache = rng.choice([1, 1, 1, bs * 8, 0])
            sc.open(1, 1, rng.choice("ccw") if s else "c", bs=bs, nb=rng.choice([0, 1, 3, 16]), hash=hs, umax=umax, ncfg=ncfg, cache=cache, rearr=rng.choice([0, 1]))
            curs = set()
            stale = set()          # cursors that have to be restarted: a new key was stored since
            for t in range(rng.choice([20, 60, 120])):
                x = rng.random()
                if x < 0.12:
                    kv = newkv(sc, rng, rng.choice([1, 3, 20]) if hs != 1 else 2, bs)
                    sc.putn(1, kv); live += kv; stale |= curs
                elif x < 0.2 and live: k, v = rng.choice(live); sc.put(1, k, v, 20)
                elif x < 0.27 and live: k, v = rng.choice(live); sc.put(1, k, sc.val(sc.vals[v - 1] + rng.choice([1, 1000])))
                elif x < 0.33 and live: k, v = rng.choice(live); sc.put(1, k, sc.repl(rng, v))
                elif x < 0.37: sc.put(1, sc.key(maxkey(bs) + rng.randint(1, 60)), 1)
                elif x < 0.47 and live:
                    k, v = rng.choice(live); sc.get(1, k, rng.choice([-1, 1, max(1, sc.vals[v - 1] - 1), sc.vals[v - 1] + 3]))
                elif x < 0.52: sc.get(1, sc.key(rng.choice([1, 4, 9])))
                elif x < 0.57: sc.delete(1, rng.choice(live)[0] if live else sc.key(5))
                elif x < 0.6: sc.scan(1, rng.choice("FLNP"), rng.choice([0, 1]))
                elif x < 0.64: sc.getall(1)
                elif x < 0.68: sc.uset(1, sc.val(rng.choice([0, 1, umax or 4000, (umax or 4000) + 1])))
                elif x < 0.71: sc.uget(1, rng.choice([-1, 0, 1, 5000]))
                elif x < 0.74: sc.csetall(1, [(3 + j, j % 5) for j in range(rng.choice([ncfg or 1, ncfg or 1, (ncfg or 1) + 1]))])
                elif x < 0.77: sc.cset1(1, rng.choice([0, -1, ncfg or 1, 10 ** 6]), rng.choice([3, 4, 99]), 1)
                elif x < 0.8: sc.cgetall(1); sc.cget1(1, rng.choice([3, 77]))
                elif x < 0.88:
                    c = rng.randint(1, 3)
                    if c in curs: sc.cclose(c); curs.discard(c)
                    else: sc.copen(1, c); curs.add(c); stale.discard(c)
                elif curs:
                    c = rng.choice(sorted(curs))
                    for z in range(rng.randint(1, 5)):
                        d = rng.choice("FLNNNPPP" if c not in stale else "FL"); stale.discard(c)
                        # a key the library allocated would belong to nobody if the data buffer is too small
                        kb, db = rng.choice([(-1, -1), (-1, -1), (1, -1), (3, 1), (300, -1), (300, 1), (5000, 300), (5000, 1), (-1, 20000)])
                        sc.cget(c, d, rng.choice([0, 1]) if db != 20000 else 0, kb, db)
                if not curs and rng.random() < 0.04: sc.sync(1)
            for c in sorted(curs): sc.cclose(c)
            if rng.random() < 0.5: sc.getall(1)
            sc.close(1)
            sc.res()
            if rng.random() < 0.4:
                # opens that are refused hold nothing back either
                sc.open(1, 1, rng.choice("rw"), hash=2 if hs != 2 else 3); sc.open(1, 2, rng.choice("rw")); sc.open(1, 1, "W", hash=hs)
                sc.open(1, 3, "c", bs=1 << 22); sc.remove(3)
                sc.res()
            if rng.random() < 0.4:
                for h in (1, 2, 3): sc.open(h, 1, "r", hash=hs, cache=1)
                for h in (2, 1, 3): sc.getall(h); sc.close(h)
                sc.res()
        out.append(sc)
    return out


# --------------------------------------------------------------------------
def concurrent(rng, n, mixed=0.6, meta=False):
    """threads looking up and traversing through one handle, under a chosen schedule"""
    out = []
    for i in range(n):
        bs = rng.choice([512, 512, 512, 1024, 4096])
        hs = rng.choice([0, 0, 4, 6, 1, 5, 2])
        nk = rng.choice([0, 1, 3, 8, 20, 40, 90])
        if hs in (1, 5, 2): nk = min(nk, 40)
        sc = Script("threads%d" % i)
        p = dict(bs=bs, hash=hs, cache=rng.choice([1, 1, 1, bs * 2, bs * 5, 40000, 0]), rearr=rng.choice([0, 1]), nb=rng.choice([1, 1, 2, 4, 16]))
        mode = rng.choice("rrrwc")
        nth = rng.choice([2, 2, 3, 3, 4, 6])
        sc.note = dict(p, nk=nk, mode=mode, threads=nth)
        sc.open(1, 1, "c", **p)
        kv = newkv(sc, rng, nk, bs, big=rng.random() < .6, vlens=None if rng.random() < .6 else [0, 5, 30])
        absent = [sc.key(rng.choice([5, 7, 30])) for _ in range(3)]
        sc.putn(1, kv)
        if meta:
            sc.uset(1, sc.val(rng.choice([3, 600, 1500, 3900])))
            sc.csetall(1, [(100, 1)])
        if mode != "c":
            sc.close(1)
            if mode == "r":
                sc.digest(1)
            sc.open(1, 1, mode, hash=hs, cache=rng.choice([1, 1, 1, bs * 2, bs * 5, 40000, 0]))
        for r in range(rng.choice([1, 1, 2, 3])):
            style = rng.random()
            for t in range(nth):
                sc.thread = t
                lookups = style < .25 or (style < mixed and rng.random() < .5)
                if lookups:
                    for _ in range(rng.choice([1, 3, 8, 20])):
                        if kv and rng.random() < .85:
                            sc.get(1, rng.choice(kv)[0], rng.choice([-1, -1, -1, 0, 3, bs, 5000]))
                        else:
                            sc.get(1, rng.choice(absent))
                        if meta and rng.random() < .3:
                            rng.choice([sc.uget, sc.cgetall, sc.umaxq])(1)
                elif rng.random() < .5:
                    sc.scan(1, rng.choice("FLNP"), rng.choice([0, 1, 1]))
                else:
                    for _ in range(rng.choice([1, 1, 2])):
                        c = t + 1
                        d = rng.choice("FLNP")
                        sc.copen(1, c)
                        for x in range(rng.choice([nk + 2, nk + 1, rng.randint(0, nk + 1)])):
                            sc.cget(c, d if x == 0 else ("N" if d in "FN" else "P"), rng.choice([0, 1, 1]))
                        sc.cclose(c)
            sc.run_threads(rng.getrandbits(40), rng.choice([0, 5, 30, 150, 800]), rng.choice([300, 1500, 6000]), rng.choice([0, 0, 300, 2000]))
            if rng.random() < .4:
                sc.getall(1)
            if rng.random() < .3:
                sc.scan(1, rng.choice("FL"))
        if mode != "r" and rng.random() < .5 and kv:
            sc.putn(1, newkv(sc, rng, 3, bs))
        sc.close(1)
        if mode == "r":
            sc.digest(1)
        sc.open(1, 1, "r", hash=hs)
        sc.getall(1); sc.scan(1, "F")
        sc.close(1)
        out.append(sc)
    return out


# --------------------------------------------------------------------------
G4 = 1 << 32


def convert_file(d, ver, order):
    with open(os.path.join(d, "f1"), "rb") as fp:
        x = ffile.convert(fp.read(), ver, order)
    with open(os.path.join(d, "f2"), "wb") as fp:
        fp.write(x)


def huge(rng, what):
    """values of more than 4 GB; each costs minutes of one core, so few steps each"""
    bs = rng.choice([1 << 16, 1 << 18, 1 << 20])
    sc = Script("huge-" + what)
    sc.huge = True
    n = G4 + rng.choice([0, 1, 77, bs, 3 * bs + 5, rng.randrange(1 << 24)])
    sc.note = dict(bs=bs, len=n, what=what)
    ks = [sc.key(8 + i) for i in range(4)]
    small, near = sc.val(100), sc.val(bs - 200)
    o = dict(bs=bs, nb=1, rearr=1 if what == "moves" else rng.choice([0, 1]), cache=1 << 22)
    sc.open(1, 1, "c", **o)
    sc.put(1, ks[0], near)
    if what == "v5":
        # the older format has no room for the upper bits of a length
        sc.put(1, ks[1], small); sc.close(1)
        order = rng.choice([1234, 4321])
        sc.host(lambda d: convert_file(d, 5, order), dict(op="convert", f=1, g=2, ver=5, ord=0 if order == 1234 else 1))
        sc.open(1, 2, "w", cache=1 << 22, rearr=rng.choice([0, 1]))
        sc.put(1, ks[2], sc.val(G4 + rng.randrange(1 << 20))); sc.put(1, ks[1], sc.val(G4 + rng.randrange(90)))
        sc.put(1, ks[3], small)
        sc.getall(1); sc.close(1)
        inspect(sc, 2, 0, meta=False)
        return sc
    if what in ("refuse", "limits"):
        # a huge value never replaces a smaller one, even one that is larger modulo 2^32
        sc.put(1, ks[1], small)
        if what == "refuse":
            sc.put(1, ks[1], sc.val(G4 + rng.randrange(0, 90)))
        sc.put(1, ks[1], sc.val((1 << 40) + rng.choice([0, 1, 12345])))
        sc.put(1, ks[2], sc.val((1 << 40) + rng.choice([0, 1, 12345])))
        sc.get(1, ks[1]); sc.get(1, ks[2]); sc.get(1, ks[0])
        sc.close(1)
        inspect(sc, 1, 0, meta=False)
        return sc
    big = sc.val(n)
    if what == "moves":
        # pages behind the first 4 GB are moved into the gap of unused buckets and back
        wide = [(sc.key(bs - rng.choice([100, 3000, bs // 2])), rng.choice([small, near])) for _ in range(rng.choice([10, 19, 21]))]
        more = [(sc.key(bs - 200), small) for _ in range(9)]
        sc.putn(1, wide[:9]); sc.put(1, ks[1], big); sc.putn(1, wide[9:]); sc.put(1, ks[2], small)
        sc.close(1); sc.newproc()
        sc.open(1, 1, "w", cache=1 << 22, rearr=1)
        for k, v in wide[::3]: sc.get(1, k)
        sc.putn(1, more); sc.put(1, ks[3], near)
        sc.close(1); sc.newproc()
        sc.open(1, 1, "r", cache=1 << 22)
        for k, v in wide + more: sc.get(1, k)
        for k in ks: sc.get(1, k)
        sc.close(1)
        return sc
    sc.put(1, ks[1], big)
    sc.put(1, ks[2], small)
    if what == "lookup":
        sc.get(1, ks[0]); sc.get(1, ks[2]); sc.get(1, ks[1])
        sc.close(1)
    elif what == "session":
        sc.close(1); sc.newproc()
        sc.open(1, 1, "w", cache=1 << 22, rearr=1)
        sc.put(1, ks[3], near)
        sc.get(1, ks[1]); sc.get(1, ks[2]); sc.get(1, ks[3]); sc.get(1, ks[0])
        sc.close(1)
    elif what == "shrink":
        b2 = sc.val(n - rng.randrange(0, n - G4 + 1))
        sc.put(1, ks[1], b2); sc.get(1, ks[1])
        sc.put(1, ks[1], sc.val(2 * bs)); sc.get(1, ks[1])
        sc.put(1, ks[1], b2)              # no longer fits
        sc.get(1, ks[1]); sc.get(1, ks[2])
        sc.close(1); sc.newproc()
        sc.open(1, 1, "r"); sc.get(1, ks[1]); sc.get(1, ks[0]); sc.close(1)
    elif what == "drop":
        # the length of the new value is small again
        sc.put(1, ks[1], sc.val(2 * bs + 9)); sc.get(1, ks[1])
        sc.close(1); sc.newproc()
        sc.open(1, 1, "r"); sc.get(1, ks[1]); sc.get(1, ks[2]); sc.close(1)
    return sc
