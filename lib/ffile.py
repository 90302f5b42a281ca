"""Independent decoder of the on-disk format: turns the bytes of a database file
into the records spec/HashFile.tla speaks about, and rewrites a file in another
supported representation (format version 5, opposite byte order)."""
import os
import struct, zlib

MAGIC, PAGESIGN, INVALID = 0xcece3434, 0xe0f1a2b9, 0xffffffff
BUCKET, DATA, OVFL, UINFO, CONFIG, FREE, DELETED = 0x1001, 0x2001, 0x3001, 0x4001, 0x5001, 0x6001, 0x8001
TNAME = {BUCKET: "bucket", DATA: "data", UINFO: "uinfo", CONFIG: "config", FREE: "free", DELETED: "deleted"}
HDR = ["magic", "version", "lorder", "bsize", "bshift", "ovfl", "maxb", "high", "low", "ffactor", "nkeys", "hdrpages", "uinfolen"]
HDRLEN = 332
FPMOD = (1 << 61) - 31


def fp(b):
    return (len(b), int.from_bytes(b, "little") % FPMOD)


def log2ceil(n):
    i, lim = 0, 1
    while lim < n:
        lim <<= 1; i += 1
    return i


def ham5(key):
    h = 0
    for c in key:
        h = ((h * 16777619) & 0xffffffff) ^ c
    return h


def fnv(key):
    h = 2166136261
    for c in key:
        h = ((h ^ c) * 16777619) & 0xffffffff
    return h


HASHES = [ham5, lambda k: 7, lambda k: k[0] if k else 0, lambda k: (len(k) * 2654435761) & 0xffffffff, fnv,
          lambda k: fnv(k) & 3, lambda k: (fnv(k) << 5) & 0xffffffff, lambda k: 0xffffffff, lambda k: (fnv(k) | ~0x40) & 0xffffffff, lambda k: 768]


class BadFile(Exception):
    pass


class Image:
    def __init__(self, data):
        self.raw = data
        if len(data) < HDRLEN:
            raise BadFile("too short")
        h = {}
        v = struct.unpack(">13I4H3I32I32II", data[:HDRLEN])
        for n, x in zip(HDR, v):
            h[n] = x
        h["uinfo_page"], h["uinfo_npages"], h["cfig_page"], h["cfig_npages"] = v[13:17]
        h["num_cfigs"], h["h_charkey"], h["moved"] = v[17:20]
        h["spares"] = list(v[20:52]); h["free"] = list(v[52:84]); h["chksum"] = v[84]
        self.h = h
        if h["magic"] != MAGIC or h["bsize"] < 512 or h["bsize"] > 1 << 20 or h["bsize"] & (h["bsize"] - 1):
            raise BadFile("bad header")
        self.e = "<" if h["lorder"] == 1234 else ">"
        self.bs = h["bsize"]
        self.n = (len(data) + self.bs - 1) // self.bs

    def hdr_ok(self):
        return zlib.crc32(self.raw[:HDRLEN - 4]) == self.h["chksum"]

    def page(self, p):
        return self.raw[p * self.bs:(p + 1) * self.bs]

    def u32(self, b, o):
        return struct.unpack_from(self.e + "I", b, o)[0]

    def u16(self, b, o):
        return struct.unpack_from(self.e + "H", b, o)[0]

    def meta(self, p):
        """None for a page never written, else its header"""
        b = self.page(p)
        if len(b) < self.bs:
            b = b + bytes(self.bs - len(b))
        if not any(b):
            return None
        m = dict(cur=self.u32(b, 0), prev=self.u32(b, 4), next=self.u32(b, 8), sign=self.u32(b, 12), n=self.u16(b, 16), type=self.u16(b, 18),
                 chk=self.u32(b, 20), off=self.u32(b, 24), first=self.u32(b, 28))
        c = zlib.crc32(b[24:], zlib.crc32(b[:20]))
        m["crc"] = (c == m["chk"])
        return m

    def bucket_page(self, b):
        lv = log2ceil(b + 1)
        return b - (1 << (lv - 1)) + self.h["spares"][lv] if b > 0 else self.h["spares"][0]

    def split(self, off, ln):
        """offset and length fields of a data pointer / header status"""
        if self.h["version"] > 5:
            return off & 0xfffff, (((off >> 20) & 0xff) << 32) | ln
        return off, ln

    def chain(self, b):
        """key pages of bucket b: list of (page, meta)"""
        out, seen = [], set()
        p = self.bucket_page(b)
        while p != INVALID and p < self.n and p not in seen:
            m = self.meta(p)
            seen.add(p)
            if m is None:
                if out:
                    out.append((p, None))
                break
            out.append((p, m))
            p = m["next"]
        if p != INVALID and (p in seen and self.meta(p) is not None):
            out.append((p, dict(out[0][1], loop=True)))
        elif p != INVALID and p >= self.n and out:
            out.append((p, None))
        return out

    def entries(self, b, chain=None):
        for p, m in (chain if chain is not None else self.chain(b)):
            if m is None or m.get("loop") or m["type"] != BUCKET:
                continue
            pg = self.page(p)
            for i in range(m["n"]):
                if 28 + 12 * i + 12 > self.bs:
                    break
                ko, kl, do = struct.unpack_from(self.e + "3I", pg, 28 + 12 * i)
                if do + 16 > self.bs or ko + kl > self.bs:
                    yield dict(page=p, idx=i, bad=True); continue
                first, off, ln, ck = struct.unpack_from(self.e + "4I", pg, do)
                off, ln = self.split(off, ln)
                yield dict(page=p, idx=i, bad=False, key=pg[ko:ko + kl], first=first, off=off, len=ln, chk=ck, ko=ko, kl=kl, do=do)

    def value(self, e):
        """(bytes, extents, header fields) of an entry, or None"""
        p, start, left = e["first"], e["off"], e["len"]
        if p >= self.n or start + 20 > self.bs or left > len(self.raw):
            return None
        pg = self.page(p)
        hl, st, nx, kp, ki = struct.unpack_from(self.e + "5I", pg, start)
        if self.h["version"] > 5:
            hl |= ((st >> 20) & 0xff) << 32; st &= 0xfffff
        out, ext = [], []
        s = start + 20
        first = True
        seen = 0
        while True:
            c = min(left, self.bs - s)
            out.append(pg[s:s + c])
            ext.append((p, start if first else s, s + c))
            first = False
            left -= c
            if left <= 0:
                break
            p = self.u32(pg, 8)
            seen += 1
            if p >= self.n or seen > self.n:
                return None
            pg = self.page(p)
            s = 32
        return b"".join(out), ext, dict(len=hl, status=st, key_page=kp, key_idx=ki)

    def data_headers(self, p, m):
        """offsets of the data headers on data page p"""
        out, pos = [], m["first"]
        b = self.page(p)
        for _ in range(m["n"]):
            if pos == 0 or pos + 20 > self.bs:
                out.append(-1); break
            out.append(pos)
            pos = self.u32(b, pos + 8)
        return out

    def uinfo(self):
        b = b""
        ln = None
        for i in range(self.h["uinfo_npages"]):
            p = self.h["uinfo_page"] + i
            pg = self.page(p)
            if not any(pg):
                continue
            if ln is None:
                ln = self.u32(pg, 28); b += pg[32:]
            else:
                b += pg[28:]
        return b[:ln] if ln is not None else b""

    def configs(self):
        out = []
        for i in range(self.h["cfig_npages"]):
            m = self.meta(self.h["cfig_page"] + i)
            if m is None:
                continue
            pg = self.page(self.h["cfig_page"] + i)
            for j in range(m["n"]):
                o = 28 + 148 * j
                if o + 148 <= self.bs:
                    out.append(struct.unpack_from(self.e + "5i", pg, o) + (pg[o + 20:o + 148],))
        return out

    def home(self, p):
        """page number before the moves done at the last close"""
        mv = self.h["moved"]
        if mv:
            fu = self.bucket_page(self.h["maxb"] + 1)
            if fu <= p < fu + mv:
                return p - fu + self.h["spares"][self.h["ovfl"] + 1] - mv
        return p

    def moved_to(self, p):
        mv = self.h["moved"]
        if mv:
            top = self.h["spares"][self.h["ovfl"] + 1]
            if top - mv <= p < top:
                return self.bucket_page(self.h["maxb"] + 1) + p - (top - mv)
        return p

    def free_lists(self):
        """(free map pages, free pages) of every level, as current page numbers; None when unreadable"""
        maps, pages = [], []
        for lv in range(32):
            p = self.h["free"][lv]
            seen = set()
            while p != INVALID:
                q = self.moved_to(p)
                if q in seen or q >= self.n:
                    return None
                seen.add(q)
                m = self.meta(q)
                if m is None or m["type"] != FREE:
                    return None
                maps.append(q)
                pg = self.page(q)
                pages += [self.moved_to(self.u32(pg, 28 + 4 * i)) for i in range(m["n"])]
                # links between moved pages are rewritten, others are not
                p = self.home(m["next"]) if m["next"] != INVALID else INVALID
        return maps, pages


def load(path):
    if os.path.getsize(path) > 256 << 20:
        raise BadFile("implausible size %d" % os.path.getsize(path))
    with open(path, "rb") as fp_:
        return Image(fp_.read())


def s32(x):
    return x - (1 << 32) if x >= 1 << 31 else x


def image_event(img, ktab, vtab, hash=0, mod=1 << 30):
    """the record HashFile.tla judges"""
    h = img.h
    hf = HASHES[hash]
    ents, exts, bpages, kpages = [], [], [], []
    vbad = 0
    for b in range(h["maxb"] + 1 if h["maxb"] < 1 << 20 else 0):
        ch = img.chain(b)
        kpages += [[b, p, s32(m["cur"]) if m else -1, 1 if m and m["crc"] and m["sign"] == PAGESIGN and not m.get("loop") else 0,
                    TNAME.get(m["type"], "?") if m else "none"] for p, m in ch]
        for e in img.entries(b, ch):
            if e["bad"]:
                vbad += 1; continue
            v = img.value(e)
            if v is None:
                vbad += 1; continue
            val, ext, hd = v
            okflag = 0xffee if h["version"] > 5 else 0xffeeffee
            ents.append([b, hf(e["key"]) % mod, ktab.get(fp(e["key"]), -1), vtab.get(fp(val), -1), e["page"], e["idx"], hd["key_page"], hd["key_idx"],
                         1 if hd["len"] == e["len"] and hd["status"] == okflag and zlib.crc32(val) == e["chk"] else 0])
            exts += [list(x) for x in ext]
    exts.sort()
    dp = sorted(set(x[0] for x in exts))
    dpages = []
    for p in dp:
        m = img.meta(p)
        dpages.append([p, s32(m["cur"]) if m else -1, 1 if m and m["crc"] and m["sign"] == PAGESIGN else 0, TNAME.get(m["type"], "?") if m else "none"])
    # headers found by walking the data pages
    walk = 0
    for p in dp:
        m = img.meta(p)
        if m and m["type"] == DATA:
            walk += len(img.data_headers(p, m))
    fl = img.free_lists()
    crc = 1
    for p in range(1, img.n):
        m = img.meta(p)
        if m is not None and not (m["crc"] and m["sign"] == PAGESIGN):
            crc = 0
    return dict(hdrok=1 if img.hdr_ok() else 0, magic=1 if h["magic"] == MAGIC else 0, ver=h["version"], ord=0 if h["lorder"] == 1234 else 1, bs=h["bsize"], bshift=h["bshift"], ovfl=h["ovfl"],
                maxb=h["maxb"], high=s32(h["high"]), low=s32(h["low"]), nkeys=h["nkeys"], hdrpages=h["hdrpages"], umax=h["uinfolen"],
                upage=h["uinfo_page"], unp=h["uinfo_npages"], cpage=h["cfig_page"], cnp=h["cfig_npages"], ncfg=h["num_cfigs"],
                hk=1 if h["h_charkey"] == hf(b"%$sniglet^&\0") else 0, moved=h["moved"], spares=[s32(x) for x in h["spares"]], npages=img.n, part=len(img.raw) % img.bs,
                vbad=vbad, crc=crc, walk=walk, ents=ents, exts=exts, dpages=dpages, kpages=kpages,
                fmaps=fl[0] if fl else [], fpages=fl[1] if fl else [], flok=1 if fl else 0,
                ui=vtab.get(fp(img.uinfo()), -1))


# --------------------------------------------------------------------------
def convert(data, version=None, order=None):
    """the same database in format version 5 or 6 and byte order 1234 or 4321"""
    img = Image(data)
    h = dict(img.h)
    ver = version or h["version"]
    ordr = order or h["lorder"]
    e2 = "<" if ordr == 1234 else ">"
    out = bytearray(len(data) if len(data) % img.bs == 0 else img.n * img.bs)
    out[:len(data)] = data
    e1 = img.e

    def conv32(o, n=1):
        for i in range(n):
            struct.pack_into(e2 + "I", out, o + 4 * i, struct.unpack_from(e1 + "I", data, o + 4 * i)[0])

    def conv16(o, n=1):
        for i in range(n):
            struct.pack_into(e2 + "H", out, o + 2 * i, struct.unpack_from(e1 + "H", data, o + 2 * i)[0])

    def status(o):
        s = struct.unpack_from(e1 + "I", data, o)[0]
        if ver == 5 and h["version"] == 6:
            s = 0xffeeffee if (s & 0xfffff) == 0xffee else 0x11221122
        elif ver == 6 and h["version"] == 5:
            s = 0xffee if s == 0xffeeffee else 0x1122
        struct.pack_into(e2 + "I", out, o, s)
    for p in range(1, img.n):
        m = img.meta(p)
        if m is None:
            continue
        B = p * img.bs
        conv32(B, 4); conv16(B + 16, 2); conv32(B + 24)
        t, n = m["type"], m["n"]
        if t == BUCKET:
            for i in range(n):
                do = struct.unpack_from(e1 + "I", data, B + 28 + 12 * i + 8)[0]
                conv32(B + 28 + 12 * i, 3); conv32(B + do, 4)
        elif t == DATA:
            conv32(B + 28)
            for pos in img.data_headers(p, m):
                if pos < 0:
                    raise BadFile("data header list")
                conv32(B + pos, 5); status(B + pos + 4)
        elif t == FREE:
            conv32(B + 28, n)
        elif t == UINFO:
            if n > 0:
                conv32(B + 28)
        elif t == CONFIG:
            for i in range(n):
                conv32(B + 28 + 148 * i, 5)
        b = bytes(out[B:B + img.bs])
        struct.pack_into(e2 + "I", out, B + 20, zlib.crc32(b[24:], zlib.crc32(b[:20])))
    h["version"], h["lorder"] = ver, ordr
    out[:HDRLEN] = pack_header(h)
    return bytes(out)


def pack_header(h):
    v = [h[n] for n in HDR] + [h["uinfo_page"], h["uinfo_npages"], h["cfig_page"], h["cfig_npages"], h["num_cfigs"], h["h_charkey"], h["moved"]] + h["spares"] + h["free"]
    b = struct.pack(">13I4H3I32I32I", *v)
    return b + struct.pack(">I", zlib.crc32(b))
