/*
 * drv.c - executes a text script of database operations against the real
 * library through its public C interface and prints one observation line per
 * script line on the file given as argv[2] (flushed after every line, so that
 * a process death keeps everything observed up to that point).
 *
 * The script is produced from behaviours of spec/FileDB.tla; the observations
 * are turned into a trace which TLC checks against the same specification.
 * Keys and values are abstract ids in the specification; this file fixes
 * their concrete bytes and maps observed bytes back to ids.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <ffdb_db.h>

/* ------------------------------------------------------------------ */
/* deterministic bytes                                                 */
static uint64_t mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
static void fill(unsigned char* p, long len, uint64_t seed)
{
  long i;
  uint64_t s = mix(seed), w = 0;
  for (i = 0; i < len; i++) {
    if ((i & 7) == 0) { s = mix(s); w = s; }
    p[i] = (unsigned char)(w >> ((i & 7) * 8));
  }
}
static uint64_t digest(const unsigned char* p, long len)
{
  uint64_t h = 1469598103934665603ULL ^ (uint64_t)len;
  long i = 0;
  for (; i + 8 <= len; i += 8) { uint64_t w; memcpy(&w, p + i, 8); h = (h ^ w) * 1099511628211ULL; h ^= h >> 29; }
  for (; i < len; i++) { h ^= p[i]; h *= 1099511628211ULL; h ^= h >> 31; }
  return h;
}

/* ------------------------------------------------------------------ */
/* tables of known keys and values                                     */
typedef struct { int id; long len; uint64_t dg; int mode; unsigned char* b; } blob;
static blob* keys; static int nkeys, ckeys;
static blob* vals; static int nvals, cvals;

static blob* findb(blob* t, int n, int id)
{
  /* ids are usually dense and ascending */
  if (id < n && id >= 0 && t[id].id == id) return &t[id];
  for (int i = 0; i < n; i++) if (t[i].id == id) return &t[i];
  fprintf(stderr, "drv: unknown id %d\n", id); _exit(90);
}
/* open addressing index on digests so that lookups are O(1) */
typedef struct { int* slot; int cap; } idx;
static idx kidx, vidx;
static void idxadd(idx* x, blob* t, int n, int i)
{
  if (n * 3 > x->cap) {
    int oc = x->cap; x->cap = oc ? oc * 4 : 1024;
    free(x->slot); x->slot = malloc(sizeof(int) * x->cap);
    for (int k = 0; k < x->cap; k++) x->slot[k] = -1;
    for (int k = 0; k < n; k++) if (k != i) {
      uint64_t h = t[k].dg % x->cap;
      while (x->slot[h] >= 0) h = (h + 1) % x->cap;
      x->slot[h] = k;
    }
  }
  uint64_t h = t[i].dg % x->cap;
  while (x->slot[h] >= 0) h = (h + 1) % x->cap;
  x->slot[h] = i;
}
static int hugesame(const unsigned char* b, int id, long len);
static int idxfind(idx* x, blob* t, const unsigned char* p, long len)
{
  if (len >= (1L << 31)) {
    if (x == &vidx) for (int i = 0; i < nvals; i++) if (t[i].len == len && hugesame(p, t[i].id, len)) return t[i].id;
    return -1;
  }
  uint64_t d = digest(p, len);
  if (!x->cap) return -1;
  uint64_t h = d % x->cap;
  while (x->slot[h] >= 0) {
    blob* b = &t[x->slot[h]];
    if (b->dg == d && b->len == len) return b->id;
    h = (h + 1) % x->cap;
  }
  return -1;
}

static unsigned char* keybytes(int id, int mode, long len)
{
  unsigned char* b = malloc(len);
  long i;
  switch (mode) {
  case 'p':                           /* common prefix, differ in the tail */
    memset(b, 'P', len);
    for (i = 0; i < 4 && i < len; i++) b[len - 1 - i] = (unsigned char)(id >> (8 * i));
    break;
  case 'z': memset(b, 0, len); break; /* differ only in length */
  case 'a':                           /* printable */
    for (i = 0; i < len; i++) b[i] = 'a' + (mix(id * 977 + i) % 26);
    break;
  case 'b':                           /* leading id, zero tail */
    memset(b, 0, len);
    for (i = 0; i < 4 && i < len; i++) b[i] = (unsigned char)(id >> (8 * i));
    break;
  default: fill(b, len, 0x1000000ULL + id);
  }
  return b;
}
/* values of 2 GB and more: a pattern of 16 MB, repeated, mapped again and
 * again from one file in memory; from 2^36 bytes on only the size is real */
#define HUGELEN (1L << 31)
#define UNREAL (1L << 36)
#define PERIOD (1L << 24)
static unsigned char* hugebytes(int id, long len)
{
  int fd = memfd_create("huge", 0);
  unsigned char *p, *q;
  if (fd < 0 || ftruncate(fd, PERIOD)) _exit(90);
  p = mmap(0, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) _exit(90);
  fill(p, PERIOD, 0x77000000ULL + id);
  munmap(p, PERIOD);
  p = mmap(0, len + PERIOD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _exit(90);
  for (q = p; q < p + len; q += PERIOD)
    if (mmap(q, PERIOD, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(90);
  close(fd);
  return p;
}
static int hugesame(const unsigned char* b, int id, long len)
{
  unsigned char* t = malloc(PERIOD);
  int same = 1;
  fill(t, PERIOD, 0x77000000ULL + id);
  for (long i = 0; same && i < len; i += PERIOD)
    same = !memcmp(b + i, t, len - i < PERIOD ? len - i : PERIOD);
  free(t);
  return same;
}
static void vfree(unsigned char* b, long len)
{
  if (len >= HUGELEN && len < UNREAL) munmap(b, len + PERIOD); else free(b);
}
/* how the bytes of a value are made, by id */
static struct { int mode, of; long len; }* vmode; static int nvmode;
static unsigned char* valbytes(int id, long len)
{
  if (len >= UNREAL) return calloc(1, 4096);
  if (len >= HUGELEN) return hugebytes(id, len);
  unsigned char* b = malloc(len > 0 ? len : 1);
  int m = id >= 0 && id < nvmode ? vmode[id].mode : 0;
  if (m == 'z') memset(b, 0, len);
  else if (m == 'o') { memset(b, 0xff, len); if (len) b[0] = 0xfe; }
  else if (m && vmode[id].of > 0 && vmode[id].of < id) {
    /* made from another value */
    int of = vmode[id].of; long ol = vmode[of].len, i;
    unsigned char* x = valbytes(of, ol);
    fill(b, len, 0x77000000ULL + id);
    memcpy(b, x, len < ol ? len : ol);
    free(x);
    if (m == 'l' && len > 0) b[len - 1] ^= 1 << (id & 7);
    if (m == 'f' && len > 0) b[0] ^= 1 << (id & 7);
    if (m == 't' && len >= 5) {
      /* same length, same CRC-32, other bytes */
      long o = mix(id) % (len * 8 - 32);
      for (i = 0; i <= 32; i++) if ((0x104C11DB7ULL >> (32 - i)) & 1) b[(o + i) >> 3] ^= 1 << ((o + i) & 7);
    }
  } else fill(b, len, 0x77000000ULL + id);
  return b;
}

/* ------------------------------------------------------------------ */
/* hash functions a client may supply                                  */
static unsigned int h_const(const void* k, unsigned int n) { (void)k; (void)n; return 7; }
static unsigned int h_first(const void* k, unsigned int n) { return n ? ((const unsigned char*)k)[0] : 0; }
static unsigned int h_len(const void* k, unsigned int n) { (void)k; return n * 2654435761u; }
static unsigned int h_fnv(const void* k, unsigned int n)
{ const unsigned char* p = k; unsigned h = 2166136261u; while (n--) { h ^= *p++; h *= 16777619u; } return h; }
static unsigned int h_low2(const void* k, unsigned int n) { return h_fnv(k, n) & 3; }
static unsigned int h_hi(const void* k, unsigned int n) { return h_fnv(k, n) << 5; }
static unsigned int h_ones(const void* k, unsigned int n) { (void)k; (void)n; return 0xffffffffu; }
static unsigned int h_ones2(const void* k, unsigned int n) { return h_fnv(k, n) | ~0x40u; }
static unsigned int h_768(const void* k, unsigned int n) { (void)k; (void)n; return 768; }
typedef unsigned int (*hfn)(const void*, unsigned int);
static hfn hashes[] = { 0, h_const, h_first, h_len, h_fnv, h_low2, h_hi, h_ones, h_ones2, h_768 };
/* a user comparison that agrees with equality but not with memcmp order */
static int cmp_rev(const FFDB_DBT* a, const FFDB_DBT* b)
{
  if (a->size != b->size) return a->size < b->size ? 1 : -1;
  return -memcmp(a->data, b->data, a->size);
}

/* ------------------------------------------------------------------ */
/* fault injection and write observation (linked with --wrap)          */
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
off_t __real_lseek(int, off_t, int);
off_t __real_lseek64(int, off_t, int);
int __real_ftruncate(int, off_t);
int __real_ftruncate64(int, off_t);
static int f_kind;             /* 0 none, r w s t ; */
static long f_after;           /* fire on the n-th call from now (1 = next) */
static long f_count;           /* how many consecutive calls fail; -1 forever */
static int f_mode;             /* 0 error EIO, 1 short, 2 ENOSPC short 0 */
static long f_fired;
static long n_read, n_write, n_trunc;
static __thread FILE* out;
static FILE* fout;             /* one line per call made to fail: script line, kind */
static long ln;
static long n_calls[128];
static int fire(int kind)
{
  n_calls[kind]++;
  if (f_kind != kind) return 0;
  if (f_after > 1) { f_after--; return 0; }
  if (f_count == 0) return 0;
  if (f_count > 0) f_count--;
  f_fired++;
  static long logged_ln, logged;
  if (logged_ln != ln) { logged_ln = ln; logged = 0; }
  if (logged++ < 8) { fprintf(fout, "%ld %c\n", ln, kind); fflush(fout); }
  return 1;
}
ssize_t __wrap_read(int fd, void* b, size_t n)
{
  n_read++;
  if (fire('r')) {
    if (f_mode == 1 && n > 1) return __real_read(fd, b, n / 2);
    errno = EIO; return -1;
  }
  return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
  n_write++;
  if (fire('w')) {
    if (f_mode == 1 && n > 1) return __real_write(fd, b, n / 2);
    errno = f_mode == 2 ? ENOSPC : EIO; return -1;
  }
  return __real_write(fd, b, n);
}
off_t __wrap_lseek(int fd, off_t o, int w)
{ if (fire('s')) { errno = EIO; return -1; } return __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w)
{ if (fire('s')) { errno = EIO; return -1; } return __real_lseek64(fd, o, w); }
int __wrap_ftruncate(int fd, off_t l)
{ n_trunc++; if (fire('t')) { errno = EIO; return -1; } return __real_ftruncate(fd, l); }
int __wrap_ftruncate64(int fd, off_t l)
{ n_trunc++; if (fire('t')) { errno = EIO; return -1; } return __real_ftruncate64(fd, l); }

ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pread64(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_pwrite64(int, const void*, size_t, off_t);
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o)
{ n_read++; if (fire('r')) { if (f_mode == 1 && n > 1) return __real_pread64(fd, b, n / 2, o); errno = EIO; return -1; }
  return __real_pread64(fd, b, n, o); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { return __wrap_pread64(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o)
{ n_write++; if (fire('w')) { if (f_mode == 1 && n > 1) return __real_pwrite64(fd, b, n / 2, o); errno = f_mode == 2 ? ENOSPC : EIO; return -1; }
  return __real_pwrite64(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return __wrap_pwrite64(fd, b, n, o); }

/* live allocations made by the library and this file */
static long live;
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); char* __real_strdup(const char*);
static long bytes, bytes0;          /* bytes0: before the first of the open handles was opened */
static void count(void* p, int d) { if (p) { __sync_fetch_and_add(&live, d); __sync_fetch_and_add(&bytes, d * (long)malloc_usable_size(p)); } }
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); count(p, 1); return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); count(p, 1); return p; }
void* __wrap_realloc(void* q, size_t n)
{
  long old = q ? (long)malloc_usable_size(q) : 0;
  void* p = __real_realloc(q, n);
  if (p) { if (!q) __sync_fetch_and_add(&live, 1); __sync_fetch_and_add(&bytes, (long)malloc_usable_size(p) - old); }
  return p;
}
char* __wrap_strdup(const char* q) { char* p = __real_strdup(q); count(p, 1); return p; }
void __wrap_free(void* p) { count(p, -1); __real_free(p); }
static int nfds(void)
{
  int n = 0; struct stat st;
  for (int i = 0; i < 256; i++) if (fstat(i, &st) == 0) n++;
  return n;
}

/* ------------------------------------------------------------------ */
#define NH 32
static FFDB_DB* H[NH];
static ffdb_cursor_t* C[NH];

static void fillcfg(ffdb_config_info_t* c, int tag)
{
  memset(c, 0, sizeof *c);
  c->inserted = (int)(mix(tag * 3 + 1) & 1);
  c->type = (int)(mix(tag * 3 + 2) & 0x7fffffff);
  c->mtime = (int)(mix(tag * 3 + 3) & 0x7fffffff);
  int n = (int)(mix(tag * 3 + 4) % (_FFDB_MAX_FNAME - 1)) + 1;
  for (int i = 0; i < n; i++) c->fname[i] = 'a' + mix(tag * 131 + i) % 26;
}

/* one operation; its observation goes to out */
static int doop(long ln, const char* op, char* a)
{
  if (!strcmp(op, "OPEN")) {
    /* OPEN h file mode bsize nb cache rearr uinfolen ncfg hash cmp */
    int h, rearr, hash, cmp; char file[256], mode[8];
    unsigned bsize, nb, ul, nc; unsigned long cache;
    sscanf(a, "%d %255s %7s %u %u %lu %d %u %u %d %d", &h, file, mode, &bsize, &nb, &cache, &rearr, &ul, &nc, &hash, &cmp);
    FFDB_HASHINFO info; memset(&info, 0, sizeof info);
    info.bsize = bsize; info.nbuckets = nb; info.cachesize = cache;
    info.rearrangepages = rearr; info.userinfolen = ul; info.numconfigs = nc;
    info.hash = hashes[hash]; info.cmp = cmp ? cmp_rev : 0;
    int fl = O_RDONLY;
    if (mode[0] == 'w') fl = O_RDWR;
    else if (mode[0] == 'c') fl = O_RDWR | O_CREAT;
    else if (mode[0] == 'e') fl = O_RDWR | O_CREAT | O_EXCL;
    else if (mode[0] == 't') fl = O_RDWR | O_CREAT | O_TRUNC;
    else if (mode[0] == 'W') fl = O_WRONLY;
    for (char* m = mode + 1; *m; m++)      /* the first two make no difference, the others are not supported */
      fl |= *m == 'b' ? O_NONBLOCK : *m == 'C' ? O_CREAT : *m == 'x' ? O_CLOEXEC : *m == 'a' ? O_APPEND : *m == 's' ? O_SYNC : *m == 'd' ? O_DIRECTORY : 0;
    { int any = 0; for (int i = 0; i < NH; i++) any |= H[i] != 0; if (!any) bytes0 = bytes; }
    errno = 0;
    H[h] = ffdb_dbopen(file, fl, 0644, &info);
    fprintf(out, "%ld %d %d\n", ln, H[h] ? 0 : -1, H[h] ? 0 : errno);
  } else if (!strcmp(op, "PUT")) {
    int h, k, v; unsigned flag;
    sscanf(a, "%d %d %d %u", &h, &k, &v, &flag);
    blob *kb = findb(keys, nkeys, k), *vb = findb(vals, nvals, v);
    unsigned char* kx = malloc(kb->len); memcpy(kx, kb->b, kb->len);
    int small = vb->len < HUGELEN;
    unsigned char* vx0 = valbytes(vb->id, vb->len);
    unsigned char* vx = vx0;
    if (small) { vx = malloc(vb->len); memcpy(vx, vx0, vb->len); free(vx0); }
    FFDB_DBT K = { kx, kb->len }, V = { vx, vb->len };
    errno = 0;
    int r = H[h]->put(H[h], &K, &V, flag);
    int e = errno;
    int intact = K.data == kx && K.size == kb->len && V.data == vx && V.size == vb->len &&
      !memcmp(kx, kb->b, kb->len) && (!small || idxfind(&vidx, vals, vx, vb->len) >= 0);
    fprintf(out, "%ld %d %d %d\n", ln, r, e, intact);
    free(kx); vfree(vx, vb->len);
  } else if (!strcmp(op, "GET")) {
    /* GET h k buf : buf = -1 library allocates, n = caller buffer of n bytes */
    int h, k; long buf;
    sscanf(a, "%d %d %ld", &h, &k, &buf);
    blob* kb = findb(keys, nkeys, k);
    unsigned char* kx = malloc(kb->len); memcpy(kx, kb->b, kb->len);
    FFDB_DBT K = { kx, kb->len }, V = { 0, 0 };
    unsigned char* ub = 0;
    if (buf >= 0) { ub = malloc(buf); V.data = ub; V.size = buf; memset(ub, 0xA5, buf); }
    errno = 0;
    int r = H[h]->get(H[h], &K, &V, 0);
    int e = errno;
    int v = -2;
    if (r == 0) v = V.size < 0 || (!V.data && V.size) ? -1 : idxfind(&vidx, vals, V.data, V.size);
    int foreign = (r == 0 && buf > 0 && V.data != ub);
    fprintf(out, "%ld %d %d %d %ld %d\n", ln, r, v, e, r == 0 ? V.size : -1L, foreign);
    if (V.data != ub) free(V.data);        /* a failed lookup leaves nothing that is not the caller's to free */
    free(ub); free(kx);
  } else if (!strcmp(op, "PUTN")) {
    /* PUTN h flag k v k v ... : stops at the first store that is refused */
    int h, k, v, m, done = 0, r = 0; unsigned flag;
    sscanf(a, "%d %u%n", &h, &flag, &m); a += m;
    while (sscanf(a, "%d %d%n", &k, &v, &m) == 2) {
      a += m;
      blob *kb = findb(keys, nkeys, k), *vb = findb(vals, nvals, v);
      unsigned char* kx = malloc(kb->len); memcpy(kx, kb->b, kb->len);
      unsigned char* vx = valbytes(vb->id, vb->len);
      FFDB_DBT K = { kx, kb->len }, V = { vx, vb->len };
      r = H[h]->put(H[h], &K, &V, flag);
      free(kx); vfree(vx, vb->len);
      if (r) break;
      done++;
    }
    fprintf(out, "%ld %d %d\n", ln, done, r);
  } else if (!strcmp(op, "GETALL")) {
    /* looks up every known key: id, 0 not found, -9 failure, -1 wrong bytes */
    int h; sscanf(a, "%d", &h);
    fprintf(out, "%ld", ln);
    for (int i = 0; i < nkeys; i++) {
      unsigned char* kx = malloc(keys[i].len); memcpy(kx, keys[i].b, keys[i].len);
      FFDB_DBT K = { kx, keys[i].len }, V = { 0, 0 };
      int r = H[h]->get(H[h], &K, &V, 0), v = -9;
      if (r == 0) { v = V.size < 0 || (!V.data && V.size) ? -1 : idxfind(&vidx, vals, V.data, V.size); free(V.data); }
      else { free(V.data); if (r == 1) v = 0; }
      fprintf(out, " %d", v);
      free(kx);
    }
    fprintf(out, "\n");
  } else if (!strcmp(op, "SCAN")) {
    /* SCAN h F|L|N|P wd : a whole traversal, then two steps past the end */
    int h, wd; char d; sscanf(a, "%d %c %d", &h, &d, &wd);
    unsigned fl = d == 'F' ? FFDB_FIRST : d == 'L' ? FFDB_LAST : d == 'N' ? FFDB_NEXT : FFDB_PREV;
    ffdb_cursor_t* c = 0;
    int r = H[h]->cursor(H[h], &c, FFDB_KEY_CURSOR);
    long left = 3L * nkeys + 50;
    fprintf(out, "%ld", ln);
    while (r == 0 && left-- > 0) {
      FFDB_DBT K = { 0, 0 }, V = { 0, 0 };
      r = c->get(c, &K, wd ? &V : 0, fl);
      fl = (d == 'F' || d == 'N') ? FFDB_NEXT : FFDB_PREV;
      if (r) { if (wd) free(V.data); break; }
      fprintf(out, " %d %d", idxfind(&kidx, keys, K.data, K.size), wd ? idxfind(&vidx, vals, V.data, V.size) : 0);
      free(K.data); if (wd) free(V.data);
    }
    int r1 = r, r2 = r;
    if (r == 1) {
      FFDB_DBT K = { 0, 0 }, V = { 0, 0 };
      r1 = c->get(c, &K, wd ? &V : 0, fl); r2 = c->get(c, &K, wd ? &V : 0, fl);
    }
    int rc = c ? c->close(c) : -1;
    fprintf(out, " : %d %d %d %d\n", r, r1, r2, rc);
  } else if (!strcmp(op, "MEM")) {
    fprintf(out, "%ld %ld\n", ln, bytes - bytes0);
  } else if (!strcmp(op, "RES")) {
    fprintf(out, "%ld %d %ld\n", ln, nfds(), live);
  } else if (!strcmp(op, "COPEN")) {
    int h, c; sscanf(a, "%d %d", &h, &c);
    int r = H[h]->cursor(H[h], &C[c], FFDB_KEY_CURSOR);
    fprintf(out, "%ld %d\n", ln, r);
  } else if (!strcmp(op, "CBAD")) {
    int h; unsigned t; sscanf(a, "%d %u", &h, &t);
    ffdb_cursor_t* nc = 0;
    int r = H[h]->cursor(H[h], &nc, t);
    fprintf(out, "%ld %d\n", ln, r);
  } else if (!strcmp(op, "CGET")) {
    /* CGET c F|L|N|P withdata kbuf dbuf */
    int c, wd; char d; long kbuf, dbuf; unsigned fl;
    sscanf(a, "%d %c %d %ld %ld", &c, &d, &wd, &kbuf, &dbuf);
    fl = d == 'F' ? FFDB_FIRST : d == 'L' ? FFDB_LAST : d == 'N' ? FFDB_NEXT : d == 'P' ? FFDB_PREV : kbuf < 0 ? FFDB_SET : 99;
    FFDB_DBT K = { 0, 0 }, V = { 0, 0 };
    unsigned char *uk = 0, *uv = 0;
    if (kbuf >= 0) { uk = malloc(kbuf); K.data = uk; K.size = kbuf; }
    if (dbuf >= 0) { uv = malloc(dbuf); V.data = uv; V.size = dbuf; }
    errno = 0;
    int r = C[c]->get(C[c], &K, wd ? &V : 0, fl);
    int e = errno;
    int k = -2, v = -2;
    if (r == 0) {
      k = idxfind(&kidx, keys, K.data, K.size);
      if (wd) v = idxfind(&vidx, vals, V.data, V.size);
    }
    fprintf(out, "%ld %d %d %d %d\n", ln, r, k, v, e);
    if (r == 0 && K.data != uk) free(K.data);
    if (wd && V.data != uv) free(V.data);
    free(uk); free(uv);
  } else if (!strcmp(op, "CCLOSE")) {
    int c; sscanf(a, "%d", &c);
    int r = C[c]->close(C[c]); C[c] = 0;
    fprintf(out, "%ld %d\n", ln, r);
  } else if (!strcmp(op, "SYNC")) {
    int h; sscanf(a, "%d", &h);
    errno = 0; int r = H[h]->sync(H[h], 0);
    fprintf(out, "%ld %d %d\n", ln, r, errno);
  } else if (!strcmp(op, "CLOSE")) {
    int h; sscanf(a, "%d", &h);
    errno = 0; int r = H[h]->close(H[h]); H[h] = 0;
    fprintf(out, "%ld %d %d\n", ln, r, errno);
  } else if (!strcmp(op, "DEL")) {
    int h, k; sscanf(a, "%d %d", &h, &k);
    blob* kb = findb(keys, nkeys, k);
    FFDB_DBT K = { kb->b, kb->len };
    int r = H[h]->del(H[h], &K, 0);
    fprintf(out, "%ld %d\n", ln, r);
  } else if (!strcmp(op, "USET")) {
    int h, v; sscanf(a, "%d %d", &h, &v);
    blob* vb = findb(vals, nvals, v);
    unsigned char* t = valbytes(vb->id, vb->len);
    unsigned char* x = malloc(vb->len); memcpy(x, t, vb->len); free(t);
    errno = 0; int r = ffdb_set_user_info(H[h], x, (unsigned)vb->len);
    fprintf(out, "%ld %d %d\n", ln, r, errno);
    free(x);
  } else if (!strcmp(op, "UGET")) {
    int h; long buf; sscanf(a, "%d %ld", &h, &buf);
    unsigned len = buf < 0 ? ffdb_max_user_info_len(H[h]) : (unsigned)buf;
    unsigned char* x = malloc(len);
    errno = 0; int r = ffdb_get_user_info(H[h], x, &len);
    fprintf(out, "%ld %d %d %d %d\n", ln, r, r == 0 ? idxfind(&vidx, vals, x, len) : -2, errno, r == 0 ? (int)len : -1);
    free(x);
  } else if (!strcmp(op, "UMAX")) {
    int h; sscanf(a, "%d", &h);
    fprintf(out, "%ld %u\n", ln, ffdb_max_user_info_len(H[h]));
  } else if (!strcmp(op, "NCFG")) {
    int h; sscanf(a, "%d", &h);
    fprintf(out, "%ld %u\n", ln, ffdb_num_configs(H[h]));
  } else if (!strcmp(op, "CSETALL")) {
    /* CSETALL h n config0 tag0 config1 tag1 ...  (index = position) */
    int h, m, k; sscanf(a, "%d %d%n", &h, &m, &k); a += k;
    ffdb_all_config_info_t all; all.numconfigs = m;
    all.allconfigs = malloc(sizeof(ffdb_config_info_t) * (m ? m : 1));
    for (int i = 0; i < m; i++) {
      int cf, tag; sscanf(a, "%d %d%n", &cf, &tag, &k); a += k;
      fillcfg(&all.allconfigs[i], tag);
      all.allconfigs[i].config = cf; all.allconfigs[i].index = i;
    }
    errno = 0; int r = ffdb_set_all_configs(H[h], &all);
    fprintf(out, "%ld %d %d\n", ln, r, errno);
    free(all.allconfigs);
  } else if (!strcmp(op, "CGETALL")) {
    /* CGETALL h maxtag */
    int h, mt; sscanf(a, "%d %d", &h, &mt);
    ffdb_all_config_info_t all; memset(&all, 0, sizeof all);
    errno = 0; int r = ffdb_get_all_configs(H[h], &all);
    fprintf(out, "%ld %d %d", ln, r, r == 0 ? all.numconfigs : -1);
    if (r == 0) for (int i = 0; i < all.numconfigs; i++) {
      ffdb_config_info_t* c = &all.allconfigs[i];
      int tag = -1;
      for (int t = 0; t <= mt; t++) { ffdb_config_info_t w; fillcfg(&w, t); w.config = c->config; w.index = c->index;
        if (!memcmp(&w, c, sizeof w)) { tag = t; break; } }
      fprintf(out, " %d %d %d", c->index, c->config, tag);
    }
    fprintf(out, "\n");
    free(all.allconfigs);
  } else if (!strcmp(op, "CSET1")) {
    int h, ix, cf, tag; sscanf(a, "%d %d %d %d", &h, &ix, &cf, &tag);
    ffdb_config_info_t* c = malloc(sizeof *c); fillcfg(c, tag); c->index = ix; c->config = cf;
    errno = 0; int r = ffdb_set_config(H[h], c);
    fprintf(out, "%ld %d %d\n", ln, r, errno); free(c);
  } else if (!strcmp(op, "CGET1")) {
    int h, cf, mt; sscanf(a, "%d %d %d", &h, &cf, &mt);
    ffdb_config_info_t* c = malloc(sizeof *c); memset(c, 0xEE, sizeof *c);
    errno = 0; int r = ffdb_get_config(H[h], cf, c);
    int tag = -1;
    if (r == 0) for (int t = 0; t <= mt; t++) { ffdb_config_info_t w; fillcfg(&w, t); w.config = c->config; w.index = c->index;
      if (!memcmp(&w, c, sizeof w)) { tag = t; break; } }
    fprintf(out, "%ld %d %d %d %d\n", ln, r, r == 0 ? c->index : -1, r == 0 ? c->config : -1, tag);
    free(c);
  } else if (!strcmp(op, "FAULT")) {
    char k, m; sscanf(a, " %c %ld %ld %c", &k, &f_after, &f_count, &m);
    f_kind = k == '-' ? 0 : k; f_mode = m == 's' ? 1 : m == 'n' ? 2 : 0; f_fired = 0;
    fprintf(out, "%ld %ld %ld %ld %ld\n", ln, n_calls['r'], n_calls['w'], n_calls['s'], n_calls['t']);
    memset(n_calls, 0, sizeof n_calls);
  } else if (!strcmp(op, "FIRED")) {
    fprintf(out, "%ld %ld\n", ln, f_fired); 
  } else if (!strcmp(op, "IOCOUNT")) {
    fprintf(out, "%ld %ld %ld %ld\n", ln, n_read, n_write, n_trunc);
  } else if (!strcmp(op, "KILL")) {
    fprintf(out, "%ld 0\n", ln); fflush(out); _exit(77);
  } else if (!strcmp(op, "FSTAT")) {
    /* size and digest of a file */
    char f[256]; sscanf(a, "%255s", f);
    int fd = open(f, O_RDONLY); struct stat st; uint64_t d = 0; long sz = -1;
    if (fd >= 0 && fstat(fd, &st) == 0) {
      sz = st.st_size; unsigned char* b = malloc(sz + 1); long g = 0, r;
      while (g < sz && (r = __real_read(fd, b + g, sz - g)) > 0) g += r;
      d = digest(b, g); free(b);
    }
    if (fd >= 0) close(fd);
    fprintf(out, "%ld %ld %016lx\n", ln, sz, (unsigned long)d);
  } else if (!strcmp(op, "RM")) {
    char f[256]; sscanf(a, "%255s", f); fprintf(out, "%ld %d\n", ln, unlink(f));
  } else if (!strcmp(op, "COPY")) {
    char f[256], g[256]; sscanf(a, "%255s %255s", f, g);
    int i = open(f, O_RDONLY), o = open(g, O_RDWR | O_CREAT | O_TRUNC, 0644); long r = -1;
    if (i >= 0 && o >= 0) { static unsigned char b[1 << 16]; while ((r = __real_read(i, b, sizeof b)) > 0) if (__real_write(o, b, r) != r) break; }
    if (i >= 0) close(i);
    if (o >= 0) close(o);
    fprintf(out, "%ld %ld\n", ln, r);
  } else { fprintf(stderr, "drv: bad op %s\n", op); return 90; }
  return 0;
}

#ifdef VSCHED
/* several threads, each with its own list of operations, run one at a time
 * under a chosen schedule; an observation is written when its operation ends */
#include "vsched.h"
#define MAXPAR 4096
static struct { int t; long ln; char op[32]; char* a; } par[MAXPAR];
static int npar, parth;
static FILE* mainout;
static void parbody(int t)
{
  int first = 1;
  for (int i = 0; i < npar; i++) if (par[i].t == t) {
    char* buf = 0; size_t len = 0;
    if (!first) sched_op();
    first = 0;
    out = open_memstream(&buf, &len);
    if (doop(par[i].ln, par[i].op, par[i].a)) _exit(90);
    fclose(out); out = 0;
    fwrite(buf, 1, len, mainout); fflush(mainout);
    __real_free(buf);
  }
}
static void parstuck(int why) { fprintf(stderr, "drv: %s\n", why == 1 ? "no thread can go on" : "the threads do not come to an end"); }
#endif

int main(int argc, char** argv)
{
  if (argc < 3) return 90;
  { struct rlimit rl = { 1L << 30, 1L << 30 }; signal(SIGXFSZ, SIG_IGN); if (!getenv("VERIF_HUGE")) setrlimit(RLIMIT_FSIZE, &rl); }
  FILE* in = fopen(argv[1], "r");
  out = fopen(argv[2], "w");
  { char nm[4096]; snprintf(nm, sizeof nm, "%s.f", argv[2]); fout = fopen(nm, "w"); }
  if (!in || !out) return 90;
  static char line[1 << 20];
  while (fgets(line, sizeof line, in)) {
    char op[32]; int n = 0;
    ln++;
    if (sscanf(line, "%31s%n", op, &n) != 1) continue;
    char* a = line + n;
    if (!strcmp(op, "KEY")) {
      int id; char m; long len;
      sscanf(a, "%d %c %ld", &id, &m, &len);
      unsigned char* b = keybytes(id, m, len);
      int al = idxfind(&kidx, keys, b, len);
      if (nkeys == ckeys) keys = realloc(keys, sizeof(blob) * (ckeys = ckeys ? ckeys * 2 : 256));
      keys[nkeys] = (blob){ id, len, digest(b, len), m, b };
      if (al < 0) idxadd(&kidx, keys, nkeys + 1, nkeys);
      nkeys++;
      if (al >= 0) fprintf(out, "%ld alias %d\n", ln, al);
      continue;
    }
    if (!strcmp(op, "VAL")) {
      int id, of = 0; long len; char md = 0;
      sscanf(a, "%d %ld %c %d", &id, &len, &md, &of);
      if (id >= nvmode) {
        int o = nvmode; nvmode = id * 2 + 64; vmode = realloc(vmode, sizeof(*vmode) * nvmode);
        memset(vmode + o, 0, sizeof(*vmode) * (nvmode - o));
      }
      vmode[id].mode = md; vmode[id].of = of; vmode[id].len = len;
      if (len >= HUGELEN) {
        if (nvals == cvals) vals = realloc(vals, sizeof(blob) * (cvals = cvals ? cvals * 2 : 256));
        vals[nvals++] = (blob){ id, len, mix(len ^ ((uint64_t)id << 40)), 0, 0 };
        continue;
      }
      unsigned char* b = valbytes(id, len);
      int al = idxfind(&vidx, vals, b, len);
      if (nvals == cvals) vals = realloc(vals, sizeof(blob) * (cvals = cvals ? cvals * 2 : 256));
      vals[nvals] = (blob){ id, len, digest(b, len), 0, 0 };
      if (al < 0) idxadd(&vidx, vals, nvals + 1, nvals);
      nvals++;
      free(b);
      if (al >= 0) fprintf(out, "%ld alias %d\n", ln, al);
      continue;
    }
    if (!strcmp(op, "TABLE")) {
      /* fingerprints of all known keys and values: id, length, little endian number modulo 2^61 - 31 */
      char f[256]; sscanf(a, "%255s", f);
      FILE* t = fopen(f, "w");
      for (int w = 0; w < 2; w++) for (int i = 0; i < (w ? nvals : nkeys); i++) {
        blob* b = w ? &vals[i] : &keys[i];
        unsigned char* x = w ? valbytes(b->id, b->len) : b->b;
        unsigned __int128 m = 0;
        for (long j = b->len; j-- > 0; ) m = ((m << 8) | x[j]) % (((uint64_t)1 << 61) - 31);
        fprintf(t, "%c %d %ld %lu", w ? 'V' : 'K', b->id, b->len, (unsigned long)m);
        if (!w && b->len <= 64) { fputc(' ', t); for (long j = 0; j < b->len; j++) fprintf(t, "%02x", x[j]); }
        fputc('\n', t);
        if (w) free(x);
      }
      fclose(t);
      continue;
    }
    {
      static const char* hops[] = { "PUT", "PUTN", "GET", "GETALL", "SCAN", "COPEN", "CBAD", "SYNC", "CLOSE", "DEL", "USET", "UGET", "UMAX", "NCFG", "CSETALL", "CGETALL", "CSET1", "CGET1", 0 };
      int bad = 0, ix = atoi(a);
      for (int i = 0; hops[i]; i++) if (!strcmp(op, hops[i]) && !H[ix]) bad = 1;
      if ((!strcmp(op, "CGET") || !strcmp(op, "CCLOSE")) && !C[ix]) bad = 1;
      if (bad) { fprintf(out, "%ld NOHANDLE\n", ln); fflush(out); break; }
    }
#ifdef VSCHED
    if (!strcmp(op, "T")) {
      /* T t operation ... : to be done by thread t */
      int m = 0;
      if (npar == MAXPAR || sscanf(a, "%d %31s%n", &par[npar].t, par[npar].op, &m) != 2) return 90;
      par[npar].ln = ln; par[npar].a = strdup(a + m);
      if (par[npar].t >= parth) parth = par[npar].t + 1;
      npar++;
      continue;
    }
    if (!strcmp(op, "RUN")) {
      /* RUN seed pbb plk psp : let the threads go */
      struct policy pl; unsigned long seed;
      memset(&pl, 0, sizeof pl);
      if (sscanf(a, "%lu %d %d %d", &seed, &pl.pbb, &pl.plk, &pl.psp) != 4) return 90;
      pl.seed = seed;
      mainout = out; sched_stuck = parstuck;
      fflush(out);
      sched_run(parth, parbody, &pl);
      for (int i = 0; i < npar; i++) free(par[i].a);
      npar = parth = 0;
      fprintf(out, "%ld %d\n", ln, sched_switches); fflush(out);
      continue;
    }
#endif
    if (doop(ln, op, a)) return 90;
    fflush(out);
  }
  fprintf(out, "%ld END\n", ln + 1);
  fclose(out);
  return 0;
}
