/* Drives the page pool with several threads under chosen schedules and prints
 * calls, returns and what pages and file show. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include "ffdb_db.h"
#include "ffdb_pagepool.h"
#include "vsched.h"

#define MAXOPS 400
/* page i of a program is page base + i of the file */
static int cap, n0, filter, ro, nth, psz = 512, byfd;
static unsigned base;
#define NUM(i) ((pgno_t)(base + (unsigned)(i)))
#define REL(p) ((int)((p) - base))
static struct op { char k; int a, b, c, d; } prog[MAXT][MAXOPS];
static int nops[MAXT];
static ffdb_pagepool_t *pool;
static int nv, fdpeek;
static struct hold { int p; unsigned char *mem; int gd, mod; } st[MAXT][64];
static int sp[MAXT];
/* a page is renumbered to a number never used: not one a new page may have got */
static int anychg, newafter, npend, cpend;

/* injected failures of system calls */
static int fkind, fafter, fcount, ffired[MAXT + 1];
static int fails(int k)
{
  int t = sched_me();
  if (fkind != k || fcount == 0) return 0;
  if (--fafter > 0) return 0;
  fafter = 1; fcount--;
  ffired[t < 0 ? MAXT : t]++;
  errno = k == 'r' ? EIO : ENOSPC;
  return 1;
}
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); off_t __real_lseek64(int, off_t, int);
ssize_t __real_pread64(int, void *, size_t, off_t); ssize_t __real_pwrite64(int, const void *, size_t, off_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { return fails('r') ? -1 : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return fails('w') ? -1 : __real_write(fd, b, n); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return fails('s') ? -1 : __real_lseek64(fd, o, w); }
off_t __wrap_lseek(int fd, off_t o, int w) { return fails('s') ? -1 : __real_lseek64(fd, o, w); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return fails('r') ? -1 : __real_pread64(fd, b, n, o); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return fails('r') ? -1 : __real_pread64(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return fails('w') ? -1 : __real_pwrite64(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return fails('w') ? -1 : __real_pwrite64(fd, b, n, o); }

static uint64_t word(int v, int i) { return ((uint64_t)(uint32_t)v << 32) | (uint32_t)((i + 1) * 2654435761u ^ (uint32_t)v * 40503u) | 1; }
static void fill(unsigned char *m, int v) { int i; for (i = 0; i < psz / 8; i++) { uint64_t w = word(v, i); memcpy(m + 8 * i, &w, 8); } }
static int zero(const unsigned char *m, int n) { int i; for (i = 0; i < n; i++) if (m[i]) return 0; return 1; }
static int show(const unsigned char *m)
{
  uint64_t w; int i, v;
  if (zero(m, psz)) return 0;
  memcpy(&w, m, 8);
  v = (int)(w >> 32);
  if (v > 0) {
    for (i = 0; i < psz / 8; i++) { uint64_t x = word(v, i); if (memcmp(m + 8 * i, &x, 8)) break; }
    if (i == psz / 8) return v;
  }
  return zero(m, 32) ? -1 : -2;
}
static void twist(void *arg, pgno_t p, void *mem)
{
  unsigned char *m = mem, x = 0x5a ^ (p * 7 & 0x3f) ^ (arg != &filter);
  int i;
  if (zero(m, psz)) return;
  for (i = 0; i < psz; i++) m[i] ^= x;
}

static void peek(int p)
{
  static unsigned char b[65536];
  int n;
  memset(b, 0, psz);
  n = (int)__real_pread64(fdpeek, b, psz, (off_t)NUM(p) * psz);
  if (n < 0) n = 0;
  if (filter) twist(&filter, NUM(p), b);
  printf("{\"e\":\"peek\",\"p\":%d,\"v\":%d}\n", p, show(b));
}

#define CALL(fmt, ...) printf("{\"e\":\"call\",\"t\":%d," fmt "}\n", t + 1, ##__VA_ARGS__), ffired[t] = 0, fflush(stdout)
#define RET(rc, p, v) printf("{\"e\":\"ret\",\"t\":%d,\"rc\":%d,\"p\":%d,\"v\":%d,\"fi\":%d}\n", t + 1, rc, (int)(p), v, ffired[t])

static int declared(int t, int p) { int i; for (i = 0; i < sp[t]; i++) if (st[t][i].p == p && st[t][i].gd) return 1; return 0; }
static int modified(int t, int p) { int i; for (i = 0; i < sp[t]; i++) if (st[t][i].p == p && st[t][i].mod) return 1; return 0; }
static int holds(int t, int p) { int i; for (i = 0; i < sp[t]; i++) if (st[t][i].p == p) return 1; return 0; }

static void put(int t, int d)
{
  struct hold h = st[t][sp[t] - 1];
  int rc, m = modified(t, h.p), g = declared(t, h.p);
  if (m && !g) d = 1;
  sp[t]--;
  /* what was modified or declared stays so for the remaining holds */
  if (m || g) { int i; for (i = 0; i < sp[t]; i++) if (st[t][i].p == h.p) { if (m) st[t][i].mod = 1; if (g || d) st[t][i].gd = 1; } }
  CALL("\"o\":\"put\",\"p\":%d,\"dirty\":%d", h.p, d);
  rc = ffdb_pagepool_put_page(pool, h.mem, d ? FFDB_PAGE_DIRTY : 0);
  RET(rc, h.p, 0);
}

static void one(int t, struct op *o)
{
  struct hold *h = sp[t] ? &st[t][sp[t] - 1] : 0;
  void *mem; pgno_t p; int rc, v, r;
  if (o->d && strchr("pwxl", o->k)) {           /* this page: brought to the top of the holds */
    int i;
    for (i = sp[t] - 1; i >= 0 && st[t][i].p != o->d - 1; i--) ;
    if (i < 0) return;
    { struct hold x = st[t][i]; memmove(&st[t][i], &st[t][i + 1], (sp[t] - 1 - i) * sizeof x); st[t][sp[t] - 1] = x; }
  }
  switch (o->k) {
  case 'g':
    if (sp[t] >= 60) return;
    p = NUM(o->a);
    if (!holds(t, o->a)) { int i; for (i = 0; i < sp[t]; i++) if (st[t][i].p > o->a) return; }
    CALL("\"o\":\"get\",\"p\":%d,\"dirty\":%d,\"create\":%d", o->a, o->b, o->c);
    rc = ffdb_pagepool_get_page(pool, &p, (o->b ? FFDB_PAGE_DIRTY : 0) | (o->c ? FFDB_PAGE_CREATE : 0) | (o->d ? FFDB_PAGE_LOCKED : 0), &mem);
    v = rc == 0 ? (mem && p == NUM(o->a) ? show(mem) : -3) : 0;
    RET(rc, REL(p), v);
    if (rc == 0 && mem) { st[t][sp[t]].p = o->a; st[t][sp[t]].mem = mem; st[t][sp[t]].gd = o->b; st[t][sp[t]].mod = 0; sp[t]++; }
    break;
  case 'n':
    if (sp[t] >= 1 || ro || cpend) return;
    p = 0;
    npend++;
    if (anychg) newafter = 1;
    CALL("\"o\":\"new\",\"p\":-1,\"dirty\":%d", o->b);
    rc = o->c ? ffdb_pagepool_get_page(pool, &p, FFDB_PAGE_NEW | (o->b ? FFDB_PAGE_DIRTY : 0), &mem)
              : ffdb_pagepool_new_page(pool, &p, o->b ? FFDB_PAGE_DIRTY : 0, &mem);
    v = rc == 0 && mem ? show(mem) : 0;
    RET(rc, rc ? 0 : REL(p), v);
    npend--;
    if (rc == 0) { st[t][sp[t]].p = REL(p); st[t][sp[t]].mem = mem; st[t][sp[t]].gd = o->b; st[t][sp[t]].mod = 0; sp[t]++; }
    break;
  case 'w':
    if (!h || ro) return;
    v = ++nv;
    /* a holder writes in steps: others must not see or store a mixture */
    printf("{\"e\":\"mod\",\"t\":%d,\"p\":%d,\"v\":%d}\n", t + 1, h->p, v);
    memset(h->mem, 0xee, psz);
    sched_op();
    fill(h->mem, v);
    h->mod = 1;
    break;
  case 'l':
    if (!h) return;
    printf("{\"e\":\"look\",\"t\":%d,\"p\":%d,\"v\":%d}\n", t + 1, h->p, show(h->mem));
    break;
  case 'p': if (h) put(t, ro ? 0 : o->a); break;
  case 'x':
    if (!h) return;
    if (modified(t, h->p) && !declared(t, h->p)) { put(t, 1); return; }
    CALL("\"o\":\"del\",\"p\":%d", h->p);
    rc = ffdb_pagepool_delete(pool, h->mem);
    RET(rc, h->p, 0);
    if (rc == 0) sp[t]--; else put(t, 0);
    break;
  case 'c':
    if (!h || ro) return;
    { int i, n = 0; for (i = 0; i < sp[t]; i++) n += st[t][i].p == h->p; if (n > 1) return; }
    r = h->p;
    if (modified(t, r) && !declared(t, r)) { put(t, 1); return; }
    if (newafter || npend) return;
    anychg = 1; cpend++;
    CALL("\"o\":\"chg\",\"p\":%d,\"q\":%d", r, o->a);
    rc = ffdb_pagepool_change_page(pool, h->mem, NUM(o->a));
    sp[t]--; cpend--;
    RET(rc, r, 0);
    break;
  case 's':
    if (ro) return;
    CALL("\"o\":\"sync\",\"p\":-1");
    rc = ffdb_pagepool_sync(pool);
    RET(rc, -1, 0);
    break;
  case 'k': peek(o->a); break;
  }
}

static void body(int t)
{
  int i;
  for (i = 0; i < nops[t]; i++) { if (i) sched_op(); one(t, &prog[t][i]); fflush(stdout); }
  while (sp[t]) { sched_op(); put(t, 0); fflush(stdout); }
}

static void stuck(int why) { printf("{\"e\":\"stuck\",\"why\":%d}\n", why); fflush(stdout); }

static int fk, fa, fc;
static void run(struct policy *p, int maxpage)
{
  static unsigned char b[65536];
  int i, rc, fd = -1;
  unlink("pool.db");
  fd = open("pool.db", O_RDWR | O_CREAT | O_TRUNC, 0644);
  for (i = 0; i < n0; i++) { fill(b, i + 1); if (filter) twist(&filter, NUM(i), b); if (__real_pwrite64(fd, b, psz, (off_t)NUM(i) * psz) != psz) abort(); }
  close(fd);
  fdpeek = open("pool.db", O_RDONLY);
  nv = n0;
  fkind = 0;
  printf("{\"e\":\"start\",\"n\":%d,\"ro\":%d}\n", n0, ro);
  rc = ffdb_pagepool_create(&pool, 0);
  if (rc == 0 && byfd) { fd = open("pool.db", ro ? O_RDONLY : O_RDWR); rc = ffdb_pagepool_open_fd(pool, fd, psz, cap); }
  else if (rc == 0) rc = ffdb_pagepool_open(pool, "pool.db", ro ? FFDB_RDONLY : 0, 0644, psz, cap);
  if (rc) { printf("{\"e\":\"openfailed\",\"rc\":%d}\n", rc); fflush(stdout); exit(4); }
  if (filter) ffdb_pagepool_filter(pool, twist, twist, &filter);
  for (i = 0; i < nth; i++) sp[i] = 0;
  anychg = newafter = npend = cpend = 0;
  memset(ffired, 0, sizeof ffired);
  fkind = fk; fafter = fa; fcount = fc;
  sched_run(nth, body, p);
  fkind = 0;
  rc = ffdb_pagepool_close(pool);
  printf("{\"e\":\"close\",\"rc\":%d,\"fi\":%d}\n", rc, 0);
  if (byfd) close(fd);
  for (i = 0; i < maxpage; i++) peek(i);
  close(fdpeek);
  printf("{\"e\":\"end\"}\n");
  fflush(stdout);
}

int main(void)
{
  static char line[1 << 16];
  int maxpage = 0;
  sched_stuck = stuck;
  while (fgets(line, sizeof line, stdin)) {
    char *s = line, k[16]; int n = 0;
    if (sscanf(s, "%15s%n", k, &n) != 1) continue;
    s += n;
    if (!strcmp(k, "cfg")) {
      if (sscanf(s, "%d %d %d %d %d %d %d %d %u", &cap, &n0, &filter, &ro, &nth, &byfd, &maxpage, &psz, &base) != 9) return 2;
      memset(nops, 0, sizeof nops); fk = 0;
    } else if (!strcmp(k, "op")) {
      struct op o; int t; char c;
      memset(&o, 0, sizeof o);
      if (sscanf(s, "%d %c %d %d %d %d", &t, &c, &o.a, &o.b, &o.c, &o.d) < 2) return 2;
      o.k = c;
      if (nops[t] < MAXOPS) prog[t][nops[t]++] = o;
    } else if (!strcmp(k, "fault")) {
      char c;
      if (sscanf(s, " %c %d %d", &c, &fa, &fc) != 3) return 2;
      fk = c;
    } else if (!strcmp(k, "run")) {
      struct policy p; unsigned long seed;
      memset(&p, 0, sizeof p);
      if (sscanf(s, "%lu %d %d %d", &seed, &p.pbb, &p.plk, &p.psp) != 4) return 2;
      p.seed = seed;
      run(&p, maxpage);
    } else if (!strcmp(k, "dir")) {
      struct policy p; static int d[4096]; int t;
      memset(&p, 0, sizeof p);
      while (sscanf(s, "%d%n", &t, &n) == 1 && p.ndir < 4096) { d[p.ndir++] = t; s += n; }
      p.dir = d; p.seed = 1;
      run(&p, maxpage);
    } else if (!strcmp(k, "dfs")) {
      static int ch[4000], op[4000]; int bound, max, len = 0, i;
      if (sscanf(s, "%d %d", &bound, &max) != 2) return 2;
      for (i = 0; i < max; i++) {
        struct policy p;
        memset(&p, 0, sizeof p);
        p.seed = 1; p.choice = ch; p.options = op; p.nchoice = len; p.maxchoice = 4000; p.bound = bound;
        run(&p, maxpage);
        len = p.nchoice;
        while (len > 0 && ch[len - 1] + 1 >= op[len - 1]) len--;
        if (len == 0) break;
        ch[len - 1]++;
      }
      printf("{\"e\":\"dfs\",\"runs\":%d,\"complete\":%d}\n", i + (i < max), i < max);
      fflush(stdout);
    }
  }
  return 0;
}
