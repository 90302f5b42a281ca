#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include "vsched.h"

enum { READY, BLK_MUTEX, BLK_COND, DONE };
static struct th { sem_t s; pthread_t id; int st; void *on, *m; } th[MAXT];
static int nth, cur = -1, on, left;
static sem_t allend;
static struct policy *pol;
static void (*bodyfn)(int);
static uint64_t rs;
static int dpos, npre, preempt_left;
static long steps;
int sched_switches;
void (*sched_stuck)(int why);

static __thread int self = -1;

static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static int chance(int p) { return p > 0 && (int)(rnd() % 10000) < p; }

/* mutexes in use */
static struct mx { void *p; int owner; } mxs[256];
static int nmx;
static struct mx *mx_of(void *p)
{
  int i;
  for (i = 0; i < nmx; i++) if (mxs[i].p == p) return &mxs[i];
  if (nmx == 256) abort();
  mxs[nmx].p = p; mxs[nmx].owner = -1;
  return &mxs[nmx++];
}
static void mx_forget(void *p)
{
  int i;
  for (i = 0; i < nmx; i++) if (mxs[i].p == p) { mxs[i] = mxs[--nmx]; return; }
}

static void give_up(int why)
{
  on = 0;
  if (sched_stuck) sched_stuck(why);
  _exit(3);
}

static int runnable(int t)
{
  if (th[t].st == READY) return 1;
  return th[t].st == BLK_MUTEX && mx_of(th[t].on)->owner == -1;
}

static void go(int t)
{
  int me = self;
  if (t == me) return;
  sched_switches++;
  cur = t;
  sem_post(&th[t].s);
  if (me >= 0 && th[me].st == DONE) return;
  while (sem_wait(&th[me].s) != 0) ;
}

/* kind: 0 basic block, 1 lock call, 2 between requests, 3 cannot go on */
static void point(int kind)
{
  int me = self, c[MAXT], n = 0, t, i;
  if (!on || me < 0) return;
  if (++steps > 30000000) give_up(2);
  if (pol->dir) {
    if (kind < 2) return;
    while (dpos < pol->ndir) {
      t = pol->dir[dpos++];
      if (t < nth && runnable(t)) { go(t); return; }
    }
  }
  if (kind != 3 && !pol->dir) {
    if (pol->choice) { if (kind == 0) return; }
    else if (kind == 0) { if (!chance(pol->pbb)) return; }
    else if (kind == 1) { if (!chance(pol->plk)) return; }
    else if (!chance(5000)) return;
  }
  /* a waiter may wake up without having been woken */
  if (chance(pol->psp))
    for (t = 0; t < nth; t++)
      if (th[t].st == BLK_COND && chance(5000)) { th[t].st = BLK_MUTEX; th[t].on = th[t].m; }
  if (runnable(me) && kind != 3) c[n++] = me;
  for (i = 1; i <= nth; i++) {
    t = (me + i) % nth;
    if (t != me && runnable(t)) c[n++] = t;
  }
  if (kind == 3 && n == 0 && th[me].st != DONE && runnable(me)) c[n++] = me;
  if (n == 0) {
    for (i = 0; i < nth; i++) if (th[i].st != DONE) give_up(1);
    return;
  }
  t = c[0];
  if (pol->choice) {
    if (n > 1 && !(c[0] == me && preempt_left == 0)) {
      int k = npre < pol->nchoice ? pol->choice[npre] : 0;
      if (npre < pol->maxchoice) { pol->choice[npre] = k; pol->options[npre] = n; npre++; }
      if (k >= n) k = 0;
      t = c[k];
      if (c[0] == me && t != me) preempt_left--;
    }
  } else if (n > 1) t = c[rnd() % n];
  go(t);
}

void sched_op(void) { point(2); }
int sched_me(void) { return on ? self : -1; }

static void *runner(void *a)
{
  self = (int)(long)a;
  while (sem_wait(&th[self].s) != 0) ;
  bodyfn(self);
  th[self].st = DONE;
  if (--left == 0) { sem_post(&allend); return 0; }
  point(3);
  return 0;
}

int sched_run(int n, void (*body)(int), struct policy *p)
{
  int i, first;
  pol = p; nth = n; bodyfn = body; left = n; dpos = 0; npre = 0; steps = 0; sched_switches = 0; preempt_left = p->bound;
  rs = p->seed * 0x9e3779b97f4a7c15ull + 0x1234567; if (!rs) rs = 1;
  for (i = 0; i < 8; i++) rnd();
  sem_init(&allend, 0, 0);
  for (i = 0; i < n; i++) { th[i].st = READY; th[i].on = 0; sem_init(&th[i].s, 0, 0); }
  on = 1;
  for (i = 0; i < n; i++) if (pthread_create(&th[i].id, 0, runner, (void *)(long)i) != 0) abort();
  first = 0;
  if (p->dir) { while (dpos < p->ndir && p->dir[dpos] >= n) dpos++; if (dpos < p->ndir) first = p->dir[dpos++]; }
  else if (p->choice) {
    if (n > 1) { int k = npre < p->nchoice ? p->choice[npre] : 0; p->choice[npre] = k; p->options[npre] = n; npre++; first = k < n ? k : 0; }
  } else first = rnd() % n;
  cur = first;
  sem_post(&th[first].s);
  while (sem_wait(&allend) != 0) ;
  on = 0;
  for (i = 0; i < n; i++) { pthread_join(th[i].id, 0); sem_destroy(&th[i].s); }
  sem_destroy(&allend);
  if (p->choice) p->nchoice = npre;
  return 0;
}

/* ---- interposed calls ---------------------------------------------------- */
static void touch(void *p) { volatile char *c = p; char x = *c; (void)x; }

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; touch(m); mx_of(m)->owner = -1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { touch(m); mx_forget(m); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; touch(c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { touch(c); return 0; }

static void acquire(void *m)
{
  while (mx_of(m)->owner != -1) {
    if (!on || self < 0) { fprintf(stderr, "sched: lock taken twice\n"); abort(); }
    th[self].st = BLK_MUTEX; th[self].on = m;
    point(3);
  }
  if (self >= 0) th[self].st = READY;
  mx_of(m)->owner = self >= 0 ? self : 1000;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
  touch(m);
  point(1);
  acquire(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
  touch(m);
  point(1);
  if (mx_of(m)->owner != -1) return EBUSY;
  acquire(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
  touch(m);
  mx_of(m)->owner = -1;
  point(1);
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  touch(c); touch(m);
  if (!on || self < 0) { fprintf(stderr, "sched: wait outside a run\n"); abort(); }
  mx_of(m)->owner = -1;
  th[self].st = BLK_COND; th[self].on = c; th[self].m = m;
  point(3);
  acquire(m);
  touch(c);
  return 0;
}
static void wake(void *c, int all)
{
  int w[MAXT], n = 0, i;
  for (i = 0; i < nth; i++) if (th[i].st == BLK_COND && th[i].on == c) w[n++] = i;
  if (n == 0) return;
  if (!all) { int k = w[rnd() % n]; th[k].st = BLK_MUTEX; th[k].on = th[k].m; return; }
  for (i = 0; i < n; i++) { th[w[i]].st = BLK_MUTEX; th[w[i]].on = th[w[i]].m; }
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { touch(c); if (on) wake(c, 0); point(1); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { touch(c); if (on) wake(c, 1); point(1); return 0; }

void __sanitizer_cov_trace_pc(void) { if (on && self >= 0) point(0); }
