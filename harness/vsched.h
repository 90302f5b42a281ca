/* Runs threads one at a time under a chosen schedule.  Lock and condition
 * calls of the code under test are interposed (linker --wrap); basic blocks of
 * the code under test are further switching points (-fsanitize-coverage=trace-pc). */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
#define MAXT 8
struct policy {
  uint64_t seed;
  int pbb, plk, psp;         /* chances out of 10000: switch at a basic block, at a lock call, spurious wakeup */
  const int *dir; int ndir;  /* directed: the thread of every step (a step: one request, or until it blocks) */
  int *choice; int nchoice;  /* exhaustive: choices made at lock calls (replayed prefix), filled in */
  int *options; int maxchoice;
  int bound;                 /* exhaustive: how many preemptions */
};
/* 0 all threads finished, 1 nobody can go on, 2 too many steps */
int sched_run(int n, void (*body)(int t), struct policy *p);
void sched_op(void);         /* between two requests of a thread */
int sched_me(void);          /* thread running now, -1 outside a run */
extern void (*sched_stuck)(int why);
extern int sched_switches;
#endif
