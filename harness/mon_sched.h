#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <stdint.h>
void sched_perturb(unsigned percent, uint64_t seed);
uint64_t sched_points();
void sched_fail_next(int n);      // the next n plain lock calls of this thread fail
int sched_pending_failures();
#endif
