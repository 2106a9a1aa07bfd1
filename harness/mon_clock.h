#ifndef VERIF_CLOCK_H
#define VERIF_CLOCK_H
#include <stdint.h>
void clock_set(int64_t ns);       // the real-time clock stands at this time; negative: the true time again
void clock_advance(int64_t ns);
#endif
