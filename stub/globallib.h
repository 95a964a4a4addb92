/* Stand-in for the GLOBAL charge-state code, which is not part of the repository:
   any smooth function of the three arguments will do. */
#ifndef GLOBALLIB_H
#define GLOBALLIB_H
#include <math.h>
static inline double global_qmean(double zp, double zt, double E) {
    return zp * (1 - (0.9 + 0.001 * zt) * exp(-0.35 * pow(E, 0.6) / pow(zp, 0.5)));
}
#endif
