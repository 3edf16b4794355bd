#ifndef ECC_COMMON_H
#define ECC_COMMON_H
#include "drv.h"
#include <torsion/ecc.h>
/* curve objects, fresh after each reset if they were randomised; argument k names the curve */
wei_curve_t *wei(int k);
mont_curve_t *mont(int k);
edwards_curve_t *edw(int k);
void touched(int k);                      /* the object named by argument k was randomised */
void r_txt(int ok, const void *p, size_t n);
#define MAXP 160
#endif
