// Stand-in: the submodule's FIPS 202 functions have the interface of the library's own.
#ifndef VERIF_SHIM_DIL_FIPS202_H
#define VERIF_SHIM_DIL_FIPS202_H
#include "xmss-alt/fips202.h"
#endif
