#include "k_common.hpp"
#define U3(op) U_SCAL(op) U_SIMD(op) U_FIX(op,64)
static const Kernel K[] = {
#ifdef G_ROUND
 U3(floor) U3(ceil) U3(trunc) U3(round) U3(frac)
#endif
#ifdef G_ARITH
 U3(abs) U3(sgn) U3(square) U3(cube) U3(reciprocal) U3(undenormalize) U3(signed_sqrt)
#endif
#ifdef G_CLIP
 U3(softclip)
#endif
#ifdef G_MATH
 U3(sin) U3(cos) U3(tan) U3(asin) U3(acos) U3(atan) U3(tanh) U3(log) U3(log2) U3(log10) U3(exp)
#endif
#ifdef G_CONV
 U3(midi2freq) U3(freq2midi) U3(midi2ratio) U3(ratio2midi) U3(oct2freq) U3(freq2oct) U3(amp2db) U3(db2amp)
#endif
};
KTABLE(K)
