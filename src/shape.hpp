// Shapes of kernels: admissible lengths, alignments, number of outputs, operand data.  Shared by C08 C09 C16 C18 C19.
#ifndef SHAPE_HPP
#define SHAPE_HPP
#include "hlib.hpp"
namespace H {
inline bool is_scal(const Kernel& k) { return !strcmp(k.form,"scal") || !strcmp(k.form,"rscal"); }
inline bool is_red(const Kernel& k) { return k.form[0]=='r'; }
inline bool is_pan(const Kernel& k) { return !strcmp(k.op,"pan2"); }
inline bool inout(const Kernel& k) { return !strcmp(k.op,"addvec") || !strcmp(k.op,"peak") || !strcmp(k.op,"peak_rms"); }
inline bool dst_any(const Kernel& k) { return is_scal(k) || strstr(k.form,"na"); }
inline bool src_any(const Kernel& k) { return is_scal(k) || strchr(k.kinds,'u'); }
inline bool is_buf(char c) { return c=='v'||c=='V'||c=='u'; }
inline bool has_ramp(const Kernel& k) { return strchr(k.kinds,'r') != 0; }
inline int nin(const Kernel& k) { return strlen(k.kinds); }
inline unsigned grain(KRef const& r) { return is_scal(*r.k) ? 1 : !strcmp(r.k->form,"rvec") ? r.lib->t.vecsize : r.lib->t.per_loop; }
inline unsigned outlen(const Kernel& k, unsigned n) { return is_red(k) ? 3 : n; }
// operand data: values that are inside every function's domain, all distinct per operand
template <class T> T datum(int operand, unsigned i) { return (T)(0.05+0.9*(((i*(29+operand*8)+operand*7)%97)+0.5)/98.0); }
template <class T> T scalar_of(int operand) { return (T)(0.35+0.2*operand); }
template <class T> T slope_of(int operand) { return (T)(0.001*(operand+1)); }
}
#endif
