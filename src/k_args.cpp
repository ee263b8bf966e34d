// C10: every multi-operand function with every combination of operand kinds
#include "k_common.hpp"
OP2(plus) OP2(minus) OP2(times) OP2(over) OP2N(sum2,sum) OP2(min) OP2(max) OP2(clip2) OP2(less) OP2(less_equal) OP2(greater) OP2(greater_equal) OP2(equal) OP2(notequal) OP2(pow) OP2(spow)
OP3N(clip,clip) OP3N(muladd,muladd) OP3N(ampmod,ampmod) OP3N(sum3,sum) OP4N(mix,mix) OP4N(sum4,sum)
template <class Op, class... Ks> void one() { gen::add<Op,Ks...>(); gen::addfix<Op,48,Ks...>(); }
template <class Op, class A> void two1() { one<Op,A,Kv>(); one<Op,A,Ks>(); one<Op,A,Kr>(); }
template <class Op> void two() { two1<Op,Kv>(); two1<Op,Ks>(); two1<Op,Kr>(); }
template <class Op, class A, class B> void thr1() { one<Op,A,B,Kv>(); one<Op,A,B,Ks>(); one<Op,A,B,Kr>(); }
template <class Op, class A> void thr2() { thr1<Op,A,Kv>(); thr1<Op,A,Ks>(); thr1<Op,A,Kr>(); }
template <class Op> void thr() { thr2<Op,Kv>(); thr2<Op,Ks>(); thr2<Op,Kr>(); }
template <class Op, class A, class B, class C> void fou1() { one<Op,A,B,C,Kv>(); one<Op,A,B,C,Ks>(); one<Op,A,B,C,Kr>(); }
template <class Op, class A, class B> void fou2() { fou1<Op,A,B,Kv>(); fou1<Op,A,B,Ks>(); fou1<Op,A,B,Kr>(); }
template <class Op, class A> void fou3() { fou2<Op,A,Kv>(); fou2<Op,A,Ks>(); fou2<Op,A,Kr>(); }
template <class Op> void fou() { fou3<Op,Kv>(); fou3<Op,Ks>(); fou3<Op,Kr>(); }
static void build() {
#ifdef G_A2
    two<Op_plus>(); two<Op_minus>(); two<Op_times>(); two<Op_over>(); two<Op_sum2>(); two<Op_min>(); two<Op_max>(); two<Op_clip2>();
    two<Op_less>(); two<Op_less_equal>(); two<Op_greater>(); two<Op_greater_equal>(); two<Op_equal>(); two<Op_notequal>();
    // explicit wrappers
    one<Op_minus,KV,KV>(); one<Op_minus,KV,KS>(); one<Op_minus,KS,KV>(); one<Op_minus,KV,Kr>(); one<Op_minus,Kr,KV>(); one<Op_minus,KS,Kr>(); one<Op_minus,Kr,KS>();
    one<Op_minus,Kv,KS>(); one<Op_minus,KS,Kv>(); one<Op_minus,KV,Ks>(); one<Op_minus,Ks,KV>(); one<Op_minus,KV,Kv>(); one<Op_minus,Kv,KV>(); one<Op_over,KV,KS>(); one<Op_less,KS,KV>();
    gen::addfix<Op_minus,8,Kr,Kv>(); gen::addfix<Op_minus,8,Kv,Kr>(); gen::addfix<Op_minus,128,Kr,Kr>(); gen::addfix<Op_times,256,Kr,Kv>();
#endif
#ifdef G_AP
    two<Op_pow>(); two<Op_spow>();
#endif
#ifdef G_A3
    thr<Op_clip>(); thr<Op_muladd>(); thr<Op_ampmod>(); thr<Op_sum3>(); one<Op_muladd,KV,KS,KV>(); one<Op_clip,KV,KS,KS>();
#endif
#ifdef G_A4
    fou<Op_mix>(); fou<Op_sum4>(); one<Op_mix,KV,KS,KV,KS>();
#endif
}
GEN_TABLE(build)
