#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
        why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
VECS=["vec/vec_base.hpp","vec/vec_generic.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp"]
p("C01","Elementwise binary arithmetic and comparisons are IEEE-exact",
 "For float and double, plus/minus/times/over/two-input sum yield in every output element exactly the IEEE-754 correctly rounded result of the two operands (including signed zeros, denormals, infinities and NaN), and min/max/clip2 yield exactly the numerically correct one of their operands for all non-NaN operands (clip2 for limits >= 0). less/less_equal/greater/greater_equal/equal/notequal yield exactly 1 or 0 as the IEEE comparison of the two elements says, so every comparison except notequal is 0 when an operand is NaN. This holds for the scalar, the run-time-length SIMD and the compile-time-length SIMD form, on every instruction set.",
 ["inputs","configurations"],"every operand pair, scalar or buffer operand position, float/double, three call forms, instruction sets generic/SSE/SSE2/SSE4.1/AVX/AVX2+FMA",
 "The tests compare the forms with each other on random values around [0,1); special values (NaN, infinities, denormals, signed zeros, equal operands, extreme exponents) are never generated, and generic/SSE-only/FMA builds are not tested.",
 ["simd_binary_arithmetic.hpp","simd_mix.hpp","vec.hpp"]+VECS,
 [("functors applied per vector","simd_binary_arithmetic.hpp: detail::plus .. detail::clip2"),("relational operators of vec","vec/vec_*.hpp RELATIONAL_OPERATOR")],
 ["output buffer of <op>_vec, <op>_vec_simd, <op>_vec_simd<N>"])
p("C02","Rounding functions return the mathematically exact result",
 "For every float and double, floor, ceil and trunc return exactly the largest integer not above, the smallest integer not below and the integer part of the argument, round returns a nearest integer (either neighbour on ties), and frac returns the correctly rounded value of the argument minus its floor. Values that are already integers, including every value too large to have a fractional part, are returned unchanged, infinities stay infinities (frac of an infinity is not specified) and NaN stays NaN. Holds for scalar, run-time-length and compile-time-length forms on every instruction set (the sign of a zero result is not specified).",
 ["inputs","configurations"],"all 2^32 floats and a lattice of doubles over all exponents, three call forms, all instruction sets",
 "The tests use a few random values in a narrow range; large magnitudes, values next to ties, tiny negatives, infinities and NaN are not reached, and the SSE2/SSE4.1/AVX paths differ completely.",
 ["simd_unary_arithmetic.hpp","detail/math.hpp","detail/vec_math.hpp"]+VECS,
 [("2^23 trick","detail/vec_math.hpp vec_round_float/vec_floor_float/vec_ceil_float"),("roundps/roundpd","vec/vec_sse.hpp, vec/vec_avx_*.hpp"),("scalar fallbacks","detail/math.hpp round/frac/trunc")],
 ["output buffer of floor/ceil/trunc/round/frac _vec, _vec_simd, _vec_simd<N>"])
p("C03","Simple unary arithmetic is exact (or one rounding away)",
 "abs returns the argument with its sign bit cleared, sgn returns -1, 0 or 1 (NaN excluded), square and signed square root return the correctly rounded result (the root carries the sign of the argument), and undenormalize returns zero for denormals and every other value unchanged. cube is within two roundings of the cube, reciprocal within 5e-7 (float, for 2^-126<=|x|<2^126) or one rounding (double) of 1/x, and softclip of a finite x returns x for |x|<0.5 and (|x|-0.25)/x otherwise, within two roundings. Holds for every float and double, in all three call forms and on every instruction set.",
 ["inputs","configurations"],"all 2^32 floats, a lattice of doubles over all exponents, three call forms, all instruction sets",
 "Tests compare a few random values; denormals, thresholds, signed zeros, infinities and extreme exponents are never tried.",
 ["simd_unary_arithmetic.hpp","simd_math.hpp","softclip.hpp","detail/math.hpp","detail/vec_math.hpp"]+VECS,
 [("bit-mask implementations","detail/vec_math.hpp vec_sign, vec_undenormalize, vec_signed_sqrt, vec_reciprocal_newton"),("scalar versions","detail/math.hpp")],
 ["output buffers of the unary functions"])
p("C04","Vectorised transcendental functions meet the documented accuracy",
 "On their documented domain the SIMD and scalar versions of sin, cos, tan, asin, acos, atan, tanh, log, log2, log10 and exp return the mathematical value with a relative error below 5e-7 for every float argument (for sin and cos with 2<|x|<=8192 the bound is instead an absolute error of 2.5e-7, for tan with |x|>1.5 it is 5e-7*|r|+3e-7*(1+r^2) for the exact value r), and within a few units in the last place of double precision for every double. The domains are: |x|<=8192 for sin/cos/tan, |x|<=1 for asin/acos, every finite x for atan/tanh, positive normal x for the logarithms, and results in the normal range for exp.",
 ["inputs","configurations"],"every float in the domain (thorough; quick: a 2^28-point lattice plus every float in neighbourhoods of the branch points), lattice of doubles, scalar/SIMD/compile-time forms, all instruction sets",
 "The tests sample a few hundred random points with a ten times coarser tolerance; single wrong arguments (a branch boundary such as acos(-0.5)) and coarse polynomial errors stay invisible.",
 ["detail/vec_math.hpp","simd_math.hpp","detail/math.hpp"]+VECS,
 [("polynomial approximations and range reduction","detail/vec_math.hpp vec_*_float"),("delegation to libm","vec/vec_base.hpp DEFINE_UNARY_STATIC")],
 ["output buffers of the math functions"])
p("C05","Math functions keep their global shape: range, symmetry, saturation, NaN",
 "For every non-NaN float argument, exp is never NaN, negative or (except by IEEE overflow in the scalar/libm versions) infinite and saturates instead of wrapping (at least 2^126 above 88, at most 2^-125 below -88), tanh stays in [-1,1] and is exactly +-1 for |x|>=23, atan stays within +-pi/2, and for |x|<=1 asin stays within +-pi/2 and acos within [0,pi], up to one part in a million. sin, cos stay within [-1,1] up to 1e-6 for |x|<=8192. sin, tan, asin, atan, tanh, signed square root and softclip are odd (asin for |x|<=1) and cos, abs and square even, bit for bit apart from the sign of a zero, and a NaN argument gives NaN for sin, cos, asin, acos, atan, tanh and exp.",
 ["inputs","configurations"],"every float argument (thorough; lattice in quick), all instruction sets, SIMD and scalar forms",
 "Tests never evaluate the functions outside small random intervals and never check symmetry, saturation or NaN.",
 ["detail/vec_math.hpp","simd_math.hpp","softclip.hpp"]+VECS,
 [("explicit boundary selects","detail/vec_math.hpp vec_exp_float, vec_tanh_float, vec_asin_float, vec_acos_float"),("sign extraction and re-insertion","detail/vec_math.hpp")],
 ["output buffers of the math functions"])
p("C06","Power functions",
 "pow(x,y) equals x to the power y for every positive x within the float approximation error (relative error at most 1e-6+3e-7*|y*ln x|; last-place accuracy, growing likewise with |y*ln x|, in double), 0^y is 0 for y>0, and overflow saturates to a huge finite or infinite value and underflow to (nearly) zero, never NaN. spow(x,y) equals sign(x)*pow(|x|,y). Both hold for buffer and scalar operands, in all call forms and on every instruction set.",
 ["inputs","configurations"],"all pairs of a base lattice and an exponent lattice (float and double), operand kinds vector/scalar, all instruction sets and forms",
 "Tests use a few random bases and exponents in (0,1) ranges.",
 ["simd_math.hpp","detail/vec_math.hpp","detail/math.hpp"]+VECS,
 [("exp(y*log x) with zero select","detail/vec_math.hpp vec_pow, vec_signed_pow")],
 ["output buffers of pow_vec*/spow_vec*"])
p("C07","Unit conversions follow their formulas and invert each other",
 "midi2freq, freq2midi, midi2ratio, ratio2midi, oct2freq, freq2oct, amp2db and db2amp compute 440*2^((m-69)/12), 69+12*log2(|f|/440), 2^(m/12), 12*log2(r), 440*2^(o-4.75), 4.75+log2(|f|/440), 20*log10(|a|) and 10^(d/20) for every argument whose exact result is in the normal range, within float accuracy (relative error 7e-7+3e-7*|t| for the exponential ones, t being the natural logarithm of the scale-free result; absolute error 5e-7 times the sum of the magnitudes of the terms for the logarithmic ones) or, for double, about 1e-11, and the frequency-like and amplitude inputs may be negative. Converting there and back returns the original value within the same accuracy. Holds in all call forms and on every instruction set.",
 ["inputs","configurations"],"float lattice (all floats in thorough) over the musical and the full finite range, double lattice, three forms, all instruction sets",
 "Tests only compare scalar and SIMD forms on random values, so a wrong formula or constant shared by both is invisible.",
 ["simd_unit_conversion.hpp","simd_math.hpp","detail/vec_math.hpp"],
 [("formulas","simd_unit_conversion.hpp")],["output buffers of the conversions"])
p("C08","Vector functions touch exactly their buffers and fill exactly n elements",
 "A call of any vector function with length n reads only the n elements of each input buffer and writes only the n elements of its output buffer(s), all of them, leaving inputs untouched, with out[i] depending only on the i-th input elements. Scalar forms accept every n>=1 and every element alignment; SIMD forms accept every positive multiple of the published samples-per-loop constant (64 bytes) and compile-time forms every positive multiple of the vector size, on vector-aligned buffers. No access outside the buffers happens even when they end or start directly at an unmapped page.",
 ["inputs","configurations"],"every n in 1..300 (scalar), 1..64 blocks plus large sizes beyond 65536 (SIMD), a set of compile-time N, every function, buffers placed against guard pages on both sides, all instruction sets",
 "Tests run at a handful of fixed sizes (mostly 64) in large static arrays, so over-reads, over-writes and size-specific loop bugs cannot show.",
 ["detail/unroll_helpers.hpp","detail/math.hpp","detail/define_macros.hpp","detail/wrap_argument_vector.hpp","detail/wrap_arguments.hpp","simd_memory.hpp","simd_pan.hpp","simd_peakmeter.hpp","simd_horizontal_functions.hpp","simd_unroll_constraints.hpp"],
 [("run-time loop","detail/unroll_helpers.hpp generate_simd_loop"),("compile-time unroller with guarded load-ahead","detail/unroll_helpers.hpp compile_time_unroller"),("copy load-ahead","simd_memory.hpp detail::copyvec")],
 ["guard pages, canaries and output buffers"])
p("C09","In-place operation gives the same result as out-of-place",
 "Every elementwise vector function may be called with its output buffer identical to any of its input buffers (and with the same buffer passed for several inputs), and then produces bit for bit the result of the call with distinct buffers, while inputs that are not the output stay unchanged. This includes panning with either output equal to the input and adding a buffer onto itself.",
 ["inputs","configurations"],"every function, every aliasing pattern of output and inputs, all block counts up to a bound, three call forms, all instruction sets",
 "No existing test aliases buffers.",
 ["detail/unroll_helpers.hpp","detail/math.hpp","detail/define_macros.hpp","simd_pan.hpp","simd_memory.hpp"],
 [("load before store of each vector, load-ahead of the next","detail/unroll_helpers.hpp mp_iteration_*")],["output buffers"])
p("C10","Argument wrappers: constants, buffers and ramps in every position",
 "Every two-, three- and four-operand vector function accepts for each operand independently a constant, a buffer or a linear ramp, passed raw or through the explicit wrappers, and element i is the function of the operands' i-th values, where a constant has the same value everywhere and a ramp has the value start+i*slope up to accumulated rounding in the function's own floating-point type. Operands keep their order and never influence one another, for any length and in all three call forms.",
 ["inputs","configurations"],"all 3^k combinations of operand kinds of all multi-operand functions, ramp starts and slopes from a lattice including negative, zero and non-dyadic values, lengths up to thousands of elements, float and double, all instruction sets",
 "Tests try a few combinations of two-operand functions at one length; most three/four-operand combinations, long ramps and double precision ramps are not reached.",
 ["detail/wrap_arguments.hpp","detail/wrap_argument_vector.hpp","detail/define_macros.hpp","detail/unroll_helpers.hpp"]+VECS,
 [("wrapper classes","detail/wrap_arguments.hpp, detail/wrap_argument_vector.hpp"),("set_slope","vec/vec_*.hpp")],["output buffers"])
p("C11","Memory functions: zero, set, copy, add and ramp generation",
 "The fill, zero, copy and add functions produce exactly the constant, exactly zero, a bit-exact copy (including NaN payloads) and the correctly rounded elementwise sum (with a buffer, a constant or a ramp), and the ramp generators produce f+i*slope and f*curve^i up to accumulated rounding. The unaligned variants accept every element alignment of the operand(s) they are named for. Only the n destination elements change and only the n source elements are read, for every admissible n and in all forms.",
 ["inputs","configurations"],"all functions and forms, every admissible length up to a bound, every element misalignment of source and destination, guard pages, value lattice incl. NaN payloads, all instruction sets",
 "Tests use one or two lengths, ignore most alignment combinations, never call the ramp-adding functions and cannot see reads past the source.",
 ["simd_memory.hpp"]+VECS,
 [("unrolled store/copy/add","simd_memory.hpp detail::setvec, detail::copyvec, detail::addvec, detail::set_ramp")],["destination buffer, guard pages"])
p("C12","A SIMD vector behaves like a plain array of its lanes",
 "After any sequence of element writes, broadcasts, clears, slope/exponential fills, aligned or unaligned loads, single-element loads and compound assignments, reading any lane or storing the vector (aligned, unaligned or streaming) gives exactly what a plain array of that many elements would hold after the same operations. Loading a single element sets lane 0 and zeroes all others, and the slope/exponential fills return the increment/next value for continuing the sequence in the next vector.",
 ["histories","configurations"],"all operation sequences up to a bounded depth over a finite alphabet (every lane index, a few values), explicit-state search with state deduplication, float and double vector classes of every instruction set",
 "Tests check single operations on fresh vectors.",
 VECS,[("load/store/get/set/set_vec/set_slope/set_exp/load_first","vec/vec_*.hpp, vec/vec_base.hpp")],["get(i) and stored buffers after every step"])
p("C13","SIMD vector operators, masks, select and lane reductions work lane by lane",
 "For every vector class, arithmetic operators, compound assignments, negation, min/max, fused or separate multiply-add, abs, sign, square, cube, sqrt-based and rounding functions, relational operators (1.0/0.0), relational masks (all-ones/all-zeros), bitwise operators and select produce in each lane exactly the scalar IEEE result of that lane's operands, including NaN operands for comparisons. The horizontal minimum, maximum and sum of one vector equal those of its lanes, and the generated constants (zero, one, one half, sign and absolute-value masks, all ones) hold the named value in every lane.",
 ["inputs","configurations"],"all pairs/triples of a special-value lattice in every lane with different neighbours, all vector classes and instruction sets",
 "Tests check a couple of values per operator; NaN, signed zero, infinities and mixed lanes are untested.",
 VECS+["detail/vec_math.hpp"],[("operators, mask_*, select, horizontal_*","vec/vec_*.hpp")],["stored lanes"])
p("C14","Horizontal reductions over buffers",
 "For every buffer of non-NaN values and every admissible length, the horizontal minimum and maximum are exactly the smallest and largest element whatever their signs and magnitudes, and the horizontal sum is the sum of all elements up to rounding, each element counted once. The combined min/max and max/sum versions return the same values as the separate ones, and scalar and SIMD versions agree.",
 ["inputs","configurations"],"all lengths up to a bound with the extreme element at every position, all assignments of a small value alphabet to the elements of one loop block, all-negative/all-positive buffers, infinities, all instruction sets",
 "Tests use one random buffer, in which the extreme never lies at every position and values straddle zero.",
 ["simd_horizontal_functions.hpp"]+VECS,[("accumulate per lane, reduce lanes","simd_horizontal_functions.hpp")],["return values"])
p("C15","Peak and RMS metering over histories of blocks",
 "Feeding a signal to the peak meter in any sequence of blocks leaves the peak state at the maximum of its initial value and all absolute sample values, and each call returns the absolute value of the block's last sample; the RMS meter additionally adds the sum of squares of all samples to its state, up to rounding. The result does not depend on how the signal is split into blocks or on whether scalar or SIMD calls are used for each block, for every admissible block length.",
 ["histories","inputs","configurations"],"all block partitions (compositions) of a signal, all mixes of scalar/SIMD calls, the peak at every position, every block length up to a bound, all instruction sets",
 "Tests process one block of one length.",
 ["simd_peakmeter.hpp"]+VECS,[("load_first of the state, lane maximum, horizontal reduction","simd_peakmeter.hpp")],["peak, squared sum and returned value after every call"],
 [dict(name="peak / squared_sum",meaning="meter state owned by the caller",where="simd_peakmeter.hpp arguments")])
p("C16","Vector functions are re-entrant: no shared hidden state between threads",
 "Concurrent calls of any of the library's vector functions from several threads on disjoint output buffers (inputs may be shared) behave as if each call ran alone: every output is bit-identical to that of a solo run under every interleaving of the calls' memory accesses. No call writes memory other than its own output buffers and its thread's private memory (synchronised one-time initialisation of constants aside).",
 ["schedules","configurations"],"all interleavings of 2 threads (3 in thorough) up to a preemption bound, at every access to memory that is not private to a thread, for every function and pairs of functions",
 "The tests are single threaded.",
 ["detail/vec_math.hpp","detail/unroll_helpers.hpp","detail/math.hpp","simd_math.hpp","simd_memory.hpp","simd_peakmeter.hpp"],
 [("functions only use arguments, locals and constants","all headers")],["output buffers after every schedule"])
p("C17","Mixing, panning and three-operand arithmetic",
 "clip(x,low,high) with low<=high returns exactly x limited to [low,high] for non-NaN operands; muladd is x*y+z with one or two roundings; ampmod is s*(1+m*a), mix is a*f0+b*f1 and the three- and four-input sums are the sums of their inputs, each within a few roundings of the exact value. Two-channel panning writes in*factor0 and in*factor1 to its two outputs, with factors that are constant or ramp linearly by their own slope per sample. Holds for all call forms and instruction sets.",
 ["inputs","configurations"],"all tuples of value lattices per operation, ramp parameters from a lattice, all lengths up to a bound, float and double, all forms and instruction sets",
 "Tests compare forms on random values around [0,1) at a single length.",
 ["simd_ternary_arithmetic.hpp","simd_mix.hpp","simd_pan.hpp"]+VECS,
 [("functors","simd_ternary_arithmetic.hpp, simd_mix.hpp"),("pan loops","simd_pan.hpp")],["output buffers"])
p("C18","Elements are independent of position, neighbours, length and call form",
 "In every elementwise SIMD call, the bits of out[i] (all NaNs being considered the same) depend only on the operand values at i: the same operand values give the same bits at every position of the buffer, for every length, whatever values (NaN, infinity, denormal, huge) the neighbouring elements have, and in the run-time-length and compile-time-length form alike. The same holds for the scalar form.",
 ["inputs","configurations"],"every function, every position in up to several loop blocks, all special values placed among all kinds of neighbours, all instruction sets",
 "Tests never vary a single element and compare positions.",
 ["detail/unroll_helpers.hpp","detail/vec_math.hpp","detail/define_macros.hpp"]+VECS,
 [("lane-wise select instead of branches","detail/vec_math.hpp"),("same functor for all vectors","detail/unroll_helpers.hpp")],["output buffers"])
p("C19","Calls are pure: results do not depend on call history, FP state is preserved",
 "Any sequence of library calls yields for each call the same bits (all NaNs being considered the same) as that call made first in a fresh process, whatever values unrelated code has left in registers and on the stack; inputs, scalar arguments and all memory other than the outputs keep their contents. The floating-point control state (rounding mode, flush-to-zero, exception masks) is the same after every call as before.",
 ["histories","configurations"],"all sequences up to length 2 (3 in thorough) over an alphabet of all functions and argument variants, all instruction sets",
 "Tests call each function once and never compare with a repeated call.",
 ["detail/vec_math.hpp","simd_math.hpp","simd_memory.hpp","simd_unit_conversion.hpp","detail/define_macros.hpp"],
 [("no global state","all headers")],["output buffers and control word after every call"])
p("C20","Integer vector companion and SSE register helpers",
 "The 32-bit integer companion of the single precision vector classes (int_vec: SSE2 and AVX) broadcasts a constant and performs addition, subtraction, bitwise and, and-not, the less/greater/equal masks and logical left/right shifts by 0..31 in every lane exactly as the corresponding scalar 32-bit operation, converts to float with round-to-nearest, and is obtained from a float vector by truncation (for values in int range) or by reinterpreting the bits unchanged. The SSE register helpers of simd_utils.hpp (minimum and maximum over the four lanes, extraction of lanes 0 and 3, sign/abs masks and the constants 1, 0.5, 0.25, mask selection) return exactly the value defined by their lanes.",
 ["inputs","configurations"],"all pairs of a bit-pattern lattice in every lane, all shift counts, all assignments of a small alphabet to the four lanes, SSE/SSE2/SSE4.1/AVX/AVX2 builds",
 "The tests never call these helpers directly; they only show through a few random arguments of the transcendental functions.",
 ["vec/vec_int_sse2.hpp","vec/vec_int_avx.hpp","simd_utils.hpp"]+VECS,
 [("int_vec operators and conversions","vec/vec_int_*.hpp"),("register helpers","simd_utils.hpp")],["stored lanes"])
p("C21","Published geometry and alignment test are sufficient to choose a call form",
 "vec<T>::is_aligned(p) is true exactly for the addresses at which vectors of that class may be loaded and stored with the aligned operations: multiples of the vector's size in bytes for SIMD classes, of the element size for the generic class. vec<T>::size times the element size is the size of the vector object, and samples_per_loop is a multiple of vec<T>::size that covers exactly one 64-byte cache line. Client code that calls the SIMD form when all buffers pass is_aligned and the length is a multiple of samples_per_loop (choosing among the copy/set/zero variants by alignment), and the scalar form otherwise, therefore never faults and gets the same elements for every address and length.",
 ["inputs","configurations"],"all byte addresses of several pages, all element misalignments of all buffers x all lengths up to a bound, float and double, every instruction set",
 "Tests only use aligned buffers of fixed length and never call is_aligned.",
 ["simd_unroll_constraints.hpp","simd_memory.hpp"]+VECS,[("size, objects_per_cacheline, is_aligned","vec/vec_*.hpp"),("samples_per_loop","simd_unroll_constraints.hpp")],["return value, output buffers, faults"])
p("C22","Calls are real-time safe: no allocation, locks, system calls or growing stack",
 "No vector function allocates or frees heap memory, takes a lock, performs a system call or uses stack space that grows with the length (128 KiB of stack suffice for every length), whatever the function, call form, operand kinds, length and operand values, including NaN, infinities and denormals; every call returns after work proportional to n (in executed basic blocks of the library, within a small factor, whatever the values). (One-time initialisation of constants is not counted as a lock.)",
 ["inputs","configurations"],"every function x call form x operand-kind combination x lengths up to more than 2^16 loop iterations x value sets, float and double, every instruction set",
 "The tests never look at allocation, locking or stack use, and run with lengths of about 64 to 1024 on a large stack; an allocation above a length threshold or for special values is invisible to them.",
 ["detail/define_macros.hpp","simd_memory.hpp","simd_math.hpp","simd_pan.hpp","simd_horizontal_functions.hpp","simd_peakmeter.hpp","detail/vec_math.hpp"],
 [("loops over registers only","detail/define_macros.hpp, simd_*.hpp")],["calls of malloc/free/lock functions, system calls, stack faults and executed basic blocks during a call"])
p("C23","Headers compose: any inclusion order, any number of translation units",
 "Every public header (vec.hpp, simd_*.hpp, softclip.hpp) can be included on its own, repeatedly and in any order with the others, without disturbing a client's own names (its own functions and types called vec, detail, abs, mix, clip and the like in its namespace or at global scope, parameters called min and max: no helper macro with an ordinary name and no using-directive leaks), and programs in which many translation units include them (in different orders, with and without NDEBUG) link without duplicate or missing symbols and compute the same results as a program with a single such unit. Holds for every instruction set.",
 ["configurations","histories"],"all ordered pairs of public headers and programs of one translation unit per inclusion order, all instruction sets",
 "Every test is a single translation unit that includes one or two headers in one order.",
 ["vec.hpp","simd_unroll_constraints.hpp","simd_utils.hpp","simd_memory.hpp","simd_unary_arithmetic.hpp","simd_binary_arithmetic.hpp","simd_ternary_arithmetic.hpp","simd_mix.hpp","simd_pan.hpp","simd_math.hpp","simd_unit_conversion.hpp","simd_horizontal_functions.hpp","simd_peakmeter.hpp","softclip.hpp"],
 [("include guards, inline functions, undefined helper macros","all headers")],["compiler, linker and results of the program"])
p("C24","Results survive flush-to-zero and denormals-are-zero mode",
 "With flush-to-zero, denormals-are-zero or both enabled in the calling thread (as audio programs do), every vector function returns bit for bit the result it returns in the default mode (all NaNs being considered the same), as long as neither the operands nor the intermediate and final values of the function's formula are denormal. Copy functions remain bit-exact copies of every bit pattern, denormals and NaN payloads included, and undenormalize still returns zero for denormals and every other value unchanged. Holds for all functions, call forms, operand kinds and instruction sets.",
 ["inputs","configurations"],"all tuples of lattices of normal values, zeros, infinities and NaN (all bit-pattern classes for copies) x the three denormal modes, every function and form, float and double, every instruction set",
 "The tests only run in the default mode; code that handles integers or masks as floats works there and fails with denormals-are-zero, where such patterns count as zero.",
 ["detail/vec_math.hpp","simd_math.hpp","simd_memory.hpp","simd_unary_arithmetic.hpp","detail/math.hpp"]+VECS,
 [("masks and exponents handled with integer and bitwise instructions","detail/vec_math.hpp, vec/vec_*.hpp")],["output buffers"])
p("C25","NEON and AltiVec vector classes follow the same contract as the x86 ones",
 "Given the architected behaviour of their instructions, the single precision vector classes for ARM NEON and PowerPC AltiVec behave like the x86 classes: loads and stores (unaligned ones at every element address), element access, fills, copies, addition, subtraction, multiplication (apart from the sign of a zero product), multiply-add, min/max, comparisons, masks, bitwise operators, and-not (first operand complemented), select (second operand where the mask is set), abs, sign, square, cube, rounding functions, undenormalize and lane reductions give in each lane the scalar result, and the memory, reduction, metering and elementwise vector functions built on them touch exactly their buffers, work in place and treat every element alike; operands may be buffers, constants or ramps in every combination, and clipping, multiply-add, modulation, mixing, panning, unit conversions and mathematical functions meet the same bounds as elsewhere. Division, reciprocal and square root are estimates (relative error below 1e-4, square root and fast reciprocal 6e-3, for magnitudes between 1e-15 and 1e15), and the square root of zero is zero.",
 ["inputs","histories","configurations"],"the value, sequence, shape and alias spaces of C02, C04, C07 to C15, C17 and C21 for both classes, compiled against a model of their instruction sets",
 "The test suite is never built for these processors here, and the classes differ from the x86 ones in exactly the places (operand order of select and and-not, addresses of unaligned accesses, estimates at zero) that a port gets wrong.",
 ["vec/vec_neon.hpp","vec/vec_altivec.hpp","vec/vec_base.hpp","detail/vec_math.hpp","simd_memory.hpp"],
 [("vector classes","vec/vec_neon.hpp, vec/vec_altivec.hpp")],["stored lanes, output buffers"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
