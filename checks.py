"""Configurations and per-property set-up of the checks (see DESIGN.md)."""
# ci: configurations the repository's own test build uses; a public header that stops compiling there is a violation,
# in the others it is noted in the evidence and the configuration is skipped.
CONFIGS = {
 "gen":   dict(flags="-O2 -U__SSE__ -U__SSE2__", need=[], ci=False),
 "sse":   dict(flags="-O2 -U__SSE2__", need=[], ci=False),
 "sse2":  dict(flags="-O1", need=[], ci=True),
 "sse2n": dict(flags="-O3 -DNDEBUG -std=gnu++20", need=[], ci=False),
 "sse41": dict(flags="-O2 -msse4.1", need=["sse4_1"], ci=True),
 "avx":   dict(flags="-O1 -mavx", need=["avx"], ci=True),
 "avxn":  dict(flags="-O2 -mavx -DNDEBUG -std=gnu++17", need=["avx"], ci=False),
 "fma":   dict(flags="-O2 -mavx2 -mfma", need=["avx2", "fma"], ci=False),
 # unoptimised builds (the compiler keeps accesses whose value is not used): only where a check lists them
 "dbg":   dict(flags="-O0", need=[], ci=False, extra=True),
 # the fallbacks for C++98 compilers and systems without C99 feature macros (selected in k_common.hpp)
 "port":  dict(flags="-O2", need=[], ci=False, extra=True),
 # a second compiler: all checks in the thorough tier, the cheap ones in the quick tier
 "clang": dict(cxx="clang++", flags="-O2", need=[], ci=False, extra=True, deep=True),
 "clanga": dict(cxx="clang++", flags="-O3 -mavx -DNDEBUG", need=["avx"], ci=False, extra=True, deep=True),
 # NEON and AltiVec classes compiled against a model of the instructions (src/isa): only C25
 "neon":  dict(flags="-O2 -U__SSE__ -U__SSE2__ -D__ARM_NEON__ -isystem @SRC/isa/neon", need=[], ci=False, extra=True),
 "altivec": dict(flags="-O2 -U__SSE__ -U__SSE2__ -D__ALTIVEC__ -isystem @SRC/isa/altivec", need=[], ci=False, extra=True),
 "dbga":  dict(flags="-O0 -mavx", need=["avx"], ci=False, extra=True),
}
ASSUME = ["g++ 13 on x86-64; instruction sets generic, SSE, SSE2, SSE4.1, AVX, AVX2+FMA as available on this CPU (NEON and AltiVec code is not compiled)",
          "values outside the enumerated lattice and lengths beyond the bound are not covered"]
CHECKS = {}
def check(pid, harness, libs, rule, bounds, assumptions=(), **kw):
    CHECKS[pid] = dict(harness=harness, libs=libs, rule=rule, bounds=bounds, assumptions=ASSUME + list(assumptions), **kw)
U = "k_unary.cpp"; M = "k_multi.cpp"
check("C01", "h_tuple.cpp", [("bin", M, "-DG_BIN")],
  "state = (kernel, operand tuple); every pair of the lattice goes through every function, call form and operand-kind combination and is compared with the IEEE reference",
  ["all pairs of a 1300/1300-value lattice (specials, every 2nd float / 16th double exponent x 5 mantissas x sign)", "all pairs of a 4600/7500-value lattice (all float / every 5th double exponents x 9 mantissas x sign)"],
  ["oracle: scalar C++ arithmetic of the checker, compiled for SSE2 without contraction"], min_states=10**8)
check("C06", "h_tuple.cpp", [("pow", M, "-DG_POW")],
  "state = (kernel, base, exponent); all pairs of base and exponent lattice", ["quick lattices", "thorough lattices"],
  ["oracle: libm pow in double (for float) / long double (for double)"], min_states=10**6)
check("C17", "h_tuple.cpp", [("tern", M, "-DG_TERN")],
  "state = (kernel, operand tuple); all triples (three operands) / quadruples (four operands) of the lattices; panning with all ramp parameter combinations",
  ["triples over ~100 values, quadruples over ~45 values, pan ramps 5x7 starts/slopes per channel at ~70 lengths", "triples over ~180 values, quadruples over ~75 values"],
  ["oracle: sums/products in double (float) or long double (double)"], min_states=10**7)
FOC = "every float within 512 ulp of 0, infinity, all powers of two from 2^-30, multiples of 1/8 up to 32 and known branch points (64 ulp: multiples of 1/8 up to 128, 32 ulp: multiples of pi/4 up to 8192); scalar and compile-time forms on these and on every 16th block; doubles: all exponents and signs x 128 mantissa prefixes x 4 tails, a finer grid for exponents -12..13, neighbourhoods as for float"
FS2 = "floats: all for 2^-24<=|x|<2^25, every 64th elsewhere, " + FOC
FS3 = "floats: every 8th bit pattern and an offset lattice, " + FOC
FSQ = "floats: every 8th bit pattern for 2^-24<=|x|<2^24, every 128th elsewhere, offset lattices, " + FOC
FST = "all 2^32 floats for the run-time SIMD form, every 16th block of 4096 consecutive floats for the scalar and compile-time forms; doubles: all exponents and signs x 2048 mantissa prefixes x 4 tails, finer for exponents -12..13"
RULE1 = "state = (kernel, argument); every argument of the stated space goes through every function of every configuration and the result must lie in the interval (or be the exact value) given by the reference model"
check("C02", "h_unary.cpp", [("round", U, "-DG_ROUND"), ("round", U, "-DG_ROUND", ["port"])], RULE1, [FS2, FST], ["oracle: libm floor/ceil in the argument's type"], args="--prop C02", min_states=10**9)
check("C03", "h_unary.cpp", [("arith", U, "-DG_ARITH"), ("clip", U, "-DG_CLIP")], RULE1, [FS3, FST], ["oracle: IEEE arithmetic of the checker"], args="--prop C03", min_states=10**9)
check("C04", "h_unary.cpp", [("math", U, "-DG_MATH"), ("math", U, "-DG_MATH", ["port"])], RULE1, [FSQ, FST], ["oracle: glibc libm in double (float functions) and long double (double functions)"], args="--prop C04", min_states=10**8)
check("C05", "h_unary.cpp", [("math", U, "-DG_MATH"), ("math", U, "-DG_MATH", ["port"]), ("arith", U, "-DG_ARITH"), ("clip", U, "-DG_CLIP")], RULE1 + "; symmetry: the mirrored argument is evaluated too and must give the mirrored result", [FSQ, FST], args="--prop C05", min_states=10**8)
check("C07", "h_unary.cpp", [("conv", U, "-DG_CONV"), ("conv", U, "-DG_CONV", ["port"])], RULE1 + "; all there-and-back compositions on grids", [FSQ, FST], ["oracle: the closed formulas in double / long double"], args="--prop C07", min_states=10**8)
A = "k_args.cpp"
check("C10", "h_args.cpp", [("a4", A, "-DG_A4", ["gen", "sse2", "avx"]), ("a2", A, "-DG_A2"), ("a3", A, "-DG_A3", ["gen", "sse2", "sse41", "avx", "fma"]), ("ap", A, "-DG_AP", ["gen", "sse2", "avx", "fma"])],
  "state = (function, form, operand-kind combination, ramp/constant parameter combination, length); every element of every call is judged by an interval model of the operands' i-th values",
  ["all 3^k kind combinations; 8 ramps x 5 constants (two operands), 5 x 3 (three), 3 x 2 (four), all combinations; 5-18 lengths up to 1024; ramps over 9000/66000 elements, minus: 65537 loop blocks", "8 ramps x 5 constants for two and three operands, 5 x 3 for four, lengths up to 4096"],
  ["ramp value may deviate from start+i*slope by (i+4)*1.5 roundings of its largest magnitude, by nothing if start and slope are multiples of 1/1024"], libflags="-ffp-contract=off", min_states=10**5)
SH = "k_shape.cpp"
SHL = [("s2", SH, "-DG_S2"), ("sm", SH, "-DG_SM"), ("s1", SH, "-DG_S1"), ("s3", SH, "-DG_S3"), ("s4", SH, "-DG_S4"), ("sc", SH, "-DG_SC")]
FPC = dict(libflags="-ffp-contract=off")
check("C08", "h_shape.cpp", SHL + [("sn", SH, "-DG_SN", ["gen", "sse2", "avx", "avxn"]), ("s2", SH, "-DG_S2", ["dbg"]), ("s3", SH, "-DG_S3", ["dbg", "dbga"]), ("s4", SH, "-DG_S4", ["dbg", "dbga"])],
  "state = (function, form, operand kinds, length, placement and misalignment of every buffer); every call runs between unmapped guard pages with canaries and its inputs and outputs are compared completely",
  ["scalar: every n in 1..300, SIMD: 1..64 loop blocks, compile-time lengths (one function per loop: all of 1..20, 32, 48, 64 vectors), all 4 start/end placements; all element misalignments for short lengths; one length beyond 65536 elements, SIMD: 65537 loop blocks (SSE2, AVX)", "scalar n up to 600, all lengths up to 1024, all misalignment pairs, lengths beyond 131072"],
  ["reads inside the mapped page but outside the buffer are only visible through guard pages (buffer end or start)"], args="--prop C08", min_states=10**6, **FPC)
check("C09", "h_shape.cpp", SHL[:4] + SHL[5:],
  "state = (function, form, operand kinds, set partition of output and input buffers, length); the aliased call must produce bit for bit what the call on separate buffers produces and leave the other buffers alone",
  ["all set partitions of up to 5 buffers; scalar n 1..40, SIMD 1..5 blocks and 256", "scalar n 1..140, SIMD 1..24 blocks and 256"], ["buffers are either identical or disjoint (no partial overlap)"], args="--prop C09", min_states=10**5, **FPC)
check("C18", "h_shape.cpp", SHL[:3] + SHL[5:],
  "state = (function, form, operand tuple, neighbour tuple, position, length); the element's bits must equal those of the same operands in a uniform buffer",
  ["36 special values (about 45 tuples for several operands) x 5 neighbour kinds x every position of 1, 2, 3 loop blocks; SIMD: all ordered pairs of a ~600-value (several operands: ~130-tuple) lattice as (one lane, other lanes) x every lane", "all tuples x 7 neighbours x every position of 1, 2, 3, 5 blocks; pairs of a ~1600-value lattice"], ["all NaNs are considered the same result"], args="--prop C18", min_states=10**6, **FPC)
check("C19", "h_pure.cpp", SHL + [("s3", SH, "-DG_S3", ["dbg"]), ("s2", SH, "-DG_S2", ["dbg"]), ("s4", SH, "-DG_S4", ["dbg", "dbga"])],
  "state = (history of calls); every call of the alphabet (function x form x 4 argument variants) is first made alone in a fresh process, then every ordered pair of calls occurs consecutively in one history per library; each call must reproduce the fresh bits, keep its inputs and preserve MXCSR control bits and x87 control word, also under 7 MXCSR and 2 x87 environments; every call is also made with 5 bit patterns left in the dead stack and all vector registers",
  ["all ordered pairs (depth 2) of about 40-700 calls per library", "all ordered pairs, plus all triples (depth 3) of the calls with the first argument variant"], ["all NaNs are considered the same result"], min_states=10**5, **FPC)
check("C11", "h_mem.cpp", [("s3", SH, "-DG_S3"), ("s3", SH, "-DG_S3", ["dbg", "dbga"])],
  "state = (function, form, length, alignment of source and destination, placement against guard pages, value vector); every element of every call is compared with the reference",
  ["scalar n 1..80 and 1000, SIMD 1..12 blocks and 1024, compile-time lengths; every element misalignment pair for short lengths; constants/addends from the special-value lattice, NaN payloads for copies, 8 slopes, 10 exponential ramps; one call of 65537 loop blocks per function", "scalar n up to 300, SIMD up to 40 blocks, misalignments at all lengths"],
  ["ramp values may deviate by (i+4)*1.5 roundings, exponential ramps by (i+8)*2 roundings"], clang=True, min_states=10**5, **FPC)
KV = "k_vec.cpp"
check("C12", "h_vecseq.cpp", [("vseq", KV, "-DG_VSEQ")],
  "state = lane contents of the model array; all operation sequences up to the full depth are executed on a live vector object, then the sequences are extended from states not seen before; after every step get, store, store_aligned, store_aligned_stream and the return value are compared with the array model",
  ["alphabet of 40-60 operations; all sequences of length 3; up to 1500 new states per first operation extended to depth 5", "all sequences of length 4; up to 40000 new states per first operation extended to depth 6"],
  ["non-dyadic slope/exponential fills: the lanes are taken over from the implementation if within rounding of the model"], clang=True, min_states=10**5, **FPC)
check("C13", "h_vec.cpp", [("vops", KV, "-DG_VOPS")],
  "state = (vector class, operation, operand tuple, lane); every pair/triple of the lattice in every lane, compared with the scalar IEEE result; lane reductions for every assignment of a small alphabet to the lanes",
  ["unary ~10^4 values, pairs over ~180 values, triples over ~80 values", "pairs over ~600 values, triples over ~100 values"], ["operations a class does not offer are left out (listed by count in the evidence)"], clang=True, min_states=10**6, **FPC)
check("C20", "h_vec.cpp", [("vint", KV, "-DG_VINT"), ("util", KV, "-DG_UTIL")],
  "state = (operation, operand tuple, lane); every pair of integer bit patterns in every lane; SSE helper functions on all lattice tuples and every assignment of a small alphabet to the lanes",
  ["pairs over ~120 bit patterns, triples over ~80 values", "the same with larger lattices"], internal=True, configs=["sse", "sse2", "sse2n", "sse41", "avx", "avxn", "fma"], min_states=10**5, **FPC)
check("C14", "h_red.cpp", [("s4", SH, "-DG_S4")],
  "state = (reduction, form, buffer contents); every reduction is called on every buffer of the space, the block ending at an unmapped page, and compared with the exact minimum, maximum and sum",
  ["one extreme element at every position, 272 (background, extreme) value pairs x constant/varied background, scalar n 1..40, SIMD 1..16 vectors, 256; every assignment of a 4-value alphabet to up to 8 elements; every pair of positions of two extremes in 4 vectors; rotated integers (exact sums); 4096 elements; 65537 vectors", "scalar n 1..130, SIMD 1..64 vectors, 256, 1024; assignments of a 5-value alphabet"],
  ["sums: n*1.1 roundings of the sum of magnitudes, exact for integers; sums whose magnitudes overflow are not judged"], args="--prop C14", clang=True, min_states=10**6)
check("C15", "h_red.cpp", [("s4", SH, "-DG_S4")],
  "state = (position in the signal, meter state); the tree of all block sequences (every composition of the signal into blocks x scalar or SIMD call for every block) is walked and peak, squared sum and return value are compared with the model after every call",
  ["signals of 4 loop blocks, the peak (9 values) at every position, 3 backgrounds, 6 initial states; scalar blocks of every length where a loop block has at most 16 elements; every single block length up to 200 (scalar) and 1024 (SIMD), 65537 loop blocks", "signals of 6 loop blocks, single blocks up to 1024"],
  ["squared sum: (n+4)*1.1 roundings per block, exact for integers below 2^24"], args="--prop C15", clang=True, min_states=10**5)
check("C16", "h_conc.cpp", [(g, s, d, ["gen", "sse2", "sse41", "avx"]) for g, s, d in SHL],
  "state = (program of 2 or 3 concurrent calls, schedule); stateless exploration of the compiled functions under a controlled scheduler: compiler-inserted hooks at every load and store hand control between real threads; every schedule's outputs must equal the solo outputs and no call may write static data, inputs or another call's memory",
  ["each function with itself (shared and separate inputs): all schedules with up to 3 preemptions at accesses to potentially shared memory, all schedules with 1 preemption at every access outside the own stack; all ordered pairs of functions of a group with 2 preemptions", "the same with 4/2/3 preemptions, and three threads with 2 preemptions, all configurations"],
  ["libm calls, non-temporal stores and memcpy are atomic steps", "sequentially consistent interleavings; accesses to private memory and to read-only inputs commute (coarse mode)"],
  libflags="-ffp-contract=off -fsanitize=thread", liblink="-nodefaultlibs -lstdc++ -lm -lgcc_s -lgcc -lc", hflags="-rdynamic", configs=["gen", "sse", "sse2", "sse2n", "sse41", "avx", "avxn", "fma"], min_states=10**4)
check("C21", "h_geo.cpp", [("geo", "k_geo.cpp", "")],
  "state = (address) for the alignment test, (operation, element offset in a page) for loads and stores, (function, length, misalignment of every buffer) for calls dispatched on the alignment test and samples_per_loop",
  ["every byte address of two pages at 9 base addresses and around all sums of two powers of two up to 2^47; every element offset of a page; every length up to 2 loop blocks + 1 vector + 1 x every element misalignment of each buffer (two inputs: a third of the combinations of the third buffer)", "16 pages per base; lengths up to 8 loop blocks, all misalignment triples"],
  ["x86-64 pointers"], clang=True, min_states=10**5, **FPC)
check("C22", "h_rt.cpp", SHL,
  "state = (function, form, operand kinds, length, value set); every call runs on a 128 KiB stack between guard pages with the allocator, lock functions and (by system-call user dispatch) all system calls monitored; its work is counted in executed basic blocks (compiler instrumentation) and must stay within 8 times that of ordinary values and of a 64-block call scaled to its length",
  ["every function, form and operand-kind combination; 12 lengths from 1 to 1000 loop blocks, 4096 (SSE2 and AVX: 65537) blocks, scalar 65601 (300001) elements; three value sets (ordinary, special values, denormals), in place and out of place", "the same with the longest buffers in all configurations"],
  ["one-time initialisation guards of constants are not counted as locks", "where the kernel offers no system-call user dispatch only the interposed functions are monitored (counter system_call_monitor)"], hflags="-rdynamic", libflags="-ffp-contract=off -fsanitize-coverage=trace-pc", min_states=10**4)
check("C24", "h_mode.cpp", [(g, k, d, ["gen", "sse2", "sse41", "avx"]) for g, k, d in SHL],
  "state = (function, form, operand kinds, operand tuple, denormal mode); every call is made in the default mode and again with flush-to-zero, denormals-are-zero and both, and must give the same bits wherever the default result is no denormal; copies are compared with their source, undenormalize with its definition",
  ["all single values (41 binary exponents -20..20 x 8 mantissas x sign, specials), all pairs of 71 values, all triples of 25 values, all quadruples of 11 values; 11 constants and 2 slopes for scalar operands; copies and undenormalize: all exponents x 13 mantissas incl. denormals", "all pairs of 173 values, all triples of 45 values, all quadruples of 23 values"],
  ["operands that are denormal or so small that intermediate results can become denormal are only covered for copies and undenormalize"], min_states=10**6, **FPC)
ISA = ["neon", "altivec"]
check("C25", "", [("vops", KV, "-DG_VOPS", ISA), ("vseq", KV, "-DG_VSEQ", ISA), ("round", U, "-DG_ROUND", ISA), ("math", U, "-DG_MATH", ISA), ("conv", U, "-DG_CONV", ISA), ("tern", M, "-DG_TERN", ISA), ("a2", A, "-DG_A2", ISA), ("a3", A, "-DG_A3", ISA), ("a4", A, "-DG_A4", ISA), ("geo", "k_geo.cpp", "", ISA)] + [(g, k, d, ISA) for g, k, d in SHL],
  "state = (operation, operand tuple, lane), (operation sequence) or (function, form, length, placement, contents) as in C02, C04, C07-C15, C17 and C21, for the classes of vec_neon.hpp and vec_altivec.hpp compiled against a model of their instructions (src/isa); division, reciprocal and square root are only held to the precision of the estimate instructions",
  ["the quick bounds of C02, C04, C07-C15, C17, C21 for single precision", "the thorough bounds of the same"],
  ["the instruction model follows the architecture manuals (ARM ARM / ACLE, AltiVec PIM) but is not validated against hardware; denormals are not flushed; the integer companion classes are not covered"],
  stages=[("h_vec.cpp", "", ["vops"]), ("h_vecseq.cpp", "", ["vseq"]), ("h_unary.cpp", "--prop C02", ["round"]), ("h_mem.cpp", "", ["s3"]), ("h_red.cpp", "--prop C14", ["s4"]), ("h_red.cpp", "--prop C15", ["s4"]), ("h_shape.cpp", "--prop C08", ["s1", "s2", "s3", "s4", "sm", "sc"]), ("h_shape.cpp", "--prop C09", ["s1", "s2", "s3", "sm", "sc"]), ("h_geo.cpp", "", ["geo"]), ("h_unary.cpp", "--prop C04", ["math"]), ("h_unary.cpp", "--prop C07", ["conv"]), ("h_tuple.cpp", "", ["tern"]), ("h_args.cpp", "", ["a2", "a3", "a4"])],
  types=["float"], optional=True, min_states=10**6, **FPC)
check("C23", "", [],
  "state = (configuration, inclusion order) and (configuration, set of translation units of a program); every ordered pair of public headers is compiled in a client with names of its own, and programs built from one translation unit per inclusion order are linked, run and compared",
  ["14 headers: every header alone and repeated in 8 configurations, all 182 ordered pairs in generic, SSE2 and AVX builds; 14 translation units per configuration (each header first, the others ascending or descending, every second one with NDEBUG) linked together and separately", "all ordered pairs in all configurations, 28 translation units"],
  ["orders of three and more headers only as listed"], custom="x_headers", min_states=10**2)
