"""C23: all inclusion orders (ordered pairs) of the public headers x configurations, and programs of many translation units."""
import glob, os, re, subprocess, itertools
from concurrent.futures import ThreadPoolExecutor
HDRS = ["vec.hpp", "simd_unroll_constraints.hpp", "simd_utils.hpp", "simd_memory.hpp", "simd_unary_arithmetic.hpp", "simd_binary_arithmetic.hpp", "simd_ternary_arithmetic.hpp", "simd_mix.hpp",
        "simd_pan.hpp", "simd_math.hpp", "simd_unit_conversion.hpp", "simd_horizontal_functions.hpp", "simd_peakmeter.hpp", "softclip.hpp"]
# what one translation unit computes with the functions of every header; %d is its number
BATTERY = r'''
#include <cstring>
#include <cstdio>
namespace { template <class T> struct Bat { unsigned long long h; alignas(64) T x[64], y[64], o[64], p[64]; Bat(): h(1469598103934665603ull) { for (int i=0;i<64;i++) { x[i]=(T)((i*37%%61)/64.0+0.01); y[i]=(T)((i*23%%59)/60.0+0.02); } }
  void add(const T* q, int n) { for (int i=0;i<n;i++) { unsigned long long u=0; memcpy(&u,q+i,sizeof(T)); h=(h^u)*1099511628211ull; } }
  void all() { using namespace nova;
   #define U(f) f##_vec(o,(const T*)x,64u); add(o,64); f##_vec_simd(o,(const T*)x,64u); add(o,64); f##_vec_simd<64>(o,(const T*)x); add(o,64);
   #define B(f) f##_vec(o,(const T*)x,(const T*)y,64u); add(o,64); f##_vec_simd(o,(const T*)x,(T)0.3,64u); add(o,64); f##_vec_simd<64>(o,slope_argument((T)0.1,(T)0.01),(const T*)y); add(o,64);
   U(abs) U(sgn) U(square) U(cube) U(round) U(frac) U(floor) U(ceil) U(trunc) U(undenormalize) U(reciprocal) U(sin) U(tanh) U(log) U(exp) U(signed_sqrt) U(midi2freq) U(amp2db)
   SOFTCLIP
   B(plus) B(minus) B(times) B(over) B(min) B(max) B(less) B(greater_equal) B(clip2) B(pow) B(spow)
   clip_vec_simd(o,(const T*)x,(T)0.2,(T)0.7,64u); add(o,64); muladd_vec_simd(o,(const T*)x,(const T*)y,(T)0.7,64u); add(o,64); ampmod_vec(o,(const T*)x,(const T*)y,(T)0.5,64u); add(o,64);
   mix_vec_simd(o,(const T*)x,(T)0.5,(const T*)y,(T)0.25,64u); add(o,64); sum_vec_simd(o,(const T*)x,(const T*)y,(const T*)x,64u); add(o,64);
   pan2_vec_simd(o,p,(const T*)x,(T)0.3,(T)0.01,(T)0.7,(T)-0.01,64u); add(o,64); add(p,64);
   T r[4]; r[0]=horizontal_max_vec_simd((const T*)x,64u); r[1]=horizontal_min_vec((const T*)x,64u); r[2]=horizontal_sum_vec_simd((const T*)x,64u); r[3]=0; peak_vec_simd((const T*)x,r+3,64u); add(r,4);
   set_slope_vec_simd(o,(T)1,(T)0.25,64u); add(o,64); set_exp_vec(o,(T)1,(T)0.9,64u); add(o,64); copyvec_simd(o,(const T*)x,64u); addvec_simd(o,(const T*)y,64u); add(o,64); zerovec_simd(o,64u); add(o,64); setvec_simd(o,(T)3,64u); add(o,64);
   r[0]=unroll_constraints<T>::samples_per_loop; r[1]=vec<T>::size; add(r,2); } }; }
unsigned long long digest_%d() { Bat<float> f; f.all(); Bat<double> d; d.all(); return f.h*31+d.h; }
'''
# a client with names of its own, in a namespace and at global scope, that a leaked macro or using-directive would break
CLIENT = r'''
namespace client { __attribute__((always_inline)) inline int unroll(int loop) { return loop; } struct vec { int size; }; inline int detail(int min, int max) { vec v; v.size = min; return v.size + max; } template <class T> T abs(T x) { return x; } }
struct vec { int size; };
inline int detail(int min, int max) { vec v; v.size = min; return v.size + max; }
inline float softclip(float x) { return x; } inline int pan2(int n) { return n; } inline int mix(int a) { return a; } inline int clip(int a) { return a; } inline int midi2freq(int a) { return a; } inline int max_(int a) { return a; } inline int min_(int a) { return a; } inline int zerovec(int a) { return a; }
template <class T> T max(T a, T b) { return a > b ? a : b; } template <class T> T min(T a, T b) { return a < b ? a : b; } struct pair { int first; }; struct numeric_limits { int digits; }; template <class T> void swap(T& a, T& b) { T t = a; a = b; b = t; }
inline int client_std() { pair p; p.first = 1; numeric_limits l; l.digits = 2; swap(p.first, l.digits); return max(p.first, l.digits) + min(p.first, l.digits); }
int main() { client_std(); vec v; v.size = 1; return client::detail(1, client::abs(-1)) + detail(v.size, 2) + pan2(1) + mix(1) + clip(1) + max_(1) + min_(1) + zerovec(1) + midi2freq(3) + (int)softclip(1); }
'''
# a client of a single header instantiates its functions: the header must bring everything they need
USES = {
 "vec.hpp": "vec<T> a(x[0]), b; b.load(x); a = a*b+b; a = max_(a,min_(b,abs(a))); a.store(o); o[0] = floor(a).get(0) + exp(log(abs(a))).get(0) + sin(a).get(0) + a.horizontal_sum() + a.horizontal_max() + pow(a,b).get(0) + tanh(a).get(0); a.set_slope(x[0],x[1]); a.set_exp(x[0],x[1]); a.store_aligned(o);",
 "simd_unroll_constraints.hpp": "o[0] = unroll_constraints<T>::samples_per_loop;",
 "simd_memory.hpp": "zerovec(o,64u); zerovec_simd(o,64u); setvec(o,x[0],64u); setvec_simd<64>(o,x[0]); copyvec(o,x,64u); copyvec_nn_simd(o,x,64u); addvec(o,x,64u); addvec_simd(o,x[0],x[1],64u); set_slope_vec(o,x[0],x[1],64u); set_slope_vec_simd(o,x[0],x[1],64u); set_exp_vec(o,x[0],x[1],64u); set_exp_vec_simd(o,x[0],x[1],64u);",
 "simd_unary_arithmetic.hpp": "".join("%s_vec(o,x,64u); %s_vec_simd(o,x,64u); %s_vec_simd<64>(o,x);" % (f, f, f) for f in "abs sgn square cube undenormalize reciprocal floor ceil trunc round frac".split()),
 "simd_binary_arithmetic.hpp": "".join("%s_vec(o,x,y,64u); %s_vec_simd(o,x,y[0],64u); %s_vec_simd<64>(o,slope_argument(x[0],x[1]),y);" % (f, f, f) for f in "plus minus times over min max less less_equal greater greater_equal equal notequal clip2".split()),
 "simd_ternary_arithmetic.hpp": "clip_vec(o,x,y[0],y[1],64u); clip_vec_simd(o,x,y,y,64u); muladd_vec_simd<64>(o,x,y,y[0]); muladd_vec(o,x,y,y,64u); ampmod_vec(o,x,y,y[0],64u); ampmod_vec_simd(o,x,y,y[0],64u);",
 "simd_mix.hpp": "mix_vec(o,x,x[0],y,y[0],64u); mix_vec_simd(o,x,x[0],y,y[0],64u); sum_vec(o,x,y,64u); sum_vec_simd(o,x,y,x,64u); sum_vec_simd<64>(o,x,y,x,y);",
 "simd_pan.hpp": "pan2_vec(o,p,x,x[0],x[1],64u); pan2_vec_simd(o,p,x,x[0],x[1],64u); pan2_vec(o,p,x,x[0],x[1],y[0],y[1],64u); pan2_vec_simd(o,p,x,x[0],x[1],y[0],y[1],64u); pan2_vec_simd<64>(o,p,x,x[0],x[1]);",
 "simd_math.hpp": "".join("%s_vec(o,x,64u); %s_vec_simd(o,x,64u); %s_vec_simd<64>(o,x);" % (f, f, f) for f in "sin cos tan asin acos atan tanh log log2 log10 exp signed_sqrt".split()) + "pow_vec(o,x,y,64u); pow_vec_simd(o,x,y[0],64u); spow_vec_simd<64>(o,x,y);",
 "simd_unit_conversion.hpp": "".join("%s_vec(o,x,64u); %s_vec_simd(o,x,64u); %s_vec_simd<64>(o,x);" % (f, f, f) for f in "midi2freq freq2midi midi2ratio ratio2midi oct2freq freq2oct amp2db db2amp".split()),
 "simd_horizontal_functions.hpp": "o[0] = horizontal_max_vec(x,64u)+horizontal_max_vec_simd(x,64u)+horizontal_min_vec(x,64u)+horizontal_min_vec_simd(x,64u)+horizontal_sum_vec(x,64u)+horizontal_sum_vec_simd(x,64u);",
 "simd_peakmeter.hpp": "o[0] = peak_vec(x,o+1,64u)+peak_vec_simd(x,o+1,64u); peak_rms_vec(x,o+1,o+2,64u); peak_rms_vec_simd(x,o+1,o+2,64u);",
 "softclip.hpp": "softclip_vec(o,x,64u); softclip_vec_simd(o,x,64u); softclip_vec_simd<64>(o,x);",
}
def leaked_macros(repo, out):
    """macros that files of the repository leave defined and that could be a client's own names: single letters and names that are not all upper case"""
    here = False; live = {}; root = os.path.realpath(repo) + os.sep
    for l in out.splitlines():
        m = re.match(r'# \d+ "(.*)"', l)
        if m: fn = os.path.realpath(m.group(1)); here = fn.startswith(root); continue
        m = re.match(r'#\s*(define|undef)\s+(\w+)', l)
        if not m: continue
        if m.group(1) == "undef": live.pop(m.group(2), None)
        elif here: live[m.group(2)] = os.path.relpath(fn, root)
    return [(n, f) for n, f in sorted(live.items()) if (len(n) == 1 or n != n.upper()) and not n.lower().startswith("nova") and not n.startswith("_")]
def explore(repo, bd, configs, cpu, thorough, src):
    V, S = [], []; st = tr = traces = 0; notes = []
    hdrs = [h for h in HDRS if os.path.exists(os.path.join(repo, h))]
    for h in HDRS:
        if h not in hdrs: V.append(dict(key="missing " + h, text="public header %s does not exist" % h))
    def cc(args): return subprocess.run(["g++", "-std=gnu++14", "-w", "-I", repo] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    use = [c for c in configs if not configs[c].get("extra") and all(f in cpu for f in configs[c]["need"])]
    pairs_in = use if thorough else [c for c in use if c in ("gen", "sse2", "avx")]
    jobs = []
    for c in use:
        for a in hdrs: jobs.append((c, (a, a)))
        if c in pairs_in: jobs += [(c, p) for p in itertools.permutations(hdrs, 2)]
    d = os.path.join(bd, "h"); os.makedirs(d)
    def one(j):
        c, p = j; f = os.path.join(d, "%s__%s__%s.cpp" % (c, p[0][:-4], p[1][:-4]))
        # the second header last, the first twice: self-contained, idempotent; client names that a leaked macro or using-directive would break
        open(f, "w").write('#include "%s"\n#include "%s"\n#include "%s"\n' % (p[0], p[1], p[0]) + CLIENT)
        r = cc(["-fsyntax-only"] + configs[c]["flags"].split() + [f])
        return j, r
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for (c, p), r in ex.map(one, jobs):
            st += 1; tr += 3
            if r.returncode:
                err = next((l for l in r.stdout.splitlines() if "error" in l), r.stdout[:300])
                V.append(dict(key="include %s %s %s" % (c, p[0], p[1]), text="including %s (%s) does not compile [%s]: %s" % (" then ".join(dict.fromkeys(p)), configs[c]["flags"], c, err[:300])))
        def pre(j):
            c, h = j; f = os.path.join(d, "pre_%s_%s.cpp" % (c, h[:-4])); open(f, "w").write('#include "%s"\n' % h); return c, cc(["-dD", "-E"] + configs[c]["flags"].split() + [f])
        for c, r in ex.map(pre, [(c, h) for c in use for h in hdrs]):
            st += 1; tr += 1
            for n, fn in (leaked_macros(repo, r.stdout) if r.returncode == 0 else []): V.append(dict(key="macro " + n, text="%s leaves the macro %s defined: a client's own '%s' is rewritten [%s]" % (fn, n, n, c)))
        def use1(j):
            c, h = j; f = os.path.join(d, "use_%s_%s.cpp" % (c, h[:-4])); ty = ["float"] if (c, h) == ("sse", "softclip.hpp") else ["float", "double"]
            open(f, "w").write('#include "%s"\nusing namespace nova;\ntemplate <class T> void use(T* o, T* p, const T* x, const T* y) { %s }\n' % (h, USES[h]) + "".join("template void use<%s>(%s*, %s*, const %s*, const %s*);\n" % (t, t, t, t, t) for t in ty)); return j, cc(["-S", "-o", "/dev/null"] + configs[c]["flags"].split() + ["-O0", f])
        for (c, h), r in ex.map(use1, [(c, h) for c in use for h in hdrs if h in USES]):
            st += 1; tr += 1
            if r.returncode:
                err = next((l for l in r.stdout.splitlines() if "error" in l), r.stdout[:300])
                V.append(dict(key="use %s %s" % (c, h), text="a client that includes only %s cannot use its functions (%s) [%s]: %s" % (h, configs[c]["flags"], c, err[:300])))
        S.append("all %d ordered pairs of %d headers in %s; every header alone and twice in %s" % (len(hdrs) * (len(hdrs) - 1), len(hdrs), ",".join(pairs_in), ",".join(use)))
        if V: return dict(complete=True, states=st, transitions=tr, traces=traces, extra={}, worst={}, samples=S, violations=V[:40], nviol=len(V)), notes
        # programs: one translation unit per (first header, direction); linked together and separately
        def tu(j):
            c, i, order = j; f = os.path.join(d, "tu_%s_%d.cpp" % (c, i))
            sc = "" if c == "sse" else "U(softclip)"         # softclip on double needs SSE2 in SSE builds
            open(f, "w").write("".join('#include "%s"\n' % h for h in order) + (BATTERY % i).replace("SOFTCLIP", sc))
            o = f[:-4] + ".o"; fl = configs[c]["flags"].split() + ["-ffp-contract=off"] + ([] if thorough else ["-O0"]) + (["-DNDEBUG"] if i % 2 and "-DNDEBUG" not in configs[c]["flags"] else [])
            return j, o, cc(["-c", "-o", o] + fl + [f])
        tus = []
        for c in use:
            n = 0
            for k, h in enumerate(hdrs):
                rest = [x for x in hdrs if x != h]
                for rev in ((0, 1) if thorough else (k % 2,)): tus.append((c, n, [h] + (rest[::-1] if rev else rest))); n += 1
        objs = {}
        for (c, i, order), o, r in ex.map(tu, tus):
            st += 1
            if r.returncode:
                err = next((l for l in r.stdout.splitlines() if "error" in l), r.stdout[:300]); V.append(dict(key="unit %s %s" % (c, order[0]), text="translation unit including %s first does not compile [%s]: %s" % (order[0], c, err[:300])))
            else: objs.setdefault(c, []).append((i, order, o))
        if V: return dict(complete=True, states=st, transitions=tr, traces=traces, extra={}, worst={}, samples=S, violations=V[:40], nviol=len(V)), notes
        def prog(j):
            c, sel = j; tag = "%s_%s" % (c, "all" if len(sel) > 1 else sel[0][0]); m = os.path.join(d, "main_%s.cpp" % tag)
            open(m, "w").write("#include <cstdio>\n" + "".join("unsigned long long digest_%d();\n" % s[0] for s in sel) + "int main() {\n" + "".join('printf("%d %%llx\\n", digest_%d());\n' % (s[0], s[0]) for s in sel) + "}\n")
            e = os.path.join(d, "prog_" + tag); r = cc(["-o", e, m] + [s[2] for s in sel])
            if r.returncode: return j, "link", r.stdout
            try: q = subprocess.run([e], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            except subprocess.TimeoutExpired: return j, "run", "timeout"
            return j, ("ok" if q.returncode == 0 else "run"), q.stdout if q.returncode == 0 else "exit %d" % q.returncode
        pj = [(c, objs[c]) for c in objs] + [(c, [s]) for c in objs for s in objs[c]]
        ref = {}
        for (c, sel), what, out in ex.map(prog, pj):
            st += 1; tr += len(sel); traces += 1; who = "all %d translation units" % len(sel) if len(sel) > 1 else "the unit including %s first" % sel[0][1][0]
            if what == "link":
                err = next((l for l in out.splitlines() if "multiple definition" in l or "undefined" in l), out[:300]); V.append(dict(key="link %s %s" % (c, who), text="a program of %s does not link [%s]: %s" % (who, c, err[-300:]))); continue
            if what == "run": V.append(dict(key="run %s %s" % (c, who), text="a program of %s fails [%s]: %s" % (who, c, out))); continue
            for l in out.split("\n"):
                if not l: continue
                i, h = l.split()
                if ref.setdefault(c, h) != h: V.append(dict(key="digest %s %s" % (c, i), text="results depend on inclusion order or on the other translation units [%s]: unit %s (%s)" % (c, i, who)))
        S.append("programs of %d translation units (one per first header, alternating NDEBUG), linked together and separately, in %s" % (len(tus) // max(1, len(use)), ",".join(use)))
    return dict(complete=True, states=st, transitions=tr, traces=traces, configurations=use, extra=dict(programs=len(pj), units=len(tus), inclusion_orders=len(jobs)), worst={}, samples=S, violations=V[:40], nviol=len(V)), notes
