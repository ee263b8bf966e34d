// Calling convention between the configuration-specific kernel libraries (compiled from /repo's
// headers with the flags of one instruction set) and the configuration-independent checkers.
#ifndef KERN_API_H
#define KERN_API_H
struct KArg { const void* p; double s, d; };          // buffer / constant (ramp start) / ramp slope
typedef void (*kfn)(void* out0, void* out1, const KArg* a, unsigned n);
struct Kernel {
    const char* op;      // e.g. "plus"
    const char* form;    // "scal", "simd", "fix"
    const char* kinds;   // one letter per operand: v buffer, s constant, r ramp; capitals: explicit wrapper
    unsigned fixed;      // compile-time length of "fix" forms, else 0
    kfn fn;
};
struct KernelTable { const Kernel* k; int n; int vecsize; int per_loop; };
#define KEXPORT extern "C" __attribute__((visibility("default")))
#endif
