// native side of the harness interface: concrete values from a file, checks on the real build
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <dlfcn.h>
// all static data of the replay program itself
static struct Own {
    std::map<std::string, double> vals;
    std::map<std::string, int> seen;
    int fails = 0;
    bool verbose = false;
    int quiet = 1;          // allocations of the replay program itself do not count
    long heap = 0;
} own;
#define vals own.vals
#define seen own.seen
#define fails own.fails
#define verbose own.verbose
#define quiet own.quiet
#define heap own.heap
struct Q { Q() { quiet++; } ~Q() { quiet--; } };
static double get(const char* n) {
    std::string k(n);
    auto it = vals.find(k);
    if (it == vals.end()) { printf("MISSING %s\n", n); exit(3); }
    return it->second;
}
static std::string uniq(const char* n) { // the k-th request of the same name is called name#k
    int k = ++seen[n];
    return k == 1 ? std::string(n) : std::string(n) + "#" + std::to_string(k);
}
#define GET(n) get(uniq(n).c_str())
extern "C" {
// values outside the declared range are no counterexample
static double inside(double v, double lo, double hi, bool slo, bool shi) {
    if (v < lo || v > hi || (slo && v == lo) || (shi && v == hi)) { printf("RANGE\n"); exit(4); }
    return v;
}
double vs_real(const char* n, double lo, double hi, int s) { Q q_; double v = GET(n); return lo == hi ? v : inside(v, lo, hi, s & 1, s & 2); }
double vs_freq(const char* n, int, double lo, double hi) { Q q_; return inside(GET(n), lo, hi, true, true); }
double vs_db(const char* n, int, double lo, double hi) { Q q_; return inside(GET(n), lo, hi, false, false); }
int vs_int(const char* n, int lo, int hi) { Q q_; return (int)inside(GET(n), lo, hi, false, false); }
int vs_choice(const char* n, int k) { Q q_; return (int)inside(GET(n), 0, k - 1, false, false); }
int vs_p(const char* n) { Q q_; return (int)get(n); }
double vs_pd(const char* n) { Q q_; return get(n); }
void vs_assume(int c) { Q q_; if (!c) { printf("ASSUME-FALSE\n"); exit(4); } }
void vs_check(const char* l, int c) { Q q_;
    if (verbose) printf("CHECK %s %d\n", l, c);
    if (!c) { fails++; printf("FAIL %s\n", l); }
}
void vs_eq(const char* l, double a, double b, double tol) { Q q_;
    if (verbose) printf("EQ %s %.17g %.17g\n", l, a, b);
    double d = std::fabs(a - b);
    double lim = tol > 0 ? tol * (1 + 1e-9) + 1e-13 * (std::fabs(a) + std::fabs(b)) : vals.count("vs_tight") ? 1e-12 * (std::fabs(a) + std::fabs(b)) + 1e-14 : 1e-9 * (1 + std::fabs(a) + std::fabs(b));
    bool ok = (a == b) || (a != a && b != b) || d <= lim;
    if (!ok) { fails++; printf("FAIL %s: %.17g vs %.17g (tolerance %g)\n", l, a, b, lim); }
}
void vs_eqr(const char* l, double a, double b, double scale) { Q q_;
    if (verbose) printf("EQ %s %.17g %.17g\n", l, a, b);
    double d = std::fabs(a - b);
    bool ok = (a == b) || (a != a && b != b) || d <= 1e-9 * (std::fabs(scale) + std::fabs(a) + std::fabs(b)) + 1e-300;
    if (!ok) { fails++; printf("FAIL %s: %.17g vs %.17g (scale %g)\n", l, a, b, scale); }
}
void vs_le(const char* l, double a, double b) { Q q_;
    if (verbose) printf("LE %s %.17g %.17g\n", l, a, b);
    if (!(a <= b + 1e-13 * (std::fabs(a) + std::fabs(b)))) { fails++; printf("FAIL %s: %.17g <= %.17g\n", l, a, b); }
}
void vs_lt(const char* l, double a, double b) { Q q_;
    if (verbose) printf("LT %s %.17g %.17g\n", l, a, b);
    if (!(a < b + (vals.count("vs_strict") ? 0 : 1e-13 * (std::fabs(a) + std::fabs(b))))) { fails++; printf("FAIL %s: %.17g < %.17g\n", l, a, b); }
}
void vs_reach(const char* l) { Q q_; printf("REACH %s\n", l); }
void vs_poison(void* p, unsigned long n) { Q q_; memset(p, 0xA5, n); }
extern "C" char __data_start, _end;
#ifdef __SANITIZE_ADDRESS__
long vs_globals(void) { return 0; }
#else
__attribute__((no_sanitize("memory"))) long vs_globals(void) {
    unsigned long h = 1469598103934665603UL;
    for (const char* p = &__data_start; p < &_end; p++) {
        if (p >= (const char*)&own && p < (const char*)(&own + 1)) continue;
        h = (h ^ (unsigned char)*p) * 1099511628211UL;
    }
    return (long)(h >> 1);
}
#endif
long vs_heap_mark(void) { return heap; }
void vs_obj(const void*, unsigned long, const char*) { Q q_;}
}
#ifndef VS_NO_NEW
extern "C" void* __libc_malloc(std::size_t);
extern "C" void* malloc(std::size_t n) { if (!quiet) heap++; return __libc_malloc(n); }
void* operator new(std::size_t n) { if (!quiet) heap++; return __libc_malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
#endif
int main(int argc, char** argv) {
    // vs_native CASE VALUES [-v]
    setvbuf(stdout, 0, _IOLBF, 0);
    if (argc > 3) verbose = true;
    FILE* f = fopen(argv[2], "r");
    char name[256], v[256];
    while (f && fscanf(f, "%255s %255s", name, v) == 2 && name[0] != '#') vals[name] = strtod(v, 0);
    if (f) fclose(f);
    void* h = dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { printf("no case %s\n", argv[1]); return 3; }
    quiet = 0;
    ((void (*)())h)();
    quiet = 1;
    printf("DONE fails=%d\n", fails);
    return fails ? 1 : 0;
}
