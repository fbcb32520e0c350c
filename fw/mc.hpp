/* Stateless model checker core: a harness body makes all its nondeterministic
 * decisions through choose(); the explorer re-executes the body for every
 * feasible sequence of choices (depth-first, exhaustive).  Every execution
 * runs the real amino code; the harness compares it with a reference model
 * after each step.  See DESIGN.md, "Framework". */
#ifndef MC_HPP
#define MC_HPP
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <vector>
#include <initializer_list>
#include <string>
#include <array>
#include <algorithm>
#include <functional>

namespace mc {

/* ---- choices ---- */
int choose(int n, const char *label = "");
/* put right after the choices that should partition the work over processes */
void split();
/* prune this execution (case outside the space) */
[[noreturn]] void skip();

/* ---- accounting ---- */
void step(unsigned n = 1);        /* one operation applied to the implementation */
void state(uint64_t h);           /* a reached state (hash) */
void nontrivial(uint64_t h);      /* count a distinct non-trivial case */

/* ---- reporting ---- */
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf,1,2)));
void note(const char *fmt, ...) __attribute__((format(printf,1,2)));
bool verbose();
/* true if `key` is listed in known_findings for this property; records it. */
bool known(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3)));
bool thorough();
int seed();

struct Space { const char *name; void (*body)(); };
int run(int argc, char **argv, const char *property, const std::vector<Space> &spaces);

/* scratch directory unique to this process, removed at exit */
const char *scratch();

/* ---- hashing ---- */
struct Hash {
    uint64_t h = 1469598103934665603ULL;
    Hash &bytes(const void *p, size_t n) {
        const unsigned char *c = (const unsigned char*)p;
        for( size_t i = 0; i < n; i ++ ) { h ^= c[i]; h *= 1099511628211ULL; }
        return *this;
    }
    template<class T> Hash &operator()(const T &x) { return bytes(&x, sizeof(x)); }
    Hash &str(const std::string &s) { return bytes(s.data(), s.size()+0)(s.size()); }
    operator uint64_t() const { return h ^ (h>>29); }
};

template<class T, size_t N> const T &pick(const T (&a)[N], const char *label="") { return a[choose((int)N,label)]; }
template<class T> const T &pick(const std::vector<T> &a, const char *label="") { return a[choose((int)a.size(),label)]; }

template<class T> T pick(std::initializer_list<T> l, const char *label="") { return *(l.begin()+choose((int)l.size(),label)); }

/* ---- guarded buffers: a buffer of n doubles filled with canaries ---- */
struct Buf {
    std::vector<double> v; std::vector<double> orig;
    static double canary(size_t i) { return 7777.125 + (double)i; }
    explicit Buf(size_t n=0) { reset(n); }
    void reset(size_t n) { v.resize(n); for(size_t i=0;i<n;i++) v[i]=canary(i); orig=v; }
    double *p() { return v.data(); }
    double &operator[](size_t i){ return v[i]; }
    void snap() { orig = v; }
};
inline bool approx(double a, double b, double tol=1e-9) {
    if( std::isnan(a) || std::isnan(b) ) return std::isnan(a) && std::isnan(b);
    if( std::isinf(a) || std::isinf(b) ) return a == b;
    return std::fabs(a-b) <= tol * std::max(1.0, std::max(std::fabs(a),std::fabs(b)));
}
} // namespace mc

#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define CHECK(c, ...) do { if( !(c) ) { mc::fail(__VA_ARGS__); } } while(0)
#define REQUIRE(c) do { if( !(c) ) { mc::fail("line %d: requirement not met: %s", __LINE__, #c); } } while(0)
#define NEAR(a,b,tol,...) do { double a_=(a), b_=(b); if( !mc::approx(a_,b_,tol) ) { \
      char mm_[512]; snprintf(mm_,sizeof(mm_),__VA_ARGS__); \
      mc::fail("%s: got %.17g, expected %.17g (line %d)", mm_, a_, b_, __LINE__); } } while(0)
#endif
