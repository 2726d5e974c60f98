// Runtime of the instrumented core: concrete doubles are computed natively, NaN-boxed symbolic doubles are sent to the engine.
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <thread>
#include <unistd.h>
typedef uint64_t u64;
typedef u64 (*bin_t)(int, u64, u64);
typedef int (*cmp_t)(int, u64, u64);
typedef int64_t (*int_t)(int, u64);
typedef u64 (*rnd_t)(void);
typedef u64 (*rni_t)(u64, u64);
static bin_t g_bin; static cmp_t g_cmp; static int_t g_int; static rnd_t g_r01; static rni_t g_rint;
static unsigned g_threads = 4;
static unsigned long g_inline_threads = 0;
extern "C" {
__attribute__((visibility("default"))) void sym_set_callbacks(bin_t a, cmp_t b, int_t c, rnd_t d, rni_t e) { g_bin = a; g_cmp = b; g_int = c; g_r01 = d; g_rint = e; }
__attribute__((visibility("default"))) unsigned long sym_inline_threads() { return g_inline_threads; }
}
static inline u64 B(double x) { u64 b; memcpy(&b, &x, 8); return b; }
static inline double D(u64 b) { double x; memcpy(&x, &b, 8); return x; }
static inline bool S(double x) { return (B(x) >> 48) == 0x7FFA; }
#define BIN(name, code, expr) extern "C" double __sym_##name(double a, double b) { if (__builtin_expect(!(S(a) | S(b)), 1)) return expr; return D(g_bin(code, B(a), B(b))); }
BIN(fadd, 0, a + b) BIN(fsub, 1, a - b) BIN(fmul, 2, a * b) BIN(fdiv, 3, a / b) BIN(frem, 4, fmod(a, b)) BIN(pow, 5, pow(a, b))
BIN(fmax, 6, fmax(a, b)) BIN(fmin, 7, fmin(a, b)) BIN(fmod, 4, fmod(a, b)) BIN(hypot, 8, hypot(a, b)) BIN(copysign, 9, copysign(a, b))
#define UN(name, code, expr) extern "C" double __sym_##name(double a) { if (__builtin_expect(!S(a), 1)) return expr; return D(g_bin(code, B(a), 0)); }
UN(fneg, 20, -a) UN(sqrt, 21, sqrt(a)) UN(fabs, 22, fabs(a)) UN(floor, 23, floor(a)) UN(ceil, 24, ceil(a)) UN(exp, 25, exp(a)) UN(expm1, 26, expm1(a))
UN(log, 27, log(a)) UN(sin, 28, sin(a)) UN(cos, 29, cos(a)) UN(tanh, 30, tanh(a)) UN(erfc, 31, erfc(a)) UN(atan, 32, atan(a)) UN(log2, 33, log2(a)) UN(round, 34, round(a)) UN(trunc, 35, trunc(a)) UN(cbrt, 36, cbrt(a))
#define CMP(name, code, expr) extern "C" bool __sym_fcmp_##name(double a, double b) { if (__builtin_expect(!(S(a) | S(b)), 1)) return expr; return g_cmp(code, B(a), B(b)) != 0; }
CMP(olt, 0, a < b) CMP(ole, 1, a <= b) CMP(ogt, 2, a > b) CMP(oge, 3, a >= b) CMP(oeq, 4, a == b) CMP(one, 5, (a < b) || (a > b))
CMP(ult, 6, !(a >= b)) CMP(ule, 7, !(a > b)) CMP(ugt, 8, !(a <= b)) CMP(uge, 9, !(a < b)) CMP(ueq, 10, !((a < b) || (a > b))) CMP(une, 11, a != b)
CMP(uno, 12, std::isnan(a) || std::isnan(b)) CMP(ord, 13, !(std::isnan(a) || std::isnan(b)))
extern "C" int64_t __sym_fptosi(double a) { if (!S(a)) return (int64_t) a; return g_int(0, B(a)); }
extern "C" u64 __sym_fptoui(double a) { if (!S(a)) return (u64) a; return (u64) g_int(1, B(a)); }
// streams of the random generators: what a generator was seeded with and how many values were drawn since then
struct sym_stream_t { u64 seed; u64 drawn; };
static std::map<void *, sym_stream_t> & g_streams() { static std::map<void *, sym_stream_t> m; return m; }
static std::mutex g_streams_lock;
static u64 g_drawn[3];
static void sym_draw(void * g) {
    std::lock_guard<std::mutex> l(g_streams_lock);
    auto it = g_streams().find(g);
    g_drawn[0] = it != g_streams().end();
    if (g_drawn[0]) { g_drawn[1] = it->second.seed; g_drawn[2] = it->second.drawn++; }
}
extern "C" void __sym_seed(void * g, u64 s) { std::lock_guard<std::mutex> l(g_streams_lock); g_streams()[g] = sym_stream_t { s, 0 }; }
extern "C" __attribute__((visibility("default"))) u64 * sym_stream() { return g_drawn; }
extern "C" double __sym_rand01(void * g) { sym_draw(g); if (g_r01) return D(g_r01()); return drand48(); }
extern "C" u64 __sym_randint(void * dist, void * g) { sym_draw(g); u64 * p = (u64 *) dist; return g_rint ? g_rint(p[0], p[1]) : p[0]; }
extern "C" int __sym_randint32(void * dist, void * g) { sym_draw(g); int * p = (int *) dist; return g_rint ? (int) (int64_t) g_rint((u64) (int64_t) p[0], (u64) (int64_t) p[1]) : p[0]; }
// threads run inline: at their creation (the default), or - if the schedule is part of the inputs - at a point between their creation and their join
// (the partition of the work stays that of the real code; a task is not interrupted by another one)
#ifdef SYM_INLINE_THREADS
#include <functional>
#include <memory>
// 0: at creation; 1: at join; 2: the last created task first; 3: every second task at join; -1: every choice is made by the engine
static int g_policy = 0;
static unsigned long g_created = 0;
static std::map<unsigned long, std::function<void()>> g_deferred;
extern "C" __attribute__((visibility("default"))) void sym_sched(int p) { g_policy = p; g_created = 0; g_deferred.clear(); }
static void run_deferred(unsigned long k) {
    auto it = g_deferred.find(k);
    if (it == g_deferred.end()) return;
    auto p = std::move(it->second);
    g_deferred.erase(it);
    p();
}
namespace std {
void thread::_M_start_thread(_State_ptr p, void (*)()) {
    g_inline_threads++;
    unsigned long k = ++g_created;
    _M_id = id((pthread_t) k);
    bool later = g_policy == 1 || g_policy == 2 || (g_policy == 3 && k % 2) || (g_policy == -1 && g_rint && g_rint(0, 1));
    if (later) { std::shared_ptr<_State> s(p.release()); g_deferred[k] = [s]() { s->_M_run(); }; }
    else p->_M_run();
}
void thread::join() {
    unsigned long k;
    memcpy(&k, &_M_id, sizeof(k));
    if (g_deferred.count(k)) {
        bool others = g_policy == 2 || (g_policy == -1 && g_deferred.size() > 1 && g_rint && g_rint(0, 1));
        while (others && !g_deferred.empty() && g_deferred.rbegin()->first > k) run_deferred(g_deferred.rbegin()->first);
        run_deferred(k);
    }
    _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { const char * s = getenv("SYM_THREADS"); return s ? (unsigned) atoi(s) : g_threads; }
}
#endif
