// Perturbed schedules: the harness's own pthread_mutex_lock & co. give way at generated moments before calling the real ones.
#ifndef sched_h
#define sched_h
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>

namespace schedule {
inline std::atomic<uint64_t> seed{0};      // 0: no perturbation
inline std::atomic<unsigned> percent{0}, ordinal{0}, generation{0};
inline thread_local uint64_t state = 0;
inline thread_local unsigned mine = 0;
inline thread_local unsigned own = 0;
// some threads run freely, some give way now and then, some crawl
inline unsigned profile() {
    uint64_t p = percent.load(std::memory_order_relaxed);
    switch ((state >> 40) % 4) { case 0: return 0; case 1: return unsigned(p); case 2: return unsigned(p / 3 + 1); default: return unsigned(50 + p / 2); }
}
inline void point() {
    uint64_t s = seed.load(std::memory_order_relaxed);
    if (!s) return;
    unsigned g = generation.load(std::memory_order_relaxed);
    if (mine != g) { mine = g; state = s * 0x9E3779B97F4A7C15ull + ordinal++ * 0xD1B54A32D192ED03ull + 1; own = profile(); }
    state ^= state << 13; state ^= state >> 7; state ^= state << 17;
    if (state % 100 >= own) return;
    unsigned k = (state >> 32) % 16;
    if (k < 9) ::sched_yield();
    else ::usleep(k < 14 ? 20 : 300);
}
inline void on(uint64_t s, unsigned p) { ordinal = 0; generation++; percent = p; seed = s | 1; }
inline void off() { seed = 0; }
}  // namespace schedule

#define SCHED_WRAP(ret, name, decl, call)                                              \
    extern "C" ret name decl {                                                          \
        static ret(*real) decl = reinterpret_cast<ret(*) decl>(::dlsym(RTLD_NEXT, #name)); \
        schedule::point();                                                              \
        ret r = real call;                                                              \
        schedule::point();                                                              \
        return r;                                                                       \
    }
SCHED_WRAP(int, pthread_mutex_lock, (pthread_mutex_t * m) noexcept, (m))
SCHED_WRAP(int, pthread_mutex_unlock, (pthread_mutex_t * m) noexcept, (m))
SCHED_WRAP(int, pthread_cond_signal, (pthread_cond_t * c) noexcept, (c))
SCHED_WRAP(int, pthread_cond_broadcast, (pthread_cond_t * c) noexcept, (c))
#endif
