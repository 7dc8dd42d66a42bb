// A stand-in for the OpenMP run time, compiled with -fsanitize=thread like everything else, so that the
// synchronisation of parallel loops is visible to the race detector. It starts fresh threads for each
// parallel region and delays them at random (VERIF_SEED) where they enter critical sections.
#include <atomic>
#include <condition_variable>
#include <cstdlib>
#include <map>
#include <mutex>
#include <random>
#include <thread>
#include <vector>
#include <sched.h>
#include <unistd.h>

namespace {
struct Loop {
    long start = 0, end = 0, incr = 1, chunk = 1, next = 0;
    bool ready = false;
    int left = 0;
};
struct Team {
    int n = 1;
    std::mutex m;
    std::condition_variable cv;
    int waiting = 0;
    unsigned long generation = 0;
    std::map<unsigned, Loop> loops;
    std::map<unsigned, bool> singles;
    void barrier() {
        std::unique_lock<std::mutex> l(m);
        auto g = generation;
        if (++waiting == n) {
            waiting = 0;
            ++generation;
            cv.notify_all();
        } else {
            cv.wait(l, [&] { return g != generation; });
        }
    }
};
thread_local Team *team = nullptr;
thread_local int me = 0;
thread_local unsigned loops_seen = 0, singles_seen = 0;
thread_local std::mt19937 rnd;
int wanted = 0;
std::atomic<long> regions{0};

int threads() {
    if (wanted > 0) return wanted;
    if (char const *e = std::getenv("OMP_NUM_THREADS")) {
        int n = std::atoi(e);
        if (n > 0) return n;
    }
    return 4;
}
void delay() {
    switch (rnd() % 6) {
    case 0: ::sched_yield(); break;
    case 1: ::usleep(rnd() % 300); break;
    case 2: for (int k = rnd() % 4; k > 0; --k) ::sched_yield(); break;
    case 3: if (rnd() % 10 == 0) ::usleep(rnd() % 20000); break;
    default: break;
    }
}
Team alone;
Team &here() { return team ? *team : alone; }
void run(void (*f)(void *), void *d, Team *t, int id, unsigned seed) {
    Team *t0 = team;
    int me0 = me;
    unsigned l0 = loops_seen, s0 = singles_seen;
    team = t, me = id, loops_seen = singles_seen = 0;
    rnd.seed(seed * 7919u + id);
    delay();
    f(d);
    team = t0, me = me0, loops_seen = l0, singles_seen = s0;
}
bool take(Loop &l, long *s, long *e) {
    long n = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.end - l.next + l.incr + 1) / l.incr;
    if (n <= 0) return false;
    long k = l.chunk < n ? l.chunk : n;
    *s = l.next;
    *e = l.next += k * l.incr;
    return true;
}
bool loop_next(long *s, long *e) {
    auto &t = here();
    delay();
    std::lock_guard<std::mutex> g(t.m);
    return take(t.loops[loops_seen], s, e);
}
bool loop_start(long start, long end, long incr, long chunk, long *s, long *e) {
    auto &t = here();
    ++loops_seen;
    {
        std::lock_guard<std::mutex> g(t.m);
        auto &l = t.loops[loops_seen];
        if (!l.ready) {
            l.start = l.next = start, l.end = end, l.incr = incr, l.chunk = chunk > 0 ? chunk : 1, l.ready = true;
        }
    }
    return loop_next(s, e);
}
} // namespace

extern "C" {
int omp_get_thread_num() { return team ? me : 0; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return threads(); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_num_threads(int n) { wanted = n; }
void omp_set_dynamic(int) {}
int omp_get_level() { return team ? 1 : 0; }

void GOMP_parallel(void (*f)(void *), void *d, unsigned n, unsigned) {
    if (team) n = 1; // no nested parallelism, as by default
    if (n == 0) n = threads();
    Team t;
    t.n = n;
    char const *sd = std::getenv("VERIF_SEED");
    unsigned seed = (sd ? std::atoi(sd) : 1) * 1000u + ++regions;
    if (char const *x = std::getenv("VERIF_SCHEDULE")) seed += 100003u * std::atoi(x);
    std::vector<std::thread> v;
    for (unsigned i = 1; i < n; ++i) v.emplace_back(run, f, d, &t, static_cast<int>(i), seed);
    run(f, d, &t, 0, seed);
    for (auto &x : v) x.join();
}
static std::mutex anonymous;
// Finding the lock of a critical section must not synchronise the threads, which would hide races.
static std::mutex locks[64];
static std::atomic<void **> owners[64];
static std::mutex &named(void **p) {
    for (int i = 0; i < 64; ++i) {
        void **o = owners[i].load(std::memory_order_relaxed);
        if (o == p) return locks[i];
        if (o == nullptr) {
            if (owners[i].compare_exchange_strong(o, p, std::memory_order_relaxed) || o == p) return locks[i];
        }
    }
    std::abort();
}
void GOMP_critical_start() { delay(); anonymous.lock(); }
void GOMP_critical_end() { anonymous.unlock(); }
void GOMP_critical_name_start(void **p) { delay(); named(p).lock(); }
void GOMP_critical_name_end(void **p) { named(p).unlock(); delay(); }
void GOMP_atomic_start() { anonymous.lock(); }
void GOMP_atomic_end() { anonymous.unlock(); }
void GOMP_barrier() { here().barrier(); }
bool GOMP_single_start() {
    auto &t = here();
    ++singles_seen;
    std::lock_guard<std::mutex> g(t.m);
    bool &b = t.singles[singles_seen];
    bool first = !b;
    b = true;
    return first;
}
#define LOOP(kind)                                                                                                                    \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); }           \
    bool GOMP_loop_##kind##_next(long *s, long *e) { return loop_next(s, e); }                                                         \
    void GOMP_parallel_loop_##kind(void (*f)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned flags);
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e); }
void GOMP_loop_end() { here().barrier(); }
void GOMP_loop_end_nowait() {}
static void with_loop(void (*f)(void *), void *d, unsigned n, long a, long b, long i, long c) {
    if (team) n = 1;
    if (n == 0) n = threads();
    Team t;
    t.n = n;
    Loop l;
    l.start = l.next = a, l.end = b, l.incr = i, l.chunk = c > 0 ? c : 1, l.ready = true;
    t.loops[0] = l;
    unsigned seed = 31337u + ++regions;
    std::vector<std::thread> v;
    for (unsigned k = 1; k < n; ++k) v.emplace_back(run, f, d, &t, static_cast<int>(k), seed);
    run(f, d, &t, 0, seed);
    for (auto &x : v) x.join();
}
#define PLOOP(kind)                                                                                                                   \
    void GOMP_parallel_loop_##kind(void (*f)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) {                 \
        with_loop(f, d, n, a, b, i, c);                                                                                               \
    }
PLOOP(static)
PLOOP(dynamic)
PLOOP(guided)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*f)(void *), void *d, unsigned n, long a, long b, long i, unsigned) { with_loop(f, d, n, a, b, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*f)(void *), void *d, unsigned n, long a, long b, long i, unsigned) {
    with_loop(f, d, n, a, b, i, 1);
}
}
