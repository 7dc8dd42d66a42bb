// The backend executable with injected faults. This file is linked to the unchanged main.cpp; it stands in front of the
// functions of the C library through which files are changed. VERIF_FAULT=mode:k acts on the k-th change of a file below
// VERIF_FAULT_DIR:  kill: the process dies before it;  torn: half of the data is written, then the process dies;
// fail: it fails with ENOSPC;  full: it and all later ones fail;  short: only half of the data is written.
// The number of changes is appended to VERIF_FAULT_LOG.
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
struct Fault {
    std::string mode, dir;
    long at = -1;
    std::atomic<long> count{0};
    std::atomic<bool> mine[4096];
    bool on = false;
    Fault() {
        for (auto &m : mine) m = false;
        if (char const *d = std::getenv("VERIF_FAULT_DIR")) dir = d, on = true;
        if (char const *f = std::getenv("VERIF_FAULT")) {
            std::string s = f;
            auto p = s.find(':');
            mode = s.substr(0, p);
            at = p == std::string::npos ? -1 : std::atol(s.c_str() + p + 1);
        }
    }
    ~Fault() {
        if (char const *l = std::getenv("VERIF_FAULT_LOG")) {
            on = false;
            if (FILE *f = std::fopen(l, "a")) {
                std::fprintf(f, "%ld\n", count.load());
                std::fclose(f);
            }
        }
    }
};
Fault &fault() {
    static Fault f;
    return f;
}
[[gnu::constructor]] void start() { fault(); }
bool under(char const *p) {
    auto &f = fault();
    return f.on && p && !f.dir.empty() && std::strncmp(p, f.dir.c_str(), f.dir.size()) == 0;
}
std::string pathof(int fd) {
    static bool traced = std::getenv("VERIF_FAULT_TRACE") != nullptr;
    if (!traced) return "";
    char b[500], l[64];
    std::snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = ::readlink(l, b, sizeof b);
    return n > 0 ? std::string(b, n) : "";
}
bool owned(int fd) { return fault().on && fd >= 0 && fd < 4096 && fault().mine[fd]; }
enum What { GO, FAIL, HALF, HALFDIE };
What change(char const *what = "", char const *path = "") {
    auto &f = fault();
    long k = ++f.count;
    static char const *trace = std::getenv("VERIF_FAULT_TRACE");
    if (trace) {
        static int fd = ::syscall(SYS_open, trace, O_WRONLY | O_CREAT | O_APPEND, 0600);
        char b[600];
        int n = std::snprintf(b, sizeof b, "%ld %s %s\n", k, what, path);
        if (::syscall(SYS_write, fd, b, n) != n) ::abort();
    }
    if (f.at < 0 || k < f.at || (k > f.at && f.mode != "full")) return GO;
    if (f.mode == "kill") { ::kill(::getpid(), SIGKILL); for (;;) ::pause(); }
    if (f.mode == "torn") return HALFDIE;
    if (f.mode == "short") return HALF;
    if (f.mode == "fail" || f.mode == "full") { errno = ENOSPC; return FAIL; }
    return GO;
}
[[noreturn]] void die() { ::kill(::getpid(), SIGKILL); for (;;) ::pause(); }
template <class F>
F next(char const *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
} // namespace

#define NEXT(name) static auto real = next<decltype(&::name)>(#name)

extern "C" {
static int do_open(char const *n, int (*real)(char const *, int, ...), char const *p, int flags, mode_t m) {
    if (under(p) && (flags & O_CREAT) && ::access(p, F_OK) != 0) {
        What w = change("create", p);
        if (w == FAIL) return -1;
        if (w == HALFDIE) { real(p, flags, m); die(); }
    }
    int fd = real(p, flags, m);
    if (fd >= 0 && fd < 4096) fault().mine[fd] = under(p);
    (void)n;
    return fd;
}
int open(char const *p, int flags, ...) {
    static auto real = next<int (*)(char const *, int, ...)>("open");
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return do_open("open", real, p, flags, m);
}
int open64(char const *p, int flags, ...) {
    static auto real = next<int (*)(char const *, int, ...)>("open64");
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return do_open("open64", real, p, flags, m);
}
static FILE *do_fopen(FILE *(*real)(char const *, char const *), char const *p, char const *m) {
    if (under(p) && (*m == 'w' || *m == 'a')) {
        What w = change("fopen", p);
        if (w == FAIL) return nullptr;
        if (w == HALFDIE) { real(p, m); die(); }
    }
    FILE *f = real(p, m);
    if (f) { int fd = ::fileno(f); if (fd >= 0 && fd < 4096) fault().mine[fd] = under(p); }
    return f;
}
FILE *fopen(char const *p, char const *m) {
    static auto real = next<FILE *(*)(char const *, char const *)>("fopen");
    return do_fopen(real, p, m);
}
FILE *fopen64(char const *p, char const *m) {
    static auto real = next<FILE *(*)(char const *, char const *)>("fopen64");
    return do_fopen(real, p, m);
}
ssize_t write(int fd, void const *b, size_t n) {
    static auto real = next<ssize_t (*)(int, void const *, size_t)>("write");
    if (owned(fd)) {
        What w = change("write", pathof(fd).c_str());
        if (w == FAIL) return -1;
        if (w == HALF) return real(fd, b, n - n / 2);
        if (w == HALFDIE) { real(fd, b, n / 2); die(); }
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, struct iovec const *v, int k) {
    static auto real = next<ssize_t (*)(int, struct iovec const *, int)>("writev");
    if (owned(fd)) {
        What w = change("write", pathof(fd).c_str());
        if (w == FAIL) return -1;
        if (w == HALFDIE) { real(fd, v, k > 1 ? 1 : k); die(); }
    }
    return real(fd, v, k);
}
static ssize_t do_pwrite(ssize_t (*real)(int, void const *, size_t, off64_t), int fd, void const *b, size_t n, off64_t o) {
    if (owned(fd)) {
        What w = change("write", pathof(fd).c_str());
        if (w == FAIL) return -1;
        if (w == HALF) return real(fd, b, n - n / 2, o);
        if (w == HALFDIE) { real(fd, b, n / 2, o); die(); }
    }
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, void const *b, size_t n, off64_t o) {
    static auto real = next<ssize_t (*)(int, void const *, size_t, off64_t)>("pwrite64");
    return do_pwrite(real, fd, b, n, o);
}
ssize_t pwrite(int fd, void const *b, size_t n, off_t o) {
    static auto real = next<ssize_t (*)(int, void const *, size_t, off64_t)>("pwrite64");
    return do_pwrite(real, fd, b, n, o);
}
size_t fwrite(void const *b, size_t s, size_t n, FILE *f) {
    static auto real = next<size_t (*)(void const *, size_t, size_t, FILE *)>("fwrite");
    if (f && s * n > 0 && owned(::fileno(f))) {
        What w = change("fwrite", pathof(::fileno(f)).c_str());
        if (w == FAIL) return 0;
        if (w == HALF || w == HALFDIE) {
            size_t k = real(b, 1, s * n / 2, f);
            ::fflush(f);
            if (w == HALFDIE) die();
            return s ? k / s : 0;
        }
    }
    return real(b, s, n, f);
}
int fclose(FILE *f) {
    static auto real = next<int (*)(FILE *)>("fclose");
    if (f && owned(::fileno(f))) {
        int fd = ::fileno(f);
        fault().mine[fd] = false;
        bool writing = (::fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY;
        What w = writing ? change("fclose", pathof(fd).c_str()) : GO; // data may be buffered up to here
        if (w == FAIL) { real(f); errno = ENOSPC; return EOF; }
        if (w == HALFDIE) { real(f); die(); }
    }
    return real(f);
}
int close(int fd) {
    static auto real = next<int (*)(int)>("close");
    if (fd >= 0 && fd < 4096) fault().mine[fd] = false;
    return real(fd);
}
#define PATHOP(name, sig, args, path)                                       \
    int name sig {                                                          \
        static auto real = next<int(*) sig>(#name);                         \
        if (under(path)) {                                                  \
            What w = change(#name, path);                                              \
            if (w == FAIL) return -1;                                       \
            if (w == HALFDIE) { real args; die(); }                         \
        }                                                                   \
        return real args;                                                   \
    }
PATHOP(unlink, (char const *p), (p), p)
PATHOP(remove, (char const *p), (p), p)
PATHOP(rename, (char const *p, char const *q), (p, q), q)
PATHOP(mkdir, (char const *p, mode_t m), (p, m), p)
#define FDOP(name, sig, args)                                               \
    int name sig {                                                          \
        static auto real = next<int(*) sig>(#name);                         \
        if (owned(fd)) {                                                    \
            What w = change(#name, pathof(fd).c_str());                     \
            if (w == FAIL) return -1;                                       \
            if (w == HALFDIE) { real args; die(); }                         \
        }                                                                   \
        return real args;                                                   \
    }
FDOP(ftruncate, (int fd, off_t l), (fd, l))
FDOP(ftruncate64, (int fd, off64_t l), (fd, l))
FDOP(fsync, (int fd), (fd))
FDOP(fdatasync, (int fd), (fd))
}
