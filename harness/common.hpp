// Shared pieces: JSON output, process isolation, random source.
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <random>
#include <string>
#include <string_view>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using Rng = std::mt19937_64;

// ---- JSON writer: one event per line, flushed, so that a crash keeps what happened before it
struct Json {
    FILE *f = nullptr;
    std::string buf;
    bool on() const { return f != nullptr; }
    void begin(const char *e) { buf = std::string("{\"e\":\"") + e + "\""; }
    void num(const char *k, long long v) { char t[96]; snprintf(t, sizeof t, ",\"%s\":%lld", k, v); buf += t; }
    void str(const char *k, const std::string &v) { buf += std::string(",\"") + k + "\":\"" + v + "\""; }
    template <class V> void arr(const char *k, const V &v) { buf += std::string(",\"") + k + "\":"; put(v); }
    void raw(const char *k, const std::string &v) { buf += std::string(",\"") + k + "\":" + v; }
    template <class V> void put(const V &v) { buf += list(v); }
    template <class V> static std::string list(const V &v) {
        std::string s = "["; bool first = true;
        for (auto x : v) { if (!first) s += ','; first = false; s += std::to_string((long long) x); }
        return s + "]";
    }
    static std::string bytes(const std::string &k) {
        std::string s = "["; for (size_t i = 0; i < k.size(); i++) { if (i) s += ','; s += std::to_string((int) (uint8_t) k[i]); }
        return s + "]";
    }
    void end() { buf += "}\n"; fwrite(buf.data(), 1, buf.size(), f); fflush(f); buf.clear(); }
};

inline uint32_t digest(const char *p, size_t n) {      // 31 bits
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) { h ^= (uint8_t) p[i]; h *= 1099511628211ull; }
    return (uint32_t) ((h ^ h >> 31) & 0x7fffffff);
}

inline void plain_signals() {
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGVTALRM, SIGALRM, SIGXCPU, SIGPROF}) signal(s, SIG_DFL);
    sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, nullptr);
}
inline void cpu_budget(int seconds) {
    itimerval t{}; t.it_value.tv_sec = seconds; setitimer(ITIMER_VIRTUAL, &t, nullptr);
    t.it_value.tv_sec = 8 * seconds; setitimer(ITIMER_REAL, &t, nullptr);      // blocked without using the processor
}
// The trees' debug code sleeps for ever, waiting for a debugger, when it finds its state broken.
extern "C" unsigned sleep(unsigned) { signal(SIGABRT, SIG_DFL); abort(); }

// ---- What the code under test holds.  Blocks taken from the heap, and pages mapped, while a call
// into it is in progress are its own; whoever releases them, it has to have happened at the end.
namespace life {
    inline int in = 0; inline long long blocks = 0, pages = 0; inline bool armed = false;
    // Blocks come filled with garbage that differs from block to block, and so does the stack below
    // a call, so that code which reads what it has not written does not get away with zeros.
    inline uint64_t litter = 1;
    inline unsigned char rubbish() { litter = litter * 6364136223846793005ull + 1442695040888963407ull; return litter >> 56; }
    __attribute__((noinline)) inline void stir() { volatile char a[6000]; memset((char *) a, rubbish(), sizeof(a)); asm volatile("" : : "r"(a) : "memory"); }
    struct Call { Call() { stir(); in++; } ~Call() { in--; } };
#ifdef LIFE
    inline std::vector<void *> own; inline size_t used = 0;     // open addressing; filled without allocating
    inline void arm() { if (!armed) { own.assign(1 << 22, nullptr); armed = true; } }
    inline size_t slot(void *p) { size_t h = ((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 42; while (own[h] && own[h] != p) h = (h + 1) & (own.size() - 1); return h; }
    inline void took(void *p) { if (!armed || !in || !p) return; size_t h = slot(p); if (own[h] != p) { own[h] = p; blocks++; } }
    inline void gave(void *p) {
        if (!armed || !p) return; size_t h = slot(p); if (own[h] != p) return; blocks--; own[h] = nullptr;
        for (size_t j = (h + 1) & (own.size() - 1); own[j]; j = (j + 1) & (own.size() - 1)) { void *q = own[j]; own[j] = nullptr; own[slot(q)] = q; }
    }
    inline void reset() { if (armed) std::fill(own.begin(), own.end(), nullptr); blocks = pages = 0; litter = 1; }
#else
    inline void arm() {} inline void reset() { litter = 1; }
    inline void *block(size_t n) { void *p = malloc(n ? n : 1); if (p) memset(p, in ? rubbish() : 0, n); return p; }
#endif
}
#ifndef LIFE
void *operator new(size_t n) { return life::block(n); }
void *operator new[](size_t n) { return life::block(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
#ifdef LIFE
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void *, size_t);
extern "C" void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o) { void *r = __real_mmap(a, n, p, f, d, o); if (life::armed && life::in && r != MAP_FAILED) life::pages += (n + 4095) / 4096; return r; }
extern "C" int __wrap_munmap(void *a, size_t n) { int r = __real_munmap(a, n); if (life::armed && life::in && !r) life::pages -= (n + 4095) / 4096; return r; }
__attribute__((constructor)) inline void life_hooks() {
    __sanitizer_install_malloc_and_free_hooks([](const volatile void *p, size_t) { life::took((void *) p); }, [](const volatile void *p) { life::gave((void *) p); });
}
// Keys and buffers handed over end where they end.
struct Exact { char *p; size_t n; explicit Exact(const std::string &s) : p((char *) malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Exact() { free(p); }
    operator std::string_view() const { return {p, n}; } const uint8_t *u8() const { return (const uint8_t *) p; } };
constexpr size_t PAD = 0;
#else
struct Exact { const std::string &s; explicit Exact(const std::string &s) : s(s) {} operator std::string_view() const { return s; } const uint8_t *u8() const { return (const uint8_t *) s.data(); } };
constexpr size_t PAD = 65536;
#endif

// Result of one case run in isolation.
struct Outcome { int kind = 0; int op = -1; bool crashed = false; bool hung = false; int sig = 0; };
struct Shared { volatile int cur; volatile int op; volatile int kind; volatile int done; long long counter[8]; };
inline Shared *shared_page() {
    void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return (Shared *) p;
}
extern Shared *g_sh;

constexpr int K_CRASH = 1 << 20, K_HANG = 1 << 21, K_ASAN = 1 << 22, K_LEAK = 1 << 23;

// Runs cases [0,n) in forked batches; body(i) returns a kind mask (0 = clean).
inline void run_isolated(int n, int batch, int cpu, const std::function<int(int)> &body,
                         const std::function<void(int, Outcome)> &report) {
    g_sh = shared_page();
    for (int i = 0; i < n;) {
        int to = std::min(n, i + batch);
        g_sh->cur = i; g_sh->done = 0;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (!p) {
            plain_signals();
            for (int j = i; j < to; j++) {
                g_sh->cur = j; g_sh->op = -1; cpu_budget(cpu);
                int k = body(j);
                if (k) { g_sh->kind = k; _exit(3); }
            }
            g_sh->done = 1; _exit(0);
        }
        int st; while (waitpid(p, &st, 0) < 0) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_sh->done) { i = to; continue; }
        Outcome o; o.op = g_sh->op;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) o.kind = g_sh->kind;
        else if (WIFSIGNALED(st)) {
            o.sig = WTERMSIG(st);
            if (o.sig == SIGVTALRM || o.sig == SIGALRM) { o.hung = true; o.kind = K_HANG; }
            else { o.crashed = true; o.kind = K_CRASH; }
        }
        else { o.crashed = true; o.kind = K_ASAN; o.sig = WEXITSTATUS(st); }
        report(g_sh->cur, o);
        i = g_sh->cur + 1;
    }
}
