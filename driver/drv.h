// Concrete runs of the verified entries: inputs, observation hooks, reporting.
#pragma once
#include <cstdarg>
#include <chrono>
#include <cmath>
#include <csignal>
#include <exception>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static char g_case[65536];
static unsigned long g_cases, g_distinct, g_samples;
static std::set<size_t> g_seen;
static std::mt19937_64 g_rng;
static std::chrono::steady_clock::time_point g_end;
static std::string g_prop;

static void drv_die() { printf("CASE %s\n", g_case); fflush(stdout); }
static void drv_alarm(int) { printf("FAIL no end\n"); drv_die(); _exit(3); }
static void drv_segv(int s) { printf("FAIL signal %d\n", s); drv_die(); _exit(4); }
static void drv_term() { printf("FAIL unexpected exception\n"); drv_die(); _exit(6); }

static void drv_seen()
{
    if (!*g_case || g_seen.size() >= 200000 || !g_seen.insert(std::hash<std::string>()(g_case)).second) return;
    ++g_distinct;
    if (g_distinct % 37 == 5 && g_samples < 3) { ++g_samples; printf("SAMPLE %.300s\n", g_case); }
}
static void CASE(const char* f, ...)
{
    drv_seen();
    va_list a; va_start(a, f); vsnprintf(g_case, sizeof g_case, f, a); va_end(a);
    ++g_cases;
    alarm(20);
}
static void ADD(const char* f, ...)
{
    size_t n = strlen(g_case);
    va_list a; va_start(a, f); vsnprintf(g_case + n, sizeof g_case - n, f, a); va_end(a);
}
static void FAIL(const char* f, ...)
{
    char b[4096];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    printf("FAIL %s\n", b); drv_die(); _exit(2);
}
static bool more() { return std::chrono::steady_clock::now() < g_end; }
static long R(long lo, long hi) { return lo + (long)(g_rng() % (unsigned long)(hi - lo + 1)); }

// mostly small sizes, now and then large ones and powers of two
static size_t Z(size_t mx, size_t lo = 0)
{
    switch (R(0, 47)) {
    case 0: return R(lo, 6 * mx);
    case 1: return R(lo, 130);
    case 2: return size_t(1) << R(0, 6);
    default: return R(lo, mx); }
}

// exact size buffers, so that any access outside is seen
template <class T> struct Buf {
    T* p; size_t n; std::vector<T> copy;
    explicit Buf(size_t n) : p(n ? (T*)malloc(n * sizeof(T)) : nullptr), n(n) {}
    Buf(std::vector<T> const& v) : Buf(v.size()) { if (n) memcpy(p, v.data(), n * sizeof(T)); keep(); }
    Buf(Buf const&) = delete;
    ~Buf() { free(p); }
    void keep() { copy.assign(p, p + n); }
    void same(const char* what) { if (n && memcmp(p, copy.data(), n * sizeof(T))) FAIL("%s was modified", what); }
    T& operator[](size_t i) { return p[i]; }
    operator T*() { return p; }
};
// small integers: every sum and product is exact
template <class T> static void fill(Buf<T>& b, int zeros = 4)
{
    long kind = R(0, 23);       // 0: all equal, 1: nearly all zero, 2: no zero, 3: identical up to sign
    T same = T(R(-9, 9));
    for (size_t i = 0; i < b.n; ++i)
        b.p[i] = kind == 0 ? same : kind == 1 ? T(R(0, 9) ? 0 : R(-9, 9)) : kind == 2 ? T(R(1, 9)) : kind == 3 ? (R(0, 1) ? same : -same)
               : R(0, zeros) == 0 ? T(0) : T(R(-9, 9));
    b.keep();
}
template <class T> static void show(const char* nm, T const* p, size_t n)
{
    ADD(" %s=[", nm);
    for (size_t i = 0; i < n && i < 64; ++i) ADD("%.9g ", (double)p[i]);
    ADD("]");
}
template <class T> static void show(const char* nm, Buf<T>& b) { show(nm, b.p, b.n); }

struct Allocs {
    size_t at; Allocs() : at(__sanitizer_get_current_allocated_bytes()) {}
    void same() { size_t n = __sanitizer_get_current_allocated_bytes(); if (n != at) FAIL("memory balance %ld bytes", (long)(n - at)); }
};

typedef std::map<std::string, std::function<void()>> Suites;
static int drv_main(int argc, char** argv, Suites const& s)
{
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    __asan_set_death_callback(drv_die);
    signal(SIGALRM, drv_alarm);
    std::set_terminate(drv_term);
    g_prop = argc > 1 ? argv[1] : "";
    g_rng.seed(argc > 2 ? atol(argv[2]) : 1);
    g_end = std::chrono::steady_clock::now() + std::chrono::milliseconds(argc > 3 ? atol(argv[3]) : 1000);
    auto it = s.find(g_prop);
    if (it == s.end()) { printf("FAIL no suite for %s\n", g_prop.c_str()); return 2; }
    it->second();
    alarm(0); drv_seen();
    printf("CASES %lu DISTINCT %lu\n", g_cases, g_distinct);
    return 0;
}
