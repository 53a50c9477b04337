// Driver shared by all property harnesses: deterministic random numbers, case dispatch, sharding, progress for crash
// attribution, coverage counters, live-allocation monitor and allocation-fault injector.
// A case is identified by (part, index) and everything in it derives from (seed, part, index), so it can be replayed.
#pragma once
// memcheck intercepts operator new itself
#ifdef VH_VALGRIND
#undef VH_ALLOC_HOOK
#endif
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace vh
{
using u64 = uint64_t;
using u32 = uint32_t;

inline u64 mix(u64 z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline u64 hash_bytes(const void* p, size_t n, u64 h = 1469598103934665603ull)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 1099511628211ull;
    return mix(h);
}
template <class C>
inline u64 hash_str(const std::basic_string<C>& s, u64 h = 1469598103934665603ull)
{
    return hash_bytes(s.data(), s.size() * sizeof(C), h);
}

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed)) {}
    u64 next() { return mix(s += 0x632BE59BD9B4E019ull); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + static_cast<int>(below(static_cast<u64>(b - a + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class C>
    auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
    template <class T, size_t N>
    const T& pick(const T (&c)[N]) { return c[below(N)]; }
};

struct Fail : std::runtime_error
{
    explicit Fail(const std::string& m) : std::runtime_error(m) {}
};

struct S
{
    std::ostringstream o;
    S() { o.imbue(std::locale::classic()); }
    template <class T>
    S& operator<<(const T& t) { o << t; return *this; }
    operator std::string() const { return o.str(); }
};

#define VH_FAIL(expr) throw ::vh::Fail(::vh::S() << expr << "  [" << __LINE__ << "]")
#define VH_CHECK(cond, expr)  \
    do                        \
    {                         \
        if (!(cond))          \
            VH_FAIL(expr);    \
    } while (0)

// ---------------------------------------------------------------- allocations
struct Alloc
{
    static std::atomic<long>& live() { static std::atomic<long> v{ 0 }; return v; }
    static std::atomic<long>& total() { static std::atomic<long> v{ 0 }; return v; }
    static std::atomic<u64>&  bytes() { static std::atomic<u64> v{ 0 }; return v; }  // ever asked for
    static std::atomic<u64>&  bytes_limit() { static std::atomic<u64> v{ ~u64(0) }; return v; }  // beyond it everything fails
    static std::atomic<long>& fail_at() { static std::atomic<long> v{ -1 }; return v; }  // countdown, -1 off
    static std::atomic<bool>& sticky() { static std::atomic<bool> v{ false }; return v; }  // once it fails it keeps failing
    static std::atomic<long>& injected() { static std::atomic<long> v{ 0 }; return v; }
};
// everything between construction and destruction does not count as an allocation point
struct AllocOff
{
    long old;
    AllocOff() : old(Alloc::fail_at().exchange(-1)) {}
    ~AllocOff() { Alloc::fail_at() = old; }
};

// ---------------------------------------------------------------- context
struct Ctx
{
    Rng  rng;
    u64  index    = 0;
    u64  seed     = 0;
    bool thorough = false;
    void seen(u64 h);                       // one distinct non-trivial case
    void count(const char* name, u64 n = 1);
    void evals(u64 n);                      // extra evaluations inside this case
    void sample(const std::string& s);      // kept for the first cases of a part
    bool want_sample() const;
};

struct Part
{
    const char*               name;
    u64                       quick, thorough;
    std::function<void(Ctx&)> body;
};
inline std::vector<Part>& parts() { static std::vector<Part> p; return p; }
struct Reg
{
    Reg(const char* n, u64 q, u64 t, std::function<void(Ctx&)> b) { parts().push_back(Part{ n, q, t, b }); }
};
#define VH_PART(name, q, t)                                    \
    static void       part_##name(::vh::Ctx& ctx);             \
    static ::vh::Reg  reg_##name(#name, (q), (t), part_##name); \
    static void       part_##name(::vh::Ctx& ctx)

struct State
{
    std::map<std::string, u64>                      counters;
    std::unordered_set<u64>                         distinct;
    std::map<std::string, std::vector<std::string>> samples;
    u64                                             evaluations = 0;
    std::string                                     part;
    char*                                           progress = nullptr;
};
inline State& st() { static State s; return s; }

inline void Ctx::seen(u64 h)
{
    if (st().distinct.size() < 400000)
        st().distinct.insert(h);
}
inline void Ctx::count(const char* name, u64 n) { st().counters[name] += n; }
inline void Ctx::evals(u64 n) { st().evaluations += n; }
inline bool Ctx::want_sample() const
{
    auto it = st().samples.find(st().part);
    return it == st().samples.end() || it->second.size() < 2;
}
inline void Ctx::sample(const std::string& s)
{
    if (want_sample())
        st().samples[st().part].push_back(s.substr(0, 300));
}

inline std::string jesc(const std::string& s)
{
    std::string r = "\"";
    char        b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7F) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

inline void set_progress(const char* part, u64 index)
{
    if (st().progress)
    {
        snprintf(st().progress, 200, "%s:%llu\n", part, static_cast<unsigned long long>(index));
    }
}

inline u64 now_ms()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<u64>(t.tv_sec) * 1000 + static_cast<u64>(t.tv_nsec) / 1000000;
}

// runs one case; returns the failure message or ""
inline std::string run_case(const Part& p, u64 seed, u64 index, bool thorough)
{
    Ctx c;
    c.seed     = seed;
    c.index    = index;
    c.thorough = thorough;
    c.rng      = Rng(mix(seed) ^ hash_bytes(p.name, strlen(p.name)) ^ mix(index * 2654435761u + 17));
    st().part  = p.name;
    try
    {
        p.body(c);
    }
    catch (const Fail& e)
    {
        return e.what();
    }
    catch (const std::exception& e)
    {
        return std::string("unexpected exception out of the case: ") + e.what();
    }
    catch (...)
    {
        return "unexpected exception of unknown type out of the case";
    }
    return "";
}

inline int driver_main(int argc, char** argv)
{
    u64         seed = 1, shard = 0, shards = 1, permille = 1000;
    bool        thorough = false;
    std::string out, progress, only, only_part;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        v = [&] { return std::string(argv[++i]); };
        if (a == "--seed") seed = std::stoull(v());
        else if (a == "--shard") shard = std::stoull(v());
        else if (a == "--shards") shards = std::stoull(v());
        else if (a == "--permille") permille = std::stoull(v());
        else if (a == "--thorough") thorough = true;
        else if (a == "--out") out = v();
        else if (a == "--progress") progress = v();
        else if (a == "--only") only = v();
        else if (a == "--part") only_part = v();
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (!progress.empty())
    {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 256) != 0) { perror("progress"); return 2; }
        st().progress = static_cast<char*>(mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    struct V { std::string part; u64 index; std::string msg; };
    std::vector<V>                violations;
    std::map<std::string, u64>    per_part, ms_part;
    u64                           cases = 0;
    if (!only.empty())
    {
        const auto        c = only.find(':');
        const std::string n = only.substr(0, c);
        const u64         i = std::stoull(only.substr(c + 1));
        bool              found = false;
        for (auto& p : parts())
            if (n == p.name)
            {
                found = true;
                set_progress(p.name, i);
                const auto m = run_case(p, seed, i, thorough);
                ++cases;
                if (!m.empty()) violations.push_back(V{ n, i, m });
            }
        if (!found) { fprintf(stderr, "no part %s\n", n.c_str()); return 2; }
    }
    else
    {
        for (auto& p : parts())
        {
            if (!only_part.empty() && only_part != p.name) continue;
            const u64 full = thorough ? p.thorough : p.quick;
            const u64 t0   = now_ms();
            u64       bad  = 0;
            // a reduced run takes evenly spread cases
            const u64 keep = permille >= 1000 ? full : (full * permille + 999) / 1000;
            for (u64 k = shard; k < keep; k += shards)
            {
                const u64 i = permille >= 1000 ? k : k * full / keep;
                set_progress(p.name, i);
                const auto m = run_case(p, seed, i, thorough);
                ++cases;
                ++per_part[p.name];
                if (!m.empty())
                {
                    violations.push_back(V{ p.name, i, m });
                    if (++bad >= 3) break;
                }
            }
            ms_part[p.name] = now_ms() - t0;
        }
    }
    set_progress("done", 0);
    std::string j = "{\"cases\":" + std::to_string(cases) + ",\"evaluations\":" + std::to_string(cases + st().evaluations)
                    + ",\"violations\":[";
    for (size_t i = 0; i < violations.size(); ++i)
        j += (i ? "," : "") + std::string("{\"part\":") + jesc(violations[i].part) + ",\"index\":"
             + std::to_string(violations[i].index) + ",\"msg\":" + jesc(violations[i].msg.substr(0, 4000)) + "}";
    j += "],\"parts\":{";
    bool first = true;
    for (auto& k : per_part) { j += (first ? "" : ",") + jesc(k.first) + ":" + std::to_string(k.second); first = false; }
    j += "},\"ms\":{";
    first = true;
    for (auto& k : ms_part) { j += (first ? "" : ",") + jesc(k.first) + ":" + std::to_string(k.second); first = false; }
    j += "},\"counters\":{";
    first = true;
    for (auto& k : st().counters) { j += (first ? "" : ",") + jesc(k.first) + ":" + std::to_string(k.second); first = false; }
    j += "},\"samples\":{";
    first = true;
    for (auto& k : st().samples)
    {
        j += (first ? "" : ",") + jesc(k.first) + ":[";
        for (size_t i = 0; i < k.second.size(); ++i) j += (i ? "," : "") + jesc(k.second[i]);
        j += "]";
        first = false;
    }
    j += "},\"distinct\":" + std::to_string(st().distinct.size()) + "}\n";
    if (out.empty()) fputs(j.c_str(), stdout);
    else
    {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror("out"); return 2; }
        fputs(j.c_str(), f);
        fclose(f);
        f = fopen((out + ".distinct").c_str(), "w");
        for (u64 h : st().distinct) fwrite(&h, sizeof h, 1, f);
        fclose(f);
    }
    return violations.empty() ? 0 : 1;
}
}  // namespace vh

#ifndef VH_FUZZ
int main(int argc, char** argv) { return vh::driver_main(argc, argv); }
#endif

#ifdef VH_ALLOC_HOOK
// counting allocator behind all of operator new; malloc underneath keeps ASan's red zones and quarantine
static void* vh_alloc(std::size_t n)
{
    if (vh::Alloc::fail_at() >= 0)
    {
        if (vh::Alloc::fail_at()-- == 0)
        {
            ++vh::Alloc::injected();
            if (vh::Alloc::sticky()) vh::Alloc::fail_at() = 0;
            throw std::bad_alloc();
        }
    }
    if (vh::Alloc::bytes() > vh::Alloc::bytes_limit()) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++vh::Alloc::live();
    ++vh::Alloc::total();
    vh::Alloc::bytes() += n;
    return p;
}
static void vh_free(void* p) noexcept
{
    if (p)
    {
        --vh::Alloc::live();
        free(p);
    }
}
void* operator new(std::size_t n) { return vh_alloc(n); }
void* operator new[](std::size_t n) { return vh_alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return vh_alloc(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return vh_alloc(n); } catch (...) { return nullptr; } }
void  operator delete(void* p, const std::nothrow_t&) noexcept { vh_free(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { vh_free(p); }
void  operator delete(void* p) noexcept { vh_free(p); }
void  operator delete[](void* p) noexcept { vh_free(p); }
void  operator delete(void* p, std::size_t) noexcept { vh_free(p); }
void  operator delete[](void* p, std::size_t) noexcept { vh_free(p); }
#endif

namespace vh
{
// runs f and reports a leak when the number of live blocks grows on every one of several runs
// (a first-use static inside the standard library grows it once)
template <class F>
inline void check_no_leak(const char* what, F f)
{
#ifdef VH_ALLOC_HOOK
    long d = 0;
    for (int i = 0; i < 3; ++i)
    {
        const long before = Alloc::live();
        f();
        d = Alloc::live() - before;
        if (d == 0) return;
    }
    VH_FAIL("leak: " << what << " leaves " << d << " more live blocks");
#else
    (void)what;
    f();
#endif
}
}  // namespace vh
