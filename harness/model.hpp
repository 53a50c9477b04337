// Independent model of JSON data: values as code points, encoders and strict decoders, generators of values and of
// document spellings, a three-valued reference reader and a reference layout. Nothing here uses the library.
#pragma once
#include "core.hpp"
#include <sys/resource.h>

namespace vh
{
using U32 = std::u32string;

struct M
{
    enum K { Null, Bool, Int, Flt, Str, Arr, Obj } k = Null;
    bool                          b = false;
    int64_t                       i = 0;
    double                        f = 0;
    U32                           s;
    std::vector<M>                a;
    std::vector<std::pair<U32, M>> o;  // unique keys, insertion order

    static M null() { return M(); }
    static M boolean(bool v) { M m; m.k = Bool; m.b = v; return m; }
    static M integer(int64_t v) { M m; m.k = Int; m.i = v; return m; }
    static M flt(double v) { M m; m.k = Flt; m.f = v; return m; }
    static M str(U32 v) { M m; m.k = Str; m.s = std::move(v); return m; }
    static M arr() { M m; m.k = Arr; return m; }
    static M obj() { M m; m.k = Obj; return m; }

    M* find(const U32& key)
    {
        for (auto& p : o) if (p.first == key) return &p.second;
        return nullptr;
    }
    const M* find(const U32& key) const { return const_cast<M*>(this)->find(key); }
    M& member(const U32& key)
    {
        if (M* m = find(key)) return *m;
        o.emplace_back(key, M());
        return o.back().second;
    }
};

// ---------------------------------------------------------------- encodings
inline bool scalar(u32 c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }

inline void put8(std::string& r, u32 c)
{
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xC0 | (c >> 6)); r += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += char(0xE0 | (c >> 12)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
    else { r += char(0xF0 | (c >> 18)); r += char(0x80 | ((c >> 12) & 63)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
}
inline std::string to8(const U32& s) { std::string r; for (u32 c : s) put8(r, c); return r; }
inline std::wstring to32(const U32& s) { std::wstring r; for (u32 c : s) r += wchar_t(c); return r; }
inline std::wstring to16(const U32& s)
{
    std::wstring r;
    for (u32 c : s)
        if (c >= 0x10000) { r += wchar_t(0xD800 + ((c - 0x10000) >> 10)); r += wchar_t(0xDC00 + ((c - 0x10000) & 0x3FF)); }
        else r += wchar_t(c);
    return r;
}
// strict decoders: false when ill-formed
inline bool from8(const std::string& s, U32& out)
{
    out.clear();
    for (size_t i = 0; i < s.size();)
    {
        const unsigned c = static_cast<unsigned char>(s[i]);
        auto           t = [&](size_t k, unsigned lo = 0x80, unsigned hi = 0xBF) {
            if (i + k >= s.size()) return false;
            const unsigned x = static_cast<unsigned char>(s[i + k]);
            return x >= lo && x <= hi;
        };
        auto v = [&](size_t k) { return static_cast<u32>(static_cast<unsigned char>(s[i + k]) & 0x3F); };
        if (c < 0x80) { out += char32_t(c); i += 1; }
        else if (c >= 0xC2 && c <= 0xDF && t(1)) { out += char32_t(((c & 0x1F) << 6) | v(1)); i += 2; }
        else if (c >= 0xE0 && c <= 0xEF && t(1, c == 0xE0 ? 0xA0 : 0x80, c == 0xED ? 0x9F : 0xBF) && t(2))
        { out += char32_t(((c & 0x0F) << 12) | (v(1) << 6) | v(2)); i += 3; }
        else if (c >= 0xF0 && c <= 0xF4 && t(1, c == 0xF0 ? 0x90 : 0x80, c == 0xF4 ? 0x8F : 0xBF) && t(2) && t(3))
        { out += char32_t(((c & 0x07) << 18) | (v(1) << 12) | (v(2) << 6) | v(3)); i += 4; }
        else return false;
    }
    return true;
}
inline bool from32(const std::wstring& s, U32& out)
{
    out.clear();
    for (wchar_t w : s) { if (!scalar(u32(w))) return false; out += char32_t(w); }
    return true;
}
inline bool from16(const std::wstring& s, U32& out)
{
    out.clear();
    for (size_t i = 0; i < s.size(); ++i)
    {
        const u32 c = u32(s[i]);
        if (c > 0xFFFF) return false;
        if (c >= 0xDC00 && c <= 0xDFFF) return false;
        if (c >= 0xD800 && c <= 0xDBFF)
        {
            if (i + 1 >= s.size()) return false;
            const u32 d = u32(s[i + 1]);
            if (d < 0xDC00 || d > 0xDFFF) return false;
            out += char32_t(0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00));
            ++i;
        }
        else out += char32_t(c);
    }
    return true;
}
// natural encoding of a character type: char UTF-8, wchar_t UTF-32
template <class C> struct Enc;
template <> struct Enc<char>
{
    static std::string put(const U32& s) { return to8(s); }
    static bool get(const std::string& s, U32& o) { return from8(s, o); }
};
template <> struct Enc<wchar_t>
{
    static std::wstring put(const U32& s) { return to32(s); }
    static bool get(const std::wstring& s, U32& o) { return from32(s, o); }
};
template <> struct Enc<char16_t>
{
    static std::u16string put(const U32& s) { const auto w = to16(s); return std::u16string(w.begin(), w.end()); }
    static bool get(const std::u16string& s, U32& o) { return from16(std::wstring(s.begin(), s.end()), o); }
};
template <> struct Enc<char32_t>
{
    static std::u32string put(const U32& s) { const auto w = to32(s); return std::u32string(w.begin(), w.end()); }
    static bool get(const std::u32string& s, U32& o) { return from32(std::wstring(s.begin(), s.end()), o); }
};
inline U32 u(const char* s) { U32 r; while (*s) r += char32_t(static_cast<unsigned char>(*s++)); return r; }
inline U32 u(const std::string& s) { U32 r; for (unsigned char c : s) r += char32_t(c); return r; }

inline std::string show(const U32& s, size_t max = 160)
{
    std::string r;
    char        b[16];
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (i >= max) { r += "...(" + std::to_string(s.size()) + ")"; break; }
        const u32 c = s[i];
        if (c >= 0x20 && c < 0x7F) r += char(c);
        else { snprintf(b, sizeof b, "<%X>", c); r += b; }
    }
    return r;
}
inline std::string show(const std::string& s, size_t max = 200) { return show(u(s), max); }
inline std::string show(const std::wstring& s, size_t max = 200)
{
    U32 r;
    for (wchar_t c : s) r += char32_t(c);
    return show(r, max);
}
inline std::string show(const std::u16string& s, size_t max = 200) { return show(std::wstring(s.begin(), s.end()), max); }
inline std::string show(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g(%a)", d, d);
    return b;
}
inline std::string show(const M& m, int depth = 0)
{
    switch (m.k)
    {
    case M::Null: return "null";
    case M::Bool: return m.b ? "true" : "false";
    case M::Int: return std::to_string(m.i);
    case M::Flt: return show(m.f);
    case M::Str: return "\"" + show(m.s, 40) + "\"";
    case M::Arr:
    {
        std::string r = "[";
        for (size_t i = 0; i < m.a.size(); ++i)
        {
            if (i >= 12 || depth > 6) { r += "...(" + std::to_string(m.a.size()) + ")"; break; }
            r += (i ? "," : "") + show(m.a[i], depth + 1);
        }
        return r + "]";
    }
    default:
    {
        std::string r = "{";
        for (size_t i = 0; i < m.o.size(); ++i)
        {
            if (i >= 12 || depth > 6) { r += "...(" + std::to_string(m.o.size()) + ")"; break; }
            r += (i ? "," : "") + ("\"" + show(m.o[i].first, 40) + "\":") + show(m.o[i].second, depth + 1);
        }
        return r + "}";
    }
    }
}

// ---------------------------------------------------------------- comparison
struct Tol
{
    // exact: bit equality up to the sign of zero
    bool   exact = true;
    double rel = 0, abs = 0;
};
inline bool flt_eq(double x, double y, const Tol& t)
{
    if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
    if (x == y) return true;
    if (t.exact || std::isinf(x) || std::isinf(y)) return false;
    return std::fabs(x - y) <= t.abs + t.rel * std::fabs(x);
}
// first difference between an expected and an actual model, "" when equal; objects compare as dictionaries
inline std::string diff(const M& x, const M& y, const Tol& t = Tol(), const std::string& path = "$")
{
    if (x.k != y.k) return path + ": expected " + show(x) + " got " + show(y);
    switch (x.k)
    {
    case M::Null: return "";
    case M::Bool: return x.b == y.b ? "" : path + ": expected " + show(x) + " got " + show(y);
    case M::Int: return x.i == y.i ? "" : path + ": expected " + show(x) + " got " + show(y);
    case M::Flt: return flt_eq(x.f, y.f, t) ? "" : path + ": expected " + show(x) + " got " + show(y);
    case M::Str:
        if (x.s == y.s) return "";
        {
            size_t i = 0;
            while (i < x.s.size() && i < y.s.size() && x.s[i] == y.s[i]) ++i;
            return path + ": strings (length " + std::to_string(x.s.size()) + " and " + std::to_string(y.s.size())
                   + ") differ at " + std::to_string(i) + ": expected " + show(x.s.substr(i, 20)) + " got "
                   + show(y.s.substr(i, 20));
        }
    case M::Arr:
        if (x.a.size() != y.a.size())
            return path + ": expected " + std::to_string(x.a.size()) + " elements, got " + std::to_string(y.a.size())
                   + ": " + show(x) + " vs " + show(y);
        for (size_t i = 0; i < x.a.size(); ++i)
        {
            auto d = diff(x.a[i], y.a[i], t, path.size() < 200 ? path + "[" + std::to_string(i) + "]" : path);
            if (!d.empty()) return d;
        }
        return "";
    default:
        if (x.o.size() != y.o.size())
            return path + ": expected " + std::to_string(x.o.size()) + " members, got " + std::to_string(y.o.size())
                   + ": " + show(x) + " vs " + show(y);
        {
            std::map<U32, const M*> idx;
            for (auto& p : y.o) idx[p.first] = &p.second;
            for (auto& p : x.o)
            {
                auto it = idx.find(p.first);
                if (it == idx.end()) return path + ": member \"" + show(p.first, 40) + "\" missing";
                auto d = diff(p.second, *it->second, t,
                              path.size() < 200 ? path + "." + show(p.first, 20) : path);
                if (!d.empty()) return d;
            }
        }
        return "";
    }
}
inline bool same(const M& x, const M& y) { return diff(x, y).empty(); }

inline u64 hash_m(const M& m, u64 h = 7)
{
    h = mix(h ^ (u64(m.k) + 1));
    switch (m.k)
    {
    case M::Bool: return mix(h ^ m.b);
    case M::Int: return mix(h ^ u64(m.i));
    case M::Flt: { u64 b; memcpy(&b, &m.f, 8); return mix(h ^ b); }
    case M::Str: return hash_str(m.s, h);
    case M::Arr: for (auto& e : m.a) h = hash_m(e, h); return h;
    case M::Obj: for (auto& e : m.o) h = hash_m(e.second, hash_str(e.first, h)); return h;
    default: return h;
    }
}
inline size_t nodes(const M& m)
{
    size_t n = 1;
    for (auto& e : m.a) n += nodes(e);
    for (auto& e : m.o) n += nodes(e.second);
    return n;
}

// ---------------------------------------------------------------- value generator
static const u32 kBoundaryCps[] = {
    0x0,    0x1,    0x7,    0x8,    0x9,    0xA,    0xB,    0xC,    0xD,    0xE,     0xF,     0x10,    0x1A,    0x1B,
    0x1E,   0x1F,   0x20,   0x21,   0x22,   0x23,   0x26,   0x27,   0x2F,   0x30,    0x39,    0x3C,    0x5B,    0x5C,
    0x5D,   0x61,   0x62,   0x66,   0x6E,   0x72,   0x74,   0x75,   0x7B,   0x7D,    0x7E,    0x7F,    0x80,    0x81,
    0x84,   0x85,   0x9F,   0xA0,   0xBF,   0xC0,   0xC1,   0xE9,   0xFE,   0xFF,    0x100,   0x122,   0x12F,   0x130,
    0x139,  0x15C,  0x172,  0x17F,  0x3C0,  0x7FE,  0x7FF,  0x800,  0x801,  0xFFE,   0xFFF,   0x1000,  0x1001,  0x2022,
    0x2028, 0x2029, 0x20AC, 0x3000, 0x4E2D, 0x6587, 0xD7FE, 0xD7FF, 0xE000, 0xE001,  0xF8FF,  0xFEFE,  0xFEFF,  0xFFFC,
    0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1000F, 0x103FF, 0x10400, 0x1F600, 0x1FFFF, 0x2F800, 0x3FFFF, 0x40000,
    0xFFFFF, 0x100000, 0x10FC00, 0x10FFFD, 0x10FFFE, 0x10FFFF
};
inline u32 gen_cp(Rng& r)
{
    switch (r.below(10))
    {
    case 0: case 1: case 2: case 3: return 0x20 + u32(r.below(0x5F));
    case 4: case 5: return r.pick(kBoundaryCps);
    case 6: return u32(r.below(0x80));
    case 7: return 0x80 + u32(r.below(0x780));
    case 8:
    {
        u32 c = u32(r.below(0x10000));
        return scalar(c) ? c : 0xE000;
    }
    default:
    {
        u32 c = u32(r.below(0x110000));
        return scalar(c) ? c : 0x10FFFF;
    }
    }
}
inline U32 gen_str(Rng& r, size_t max = 24)
{
    U32    s;
    size_t n = r.chance(1, 8) ? 0 : r.below(max + 1);
    // letters, boundary code points, text that looks like an escape, any mixture
    static const u32 tricky[] = { '\\', '\\', 'u', 'd', 'D', '8', '3', 'c', '0', '"', '/', 'n', 'b', '*', '{', '}', '[', ']', ',', ':', ' ', '-', '.', 'e' };
    const int kind = int(r.below(5));
    for (size_t i = 0; i < n; ++i)
        s += char32_t(kind == 0 ? 0x61 + r.below(26) : kind == 1 ? r.pick(kBoundaryCps) : kind == 2 ? r.pick(tricky) : gen_cp(r));
    return s;
}
inline U32 gen_key(Rng& r)
{
    static const char* common[] = { "", "a", "b", "c", "ab", "key", "key1", "0", "1", "name", "A" };
    return r.chance(1, 2) ? u(r.pick(common)) : gen_str(r, 12);
}
inline int64_t gen_int(Rng& r)
{
    static const int64_t b[] = { 0, 1, -1, 9, 10, -9, -10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
                                 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll,
                                 9007199254740992ll, 9007199254740993ll, 999999999999999999ll, 1000000000000000000ll,
                                 9223372036854775807ll, 9223372036854775806ll, 9223372036854775800ll, 9223372036854775799ll,
                                 -9223372036854775807ll - 1, -9223372036854775807ll, -9223372036854775800ll, 922337203685477580ll, -922337203685477580ll };
    switch (r.below(4))
    {
    case 0: return r.pick(b);
    case 1: return int64_t(r.below(2001)) - 1000;
    case 2:
    {
        int64_t p = 1;
        for (u64 n = r.below(19); n; --n) p *= 10;
        p += int64_t(r.below(3)) - 1;
        return r.chance(1, 2) ? p : -p;
    }
    default: return int64_t(r.next() >> r.below(64)) * (r.chance(1, 2) ? 1 : -1);
    }
}
inline double gen_dbl(Rng& r)  // finite
{
    static const double b[] = { 0.0, -0.0, 0.1, 0.5, 1.0, -1.0, 1.5, 2.5, 3.14, 0.01, 0.001, 0.0001, 0.00001, 1e-6, 1e-7, 99999.9, 100000.5, 123456.7, 999999.5, 1e5, 1e6, 1e15,
                                1e16, 1e17, 1e18, 9007199254740992.0, 9007199254740993.0, 9223372036854775807.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 1e19, 1.8446744073709552e19,
                                1e20, 1e21, 1e22, 1e23, 1e100, 1e300, 1.4e308, 1e-100, 1e-300, 2.2250738585072014e-308, 5e-324, 1e-310, 0.3, 0.7, 1.0 / 3, 2.0 / 3, 4294967296.5, 2147483648.5,
                                0.999999, 0.9999999, 9.9999995, 99999.95, 0.49999999, 0.5000001, 1e-5, 12345.678 };
    switch (r.below(8))
    {
    case 0: case 1: { double d = r.pick(b); return r.chance(1, 3) ? -d : d; }
    case 2: return double(int64_t(r.below(2000001)) - 1000000) / 1000;
    case 3: return double(gen_int(r));
    case 4: return double(int64_t(r.below(20001)) - 10000) / 16;
    case 5:
    {
        // few digits, any exponent
        char buf[40];
        snprintf(buf, sizeof buf, "%s%lue%d", r.chance(1, 2) ? "-" : "", static_cast<unsigned long>(r.below(100000)), int(r.below(600)) - 305);
        double d = strtod(buf, nullptr);
        return std::fabs(d) > 1.4e308 ? 1e300 : d;
    }
    default:
    {
        u64 bits = r.next();
        double d;
        memcpy(&d, &bits, 8);
        return std::isfinite(d) && std::fabs(d) <= 1.4e308 ? d : 0.25;
    }
    }
}
struct GenOpt
{
    int    depth    = 4;
    size_t width    = 6;
    size_t strlen   = 24;
    bool   floats   = true;
};
inline M gen_scalar(Rng& r, const GenOpt& g)
{
    switch (r.below(g.floats ? 9 : 7))
    {
    case 0: return M::null();
    case 1: return M::boolean(r.chance(1, 2));
    case 2: case 3: return M::integer(gen_int(r));
    case 4: case 5: case 6: return M::str(gen_str(r, g.strlen));
    default: return M::flt(gen_dbl(r));
    }
}
inline M gen_value(Rng& r, const GenOpt& g, int depth = 0)
{
    if (depth >= g.depth || r.chance(depth == 0 ? 1 : 4, 8)) return gen_scalar(r, g);
    if (r.chance(1, 2))
    {
        M m = M::arr();
        for (size_t n = r.below(g.width + 1); n; --n) m.a.push_back(gen_value(r, g, depth + 1));
        return m;
    }
    M m = M::obj();
    for (size_t n = r.below(g.width + 1); n; --n)
    {
        U32 k = gen_key(r);
        if (!m.find(k)) m.o.emplace_back(k, gen_value(r, g, depth + 1));
    }
    return m;
}
// sizes at which buffers, counters and growth policies change
static const u32 kSizes[] = { 0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 258, 300, 500, 511, 512, 513,
                              999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
// nesting that fits the stack of the sanitized harness with room to spare (run.py asks for a large one)
inline size_t deep_limit()
{
    rlimit l{};
    getrlimit(RLIMIT_STACK, &l);
    return l.rlim_cur == RLIM_INFINITY || l.rlim_cur >= (rlim_t(200) << 20) ? 3000 : 1025;
}
static const size_t kDeep = deep_limit();
static const size_t kNumSizes = sizeof kSizes / sizeof kSizes[0];

// ---------------------------------------------------------------- document generator
struct DocOpt
{
    bool ws = true, comments = false, plus = false, dup = false, trailing_ws = true;
    int  depth = 4;
    size_t width = 5, strlen = 16;
    bool ascii = false;
};
struct DocGen
{
    Rng&   r;
    DocOpt o;
    U32    t;
    DocGen(Rng& r_, DocOpt o_) : r(r_), o(o_) {}

    void lit(const char* s) { while (*s) t += char32_t(*s++); }
    void comment()
    {
        static const char* body[] = { "", "*", "**", "***", " x ", " * ", "/", "//", " /* ", "* /", "[", "\"", "\\", "*/x", "a\tb" };
        if (r.chance(1, 2))
        {
            lit("//");
            std::string b = r.pick(body);
            if (b != "*/x" || true) lit(b.c_str());
            if (r.chance(1, 4) && !o.ascii) t += char32_t(0x80 + r.below(0x500));
            t += r.chance(3, 4) ? U'\n' : U'\r';
        }
        else
        {
            lit("/*");
            for (u64 n = r.below(3); n; --n)
            {
                std::string b = r.pick(body);
                if (b == "*/x") b = "\n";
                // avoid forming the terminator by accident
                if (!t.empty() && t.back() == U'*' && !b.empty() && b[0] == '/' && t.size() >= 3 && !(t[t.size() - 2] == U'/' )) t += U' ';
                if (!t.empty() && t.back() == U'*' && !b.empty() && b[0] == '/') t += U' ';
                lit(b.c_str());
            }
            if (r.chance(1, 4)) for (u64 n = r.below(4); n; --n) t += U'*';
            lit("*/");
        }
    }
    void space(unsigned p = 4)
    {
        if (o.ws && r.chance(1, p))
            for (u64 n = 1 + r.below(3); n; --n) t += U" \t\n\r"[r.below(4)];
        if (o.comments && r.chance(1, p * 2))
        {
            for (u64 n = 1 + r.below(2); n; --n)
            {
                comment();
                if (r.chance(1, 3)) t += U" \t\n\r"[r.below(4)];
            }
        }
    }
    void hex4(u32 v)
    {
        const char* d = r.chance(1, 2) ? "0123456789abcdef" : "0123456789ABCDEF";
        const bool  m = r.chance(1, 4);
        for (int k = 12; k >= 0; k -= 4)
        {
            const char* e = m ? (r.chance(1, 2) ? "0123456789abcdef" : "0123456789ABCDEF") : d;
            t += char32_t(e[(v >> k) & 15]);
        }
    }
    void uesc(u32 c)
    {
        if (c >= 0x10000) { lit("\\u"); hex4(0xD800 + ((c - 0x10000) >> 10)); lit("\\u"); hex4(0xDC00 + ((c - 0x10000) & 0x3FF)); }
        else { lit("\\u"); hex4(c); }
    }
    void chr(u32 c, unsigned esc)
    {
        static const char shorts[] = "\"\\/\b\f\n\r\t";
        static const char names[]  = "\"\\/bfnrt";
        const char* p = c && c < 0x80 ? strchr(shorts, int(c)) : nullptr;
        const bool  must = c < 0x20 || c == '"' || c == '\\' || (o.ascii && c > 0x7E);
        if (p && (must ? r.chance(3, 4) : r.chance(1, 3))) { t += U'\\'; t += char32_t(names[p - shorts]); }
        else if (must || r.chance(esc, 8)) uesc(c);
        else t += char32_t(c);
    }
    void string(const U32& s)
    {
        const unsigned esc = unsigned(pick_({ 0, 0, 1, 4, 8 }));
        t += U'"';
        for (u32 c : s) chr(c, esc);
        t += U'"';
    }
    template <class T>
    T pick_(std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }

    M number()
    {
        std::string s;
        bool neg = r.chance(1, 3);
        if (neg) s = "-";
        else if (o.plus && r.chance(1, 4)) s = "+";
        if (r.chance(1, 2))
        {
            int64_t v = gen_int(r);
            char    b[32];
            snprintf(b, sizeof b, "%lld", static_cast<long long>(v));
            s = b[0] == '-' ? b : (s == "+" ? "+" + std::string(b) : std::string(b));
            lit(s.c_str());
            return M::integer(v);
        }
        // float: digits '.' digits, exponent
        std::string ip;
        u64 n = r.chance(1, 3) ? 0 : r.chance(1, 10) ? 1 + r.below(40) : 1 + r.below(8);
        if (n == 0) ip = "0";
        else { ip += char('1' + r.below(9)); while (--n) ip += char('0' + (r.chance(1, 3) ? 0 : r.below(10))); }
        bool frac = r.chance(2, 3), expo = r.chance(1, 2);
        if (ip == "0") { frac = true; }
        if (!frac && !expo) frac = true;
        s += ip;
        if (frac)
        {
            s += '.';
            for (u64 k = 1 + (r.chance(1, 10) ? r.below(60) : r.below(8)); k; --k) s += char('0' + (r.chance(1, 2) ? 0 : r.below(10)));
        }
        if (expo)
        {
            s += r.chance(1, 2) ? 'e' : 'E';
            const int form = int(r.below(3));
            u64 e = r.chance(1, 4) ? r.below(320) : r.below(20);
            if (form == 0) { s += std::to_string(e ? e : 1); }
            else
            {
                s += form == 1 ? '+' : '-';
                if (r.chance(1, 4)) s += r.chance(1, 2) ? "0" : "00";
                s += std::to_string(e);
            }
        }
        double v = strtod(s.c_str(), nullptr);
        if (!std::isfinite(v)) { s = neg ? "-2.5" : "2.5"; v = neg ? -2.5 : 2.5; }
        lit(s.c_str());
        return M::flt(v);
    }
    M value(int depth = 0)
    {
        if (depth >= o.depth || r.chance(depth == 0 ? 1 : 4, 8))
        {
            switch (r.below(8))
            {
            case 0: lit("null"); return M::null();
            case 1: { bool b = r.chance(1, 2); lit(b ? "true" : "false"); return M::boolean(b); }
            case 2: case 3: case 4: return number();
            default: { U32 s = gen_str(r, o.strlen); if (o.ascii) for (auto& c : s) c &= 0x7F; string(s); return M::str(s); }
            }
        }
        if (r.chance(1, 2))
        {
            M m = M::arr();
            t += U'[';
            space();
            for (u64 n = r.below(o.width + 1), k = 0; k < n; ++k)
            {
                if (k) { t += U','; space(); }
                m.a.push_back(value(depth + 1));
                space();
            }
            t += U']';
            return m;
        }
        M m = M::obj();
        t += U'{';
        space();
        for (u64 n = r.below(o.width + 1), k = 0; k < n; ++k)
        {
            U32 key = gen_key(r);
            if (o.ascii) for (auto& c : key) c &= 0x7F;
            if (o.dup && !m.o.empty() && r.chance(1, 4)) key = r.pick(m.o).first;
            else while (m.find(key)) key += char32_t('a' + r.below(26));
            if (k) { t += U','; space(); }
            string(key);
            space();
            t += U':';
            space();
            M v = value(depth + 1);
            if (!m.find(key)) m.o.emplace_back(key, v);
            space();
        }
        t += U'}';
        return m;
    }
    M doc()
    {
        space(3);
        M m = value();
        if (o.trailing_ws) space(3);
        // a document may end inside a line comment
        if (o.comments && r.chance(1, 16)) { lit("// end"); if (r.chance(1, 2)) t += U'/'; }
        return m;
    }
};

// ---------------------------------------------------------------- reference reader
// Accepts the grammar the library documents: RFC 8259 plus comments and a leading plus sign. Texts on which the
// properties are silent (trailing commas, exponents the tests pin as rejected, characters after a null) are Unspec.
enum class Verdict { Accept, Reject, Unspec };
struct RefReader
{
    const U32& s;
    size_t     p      = 0;
    bool       strict = false;  // RFC 8259 only: no comments, no plus, nothing unspecified
    bool       unspec = false;
    size_t     outer_ws = 0;    // whitespace characters outside strings
    int        depth_max = 100000;

    explicit RefReader(const U32& t, bool strict_ = false) : s(t), strict(strict_) {}

    struct Bad {};
    u32  cur() const { return p < s.size() ? u32(s[p]) : 0xFFFFFFFFu; }
    [[noreturn]] void bad() { throw Bad(); }

    void skip()
    {
        for (;;)
        {
            while (cur() == ' ' || cur() == '\t' || cur() == '\n' || cur() == '\r') { ++p; ++outer_ws; }
            if (strict || cur() != '/') return;
            ++p;
            if (cur() == '/')
            {
                ++p;
                while (p < s.size() && s[p] != U'\n' && s[p] != U'\r') { if (s[p] == 0) unspec = true; ++p; }
            }
            else if (cur() == '*')
            {
                ++p;
                for (;;)
                {
                    if (p >= s.size()) bad();
                    if (s[p] == 0) unspec = true;
                    if (s[p] == U'*' && p + 1 < s.size() && s[p + 1] == U'/') { p += 2; break; }
                    ++p;
                }
            }
            else bad();
        }
    }
    u32 hex4()
    {
        u32 v = 0;
        for (int i = 0; i < 4; ++i, ++p)
        {
            const u32 c = cur();
            if (c >= '0' && c <= '9') v = v * 16 + (c - '0');
            else if (c >= 'a' && c <= 'f') v = v * 16 + (c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') v = v * 16 + (c - 'A' + 10);
            else bad();
        }
        return v;
    }
    U32 string()
    {
        U32 r;
        ++p;
        for (;;)
        {
            if (p >= s.size()) bad();
            u32 c = s[p];
            if (c == '"') { ++p; return r; }
            if (c < 0x20 || !scalar(c)) bad();
            if (c != '\\') { r += char32_t(c); ++p; continue; }
            ++p;
            switch (cur())
            {
            case '"': r += U'"'; ++p; break;
            case '\\': r += U'\\'; ++p; break;
            case '/': r += U'/'; ++p; break;
            case 'b': r += U'\b'; ++p; break;
            case 'f': r += U'\f'; ++p; break;
            case 'n': r += U'\n'; ++p; break;
            case 'r': r += U'\r'; ++p; break;
            case 't': r += U'\t'; ++p; break;
            case 'u':
            {
                ++p;
                u32 v = hex4();
                if (v >= 0xD800 && v <= 0xDBFF)
                {
                    if (cur() != '\\') bad();
                    ++p;
                    if (cur() != 'u') bad();
                    ++p;
                    const u32 w = hex4();
                    if (w < 0xDC00 || w > 0xDFFF) bad();
                    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                }
                else if (v >= 0xDC00 && v <= 0xDFFF) bad();
                r += char32_t(v);
                break;
            }
            default: bad();
            }
        }
    }
    static bool dig(u32 c) { return c >= '0' && c <= '9'; }
    M number()
    {
        std::string t;
        bool        flt = false;
        if (cur() == '-' || (!strict && cur() == '+')) { if (cur() == '-') t += '-'; ++p; }
        if (!dig(cur())) bad();
        const bool zero = cur() == '0';
        if (zero) { t += '0'; ++p; }
        else while (dig(cur())) { t += char(cur()); ++p; }
        bool frac = false;
        if (cur() == '.')
        {
            flt = frac = true;
            t += '.';
            ++p;
            if (!dig(cur())) bad();
            while (dig(cur())) { t += char(cur()); ++p; }
        }
        if (cur() == 'e' || cur() == 'E')
        {
            if (zero && !frac) unspec = true;
            flt = true;
            t += 'e';
            ++p;
            if (cur() == '+' || cur() == '-') { t += char(cur()); ++p; if (!dig(cur())) bad(); }
            else
            {
                if (!dig(cur())) bad();
                if (cur() == '0') unspec = true;
            }
            while (dig(cur())) { t += char(cur()); ++p; }
        }
        if (flt)
        {
            const double v = strtod(t.c_str(), nullptr);
            if (!std::isfinite(v)) unspec = true;
            return M::flt(v);
        }
        // integer: exact range check
        std::string d = t[0] == '-' ? t.substr(1) : t;
        const std::string lim = t[0] == '-' ? "9223372036854775808" : "9223372036854775807";
        if (d.size() > lim.size() || (d.size() == lim.size() && d > lim)) bad();
        errno_ = 0;
        return M::integer(t[0] == '-' ? int64_t(-strtoull(d.c_str(), nullptr, 10)) : int64_t(strtoull(d.c_str(), nullptr, 10)));
    }
    int errno_ = 0;
    void word(const char* w)
    {
        while (*w) { if (cur() != u32(*w)) bad(); ++p; ++w; }
    }
    M value(int depth)
    {
        if (depth > depth_max) bad();
        skip();
        switch (cur())
        {
        case 'n': word("null"); return M::null();
        case 't': word("true"); return M::boolean(true);
        case 'f': word("false"); return M::boolean(false);
        case '"': return M::str(string());
        case '[':
        {
            M m = M::arr();
            ++p;
            skip();
            if (cur() == ']') { ++p; return m; }
            for (;;)
            {
                m.a.push_back(value(depth + 1));
                skip();
                if (cur() == ']') { ++p; return m; }
                if (cur() != ',') bad();
                ++p;
                skip();
                if (!strict && cur() == ']') { unspec = true; ++p; return m; }
            }
        }
        case '{':
        {
            M m = M::obj();
            ++p;
            skip();
            if (cur() == '}') { ++p; return m; }
            for (;;)
            {
                skip();
                if (cur() != '"') bad();
                U32 k = string();
                skip();
                if (cur() != ':') bad();
                ++p;
                M v = value(depth + 1);
                if (!m.find(k)) m.o.emplace_back(std::move(k), std::move(v));
                else if (strict) dup = true;
                skip();
                if (cur() == '}') { ++p; return m; }
                if (cur() != ',') bad();
                ++p;
                skip();
                if (!strict && cur() == '}') { unspec = true; ++p; return m; }
            }
        }
        default: return number();
        }
    }
    bool dup = false;
    Verdict read(M& out)
    {
        try
        {
            out = value(0);
            skip();
            if (p < s.size())
            {
                if (s[p] == 0 && !strict) return Verdict::Unspec;
                return unspec_tail();
            }
        }
        catch (const Bad&)
        {
            return unspec && !strict ? Verdict::Unspec : Verdict::Reject;
        }
        return unspec ? Verdict::Unspec : Verdict::Accept;
    }
    Verdict unspec_tail() { return unspec && !strict ? Verdict::Unspec : Verdict::Reject; }
};

// tolerance for floats read from text whose value is known exactly
inline Tol read_tol()
{
    Tol t;
    t.exact = false;
    t.rel   = 1e-12;
    t.abs   = 2.3e-308;
    return t;
}
}  // namespace vh
