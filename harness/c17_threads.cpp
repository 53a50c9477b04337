// C17: threads. Every case runs several threads at once, each with values of its own and all of them reading one shared
// value; ThreadSanitizer watches, and afterwards each thread's work is repeated alone and must give the same results.
// There is no synchronisation between the threads apart from their start, so that races are not hidden; delays and
// yields are injected from the case's random numbers.
#include "lib.hpp"
#include <deque>
#include <list>
#include <memory>
#include <sched.h>
#include <thread>
#include <unordered_map>
using namespace vh;

namespace
{
struct Inner
{
    int         a = 0;
    std::string s;
    bool operator!=(const Inner& o) const { return a != o.a || s != o.s; }
    bool operator==(const Inner& o) const { return !(*this != o); }
    CONFIGOR_BIND(json::value, Inner, REQUIRED(a), OPTIONAL(s, "the s"))
};
struct Bound
{
    double                       d = 0;
    Inner                        in;
    std::vector<Inner>           list;
    std::map<std::string, bool>  flags;
    CONFIGOR_BIND(json::value, Bound, REQUIRED(d), REQUIRED(in), OPTIONAL(list), OPTIONAL(flags))
};

struct H
{
    u64  h = 1469598103934665603ull;
    void add(const std::string& s) { h = hash_str(s, h); }
    void add(const std::wstring& s) { h = hash_str(s, h); }
    void add(u64 x) { h = mix(h ^ x); }
};

// ---- reading: only const access
template <class J> void read_all(const V<J>& v, H& h, int depth = 0)
{
    h.add(u64(v.type()));
    h.add(v.size());
    h.add(u64(v.empty()));
    h.add(u64(v.is_null() | v.is_bool() << 1 | v.is_integer() << 2 | v.is_floating() << 3 | v.is_number() << 4 | v.is_string() << 5 | v.is_array() << 6 | v.is_object() << 7));
    if (auto p = v.template get_ptr<const bool*>()) h.add(u64(*p));
    if (auto p = v.template get_ptr<const int64_t*>()) h.add(u64(*p));
    if (auto p = v.template get_ptr<const double*>()) { u64 b; memcpy(&b, p, 8); h.add(b); }
    if (auto p = v.template get_ptr<const St<J>*>()) h.add(*p);
    for (auto it = v.begin(); it != v.end(); ++it)
    {
        if (v.is_object())
        {
            h.add(it.key());
            h.add(v.count(it.key()));
            h.add(u64(&v.at(it.key()) == &*it && v.find(it.key()) == it && &v[it.key()] == &*it));
        }
        if (v.is_array() || v.is_object()) read_all<J>(*it, h, depth + 1);
    }
    u64 n = 0;
    for (auto it = v.rbegin(); it != v.rend(); ++it) n = n * 31 + u64((*it).type());
    for (auto& x : v) n = n * 31 + x.size();
    h.add(n);
    if (v.is_array())
    {
        for (size_t i = 0; i < v.size(); ++i) h.add(u64(v[i].type() == v.at(i).type()));
        try { v.at(v.size()); }
        catch (const std::exception& e) { h.add(std::string(e.what())); }
    }
    if (v.is_object())
    {
        try { v.at(St<J>(3, Ch<J>('~'))); }
        catch (const std::exception& e) { h.add(std::string(e.what())); }
    }
    if (depth == 0 || v.size() < 3)
    {
        try { h.add(u64(v.template get<int>())); }
        catch (const std::exception& e) { h.add(std::string(e.what())); }
        try { h.add(v.template get<St<J>>()); }
        catch (const std::exception& e) { h.add(std::string(e.what())); }
        try { h.add(u64(v.template get<std::vector<V<J>>>().size())); }
        catch (const std::exception& e) { h.add(std::string(e.what())); }
        try { h.add(u64(v.template get<std::map<St<J>, V<J>>>().size())); }
        catch (const std::exception& e) { h.add(std::string(e.what())); }
    }
}
template <class J> void shared_work(const V<J>& s, Rng& r, H& h)
{
    using C = Ch<J>;
    switch (r.below(7))
    {
    case 0: read_all<J>(s, h); break;
    case 1:
    {
        const auto o = gen_dump_opt(r);
        h.add(dump_via<J, C>(int(r.below(SnkKinds)), s, o, 1 + r.below(8)));
        break;
    }
    case 2: h.add(dump_as<J, char>(s)); break;
    case 3:
    {
        V<J> c(s), d;
        d = s;
        h.add(u64(c == s) | u64(s == d) << 1 | u64(c < s) << 2 | u64(s <= c) << 3 | u64(c != s) << 4);
        c = nullptr;  // the copy is the thread's own
        if (d.is_array()) d.push_back(1);
        else if (d.is_object()) d[St<J>(1, C('x'))] = 2;
        else d = 3;
        read_all<J>(d, h);
        h.add(u64(d == s));
        break;
    }
    case 4:
    {
        // copies of parts
        std::vector<V<J>> parts;
        for (auto& x : s) parts.push_back(x);
        for (auto& p : parts)
        {
            if (p.is_array()) p.clear();
            else p = V<J>(St<J>(20, C('y')));
        }
        V<J> all = parts;
        h.add(dump_as<J>(all));
        break;
    }
    case 5:
    {
        std::basic_ostringstream<C> os;
        os << J::wrap(s);
        h.add(os.str());
        break;
    }
    default: h.add(hash_m(model<J>(s))); break;
    }
}

// ---- values of the thread's own
template <class J, class C> void parse_work(Rng& r, H& h)
{
    DocOpt d;
    d.comments = true;
    d.depth    = 3;
    DocGen g(r, d);
    g.doc();
    auto t8 = g.t;
    if (r.chance(1, 4) && !t8.empty()) t8[r.below(t8.size())] = U'\x3';
    std::basic_string<C> t;
    if (sizeof(C) == 1) { auto b = to8(t8); t.assign(b.begin(), b.end()); }
    else { auto b = to32(t8); t.assign(b.begin(), b.end()); }
    int kind = int(r.below(SrcKinds));
    if (sizeof(C) > 1 && kind == SrcFile) kind = SrcString;
    if (t.find(C(0xff)) != t.npos && kind == SrcAdapter) kind = SrcString;
    // extraction and the sentry treat leading blanks themselves
    const auto o = try_parse<J, C>(t, kind, 1 + r.below(5));
    h.add(o.ok ? hash_m(o.m) : 1);
    h.add(o.err);
}
template <class J, class C> void dump_work(Rng& r, H& h)
{
    GenOpt g;
    g.depth = 3;
    auto m  = gen_value(r, g);
    auto v  = build<J>(m, &r);
    if (r.chance(1, 8)) v = std::numeric_limits<double>::quiet_NaN();
    try
    {
        const auto t = dump_via<J, C>(int(r.below(SnkKinds)), v, gen_dump_opt(r), 1 + r.below(8));
        h.add(t);
        h.add(hash_m(model<J>(J::template parse<C>(t))));
    }
    catch (const Fail&) { throw; }
    catch (const std::exception& e) { h.add(std::string(e.what())); }
}
void convert_work(Rng& r, H& h)
{
    std::vector<std::map<std::string, int>> a(r.below(4));
    for (auto& m : a)
        for (size_t n = r.below(4); n; --n) m["k" + std::to_string(r.below(9))] = int(r.below(1000));
    json::value v = a;
    h.add(u64(v.get<decltype(a)>() == a));
    std::deque<std::string>               b{ "x", "\xe2\x82\xac" };
    std::list<double>                     c{ 1.5, 2.5 };
    std::unordered_map<std::string, bool> d{ { "t", true }, { "f", false } };
    std::shared_ptr<int>                  e = r.chance(1, 2) ? std::make_shared<int>(7) : nullptr;
    v = b;
    h.add(u64(v.get<decltype(b)>() == b));
    h.add(json::dump(v));
    v = c;
    h.add(u64(v.get<decltype(c)>() == c));
    v = d;
    h.add(u64(v.get<decltype(d)>() == d));
    v = e;
    h.add(u64(bool(v.get<decltype(e)>()) == bool(e)));
    Bound x;
    x.d    = double(r.below(1000)) / 8;
    x.in.a = int(r.below(100));
    x.in.s = r.chance(1, 2) ? "set" : "";
    x.list.resize(r.below(3));
    for (auto& i : x.list) i.a = int(r.below(10));
    if (r.chance(1, 2)) x.flags["f"] = true;
    v = x;
    h.add(json::dump(v));
    Bound y;
    try
    {
        if (r.chance(1, 4)) v.erase("in");
        v.get(y);
        json::value w = y;
        h.add(u64(w == v));
    }
    catch (const std::exception& ex) { h.add(std::string(ex.what())); }
    try { h.add(u64(json::value("text").get<int>())); }
    catch (const std::exception& ex) { h.add(std::string(ex.what())); }
    std::istringstream is("{\"d\": 2.5, \"in\": {\"a\": 4}}");
    is >> json::wrap(y);
    h.add(u64(y.in.a));
    std::ostringstream os;
    os << json::wrap(y);
    h.add(os.str());
}
template <class J> void modify_work(Rng& r, H& h)
{
    using C = Ch<J>;
    V<J> v, w;
    for (int k = 0; k < 40; ++k)
    {
        const St<J> key(1, C('a' + r.below(6)));
        switch (r.below(9))
        {
        case 0: v = typename J::array{ 1, 2, typename J::object{ { key, nullptr } } }; break;
        case 1: if (v.is_array() || v.is_null()) v.push_back(int(r.below(99))); break;
        case 2: if (v.is_object() || v.is_null()) v[key] = int(r.below(99)); break;
        case 3: if (v.is_object()) v.erase(key); break;
        case 4: if (v.is_array() && v.size()) v.erase(v.begin()); break;
        case 5: w = v; break;
        case 6: std::swap(v, w); break;
        case 7: v = std::move(w); w = nullptr; break;
        default:
            try { v.at(key); }
            catch (const std::exception& e) { h.add(std::string(e.what())); }
            break;
        }
        h.add(u64(v == w));
    }
    v.clear();
    read_all<J>(w, h);
}
void handler_work(Rng& r, H& h)
{
    configor::error_handler_with<configor::error_policy::record> rec;
    static const char* const bad[] = { "[1,", "{\"a\"", "tru", "\"\\x\"", "1e", "[1 2]" };
    json::parse(bad[r.below(6)], { json::parser_type<char>::with_error_handler(&rec) });
    h.add(rec.error);
}

struct Shared
{
    json::value  n;
    wjson::value w;
};
// the same content with the spare room and the tombstones a history leaves
template <class J> void rough(V<J>& v, Rng& r)
{
    if (v.is_array())
    {
        for (auto& x : v) rough<J>(x, r);
        const size_t n = v.size(), more = r.below(40);
        for (size_t i = 0; i < more; ++i) v.push_back(nullptr);
        while (v.size() > n) v.erase(v.size() - 1);
    }
    else if (v.is_object())
    {
        for (auto& x : v) rough<J>(x, r);
        const St<J> k(9, Ch<J>(1));
        if (!v.count(k)) { v[k] = 1; v.erase(k); }
    }
    else if (v.is_string())
    {
        auto& t = v.template get<St<J>&>();
        t.reserve(t.size() + r.below(60));
    }
}
u64 work(const Shared& s, u64 seed, int steps, bool delays)
{
    Rng r(seed), dr(seed ^ 77);
    H   h;
    for (int k = 0; k < steps; ++k)
    {
        if (delays)
        {
            const u64 d = dr.below(12);
            if (d == 0) sched_yield();
            else if (d == 1) { struct timespec t = { 0, long(dr.below(60000)) }; nanosleep(&t, nullptr); }
            else if (d < 5) for (volatile int z = 0, e = int(dr.below(2000)); z < e; z = z + 1) {}
        }
        switch (r.below(16))
        {
        case 0: parse_work<json, char>(r, h); break;
        case 1: parse_work<wjson, wchar_t>(r, h); break;
        case 2: parse_work<json, wchar_t>(r, h); break;
        case 3: parse_work<wjson, char>(r, h); break;
        case 4: dump_work<json, char>(r, h); break;
        case 5: dump_work<wjson, wchar_t>(r, h); break;
        case 6: dump_work<json, wchar_t>(r, h); break;
        case 7: convert_work(r, h); break;
        case 8: modify_work<json>(r, h); break;
        case 9: modify_work<wjson>(r, h); break;
        case 10: handler_work(r, h); break;
        case 11: shared_work<wjson>(s.w, r, h); break;
        default: shared_work<json>(s.n, r, h); break;
        }
    }
    return h.h;
}
void together(Ctx& ctx, const M& m, int threads, int steps)
{
    Shared                s0{ build<json>(m), build<wjson>(m) };
    if (ctx.rng.chance(2, 3)) { rough<json>(s0.n, ctx.rng); rough<wjson>(s0.w, ctx.rng); }
    const Shared&         s = s0;
    std::atomic<int>      ready{ 0 };
    std::atomic<bool>     go{ false };
    std::vector<u64>      got(size_t(threads) * 16);
    std::vector<std::string> err(threads);
    std::vector<std::thread> ts;
    const u64             seed = ctx.rng.next();
    const bool            delays = ctx.rng.chance(2, 3);
    for (int i = 0; i < threads; ++i)
        ts.emplace_back([&, i] {
            ++ready;
            while (!go.load(std::memory_order_relaxed)) sched_yield();
            try { got[size_t(i) * 16] = work(s, mix(seed + u64(i)), steps, delays); }
            catch (const std::exception& e) { err[size_t(i)] = e.what(); }
        });
    while (ready != threads) sched_yield();
    go = true;
    for (auto& t : ts) t.join();
    const Shared alone{ build<json>(m), build<wjson>(m) };
    VH_CHECK(s.n == alone.n && s.w == alone.w, "the shared value changed");
    for (int i = 0; i < threads; ++i)
    {
        VH_CHECK(err[size_t(i)].empty(), "thread " << i << ": " << err[size_t(i)]);
        const u64 again = work(alone, mix(seed + u64(i)), steps, false);
        VH_CHECK(again == got[size_t(i) * 16], "thread " << i << " of " << threads << " got another result than it gets alone, shared value " << show(m));
        ctx.seen(mix(again + u64(i)));
    }
    ctx.evals(u64(threads) * u64(steps));
    ctx.count("thread_operations", u64(threads) * u64(steps));
    ctx.count("threads", u64(threads));
}
}  // namespace

VH_PART(mixed, 320, 6000)
{
    GenOpt g;
    g.depth = 4;
    const auto m = gen_value(ctx.rng, g);
    together(ctx, m, 2 + int(ctx.rng.below(5)), 30);
    if (ctx.want_sample()) ctx.sample(show(m));
}
// every thread does the same work at the same time, so that anything done lazily is done at once
VH_PART(same_work, 800, 4000)
{
    GenOpt g;
    g.depth = 2;
    M m;
    m.k = ctx.index % 2 ? M::Obj : M::Arr;
    for (int k = 0; k < 4; ++k)
    {
        if (m.k == M::Obj) m.o.emplace_back(U32(1, char32_t(U'a' + k)), gen_value(ctx.rng, g));
        else m.a.push_back(gen_value(ctx.rng, g));
    }
    const int             threads = 4;
    const Shared          s{ build<json>(m), build<wjson>(m) };
    std::atomic<int>      ready{ 0 };
    std::atomic<bool>     go{ false };
    std::vector<u64>      got(threads * 16);
    std::vector<std::thread> ts;
    const u64             seed = ctx.rng.next();
    for (int i = 0; i < threads; ++i)
        ts.emplace_back([&, i] {
            ++ready;
            while (!go.load(std::memory_order_relaxed)) {}
            got[size_t(i) * 16] = work(s, seed, 12, false);
        });
    while (ready != threads) sched_yield();
    go = true;
    for (auto& t : ts) t.join();
    for (int i = 1; i < threads; ++i) VH_CHECK(got[size_t(i) * 16] == got[0], "threads doing the same work get different results");
    VH_CHECK(work(s, seed, 12, false) == got[0], "another result alone");
    ctx.seen(got[0]);
    ctx.evals(threads * 12);
    ctx.count("thread_operations", threads * 12);
}
