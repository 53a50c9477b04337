// C23: bound structures: what is written, what is read from any subset of the names, and round trips.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <unordered_map>
namespace
{
#include "c23_bind.hpp"
}
using namespace vh;

namespace
{
// ---------------------------------------------------------------- structures of integers, 1 to 50 fields
template <class J, class S> void integers(Ctx& ctx, const char* sname)
{
    using C = Ch<J>;
    Rng& r = ctx.rng;
    auto name = [](size_t i) { const std::string s = S::name(i); return St<J>(s.begin(), s.end()); };
    // writing: required always, optional when not zero
    S s;
    std::map<St<J>, int64_t> want;
    for (size_t i = 0; i < S::Count; ++i)
    {
        s.field(i) = r.chance(1, 3) ? 0 : gen_int(r);
        if (S::required(i) || s.field(i) != 0) want[name(i)] = s.field(i);
    }
    V<J> v = s;
    VH_CHECK(v.is_object() || (v.is_null() && want.empty()), sname << ": becomes a value of kind " << int(v.type()));
    VH_CHECK(v.size() == want.size(), sname << ": writes " << v.size() << " members instead of " << want.size());
    for (auto& e : want) VH_CHECK(v.count(e.first) && v.at(e.first).is_integer() && v.at(e.first).template get<int64_t>() == e.second, sname << ": the member " << show(e.first) << " is written wrong");
    S b = v.template get<S>();
    for (size_t i = 0; i < S::Count; ++i) VH_CHECK(b.field(i) == s.field(i), sname << ": field " << i << " changes from " << s.field(i) << " to " << b.field(i));
    b = S();
    b = J::template parse<char>(J::template dump<char>(v)).template get<S>();
    for (size_t i = 0; i < S::Count; ++i) VH_CHECK(b.field(i) == s.field(i), sname << ": through text, field " << i << " changes from " << s.field(i) << " to " << b.field(i));
    // reading: any subset of the names, with others in between, into a used structure
    for (int k = 0; k < 6; ++k)
    {
        V<J> in(value_constant::object);
        S    t, old;
        bool missing = false;
        std::vector<int64_t> expect(S::Count);
        const u64 density = k == 0 ? 0 : k == 1 ? 100 : k == 2 ? 97 : r.below(101);
        for (size_t i = 0; i < S::Count; ++i)
        {
            t.field(i) = expect[i] = int64_t(r.below(1000000)) + 7;
            if (r.below(100) < density || (S::required(i) && k >= 3 && k != 5)) { const int64_t x = r.chance(1, 4) ? 0 : gen_int(r); in[name(i)] = x; expect[i] = x; }
            else if (S::required(i)) missing = true;
        }
        for (size_t e = r.below(4); e; --e) in[St<J>(3, C('x')) + St<J>(size_t(e), C('y'))] = r.chance(1, 2) ? V<J>(nullptr) : V<J>(true);
        bool threw = false;
        const int how = int(r.below(2));
        try
        {
            if (how) threw = !in.get(t);
            else { S u = in.template get<S>(); for (size_t i = 0; i < S::Count; ++i) if (in.count(name(i)) == 0) u.field(i) += t.field(i); t = u; }
        }
        catch (const std::exception&) { threw = true; }
        VH_CHECK(threw == missing, sname << ": reading " << show(model<J>(in)) << (missing ? " lacks a required name but is accepted" : " is refused"));
        if (!threw)
            for (size_t i = 0; i < S::Count; ++i) VH_CHECK(t.field(i) == expect[i], sname << ": reading " << show(model<J>(in)) << " leaves " << t.field(i) << " instead of " << expect[i] << " in field " << i << (how ? " of a used structure" : ""));
        ctx.count(missing ? "reads_missing" : "reads_complete");
        ctx.evals(1);
    }
    // other kinds
    bool any_required = false;
    for (size_t i = 0; i < S::Count; ++i) any_required = any_required || S::required(i);
    if (any_required)
        for (int k = 0; k < 6; ++k)
        {
            V<J> x;
            if (k == 1) x = true;
            if (k == 2) x = 5;
            if (k == 3) x = 2.5;
            if (k == 4) x = St<J>(3, C('s'));
            if (k == 5) x = typename J::array{ 1, 2 };
            bool threw = false;
            try { x.template get<S>(); }
            catch (const std::exception&) { threw = true; }
            VH_CHECK(threw, sname << ": read from " << show(model<J>(x)));
        }
    ctx.seen(hash_str(std::string(sname)) ^ v.size());
}

// ---------------------------------------------------------------- structures of everything
struct Inner
{
    int         id = 0;
    std::string text;
    double      x = 0;
    bool operator==(const Inner& o) const { return id == o.id && text == o.text && x == o.x; }
    bool operator!=(const Inner& o) const { return !(*this == o); }
    CONFIGOR_BIND(json::value, Inner, REQUIRED(id), OPTIONAL(text), OPTIONAL(x, "the x"))
};
// converted by functions of its own
enum class Colour { Red, Green = 7, Blue = -3 };
void to_value(json::value& c, const Colour& x) { c = x == Colour::Red ? "red" : x == Colour::Green ? "green" : "blue"; }
void from_value(const json::value& c, Colour& x)
{
    const auto s = c.get<std::string>();
    x = s == "red" ? Colour::Red : s == "green" ? Colour::Green : Colour::Blue;
}
struct Everything
{
    bool                                   flag = false;
    int                                    i = 0;
    unsigned short                         us = 0;
    int64_t                                big = 0;
    float                                  fl = 0;
    double                                 db = 0;
    std::string                            s;
    std::vector<int>                       vi;
    std::vector<std::string>               vs;
    std::array<int, 3>                     ai{ { 0, 0, 0 } };
    std::map<std::string, int>             mi;
    std::unordered_map<std::string, double> um;
    std::set<int>                          si;
    std::list<std::string>                 ls;
    std::deque<bool>                       dq;
    Colour                                 col = Colour::Red;
    Inner                                  in;
    Inner                                  opt_in;
    std::vector<Inner>                     vin;
    std::map<std::string, Inner>           min;
    std::unique_ptr<Inner>                 up;
    std::shared_ptr<Inner>                 sp;
    std::vector<std::shared_ptr<Inner>>    vsp;
    std::map<std::string, std::unique_ptr<Inner>> mup;
    std::vector<std::map<std::string, std::vector<int>>> deep;
    json::value                            any;
    json::value                            opt_any;

    CONFIGOR_BIND(json::value, Everything, REQUIRED(flag), OPTIONAL(i), OPTIONAL(us, "an unsigned"), REQUIRED(big), OPTIONAL(fl), REQUIRED(db, "a\"quoted\""),
                  REQUIRED(s, ""), OPTIONAL(vi), REQUIRED(vs), REQUIRED(ai), OPTIONAL(mi, "m\xC3\xA4p"), REQUIRED(um), OPTIONAL(si), REQUIRED(ls), OPTIONAL(dq),
                  REQUIRED(col), REQUIRED(in), OPTIONAL(opt_in, "in.opt"), OPTIONAL(vin), REQUIRED(min), OPTIONAL(up), REQUIRED(sp), REQUIRED(vsp), OPTIONAL(mup),
                  OPTIONAL(deep), REQUIRED(any), OPTIONAL(opt_any))
};
struct Outer
{
    Everything              one;
    std::vector<Everything> many;
    std::unique_ptr<Outer>  next;
    CONFIGOR_BIND(json::value, Outer, REQUIRED(one), REQUIRED(many), OPTIONAL(next))
};

// ---- what each datum must become
M to_m(bool x) { return M::boolean(x); }
M to_m(int x) { return M::integer(x); }
M to_m(unsigned short x) { return M::integer(x); }
M to_m(int64_t x) { return M::integer(x); }
M to_m(float x) { return M::flt(double(x)); }
M to_m(double x) { return M::flt(x); }
M to_m(const std::string& x) { return M::str(decode_lossless(x)); }
M to_m(Colour x) { return M::str(u(x == Colour::Red ? "red" : x == Colour::Green ? "green" : "blue")); }
M to_m(const json::value& x) { return model<json>(x); }
M to_m(const Inner& x);
M to_m(const Everything& x);
M to_m(const Outer& x);
template <class T> M seq_m(const T& x);
template <class T> M map_m(const T& x);
template <class T> M to_m(const std::vector<T>& x);
template <class T> M to_m(const std::list<T>& x) { return seq_m(x); }
template <class T> M to_m(const std::deque<T>& x) { return seq_m(x); }
template <class T> M to_m(const std::set<T>& x) { return seq_m(x); }
template <class T, size_t N> M to_m(const std::array<T, N>& x) { return seq_m(x); }
template <class T> M to_m(const std::map<std::string, T>& x);
template <class T> M to_m(const std::unordered_map<std::string, T>& x) { return map_m(x); }
template <class T> M to_m(const std::unique_ptr<T>& x) { return x ? to_m(*x) : M::null(); }
template <class T> M to_m(const std::shared_ptr<T>& x) { return x ? to_m(*x) : M::null(); }
template <class T> M to_m(const std::vector<T>& x) { return seq_m(x); }
template <class T> M to_m(const std::map<std::string, T>& x) { return map_m(x); }
template <class T> M seq_m(const T& x) { M m = M::arr(); for (const auto& e : x) m.a.push_back(to_m(e)); return m; }
template <class T> M map_m(const T& x) { M m = M::obj(); for (const auto& e : x) m.o.emplace_back(decode_lossless(e.first), to_m(e.second)); return m; }

// ---- generators
void gen(Rng& r, bool& x) { x = r.chance(1, 2); }
void gen(Rng& r, int& x) { x = r.chance(1, 5) ? std::numeric_limits<int>::min() : int(r.next()); }
void gen(Rng& r, unsigned short& x) { x = static_cast<unsigned short>(r.next()); }
void gen(Rng& r, int64_t& x) { x = gen_int(r); }
void gen(Rng& r, float& x) { x = float(int64_t(r.below(2000000)) - 1000000); }
void gen(Rng& r, double& x) { x = gen_dbl(r); }
void gen(Rng& r, std::string& x) { x = to8(gen_str(r, 12)); }
void gen(Rng& r, Colour& x) { const u64 k = r.below(3); x = k == 0 ? Colour::Red : k == 1 ? Colour::Green : Colour::Blue; }
void gen(Rng& r, json::value& x) { GenOpt g; g.depth = int(r.below(3)); x = build<json>(gen_value(r, g), &r); }
void gen(Rng& r, Inner& x) { gen(r, x.id); if (r.chance(1, 2)) gen(r, x.text); if (r.chance(1, 2)) gen(r, x.x); }
void gen(Rng& r, Everything& x);
template <class T> void gen(Rng& r, std::unique_ptr<T>& x) { x.reset(); if (r.chance(2, 3)) { x.reset(new T()); gen(r, *x); } }
template <class T> void gen(Rng& r, std::shared_ptr<T>& x) { x.reset(); if (r.chance(2, 3)) { x.reset(new T()); gen(r, *x); } }
template <class T> void gen(Rng& r, std::vector<T>& x);
template <class T> void gen(Rng& r, std::map<std::string, T>& x);
template <class L, class T> void gen_seq(Rng& r, L& x) { x.clear(); for (size_t n = r.below(5); n; --n) { T t{}; gen(r, t); x.insert(x.end(), std::move(t)); } }
template <class L> void gen_map(Rng& r, L& x) { x.clear(); for (size_t n = r.below(5); n; --n) { typename L::mapped_type t{}; gen(r, t); x[to8(gen_key(r))] = std::move(t); } }
template <class T> void gen(Rng& r, std::list<T>& x) { gen_seq<std::list<T>, T>(r, x); }
template <class T> void gen(Rng& r, std::deque<T>& x) { gen_seq<std::deque<T>, T>(r, x); }
template <class T> void gen(Rng& r, std::set<T>& x) { gen_seq<std::set<T>, T>(r, x); }
template <class T, size_t N> void gen(Rng& r, std::array<T, N>& x) { for (auto& e : x) gen(r, e); }
template <class T> void gen(Rng& r, std::unordered_map<std::string, T>& x) { gen_map(r, x); }
template <class T> void gen(Rng& r, std::vector<T>& x) { gen_seq<std::vector<T>, T>(r, x); }
template <class T> void gen(Rng& r, std::map<std::string, T>& x) { gen_map(r, x); }

// ---- one description of the fields
template <class S> struct Field
{
    std::string name;
    bool        required;
    std::function<M(const S&)>         get;
    std::function<bool(const S&)>      is_default;
    std::function<void(Rng&, S&)>      fill;
};
template <class S> const std::vector<Field<S>>& fields();
#define VH_F(f, n, req) \
    { n, req, [](const S& s) { return to_m(s.f); }, [](const S& s) { return same(to_m(s.f), to_m(decltype(s.f)())); }, [](Rng& r, S& s) { gen(r, s.f); } }
template <> const std::vector<Field<Inner>>& fields<Inner>()
{
    using S = Inner;
    static const std::vector<Field<S>> f = { VH_F(id, "id", true), VH_F(text, "text", false), VH_F(x, "the x", false) };
    return f;
}
template <> const std::vector<Field<Everything>>& fields<Everything>()
{
    using S = Everything;
    static const std::vector<Field<S>> f = {
        VH_F(flag, "flag", true), VH_F(i, "i", false), VH_F(us, "an unsigned", false), VH_F(big, "big", true), VH_F(fl, "fl", false), VH_F(db, "a\"quoted\"", true),
        VH_F(s, "", true), VH_F(vi, "vi", false), VH_F(vs, "vs", true), VH_F(ai, "ai", true), VH_F(mi, "m\xC3\xA4p", false), VH_F(um, "um", true), VH_F(si, "si", false), VH_F(ls, "ls", true), VH_F(dq, "dq", false),
        VH_F(col, "col", true), VH_F(in, "in", true), VH_F(opt_in, "in.opt", false), VH_F(vin, "vin", false), VH_F(min, "min", true), VH_F(up, "up", false), VH_F(sp, "sp", true), VH_F(vsp, "vsp", true), VH_F(mup, "mup", false),
        VH_F(deep, "deep", false), VH_F(any, "any", true), VH_F(opt_any, "opt_any", false) };
    return f;
}
template <class S> M struct_m(const S& s)
{
    M m = M::obj();
    for (auto& f : fields<S>()) if (f.required || !f.is_default(s)) m.o.emplace_back(decode_lossless(f.name), f.get(s));
    return m;
}
M to_m(const Inner& x) { return struct_m(x); }
M to_m(const Everything& x) { return struct_m(x); }
M to_m(const Outer& x)
{
    M m = M::obj();
    m.o.emplace_back(u("one"), to_m(x.one));
    m.o.emplace_back(u("many"), to_m(x.many));
    if (x.next) m.o.emplace_back(u("next"), to_m(*x.next));
    return m;
}
void gen(Rng& r, Everything& x) { for (auto& f : fields<Everything>()) if (f.required || r.chance(2, 3)) f.fill(r, x); }

template <class S> void round_trip(Ctx& ctx, const S& s, const M& want, const char* what)
{
    Rng& r = ctx.rng;
    const json::value v = s;
    VH_CHECK(same(want, model<json>(v)), what << " becomes " << show(model<json>(v)) << ": " << diff(want, model<json>(v)));
    {
        const S b = v.template get<S>();
        VH_CHECK(same(want, to_m(b)), what << " as a value and back: " << diff(want, to_m(b)));
    }
    const auto o = gen_dump_opt(r);
    // through text
    {
        const auto t = dump_as<json, char>(v, o);
        const S b = json::parse(t).template get<S>();
        const auto d = diff_text(want, to_m(b), o, false);
        // a float may round to its default: then the member is absent
        VH_CHECK(d.empty() || d.find("member") != d.npos || d.find("size") != d.npos, what << " through text and back: " << d << " text " << show(t));
    }
    // through streams, narrow and wide, several after each other
    {
        std::stringstream ss;
        ss.precision(17);
        ss << json::wrap(s);
        S b = S();
        auto w = json::wrap(b);
        ss >> w;
        VH_CHECK(bool(ss) || ss.eof(), what << ": reading from the stream it was written to fails");
        const auto d = diff(want, to_m(b), read_tol());
        VH_CHECK(d.empty(), what << " through a stream and back: " << d);
    }
    ctx.evals(3);
}
// a structure read over another: optional members that are absent stay
M merged(M old, const M& over)
{
    for (auto& e : over.o)
    {
        bool found = false;
        for (auto& x : old.o) if (x.first == e.first) { x.second = e.second; found = true; }
        if (!found) old.o.push_back(e);
    }
    return old;
}
template <class S> void subsets(Ctx& ctx, const char* what)
{
    Rng& r = ctx.rng;
    S src, dst;
    for (auto& f : fields<S>()) f.fill(r, src);
    for (auto& f : fields<S>()) f.fill(r, dst);
    const u64 mode = r.below(4);
    json::value in(value_constant::object);
    const json::value all = [&] { json::value v(value_constant::object); for (auto& f : fields<S>()) v[f.name] = build<json>(f.get(src)); return v; }();
    std::vector<M> expect;
    bool missing = false;
    for (auto& f : fields<S>())
    {
        const bool here = mode == 0 ? true : mode == 1 ? f.required || r.chance(1, 2) : mode == 2 ? r.chance(29, 30) : f.required;
        if (here) { in[f.name] = all.at(f.name); expect.push_back(f.name == "in" || f.name == "in.opt" ? merged(f.get(dst), f.get(src)) : f.get(src)); }
        else { expect.push_back(f.get(dst)); if (f.required) missing = true; }
    }
    for (size_t e = r.below(3); e; --e) in["extra " + std::to_string(e)] = nullptr;
    bool threw = false;
    try { threw = !in.get(dst); }
    catch (const std::exception&) { threw = true; }
    VH_CHECK(threw == missing, what << ": reading from " << show(model<json>(in)) << (missing ? ", which lacks a required name, succeeds" : " fails"));
    if (!threw)
    {
        size_t k = 0;
        for (auto& f : fields<S>())
        {
            const M got = f.get(dst);
            VH_CHECK(same(expect[k], got), what << ": field " << f.name << (in.count(f.name) ? ", present," : ", absent,") << " is now " << show(got) << " instead of " << show(expect[k]));
            ++k;
        }
    }
    ctx.count(missing ? "reads_missing" : "reads_complete");
    ctx.seen(hash_m(model<json>(in)));
    ctx.evals(1);
}
struct OnlyOptional
{
    int a = 0;
    std::string b;
    std::vector<int> c;
    CONFIGOR_BIND(json::value, OnlyOptional, OPTIONAL(a), OPTIONAL(b), OPTIONAL(c))
};
}  // namespace

// The structures are compiled in groups (VH_GROUP 0 to 3), which the check builds side by side.
#ifndef VH_GROUP
#define VH_GROUP -1
#endif
#define VH_IN(g) (VH_GROUP == -1 || VH_GROUP == g)

#if VH_GROUP < 3
VH_PART(integers, 2400, 120000)
{
    using One = void (*)(Ctx&);
#define VH_ONE(T) [](Ctx& c) { integers<json, T>(c, #T); },
#define VH_ONEW(T) [](Ctx& c) { integers<wjson, T>(c, #T); },
    static const std::vector<One> list = {
#if VH_IN(0)
        VH_BOUND0(VH_ONE)
#endif
#if VH_IN(1)
        VH_BOUND1(VH_ONE)
#endif
#if VH_IN(2)
        VH_BOUND2(VH_ONE) VH_ALL_WBOUND(VH_ONEW)
#endif
    };
    check_no_leak("bound structures", [&] {
        const Rng saved = ctx.rng;
        list[ctx.index % list.size()](ctx);
        ctx.rng = saved;
    });
}
#endif
#if VH_IN(3)
VH_PART(everything, 1600, 80000)
{
    check_no_leak("bound structures", [&] {
        const Rng saved = ctx.rng;
        {
            Everything e;
            gen(ctx.rng, e);
            const M want = to_m(e);
            ctx.seen(hash_m(want));
            round_trip(ctx, e, want, "a structure");
        }
        {
            Inner i;
            gen(ctx.rng, i);
            round_trip(ctx, i, to_m(i), "a small structure");
            round_trip(ctx, std::vector<Inner>{ i, i, Inner() }, seq_m(std::vector<Inner>{ i, i, Inner() }), "a vector of structures");
            std::map<std::string, Inner> m;
            gen(ctx.rng, m);
            round_trip(ctx, m, map_m(m), "a map of structures");
        }
        ctx.rng = saved;
    });
    if (ctx.want_sample()) ctx.sample("a structure of 27 fields through values, text and streams");
}
VH_PART(nested, 240, 20000)
{
    check_no_leak("nested structures", [&] {
        const Rng saved = ctx.rng;
        {
            Outer o;
            Outer* p = &o;
            for (size_t d = ctx.rng.below(3);; --d)
            {
                gen(ctx.rng, p->one);
                for (size_t n = ctx.rng.below(2); n; --n) { p->many.emplace_back(); gen(ctx.rng, p->many.back()); }
                if (d == 0) break;
                p->next.reset(new Outer());
                p = p->next.get();
            }
            const M want = to_m(o);
            ctx.seen(hash_m(want));
            round_trip(ctx, o, want, "nested structures");
            // a required name missing at any level
            json::value v = o;
            json::value* q = &v;
            while (q->count("next") && ctx.rng.chance(1, 2)) q = &(*q)["next"];
            std::vector<std::string> req;
            for (auto& f : fields<Everything>()) if (f.required) req.push_back(f.name);
            json::value e = (*q)["one"];
            e.erase(req[ctx.rng.below(req.size())]);
            bool threw = false;
            try { e.get<Everything>(); }
            catch (const std::exception&) { threw = true; }
            VH_CHECK(threw, "a structure lacking a required name is accepted: " << show(model<json>(e)));
            threw = false;
            json::value w = *q;
            w.erase(ctx.rng.chance(1, 2) ? "one" : "many");
            try { w.get<Outer>(); }
            catch (const std::exception&) { threw = true; }
            VH_CHECK(threw, "a nested structure lacking a required name is accepted: " << show(model<json>(w)));
            threw = false;
            try { std::vector<Inner> x = json::value(json::array{ json::object{ { "id", 1 } }, json::object{ { "text", "y" } } }); }
            catch (const std::exception&) { threw = true; }
            VH_CHECK(threw, "a vector of structures, one of them lacking a required name, is accepted");
        }
        ctx.rng = saved;
    });
}
VH_PART(subsets, 3000, 200000)
{
    check_no_leak("bound structures", [&] {
        const Rng saved = ctx.rng;
        subsets<Everything>(ctx, "a structure");
        subsets<Inner>(ctx, "a small structure");
        ctx.rng = saved;
    });
}
VH_PART(only_optional, 800, 8000)
{
    Rng& r = ctx.rng;
    OnlyOptional o;
    M want = M::obj();
    if (r.chance(1, 2)) gen(r, o.a);
    if (r.chance(1, 2)) gen(r, o.b);
    if (r.chance(1, 2)) gen(r, o.c);
    if (o.a) want.o.emplace_back(u("a"), to_m(o.a));
    if (o.b.size()) want.o.emplace_back(u("b"), to_m(o.b));
    if (o.c.size()) want.o.emplace_back(u("c"), to_m(o.c));
    const json::value v = o;
    if (want.o.empty()) VH_CHECK(v.is_null() || (v.is_object() && v.empty()), "a structure without members becomes " << show(model<json>(v)));
    else VH_CHECK(same(want, model<json>(v)), "becomes " << show(model<json>(v)) << " instead of " << show(want));
    OnlyOptional b = v.get<OnlyOptional>();
    VH_CHECK(b.a == o.a && b.b == o.b && b.c == o.c, "round trip");
    std::stringstream ss;
    ss << json::wrap(o);
    OnlyOptional c;
    auto w = json::wrap(c);
    ss >> w;
    VH_CHECK(c.a == o.a && c.b == o.b && c.c == o.c, "round trip through a stream");
    ctx.seen(hash_m(want));
    ctx.evals(1);
}
#endif
