// C12: all six operators on pairs of values and on values with scalars, against a comparison of the models.
#include "lib.hpp"
using namespace vh;

namespace
{
template <class C> int cmp_str(const U32& a, const U32& b)
{
    const auto x = Enc<C>::put(a), y = Enc<C>::put(b);
    return x < y ? -1 : y < x ? 1 : 0;
}
template <class T> int cmp3(T a, T b) { return a < b ? -1 : b < a ? 1 : 0; }

// equality of contents; the members of objects are sorted
bool eq(const M& a, const M& b)
{
    if (a.k == M::Int && b.k == M::Flt) return double(a.i) == b.f;
    if (a.k == M::Flt && b.k == M::Int) return a.f == double(b.i);
    if (a.k != b.k) return false;
    switch (a.k)
    {
    case M::Null: return true;
    case M::Bool: return a.b == b.b;
    case M::Int: return a.i == b.i;
    case M::Flt: return a.f == b.f;
    case M::Str: return a.s == b.s;
    case M::Arr:
        if (a.a.size() != b.a.size()) return false;
        for (size_t i = 0; i < a.a.size(); ++i) if (!eq(a.a[i], b.a[i])) return false;
        return true;
    default:
        if (a.o.size() != b.o.size()) return false;
        for (size_t i = 0; i < a.o.size(); ++i) if (a.o[i].first != b.o[i].first || !eq(a.o[i].second, b.o[i].second)) return false;
        return true;
    }
}
// order of contents, 0 when neither is less
template <class C> int ord(const M& a, const M& b)
{
    if (a.k == M::Int && b.k == M::Flt) return cmp3(double(a.i), b.f);
    if (a.k == M::Flt && b.k == M::Int) return cmp3(a.f, double(b.i));
    if (a.k != b.k) return 0;
    switch (a.k)
    {
    case M::Null: return 0;
    case M::Bool: return cmp3(int(a.b), int(b.b));
    case M::Int: return cmp3(a.i, b.i);
    case M::Flt: return cmp3(a.f, b.f);
    case M::Str: return cmp_str<C>(a.s, b.s);
    case M::Arr:
        for (size_t i = 0; i < a.a.size() && i < b.a.size(); ++i) if (const int c = ord<C>(a.a[i], b.a[i])) return c;
        return cmp3(a.a.size(), b.a.size());
    default:
        for (size_t i = 0; i < a.o.size() && i < b.o.size(); ++i)
        {
            if (const int c = cmp_str<C>(a.o[i].first, b.o[i].first)) return c;
            if (const int c = ord<C>(a.o[i].second, b.o[i].second)) return c;
        }
        return cmp3(a.o.size(), b.o.size());
    }
}

// one small change somewhere
M mutate(Rng& r, M m)
{
    GenOpt g;
    g.depth = 1;
    if (m.k == M::Arr && !m.a.empty() && r.chance(3, 4))
    {
        const size_t i = r.below(m.a.size());
        switch (r.below(6))
        {
        case 0: m.a.pop_back(); return m;
        case 1: m.a.push_back(gen_scalar(r, g)); return m;
        case 2: std::swap(m.a[i], m.a[r.below(m.a.size())]); return m;
        default: m.a[i] = mutate(r, m.a[i]); return m;
        }
    }
    if (m.k == M::Obj && !m.o.empty() && r.chance(3, 4))
    {
        const size_t i = r.below(m.o.size());
        switch (r.below(6))
        {
        case 0: m.o.erase(m.o.begin() + long(i)); return m;
        case 1: m.member(gen_key(r)) = gen_scalar(r, g); return m;
        case 2: { M x = m.o[i].second; m.o.erase(m.o.begin() + long(i)); m.member(gen_key(r)) = x; return m; }
        default: m.o[i].second = mutate(r, m.o[i].second); return m;
        }
    }
    switch (m.k)
    {
    case M::Bool: m.b = !m.b; return m;
    case M::Int: if (r.chance(1, 3)) return M::flt(double(m.i)); m.i = r.chance(1, 2) ? m.i ^ 1 : m.i == INT64_MIN ? 0 : -m.i; return m;
    case M::Flt: if (r.chance(1, 3) && std::fabs(m.f) < 9e18) return M::integer(int64_t(m.f)); m.f = r.chance(1, 2) ? -m.f : std::nextafter(m.f, 1e300); return m;
    case M::Str: if (!m.s.empty() && r.chance(1, 2)) m.s.pop_back(); else m.s += r.chance(1, 4) ? char32_t(0) : r.chance(1, 2) ? char32_t('a') : char32_t(0x1F600); return m;
    default: return gen_scalar(r, g);
    }
}

template <class A, class B>
void laws(const A& a, const B& b, bool e, int o, const char* what, const M& x, const M& y)
{
    auto S2 = [&] { return std::string(S() << what << ": " << show(x, 150) << " and " << show(y, 150)); };
    const bool eqab = a == b, eqba = b == a, neab = a != b, neba = b != a, lt = a < b, gt = a > b, le = a <= b, ge = a >= b, rlt = b < a, rgt = b > a, rle = b <= a, rge = b >= a;
    VH_CHECK(eqab == e && eqba == e, "== says " << eqab << " and " << eqba << " for " << S2());
    VH_CHECK(neab == !e && neba == !e, "!= is not the negation of == for " << S2());
    VH_CHECK(lt == (o < 0) && rlt == (o > 0), "< says " << lt << " and " << rlt << " for " << S2());
    VH_CHECK(gt == rlt && rgt == lt, "> is not < with sides exchanged for " << S2());
    VH_CHECK(le == !gt && ge == !lt && rle == !rgt && rge == !rlt, "<= or >= is not the negation of > or < for " << S2());
}

template <class J> void pair_case(Ctx& ctx)
{
    using C = Ch<J>;
    auto&  r = ctx.rng;
    GenOpt g;
    g.depth = unsigned(1 + r.below(4));
    g.width = unsigned(1 + r.below(6));
    M x = r.chance(1, 4) ? gen_scalar(r, g) : gen_value(r, g), y;
    switch (r.below(6))
    {
    case 0: y = x; break;
    case 1: y = r.chance(1, 2) ? gen_scalar(r, g) : gen_value(r, g); break;
    default: y = mutate(r, x); if (r.chance(1, 4)) y = mutate(r, y); break;
    }
    x = sorted<C>(x);
    y = sorted<C>(y);
    ctx.seen(mix(hash_m(x)) ^ hash_m(y));
    const auto a = build<J>(x, &r), b = build<J>(y, &r);
    laws(a, b, eq(x, y), ord<C>(x, y), "values", x, y);
    laws(a, a, true, 0, "a value with itself", x, x);
    const auto c = a;
    laws(a, c, true, 0, "a value with its copy", x, x);
    ctx.count(x.k == y.k ? "pairs_of_one_kind" : "pairs_of_two_kinds");
    if (ctx.want_sample()) ctx.sample(show(x) + " / " + show(y));
    const auto d = diff(x, model<J>(a));
    VH_CHECK(d.empty(), "comparing changed a value: " << d);
    ctx.evals(3);
}

template <class J, class T> void scalar(Ctx& ctx, const V<J>& a, const M& x, T s, const M& y, const char* what)
{
    using C = Ch<J>;
    laws(a, s, eq(x, y), ord<C>(x, y), what, x, y);
    const V<J> v(s);
    const auto d = diff(y, model<J>(v));
    VH_CHECK(d.empty(), "the value made from " << what << ": " << d);
    VH_CHECK((a == s) == (a == v) && (a < s) == (a < v) && (s < a) == (v < a) && (a <= s) == (a <= v) && (s >= a) == (v >= a), "comparing with a scalar differs from comparing with its value: " << what << " " << show(y) << " and " << show(x));
    ctx.evals(1);
}
template <class J> void scalar_case(Ctx& ctx)
{
    using C = Ch<J>;
    auto&   r = ctx.rng;
    GenOpt  g;
    const int64_t i = gen_int(r);
    const double  f = gen_dbl(r);
    const bool    b = r.chance(1, 2);
    U32 t;
    for (u64 n = r.below(8); n; --n) t += char32_t(1 + r.below(300));
    const auto ts = Enc<C>::put(t);
    M x;
    switch (r.below(9))
    {
    case 0: x = M::integer(i); break;
    case 1: x = M::flt(f); break;
    case 2: x = M::boolean(b); break;
    case 3: x = M::str(t); break;
    case 4: x = M::flt(double(i)); break;
    case 5: x = M::integer(std::fabs(f) < 9e18 ? int64_t(f) : 0); break;
    case 6: x = mutate(r, r.chance(1, 2) ? M::integer(i) : M::str(t)); break;
    case 7: x = M::integer(int64_t(r.below(600)) - 300); break;
    default: x = gen_value(r, g);
    }
    x = sorted<C>(x);
    const auto a = build<J>(x, &r);
    ctx.seen(mix(hash_m(x)) ^ u64(i) ^ u64(b));
    scalar<J>(ctx, a, x, i, M::integer(i), "int64_t");
    scalar<J>(ctx, a, x, int(i), M::integer(int(i)), "int");
    scalar<J>(ctx, a, x, short(i), M::integer(short(i)), "short");
    scalar<J>(ctx, a, x, (signed char)(i), M::integer((signed char)(i)), "signed char");
    scalar<J>(ctx, a, x, (unsigned char)(i), M::integer((unsigned char)(i)), "unsigned char");
    scalar<J>(ctx, a, x, unsigned(i), M::integer(unsigned(i)), "unsigned");
    scalar<J>(ctx, a, x, (unsigned long)(i & INT64_MAX), M::integer(i & INT64_MAX), "unsigned long");
    scalar<J>(ctx, a, x, f, M::flt(f), "double");
    if (std::fabs(f) < 3e38) scalar<J>(ctx, a, x, float(f), M::flt(float(f)), "float");
    scalar<J>(ctx, a, x, (long double)(f), M::flt(f), "long double");
    scalar<J>(ctx, a, x, b, M::boolean(b), "bool");
    scalar<J>(ctx, a, x, nullptr, M::null(), "null pointer");
    scalar<J>(ctx, a, x, ts.c_str(), M::str(t), "C string");
}
}  // namespace

VH_PART(pairs, 240000, 4000000)
{
    if (ctx.index % 2) pair_case<json>(ctx);
    else pair_case<wjson>(ctx);
}
VH_PART(scalars, 24000, 800000)
{
    if (ctx.index % 2) scalar_case<json>(ctx);
    else scalar_case<wjson>(ctx);
}
// every kind against every kind with boundary contents, exhaustively
VH_PART(matrix, 1, 1)
{
    std::vector<M> all = { M::null(), M::boolean(false), M::boolean(true) };
    for (int64_t i : { int64_t(0), int64_t(1), int64_t(-1), int64_t(2), INT64_MAX, INT64_MIN, INT64_MAX - 1, int64_t(1) << 53, (int64_t(1) << 53) + 1, int64_t(1) << 32 }) all.push_back(M::integer(i));
    for (double f : { 0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e300, -1e300, 5e-324, 9007199254740992.0, 9007199254740994.0, 9223372036854775807.0, -9223372036854775808.0, double(INFINITY), -double(INFINITY) }) all.push_back(M::flt(f));
    for (const char* s : { "", "a", "b", "ab", "0", "false", "null" }) all.push_back(M::str(u(s)));
    all.push_back(M::str(U32(1, 0x80)));
    all.push_back(M::str(U32(1, 0xFFFF)));
    all.push_back(M::str(U32(1, 0x10000)));
    all.push_back(M::str(U32(1, 0)));
    all.push_back(M::str(U32(2, 0)));
    const size_t scal = all.size();
    all.push_back(M::arr());
    all.push_back(M::obj());
    for (size_t i = 0; i < scal; ++i) { M a = M::arr(); a.a.push_back(all[i]); all.push_back(a); M o = M::obj(); o.member(u("k")) = all[i]; all.push_back(o); M c = a; c.a.push_back(M::null()); all.push_back(c); M d = M::arr(); d.a.push_back(a); all.push_back(d); }
    { M o = M::obj(); o.member(u("j")) = M::integer(9); all.push_back(o); o.member(u("k")) = M::integer(0); all.push_back(o); }
    std::vector<json::value>  n;
    std::vector<wjson::value> w;
    for (auto& m : all) { n.push_back(build<json>(m)); w.push_back(build<wjson>(m)); }
    for (size_t i = 0; i < all.size(); ++i)
        for (size_t j = 0; j < all.size(); ++j)
        {
            laws(n[i], n[j], eq(all[i], all[j]), ord<char>(all[i], all[j]), "values", all[i], all[j]);
            laws(w[i], w[j], eq(all[i], all[j]), ord<wchar_t>(all[i], all[j]), "wide values", all[i], all[j]);
            ctx.seen(i * 1000 + j);
        }
    ctx.evals(all.size() * all.size() * 2);
}
// long and deep values that differ only at the far end; the time must not depend exponentially on the depth
VH_PART(deep, 240, 2400)
{
    auto&        r = ctx.rng;
    const size_t depth = r.pick(std::vector<size_t>{ 1, 2, 10, 33, 100, 300, 500 });
    M            x = gen_scalar(r, GenOpt()), y = r.chance(1, 3) ? x : mutate(r, x);
    for (size_t d = 0; d < depth; ++d)
    {
        M a, b;
        if (r.chance(1, 2))
        {
            a = b = M::arr();
            for (u64 n = r.below(3); n; --n) { M e = gen_scalar(r, GenOpt()); a.a.push_back(e); b.a.push_back(e); }
            a.a.push_back(std::move(x));
            b.a.push_back(std::move(y));
        }
        else
        {
            a = b = M::obj();
            a.member(u("k")) = std::move(x);
            b.member(u("k")) = std::move(y);
        }
        x = std::move(a);
        y = std::move(b);
    }
    ctx.seen(mix(hash_m(x)) ^ hash_m(y));
    const auto a = build<json>(x), b = build<json>(y);
    laws(a, b, eq(x, y), ord<char>(x, y), "deep values", x, y);
    // wide
    M p = M::arr(), q;
    const size_t n = std::min<size_t>(kSizes[ctx.index % kNumSizes], 5000);
    for (size_t i = 0; i < n; ++i) p.a.push_back(M::integer(int64_t(i)));
    q = p;
    if (n) q.a[r.chance(1, 2) ? n - 1 : r.below(n)] = M::integer(-7);
    laws(build<json>(p), build<json>(q), eq(p, q), ord<char>(p, q), "long values", p, q);
    M s = M::str(U32(n, 'x')), t = M::str(U32(n, 'x') + U32(1, 'y'));
    laws(build<json>(s), build<json>(t), false, -1, "long strings", s, t);
}
// NaN: the laws between the operators that do not need reflexivity
VH_PART(nan, 1, 1)
{
    const json::value n(std::nan("")), others[] = { json::value(1), json::value(1.5), json::value(nullptr), json::value(std::nan("")), json::value(true) };
    for (auto& o : others)
    {
        VH_CHECK(!(n == o) && n != o && !(n < o) && !(n > o) && !(o < n) && n <= o && n >= o, "laws with NaN");
        ctx.seen(u64(o.type()));
    }
}
