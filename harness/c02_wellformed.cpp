// C02: dumped text is RFC 8259 text that an independent strict reader reads as the value; what JSON cannot represent
// gives a serialization error.
#include "lib.hpp"
using namespace vh;

namespace
{
template <class C>
void check_text(const M& m, const std::basic_string<C>& text, const DumpOpt& o)
{
    U32 t;
    VH_CHECK(Enc<C>::get(text, t), "dumped text is not well-formed Unicode; options " << o.str() << " value " << show(m) << " text " << show(text));
    RefReader rd(t, true);
    M         got;
    const auto verdict = rd.read(got);
    VH_CHECK(verdict == Verdict::Accept, "dumped text is not JSON (at " << rd.p << "); options " << o.str() << " value " << show(m) << " text " << show(text));
    VH_CHECK(!rd.dup, "dumped text repeats a key; value " << show(m) << " text " << show(text));
    const auto d = diff_text(m, got, o, true);
    VH_CHECK(d.empty(), "dumped text denotes another value: " << d << "; options " << o.str() << " text " << show(text));
    if (o.escape)
        for (u32 c : t) VH_CHECK(c < 0x80, "non-ASCII text with Unicode escaping: " << show(text));
    if (!o.indent) VH_CHECK(rd.outer_ws == 0, "whitespace in compact text: " << show(text));
}
template <class J, class C>
void one(const M& m, const DumpOpt& o, Rng& r)
{
    const V<J> v = build<J>(m, &r);
    check_text<C>(m, dump_via<J, C>(int(r.below(SnkKinds)), v, o, 1 + r.below(9)), o);
}
void any(const M& m, const DumpOpt& o, Rng& r, u64 w)
{
    switch (w % 4)
    {
    case 0: one<json, char>(m, o, r); break;
    case 1: one<wjson, wchar_t>(m, o, r); break;
    case 2: one<json, wchar_t>(m, o, r); break;
    default: one<wjson, char>(m, o, r); break;
    }
}
template <class J, class C>
void must_fail(const V<J>& v, const DumpOpt& o, Rng& r, const std::string& what)
{
    std::basic_string<C> text;
    bool                 ok = false;
    try
    {
        text = dump_via<J, C>(int(r.below(SnkKinds)), v, o, 1 + r.below(9));
        ok   = true;
    }
    catch (const configor::configor_serialization_error&) {}
    catch (const std::exception& e) { VH_FAIL("dumping " << what << " threw something other than a serialization error: " << e.what()); }
    VH_CHECK(!ok, "dumping " << what << " succeeded with " << show(text) << " options " << o.str());
}
// puts the offending value somewhere inside an otherwise valid value
template <class J>
V<J> embed(V<J> bad, Rng& r)
{
    for (u64 n = r.below(4); n; --n)
    {
        if (r.chance(1, 2))
        {
            V<J> a(value_constant::array);
            for (u64 k = r.below(3); k; --k) a.push_back(build<J>(gen_scalar(r, GenOpt())));
            a.push_back(bad);
            for (u64 k = r.below(3); k; --k) a.push_back(build<J>(gen_scalar(r, GenOpt())));
            bad = a;
        }
        else
        {
            V<J> a(value_constant::object);
            a[Enc<Ch<J>>::put(gen_key(r))] = build<J>(gen_scalar(r, GenOpt()));
            a[Enc<Ch<J>>::put(u("bad"))]   = bad;
            bad = a;
        }
    }
    return bad;
}
std::string bad8(Rng& r)
{
    static const char* const l[] = { "\x80", "\xBF", "\xC0\x80", "\xC1\xBF", "\xC2", "\xC2\x41", "\xC2\xC2", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xE1\x80", "\xE1\x80\x41", "\xE1\x41", "\xE1",
                                     "\xED\xA0\x80", "\xED\xBF\xBF", "\xED\xA0\xBD\xED\xB8\x80", "\xEF\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF0\x90\x80", "\xF0\x90", "\xF0", "\xF0\x90\x80\x41",
                                     "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF7\xBF\xBF\xBF", "\xF8\x88\x80\x80\x80", "\xFC\x84\x80\x80\x80\x80", "\xFE", "\xFF", "\xFF\xFF", "\xFE\xFF" };
    if (r.chance(2, 3)) return r.pick(l);
    for (;;)
    {
        std::string s;
        for (u64 n = 1 + r.below(4); n; --n) s += char(0x80 + r.below(0x80));
        U32 d;
        if (!from8(s, d)) return s;
    }
}
std::wstring badw(Rng& r)
{
    static const u32 l[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x80000041, 0xFFFF0000 };
    return std::wstring(1, wchar_t(r.pick(l)));
}
}  // namespace

VH_PART(random, 60000, 1500000)
{
    GenOpt g;
    g.depth  = ctx.rng.range(0, 6);
    g.width  = size_t(ctx.rng.range(1, 8));
    g.strlen = ctx.rng.chance(1, 10) ? 200 : 24;
    const M m = gen_value(ctx.rng, g);
    DumpOpt o = gen_dump_opt(ctx.rng);
    if (o.indent > 64 && nodes(m) > 40) o.indent = 4;
    if (ctx.want_sample()) ctx.sample(show(m) + " " + o.str());
    if (nodes(m) > 1) ctx.seen(hash_m(m));
    any(m, o, ctx.rng, ctx.rng.next() >> 7);
}

VH_PART(codepoints, 1088, 1088)
{
    M all = M::arr();
    U32 run;
    for (u32 c = u32(ctx.index) * 1024; c < (u32(ctx.index) + 1) * 1024; ++c)
    {
        if (!scalar(c)) continue;
        all.a.push_back(M::str(U32(1, char32_t(c))));
        run += char32_t(c);
        ctx.seen(c);
    }
    M o1 = M::obj();
    o1.o.emplace_back(run, M::str(run));
    all.a.push_back(o1);
    ctx.evals(all.a.size() * 4);
    DumpOpt o;
    const bool everything = ctx.thorough || ctx.index < 80;
    for (u64 w = 0; w < 4; ++w)
        for (int e = 0; e < 2; ++e)
        {
            if (!everything && (ctx.index + w) % 4 != u64(e)) continue;
            o.escape = e;
            any(all, o, ctx.rng, w);
        }
}

VH_PART(numbers, 6000, 150000)
{
    M m = M::arr();
    for (int i = 0; i < 20; ++i)
    {
        m.a.push_back(M::flt(gen_dbl(ctx.rng)));
        m.a.push_back(M::integer(gen_int(ctx.rng)));
    }
    ctx.seen(hash_m(m));
    ctx.evals(40);
    DumpOpt o = gen_dump_opt(ctx.rng);
    o.prec    = int(ctx.index % 42) - 1;
    const u64 k = (ctx.index / 42) % 4;
    o.flags = k == 0 ? std::ios::fmtflags() : k == 1 ? std::ios::scientific : k == 2 ? std::ios::fixed : (std::ios::fixed | std::ios::scientific);
    any(m, o, ctx.rng, ctx.rng.next() >> 7);
}

VH_PART(sizes, 420, 1200)
{
    const size_t n = kSizes[ctx.index % kNumSizes];
    M            m;
    switch ((ctx.index / kNumSizes) % 7)
    {
    case 0: case 1:
    {
        U32       s;
        const u32 kind = u32(ctx.rng.below(4));
        for (size_t i = 0; i < n; ++i) s += char32_t(kind == 0 ? 'x' : kind == 1 ? 1 : kind == 2 ? 0x20AC : gen_cp(ctx.rng));
        if ((ctx.index / kNumSizes) % 7 == 0) m = M::str(s);
        else { m = M::obj(); m.o.emplace_back(s, M::null()); }
        break;
    }
    case 2: m = M::arr(); for (size_t i = 0; i < n; ++i) m.a.push_back(M::integer(int64_t(i))); break;
    case 3: m = M::obj(); for (size_t i = 0; i < std::min<size_t>(n, 5000); ++i) m.o.emplace_back(u(std::to_string(i)), M::boolean(i & 1)); break;
    case 4:
    {
        m = M::null();
        for (size_t i = 0; i < std::min<size_t>(n, 1025); ++i)
        {
            M e;
            if (i % 3 == 2) { e = M::obj(); e.o.emplace_back(u("k"), std::move(m)); }
            else { e = M::arr(); e.a.push_back(std::move(m)); }
            m = std::move(e);
        }
        break;
    }
    case 5: m = M::arr(); for (size_t i = 0; i < std::min<size_t>(n, 5000); ++i) m.a.push_back(i % 3 == 0 ? M::arr() : i % 3 == 1 ? M::obj() : M::null()); break;
    default: m = M::arr(); for (size_t i = 0; i < std::min<size_t>(n, 5000); ++i) m.a.push_back(M::flt(gen_dbl(ctx.rng))); break;
    }
    ctx.seen(mix(ctx.index));
    DumpOpt o = gen_dump_opt(ctx.rng);
    if (o.indent > 4) o.indent = 2;
    any(m, o, ctx.rng, ctx.rng.next() >> 7);
}

// infinities and NaNs
VH_PART(nonfinite, 4000, 40000)
{
    static const double l[] = { INFINITY, -INFINITY, NAN, -NAN };
    double d = ctx.rng.pick(l);
    if (ctx.rng.chance(1, 4)) { u64 b = 0x7FF0000000000001ull | (ctx.rng.next() & 0x800FFFFFFFFFFFFFull); memcpy(&d, &b, 8); }
    const DumpOpt o = gen_dump_opt(ctx.rng);
    ctx.seen(hash_bytes(&d, 8, hash_str(o.str())));
    const std::string what = "a non-finite float";
    switch (ctx.rng.below(4))
    {
    case 0: must_fail<json, char>(embed<json>(json::value(d), ctx.rng), o, ctx.rng, what); break;
    case 1: must_fail<wjson, wchar_t>(embed<wjson>(wjson::value(d), ctx.rng), o, ctx.rng, what); break;
    case 2: must_fail<json, wchar_t>(embed<json>(json::value(d), ctx.rng), o, ctx.rng, what); break;
    default: must_fail<wjson, char>(embed<wjson>(wjson::value(d), ctx.rng), o, ctx.rng, what); break;
    }
}

// strings and keys that are not well-formed in the source encoding
VH_PART(illformed, 12000, 200000)
{
    const DumpOpt o = gen_dump_opt(ctx.rng);
    const U32 pre = gen_str(ctx.rng, 6), post = ctx.rng.chance(1, 2) ? U32() : gen_str(ctx.rng, 6);
    const bool key = ctx.rng.chance(1, 3);
    if (ctx.rng.chance(1, 2))
    {
        // what follows must not complete the sequence
        const std::string s = to8(pre) + bad8(ctx.rng) + to8(post);
        ctx.seen(hash_str(s));
        json::value v;
        if (key) { v = json::value(value_constant::object); v[s] = 1; }
        else v = s;
        v = embed<json>(v, ctx.rng);
        if (ctx.rng.chance(1, 2)) must_fail<json, char>(v, o, ctx.rng, "ill-formed UTF-8 " + show(s));
        else must_fail<json, wchar_t>(v, o, ctx.rng, "ill-formed UTF-8 " + show(s));
    }
    else
    {
        const std::wstring s = to32(pre) + badw(ctx.rng) + to32(post);
        ctx.seen(hash_str(s));
        wjson::value v;
        if (key) { v = wjson::value(value_constant::object); v[s] = 1; }
        else v = s;
        v = embed<wjson>(v, ctx.rng);
        if (ctx.rng.chance(1, 2)) must_fail<wjson, wchar_t>(v, o, ctx.rng, "ill-formed UTF-32 " + show(s));
        else must_fail<wjson, char>(v, o, ctx.rng, "ill-formed UTF-32 " + show(s));
    }
}
