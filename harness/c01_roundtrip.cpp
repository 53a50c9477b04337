// C01: dump then parse gives the same value, for every option, text width and value width.
#include "lib.hpp"
using namespace vh;

namespace
{
template <class J, class C>
void round(const M& m, const DumpOpt& o, Rng& r, bool build_mixed)
{
    const V<J> v    = build<J>(m, build_mixed ? &r : nullptr);
    const auto text = dump_as<J, C>(v, o);
    V<J>       back;
    try
    {
        back = parse_via<J, C>(r.chance(3, 4) ? SrcString : SrcChunked, text, 1 + r.below(9), r.chance(1, 2));
    }
    catch (const std::exception& e)
    {
        VH_FAIL("parsing dumped text failed: " << e.what() << "; options " << o.str() << " value " << show(m) << " text " << show(text));
    }
    const auto d = diff_text(m, model<J>(back), o, false);
    VH_CHECK(d.empty(), "value changed by dump and parse: " << d << "; options " << o.str() << " text " << show(text));
}
void round_any(const M& m, const DumpOpt& o, Rng& r, u64 which)
{
    switch (which % 4)
    {
    case 0: round<json, char>(m, o, r, which & 4); break;
    case 1: round<wjson, wchar_t>(m, o, r, which & 4); break;
    case 2: round<json, wchar_t>(m, o, r, which & 4); break;
    default: round<wjson, char>(m, o, r, which & 4); break;
    }
}
U32 sized(Rng& r, size_t n)
{
    U32       s;
    const u32 kind = u32(r.below(5));
    s.reserve(n);
    for (size_t i = 0; i < n; ++i)
        s += char32_t(kind == 0 ? 'x' : kind == 1 ? '\n' : kind == 2 ? 0x20AC : kind == 3 ? 0x1F600 : gen_cp(r));
    return s;
}
}  // namespace

VH_PART(random, 60000, 1500000)
{
    GenOpt g;
    g.depth  = ctx.rng.range(0, 6);
    g.width  = size_t(ctx.rng.range(1, 8));
    g.strlen = ctx.rng.chance(1, 10) ? 200 : 24;
    const M m = gen_value(ctx.rng, g);
    DumpOpt o = gen_dump_opt(ctx.rng);
    if (o.indent > 64 && nodes(m) > 40) o.indent = 4;
    if (ctx.want_sample()) ctx.sample(show(m) + " " + o.str());
    if (nodes(m) > 1) ctx.seen(hash_m(m));
    round_any(m, o, ctx.rng, ctx.rng.next() >> 7);
}

// every scalar value as key and string, escaped or not, in every pair of widths
VH_PART(codepoints, 1088, 1088)
{
    M arr = M::arr(), obj = M::obj(), all = M::arr();
    U32 run;
    for (u32 c = u32(ctx.index) * 1024; c < (u32(ctx.index) + 1) * 1024; ++c)
    {
        if (!scalar(c)) continue;
        arr.a.push_back(M::str(U32(1, char32_t(c))));
        obj.o.emplace_back(U32(1, char32_t(c)), M::integer(c));
        run += char32_t(c);
        ctx.seen(c);
    }
    arr.a.push_back(M::str(run));
    all.a.push_back(arr);
    all.a.push_back(obj);
    DumpOpt o;
    ctx.evals(arr.a.size() * 4);
    const bool everything = ctx.thorough || ctx.index < 80;
    for (int w = 0; w < 4; ++w)
        for (int e = 0; e < 2; ++e)
        {
            if (!everything && (ctx.index + u64(w)) % 4 != u64(e)) continue;
            o.escape = e;
            round_any(all, o, ctx.rng, u64(w));
        }
}

// every pair of characters the text format treats specially
VH_PART(pairs, 60, 200)
{
    static const u32 special[] = { 0, 1, 8, 9, 10, 12, 13, 0x1B, 0x1F, ' ', '"', '\\', '/', 'u', 'b', 'n', 't', '0', 'D', 'd', '{', '[', ',', ':', 0x7E, 0x7F, 0x80, 0x9F, 0xFF, 0x100, 0x7FF, 0x800,
                                   0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF };
    M m = M::arr();
    const u32 x = special[ctx.index % (sizeof special / sizeof *special)];
    for (u32 y : special)
    {
        U32 s;
        s += char32_t(x);
        s += char32_t(y);
        m.a.push_back(M::str(s));
        s += char32_t(gen_cp(ctx.rng));
        s += char32_t(x);
        M e = M::obj();
        e.o.emplace_back(s, M::str(s));
        m.a.push_back(e);
        ctx.seen(hash_str(s));
    }
    ctx.evals(m.a.size());
    DumpOpt o = gen_dump_opt(ctx.rng);
    for (u64 w = 0; w < 4; ++w) { o.escape = w & 1; round_any(m, o, ctx.rng, w + 4 * (ctx.index & 1)); o.escape = !o.escape; round_any(m, o, ctx.rng, w); }
}

// sizes of strings, keys, arrays and objects, and nesting depth
VH_PART(sizes, 420, 1200)
{
    const size_t n = kSizes[ctx.index % kNumSizes];
    M            m;
    switch ((ctx.index / kNumSizes) % 7)
    {
    case 0: m = M::str(sized(ctx.rng, n)); break;
    case 1: m = M::obj(); m.o.emplace_back(sized(ctx.rng, n), M::integer(1)); break;
    case 2: m = M::arr(); for (size_t i = 0; i < n; ++i) m.a.push_back(M::integer(int64_t(i))); break;
    case 3: m = M::obj(); for (size_t i = 0; i < n; ++i) m.o.emplace_back(u(std::to_string(i)), M::boolean(i & 1)); break;
    case 4:
    {
        // nesting
        const size_t d = std::min<size_t>(n, kDeep);
        const u64    shape = ctx.rng.below(3);
        m              = M::str(u("leaf"));
        for (size_t i = 0; i < d; ++i)
        {
            M e;
            if (shape == 1 || (shape == 2 && i % 3 == 2)) { e = M::obj(); e.o.emplace_back(u("k"), std::move(m)); }
            else { e = M::arr(); e.a.push_back(std::move(m)); }
            m = std::move(e);
        }
        break;
    }
    case 5: m = M::arr(); for (size_t i = 0; i < std::min<size_t>(n, 5000); ++i) m.a.push_back(i % 3 == 0 ? M::arr() : i % 3 == 1 ? M::obj() : M::null()); break;
    default: m = M::arr(); for (size_t i = 0; i < std::min<size_t>(n, 2000); ++i) m.a.push_back(M::str(sized(ctx.rng, ctx.rng.below(20)))); break;
    }
    ctx.seen(mix(ctx.index));
    DumpOpt o = gen_dump_opt(ctx.rng);
    if (o.indent > 4) o.indent = 2;
    round_any(m, o, ctx.rng, ctx.rng.next() >> 7);
}

// numbers under every notation and precision
VH_PART(numbers, 6000, 150000)
{
    M m = M::arr();
    for (int i = 0; i < 20; ++i)
    {
        m.a.push_back(M::flt(gen_dbl(ctx.rng)));
        m.a.push_back(M::integer(gen_int(ctx.rng)));
    }
    ctx.seen(hash_m(m));
    ctx.evals(40);
    DumpOpt o = gen_dump_opt(ctx.rng);
    o.prec    = int(ctx.index % 42) - 1;
    const u64 k = (ctx.index / 42) % 4;
    o.flags = k == 0 ? std::ios::fmtflags() : k == 1 ? std::ios::scientific : k == 2 ? std::ios::fixed : (std::ios::fixed | std::ios::scientific);
    o.indent = o.indent ? 1 : 0;
    round_any(m, o, ctx.rng, ctx.rng.next() >> 7);
}

// values of a million and more of something
VH_PART(millions, 8, 32)
{
    auto&        r = ctx.rng;
    const size_t n = (size_t(1) << (ctx.thorough ? 22 : 20)) + r.below(5000);
    json::value  v;
    ctx.seen(mix(ctx.index ^ n));
    switch (ctx.index % 4)
    {
    case 0:
        v = value_constant::array;
        for (size_t i = 0; i < n; ++i) v.emplace_back(int64_t(i % 1000) - 500);
        break;
    case 1:
    {
        std::string s;
        for (size_t i = 0; i < n; ++i) s += char(i % 95 + 32);
        v = std::move(s);
        break;
    }
    case 2:
        v = value_constant::object;
        for (size_t i = 0; i < n / 8; ++i) v["key" + std::to_string(i)] = i % 3 == 0;
        break;
    default:
        v = value_constant::array;
        for (size_t i = 0; i < n / 8; ++i)
        {
            v.emplace_back();
            v[i]["a"][size_t(0)] = double(i % 1000) / 8;  // six digits
        }
        break;
    }
    std::string text;
    if (ctx.index / 4 % 2)
    {
        std::ostringstream os;
        os << json::wrap(v);
        text = os.str();
    }
    else
        text = json::dump(v);
    VH_CHECK(text.size() >= n / 2 && text.size() <= 16 * n, "the text of " << n << " of something has " << text.size() << " characters");
    const json::value b = json::parse(text);
    VH_CHECK(b.type() == v.type() && b.size() == v.size(), "a value with " << v.size() << " elements came back with " << b.size());
    VH_CHECK(b == v, "a value of " << n << " of something (#" << ctx.index % 4 << ") came back changed");
    ctx.evals(1);
}
