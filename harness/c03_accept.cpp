// C03: every well-formed document parses to the value it denotes, however it is spelled.
#include "lib.hpp"
using namespace vh;

namespace
{
template <class J, class C>
void expect(const U32& text, const M& want, Rng& r, const char* what)
{
    const auto enc  = Enc<C>::put(text);
    int        kind = int(r.below(SrcKinds));
    // extraction needs a non-empty stream, a wide file a wide locale
    if (sizeof(C) > 1 && kind == SrcFile) kind = SrcString;
    if (kind == SrcAdapter && enc.size() > 20000) kind = SrcStream;
    Outcome o = outcome_of<J>([&] { return parse_any<J, C>(kind, enc, 1 + r.below(9), r.chance(1, 2)); });
    VH_CHECK(o.ok, what << ": rejected by " << source_name(kind) << " (" << o.err << "): " << show(text, 600));
    Tol t = read_tol();
    const auto d = diff(want, o.m, t);
    VH_CHECK(d.empty(), what << ": read wrongly from " << source_name(kind) << ": " << d << "; text " << show(text, 600));
}
void expect_any(const U32& text, const M& want, Rng& r, u64 w, const char* what)
{
    // the other widths of UTF-16 and UTF-32 (the traits of char16_t do not have U+FFFF)
    if (r.chance(1, 12))
    {
        if (w & 1) expect<json, char32_t>(text, want, r, what);
        else if (text.find(char32_t(0xFFFF)) == text.npos) expect<wjson, char16_t>(text, want, r, what);
        return;
    }
    switch (w % 4)
    {
    case 0: expect<json, char>(text, want, r, what); break;
    case 1: expect<wjson, wchar_t>(text, want, r, what); break;
    case 2: expect<json, wchar_t>(text, want, r, what); break;
    default: expect<wjson, char>(text, want, r, what); break;
    }
}
void hex4(U32& t, u32 v, int style)
{
    static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
    for (int k = 12; k >= 0; k -= 4)
    {
        const char* d = style == 0 ? lo : style == 1 ? up : (k & 4) ? lo : up;
        t += char32_t(d[(v >> k) & 15]);
    }
}
}  // namespace

VH_PART(documents, 90000, 2500000)
{
    DocOpt o;
    o.comments = ctx.rng.chance(1, 2);
    o.plus     = ctx.rng.chance(1, 3);
    o.dup      = ctx.rng.chance(1, 2);
    o.ws       = ctx.rng.chance(3, 4);
    o.ascii    = ctx.rng.chance(1, 4);
    o.depth    = ctx.rng.range(0, 6);
    o.width    = size_t(ctx.rng.range(1, 7));
    DocGen  g(ctx.rng, o);
    const M m = g.doc();
    if (ctx.want_sample()) ctx.sample(show(g.t));
    if (g.t.size() > 4) ctx.seen(hash_str(g.t));
    expect_any(g.t, m, ctx.rng, ctx.index, "document");
}

// the generated document must agree with the reference reader too, so that generator and reader check each other
VH_PART(crosscheck, 10000, 100000)
{
    DocOpt o;
    o.comments = ctx.rng.chance(1, 2);
    o.plus     = ctx.rng.chance(1, 3);
    o.dup      = ctx.rng.chance(1, 2);
    DocGen     g(ctx.rng, o);
    const M    m = g.doc();
    RefReader  rd(g.t);
    M          got;
    const auto v = rd.read(got);
    ctx.count(v == Verdict::Accept ? "reference_accepts" : "reference_unspecified");
    VH_CHECK(v != Verdict::Reject, "harness: reference reader rejects " << show(g.t, 600));
    const auto d = diff(m, got);
    VH_CHECK(d.empty(), "harness: reference reader differs: " << d << " in " << show(g.t, 600));
}

// every \uXXXX outside the surrogates, in lower, upper and mixed case
VH_PART(escapes, 256, 256)
{
    for (int style = 0; style < 3; ++style)
    {
        U32 text = u("["), run;
        M   m    = M::arr();
        for (u32 c = u32(ctx.index) * 256; c < u32(ctx.index + 1) * 256; ++c)
        {
            if (!scalar(c)) continue;
            if (!m.a.empty()) text += U',';
            text += U'"';
            text += u("\\u");
            hex4(text, c, style);
            text += U'"';
            m.a.push_back(M::str(U32(1, char32_t(c))));
            run += char32_t(c);
            ctx.seen(mix(c) + u64(style));
        }
        ctx.evals(m.a.size());
        // and all of them in one string
        if (!m.a.empty()) text += U',';
        text += U'"';
        for (u32 c : run) { text += u("\\u"); hex4(text, c, style); }
        text += U'"';
        m.a.push_back(M::str(run));
        text += U']';
        for (u64 w = 0; w < 4; ++w) expect_any(text, m, ctx.rng, w, "escapes");
    }
}

// surrogate pairs: every lead surrogate with boundary and random trails (all trails when thorough)
VH_PART(pairs, 1024, 1024)
{
    const u32 lead = 0xD800 + u32(ctx.index);
    U32       text = u("["), run;
    M         m    = M::arr();
    auto      add  = [&](u32 trail)
    {
        const u32 c = 0x10000 + ((lead - 0xD800) << 10) + (trail - 0xDC00);
        if (!m.a.empty()) text += U',';
        text += u("\"\\u");
        hex4(text, lead, int(trail % 3));
        text += u("\\u");
        hex4(text, trail, int((trail + lead) % 3));
        text += U'"';
        m.a.push_back(M::str(U32(1, char32_t(c))));
        ctx.seen(c);
    };
    if (ctx.thorough)
        for (u32 t = 0xDC00; t <= 0xDFFF; ++t) add(t);
    else
    {
        for (u32 t : { 0xDC00u, 0xDC01u, 0xDCFFu, 0xDD00u, 0xDDFFu, 0xDE00u, 0xDF00u, 0xDFFEu, 0xDFFFu }) add(t);
        for (int i = 0; i < 24; ++i) add(0xDC00 + u32(ctx.rng.below(1024)));
    }
    text += U']';
    ctx.evals(m.a.size());
    expect_any(text, m, ctx.rng, ctx.index, "surrogate pairs");
}

VH_PART(sizes, 840, 1800)
{
    const size_t n    = kSizes[ctx.index % kNumSizes];
    const u64    kind = (ctx.index / kNumSizes) % 14;
    U32          t;
    M            m;
    auto&        r = ctx.rng;
    switch (kind)
    {
    case 0: { U32 s; for (size_t i = 0; i < n; ++i) s += char32_t('a' + i % 26); t = u("\"") + s + u("\""); m = M::str(s); break; }
    case 1: { DocGen g(r, DocOpt()); U32 s; for (size_t i = 0; i < n; ++i) s += char32_t(gen_cp(r)); g.string(s); t = g.t; m = M::str(s); break; }
    case 2: { DocGen g(r, DocOpt()); U32 s; for (size_t i = 0; i < n; ++i) s += char32_t(gen_cp(r)); g.string(s); t = u("{") + g.t + u(":[]}"); m = M::obj(); m.o.emplace_back(s, M::arr()); break; }
    case 3: { m = M::arr(); t = u("["); for (size_t i = 0; i < n; ++i) { t += u((i ? "," : "") + std::to_string(i)); m.a.push_back(M::integer(int64_t(i))); } t += u("]"); break; }
    case 4: { m = M::obj(); t = u("{"); for (size_t i = 0; i < n; ++i) { t += u((i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + std::to_string(i)); m.o.emplace_back(u("k" + std::to_string(i)), M::integer(int64_t(i))); } t += u("}"); break; }
    case 5: { t = U32(n, U' ') + u("[") + U32(n, U'\n') + u("1") + U32(n, U'\t') + u(",") + U32(n, U'\r') + u("2") + U32(n, U' ') + u("]") + U32(n, U'\n'); m = M::arr(); m.a = { M::integer(1), M::integer(2) }; break; }
    case 6: { t = u("/*") + U32(n, U'*') + u("*/[//") + U32(n, U'x') + u("\n1/*") + U32(n, U'y') + u("*/]//") + U32(n, U'/'); m = M::arr(); m.a = { M::integer(1) }; break; }
    case 7: { for (size_t i = 0; i < n; ++i) t += u(i % 2 ? "//\n" : "/**/"); t += u("null"); m = M::null(); break; }
    case 8:
    {
        // long digit strings; the value by strtod
        std::string s = "1";
        for (size_t i = 1; i < std::min<size_t>(n, 300); ++i) s += char('0' + r.below(10));
        s += ".";
        for (size_t i = 0; i < n + 1; ++i) s += char('0' + r.below(10));
        t = u(s);
        m = M::flt(strtod(s.c_str(), nullptr));
        break;
    }
    case 9: { std::string s = "0." + std::string(std::min<size_t>(n, 290), '0') + "123456789"; t = u(s); m = M::flt(strtod(s.c_str(), nullptr)); break; }
    case 10: { std::string s = "-9." + std::string(n + 1, '9') + "e+" + std::string(std::min<size_t>(n, 50), '0') + "5"; t = u(s); m = M::flt(strtod(s.c_str(), nullptr)); break; }
    case 11:
    {
        // arrays only, objects only, or both
        const size_t d = std::min<size_t>(n, kDeep), shape = r.below(3);
        auto         object = [&](size_t i) { return shape == 1 || (shape == 2 && i % 2); };
        m              = M::integer(7);
        U32 a, b;
        for (size_t i = 0; i < d; ++i)
        {
            M e;
            if (object(i)) { e = M::obj(); e.o.emplace_back(u("a"), std::move(m)); }
            else { e = M::arr(); e.a.push_back(std::move(m)); }
            m = std::move(e);
        }
        for (size_t i = d; i-- > 0;) a += object(i) ? u("{\"a\":") : u("[ ");
        for (size_t i = 0; i < d; ++i) b += object(i) ? u(" }") : u("]");
        t = a + u("7") + b;
        break;
    }
    case 12: { m = M::arr(); t = u("["); for (size_t i = 0; i < std::min<size_t>(n, 9000); ++i) { if (i) t += U','; const u64 k = r.below(7); t += u(k == 0 ? "[]" : k == 1 ? "{}" : k == 2 ? "null" : k == 3 ? "true" : k == 4 ? "false" : k == 5 ? "\"\"" : "0"); m.a.push_back(k == 0 ? M::arr() : k == 1 ? M::obj() : k == 2 ? M::null() : k == 3 ? M::boolean(true) : k == 4 ? M::boolean(false) : k == 5 ? M::str(U32()) : M::integer(0)); } t += u("]"); break; }
    default:
    {
        // the same key many times: the first stays
        t = u("{"); 
        for (size_t i = 0; i < n; ++i) t += u("\"k\":" + std::to_string(i) + ",");
        t += u("\"l\":null}");
        m = M::obj();
        if (n) m.o.emplace_back(u("k"), M::integer(0));
        m.o.emplace_back(u("l"), M::null());
        break;
    }
    }
    ctx.seen(mix(ctx.index));
    expect_any(t, m, r, r.next() >> 9, "sized document");
}

// something insignificant in every gap of a document
VH_PART(gaps, 400, 4000)
{
    static const char* const tok[] = { "{", "\"a\"", ":", "[", "1", ",", "-2.5e+3", ",", "true", ",", "null", ",", "\"x\\u0041\"", ",", "[", "]", ",", "{", "}", "]", ",", "\"b\"", ":", "false", ",", "\"c\"", ":", "0", ",", "\"d\"", ":", "{", "\"e\"", ":", "+7", "}", "}" };
    static const char* const gap[] = { " ", "\t", "\n", "\r", "\r\n", " \t\r\n ", "/**/", "/***/", "/****/", "/* */", "/*/ */", "/* * / **/", "//\n", "//\r", "// x\n", "///\n", "//*\n", "/*//*/", "/*\n*/", "/**//**/", "//\n//\n", "/* \" */", "/*]*/", "//}\n", "/*\\*/" };
    const size_t nt = sizeof tok / sizeof *tok, ng = sizeof gap / sizeof *gap;
    const U32    want_text = u("{\"a\":[1,-2500.0,true,null,\"xA\",[],{}],\"b\":false,\"c\":0,\"d\":{\"e\":7}}");
    M            want;
    RefReader(want_text, true).read(want);
    const u64 mode = ctx.index % 4;
    for (size_t g = 0; g < ng; ++g)
    {
        U32 t;
        const size_t at = ctx.rng.below(nt + 1);
        for (size_t i = 0; i <= nt; ++i)
        {
            if (mode == 0 || (mode == 1 && i == at) || (mode == 2 && ctx.rng.chance(1, 3)) || (mode == 3 && i >= at))
                t += u(gap[mode == 2 ? ctx.rng.below(ng) : g]);
            if (i < nt) t += u(tok[i]);
        }
        ctx.seen(hash_str(t));
        ctx.evals(1);
        expect_any(t, want, ctx.rng, ctx.rng.next() >> 9, "gaps");
    }
}

// integers near every limit, as elements, members and roots, signed either way
VH_PART(integers, 4000, 80000)
{
    U32 t = u("[");
    M   m = M::arr();
    for (int i = 0; i < 24; ++i)
    {
        const int64_t v = gen_int(ctx.rng);
        if (i) t += u(ctx.rng.chance(1, 2) ? "," : " , ");
        if (v == 0 && ctx.rng.chance(1, 2)) t += U'-';
        else if (v >= 0 && ctx.rng.chance(1, 4)) t += U'+';
        t += u(std::to_string(v));
        m.a.push_back(M::integer(v));
    }
    t += U']';
    ctx.evals(24);
    ctx.seen(hash_str(t));
    expect_any(t, m, ctx.rng, ctx.index, "integers");
    const int64_t v = gen_int(ctx.rng);
    expect_any(u(std::to_string(v)), M::integer(v), ctx.rng, ctx.index + 1, "root integer");
}

// documents of a million and more of something, looked at directly
VH_PART(millions, 12, 24)
{
    auto&             r = ctx.rng;
    const size_t      n = (size_t(1) << (ctx.thorough ? 22 : 20)) + 1 + r.below(5000);
    const std::string pad(n, "  \n\t"[r.below(4)]);
    std::string       t;
    auto read = [&](const std::string& text) {
        // from characters, from a stream, from a buffer of the user's
        switch (ctx.index / 6 % 2)
        {
        case 0: return json::parse(text);
        default: { std::istringstream is(text); return json::parse(is); }
        }
    };
    ctx.seen(mix(ctx.index ^ n));
    try
    {
        switch (ctx.index % 6)
        {
        case 0:
        {
            t = "[0";
            t.reserve(n * 2 + 2);
            for (size_t i = 1; i < n; ++i) { t += ','; t += char('0' + i % 10); }
            t += ']';
            const json::value v = read(t);
            VH_CHECK(v.is_array() && v.size() == n, "an array of " << n << " elements was read as " << v.size());
            size_t i = 0;
            for (auto& e : v.get<const json::value::array_type&>()) { VH_CHECK(e.is_integer() && e.get<int>() == int(i % 10), "element " << i << " of " << n); ++i; }
            break;
        }
        case 1:
        {
            std::string s;
            for (size_t i = 0; i < n; ++i) s += char('a' + i % 26);
            const json::value v = read("\"" + s + "\"");
            VH_CHECK(v.is_string() && v.get<const std::string&>() == s, "a string of " << n << " characters was read as one of " << v.get<std::string>().size());
            break;
        }
        case 2:
        {
            const size_t k = n / 8;
            t = "{";
            for (size_t i = 0; i < k; ++i) t += (i ? ",\"k" : "\"k") + std::to_string(i * 7919 % 1000003) + "\":" + std::to_string(i);
            t += '}';
            const json::value v = read(t);
            VH_CHECK(v.is_object() && v.size() == k, "an object of " << k << " members was read as " << v.size());
            for (size_t i = 0; i < k; i += 37) VH_CHECK(v.at("k" + std::to_string(i * 7919 % 1000003)).get<int64_t>() == int64_t(i), "member " << i << " of " << k);
            break;
        }
        case 3:
        {
            const json::value v = read(pad + "[" + pad + "1" + pad + "," + "2]" + pad);
            VH_CHECK(v.is_array() && v.size() == 2 && v[size_t(0)] == 1 && v[size_t(1)] == 2, "gaps of " << n << " characters");
            break;
        }
        case 4:
        {
            const json::value v = read("/*" + pad + "*/[//" + std::string(n, 'x') + "\n3]/*" + std::string(n, '*') + "*/");
            VH_CHECK(v.is_array() && v.size() == 1 && v[size_t(0)] == 3, "comments of " << n << " characters");
            break;
        }
        default:
        {
            const size_t k = n / 4;
            t = "[";
            for (size_t i = 0; i < k; ++i) t += i ? ",[{}]" : "[{}]";
            t += ']';
            const json::value v = read(t);
            VH_CHECK(v.is_array() && v.size() == k, "an array of " << k << " containers was read as " << v.size());
            for (size_t i = 0; i < k; i += 11) VH_CHECK(v[i].is_array() && v[i].size() == 1 && v[i][size_t(0)].is_object() && v[i][size_t(0)].empty(), "container " << i << " of " << k);
            break;
        }
        }
    }
    catch (const configor::configor_exception& e)
    {
        VH_FAIL("a document of " << n << " of something (#" << ctx.index % 6 << ") was rejected: " << e.what());
    }
    ctx.evals(1);
}
