// C04: texts that are not documents of the accepted grammar are rejected with the library's deserialization error.
// A three-valued reference reader decides; texts it accepts must be accepted with its value.
#include "lib.hpp"
using namespace vh;

namespace
{
template <class J, class C>
void judge(const U32& text, Verdict v, const M& want, Rng& r)
{
    const auto enc  = Enc<C>::put(text);
    int        kind = r.chance(1, 2) ? int(SrcString) : int(r.below(SrcKinds));
    if (kind == SrcExtract && (text.empty() || text[0] <= 0x20 || text[0] >= 0x7F)) kind = SrcString;
    if (kind == SrcFile && (sizeof(C) > 1 || r.chance(7, 8))) kind = SrcStream;
    Outcome o = outcome_of<J>([&] { return parse_any<J, C>(kind, enc, 1 + r.below(9), r.chance(1, 2)); });
    if (o.ok)
    {
        VH_CHECK(v != Verdict::Reject, "malformed text accepted from " << source_name(kind) << " as " << show(o.m) << ": " << show(text, 800));
        if (v == Verdict::Accept)
        {
            const auto d = diff(want, o.m, read_tol());
            VH_CHECK(d.empty(), "text read wrongly: " << d << ": " << show(text, 800));
        }
        return;
    }
    VH_CHECK(v != Verdict::Accept, "well-formed text rejected by " << source_name(kind) << " (" << o.err << "): " << show(text, 800));
    VH_CHECK(o.deser, "rejected by " << source_name(kind) << " with something other than a deserialization error (" << o.err << "): " << show(text, 800));
}
void judge_any(const U32& text, Verdict v, const M& want, Rng& r, u64 w)
{
    // the other widths of UTF-16 and UTF-32 (the traits of char16_t do not have U+FFFF)
    if (r.chance(1, 12))
    {
        if (w & 1) judge<json, char32_t>(text, v, want, r);
        else if (text.find(char32_t(0xFFFF)) == text.npos) judge<wjson, char16_t>(text, v, want, r);
        return;
    }
    switch (w % 4)
    {
    case 0: judge<json, char>(text, v, want, r); break;
    case 1: judge<wjson, wchar_t>(text, v, want, r); break;
    case 2: judge<json, wchar_t>(text, v, want, r); break;
    default: judge<wjson, char>(text, v, want, r); break;
    }
}
Verdict decide(Ctx& ctx, const U32& text, u64 w)
{
    RefReader     rd(text);
    M             want;
    const Verdict v = rd.read(want);
    ctx.count(v == Verdict::Accept ? "texts_accepted" : v == Verdict::Reject ? "texts_rejected" : "texts_unspecified");
    ctx.evals(1);
    judge_any(text, v, want, ctx.rng, w);
    return v;
}
void must_reject(Ctx& ctx, const U32& text)
{
    ctx.count("texts_rejected");
    ctx.evals(1);
    judge_any(text, Verdict::Reject, M(), ctx.rng, ctx.rng.next() >> 9);
}
// places a damaged value inside a valid document
U32 wrap(const U32& bad, Rng& r)
{
    U32 t = bad;
    for (u64 n = r.below(3); n; --n)
        switch (r.below(5))
        {
        case 0: t = u("[") + t + u("]"); break;
        case 1: t = u("[1,") + t + u("]"); break;
        case 2: t = u("{\"k\":") + t + u("}"); break;
        case 3: t = u("[") + t + u(",null]"); break;
        default: t = u("{\"a\":[],\"k\":") + t + u(",\"z\":0}"); break;
        }
    return t;
}
}  // namespace

// every text of up to four (thorough: five) characters of the format's alphabet
static const char kAlpha[] = "[]{}:,\"\\/*-+.01eEtrunl a\n";
VH_PART(short_texts, 625, 625)
{
    const size_t n = sizeof kAlpha - 1;
    const char a = kAlpha[ctx.index % n], b = kAlpha[(ctx.index / n) % n];
    const u32  extra = ctx.thorough ? 3 : 2;
    U32        t;
    if (ctx.index == 0)
    {
        decide(ctx, t, 0);
        for (size_t i = 0; i < n; ++i) for (u64 w = 0; w < 4; ++w) decide(ctx, U32(1, char32_t(kAlpha[i])), w);
    }
    size_t total = 1;
    for (u32 k = 0; k <= extra; ++k)
    {
        for (size_t i = 0; i < total; ++i)
        {
            t.clear();
            t += char32_t(a);
            t += char32_t(b);
            size_t x = i;
            for (u32 q = 0; q < k; ++q) { t += char32_t(kAlpha[x % n]); x /= n; }
            decide(ctx, t, i);
            if (k >= 2) ctx.seen(hash_str(t));
        }
        total *= n;
    }
}

// every number-like text of up to six characters, as root and inside
VH_PART(numberlike, 64, 64)
{
    static const char al[] = "+-019.eE";
    const size_t      n    = 8;
    const u32         extra = ctx.thorough ? 5 : 3;
    size_t            total = 1;
    for (u32 k = 0; k <= extra; ++k)
    {
        for (size_t i = 0; i < total; ++i)
        {
            U32 t;
            t += char32_t(al[ctx.index % n]);
            t += char32_t(al[ctx.index / n]);
            size_t x = i;
            for (u32 q = 0; q < k; ++q) { t += char32_t(al[x % n]); x /= n; }
            const bool in = ctx.rng.chance(1, 2);
            decide(ctx, in ? u("[") + t + u("]") : t, i);
            ctx.seen(hash_str(t));
        }
        total *= n;
    }
}

// every sequence of up to five (thorough: six) tokens
VH_PART(tokens, 144, 144)
{
    static const char* const al[] = { "[", "]", "{", "}", ":", ",", "\"a\"", "1", "null", "-1.5", "true", "/**/" };
    const size_t             n    = 12;
    const u32                extra = ctx.thorough ? 4 : 3;
    size_t                   total = 1;
    for (u32 k = 0; k <= extra; ++k)
    {
        for (size_t i = 0; i < total; ++i)
        {
            U32 t = u(al[ctx.index % n]) + u(al[ctx.index / n]);
            size_t x = i;
            for (u32 q = 0; q < k; ++q) { t += u(al[x % n]); x /= n; }
            decide(ctx, t, i);
            if (k == extra) ctx.seen(hash_str(t));
        }
        total *= n;
    }
}

// every proper prefix of a document whose root is a container or string
VH_PART(prefixes, 1500, 60000)
{
    DocOpt o;
    o.comments = ctx.rng.chance(1, 3);
    o.plus = ctx.rng.chance(1, 4);
    o.dup = ctx.rng.chance(1, 4);
    o.depth = 3;
    o.width = 4;
    DocGen  g(ctx.rng, o);
    const M m = g.doc();
    if (m.k != M::Arr && m.k != M::Obj && m.k != M::Str) return;
    // the prefix must end before the last significant character
    RefReader rd(g.t);
    try { rd.value(0); } catch (...) { VH_FAIL("harness: generated document unreadable"); }
    const size_t end = rd.p;
    ctx.seen(hash_str(g.t));
    if (ctx.want_sample()) ctx.sample("all prefixes of " + show(g.t));
    for (size_t n = 0; n < end && n < 400; ++n) must_reject(ctx, g.t.substr(0, n));
    if (end > 400) for (int i = 0; i < 100; ++i) must_reject(ctx, g.t.substr(0, ctx.rng.below(end)));
}

// generated documents with characters or tokens damaged, removed, repeated, exchanged or added
VH_PART(mutations, 60000, 2000000)
{
    auto&  r = ctx.rng;
    DocOpt o;
    o.comments = r.chance(1, 3);
    o.plus = r.chance(1, 4);
    o.dup = r.chance(1, 4);
    o.depth = r.range(0, 4);
    o.width = 4;
    o.strlen = 6;
    DocGen g(r, o);
    g.doc();
    U32 t = g.t;
    static const char* const bits[] = { "[", "]", "{", "}", ":", ",", "\"", "\\", "/", "*", "-", "+", ".", "e", "E", "0", "1", "00", "null", "true", "false", "nul", "tru", "//", "/*", "*/", "\\u", "\\ud800", "\\udc00", "NaN", "Infinity", "'", "=", ";", "()", "#", "\x01", "\x1f", "\x7f", "\n", "\t", "\f", "\v", "1e", "1.", ".5", "0x1", "1e+", "--", "undefined", "True", "NULL" };
    for (u64 n = 1 + (r.chance(1, 4) ? r.below(3) : 0); n; --n)
    {
        const size_t at = r.below(t.size() + 1);
        const size_t len = std::min<size_t>(t.size() - at, 1 + (r.chance(1, 4) ? r.below(6) : 0));
        switch (r.below(7))
        {
        case 0: t.erase(at, len); break;
        case 1: t.insert(at, u(r.pick(bits))); break;
        case 2: t.replace(at, len, u(r.pick(bits))); break;
        case 3: t.insert(at, t.substr(at, len)); break;
        case 4: if (t.size() > 1) std::swap(t[r.below(t.size())], t[r.below(t.size())]); break;
        case 5: { U32 p; p += char32_t(gen_cp(r)); if (p[0] == 0) p[0] = U'\b'; t.insert(at, p); break; }
        default: if (at < t.size()) { const u32 c = t[at] + 0x100 * u32(1 + r.below(0x1000)); if (scalar(c)) t[at] = char32_t(c); } break;
        }
    }
    ctx.seen(hash_str(t));
    if (ctx.want_sample()) ctx.sample(show(t));
    decide(ctx, t, ctx.index);
}

// code points that agree with a character of the grammar in their low bits
VH_PART(lookalikes, 1200, 20000)
{
    static const char* const docs[] = { "true", "false", "null", "[]", "{}", "\"a\"", "{\"a\":1}", "[1,2]", "-12", "1.5", "1e+5", "2E-3", "\"\\n\"", "\"\\u00e9\"", "\"\\ud83d\\ude00\"", "/**/1", "//\n1", "[true,false,null]", "{\"k\":[0.5,{\"x\":\"\"}]}", " 1 ", "+3", "10" };
    auto&     r = ctx.rng;
    const U32 d = u(docs[ctx.index % (sizeof docs / sizeof *docs)]);
    for (size_t at = 0; at < d.size(); ++at)
        for (int k = 0; k < 6; ++k)
        {
            const u32 c = k == 0 ? d[at] + 0x100 : k == 1 ? d[at] + 0x10000 : k == 2 ? 0xFF00 + d[at] - 0x20 : k == 3 ? d[at] + 0x80 : k == 4 ? d[at] + 0x100 * u32(r.below(0x10F0)) : 0x660 + u32(r.below(10));
            if (!scalar(c)) continue;
            U32 t = d;
            t[at] = char32_t(c);
            ctx.seen(hash_str(t));
            decide(ctx, t, r.next() >> 9);
        }
}

// every character after a backslash, every non-digit in every place of an escape
VH_PART(escapes, 48, 48)
{
    const u32 lo = u32(ctx.index) * 16, hi = lo + 16;
    for (u32 c = lo; c < hi; ++c)
    {
        if (c == 0) continue;
        U32 t = u("\"x\\");
        t += char32_t(c);
        decide(ctx, t + u("y\""), c);
        decide(ctx, t + u("0041\""), c + 1);
        for (size_t k = 0; k < 4; ++k)
        {
            U32 h = u("00e9");
            h[k]  = char32_t(c);
            decide(ctx, u("\"\\u") + h + u("\""), c + k);
            decide(ctx, u("[\"\\u") + h.substr(0, k + 1) + u("\"]"), c + k);
            decide(ctx, u("\"\\ud83d\\u") + h + u("\""), c + k);
            U32 l = u("de00");
            l[k]  = char32_t(c);
            decide(ctx, u("\"\\ud83d\\u") + l + u("\""), c + k);
            l    = u("d83d");
            l[k] = char32_t(c);
            decide(ctx, u("{\"\\u") + l + u("\\ude00\":0}"), c + k);
        }
        // between the halves of a pair
        U32 p = u("\"\\ud83d");
        p += char32_t(c);
        decide(ctx, p + u("\\ude00\""), c);
        decide(ctx, p + u("ude00\""), c);
        p = u("\"\\ud83d\\");
        p += char32_t(c);
        decide(ctx, p + u("de00\""), c);
        // raw
        U32 s = u("[\"");
        s += char32_t(c);
        decide(ctx, s + u("\"]"), c);
        s = u("[1");
        s += char32_t(c);
        decide(ctx, s + u("]"), c);
        decide(ctx, s, c);
        s = u("[");
        s += char32_t(c);
        decide(ctx, s + u("1]"), c);
        decide(ctx, s + u("true]"), c);
        s = u("{\"a\"");
        s += char32_t(c);
        decide(ctx, s + u(":1}"), c);
        ctx.seen(c);
    }
}

// every surrogate unpaired, by escape
VH_PART(surrogates, 64, 64)
{
    char b[64];
    for (u32 c = 0xD800 + u32(ctx.index) * 32; c < 0xD800 + u32(ctx.index + 1) * 32; ++c)
    {
        static const char* const f[] = { "\"\\u%04x\"", "\"\\u%04Xa\"", "\"\\u%04x\\n\"", "\"\\u%04x\\u0041\"", "\"\\u%04x\\ud800\"", "\"\\u%04x\\udbff\"", "\"x\\u%04x\"", "{\"\\u%04X\":1}", "[\"\\u%04x\",\"\\udc00\"]", "\"\\ude00\\u%04x\"", "\"\\u%04x\\ue000\"", "\"\\u%04x\\u\"", "\"\\u%04x\\u12\"" };
        for (auto* s : f)
        {
            snprintf(b, sizeof b, s, c);
            must_reject(ctx, u(b));
        }
        ctx.seen(c);
    }
}

// integers that do not fit
VH_PART(overflow, 6000, 100000)
{
    auto&       r = ctx.rng;
    std::string s;
    typedef unsigned __int128 u128;
    auto str = [](u128 v) { std::string x; do { x.insert(x.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return x; };
    const bool  neg = r.chance(1, 2);
    const u128  lim = (u128(1) << 63);
    u128        v;
    switch (r.below(5))
    {
    case 0: v = lim + (neg ? 1 : 0) + r.below(20); break;
    case 1: v = (u128(1 + r.below(1000)) << 64) + r.below(2000); break;   // wraps to a small number
    case 2: v = (u128(1) << (63 + r.below(60))) + r.below(3) + 1; break;
    case 3: v = lim + 1 + (u128(r.next()) << r.below(40)); break;
    default: v = lim * 10 / (1 + r.below(9)) + 1 + r.below(100); if (v <= lim) v = lim + 1; break;
    }
    s = str(v);
    if (r.chance(1, 10)) s += std::string(1 + r.below(300), char('0' + r.below(10)));
    const U32 t = wrap(u((neg ? "-" : r.chance(1, 8) ? "+" : "") + s), r);
    ctx.seen(hash_str(t));
    must_reject(ctx, t);
}

// something after a complete document
VH_PART(trailing, 4000, 60000)
{
    auto&  r = ctx.rng;
    DocOpt o;
    o.depth = r.range(0, 3);
    o.width = 3;
    o.comments = r.chance(1, 4);
    DocGen g(r, o);
    g.value();
    static const char* const tail[] = { "]", "}", ",", ":", "[", "{", "1", "-", "+", "\"", "\"\"", "null", "true", "x", "/", "/*", "/* *", "\\", "]]", "[]", "{}", "//\n1", "/**/1", ".", "e", "#" };
    U32 t = g.t + (r.chance(1, 2) ? u(" ") : r.chance(1, 2) ? u("\n") : U32()) + u(r.pick(tail));
    ctx.seen(hash_str(t));
    decide(ctx, t, ctx.index);
}

// one long member of a document - a list, a dictionary, a string, a key, a number, a comment, white space or a nesting -
// damaged at its end, its beginning or anywhere
VH_PART(long_texts, 2400, 30000)
{
    auto&  r = ctx.rng;
    size_t n = r.chance(1, 2) ? 10 + r.below(300) : r.chance(1, 2) ? 300 + r.below(3000) : 3000 + r.below(10000);
    if (r.chance(1, 40)) n = 65530 + r.below(20);
    if (r.chance(1, 6)) { static const size_t edges[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097 }; n = r.pick(edges); }
    U32 t;
    const u64 kind = r.below(9);
    static const char* const items[] = { "0", "null", "\"a\"", "[]", "{}", "-1.5", "[1]", "{\"a\":1}", " 7 " };
    switch (kind)
    {
    case 0: case 1:   // list
    {
        const U32 it = u(r.pick(items));
        t += U'[';
        for (size_t i = 0; i < n; ++i) { if (i) t += U','; t += it; }
        t += U']';
        break;
    }
    case 2:           // dictionary
    {
        const U32 it = u(r.pick(items));
        t += U'{';
        for (size_t i = 0; i < n; ++i) { if (i) t += U','; t += u("\"" + std::to_string(i) + "\":"); t += it; }
        t += U'}';
        break;
    }
    case 3: t = u("\"") + U32(n, U'a') + u("\""); break;
    case 4: t = u("{\"") + U32(n, U'k') + u("\":1}"); break;
    case 5: t = u("/*") + U32(n, r.chance(1, 2) ? U'c' : U'*') + u("*/1"); if (r.chance(1, 2)) t = u("[1]") + t.substr(0, t.size() - 1); break;
    case 6: t = U32(n, U' ') + u("{\"a\"") + U32(n, U'\n') + u(":") + U32(r.below(n), U'\t') + u("2}"); break;
    case 7:
    {
        n = std::min<size_t>(n, 600);
        t = u("3");
        for (size_t i = 0; i < n; ++i) t = r.chance(1, 2) ? u("[") + t + u("]") : u("{\"a\":") + t + u("}");
        break;
    }
    default: t = u("[1.") + U32(n, U'0') + u("]"); break;
    }
    if (r.chance(1, 3)) t = wrap(t, r);
    static const char* const bits[] = { "]", "}", "[", "{", ",", ":", "\"", "\\", "*/", "/*", "/", "//", "\x01", "\\q", "\\u12", "\\ud800", "x", "1", " 1", "-", "." };
    const size_t end = t.size();
    const size_t at = r.chance(1, 2) ? end - std::min<size_t>(end, r.below(6)) : r.chance(1, 3) ? std::min<size_t>(end, r.below(6)) : r.below(end + 1);
    switch (r.below(5))
    {
    case 0: case 1: t.resize(std::min(at, end ? end - 1 : 0)); break;
    case 2: t.insert(at, u(r.pick(bits))); break;
    case 3: t.erase(at, 1); break;
    default: t.replace(at, 1, u(r.pick(bits))); break;
    }
    ctx.seen(hash_str(t));
    ctx.count("long_texts");
    decide(ctx, t, ctx.index);
}
