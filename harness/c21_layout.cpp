// C21: indented output. The compact text is laid out by an independent function that only looks at brackets, commas and
// colons outside strings, and the result is compared with the indented text.
#include "lib.hpp"
#include <iomanip>
#include <sys/resource.h>
#include <pthread.h>
using namespace vh;

namespace
{
template <class C> std::basic_string<C> layout(const std::basic_string<C>& t, size_t step, C ch)
{
    std::basic_string<C> o;
    size_t depth = 0;
    auto line = [&] { o += C('\n'); o.append(depth * step, ch); };
    for (size_t i = 0; i < t.size(); ++i)
    {
        const C c = t[i];
        if (c == C('"'))
        {
            const size_t b = i++;
            while (t[i] != C('"')) i += t[i] == C('\\') ? 2 : 1;
            o.append(t, b, i - b + 1);
        }
        else if (c == C('[') || c == C('{'))
        {
            o += c;
            ++depth;
            if (t[i + 1] != C(']') && t[i + 1] != C('}')) line();
        }
        else if (c == C(']') || c == C('}'))
        {
            --depth;
            line();
            o += c;
        }
        else if (c == C(',')) { o += c; line(); }
        else if (c == C(':')) { o += c; o += ch; }
        else o += c;
    }
    return o;
}
template <class C> std::string where(const std::basic_string<C>& a, const std::basic_string<C>& b)
{
    size_t k = 0;
    while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
    auto s = [&](const std::basic_string<C>& x) {
        std::string r;
        for (size_t i = k > 20 ? k - 20 : 0; i < x.size() && i < k + 20; ++i) r += u32(x[i]) >= 32 && u32(x[i]) < 127 ? std::string(1, char(x[i])) : std::string(S() << "\\x" << std::hex << u32(x[i]));
        return r;
    };
    return S() << "sizes " << a.size() << " and " << b.size() << ", first difference at " << k << ": '" << s(a) << "' and '" << s(b) << "'";
}

template <class J, class C> void check(Ctx& ctx, const V<J>& v, size_t step, C ch, const DumpOpt& o, const std::string& what)
{
    using Ser = typename J::template serializer_type<C>;
    using Str = std::basic_string<C>;
    Rng& r = ctx.rng;
    const Opts<J, C> p(o);
    const Str compact = J::template dump<C>(v, { p.escape, p.prec });
    const Str want    = step ? layout<C>(compact, step, ch) : compact;
    const auto ind = ch == C(' ') && r.chance(1, 2) ? Ser::with_indent(uint8_t(step)) : Ser::with_indent(uint8_t(step), ch);
    auto expect = [&](const Str& got, const char* form) {
        VH_CHECK(got == want, "step " << step << " character " << u32(ch) << " options " << o.str() << " through " << form << ": expected and got: " << where(want, got) << " for " << what);
        ctx.evals(1);
    };
    expect(J::template dump<C>(v, { ind, p.escape, p.prec }), "an option");
    switch (r.below(6))
    {
    case 0: { Str s; J::template dump<C>(s, v, { p.prec, ind, p.escape }); expect(s, "an option to a string"); break; }
    case 1: { std::basic_ostringstream<C> os; J::template dump<C>(os, v, { p.escape, p.prec, ind }); expect(os.str(), "an option to a stream"); break; }
    case 2:
    {
        // the option wins over what the stream says
        std::basic_ostringstream<C> os;
        os << std::setw(1 + int(r.below(9))) << std::setfill(C('~'));
        J::template dump<C>(os, v, { p.escape, p.prec, ind });
        expect(os.str(), "an option to a stream with width and fill");
        break;
    }
    case 3:
    {
        OutBuf<C>             b(r.below(6));
        std::basic_ostream<C> os(&b);
        J::template dump<C>(os, v, { p.escape, p.prec, ind });
        expect(b.text(), "an option to a buffered stream");
        break;
    }
    case 4:
    {
        // the last of several options wins
        std::basic_ostringstream<C> os;
        J::template dump<C>(os, v, { Ser::with_indent(uint8_t(r.below(256)), C('~')), Ser::with_unicode_escaping(!o.escape), p.prec, Ser::with_unicode_escaping(o.escape), ind });
        expect(os.str(), "repeated options");
        break;
    }
    default: break;
    }
    {
        std::basic_ostringstream<C> os;
        os << std::setw(int(step)) << std::setfill(ch);
        J::template dump<C>(os, v, { p.escape, p.prec });
        expect(os.str(), "width and fill");
    }
    if (!o.escape && o.prec < 0)
    {
        std::basic_ostringstream<C> os;
        if (r.chance(1, 2)) os << std::setw(int(step)) << std::setfill(ch) << J::wrap(v);
        else { os.fill(ch); os.width(std::streamsize(step)); os << J::wrap(v); }
        expect(os.str(), "width and fill and insertion");
    }
}
template <class C> C gen_char(Rng& r)
{
    static const char usual[] = { ' ', ' ', '\t', '\t', '.', '-', '0', 'x', '"', '[', '}', ',', ':', '\\', '\n', '\r', '\v', '\x7f', '\x01' };
    if (r.chance(2, 3)) return C(r.pick(usual));
    if (sizeof(C) == 1) return C(1 + r.below(255));
    static const wchar_t wides[] = { 0xa0, 0x2003, 0x3000, 0x20ac, 0x1f600, 0xff, 0xfffd };
    return C(r.pick(wides));
}
size_t gen_step(Rng& r)
{
    static const size_t steps[] = { 1, 2, 3, 4, 4, 7, 8, 16, 31, 64, 127, 128, 129, 200, 254, 255 };
    return r.chance(1, 12) ? 0 : r.chance(1, 2) ? r.pick(steps) : 1 + r.below(12);
}
void any(Ctx& ctx, const M& m, size_t step, const DumpOpt& o)
{
    Rng& r = ctx.rng;
    const auto what = show(m);
    switch (r.below(4))
    {
    case 0: check<wjson, wchar_t>(ctx, build<wjson>(m), step, gen_char<wchar_t>(r), o, what); break;
    case 1: check<json, wchar_t>(ctx, build<json>(m), step, gen_char<wchar_t>(r), o, what); break;
    case 2: check<wjson, char>(ctx, build<wjson>(m), step, gen_char<char>(r), o, what); break;
    default: check<json, char>(ctx, build<json>(m), step, gen_char<char>(r), o, what); break;
    }
}

#ifdef VH_OPT
// a sink that compares what it is given with the layout of `depth` nested one-element arrays
struct Nested : std::streambuf
{
    size_t depth, step;
    // a line: its number (0 .. 2*depth), the position in it
    size_t line = 0, col = 0;
    bool   good = true;
    Nested(size_t d, size_t s) : depth(d), step(s) {}
    size_t indent() const { return (line <= depth ? line : 2 * depth - line) * step; }
    char   last() const { return line == depth ? '1' : line < depth ? '[' : ']'; }
    size_t length() const { return indent() + (line == 2 * depth ? 1 : 2); }
    void one(char c)
    {
        if (line > 2 * depth) { good = false; return; }
        const size_t n = indent();
        const char   want = col < n ? ' ' : col == n ? last() : '\n';
        if (c != want) good = false;
        if (++col == length()) { ++line; col = 0; }
    }
    int_type overflow(int_type c) override { if (c != EOF) one(char(c)); return good ? c : EOF; }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        for (std::streamsize i = 0; i < n && good;)
        {
            const size_t ind = line <= 2 * depth ? indent() : 0;
            if (col < ind)
            {
                // a run of indent characters at once
                const size_t m = std::min(size_t(n - i), ind - col);
                static const std::string spaces(1 << 16, ' ');
                for (size_t k = 0; k < m; k += spaces.size())
                    if (memcmp(s + i + k, spaces.data(), std::min(spaces.size(), m - k))) { good = false; break; }
                col += m;
                i += std::streamsize(m);
            }
            else one(s[i++]);
        }
        return good ? n : 0;
    }
};
void nested(size_t depth, size_t step)
{
    // built, written and destroyed recursively by the library: on a stack of its own
    struct Arg { size_t depth, step; std::string err; } arg{ depth, step, "" };
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, size_t(1) << 30);
    pthread_t t;
    auto run = [](void* p) -> void* {
        auto& a = *static_cast<Arg*>(p);
        try
        {
            std::string text(a.depth, '[');
            text += '1';
            text.append(a.depth, ']');
            const auto   v = json::parse<char>(text);
            Nested       b(a.depth, a.step);
            std::ostream os(&b);
            json::dump(os, v, { json::serializer_type<char>::with_indent(uint8_t(a.step)) });
            if (!b.good || b.line != 2 * a.depth + 1) a.err = S() << "wrong layout at line " << b.line << " column " << b.col;
        }
        catch (const std::exception& e) { a.err = e.what(); }
        return nullptr;
    };
    VH_CHECK(pthread_create(&t, &at, run, &arg) == 0, "harness: no thread");
    pthread_join(t, nullptr);
    pthread_attr_destroy(&at);
    VH_CHECK(arg.err.empty(), depth << " nested arrays with step " << step << ": " << arg.err);
}
#endif
}  // namespace

VH_PART(values, 16000, 800000)
{
    GenOpt g;
    g.depth = 1 + int(ctx.rng.below(5));
    const auto m = gen_value(ctx.rng, g);
    auto       o = gen_dump_opt(ctx.rng);
    o.indent = 0;
    if (ctx.rng.chance(1, 2)) { o.escape = false; o.prec = -1; }
    ctx.seen(hash_m(m, ctx.rng.s));
    any(ctx, m, gen_step(ctx.rng), o);
    if (ctx.want_sample()) ctx.sample(show(m));
}
// every step for a few shapes, and every narrow indent character
VH_PART(steps, 256, 256)
{
    const size_t step = ctx.index;
    M e = M::arr(), f = M::obj();
    e.a = { M::arr(), M::obj(), M::integer(1), M::null() };
    f.o.emplace_back(U32(U"k"), e);
    f.o.emplace_back(U32(U"[{:,"), M::obj());
    f.o.emplace_back(U32(), f);
    e.a.push_back(f);
    any(ctx, e, step, DumpOpt());
    any(ctx, f, step, DumpOpt());
    any(ctx, M::arr(), step, DumpOpt());
    any(ctx, M::obj(), step, DumpOpt());
    any(ctx, M::integer(5), step, DumpOpt());
    if (step) check<json, char>(ctx, build<json>(f), 1 + step % 5, char(step), DumpOpt(), "every character");
    if (step) check<wjson, wchar_t>(ctx, build<wjson>(f), 1 + step % 5, wchar_t(step), DumpOpt(), "every character");
    ctx.seen(step);
}
// depth times step beyond the range of small integer types
VH_PART(deep, 12, 60)
{
    static const size_t depths[] = { 30, 127, 128, 129, 255, 256, 257, 260, 258, 300, 512, 600 };
    const size_t d = depths[ctx.index % 12];
    M m = ctx.rng.chance(1, 2) ? M::arr() : M::integer(1);
    for (size_t k = 0; k < d; ++k)
    {
        M x;
        if (ctx.rng.chance(1, 2)) { x = M::arr(); x.a.push_back(std::move(m)); if (ctx.rng.chance(1, 10)) x.a.push_back(M::null()); }
        else { x = M::obj(); x.o.emplace_back(U32(U"k"), std::move(m)); }
        m = std::move(x);
    }
    check<json, char>(ctx, build<json>(m), d < 310 ? 255 : 3, ' ', DumpOpt(), "deep");
    check<wjson, wchar_t>(ctx, build<wjson>(m), 1 + ctx.rng.below(4), L'\t', DumpOpt(), "deep");
    ctx.seen(d);
}
#ifdef VH_OPT
// far deeper than a 16-bit depth; only where the stack frames are small and the code is fast
VH_PART(very_deep, 6, 6)
{
    static const size_t depths[] = { 5000, 9000, 33000, 65534, 65537, 70000 };
    static const size_t steps[]  = { 3, 8, 1, 1, 1, 1 };
    nested(depths[ctx.index], steps[ctx.index]);
    ctx.seen(ctx.index);
}
#endif
