// C07: one text from every kind of source gives one result, one value to every kind of sink gives one text.
#include "lib.hpp"
#include <clocale>
#include <list>
using namespace vh;

namespace
{
struct Utf8Locale
{
    bool ok;
    Utf8Locale() { ok = setlocale(LC_CTYPE, "C.UTF-8") != nullptr || setlocale(LC_CTYPE, "C.utf8") != nullptr; }
    ~Utf8Locale() { setlocale(LC_CTYPE, "C"); }
};

std::string same_outcome(const Outcome& x, const Outcome& y)
{
    if (x.ok != y.ok) return S() << (x.ok ? "accepted" : "rejected (" + x.err + ")") << " but " << (y.ok ? "accepted as " + show(y.m) : "rejected (" + y.err + ")");
    if (!x.ok) return x.deser && y.deser ? (x.err == y.err ? "" : "") : "rejected with different kinds of error: " + x.err + " and " + y.err;
    return diff(x.m, y.m);
}
// an encoding of the user's own: ASCII as it is, everything else as 0x80 + n and n hexadecimal digits, read and written in blocks
template <class C> struct Own
{
    static void encode(std::basic_ostream<C>& os, u32 c)
    {
        if (c < 0x80) { os.put(C(c)); return; }
        C      b[9];
        size_t n = 0;
        u32    d = c;
        do { ++n; d >>= 4; } while (d);
        b[0] = C(0x80 + n);
        for (size_t i = 1; i <= n; ++i) b[i] = C("0123456789abcdef"[(c >> (4 * (n - i))) & 15]);
        os.write(b, std::streamsize(n + 1));
    }
    static bool decode(std::basic_istream<C>& is, u32& c)
    {
        c = static_cast<typename std::make_unsigned<C>::type>(std::char_traits<C>::to_char_type(is.get()));
        if (is.eof()) return false;
        if (c < 0x80) return true;
        const size_t n = c - 0x80;
        if (n < 1 || n > 6) { is.setstate(std::ios::failbit); return true; }
        C b[8];
        is.read(b, std::streamsize(n));
        c = 0;
        if (size_t(is.gcount()) != n) { is.setstate(std::ios::failbit); return true; }
        for (size_t i = 0; i < n; ++i)
        {
            const C x = b[i];
            if (x >= C('0') && x <= C('9')) c = c * 16 + u32(x - C('0'));
            else if (x >= C('a') && x <= C('f')) c = c * 16 + u32(x - C('a')) + 10;
            else { is.setstate(std::ios::failbit); return true; }
        }
        return true;
    }
};
// a handler that counts
struct Counter : configor::error_handler
{
    int n = 0;
    void handle(std::exception_ptr) override { ++n; }
};
// options take effect through every overload: another encoding, handlers
template <class J, class C, template <class> class E>
void with_options(Ctx& ctx, const std::basic_string<C>& text)
{
    auto&      r = ctx.rng;
    const auto enc = J::parser::template with_encoding<E>();
    const Outcome base = outcome_of<J>([&] { return J::template parse<C>(text, { enc }); });
    const bool nul = text.find(C(0)) != text.npos;
    const bool eofc = std::any_of(text.begin(), text.end(), [](C c) { using T = std::char_traits<C>; return T::eq_int_type(T::to_int_type(c), T::eof()) || c == T::to_char_type(T::eof()); });
    for (int kind = 0; kind < SrcExtract; ++kind)
        for (int in_place = 0; in_place < 2; ++in_place)
        {
            if ((kind == SrcCStr && nul) || (kind == SrcAdapter && eofc) || (kind == SrcFile && sizeof(C) > 1)) continue;
            Counter    h;
            const bool handled = r.chance(1, 2);
            Outcome    o;
            if (handled) o = outcome_of<J>([&] { return parse_via<J, C>(kind, text, 1 + r.below(5), in_place != 0, { J::parser::with_error_handler(&h), enc }); });
            else o = outcome_of<J>([&] { return parse_via<J, C>(kind, text, 1 + r.below(5), in_place != 0, { enc }); });
            if (handled)
            {
                VH_CHECK(o.ok, "an exception escaped from " << source_name(kind) << " in spite of a handler: " << o.err << " for " << show(text, 600));
                VH_CHECK(h.n == (base.ok ? 0 : 1), "the handler was called " << h.n << " times by " << source_name(kind) << " in place " << in_place << " for " << show(text, 600));
                if (!base.ok) continue;
            }
            const auto d = same_outcome(base, o);
            VH_CHECK(d.empty(), "with options, string and " << source_name(kind) << " (in place " << in_place << ") differ: " << d << " for " << show(text, 600));
            ctx.evals(1);
        }
    ctx.count(base.ok ? "optioned_accepted" : "optioned_rejected");
}
// parses twice from one source object or through a source left in the middle; in_place: into a value that holds something
template <class J, class C>
void all_sources(Ctx& ctx, const std::basic_string<C>& text, bool ascii, bool reject_trailing)
{
    auto&         r = ctx.rng;
    const Outcome base = try_parse<J, C>(text);
    ctx.count(base.ok ? "texts_accepted" : "texts_rejected");
    const bool nul = text.find(C(0)) != text.npos;
    const bool eofc = std::any_of(text.begin(), text.end(), [](C c) { using T = std::char_traits<C>; return T::eq_int_type(T::to_int_type(c), T::eof()) || c == T::to_char_type(T::eof()); });
    size_t ws = 0;
    while (ws < text.size() && (text[ws] == C(' ') || text[ws] == C('\t') || text[ws] == C('\n') || text[ws] == C('\r'))) ++ws;
    (void)reject_trailing;
    for (int kind = 0; kind < SrcKinds; ++kind)
    {
        if (kind == SrcCStr && nul) continue;
        if (kind == SrcAdapter && eofc) continue;
        // extraction skips white space by the stream's rules and fails the stream when there is nothing else
        if (kind == SrcExtract && (ws == text.size() || text[ws] == C('\v') || text[ws] == C('\f') || nul)) continue;
        if (kind == SrcExtract && !(text[ws] > C(0x20) && text[ws] < C(0x7F))) continue;
        if (kind == SrcFile && sizeof(C) > 1 && !ascii) continue;
        const size_t  chunk = r.chance(1, 2) ? 1 + r.below(5) : 1 + r.below(text.size() + 2);
        const bool    in_place = r.chance(1, 2);
        const Outcome o = outcome_of<J>([&] { return parse_via<J, C>(kind, text, chunk, in_place); });
        const auto    d = same_outcome(base, o);
        VH_CHECK(d.empty(), "string and " << source_name(kind) << " (chunk " << chunk << ") differ: " << d << " for " << show(text, 600));
        ctx.evals(1);
    }
    // into a value that already holds something
    {
        V<J> v = build<J>(gen_value(r, GenOpt{ 2, 3, 6, true }), &r);
        const Outcome o = outcome_of<J>([&] { J::template parse<C>(v, text); return v; });
        const auto    d = same_outcome(base, o);
        VH_CHECK(d.empty(), "parsing into a used value differs: " << d << " for " << show(text, 600));
    }
    // a stream and a file whose beginning has been read already
    const size_t         skip = r.below(5);
    std::basic_string<C> before;
    for (size_t i = 0; i < skip; ++i) before += C("[1,\"x"[i]);
    {
        InBuf<C>              b(before + text, r.chance(1, 3) ? 0 : 1 + r.below(7));
        std::basic_istream<C> is(&b);
        for (size_t i = 0; i < skip; ++i) is.get();
        if (r.chance(1, 2)) is.peek();
        is.clear();
        const Outcome o = outcome_of<J>([&] { return J::parse(is); });
        const auto    d = same_outcome(base, o);
        VH_CHECK(d.empty(), "string and the rest of a stream differ: " << d << " for " << show(text, 600));
        if (o.ok)
        {
            is.clear();
            const auto c = is.get();
            using T = std::char_traits<C>;
            VH_CHECK(nul || T::eq_int_type(c, T::eof()), "not all of the stream was consumed: " << show(text, 600));
        }
    }
    if (sizeof(C) == 1 && !eofc && r.chance(1, 4))
    {
        std::basic_string<C> whole = before + text;
        FileOf<C>            f(whole);
        for (size_t i = 0; i < skip; ++i) fgetc(f.f);
        const Outcome o = outcome_of<J>([&] { return J::template parse<C>(f.f); });
        const auto    d = same_outcome(base, o);
        VH_CHECK(d.empty(), "string and the rest of a file differ: " << d << " for " << show(text, 600));
        if (o.ok && !nul) VH_CHECK(fgetc(f.f) == EOF, "not all of the file was consumed: " << show(text, 600));
    }
}
template <class J, class C>
void sources(Ctx& ctx, const U32& text, bool reject_trailing = false)
{
    bool ascii = true;
    for (u32 c : text) ascii = ascii && c < 0x80 && c;
    all_sources<J, C>(ctx, Enc<C>::put(text), ascii, reject_trailing);
}
void sources_any(Ctx& ctx, const U32& t, u64 w)
{
    ctx.seen(hash_str(t));
    if (ctx.want_sample()) ctx.sample(show(t));
    switch (w % 4)
    {
    case 0: sources<json, char>(ctx, t); break;
    case 1: sources<wjson, wchar_t>(ctx, t); break;
    case 2: sources<json, wchar_t>(ctx, t); break;
    default: sources<wjson, char>(ctx, t); break;
    }
}

// what insertion of a wrapped value writes, with the width and fill of the stream
template <class J, class C, class T>
std::basic_string<C> insert(const T& x, const DumpOpt& o, int how, size_t chunk, bool& good)
{
    auto with = [&](std::basic_ostream<C>& os) {
        if (o.indent) { os.width(o.indent); os.fill(C(o.ch)); }
        os << J::wrap(x);
        good = os.good();
    };
    if (how == 0)
    {
        std::basic_ostringstream<C> os;
        with(os);
        return os.str();
    }
    if (how == 1)
    {
        StrAdapterOut<C>                  a;
        configor::basic_oadapterstream<C> os(a);
        with(os);
        return a.s;
    }
    OutBuf<C>             b(how == 2 ? 0 : chunk);
    std::basic_ostream<C> os(&b);
    with(os);
    return b.text();
}
template <class J, class C>
void sinks(Ctx& ctx, const M& m)
{
    auto&      r = ctx.rng;
    const auto o = gen_dump_opt(r);
    const V<J> v = build<J>(m, &r);
    const auto base = dump_via<J, C>(SnkReturn, v, o);
    for (int kind = 1; kind < SnkKinds; ++kind)
    {
        const size_t chunk = r.chance(1, 2) ? 1 + r.below(6) : 1 + r.below(base.size() + 2);
        const auto   t = dump_via<J, C>(kind, v, o, chunk);
        VH_CHECK(t == base, "returned string and " << sink_name(kind) << " (chunk " << chunk << ") differ with options " << o.str() << ": " << show(base, 500) << " and " << show(t, 500));
        ctx.evals(1);
    }
    // dumping again continues the text; what was there stays
    {
        Opts<J, C>           p(o);
        std::basic_string<C> s;
        s += C('#');
        J::template dump<C>(s, v, { p.indent, p.escape, p.prec });
        J::template dump<C>(s, v, { p.indent, p.escape, p.prec });
        std::basic_string<C> want;
        want += C('#');
        VH_CHECK(s == want + base + base || s == base, "dumping into a used string gave " << show(s, 500));
        OutBuf<C>             b(r.below(5));
        std::basic_ostream<C> os(&b);
        os.put(C('<'));
        J::template dump<C>(os, v, { p.indent, p.escape, p.prec });
        os.put(C('|'));
        J::template dump<C>(os, v, { p.indent, p.escape, p.prec });
        os.put(C('>'));
        std::basic_string<C> w2;
        w2 += C('<');
        w2 += base;
        w2 += C('|');
        w2 += base;
        w2 += C('>');
        VH_CHECK(b.text() == w2, "dumping between other output gave " << show(b.text(), 500) << " instead of " << show(w2, 500));
    }
    DumpOpt w = o;
    w.escape = false;
    w.prec = -1;
    w.flags = std::ios::fmtflags();
    const auto plain = dump_via<J, C>(SnkReturn, v, w);
    for (int how = 0; how < 4; ++how)
    {
        bool       good = false;
        const auto t = insert<J, C>(v, w, how, 1 + r.below(9), good);
        VH_CHECK(t == plain && good, "returned string and insertion differ: " << show(plain, 500) << " and " << show(t, 500) << " good " << good);
        ctx.evals(1);
    }
    // extraction brings it back and leaves what it was told to read consumed
    std::basic_istringstream<C> is(base);
    V<J>                        back = build<J>(gen_scalar(r, GenOpt()), &r);
    is >> J::wrap(back);
    VH_CHECK(!is.fail(), "extraction failed on " << show(base, 500));
    const auto d = diff_text(m, model<J>(back), o, false);
    VH_CHECK(d.empty(), "inserted and extracted value differs: " << d << " text " << show(base, 500));
}
}  // namespace

VH_PART(documents, 7000, 150000)
{
    auto&  r = ctx.rng;
    DocOpt o;
    o.comments = r.chance(1, 3);
    o.plus = r.chance(1, 3);
    o.dup = r.chance(1, 4);
    o.depth = r.range(0, 4);
    o.ascii = r.chance(1, 4);
    DocGen  g(r, o);
    const M m = g.doc();
    (void)m;
    sources_any(ctx, g.t, ctx.index);
}
VH_PART(malformed, 7000, 150000)
{
    auto&  r = ctx.rng;
    DocOpt o;
    o.comments = r.chance(1, 3);
    o.depth = r.range(0, 3);
    o.ascii = r.chance(1, 2);
    DocGen g(r, o);
    g.doc();
    U32 t = g.t;
    static const char bits[] = "[]{}:,\"\\/*-+.eE01 tnf\n\x01\x7f";
    for (u64 n = 1 + r.below(2); n; --n)
    {
        const size_t at = r.below(t.size() + 1);
        switch (r.below(4))
        {
        case 0: t.resize(at); break;
        case 1: t.insert(at, 1, char32_t(bits[r.below(sizeof bits - 1)])); break;
        case 2: if (at < t.size()) t[at] = char32_t(bits[r.below(sizeof bits - 1)]); break;
        default: if (at < t.size()) t.erase(at, 1); break;
        }
    }
    sources_any(ctx, t, ctx.index);
}
// ill-formed bytes reach the decoder the same way from everywhere
VH_PART(bytes, 5000, 100000)
{
    auto&       r = ctx.rng;
    std::string s = r.chance(1, 2) ? "\"" : "[\"";
    static const char al[] = "ab\"\\u00e9,:]}\xC3\xA9\xED\xA0\x80\xF0\x9F\x98\x80\xFE\xC0\x80/ *";
    for (u64 n = r.below(12); n; --n) s += r.chance(1, 8) ? char(1 + r.below(255)) : al[r.below(sizeof al - 1)];
    s += r.chance(1, 2) ? "\"" : "\"]";
    ctx.seen(hash_str(s));
    all_sources<json, char>(ctx, s, false, false);
}
VH_PART(options, 6000, 100000)
{
    auto&       r = ctx.rng;
    std::string s;
    static const char al[] = "ab\"\\u00e9,:]}\xC3\xA9\xED\xA0\x80\xF0\x9F\x98\x80\xFE\xC0\x80/ *";
    const std::string open[] = { "\"", "[\"", "{\"k\":\"", "{\"" }, close[] = { "\"", "\"]", "\"}", "\":1}" };
    const int k = int(r.below(4));
    s = open[k];
    for (u64 n = r.below(8); n; --n) s += r.chance(1, 3) ? char(0x20 + r.below(224)) : al[r.below(sizeof al - 1)];
    if (!r.chance(1, 6)) s += close[k];
    ctx.seen(hash_str(s));
    if (ctx.index % 3 == 0) with_options<json, char, configor::encoding::ignore>(ctx, s);
    else if (ctx.index % 3 == 1) with_options<json, char, configor::encoding::utf8>(ctx, s);
    else
    {
        std::wstring w;
        for (unsigned char c : s) w += r.chance(1, 6) ? wchar_t(0xD700 + r.below(0x900)) : wchar_t(c);
        if (r.chance(1, 2)) with_options<wjson, wchar_t, configor::encoding::utf16>(ctx, w);
        else with_options<wjson, wchar_t, configor::encoding::ignore>(ctx, w);
    }
}
// an encoding of the user's own reads blocks from every source
template <class J, class C> void own_encoding(Ctx& ctx)
{
    auto&                       r = ctx.rng;
    std::basic_ostringstream<C> os;
    os.put(C('['));
    const size_t n = r.below(5);
    for (size_t i = 0; i < n; ++i)
    {
        if (i) os.put(C(','));
        os.put(C('"'));
        for (u64 k = r.below(20); k; --k)
        {
            u32 c = r.chance(1, 3) ? 0x20 + u32(r.below(0x5F)) : 0x80 + u32(r.below(0x10FF80));
            if (c == '"' || c == '\\' || (c >= 0xD800 && c < 0xE000)) c = 'x';
            Own<C>::encode(os, c);
        }
        os.put(C('"'));
    }
    os.put(C(']'));
    auto t = os.str();
    {
        const auto enc = J::parser::template with_source_encoding<Own>();
        const V<J> v = J::template parse<C>(t, { enc, J::parser::template with_target_encoding<Own>() });
        VH_CHECK(J::template dump<C>(v, { J::serializer::template with_encoding<Own>() }) == t, "a document in an encoding of the user's own comes back as something else: " << show(t));
        const V<J> w = J::template parse<C>(t, { enc });
        VH_CHECK(J::template dump<C>(w, { J::serializer::template with_target_encoding<Own>() }) == t, "a document in an encoding of the user's own, read into a value and written, is something else: " << show(t));
    }
    if (r.chance(1, 4)) t.resize(r.below(t.size() + 1));
    else if (r.chance(1, 6)) t[r.below(t.size())] = C(r.below(2) ? 0x80 + r.below(9) : 0x20 + r.below(0x5F));
    ctx.seen(hash_bytes(t.data(), t.size() * sizeof(C)));
    with_options<J, C, Own>(ctx, t);
}
VH_PART(own_encodings, 3000, 60000)
{
    if (ctx.index % 2) own_encoding<json, char>(ctx);
    else own_encoding<wjson, wchar_t>(ctx);
}
// every size near those at which buffers end
VH_PART(sizes, 240, 960)
{
    auto&        r = ctx.rng;
    const size_t n = kSizes[ctx.index % kNumSizes];
    U32          t;
    switch (ctx.index / kNumSizes % 4)
    {
    case 0: t = u("\"") + U32(n, U'a') + u("\\n\xE9\""); break;
    case 1: t = u("[") + U32(n, U' ') + u("1") + U32(n, U'\n') + u("]"); break;
    case 2: t = u("{\"k\":\"") + U32(n, 0x20AC) + u("\",\"l\":[1,2.5]}"); break;
    default: { t = u("["); for (size_t i = 0; i < n; ++i) t += u((i ? "," : "") + std::to_string(i)); t += u("]"); break; }
    }
    for (u64 w = 0; w < 4; ++w) if (n < 5000 || w == ctx.index % 2) sources_any(ctx, t, w);
    (void)r;
}
// wide files in a locale that can decode them
VH_PART(wide_files, 3000, 40000)
{
    auto&      r = ctx.rng;
    Utf8Locale loc;
    if (!loc.ok) { ctx.count("no_utf8_locale"); return; }
    DocOpt o;
    o.depth = r.range(0, 3);
    DocGen g(r, o);
    g.doc();
    if (r.chance(1, 3)) g.t.resize(r.below(g.t.size() + 1));
    if (ctx.index % 40 == 0) g.t = u("\"") + U32(r.pick(kSizes), r.chance(1, 2) ? 0x1F600 : U'x') + u("\"");
    if (g.t.find(char32_t(0)) != g.t.npos) return;
    ctx.seen(hash_str(g.t));
    const std::wstring t = to32(g.t);
    const Outcome      a = try_parse<wjson, wchar_t>(t), b = try_parse<wjson, wchar_t>(t, SrcFile), c = try_parse<json, wchar_t>(t, SrcFile);
    auto d = same_outcome(a, b);
    VH_CHECK(d.empty(), "string and wide file differ: " << d << " for " << show(g.t));
    d = same_outcome(a, c);
    VH_CHECK(d.empty(), "wide string and wide file into a narrow value differ: " << d << " for " << show(g.t));
    ctx.count("wide_files");
}
VH_PART(values, 6000, 150000)
{
    auto&   r = ctx.rng;
    GenOpt  g;
    g.depth = r.range(0, 4);
    const M m = gen_value(r, g);
    ctx.seen(hash_m(m));
    switch (ctx.index % 4)
    {
    case 0: sinks<json, char>(ctx, m); break;
    case 1: sinks<wjson, wchar_t>(ctx, m); break;
    case 2: sinks<json, wchar_t>(ctx, m); break;
    default: sinks<wjson, char>(ctx, m); break;
    }
}
VH_PART(value_sizes, 180, 720)
{
    const size_t n = kSizes[ctx.index % kNumSizes];
    M            m;
    switch (ctx.index / kNumSizes % 3)
    {
    case 0: m = M::str(U32(n, U'x')); break;
    case 1: m = M::arr(); for (size_t i = 0; i < n; ++i) m.a.push_back(M::integer(int64_t(i))); break;
    default: m = M::obj(); m.o.emplace_back(U32(n, 0xE9), M::str(U32(n, 0x1F600))); break;
    }
    if (ctx.index % 2) sinks<json, char>(ctx, m);
    else sinks<wjson, wchar_t>(ctx, m);
}
// what extraction of wrapped data does against parsing and converting
template <class T> void extract(Ctx& ctx, const std::string& x, const T& old)
{
    auto& r = ctx.rng;
    T     want = old, got = old;
    bool  ok = true, fine = true, lib = true;
    std::string how;
    try { want = json::parse(x).get<T>(); }
    catch (const std::exception& e) { ok = false; how = e.what(); }
    InBuf<char>  b(x, r.below(4));
    std::istream is(&b);
    try
    {
        auto w = json::wrap(got);
        is >> w;
        fine = !is.fail();
    }
    catch (const configor::configor_exception&) { fine = false; }
    catch (const std::out_of_range&) { fine = false; }
    catch (const std::exception& e) { fine = lib = false; how = e.what(); }
    VH_CHECK(lib, "extracting wrapped data from " << show(x) << " threw something else: " << how);
    VH_CHECK(ok == fine, "parsing and converting " << show(x) << (ok ? " succeeds" : " fails") << " but extracting it " << (fine ? "succeeds" : "fails") << " " << how);
    if (ok) VH_CHECK(json::value(want) == json::value(got), "wrapped data extracted from " << show(x) << " differ from what parsing and converting gives");
    ctx.count(ok ? "wrapped_data_extracted" : "wrapped_data_refused");
}
// wrapped data other than values
VH_PART(wrapped_data, 4000, 60000)
{
    auto&                                   r = ctx.rng;
    std::vector<int64_t>                    a;
    std::map<std::string, std::vector<bool>> o;
    std::list<std::string>                  l;
    M                                       ma = M::arr(), ml = M::arr();
    for (u64 n = r.below(6); n; --n) { a.push_back(gen_int(r)); ma.a.push_back(M::integer(a.back())); }
    for (u64 n = r.below(6); n; --n) { const U32 s = gen_str(r, 8); l.push_back(to8(s)); ml.a.push_back(M::str(s)); }
    for (u64 n = r.below(4); n; --n) { auto& e = o[to8(gen_key(r))]; for (u64 k = r.below(4); k; --k) e.push_back(r.chance(1, 2)); }
    DumpOpt w;
    w.indent = r.chance(1, 2) ? r.range(1, 8) : 0;
    bool       good = false;
    const auto t = insert<json, char>(a, w, int(r.below(4)), 1 + r.below(5), good);
    VH_CHECK(good && t == json::dump(build<json>(ma), { Opts<json, char>(w).indent }), "inserting a wrapped vector gave " << show(t));
    std::vector<int64_t> a2{ 5, 6, 7 };
    std::istringstream   is(t);
    is >> json::wrap(a2);
    VH_CHECK(a2 == a, "a wrapped vector came back differently from " << show(t));
    const auto tl = insert<json, char>(l, w, int(r.below(4)), 1 + r.below(5), good);
    std::list<std::string> l2{ "x" };
    InBuf<char>            b(tl, r.below(4));
    std::istream           bs(&b);
    bs >> json::wrap(l2);
    VH_CHECK(l2 == l, "a wrapped list came back differently from " << show(tl));
    const auto to = insert<json, char>(o, w, int(r.below(4)), 1 + r.below(5), good);
    std::map<std::string, std::vector<bool>> o2{ { "x", {} } };
    std::istringstream                       os(to);
    os >> json::wrap(o2);
    VH_CHECK(o2 == o, "a wrapped map came back differently from " << show(to));
    // any text, into data that holds something: the same data as by parsing and converting, or a failure like there
    for (int k = 0; k < 3; ++k)
    {
        std::string x = k == 0 ? t : k == 1 ? to : tl;
        if (r.chance(1, 2) && !x.empty())
        {
            static const char* const in[] = { "1", "\"x\"", "null", "[]", "{}", "true", "1.5", "[1,\"x\"]", "[\"x\",1]", "{\"a\":[1]}", "]", "[1,", "" };
            if (r.chance(1, 2)) x = in[r.below(sizeof in / sizeof *in)];
            else if (x.size() > 2) x = x.substr(0, 1) + in[r.below(sizeof in / sizeof *in)] + "," + x.substr(1);
        }
        extract<std::vector<int64_t>>(ctx, x, { 5, 6 });
        extract<std::list<std::string>>(ctx, x, { "z" });
        extract<std::map<std::string, std::vector<bool>>>(ctx, x, { { "z", {} } });
        extract<std::string>(ctx, x, "z");
        extract<int>(ctx, x, 3);
        extract<double>(ctx, x, 3.5);
        extract<std::shared_ptr<int>>(ctx, x, nullptr);
    }
    ctx.seen(hash_str(t + tl + to));
}
