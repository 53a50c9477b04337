// C08: hostile global locales, stream locales and formatting flags change nothing; the caller's stream is left as it was.
#include "lib.hpp"
#include <clocale>
#include <codecvt>
#include <fstream>
#include <unistd.h>
#include <locale>
using namespace vh;

namespace
{
template <class C>
struct Punct : std::numpunct<C>
{
    std::basic_string<C> t, f;
    C                    dot, sep;
    std::string          grp;
    Punct(C d, C s, std::string g, const char* tn, const char* fn) : dot(d), sep(s), grp(std::move(g))
    {
        for (; *tn; ++tn) t += C(*tn);
        for (; *fn; ++fn) f += C(*fn);
    }
    C do_decimal_point() const override { return dot; }
    C do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return grp; }
    std::basic_string<C> do_truename() const override { return t; }
    std::basic_string<C> do_falsename() const override { return f; }
};
template <class C>
struct Put : std::num_put<C>
{
    using It = typename std::num_put<C>::iter_type;
    static It junk(It i) { *i++ = C('?'); return i; }
    It do_put(It i, std::ios_base&, C, bool) const override { return junk(i); }
    It do_put(It i, std::ios_base&, C, long) const override { return junk(i); }
    It do_put(It i, std::ios_base&, C, unsigned long) const override { return junk(i); }
    It do_put(It i, std::ios_base&, C, long long) const override { return junk(i); }
    It do_put(It i, std::ios_base&, C, unsigned long long) const override { return junk(i); }
    It do_put(It i, std::ios_base&, C, double) const override { return junk(i); }
    It do_put(It i, std::ios_base&, C, long double) const override { return junk(i); }
};
template <class C>
std::locale with_facets(std::locale l, Rng& r)
{
    static const char* grps[] = { "", "\1", "\2", "\3", "\3\2", "\1\2\3" };
    const C dots[] = { C(','), C('.'), C(';'), C('x'), C('0'), C('1'), C('e') }, seps[] = { C('.'), C(','), C(' '), C('\''), C('_'), C('0'), C('-') };
    l = std::locale(l, new Punct<C>(r.pick(dots), r.pick(seps), r.pick(grps), r.chance(1, 2) ? "yes" : "", r.chance(1, 2) ? "no" : "true"));
    if (r.chance(1, 4)) l = std::locale(l, new Put<C>);
    return l;
}
// locales of the system, compiled into a scratch directory (none if there is no localedef)
struct SystemLocales
{
    std::vector<std::string> names;
    std::string              dir;
    SystemLocales()
    {
        char d[] = "/tmp/vh-c08-loc-XXXXXX";
        if (!mkdtemp(d)) return;
        dir = d;
        static const char* const all[][2] = { { "de_DE", "UTF-8" }, { "ps_AF", "UTF-8" }, { "tr_TR", "ISO-8859-9" } };
        setenv("LOCPATH", d, 1);
        for (auto& a : all)
        {
            const std::string name = std::string(a[0]) + "." + a[1];
            const std::string cmd = "localedef --no-archive -i " + std::string(a[0]) + " -f " + a[1] + " " + dir + "/" + name + " >/dev/null 2>&1";
            if (system(cmd.c_str()) == -1) continue;
            if (setlocale(LC_ALL, name.c_str())) names.push_back(name);
            setlocale(LC_ALL, "C");
        }
    }
    ~SystemLocales()
    {
        if (!dir.empty() && system(("rm -rf " + dir).c_str()) != 0) {}
    }
};
const std::vector<std::string>& system_locales()
{
    static SystemLocales s;
    return s.names;
}
std::string c_locale;   // what Global also sets as the C library's locale
std::locale hostile(Rng& r)
{
    std::locale l = std::locale::classic();
    if (!c_locale.empty() && r.chance(2, 3)) return std::locale(c_locale.c_str());
    if (r.chance(1, 4))
    {
        try { l = std::locale("C.UTF-8"); } catch (const std::exception&) {}
    }
    return with_facets<wchar_t>(with_facets<char>(l, r), r);
}
struct Global
{
    std::locale old;
    explicit Global(const std::locale& l) : old(std::locale::global(l))
    {
        if (!c_locale.empty()) setlocale(LC_ALL, c_locale.c_str());
    }
    ~Global() { std::locale::global(old); setlocale(LC_ALL, "C"); }
};
// the locale of the program, which nothing but Global may change
struct World
{
    std::locale loc;
    std::string c;
    World() : loc(), c(setlocale(LC_ALL, nullptr)) {}
    void check(const char* what) const
    {
        VH_CHECK(std::locale() == loc, what << " changed the global locale");
        VH_CHECK(c == setlocale(LC_ALL, nullptr), what << " changed the locale of the C library from " << c << " to " << setlocale(LC_ALL, nullptr));
    }
};
std::ios::fmtflags rnd_flags(Rng& r)
{
    using I = std::ios_base;
    static const I::fmtflags all[] = { I::boolalpha, I::showbase, I::showpoint, I::showpos, I::skipws, I::unitbuf, I::uppercase, I::hex, I::oct, I::dec, I::left, I::right, I::internal };
    I::fmtflags f{};
    for (auto x : all) if (r.chance(1, 3)) f |= x;
    return f;
}
template <class C>
struct Stat
{
    std::ios::fmtflags flags;
    C                  fill;
    std::streamsize    prec;
    std::locale        loc, bufloc;
    std::ios::iostate  exc;
    explicit Stat(const std::basic_ios<C>& s) : flags(s.flags()), fill(s.fill()), prec(s.precision()), loc(s.getloc()), bufloc(s.rdbuf()->getloc()), exc(s.exceptions()) {}
    void check(const std::basic_ios<C>& s, const char* what) const
    {
        VH_CHECK(s.flags() == flags, what << " changed the stream's flags from " << int(flags) << " to " << int(s.flags()));
        VH_CHECK(s.fill() == fill, what << " changed the stream's fill to " << int(s.fill()));
        VH_CHECK(s.precision() == prec, what << " changed the stream's precision from " << long(prec) << " to " << long(s.precision()));
        VH_CHECK(s.getloc() == loc, what << " changed the stream's locale");
        VH_CHECK(s.rdbuf()->getloc() == bufloc, what << " changed the locale of the stream's buffer");
        VH_CHECK(s.exceptions() == exc, what << " changed the stream's exception mask");
    }
};

template <class J, class C>
void dumping(Ctx& ctx, const M& m)
{
    auto&      r = ctx.rng;
    const V<J> v = build<J>(m, &r);
    // what the stream's own settings ask for, in a calm world
    DumpOpt o;
    static const int widths[] = { 0, 0, 1, 2, 4, 7, 16, 64, 255 };
    static const int precs[] = { 0, 1, 2, 6, 10, 15, 17, 20 };
    o.indent = r.pick(widths);
    o.ch = r.chance(1, 3) ? '\t' : ' ';
    o.prec = r.pick(precs);
    const u64 k = r.below(4);
    o.flags = k == 0 ? std::ios::fmtflags() : k == 1 ? std::ios::fixed : k == 2 ? std::ios::scientific : (std::ios::fixed | std::ios::scientific);
    const bool by_option = r.chance(1, 3);   // options instead of stream state
    o.escape = r.chance(1, 3);
    const auto want = dump_via<J, C>(SnkReturn, v, o);
    const std::locale l1 = hostile(r), l2 = hostile(r);
    const bool glob = r.chance(1, 2), imb = r.chance(2, 3) || !glob;
    std::basic_string<C> got;
    {
        Global*     g = glob ? new Global(l1) : nullptr;
        struct Del { Global* g; ~Del() { delete g; } } del{ g };
        const World world;
        if (glob && r.chance(1, 4)) got = dump_via<J, C>(int(r.below(SnkKinds)), v, o, 1 + r.below(5));
        else
        {
            std::basic_ostringstream<C> os;
            if (imb) os.imbue(l2);
            os.flags(rnd_flags(r));
            static const int fills[] = { ' ', '*', '0', '\t', '\n' };
            os.fill(C(r.pick(fills)));
            os.precision(3 + std::streamsize(r.below(9)));
            if (r.chance(1, 4)) os.exceptions(std::ios::failbit | std::ios::badbit);
            Opts<J, C> p(o);
            if (!by_option)
            {
                os.width(o.indent);
                os.fill(C(o.ch));
                os.precision(o.prec);
                os.setf(o.flags, std::ios::floatfield);
                const Stat<C> before(os);
                if (!o.escape && r.chance(1, 2)) os << J::wrap(v);
                else J::template dump<C>(os, v, { p.escape });
                VH_CHECK(os.width() == 0, "the width is still " << long(os.width()));
                before.check(os, "dumping");
            }
            else
            {
                // options win over what the stream asks for
                static const std::ios::fmtflags floats[] = { std::ios::fmtflags(), std::ios::fixed, std::ios::scientific, std::ios::fixed | std::ios::scientific };
                os.setf(r.pick(floats), std::ios::floatfield);
                if (o.indent && r.chance(1, 2)) os.width(r.pick(widths));
                const Stat<C> before(os);
                J::template dump<C>(os, v, { p.indent, p.escape, p.prec });
                before.check(os, "dumping");
                VH_CHECK(os.width() == 0, "the width is " << long(os.width()));
            }
            got = os.str();
        }
        world.check("dumping");
    }
    VH_CHECK(got == want, "dumped text depends on locale or stream state (global " << glob << " imbued " << imb << " options " << by_option << " " << o.str() << "): " << show(got, 600) << " instead of " << show(want, 600));
    ctx.count(glob ? "global_locale_dumps" : "stream_locale_dumps");
}

template <class J, class C>
void parsing(Ctx& ctx, const U32& text)
{
    auto&         r = ctx.rng;
    const auto    enc = Enc<C>::put(text);
    const Outcome want = try_parse<J, C>(enc);
    const std::locale l1 = hostile(r), l2 = hostile(r);
    const bool glob = r.chance(1, 2);
    Global*     g = glob ? new Global(l1) : nullptr;
    struct Del { Global* g; ~Del() { delete g; } } del{ g };
    const World world;
    Outcome got;
    if (glob && r.chance(1, 3))
    {
        int kind = int(r.below(SrcExtract));
        if (kind == SrcFile && sizeof(C) > 1) kind = SrcStream;
        got = outcome_of<J>([&] { return parse_via<J, C>(kind, enc, 1 + r.below(5), r.chance(1, 2)); });
    }
    else
    {
        std::basic_istringstream<C> is(enc);
        if (!glob || r.chance(1, 2)) is.imbue(l2);
        is.flags(rnd_flags(r));
        is.precision(std::streamsize(r.below(20)));
        is.fill(C('*'));
        const Stat<C> before(is);
        bool ext = r.chance(1, 3) && !text.empty() && (text[0] > 0x20 && text[0] < 0x7F);
        got = outcome_of<J>([&] { V<J> v; if (ext) is >> J::wrap(v); else J::parse(v, is); return v; });
        before.check(is, "parsing");
    }
    world.check("parsing");
    VH_CHECK(got.ok == want.ok && got.deser == want.deser, "parsing depends on locale or stream state: " << want.err << " / " << got.err << " for " << show(text, 500));
    if (want.ok)
    {
        const auto d = diff(want.m, got.m);
        VH_CHECK(d.empty(), "parsed value depends on locale or stream state: " << d << " for " << show(text, 500));
    }
    ctx.count(want.ok ? "texts_accepted" : "texts_rejected");
}
}  // namespace

VH_PART(dumps, 24000, 400000)
{
    auto&   r = ctx.rng;
    GenOpt  g;
    g.depth = r.range(0, 3);
    g.strlen = 6;
    M m = gen_value(r, g);
    if (r.chance(1, 2)) { M a = M::arr(); a.a.push_back(M::integer(gen_int(r))); a.a.push_back(M::flt(gen_dbl(r))); a.a.push_back(M::boolean(r.chance(1, 2))); a.a.push_back(M::str(gen_str(r, 8))); a.a.push_back(m); m = a; }
    ctx.seen(hash_m(m));
    if (ctx.want_sample()) ctx.sample(show(m));
    switch (ctx.index % 4)
    {
    case 0: dumping<json, char>(ctx, m); break;
    case 1: dumping<wjson, wchar_t>(ctx, m); break;
    case 2: dumping<json, wchar_t>(ctx, m); break;
    default: dumping<wjson, char>(ctx, m); break;
    }
}
VH_PART(parses, 24000, 400000)
{
    auto&  r = ctx.rng;
    DocOpt o;
    o.comments = r.chance(1, 4);
    o.plus = true;
    o.depth = r.range(0, 3);
    o.strlen = 6;
    DocGen g(r, o);
    if (r.chance(1, 3)) { g.lit("["); g.number(); g.lit(","); g.number(); g.lit(",true]"); }
    else g.doc();
    U32 t = g.t;
    if (r.chance(1, 5)) { static const char b[] = ",.'_ 0x1e\"]"; t.insert(r.below(t.size() + 1), 1, char32_t(b[r.below(sizeof b - 1)])); }
    ctx.seen(hash_str(t));
    switch (ctx.index % 4)
    {
    case 0: parsing<json, char>(ctx, t); break;
    case 1: parsing<wjson, wchar_t>(ctx, t); break;
    case 2: parsing<json, wchar_t>(ctx, t); break;
    default: parsing<wjson, char>(ctx, t); break;
    }
}
VH_PART(system, 12000, 200000)
{
    auto&       r = ctx.rng;
    const auto& names = system_locales();
    c_locale = names.empty() ? std::string("C.UTF-8") : r.pick(names);
    struct Calm { ~Calm() { c_locale.clear(); } } calm;
    ctx.count(names.empty() ? "without_system_locales" : c_locale.c_str());
    const u64 k = r.below(8);
    if (k < 4)
    {
        GenOpt g;
        g.depth = r.range(0, 3);
        g.strlen = 6;
        M a = M::arr();
        a.a.push_back(M::integer(gen_int(r)));
        a.a.push_back(M::flt(gen_dbl(r)));
        a.a.push_back(gen_value(r, g));
        ctx.seen(hash_m(a));
        if (k == 0) dumping<json, char>(ctx, a);
        else if (k == 1) dumping<wjson, wchar_t>(ctx, a);
        else if (k == 2) dumping<json, wchar_t>(ctx, a);
        else dumping<wjson, char>(ctx, a);
        return;
    }
    DocOpt o;
    o.comments = r.chance(1, 4);
    o.depth = r.range(0, 3);
    o.strlen = 6;
    DocGen g(r, o);
    if (r.chance(1, 2)) { g.lit("["); g.number(); g.lit(", "); g.number(); g.lit(",true,\"i\"]"); }
    else g.doc();
    U32 t = g.t;
    // white space, digits and letters that only some locale takes for such
    static const char32_t odd[] = { 0x0B, 0x0C, 0x1C, 0x85, 0xA0, 0x1680, 0x2003, 0x2028, 0x202F, 0x205F, 0x3000, 0x131, 0x130, 0x660, 0x6F1, 0x966, 0xFF11, 0xFF45, 0x66B, 0x66C, ',', '.' };
    if (r.chance(1, 2)) t.insert(r.below(t.size() + 1), 1, r.pick(odd));
    ctx.seen(hash_str(t));
    if (k == 4) parsing<json, char>(ctx, t);
    else if (k == 5) parsing<wjson, wchar_t>(ctx, t);
    else if (k == 6) parsing<json, wchar_t>(ctx, t);
    else parsing<wjson, char>(ctx, t);
}
// white space that only a locale would skip is not part of the format
VH_PART(round_trips, 8000, 100000)
{
    auto&             r = ctx.rng;
    const std::locale l1 = hostile(r);
    Global            g(l1);
    GenOpt            go;
    go.depth = 2;
    const M    m = gen_value(r, go);
    const auto o = gen_dump_opt(r);
    ctx.seen(hash_m(m));
    const auto v = build<json>(m, &r);
    const auto t = dump_via<json, char>(int(r.below(SnkKinds)), v, o, 1 + r.below(4));
    const auto d = diff_text(m, model<json>(parse_via<json, char>(int(r.below(SrcFile)), t)), o, false);
    VH_CHECK(d.empty(), "round trip in a hostile global locale: " << d << " text " << show(t));
    // conversions and error messages do not need the locale either
    try { json::parse(std::string("[1,\x01]")); VH_FAIL("accepted"); }
    catch (const configor::configor_deserialization_error&) {}
}

// what fails leaves the locales and the stream as they are, too
template <class J, class C> void failing(Ctx& ctx)
{
    auto&             r = ctx.rng;
    const std::locale l1 = hostile(r), l2 = hostile(r);
    GenOpt            go;
    go.depth = 2;
    M m = M::arr();
    for (u64 n = 1 + r.below(4); n; --n) m.a.push_back(gen_value(r, go));
    auto v = build<J>(m, &r);
    // a sink that gives up, or a value that cannot be written
    struct Sink : std::basic_streambuf<C>
    {
        size_t left;
        bool   thrown;
        Sink(size_t n, bool t) : left(n), thrown(t) {}
        typename std::basic_streambuf<C>::int_type overflow(typename std::basic_streambuf<C>::int_type c) override
        {
            if (left) { --left; return c; }
            if (thrown) throw std::runtime_error("the sink fails");
            return std::char_traits<C>::eof();
        }
    };
    const u64 how = r.below(4);
    static const double odd[] = { std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() };
    if (how == 0) v.push_back(r.pick(odd));
    if (how == 1) v.push_back(typename V<J>::string_type(1, typename V<J>::char_type(sizeof(typename V<J>::char_type) == 1 ? 0xBF : 0xDC00)));
    Sink                  sink(how < 2 ? size_t(-1) : r.below(3), how == 3);
    std::basic_ostream<C> os(&sink);
    DocOpt                o;
    DocGen                g(r, o);
    g.doc();
    U32 t = u("[") + g.t + u(r.chance(1, 2) ? ",}" : ",\"\\q\"]");
    std::basic_istringstream<C> is(Enc<C>::put(t));
    bool                  dumped = false, parsed = false;
    {
        Global      global(l1);
        const World world;
        if (r.chance(1, 2)) { os.imbue(l2); is.imbue(l2); }
        os.flags(rnd_flags(r));
        is.flags(rnd_flags(r));
        os.precision(std::streamsize(r.below(20)));
        os.fill(C('*'));
        const Stat<C> b1(os), b2(is);
        DumpOpt       d = gen_dump_opt(r);
        Opts<J, C>    p(d);
        try { J::template dump<C>(os, v, { p.indent, p.escape, p.prec }); dumped = true; } catch (const std::exception&) {}
        world.check("dumping what fails");
        b1.check(os, "dumping what fails");
        try { V<J> x; if (r.chance(1, 2)) is >> J::wrap(x); else J::parse(x, is); parsed = true; } catch (const std::exception&) {}
        world.check("parsing what fails");
        b2.check(is, "parsing what fails");
        try { v.template get<bool>(); } catch (const std::exception&) {}
        try { v.at(r.below(3) + 1000); } catch (const std::exception&) {}
        world.check("access that fails");
    }
    VH_CHECK(!parsed, "accepted " << show(t, 300));
    ctx.seen(hash_m(m) ^ hash_str(t));
    ctx.count(dumped ? "dumped" : "dumps_failed");
    ctx.evals(5);
}
VH_PART(failures, 8000, 100000)
{
    switch (ctx.index % 4)
    {
    case 0: failing<json, char>(ctx); break;
    case 1: failing<wjson, wchar_t>(ctx); break;
    case 2: failing<json, wchar_t>(ctx); break;
    default: failing<wjson, char>(ctx); break;
    }
}

// a buffer that converts characters by a locale of its own keeps converting them by it
struct TempName
{
    char name[64];
    TempName()
    {
        strcpy(name, "/tmp/vh-c08-XXXXXX");
        const int f = mkstemp(name);
        if (f < 0) VH_FAIL("harness: mkstemp failed");
        ::close(f);
    }
    ~TempName() { ::unlink(name); }
};
template <class J> void buffer_locale(Ctx& ctx, const M& m)
{
    auto&      r = ctx.rng;
    const auto o = gen_dump_opt(r);
    const auto v = build<J>(m, &r);
    const auto want = dump_via<J, wchar_t>(SnkReturn, v, o);
    U32        w;
    if (!from32(want, w)) return;
    const auto bytes = to8(w);
    const std::locale utf8(std::locale::classic(), new std::codecvt_utf8<wchar_t>);
    const std::locale other = r.chance(1, 2) ? std::locale::classic() : hostile(r);
    TempName          f;
    {
        std::wfilebuf b;
        b.pubimbue(utf8);
        VH_CHECK(b.open(f.name, std::ios::out | std::ios::binary), "harness: cannot open a file");
        std::wostream os(&b);
        if (r.chance(1, 2)) { os.imbue(other); b.pubimbue(utf8); }
        if (r.chance(1, 2)) os.put(L'\u4F60');
        else os.put(L' ');
        Opts<J, wchar_t> p(o);
        J::template dump<wchar_t>(os, v, { p.indent, p.escape, p.prec });
        VH_CHECK(b.getloc() == utf8, "dumping changed the locale of a file's buffer");
        VH_CHECK(os.good() && b.pubsync() == 0, "writing to a file failed");
    }
    std::string got;
    {
        std::ifstream      is(f.name, std::ios::binary);
        std::ostringstream all;
        all << is.rdbuf();
        got = all.str();
    }
    VH_CHECK(got == " " + bytes || got == "\xE4\xBD\xA0" + bytes, "through a buffer with a locale of its own " << show(got, 400) << " was written instead of " << show(bytes, 400));
    {
        std::ofstream os(f.name, std::ios::binary | std::ios::trunc);
        os << bytes;
    }
    std::wfilebuf b;
    b.pubimbue(utf8);
    VH_CHECK(b.open(f.name, std::ios::in | std::ios::binary), "harness: cannot open a file");
    std::wistream is(&b);
    if (r.chance(1, 2)) { is.imbue(other); b.pubimbue(utf8); }
    const auto back = J::parse(is);
    VH_CHECK(b.getloc() == utf8, "parsing changed the locale of a file's buffer");
    const auto d = diff_text(m, model<J>(back), o, false);
    VH_CHECK(d.empty(), "through a buffer with a locale of its own: " << d << " text " << show(bytes, 400));
    ctx.evals(3);
}
VH_PART(buffer_locales, 2000, 20000)
{
    auto&  r = ctx.rng;
    GenOpt g;
    g.depth = r.range(0, 3);
    g.strlen = 12;
    const M m = gen_value(r, g);
    ctx.seen(hash_m(m));
    if (ctx.index % 2) buffer_locale<wjson>(ctx, m);
    else buffer_locale<json>(ctx, m);
}
