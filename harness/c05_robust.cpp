// C05: arbitrary input. The sanitizers, the allocation balance and a source that counts what is asked of it watch the
// parser; a value that comes out is inspected, copied, compared, dumped and destroyed.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <ctime>
#include <sys/resource.h>
using namespace vh;
namespace enc = configor::encoding;

namespace
{
enum E { Auto, Utf8, Utf16, Utf32, Ignore };
template <class J, class C, bool Wide = (sizeof(C) > 1)> struct SrcEnc
{
    using P = typename J::template parser_type<C>;
    static typename P::option get(int e)
    {
        switch (e)
        {
        case Utf8: return P::template with_source_encoding<enc::utf8>();
        case Utf16: return P::template with_source_encoding<enc::utf16>();
        case Utf32: return P::template with_source_encoding<enc::utf32>();
        case Ignore: return P::template with_source_encoding<enc::ignore>();
        default: return P::template with_source_encoding<enc::auto_utf>();
        }
    }
};
template <class J, class C> struct SrcEnc<J, C, false>
{
    using P = typename J::template parser_type<C>;
    static typename P::option get(int e)
    {
        return e == Utf8 ? P::template with_source_encoding<enc::utf8>() : e == Ignore ? P::template with_source_encoding<enc::ignore>()
                                                                                      : P::template with_source_encoding<enc::auto_utf>();
    }
};
template <class J, class C, bool Wide = (sizeof(Ch<J>) > 1)> struct DstEnc
{
    using P = typename J::template parser_type<C>;
    static typename P::option get(int e)
    {
        switch (e)
        {
        case Utf8: return P::template with_target_encoding<enc::utf8>();
        case Utf16: return P::template with_target_encoding<enc::utf16>();
        case Utf32: return P::template with_target_encoding<enc::utf32>();
        case Ignore: return P::template with_target_encoding<enc::ignore>();
        default: return P::template with_target_encoding<enc::auto_utf>();
        }
    }
};
template <class J, class C> struct DstEnc<J, C, false>
{
    using P = typename J::template parser_type<C>;
    static typename P::option get(int e)
    {
        return e == Utf8 ? P::template with_target_encoding<enc::utf8>() : e == Ignore ? P::template with_target_encoding<enc::ignore>()
                                                                                      : P::template with_target_encoding<enc::auto_utf>();
    }
};

// counts what is asked of it
template <class C>
class Counting : public std::basic_streambuf<C>
{
public:
    using T = std::char_traits<C>;
    explicit Counting(const std::basic_string<C>& s) : s_(s) {}
    u64 calls = 0, taken = 0;

protected:
    std::streamsize showmanyc() override { return p_ < s_.size() ? std::streamsize(s_.size() - p_) : -1; }
    typename T::int_type underflow() override { ++calls; return p_ < s_.size() ? T::to_int_type(s_[p_]) : T::eof(); }
    typename T::int_type uflow() override
    {
        ++calls;
        if (p_ >= s_.size()) return T::eof();
        ++taken;
        return T::to_int_type(s_[p_++]);
    }

private:
    const std::basic_string<C>& s_;
    size_t                      p_ = 0;
};

inline double cpu_seconds()
{
    timespec t{};
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

template <class J>
size_t walk(const V<J>& v)
{
    size_t n = 1 + v.size() + v.empty() + size_t(v.type());
    if (v.is_string()) n += v.template get<const St<J>&>().size();
    for (auto it = v.begin(); it != v.end(); ++it)
        if (v.is_array() || v.is_object()) n += walk<J>(*it);
    return n;
}
// what something done to a value of a text of so many characters takes is in proportion to them
struct Proportion
{
    const char* what;
    size_t      size;
    u64         asked = Alloc::bytes();
    double      start = cpu_seconds();
    Proportion(const char* w, size_t n) : what(w), size(n) {}
    Proportion(const Proportion&) = delete;
    // stops what has gone far beyond
    void stop() const { Alloc::bytes_limit() = asked + 400 * size + 200000; }
    ~Proportion() { Alloc::bytes_limit() = ~u64(0); }
    u64 done(size_t result = 0) const
    {
        const u64    bytes = Alloc::bytes() - asked;
        Alloc::bytes_limit() = ~u64(0);
        const double spent = cpu_seconds() - start;
        VH_CHECK(bytes <= 400 * (size + result) + 100000, bytes << " bytes allocated when " << what << " for an input of " << size << " characters");
#ifndef VH_VALGRIND
        VH_CHECK(spent <= 50e-6 * double(size + result) + 10, spent << " s of processor time when " << what << " for an input of " << size << " characters");
#endif
        return bytes;
    }
};
template <class J>
void use(V<J>& v, Rng& r, size_t size)
{
    const Proportion a{ "visiting, copying and comparing", size };
    a.stop();
    walk<J>(v);
    V<J> c(v);
    VH_CHECK((c == v) && !(c != v) && !(c < v), "a parsed value does not equal its copy");
    V<J> d;
    d = c;
    V<J> m(std::move(c));
    VH_CHECK(m == d, "a moved value differs");
    a.done();
    for (int esc = 0; esc < 2; ++esc)
        try
        {
            DumpOpt o;
            o.escape = esc;
            o.indent = r.chance(1, 3) ? 3 : 0;
            const Proportion b{ "dumping", size };
            const size_t     n = dump_as<J>(v, o).size();
            b.done(n);
            dump_as<J, char>(v, o);
        }
        catch (const configor::configor_serialization_error&) {}
    if (v.is_array() || v.is_object()) v.clear();
}

template <class J, class C>
bool feed_once(const std::basic_string<C>& text, int kind, int se, int te, size_t chunk, Rng& r)
{
    bool ok = false;
    try
    {
        V<J> v;
        {
            const Proportion p{ "parsing from one of the sources", text.size() };
            p.stop();
            v = parse_via<J, C>(kind, text, chunk, chunk & 1, { SrcEnc<J, C>::get(se), DstEnc<J, C>::get(te) });
            p.done();
        }
        ok = true;
        use<J>(v, r, text.size());
    }
    catch (const configor::configor_exception&) {}
    catch (const Fail&) { throw; }
    catch (const std::bad_alloc&) { VH_FAIL("parsing from " << source_name(kind) << " asked for memory out of proportion to an input of " << text.size() << " characters: " << show(text)); }
    catch (const std::exception& e)
    {
        VH_FAIL("parsing from " << source_name(kind) << " threw something that is not a library exception: " << e.what() << " for " << show(text));
    }
    return ok;
}
template <class J, class C>
void feed(Ctx& ctx, const std::basic_string<C>& text)
{
    auto&     r  = ctx.rng;
    const int se = r.chance(1, 2) ? int(Auto) : int(r.below(5)), te = r.chance(1, 2) ? int(Auto) : int(r.below(5));
    int       kind = int(r.below(SrcKinds));
    if (kind == SrcFile && (sizeof(C) > 1 || r.chance(3, 4))) kind = SrcCStr;
    const size_t chunk = 1 + r.below(9);
    {
        // reads, memory and time are linear in the input
        Counting<C>           b(text);
        std::basic_istream<C> is(&b);
        V<J>                  v;
        const Proportion      p{ "parsing", text.size() };
        p.stop();
        try { J::parse(v, is, { SrcEnc<J, C>::get(se), DstEnc<J, C>::get(te) }); }
        catch (const configor::configor_exception&) {}
        catch (const std::bad_alloc&) {}
        const u64 bytes = p.done();
        VH_CHECK(b.calls <= 8 * text.size() + 64, b.calls << " reads for an input of " << text.size() << " characters: " << show(text));
        ctx.count("source_bytes_allocated", bytes);
        ctx.count("source_reads", b.calls);
    }
    const Rng    saved = r;
    bool         ok = false;
    check_no_leak("parsing", [&] { Rng q = saved; ok = feed_once<J, C>(text, kind, se, te, chunk, q); });
    ctx.count(ok ? "inputs_accepted" : "inputs_rejected");
    ctx.count("characters_fed", text.size());
}
// how the characters of a text are written in the source
void feed_any(Ctx& ctx, const std::string& bytes, u64 w)
{
    ctx.seen(hash_str(bytes));
    if (ctx.want_sample()) ctx.sample(show(bytes));
    auto& r = ctx.rng;
    switch (w % 4)
    {
    case 0: feed<json, char>(ctx, bytes); return;
    case 1: feed<wjson, char>(ctx, bytes); return;
    default: break;
    }
    // wide: mostly the same characters, some of them any 32-bit number
    std::wstring t;
    for (unsigned char c : bytes)
    {
        t += wchar_t(c);
        if (c >= 0x80 && r.chance(1, 2))
        {
            static const u32 l[] = { 0x80, 0xFF, 0x100, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu, 0xDD00 };
            t.back() = wchar_t(r.chance(1, 4) ? u32(r.next()) : r.pick(l));
        }
    }
    if (w % 4 == 2) feed<wjson, wchar_t>(ctx, t);
    else feed<json, wchar_t>(ctx, t);
}
std::string hostile_doc(Rng& r)
{
    DocOpt o;
    o.comments = r.chance(1, 3);
    o.plus = o.dup = true;
    o.depth = r.range(0, 5);
    o.width = 5;
    DocGen g(r, o);
    g.doc();
    return to8(g.t);
}
}  // namespace

// any bytes
VH_PART(bytes, 60000, 1500000)
{
    auto&       r = ctx.rng;
    std::string s;
    static const char al[] = "[]{}:,\"\\/*-+.0123456789eEtruefalsn uU \t\n\r\xC3\xA9\xED\xA0\x80\xF0\x9F\x98\x80\xFF\xFE\xC0";
    const int   kind = int(r.below(3));
    for (u64 n = r.below(r.chance(1, 20) ? 600 : 40); n; --n)
        s += kind == 0 ? char(r.below(256)) : kind == 1 ? al[r.below(sizeof al - 1)] : r.chance(1, 6) ? char(r.below(256)) : al[r.below(sizeof al - 1)];
    if (r.chance(1, 2)) s.insert(0, r.chance(1, 2) ? "[" : "{\"");
    feed_any(ctx, s, ctx.index);
}

// damaged documents
VH_PART(damaged, 40000, 1000000)
{
    auto&       r = ctx.rng;
    std::string s = hostile_doc(r);
    for (u64 n = r.below(6); n && !s.empty(); --n)
    {
        const size_t at = r.below(s.size());
        switch (r.below(6))
        {
        case 0: s[at] = char(r.below(256)); break;
        case 1: s[at] = char(s[at] ^ (1 << r.below(8))); break;
        case 2: s.erase(at, 1 + r.below(5)); break;
        case 3: s.insert(at, 1 + r.below(3), char(r.below(256))); break;
        case 4: s.insert(at, s.substr(r.below(s.size()), r.below(12))); break;
        default: s.resize(at); break;
        }
    }
    feed_any(ctx, s, ctx.index);
}

// one very long token, comment, escape, gap, container or run of them, complete or not, in front of everything else
VH_PART(huge, 640, 6400)
{
    auto&        r = ctx.rng;
    const size_t n = r.chance(1, 2) ? r.pick(kSizes) : 50000 + r.below(ctx.thorough ? 900000 : 150000);
    static const char* const unit[] = { "/**/", "//\n", "/* x **/", "//", "/*", "*", "/", " ", "\n", "\"", "\\", "\\\"", "\\\\", "a", "\xC3\xA9", "\\u00e9", "\\ud83d\\ude00", "0", "9", "1", "-", "+", ".", "0.", "e", "1e", ",", ":", "null", "null,", "1,", "\"a\":1,", "\"\":", "\xF0\x9F\x98\x80", "\xFF", "\x80", "t", "tru", "\\u", "**/", "[],", "{},", "\xED\xA0\x80", "/**/ ", "//\r", "1.5e300,", "0e" };
    static const char* const head[] = { "", "[", "{", "\"", "1", "-", "1.", "0.", "1e", "1e+", "1e-", "/*", "//", "[1,", "{\"a\":", "{\"", "[\"", "\"\\" };
    static const char* const tail[] = { "", "]", "}", "\"", "\"]", "\":1}", "*/", "1", "\n1", "1]", "*/1", "}]", "null]", "0", "e5", "5", "\"a\":1}" };
    std::string s = head[r.below(sizeof head / sizeof *head)];
    const std::string u = unit[ctx.index % (sizeof unit / sizeof *unit)];
    s.reserve(n * u.size() + 32);
    for (size_t i = 0; i < n; ++i) s += u;
    s += tail[r.below(sizeof tail / sizeof *tail)];
    feed_any(ctx, s, r.below(4));
}

// nesting, complete and incomplete
VH_PART(nested, 320, 3200)
{
    auto&       r = ctx.rng;
    const int   depth = r.range(1, 600);
    std::string s, e;
    for (int i = 0; i < depth; ++i)
    {
        const u64 k = r.below(6);
        if (k < 3) { s += k == 0 ? "[" : k == 1 ? "[1," : "[[],"; e.insert(0, "]"); }
        else { s += k == 3 ? "{\"a\":" : k == 4 ? "{\"\":1,\"b\":" : "{\"x\":{},\"y\":"; e.insert(0, "}"); }
    }
    static const char* const mid[] = { "1", "", "null", "\"", "]", "}", ",", "x", "\"s\"", "[", "{", "-" };
    s += r.pick(mid);
    if (r.chance(3, 4)) s += e.substr(0, r.chance(1, 2) ? e.size() : r.below(e.size() + 1));
    feed_any(ctx, s, ctx.index);
}

// the same stream is parsed again and again until it refuses
VH_PART(reused, 6000, 100000)
{
    auto&       r = ctx.rng;
    std::string s;
    for (u64 n = 1 + r.below(4); n; --n) s += hostile_doc(r) + (r.chance(1, 2) ? " " : "");
    ctx.seen(hash_str(s));
    check_no_leak("parsing a stream repeatedly", [&] {
        std::istringstream is(s);
        for (int i = 0; i < 6; ++i)
        {
            try { json::parse(is); }
            catch (const configor::configor_exception&) {}
        }
        std::istringstream is2(s);
        for (int i = 0; i < 6 && is2; ++i)
        {
            json::value v;
            try { is2 >> json::wrap(v); }
            catch (const configor::configor_exception&) {}
        }
    });
}

// only run by an extra step, in a process with a stack of 8 MB, with the depth as the index
VH_PART(deep_probe, 0, 0)
{
    rlimit l{};
    getrlimit(RLIMIT_STACK, &l);
    const size_t n = ctx.index;
    std::string  s(n, '[');
    s += std::string(n, ']');
    json::value v = json::parse(s);
    size_t      d = 0;
    for (const json::value* p = &v; p->is_array() && p->size(); p = &p->at(size_t(0))) ++d;
    VH_CHECK(d + 1 == n, "depth " << d + 1 << " instead of " << n);
}
