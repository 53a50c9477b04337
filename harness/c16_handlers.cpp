// C16: error handlers. The same operation runs without a handler and with each kind of handler; the number of calls, the
// exception they get, what escapes and the result are compared.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <typeinfo>
using namespace vh;

namespace
{
std::string show_text(const std::string& t) { return t; }
std::string show_text(const std::wstring& t)
{
    std::string s;
    for (auto c : t) s += c >= 32 && c < 127 ? std::string(1, char(c)) : S() << "\\x{" << std::hex << u32(c) << "}";
    return s;
}
struct Seen { bool threw = false; std::string type, what; };
Seen seen_of(const std::exception_ptr& p)
{
    Seen s;
    s.threw = true;
    try { std::rethrow_exception(p); }
    catch (const Fail&) { throw; }
    catch (const std::exception& e) { s.type = typeid(e).name(); s.what = e.what(); }
    catch (...) { s.type = "?"; }
    return s;
}
struct Counting : configor::error_handler
{
    int                calls = 0;
    std::exception_ptr p;
    void handle(std::exception_ptr e) override { ++calls; p = e; }
};
struct Own { int n; };
struct Throwing : configor::error_handler
{
    int calls = 0;
    void handle(std::exception_ptr e) override
    {
        ++calls;
        if (e) throw Own{ 42 };
    }
};
using Strict = configor::error_handler_with<configor::error_policy::strict>;
using Record = configor::error_handler_with<configor::error_policy::record>;
using Ignore = configor::error_handler_with<configor::error_policy::ignore>;

// f(handler) runs the operation and returns something that same(a, b) compares
template <class R, class F, class Same> bool policies(Ctx& ctx, const std::string& at, F f, Same same)
{
    R    base{};
    Seen b;
    try { base = f(nullptr); }
    catch (const Fail&) { throw; }
    catch (...) { b = seen_of(std::current_exception()); }
    ctx.evals(6);
    ctx.count(b.threw ? "failures" : "successes");
    {
        Counting h;
        R        r{};
        try { r = f(&h); }
        catch (const Fail&) { throw; }
        catch (...) { VH_FAIL(at << ": an exception escapes although the handler swallows it: " << seen_of(std::current_exception()).what << (h.calls ? " (after calling it)" : "")); }
        VH_CHECK(h.calls == (b.threw ? 1 : 0), at << ": handler called " << h.calls << " times, without a handler " << (b.threw ? "it throws " + b.what : "it succeeds"));
        if (b.threw)
        {
            VH_CHECK(h.p, at << ": handler called without an exception");
            const auto s = seen_of(h.p);
            VH_CHECK(s.type == b.type && s.what == b.what, at << ": handler gets " << s.type << " '" << s.what << "', without a handler it throws " << b.type << " '" << b.what << "'");
        }
        else VH_CHECK(same(base, r), at << ": another result with a handler");
    }
    {
        Strict h;
        Seen   s;
        R      r{};
        try { r = f(&h); }
        catch (const Fail&) { throw; }
        catch (...) { s = seen_of(std::current_exception()); }
        VH_CHECK(s.threw == b.threw && s.type == b.type && s.what == b.what, at << ": strict handler: " << (s.threw ? s.type + " '" + s.what + "'" : "nothing thrown") << ", without a handler: " << (b.threw ? b.type + " '" + b.what + "'" : "nothing thrown"));
        if (!b.threw) VH_CHECK(same(base, r), at << ": another result with a strict handler");
    }
    {
        Record h;
        R      r{};
        try { r = f(&h); }
        catch (const Fail&) { throw; }
        catch (...) { VH_FAIL(at << ": an exception escapes a recording handler: " << seen_of(std::current_exception()).what); }
        if (b.type != "?") VH_CHECK(h.error == b.what, at << ": recorded '" << h.error << "', thrown '" << b.what << "'");
        if (!b.threw) VH_CHECK(same(base, r), at << ": another result with a recording handler");
    }
    {
        Ignore h;
        R      r{};
        try { r = f(&h); }
        catch (const Fail&) { throw; }
        catch (...) { VH_FAIL(at << ": an exception escapes an ignoring handler: " << seen_of(std::current_exception()).what); }
        if (!b.threw) VH_CHECK(same(base, r), at << ": another result with an ignoring handler");
    }
    {
        Throwing h;
        bool     own = false;
        try { f(&h); }
        catch (const Fail&) { throw; }
        catch (const Own& o) { own = o.n == 42; }
        catch (...) { VH_FAIL(at << ": something else than what the handler throws escapes: " << seen_of(std::current_exception()).what); }
        VH_CHECK(h.calls == (b.threw ? 1 : 0), at << ": throwing handler called " << h.calls << " times");
        VH_CHECK(own == b.threw, at << ": what the handler throws does not escape");
    }
    return b.threw;
}

template <class J, class C> bool parse_policies(Ctx& ctx, const std::basic_string<C>& t, int kind, size_t chunk, bool in_place)
{
    using Par = typename J::template parser_type<C>;
    const std::string at = S() << "parsing from " << source_name(kind) << (in_place ? " in place" : "") << " " << show_text(t);
    return policies<V<J>>(ctx, at, [&](configor::error_handler* h) { return parse_via<J, C>(kind, t, chunk, in_place, { Par::with_error_handler(h) }); },
                          [](const V<J>& a, const V<J>& b) { return diff(model<J>(a), model<J>(b)).empty(); });
}

// replaces, removes, repeats or inserts a few characters
U32 damage(Rng& r, U32 t)
{
    static const U32 alphabet = U"{}[]:,\"\\/-+.eE0123456789truefalsn \t\n*u\x1\x7f\xe9\u20ac\U0001f600";
    const int n = 1 + int(r.below(3));
    for (int i = 0; i < n; ++i)
    {
        const size_t k = r.chance(1, 4) ? 0 : r.below(t.size() + 1);
        switch (r.below(5))
        {
        case 0: t.insert(k, 1, r.pick(alphabet)); break;
        case 1: if (k < t.size()) t.erase(k, 1 + r.below(3)); break;
        case 2: if (k < t.size()) t[k] = r.pick(alphabet); break;
        case 3: if (k < t.size()) t.insert(k, t.substr(k, 1 + r.below(4))); break;
        default: t.resize(k); break;
        }
    }
    return t;
}
template <class C> struct To;
template <> struct To<char> { static std::string of(const U32& t) { return to8(t); } };
template <> struct To<wchar_t> { static std::wstring of(const U32& t) { const auto u = to32(t); return std::wstring(u.begin(), u.end()); } };

template <class J, class C> bool text_case(Ctx& ctx, const U32& t, Rng r)
{
    int kind = int(r.below(SrcAdapter + 1));
    if (kind == SrcFile && !std::is_same<C, char>::value) kind = SrcAdapter;
    if (kind == SrcAdapter && t.find(char32_t(0xff)) != t.npos) kind = SrcChunked;
    return parse_policies<J, C>(ctx, To<C>::of(t), kind, 1 + r.below(7), r.chance(1, 3));
}
bool any_width(Ctx& ctx, const U32& t)
{
    switch (ctx.rng.below(4))
    {
    case 0: return text_case<json, wchar_t>(ctx, t, ctx.rng);
    case 1: return text_case<wjson, wchar_t>(ctx, t, ctx.rng);
    case 2: return text_case<wjson, char>(ctx, t, ctx.rng);
    default: return text_case<json, char>(ctx, t, ctx.rng);
    }
}

// puts something that cannot be written somewhere into the value
template <class J> void spoil(V<J>& v, Rng& r)
{
    using Str = St<J>;
    V<J>* p = &v;
    for (int guard = 0; guard < 20; ++guard)
    {
        if (p->is_array() && p->size() && !r.chance(1, 4)) { p = &(*p)[r.below(p->size())]; continue; }
        if (p->is_object() && p->size() && !r.chance(1, 4))
        {
            auto it = p->begin();
            for (size_t k = r.below(p->size()); k; --k) ++it;
            p = &*it;
            continue;
        }
        break;
    }
    V<J> bad;
    switch (r.below(4))
    {
    case 0: bad = std::numeric_limits<double>::infinity(); break;
    case 1: bad = std::numeric_limits<double>::quiet_NaN(); break;
    default: bad = Str(1 + r.below(3), Ch<J>(sizeof(Ch<J>) == 1 ? 0x80 + r.below(0x40) : 0xd800 + r.below(0x800))); break;
    }
    if (p->is_array()) p->push_back(bad);
    else if (p->is_object())
    {
        if (r.chance(1, 2)) (*p)[Str(1, Ch<J>('k'))] = bad;
        else (*p)[Str(1, Ch<J>(sizeof(Ch<J>) == 1 ? 0xff : 0xdc00))] = nullptr;  // a bad key
    }
    else *p = bad;
}

template <class J, class C> void dump_case(Ctx& ctx, const M& m, bool good)
{
    using Ser = typename J::template serializer_type<C>;
    Rng& r = ctx.rng;
    auto v = build<J>(m);
    if (!good) spoil<J>(v, r);
    const auto       o = gen_dump_opt(r);
    const Opts<J, C> p(o);
    const int        kind = int(r.below(8));
    const size_t     limit = r.below(60);
    const std::string at = S() << "dumping " << show(m) << (good ? "" : " (spoilt)") << " to sink #" << kind << " with " << o.str();
    policies<std::basic_string<C>>(
        ctx, at,
        [&](configor::error_handler* h) -> std::basic_string<C> {
            const auto eh = Ser::with_error_handler(h);
            switch (kind)
            {
            case 0: return J::template dump<C>(v, { p.indent, p.escape, p.prec, eh });
            case 1: return J::template dump<C>(v, { eh, p.prec, p.indent, p.escape });
            case 2:
            {
                std::basic_string<C> s;
                J::template dump<C>(s, v, { p.indent, eh, p.escape, p.prec });
                return s;
            }
            case 3:
            {
                std::basic_ostringstream<C> os;
                J::template dump<C>(os, v, { p.indent, p.escape, p.prec, eh });
                return os.str();
            }
            case 4:
            {
                StrAdapterOut<C>                  a;
                configor::basic_oadapterstream<C> os(a);
                J::template dump<C>(os, v, { eh, p.indent, p.escape, p.prec });
                return a.s;
            }
            case 5:
            case 6:
            {
                OutBuf<C>             b(limit % 5, limit, kind == 5 ? OutBuf<C>::Refuse : OutBuf<C>::Throw);
                std::basic_ostream<C> os(&b);
                J::template dump<C>(os, v, { p.indent, p.escape, p.prec, eh });
                return b.text();
            }
            default:
            {
                OutBuf<C>             b(limit % 5);
                std::basic_ostream<C> os(&b);
                J::template dump<C>(os, v, { p.indent, p.escape, p.prec, eh });
                return b.text();
            }
            }
        },
        [](const std::basic_string<C>& a, const std::basic_string<C>& b) { return a == b; });
}
}  // namespace

VH_PART(damaged, 12000, 400000)
{
    DocOpt d;
    d.comments = d.plus = d.dup = true;
    d.depth = 1 + int(ctx.rng.below(6));
    DocGen g(ctx.rng, d);
    g.doc();
    const auto t = ctx.rng.chance(1, 5) ? g.t : damage(ctx.rng, g.t);
    if (any_width(ctx, t)) ctx.seen(hash_str(t));
    if (ctx.want_sample()) ctx.sample(to8(t));
}
// every text of up to three characters (first, middle and last characters of any kind)
VH_PART(short_texts, 1, 1)
{
    static const U32 alphabet = U"{}[]:,\"\\/-+.e012tn \x1\xe9";
    u64 n = 0;
    std::function<void(U32&)> go = [&](U32& t) {
        if (any_width(ctx, t)) ctx.seen(hash_str(t));
        ++n;
        if (t.size() == 2 + size_t(ctx.thorough)) return;
        for (auto c : alphabet) { t.push_back(c); go(t); t.pop_back(); }
    };
    U32 t;
    go(t);
    ctx.count("short_texts", n);
}
// each position of a document replaced by an unexpected character, so that failures lie everywhere
VH_PART(positions, 400, 8000)
{
    DocOpt d;
    d.depth = 4;
    DocGen g(ctx.rng, d);
    g.doc();
    if (g.t.size() > 80) return;
    ctx.seen(hash_str(g.t));
    for (size_t k = 0; k < g.t.size(); ++k)
    {
        auto t = g.t;
        t[k] = U'\x2';
        any_width(ctx, t);
        t.resize(k);
        any_width(ctx, t);
    }
}
VH_PART(bytes, 6000, 200000)
{
    Rng&        r = ctx.rng;
    std::string t;
    for (size_t n = r.below(12); n; --n) t.push_back(char(r.chance(1, 3) ? r.below(256) : "\"[{1,:}]"[r.below(8)]));
    if (t.find('\xff') != t.npos) { parse_policies<json, char>(ctx, t, SrcString, 1, false); }
    else parse_policies<json, char>(ctx, t, int(r.below(SrcAdapter + 1)), 1 + r.below(4), r.chance(1, 2));
    ctx.seen(hash_str(t));
}
VH_PART(deep_failures, 64, 640)
{
    // a failure below many open levels still calls the handler once
    Rng&         r = ctx.rng;
    const size_t n = 1 + r.below(200);
    U32          t;
    for (size_t k = 0; k < n; ++k) t += r.chance(1, 2) ? U32(U"[") : U32(U"{\"a\":");
    t += r.chance(1, 2) ? U32(U"tru") : U32(U"\"\\x");
    any_width(ctx, t);
    ctx.seen(hash_str(t));
    M m;
    m.k = M::Flt;
    m.f = std::numeric_limits<double>::infinity();
    for (size_t k = 0; k < n; ++k)
    {
        M a;
        a.k = M::Arr;
        a.a.push_back(std::move(m));
        m = std::move(a);
    }
    dump_case<json, char>(ctx, m, true);
}
VH_PART(dumps, 12000, 400000)
{
    GenOpt o;
    o.depth = int(ctx.rng.below(5));
    const auto m = gen_value(ctx.rng, o);
    ctx.seen(hash_m(m));
    const bool good = ctx.rng.chance(1, 3);
    switch (ctx.rng.below(4))
    {
    case 0: dump_case<json, wchar_t>(ctx, m, good); break;
    case 1: dump_case<wjson, wchar_t>(ctx, m, good); break;
    case 2: dump_case<wjson, char>(ctx, m, good); break;
    default: dump_case<json, char>(ctx, m, good); break;
    }
    if (ctx.want_sample()) ctx.sample(show(m));
}
// the same handler used for many operations; only failures reach it, each once
VH_PART(reused, 400, 8000)
{
    Counting h;
    Record   rec;
    int      failures = 0;
    for (int k = 0; k < 30; ++k)
    {
        DocOpt d;
        d.depth = 3;
        DocGen g(ctx.rng, d);
        g.doc();
        const auto t = to8(ctx.rng.chance(1, 2) ? damage(ctx.rng, g.t) : g.t);
        std::string what;
        try { json::parse<char>(t); }
        catch (const std::exception& e) { what = e.what(); ++failures; }
        json::parse<char>(t, { json::parser_type<char>::with_error_handler(&h) });
        VH_CHECK(h.calls == failures, "a reused handler has been called " << h.calls << " times after " << failures << " failures");
        json::parse<char>(t, { json::parser_type<char>::with_error_handler(&rec) });
        if (!what.empty()) VH_CHECK(rec.error == what, "a reused recording handler has '" << rec.error << "' instead of '" << what << "'");
    }
    ctx.seen(ctx.index);
    ctx.evals(60);
}
// failures that are not the library's own: encodings that throw, at any of their calls
template <class C> struct Odd
{
    static long& left() { static long n = -1; return n; }
    static int&  what() { static int n = 0; return n; }
    static void  maybe()
    {
        if (left() < 0 || left()-- > 0) return;
        switch (what())
        {
        case 0: throw std::runtime_error("odd encoding");
        case 1: throw configor::configor_type_error("odd encoding");
        case 2: throw std::bad_alloc();
        case 3: throw Own{ 7 };
        case 4: throw std::ios_base::failure("odd encoding");
        default: throw 42;
        }
    }
    static bool decode(std::basic_istream<C>& is, uint32_t& c) { maybe(); return configor::encoding::auto_utf<C>::decode(is, c); }
    static void encode(std::basic_ostream<C>& os, uint32_t c) { maybe(); configor::encoding::auto_utf<C>::encode(os, c); }
};
template <class J, class C> void odd_case(Ctx& ctx, const U32& t, const M& m)
{
    using Par = typename J::template parser_type<C>;
    using Ser = typename J::template serializer_type<C>;
    Rng&      r     = ctx.rng;
    const int where = int(r.below(4));
    const int what  = int(r.below(6));
    auto      run   = [&](long n) {
        const std::string at = S() << (where < 2 ? "parsing " : "dumping ") << (where < 2 ? to8(t) : show(m)) << " with an encoding that throws #" << what << " at call " << n;
        auto arm = [&] {
            Odd<C>::left() = Odd<Ch<J>>::left() = -1;
            Odd<C>::what() = Odd<Ch<J>>::what() = what;
            if (where == 0 || where == 3) Odd<C>::left() = n;
            else Odd<Ch<J>>::left() = n;
        };
        bool threw = false;
        if (where < 2)
        {
            const auto text = To<C>::of(t);
            threw = policies<V<J>>(ctx, at, [&](configor::error_handler* h) {
                arm();
                V<J> v;
                if (where == 0) J::template parse<C>(v, text, { Par::template with_source_encoding<Odd>(), Par::with_error_handler(h) });
                else J::template parse<C>(v, text, { Par::with_error_handler(h), Par::template with_target_encoding<Odd>() });
                return v;
            }, [](const V<J>& a, const V<J>& b) { return diff(model<J>(a), model<J>(b)).empty(); });
        }
        else
        {
            const auto v = build<J>(m);
            threw = policies<std::basic_string<C>>(ctx, at, [&](configor::error_handler* h) {
                arm();
                std::basic_string<C> s;
                if (where == 2) J::template dump<C>(s, v, { Ser::template with_source_encoding<Odd>(), Ser::with_error_handler(h) });
                else J::template dump<C>(s, v, { Ser::with_error_handler(h), Ser::template with_target_encoding<Odd>() });
                return s;
            }, [](const std::basic_string<C>& a, const std::basic_string<C>& b) { return a == b; });
        }
        Odd<C>::left() = Odd<Ch<J>>::left() = -1;
        if (threw) ctx.count("encodings_that_threw");
        return threw;
    };
    run(0);
    for (int k = 0; k < 4; ++k) if (!run(long(r.below(40)))) break;
}
VH_PART(encodings, 1600, 60000)
{
    DocOpt d;
    d.depth = 3;
    DocGen g(ctx.rng, d);
    g.doc();
    GenOpt o;
    o.depth = 2;
    const auto m = gen_value(ctx.rng, o);
    ctx.seen(hash_str(g.t) ^ hash_m(m));
    switch (ctx.rng.below(4))
    {
    case 0: odd_case<json, wchar_t>(ctx, g.t, m); break;
    case 1: odd_case<wjson, wchar_t>(ctx, g.t, m); break;
    case 2: odd_case<wjson, char>(ctx, g.t, m); break;
    default: odd_case<json, char>(ctx, g.t, m); break;
    }
}
// failures that are not the library's own: allocations
VH_PART(allocations, 240, 4800)
{
    DocOpt d;
    d.depth = 3;
    DocGen g(ctx.rng, d);
    g.doc();
    const auto t = to8(g.t);
    if (t.size() > 300) return;
    ctx.seen(hash_str(t));
    const auto v = json::parse<char>(t);
    using Par = json::parser_type<char>;
    using Ser = json::serializer_type<char>;
    Counting h;
    for (int op = 0; op < 2; ++op)
        for (long n = 0;; ++n)
        {
            h.calls = 0;
            h.p     = nullptr;
            std::initializer_list<Par::option> po = { Par::with_error_handler(&h) };
            std::initializer_list<Ser::option> so = { Ser::with_error_handler(&h) };
            json::value out;
            std::string text;
            std::istringstream is(t);
            const long before = Alloc::injected();
            bool escaped = false;
            Alloc::fail_at() = n;
            try
            {
                if (op == 0) json::parse(out, is, po);
                else json::dump(text, v, so);
            }
            catch (...) { escaped = true; }
            Alloc::fail_at() = -1;
            const bool fired = Alloc::injected() > before;
            VH_CHECK(h.calls <= 1, "handler called " << h.calls << " times when allocation " << n << " fails");
            if (!fired) { VH_CHECK(!escaped && !h.calls, "handler called without a failure"); break; }
            // setting up the parser may fail before there is a handler; what happens after that goes to the handler
            VH_CHECK(escaped != (h.calls == 1), "allocation " << n << " fails while " << (op ? "dumping" : "parsing") << ": handler called " << h.calls << " times and " << (escaped ? "an exception escapes" : "nothing escapes") << " for " << t);
            ctx.count(h.calls ? "allocation_failures_handled" : "allocation_failures_in_set_up");
            ctx.evals(1);
        }
}
