// C15: sinks that refuse or throw, and sources that end, fail or throw, at every position of the text.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <clocale>
#include <functional>
#include <iomanip>
#include <unistd.h>
using namespace vh;

namespace
{
struct Counting : configor::error_handler
{
    int calls = 0;
    void handle(std::exception_ptr p) override
    {
        ++calls;
        VH_CHECK(p != nullptr, "handler called without an exception");
    }
};
template <class C> struct BadAdapterOut : configor::basic_oadapter<C>
{
    std::basic_string<C> s;
    size_t               limit;
    bool                 bulk;
    BadAdapterOut(size_t l, bool b) : limit(l), bulk(b) {}
    void write(const C c) override
    {
        if (s.size() >= limit) throw std::runtime_error("sink failed");
        s += c;
    }
    void write(const C* p, std::size_t n) override
    {
        if (!bulk) { configor::basic_oadapter<C>::write(p, n); return; }
        const size_t room = limit - s.size();
        s.append(p, std::min(n, room));
        if (n > room) throw std::runtime_error("sink failed");
    }
};
template <class C> struct BadAdapterIn : configor::basic_iadapter<C>
{
    std::basic_string<C> s;
    size_t               p = 0, limit;
    BadAdapterIn(std::basic_string<C> t, size_t l) : s(std::move(t)), limit(l) {}
    using configor::basic_iadapter<C>::read;
    C read() override
    {
        if (p >= limit) throw std::runtime_error("source failed");
        return p < s.size() ? s[p++] : static_cast<C>(std::char_traits<C>::eof());
    }
};
// a C file over memory that reports a read error or the end at a position
struct Cookie { std::string s; size_t p = 0, limit = 0; bool error = false; };
ssize_t cookie_read(void* c, char* b, size_t n)
{
    auto&        k = *static_cast<Cookie*>(c);
    const size_t m = std::min({ n, k.limit - k.p, k.s.size() - k.p });
    if (m == 0 && k.p >= k.limit && k.error) { errno = EIO; return -1; }
    memcpy(b, k.s.data() + k.p, m);
    k.p += m;
    return ssize_t(m);
}

template <class J, class C> void sinks(Ctx& ctx, const V<J>& v, const std::basic_string<C>& full, const DumpOpt& o)
{
    using Ser = typename J::template serializer_type<C>;
    const Opts<J, C> p(o);
    for (size_t k = 0; k < full.size(); ++k)
        for (int form = 0; form < 8; ++form)
        {
            const size_t chunk = form < 6 ? (form / 2 == 0 ? 0 : form / 2 == 1 ? 3 : 16) : 0;
            const auto   mode  = form % 2 ? OutBuf<C>::Throw : OutBuf<C>::Refuse;
            const int    handler = int(ctx.rng.below(4));
            Counting     h;
            configor::error_handler_with<configor::error_policy::record> rec;
            auto         eh = Ser::with_error_handler(handler == 1 ? static_cast<configor::error_handler*>(&h) : handler == 2 ? &rec : nullptr);
            bool         returned = false, stream_bad = false;
            std::basic_string<C> got;
            OutBuf<C>         b(chunk, k, mode);
            BadAdapterOut<C>  a(k, form == 7);
            configor::basic_oadapterstream<C> as(a);
            std::basic_ostream<C> bs(&b);
            std::basic_ostream<C>& os = form < 6 ? bs : static_cast<std::basic_ostream<C>&>(as);
            try
            {
                if (handler == 3)
                {
                    if (o.indent) os << std::setw(o.indent) << std::setfill(C(o.ch));
                    os << J::wrap(v);
                }
                else J::template dump<C>(os, v, { p.indent, p.escape, p.prec, eh });
                returned   = true;
                stream_bad = !os;
            }
            catch (const Fail&) { throw; }
            catch (const std::exception&) {}
            got = form < 6 ? b.text() : a.s;
            auto at = [&] { return std::string(S() << (form < 6 ? (chunk ? "buffered stream" : "unbuffered stream") : "adapter") << (form < 6 && !(form % 2) ? " that refuses" : " that throws") << " character " << k << " of " << full.size() << " with options " << o.str()); };
            const bool reported = !returned || h.calls || !rec.error.empty() || (handler == 3 && stream_bad);
            VH_CHECK(h.calls <= 1, "handler called " << h.calls << " times for a " << at());
            // extraction writes with the stream's own options
            if (handler != 3)
            {
                VH_CHECK(reported || got == full, "dumping to a " << at() << " returns normally with " << got.size() << " characters");
                if (chunk == 0) VH_CHECK(reported, "dumping to a " << at() << " is not reported");
                const auto reached = form < 6 ? b.flushed() : got;
                VH_CHECK(full.compare(0, reached.size(), reached) == 0, "what reached a " << at() << " is not a prefix of the text");
                VH_CHECK(reached.size() <= k, "harness: too much");
            }
            else if (chunk == 0 && o.prec < 0 && !o.escape) VH_CHECK(reported, "inserting into a " << at() << " is not reported");
            ctx.count(reported ? "sink_failures_reported" : "sink_failures_after_the_end");
        }
    ctx.evals(full.size() * 8);
    // a sink that can take exactly the text
    {
        OutBuf<C>             b(0, full.size());
        std::basic_ostream<C> os(&b);
        J::template dump<C>(os, v, { p.indent, p.escape, p.prec });
        VH_CHECK(b.text() == full, "a sink with just enough room");
    }
    // streams that can take nothing
    for (int form = 0; form < 2; ++form)
    {
        std::basic_ostream<C> os(nullptr);
        bool                  threw = false;
        try { J::template dump<C>(os, v, { p.indent, p.escape, p.prec }); }
        catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "dumping to a stream without buffer returns normally");
    }
}

template <class J, class C> void sources(Ctx& ctx, const std::basic_string<C>& text, size_t complete, const M& m, bool prefix_free)
{
    using Par = typename J::template parser_type<C>;
    for (size_t k = 0; k <= text.size(); ++k)
        for (int form = 0; form < 10; ++form)
        {
            // 0..5 streams, 6 adapter, 7 C file error, 8 C file end, 9 extraction
            if (!std::is_same<C, char>::value && (form == 7 || form == 8)) continue;
            const bool fails = form == 6 || form == 7 || (form < 6 && form % 2) || form == 9;
            const int  handler = int(ctx.rng.below(3));
            Counting   h;
            auto       eh = Par::with_error_handler(handler == 1 && form != 9 ? static_cast<configor::error_handler*>(&h) : nullptr);
            bool       threw = false;
            V<J>       v;
            auto at = [&] { return std::string(S() << "source #" << form << " that " << (fails ? "fails" : "ends") << " at character " << k << " of " << text.size()); };
            try
            {
                if (form < 6)
                {
                    InBuf<C>              b(text, form / 2 == 0 ? 0 : form / 2 == 1 ? 1 : 5, k, form % 2 ? InBuf<C>::Throw : InBuf<C>::End);
                    std::basic_istream<C> is(&b);
                    J::parse(v, is, { eh });
                }
                else if (form == 6)
                {
                    BadAdapterIn<C>                   a(text, k);
                    configor::basic_iadapterstream<C> is(a);
                    J::parse(v, is, { eh });
                }
                else if (form == 9)
                {
                    InBuf<C>              b(text, 2, k, InBuf<C>::Throw);
                    std::basic_istream<C> is(&b);
                    is >> J::wrap(v);
                    threw = !is;
                }
                else
                {
                    Cookie c;
                    c.s.assign(text.begin(), text.end());
                    c.limit = k;
                    c.error = form == 7;
                    FILE* f = fopencookie(&c, "r", { cookie_read, nullptr, nullptr, nullptr });
                    VH_CHECK(f, "harness: no cookie");
                    struct Close { FILE* f; ~Close() { fclose(f); } } close{ f };
                    J::template parse<C>(v, f, { Par::with_error_handler(nullptr) });
                }
            }
            catch (const Fail&) { throw; }
            catch (const configor::configor_deserialization_error&) { threw = true; }
            catch (const std::exception& e) { threw = true; VH_CHECK(form == 9 || fails, "a " << at() << " gives " << e.what()); }
            const bool reported = threw || h.calls;
            VH_CHECK(h.calls <= 1, "handler called " << h.calls << " times for a " << at());
            if (k < complete && (fails || prefix_free)) VH_CHECK(reported, "a " << at() << " (complete at " << complete << ") gives a value: " << show(model<J>(v)));
            if (!reported && k >= complete)
            {
                const auto d = diff(m, model<J>(v));
                VH_CHECK(d.empty(), "a " << at() << " gives another value: " << d);
            }
            if (k == text.size() && !fails) VH_CHECK(!reported, "a complete source is refused");
            ctx.count(reported ? "source_failures_reported" : "complete_sources");
        }
    ctx.evals(text.size() * 10);
}
}  // namespace

VH_PART(sinks, 320, 6400)
{
    auto&  r = ctx.rng;
    GenOpt g;
    g.depth = 3;
    g.width = 4;
    M m;
    do m = gen_value(r, g); while (nodes(m) > 16);
    DumpOpt o = gen_dump_opt(r);
    if (o.indent > 5) o.indent = 5;
    const Rng saved = r;
    check_no_leak("failing sinks", [&] {
        ctx.rng = saved;
        if (ctx.index % 2)
        {
            const auto v = build<json>(m);
            const auto t = dump_as<json>(v, o);
            if (t.size() > 160) return;
            ctx.seen(hash_str(t));
            sinks<json, char>(ctx, v, t, o);
            if (ctx.want_sample()) ctx.sample(t);
        }
        else if (ctx.index % 4)
        {
            const auto v = build<wjson>(m);
            const auto t = dump_as<wjson, wchar_t>(v, o);
            if (t.size() > 160) return;
            ctx.seen(hash_str(t));
            sinks<wjson, wchar_t>(ctx, v, t, o);
        }
        else
        {
            const auto v = build<json>(m);
            const auto t = dump_as<json, wchar_t>(v, o);
            if (t.size() > 160) return;
            ctx.seen(hash_str(t));
            sinks<json, wchar_t>(ctx, v, t, o);
        }
    });
}

VH_PART(sources, 600, 12000)
{
    auto&  r = ctx.rng;
    DocOpt d;
    d.depth = 3;
    d.width = 4;
    DocGen g(r, d);
    auto   x = g.doc();
    if (g.t.size() > 140) return;
    // where the document proper ends
    const bool scalar = x.k != M::Arr && x.k != M::Obj && x.k != M::Str;
    // trailing blanks and comments are not part of it: cut at the last character that ends a token
    M    got;
    size_t complete = 0;
    {
        // the shortest prefix that the reference reader accepts with the same value
        for (size_t k = 1; k <= g.t.size(); ++k)
        {
            const U32 p = g.t.substr(0, k);
            RefReader rr(p, false);
            M         mm;
            if (rr.read(mm) == Verdict::Accept && (!scalar || diff(x, mm, read_tol()).empty())) { complete = k; break; }
        }
    }
    if (!complete) return;
    const Rng saved = r;
    check_no_leak("failing sources", [&] {
        ctx.rng = saved;
        // a number may go on, so it is complete only when followed by something
        if (ctx.index % 3)
        {
            const auto t = to8(g.t);
            const size_t c = to8(g.t.substr(0, complete)).size();
            ctx.seen(hash_str(t));
            sources<json, char>(ctx, t, c, model<json>(json::parse<char>(t)), !scalar);
            if (ctx.want_sample()) ctx.sample(t);
        }
        else
        {
            const auto t = to32(g.t);
            ctx.seen(hash_str(t));
            sources<wjson, wchar_t>(ctx, std::wstring(t.begin(), t.end()), complete, model<wjson>(wjson::parse<wchar_t>(std::wstring(t.begin(), t.end()))), !scalar);
        }
    });
}

// C files whose bytes stop being decodable, or that cannot be read at all
VH_PART(unreadable_files, 400, 8000)
{
    auto&  r = ctx.rng;
    DocOpt d;
    d.depth = 3;
    d.width = 4;
    d.ascii       = true;
    d.trailing_ws = false;
    DocGen g(r, d);
    g.doc();
    auto t = to8(g.t);
    if (t.size() > 200) return;
    ctx.seen(hash_str(t));
    const char* loc = setlocale(LC_CTYPE, "C.UTF-8");
    VH_CHECK(loc, "harness: no C.UTF-8 locale");
    struct Back { ~Back() { setlocale(LC_CTYPE, "C"); } } back;
    FILE* dir = fopen("/", "r");
    VH_CHECK(dir, "harness: no directory");
    struct Close { FILE* f; ~Close() { fclose(f); } } close_dir{ dir };
    auto must_fail = [&](const std::function<void()>& f, const std::string& what) {
        bool threw = false;
        try { f(); }
        catch (const Fail&) { throw; }
        catch (const configor::configor_deserialization_error&) { threw = true; }
        VH_CHECK(threw, "reading " << what << " gives a value");
    };
    if (ctx.index % 2) must_fail([&] { json::parse(dir); }, "a directory");
    else must_fail([&] { wjson::parse<wchar_t>(dir); }, "a directory as wide text");
    for (size_t k = 0; k < t.size(); ++k)
    {
        auto bad = t.substr(0, k) + "\xff" + t.substr(k);
        FILE* f = tmpfile();
        VH_CHECK(f && ::write(fileno(f), bad.data(), bad.size()) == ssize_t(bad.size()) && lseek(fileno(f), 0, SEEK_SET) == 0, "harness: no file");
        Close close_f{ f };
        must_fail([&] { wjson::parse<wchar_t>(f); }, "a wide file undecodable at " + std::to_string(k));
    }
    ctx.evals(t.size() + 1);
    ctx.count("undecodable_files", t.size());
}
