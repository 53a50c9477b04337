// C20: adapter streams. The same operations run on the adapter stream and on a standard string stream; what they return,
// the counts and the stream states must agree, and the adapter must have been asked for, or given, each character once.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <iomanip>
#include <iterator>
using namespace vh;

namespace
{
template <class C> struct In : configor::basic_iadapter<C>
{
    std::basic_string<C> s;
    size_t               p = 0, past = 0, bulks = 0;
    bool                 bulk;
    In(std::basic_string<C> t, bool b) : s(std::move(t)), bulk(b) {}
    C read() override
    {
        if (p < s.size()) return s[p++];
        ++past;
        return static_cast<C>(std::char_traits<C>::eof());
    }
    void read(C* d, size_t n) override
    {
        ++bulks;
        if (!bulk) { configor::basic_iadapter<C>::read(d, n); return; }
        VH_CHECK(n <= s.size() - p, "the adapter is asked for " << n << " characters with " << s.size() - p << " left");
        std::char_traits<C>::copy(d, s.data() + p, n);
        p += n;
    }
};
template <class C> struct Out : configor::basic_oadapter<C>
{
    std::basic_string<C> s;
    size_t               singles = 0, bulks = 0;
    bool                 bulk;
    explicit Out(bool b) : bulk(b) {}
    void write(const C c) override { ++singles; s += c; }
    void write(const C* p, std::size_t n) override
    {
        ++bulks;
        if (!bulk) configor::basic_oadapter<C>::write(p, n);
        else s.append(p, n);
    }
};

template <class C> std::string show_t(const std::basic_string<C>& t)
{
    std::string s;
    for (size_t i = 0; i < t.size() && i < 60; ++i) s += u32(t[i]) >= 32 && u32(t[i]) < 127 ? std::string(1, char(t[i])) : std::string(S() << "\\x" << std::hex << u32(t[i]));
    return s;
}
template <class C> std::basic_string<C> text(Rng& r, size_t n, bool formatted)
{
    std::basic_string<C> s;
    static const char    words[] = "12 -7 3.5 ab xyz\n q\t 0x1f  1e3 \r\n zz 99999 ,.;";
    while (s.size() < n)
    {
        if (formatted) s += C(words[r.below(sizeof words - 1)]);
        else if (sizeof(C) == 1) s += C(r.below(255));  // 0xff is the end
        else s += r.chance(1, 2) ? C(r.below(0x110000)) : r.chance(1, 2) ? C(r.below(256)) : C(r.below(0x7fffffff));
    }
    return s;
}

// one operation on a stream; a description of everything it did
template <class C> struct Op
{
    int    kind;
    size_t n;
    C      c;
    bool   w;
};
template <class C> std::string hex(const C* p, size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; ++i) s += std::to_string(u32(p[i])) + ",";
    return s;
}
template <class C> std::string apply(std::basic_istream<C>& is, const Op<C>& op)
{
    using T = std::char_traits<C>;
    S s;
    std::vector<C> b(op.n + 3, C('#'));
    switch (op.kind)
    {
    case 0: s << "peek " << u32(is.peek()); break;
    case 1: s << "get " << u32(is.get()); break;
    case 2: { C c = C('#'); is.get(c); s << "get(c) " << u32(c); break; }
    case 3: case 4: is.read(b.data(), std::streamsize(op.n)); s << "read " << op.n << " " << hex(b.data(), b.size()); break;
    case 5: is.ignore(std::streamsize(op.n)); s << "ignore " << op.n; break;
    case 6: is.ignore(std::streamsize(op.n), T::to_int_type(op.c)); s << "ignore(delim) " << op.n; break;
    case 7: is.getline(b.data(), std::streamsize(op.n + 1), op.c); s << "getline(buf) " << op.n << hex(b.data(), b.size()); if (is.fail() && !is.eof() && !is.bad()) is.clear(); break;
    case 8: is.get(b.data(), std::streamsize(op.n + 1), op.c); s << "get(buf) " << op.n << hex(b.data(), b.size()); if (is.fail() && !is.eof() && !is.bad()) is.clear(); break;
    case 9: { std::basic_string<C> l; std::getline(is, l, op.c); s << "getline(string) " << hex(l.data(), l.size()); break; }
    case 10: { C c = C('#'); if (!op.w) is >> std::noskipws; else is >> std::skipws; is >> c; s << ">> char " << u32(c); break; }
    case 11: { std::basic_string<C> l; is >> std::skipws >> std::setw(int(op.n)) >> l; s << ">> string " << hex(l.data(), l.size()); break; }
    case 12: { int64_t x = -1; is >> std::skipws >> x; s << ">> integer " << x; if (is.fail() && !is.eof() && !is.bad()) { is.clear(); is.ignore(1); } break; }
    case 13: { is >> std::ws; s << ">> ws"; break; }
    case 14: s << "sgetc " << u32(is.rdbuf()->sgetc()); return s;
    case 15: s << "sbumpc " << u32(is.rdbuf()->sbumpc()); return s;
    case 16: s << "snextc " << u32(is.rdbuf()->snextc()); return s;
    case 17: s << "sgetn " << is.rdbuf()->sgetn(b.data(), std::streamsize(op.n)) << " " << hex(b.data(), b.size()); return s;
    case 18: { std::basic_ostringstream<C> o; is.get(*o.rdbuf(), op.c); const auto l = o.str(); s << "get(streambuf) " << hex(l.data(), l.size()); if (is.fail() && !is.eof() && !is.bad()) is.clear(); break; }
    case 19:
    {
        std::istreambuf_iterator<C> it(is), end;
        std::basic_string<C>        l;
        for (size_t k = 0; k < op.n && it != end; ++k, ++it) l += *it;
        s << "streambuf iterator " << hex(l.data(), l.size());
        return s;
    }
    default: { std::basic_ostringstream<C> o; is >> o.rdbuf(); const auto l = o.str(); s << "rest " << hex(l.data(), l.size()); break; }
    }
    s << " count " << is.gcount() << " state " << int(is.rdstate());
    return s;
}

template <class C> void input(Ctx& ctx, size_t n, bool formatted)
{
    Rng&       r = ctx.rng;
    const auto t = text<C>(r, n, formatted);
    ctx.seen(hash_str(t, ctx.index));
    In<C>                             a(t, r.chance(1, 2));
    configor::basic_iadapterstream<C> is(a);
    std::basic_istringstream<C>       ref(t);
    std::string                       history;
    for (size_t k = 0; k < 4 * n + 20; ++k)
    {
        Op<C> op;
        op.kind = int(r.below(formatted ? 20 : 10));
        if (!formatted && op.kind == 9 && r.chance(1, 2)) op.kind = 14 + int(r.below(6));
        if (r.chance(1, 4 * n + 20)) op.kind = 20;
        op.n = r.chance(1, 8) ? 0 : r.below(r.chance(1, 4) ? 40 : 8);
        op.c = t.empty() || r.chance(1, 3) ? C('\n') : r.pick(t);
        op.w = r.chance(1, 2);
        // bulk reads stay within the data; a peeked end is not consumed
        const auto g = ref.rdbuf()->in_avail();
        const size_t left = g < 0 ? 0 : size_t(g);
        if ((op.kind == 3 || op.kind == 4 || op.kind == 17) && op.n > left) op.n = left;
        // (a default bulk read after the end has been peeked gives nothing)
        if ((op.kind == 15 || op.kind == 16 || op.kind == 19) && left < op.n + 2) continue;
        if (op.kind == 6 && ref.eof()) continue;
        if (op.kind == 11 && op.n == 0) op.n = 1;
        const auto want = apply<C>(ref, op), got = apply<C>(is, op);
        history += got.substr(0, 24) + "; ";
        if (history.size() > 600) history.erase(0, 200);
        VH_CHECK(want == got, "input of " << t.size() << " characters '" << show_t(t) << "': expected '" << want << "' got '" << got << "' after " << history);
        ctx.evals(1);
        ctx.count("input_operations");
        if (ref.eof() || ref.bad()) break;
        if (ref.fail()) { ref.clear(); is.clear(); }
        // at most one character is read ahead
        const auto l = ref.rdbuf()->in_avail();
        const size_t taken = t.size() - size_t(l < 0 ? 0 : l);
        VH_CHECK(a.p == taken || a.p == taken + 1, "the adapter has been asked for " << a.p << " characters when " << taken << " have been delivered, after " << history);
    }
    // whatever is left
    if (!ref.eof() && !ref.bad())
    {
        const auto want = apply<C>(ref, Op<C>{ 20, 0, C(0), false }), got = apply<C>(is, Op<C>{ 20, 0, C(0), false });
        VH_CHECK(want == got, "the rest of '" << show_t(t) << "': expected '" << want << "' got '" << got << "' after " << history);
        VH_CHECK(a.p == t.size(), "the adapter has not been read to the end");
    }
}

// around the sizes that buffers are likely to have
size_t block_size(Rng& r)
{
    const size_t n = size_t(1) << (10 + r.below(8));
    return r.chance(1, 2) ? n - 4 + r.below(9) : r.below(n) + 1;
}
template <class C> void apply_out(std::basic_ostream<C>& os, Rng r, std::string* what)
{
    using T = std::char_traits<C>;
    const auto t = text<C>(r, r.chance(1, 8) ? 0 : r.chance(1, 40) ? block_size(r) : r.below(r.chance(1, 6) ? 3000 : 12), false);
    const u64  k = r.below(16);
    const C    c = C(sizeof(C) == 1 ? r.below(256) : r.below(0x7fffffff));
    if (what) *what = "operation " + std::to_string(k);
    switch (k)
    {
    case 0: case 1: os.put(c); break;
    case 2: case 3: os.write(t.data(), std::streamsize(t.size())); break;
    case 4: os << t; break;
    case 5: os << std::setw(int(r.below(20))) << std::setfill(C('*')) << t << std::setfill(C(' ')); break;
    case 6: os << int64_t(r.next()); break;
    case 7: os << std::setw(int(r.below(30))) << double(int64_t(r.below(100000))) / 7; break;
    case 8: os << c; break;
    case 9: os << std::flush; break;
    case 10: os << std::endl; break;
    case 11: os.rdbuf()->sputc(c); break;
    case 12: { const auto n = os.rdbuf()->sputn(t.data(), std::streamsize(t.size())); VH_CHECK(n == std::streamsize(t.size()), "sputn returns " << n << " for " << t.size()); break; }
    case 13: { std::basic_istringstream<C> is(t); if (!t.empty()) os << is.rdbuf(); break; }
    case 14: { std::ostreambuf_iterator<C> it(os); for (auto x : t) *it++ = x; VH_CHECK(!it.failed(), "the iterator reports a failure"); break; }
    default: os << "literal" << true << std::hex << 255 << std::dec << std::setw(6) << C('x'); break;
    }
    (void)sizeof(T);
}
template <class C> void output(Ctx& ctx, int steps)
{
    Out<C>                            a(ctx.rng.chance(1, 2));
    configor::basic_oadapterstream<C> os(a);
    std::basic_ostringstream<C>       ref;
    std::string                       what;
    for (int k = 0; k < steps; ++k)
    {
        const Rng r = ctx.rng;
        ctx.rng.next();
        apply_out<C>(ref, r, &what);
        apply_out<C>(os, r, nullptr);
        VH_CHECK(ref.rdstate() == os.rdstate(), what << ": state " << int(os.rdstate()) << " instead of " << int(ref.rdstate()));
        const auto want = ref.str();
        VH_CHECK(a.s == want, what << " (step " << k << "): the adapter has " << a.s.size() << " characters instead of " << want.size());
        VH_CHECK(os.good() || !ref.good(), what << ": the stream is not good");
        ctx.evals(1);
        ctx.count("output_operations");
    }
    ctx.seen(hash_str(a.s));
}
}  // namespace

VH_PART(input_any, 18000, 300000)
{
    const size_t n = ctx.rng.chance(1, 20) ? 200 + ctx.rng.below(5000) : ctx.rng.below(40);
    check_no_leak("adapter input", [&] {
        const Rng saved = ctx.rng;
        if (ctx.index % 2) input<char>(ctx, n, false);
        else input<wchar_t>(ctx, n, false);
        ctx.rng = saved;
    });
}
VH_PART(input_formatted, 18000, 300000)
{
    const size_t n = ctx.rng.below(80);
    if (ctx.index % 2) input<char>(ctx, n, true);
    else input<wchar_t>(ctx, n, true);
    if (ctx.want_sample()) ctx.sample("formatted input of " + std::to_string(n) + " characters");
}
// every sequence of four operations over short inputs
VH_PART(input_sequences, 1, 1)
{
    static const int kinds[] = { 0, 1, 2, 3, 5, 14, 15, 16, 17 };
    const std::string t = "abcdefghijkl";
    u64 n = 0;
    for (int a0 : kinds) for (int a1 : kinds) for (int a2 : kinds) for (int a3 : kinds)
        for (size_t len = 0; len <= 3; ++len)
            for (int bulk = 0; bulk < 2; ++bulk)
            {
                In<char>                          a(t, bulk);
                configor::basic_iadapterstream<char> is(a);
                std::istringstream                ref(t);
                std::string                       h;
                for (int k : { a0, a1, a2, a3 })
                {
                    const Op<char> op{ k, len, 'x', false };
                    const auto     want = apply<char>(ref, op), got = apply<char>(is, op);
                    h += got + "; ";
                    VH_CHECK(want == got, "expected '" << want << "' in '" << h << "'");
                }
                std::string rest, rref;
                std::getline(is, rest);
                std::getline(ref, rref);
                VH_CHECK(rest == rref, "after " << h << " the rest is '" << rest << "' instead of '" << rref << "'");
                ++n;
            }
    ctx.evals(n);
    ctx.count("input_sequences", n);
}
VH_PART(output_any, 3000, 150000)
{
    check_no_leak("adapter output", [&] {
        const Rng saved = ctx.rng;
        if (ctx.index % 2) output<char>(ctx, 25);
        else output<wchar_t>(ctx, 25);
        ctx.rng = saved;
    });
}
// large blocks in one operation, and large blocks after single characters
VH_PART(large_blocks, 250, 4000)
{
    auto run = [&](auto c) {
        using C = decltype(c);
        Rng&       r = ctx.rng;
        const auto t = text<C>(r, block_size(r) + 40, false);
        ctx.seen(hash_str(t));
        Out<C>                            o(r.chance(1, 2));
        configor::basic_oadapterstream<C> os(o);
        In<C>                             a(t, r.chance(1, 2));
        configor::basic_iadapterstream<C> is(a);
        size_t                            p = 0, q = 0;
        while (p < t.size())
        {
            const size_t n = std::min(t.size() - p, r.chance(1, 3) ? 1 + r.below(20) : block_size(r));
            switch (r.below(3))
            {
            case 0: os.write(t.data() + p, std::streamsize(n)); break;
            case 1: os << t.substr(p, n); break;
            default: VH_CHECK(os.rdbuf()->sputn(t.data() + p, std::streamsize(n)) == std::streamsize(n), "sputn does not take all"); break;
            }
            p += n;
            VH_CHECK(os.good() && o.s.size() == p && !t.compare(0, p, o.s), "after a block of " << n << " characters the adapter has " << o.s.size() << " instead of " << p);
            ctx.count("large_block_writes");
        }
        while (q < t.size())
        {
            const size_t         n = std::min(t.size() - q, r.chance(1, 3) ? 1 + r.below(20) : block_size(r));
            std::basic_string<C> b(n, C('#'));
            if (r.chance(1, 4)) VH_CHECK(is.peek() == std::char_traits<C>::to_int_type(t[q]), "peek before a block");
            if (r.chance(1, 4)) { is.ignore(std::streamsize(n)); b = t.substr(q, n); VH_CHECK(size_t(is.gcount()) == n, "ignore(" << n << ") passes " << is.gcount()); }
            else if (r.chance(1, 2)) { is.read(&b[0], std::streamsize(n)); VH_CHECK(size_t(is.gcount()) == n, "read(" << n << ") reads " << is.gcount()); }
            else VH_CHECK(size_t(is.rdbuf()->sgetn(&b[0], std::streamsize(n))) == n, "sgetn(" << n << ")");
            VH_CHECK(is.good() && !t.compare(q, n, b), "a block of " << n << " characters at " << q << " differs");
            q += n;
            VH_CHECK(a.p == q || a.p == q + 1, "the adapter has been asked for " << a.p << " characters instead of " << q);
            ctx.count("large_block_reads");
        }
        is.peek();
        VH_CHECK(is.eof(), "no end after the last block");
        ctx.evals(1);
    };
    if (ctx.index % 2) run(char());
    else run(wchar_t());
}
// documents between other characters of the same stream
VH_PART(documents, 9000, 100000)
{
    Rng&   r = ctx.rng;
    DocOpt d;
    d.depth = 3;
    DocGen g(r, d);
    g.doc();
    // as UTF-8, whose bytes are never 0xff
    const auto t = to8(g.t);
    ctx.seen(hash_str(t));
    const auto head = text<char>(r, r.below(12), false);
    In<char>                          a(head + t, r.chance(1, 2));
    configor::basic_iadapterstream<char> is(a);
    std::string                       got;
    while (got.size() < head.size())
    {
        const size_t left = head.size() - got.size();
        switch (r.below(3))
        {
        case 0: got += char(is.get()); break;
        case 1: { std::string b(1 + r.below(left), 0); is.read(&b[0], std::streamsize(b.size())); got += b; break; }
        default: is.peek(); break;
        }
    }
    if (r.chance(1, 2)) is.peek();
    VH_CHECK(got == head, "the characters before the document");
    const auto v = json::parse(is);
    const auto w = json::parse<char>(t);
    VH_CHECK(diff(model<json>(w), model<json>(v)).empty(), "a document after other characters reads differently: " << t);
    VH_CHECK(a.p == a.s.size(), "the adapter has been read up to " << a.p << " of " << a.s.size());
    // and writing
    Out<char>                          o(r.chance(1, 2));
    configor::basic_oadapterstream<char> os(o);
    std::string                        want;
    for (size_t k = r.below(4) + 1; k; --k)
    {
        os << head;
        want += head;
        const auto dopt = gen_dump_opt(r);
        const Opts<json, char> p(dopt);
        json::dump(os, v, { p.indent, p.escape, p.prec });
        want += dump_as<json, char>(v, dopt);
        os.put('|').write("..", 2);
        want += "|..";
        os << json::wrap(v) << '\n';
        want += json::dump(v) + "\n";
    }
    VH_CHECK(o.s == want, "documents written between other characters: '" << o.s << "' instead of '" << want << "'");
}
