// C06: every scalar value and every kind of ill-formed sequence through parsing, escaping and transcoding, between all
// source and value encodings; the encoders and decoders of the model are the oracle.
#include "lib.hpp"
using namespace vh;
namespace enc = configor::encoding;

namespace
{
enum E { U8, U16, U32e, W8, C16, C32 };  // W8: UTF-8 in wide characters; C16, C32: char16_t and char32_t by the default encoding
template <int e> struct Form;
template <> struct Form<U8>
{
    using C = char;
    template <class P> static typename P::option src() { return P::template with_source_encoding<enc::utf8>(); }
    template <class P> static typename P::option dst() { return P::template with_target_encoding<enc::utf8>(); }
    template <class P> static typename P::option both() { return P::template with_encoding<enc::utf8>(); }
    static std::string put(const U32& s) { return to8(s); }
    static bool get(const std::string& s, U32& o) { return from8(s, o); }
    static const char* name() { return "UTF-8"; }
};
template <> struct Form<U16>
{
    using C = wchar_t;
    template <class P> static typename P::option src() { return P::template with_source_encoding<enc::utf16>(); }
    template <class P> static typename P::option dst() { return P::template with_target_encoding<enc::utf16>(); }
    static std::wstring put(const U32& s) { return to16(s); }
    static bool get(const std::wstring& s, U32& o) { return from16(s, o); }
    static const char* name() { return "UTF-16"; }
};
template <> struct Form<U32e>
{
    using C = wchar_t;
    template <class P> static typename P::option src() { return P::template with_source_encoding<enc::utf32>(); }
    template <class P> static typename P::option dst() { return P::template with_target_encoding<enc::utf32>(); }
    static std::wstring put(const U32& s) { return to32(s); }
    static bool get(const std::wstring& s, U32& o) { return from32(s, o); }
    static const char* name() { return "UTF-32"; }
};
template <> struct Form<W8>
{
    using C = wchar_t;
    template <class P> static typename P::option src() { return P::template with_source_encoding<enc::utf8>(); }
    template <class P> static typename P::option dst() { return P::template with_target_encoding<enc::utf8>(); }
    static std::wstring put(const U32& s)
    {
        std::wstring r;
        for (unsigned char c : to8(s)) r += wchar_t(c);
        return r;
    }
    static bool get(const std::wstring& s, U32& o)
    {
        std::string b;
        for (wchar_t c : s)
        {
            if (u32(c) > 0xFF) return false;
            b += char(c);
        }
        return from8(b, o);
    }
    static const char* name() { return "wide UTF-8"; }
};
// char16_t and char32_t, by the encoding the library takes for them
template <class C_> struct FormAuto
{
    using C = C_;
    template <class P> static typename P::option src() { return P::template with_source_encoding<enc::auto_utf>(); }
    template <class P> static typename P::option dst() { return P::template with_target_encoding<enc::auto_utf>(); }
    static std::wstring wide(const U32& s) { return sizeof(C) == 2 ? to16(s) : to32(s); }
    static std::basic_string<C> put(const U32& s)
    {
        const auto w = wide(s);
        return std::basic_string<C>(w.begin(), w.end());
    }
    static bool get(const std::basic_string<C>& s, U32& o)
    {
        const std::wstring w(s.begin(), s.end());
        return sizeof(C) == 2 ? from16(w, o) : from32(w, o);
    }
};
template <> struct Form<C16> : FormAuto<char16_t> { static const char* name() { return "char16_t"; } };
template <> struct Form<C32> : FormAuto<char32_t> { static const char* name() { return "char32_t"; } };
template <class C> struct AnyChar : configor::value_tplargs { using char_type = C; };
template <class C> struct JOf { using T = configor::basic_json<AnyChar<C>>; };
template <> struct JOf<char> { using T = json; };
template <> struct JOf<wchar_t> { using T = wjson; };

// the text T and value S forms a case goes through
template <int T, int S>
struct Pair
{
    using FT = Form<T>;
    using FS = Form<S>;
    using TC = typename FT::C;
    using SC = typename FS::C;
    using J  = typename JOf<SC>::T;
    using P  = typename J::template parser_type<TC>;
    using D  = typename J::template serializer_type<TC>;
    using TS = std::basic_string<TC>;
    using SS = std::basic_string<SC>;
    using Std = std::integral_constant<bool, std::is_same<TC, char>::value || std::is_same<TC, wchar_t>::value>;
    static std::string name() { return std::string(FT::name()) + " text, " + FS::name() + " value"; }

    // parses; false when rejected with the library's error
    static bool parse(const TS& text, V<J>& v, int kind = SrcString, size_t chunk = 3)
    {
        try
        {
            // natural forms also through the default encoding
            v = parse_text<J, TC>(Std(), kind, text, chunk, false, { FT::template src<P>(), FS::template dst<P>() });
            return true;
        }
        catch (const configor::configor_deserialization_error&) { return false; }
        catch (const std::exception& e) { VH_FAIL(name() << ": parsing threw something other than a deserialization error: " << e.what()); }
    }
    static bool dump(const V<J>& v, bool escape, TS& text)
    {
        try
        {
            text = J::template dump<TC>(v, { FS::template src<D>(), FT::template dst<D>(), D::with_unicode_escaping(escape) });
            return true;
        }
        catch (const configor::configor_serialization_error&) { return false; }
        catch (const std::exception& e) { VH_FAIL(name() << ": dumping threw something other than a serialization error: " << e.what()); }
    }
    // a text with the items as strings and keys means the items
    // the traits of char16_t take U+FFFF for U+FFFD (see the part char16_uffff)
    template <class Q> static bool spoilt(const Q& s)
    {
        return (std::is_same<TC, char16_t>::value || std::is_same<SC, char16_t>::value) && s.find(typename Q::value_type(0xFFFF)) != s.npos;
    }
    static bool spoilt(const M& m)
    {
        bool r = m.k == M::Str && spoilt(m.s);
        for (auto& e : m.a) r = r || spoilt(e);
        for (auto& e : m.o) r = r || spoilt(e.first) || spoilt(e.second);
        return r;
    }
    static void items(const std::vector<U32>& it, const U32& array_text, const U32& object_text)
    {
        for (auto& s : it) if (spoilt(s)) return;
        V<J> v;
        VH_CHECK(parse(FT::put(array_text), v), name() << ": rejected " << show(array_text));
        const auto& a = v.template get<const typename V<J>::array_type&>();
        VH_CHECK(a.size() == it.size(), name() << ": " << a.size() << " strings instead of " << it.size());
        for (size_t i = 0; i < it.size(); ++i)
        {
            const SS want = FS::put(it[i]);
            const SS& got = a[i].template get<const SS&>();
            VH_CHECK(got == want, name() << ": string " << show(it[i]) << " was read as code units " << show(got) << " instead of " << show(want));
        }
        if (object_text.empty()) return;
        VH_CHECK(parse(FT::put(object_text), v), name() << ": rejected " << show(object_text));
        const auto& o = v.template get<const typename V<J>::object_type&>();
        VH_CHECK(o.size() == it.size(), name() << ": " << o.size() << " keys instead of " << it.size());
        for (size_t i = 0; i < it.size(); ++i)
            VH_CHECK(o.count(FS::put(it[i])) == 1, name() << ": key " << show(it[i]) << " is not there");
    }
    // dumping the items writes text that means the items
    static void written(const std::vector<U32>& it, bool as_keys, bool escape)
    {
        if (!Std::value) return;
        for (auto& s : it) if (spoilt(s)) return;
        V<J> v(as_keys ? value_constant::object : value_constant::array);
        for (auto& s : it)
        {
            if (as_keys) v[FS::put(s)] = nullptr;
            else v.push_back(V<J>(FS::put(s)));
        }
        TS text;
        VH_CHECK(dump(v, escape, text), name() << ": dumping failed for " << show(it[0]) << ".. escape " << escape);
        U32 t;
        VH_CHECK(FT::get(text, t), name() << ": dumped text is ill-formed: " << show(text));
        if (escape) for (u32 c : t) VH_CHECK(c < 0x80, name() << ": escaped text is not ASCII: " << show(t));
        RefReader rd(t, true);
        M         m;
        VH_CHECK(rd.read(m) == Verdict::Accept, name() << ": dumped text is not JSON: " << show(t));
        if (as_keys)
        {
            VH_CHECK(m.k == M::Obj && m.o.size() == it.size(), name() << ": " << m.o.size() << " keys instead of " << it.size());
            for (auto& s : it) VH_CHECK(m.find(s), name() << ": key " << show(s) << " is not in the text");
            return;
        }
        VH_CHECK(m.k == M::Arr && m.a.size() == it.size(), name() << ": " << m.a.size() << " strings instead of " << it.size());
        for (size_t i = 0; i < it.size(); ++i) VH_CHECK(m.a[i].s == it[i], name() << ": string " << show(it[i]) << " was written as " << show(m.a[i].s) << " escape " << escape);
    }
    // a text in the text form, well-formed or not
    static void judge(Ctx& ctx, const TS& text, int kind = SrcString, size_t chunk = 3)
    {
        U32        t;
        const bool well = FT::get(text, t);
        M          want;
        Verdict    vd = Verdict::Reject;
        if (well)
        {
            RefReader rd(t);
            vd = rd.read(want);
        }
        else if (text.find(TC(0)) != text.npos) return;  // a NUL may end the input before the damage
        if (vd == Verdict::Unspec || (well && spoilt(want)) || spoilt(text)) return;
        V<J>       v;
        const bool ok = parse(text, v, kind, chunk);
        ctx.evals(1);
        ctx.count(well ? "wellformed_texts" : "illformed_texts");
        VH_CHECK(ok == (vd == Verdict::Accept), name() << ": " << (well ? "well-formed" : "ill-formed") << " text " << (ok ? "accepted" : "rejected") << " from " << source_name(kind) << ": " << show(text));
        if (!ok) return;
        compare(want, v, text);
    }
    static void compare(const M& m, const V<J>& v, const TS& text)
    {
        switch (m.k)
        {
        case M::Str:
            VH_CHECK(v.is_string() && v.template get<const SS&>() == FS::put(m.s), name() << ": string " << show(m.s) << " read wrongly from " << show(text));
            return;
        case M::Arr:
            VH_CHECK(v.is_array() && v.size() == m.a.size(), name() << ": array read wrongly from " << show(text));
            for (size_t i = 0; i < m.a.size(); ++i) compare(m.a[i], v[i], text);
            return;
        case M::Obj:
            VH_CHECK(v.is_object() && v.size() == m.o.size(), name() << ": object read wrongly from " << show(text));
            for (auto& e : m.o)
            {
                VH_CHECK(v.count(FS::put(e.first)) == 1, name() << ": key " << show(e.first) << " missing, from " << show(text));
                compare(e.second, v.at(FS::put(e.first)), text);
            }
            return;
        default: return;
        }
    }
    // a string of code units of the value form, well-formed or not
    static void judge_dump(Ctx& ctx, const SS& s, bool key)
    {
        if (!Std::value || spoilt(s)) return;
        U32        want;
        const bool well = FS::get(s, want);
        V<J>       v;
        if (key) v[s] = 1;
        else v = s;
        for (int e = 0; e < 2; ++e)
        {
            TS         text;
            const bool ok = dump(v, e, text);
            ctx.evals(1);
            ctx.count(well ? "wellformed_strings" : "illformed_strings");
            VH_CHECK(ok == well, name() << ": " << (well ? "well-formed" : "ill-formed") << (key ? " key " : " string ") << show(s) << (ok ? " dumped as " + show(text) : std::string(" refused")) << ", escape " << e);
            if (!ok) continue;
            U32 t;
            VH_CHECK(FT::get(text, t), name() << ": dumped text is ill-formed: " << show(text));
            RefReader rd(t, true);
            M         m;
            VH_CHECK(rd.read(m) == Verdict::Accept, name() << ": dumped text is not JSON: " << show(t));
            const U32* got = key ? (m.o.size() == 1 ? &m.o[0].first : nullptr) : m.k == M::Str ? &m.s : nullptr;
            VH_CHECK(got && *got == want, name() << ": " << show(s) << " dumped as " << show(text));
        }
    }
};
template <class F> void all_pairs(F& f)
{
    f(Pair<U8, U8>());
    f(Pair<U16, U8>());
    f(Pair<U32e, U8>());
    f(Pair<W8, U8>());
    f(Pair<U8, U16>());
    f(Pair<U16, U16>());
    f(Pair<U32e, U16>());
    f(Pair<U8, U32e>());
    f(Pair<U16, U32e>());
    f(Pair<U32e, U32e>());
    f(Pair<W8, U32e>());
    f(Pair<U32e, W8>());
    f(Pair<U8, W8>());
    f(Pair<C16, U8>());
    f(Pair<C32, U8>());
    f(Pair<U8, C16>());
    f(Pair<U8, C32>());
    f(Pair<C16, C16>());
    f(Pair<U16, C32>());
}
U32 raw(u32 c)
{
    U32 r;
    if (c < 0x20 || c == '"' || c == '\\') { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); return u(b); }
    r += char32_t(c);
    return r;
}
U32 escd(u32 c, bool up)
{
    char b[16];
    const char* f1 = up ? "\\u%04X" : "\\u%04x";
    if (c < 0x10000) { snprintf(b, sizeof b, f1, c); return u(b); }
    snprintf(b, sizeof b, f1, 0xD800 + ((c - 0x10000) >> 10));
    U32 r = u(b);
    snprintf(b, sizeof b, f1, 0xDC00 + ((c - 0x10000) & 0x3FF));
    return r + u(b);
}
}  // namespace

// every scalar value: 1088 blocks of 1024
struct Blocks
{
    Ctx&             ctx;
    std::vector<U32> it;
    U32              a1, a2, a3, o1, o2;
    u64              turn;
    template <class P> void operator()(P)
    {
#ifndef VH_OPT
        const u64 every = ctx.thorough ? 2 : 6;
#else
        const u64 every = ctx.thorough ? 1 : 2;
#endif
        // the pairs of forms are taken in turn; every form of text and of value still meets every scalar value
        if (turn++ % every) return;
        P::items(it, a1, o1);
        P::items(it, a2, o2);
        if (ctx.thorough) P::items(it, a3, U32());
        for (int e = 0; e < 2; ++e)
        {
            P::written(it, false, e);
            P::written(it, true, e);
        }
        ctx.evals(it.size() * 9);
    }
};
static void scalar_block(Ctx& ctx, u32 from, u32 to)
{
    Blocks b{ ctx, {}, {}, {}, {}, {}, {}, ctx.index };
    U32    prev;
    b.a1 = b.a2 = b.a3 = u("[");
    b.o1 = b.o2 = u("{");
    for (u32 c = from; c < to; ++c)
    {
        if (!scalar(c)) continue;
        ctx.seen(c);
        b.it.push_back(U32(1, char32_t(c)));
        const bool first = b.it.size() == 1;
        const U32  s1 = u("\"") + raw(c) + u("\""), s2 = u("\"") + escd(c, c & 1) + u("\""), s3 = u("\"") + escd(c, !(c & 1)) + u("\"");
        if (!first) for (auto* p : { &b.a1, &b.a2, &b.a3, &b.o1, &b.o2 }) *p += U',';
        b.a1 += s1;
        b.a2 += s2;
        b.a3 += s3;
        b.o1 += s1 + u(":null");
        b.o2 += s2 + u(":0");
    }
    if (b.it.empty()) return;
    b.a1 += U']'; b.a2 += U']'; b.a3 += U']';
    b.o1 += U'}'; b.o2 += U'}';
    all_pairs(b);
}
VH_PART(scalars, 1088, 1088)
{
    const u32 from = u32(ctx.index) * 1024, to = from + 1024;
    const u32 cut = to == 0x10000 ? to - 1 : to;  // U+FFFF on its own
    scalar_block(ctx, from, cut);
    if (cut < to) scalar_block(ctx, cut, to);
}

// strings of any scalar values, neighbours mixed, any spelling, any source
struct PickMixed
{
    Ctx& ctx;
    std::vector<U32> it;
    U32  a, o;
    template <class P> void operator()(P)
    {
        static const int ks[] = { SrcStream, SrcChunked, SrcUnbuffered };
        auto& q = ctx.rng;
        if (!q.chance(1, 3)) return;
        P::items(it, a, o);
        P::written(it, q.chance(1, 2), q.chance(1, 2));
        P::judge(ctx, P::FT::put(a), q.pick(ks), 1 + q.below(5));
        ctx.evals(2);
    }
};
VH_PART(mixed, 4000, 60000)
{
    auto& r = ctx.rng;
    PickMixed f{ ctx, {}, u("["), u("{") };
    std::set<U32> used;
    for (u64 n = 1 + r.below(5); n; --n)
    {
        U32 s = gen_str(r, 20);
        while (!used.insert(s).second) s += char32_t('a' + r.below(26));
        DocGen g(r, DocOpt());
        g.string(s);
        if (!f.it.empty()) { f.a += U','; f.o += U','; }
        f.it.push_back(s);
        f.a += g.t;
        f.o += g.t + u(":1");
        ctx.seen(hash_str(s));
    }
    f.a += U']';
    f.o += U'}';
    if (ctx.want_sample()) ctx.sample(show(f.a));
    all_pairs(f);
}

// every sequence of two bytes, and of three and four with the interesting later bytes, in the places text can be in
namespace
{
const unsigned char kLate[] = { 0x22, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xFF };
std::string place8(const std::string& s, u64 w)
{
    switch (w % 7)
    {
    case 0: return "\"" + s + "\"";
    case 1: return "[\"x" + s + "y\"]";
    case 2: return "{\"" + s + "\":1}";
    case 3: return "[1,/*" + s + "*/2]";
    case 4: return "[1," + s + "2]";
    case 5: return "\"a\"" + s;
    default: return "\"" + s;
    }
}
template <class TS> TS widen8(const std::string& s)
{
    TS r;
    for (unsigned char c : s) r += typename TS::value_type(c);
    return r;
}
void bytes_everywhere(Ctx& ctx, const std::string& s, u64 w)
{
    ctx.seen(hash_str(s));
    const auto text = place8(s, w);
    Pair<U8, U8>::judge(ctx, text, w % 3 ? int(SrcString) : int(SrcCStr));
    if (w % 3 == 0) Pair<U8, U32e>::judge(ctx, text, SrcUnbuffered);
    if (w % 3 == 1) Pair<W8, U8>::judge(ctx, widen8<std::wstring>(text));
    if (w % 3 == 2) Pair<W8, U16>::judge(ctx, widen8<std::wstring>(text));
    Pair<U8, U8>::judge_dump(ctx, s, w & 1);
    if (w % 5 == 0) Pair<U32e, W8>::judge_dump(ctx, widen8<std::wstring>(s), w & 1);
    if (w % 5 == 1) Pair<U16, U8>::judge_dump(ctx, s, w & 1);
}
}  // namespace
VH_PART(bytes2, 256, 256)
{
    const char a = char(ctx.index);
    for (int b = 0; b < 256; ++b)
    {
        std::string s(1, a);
        s += char(b);
        for (u64 w = 0; w < (ctx.thorough ? 15u : 1u); ++w) bytes_everywhere(ctx, s, w ? w : ctx.rng.next() >> 8);
    }
    if (ctx.index >= 1) for (u64 w = 0; w < 15; ++w) bytes_everywhere(ctx, std::string(1, a), w);
}
VH_PART(bytes3, 48, 48)
{
    const int a = 0xD0 + int(ctx.index);
    for (int b = 0x70; b < 0xD0; ++b)
        for (unsigned char c : kLate)
        {
            std::string s;
            s += char(a);
            s += char(b);
            s += char(c);
            for (u64 w = 0; w < (ctx.thorough ? 7u : 1u); ++w) bytes_everywhere(ctx, s, w ? w : ctx.rng.next() >> 8);
        }
}
VH_PART(bytes4, 384, 384)
{
    const int a = 0xF0 + int(ctx.index / 48), b0 = 0x78 + int(ctx.index % 48) * 2;
    for (int b = b0; b < b0 + 2; ++b)
        for (unsigned char c : kLate)
            for (unsigned char d : kLate)
            {
                std::string s;
                s += char(a);
                s += char(b);
                s += char(c);
                s += char(d);
                bytes_everywhere(ctx, s, ctx.rng.next() >> 8);
                if (ctx.thorough) for (unsigned char x : kLate) bytes_everywhere(ctx, s + char(x), ctx.rng.next() >> 8);
            }
}

// a well-formed string with one byte or unit damaged, added or removed
VH_PART(damaged, 40000, 800000)
{
    auto& r = ctx.rng;
    U32   s;
    for (u64 n = 1 + r.below(8); n; --n) { u32 c = r.chance(1, 2) ? gen_cp(r) : r.pick(kBoundaryCps); if (c < 0x20 || c == '"' || c == '\\') c = 0x20AC; s += char32_t(c); }
    ctx.seen(hash_str(s) ^ ctx.index);
    if (ctx.index % 2)
    {
        std::string b = to8(s);
        const size_t at = r.below(b.size());
        switch (r.below(4))
        {
        case 0: b.erase(at, 1); break;
        case 1: b[at] = char(b[at] ^ (1 << r.below(8))); break;
        case 2: b.insert(at, 1, char(0x80 | r.below(128))); break;
        default: b.resize(at); break;
        }
        bytes_everywhere(ctx, b, r.next() >> 8);
        return;
    }
    std::wstring w = r.chance(1, 2) ? to16(s) : to32(s);
    const size_t at = r.below(w.size());
    static const u32 l[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x10FFFF, 0x10000, 0xFFFF, 0xD83D, 0xDE00, 0x80000000u, 0x7FFFFFFF, 0x1D800, 0x1DC00, 0xFFFFFFFEu, 0x80000041u, 0x10022, 0x20041 };
    switch (r.below(3))
    {
    case 0: w.erase(at, 1); break;
    case 1: w[at] = wchar_t(r.pick(l)); break;
    default: w.insert(at, 1, wchar_t(r.pick(l))); break;
    }
    const std::wstring q = L"\"", text = r.chance(1, 2) ? q + w + q : L"{\"a\":[\"" + w + L"\"],\"" + w + L"\":1}";
    const int          how[] = { SrcString, SrcCStr, SrcChunked };
    if (r.chance(1, 2))
    {
        Pair<C16, U8>::judge(ctx, std::u16string(text.begin(), text.end()), r.pick(how), 1 + r.below(4));
        Pair<U8, C16>::judge_dump(ctx, std::u16string(w.begin(), w.end()), r.chance(1, 2));
    }
    else
    {
        Pair<C32, U8>::judge(ctx, std::u32string(text.begin(), text.end()), r.pick(how), 1 + r.below(4));
        Pair<U16, C32>::judge_dump(ctx, std::u32string(w.begin(), w.end()), r.chance(1, 2));
    }
    switch (r.below(4))
    {
    case 0: Pair<U16, U8>::judge(ctx, text); Pair<U8, U16>::judge_dump(ctx, w, r.chance(1, 2)); break;
    case 1: Pair<U32e, U8>::judge(ctx, text); Pair<U8, U32e>::judge_dump(ctx, w, r.chance(1, 2)); break;
    case 2: Pair<U16, U32e>::judge(ctx, text, SrcChunked, 2); Pair<U32e, U16>::judge_dump(ctx, w, r.chance(1, 2)); break;
    default: Pair<U32e, U32e>::judge(ctx, text, SrcCStr); Pair<U32e, U32e>::judge_dump(ctx, w, r.chance(1, 2)); break;
    }
}

// every unit alone, and every pair around the surrogates
VH_PART(units, 1100, 1100)
{
    for (u32 c = u32(ctx.index) * 1024; c < u32(ctx.index + 1) * 1024; c += ctx.thorough ? 1 : 1 + (c >= 0x11000 || c < 0xD000) * 7)
    {
        if (c == 0 || c == '"' || c == '\\') continue;
        ctx.seen(c);
        std::wstring s(1, wchar_t(c));
        const std::wstring text = L"[\"" + s + L"\"]";
        Pair<U16, U8>::judge(ctx, text);
        Pair<U32e, U8>::judge(ctx, text);
        Pair<U8, U16>::judge_dump(ctx, s, c & 1);
        Pair<U8, U32e>::judge_dump(ctx, s, c & 1);
        if (c % 16 == 0)
        {
            Pair<W8, U16>::judge(ctx, text);
            Pair<U16, W8>::judge_dump(ctx, s, c & 1);
        }
    }
}
VH_PART(pairs, 192, 192)
{
    const u32 lead[] = { 0xD7FF, 0xD800, 0xD801, 0xD8FF, 0xD900, 0xDAAA, 0xDBFE, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000 };
    const u32 c = lead[ctx.index / 16];
    for (u32 d = 0xD780 + u32(ctx.index % 16) * 0x90; d < 0xD780 + u32(ctx.index % 16 + 1) * 0x90; d += ctx.thorough ? 1 : 3)
    {
        std::wstring s(1, wchar_t(c));
        s += wchar_t(d);
        ctx.seen(c * 65536ull + d);
        const std::wstring text = ctx.rng.chance(1, 2) ? L"\"" + s + L"\"" : L"{\"" + s + L"x\":0}";
        Pair<U16, U8>::judge(ctx, text);
        Pair<U16, U16>::judge(ctx, text, SrcUnbuffered);
        Pair<U32e, U8>::judge(ctx, text);
        Pair<U8, U16>::judge_dump(ctx, s, d & 1);
        Pair<U32e, U16>::judge_dump(ctx, s, d & 1);
        Pair<U8, U32e>::judge_dump(ctx, s, d & 1);
    }
}

// surrogates written as escapes: every lead with the interesting trails and the reverse
VH_PART(escaped_pairs, 128, 128)
{
    const u32 near[] = { 0x0041, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDC01, 0xDE00, 0xDFFE, 0xDFFF, 0xE000, 0xFFFF };
    char      b[64];
    for (u32 k = u32(ctx.index) * 16; k < u32(ctx.index + 1) * 16; ++k)
        for (u32 n : near)
        {
            const u32 c = 0xD800 + k;
            snprintf(b, sizeof b, "[\"\\u%04x\\u%04X\"]", c, n);
            Pair<U8, U8>::judge(ctx, b);
            snprintf(b, sizeof b, "{\"\\u%04X\\u%04x\":\"\"}", n, c);
            Pair<U8, U16>::judge(ctx, b);
            Pair<U32e, U32e>::judge(ctx, widen8<std::wstring>(b));
            snprintf(b, sizeof b, "\"\\u%04x\"", c);
            Pair<U8, U8>::judge(ctx, b);
            // half raw, half escaped
            std::wstring w = L"\"";
            w += wchar_t(c);
            snprintf(b, sizeof b, "\\u%04x\"", n);
            w += widen8<std::wstring>(b);
            Pair<U16, U16>::judge(ctx, w);
            snprintf(b, sizeof b, "\"\\u%04x", n);
            w = widen8<std::wstring>(b);
            w += wchar_t(c);
            w += L"\"";
            Pair<U16, U8>::judge(ctx, w);
            ctx.seen(c * 65536ull + n);
        }
}

// the pass-through encoding copies characters
namespace
{
template <class J, class C>
void pass(Ctx& ctx)
{
    using P = typename J::template parser_type<C>;
    using D = typename J::template serializer_type<C>;
    auto&                r = ctx.rng;
    std::basic_string<C> s;
    for (u64 n = r.below(40); n; --n)
    {
        C c = C(r.next() >> (sizeof(C) > 1 ? r.below(33) : 0));
        if (c == C('"') || c == C('\\') || c == C(-1) * (sizeof(C) > 1) || (u64(typename std::make_unsigned<C>::type(c)) < 0x20)) c = C(0x7F);
        s += c;
    }
    if (sizeof(C) > 1) for (auto& c : s) if (std::char_traits<C>::eq_int_type(std::char_traits<C>::to_int_type(c), std::char_traits<C>::eof())) c = C('z');
    ctx.seen(hash_str(s));
    std::basic_string<C> text;
    text += C('"');
    text += s;
    text += C('"');
    V<J> v;
    try { v = J::template parse<C>(text, { P::template with_encoding<enc::ignore>() }); }
    catch (const std::exception& e) { VH_FAIL("pass-through parsing failed (" << e.what() << ") for " << show(s)); }
    VH_CHECK(v.is_string() && v.template get<const std::basic_string<C>&>() == s, "pass-through parsing changed " << show(s) << " to " << show(v.template get<const std::basic_string<C>&>()));
    std::basic_string<C> out;
    try { out = J::template dump<C>(v, { D::template with_encoding<enc::ignore>() }); }
    catch (const std::exception& e) { VH_FAIL("pass-through dumping failed (" << e.what() << ") for " << show(s)); }
    VH_CHECK(out == text, "pass-through dumping changed " << show(text) << " to " << show(out));
    // as a key
    V<J> o;
    o[s] = nullptr;
    out  = J::template dump<C>(o, { D::template with_encoding<enc::ignore>() });
    V<J> back = J::template parse<C>(out, { P::template with_encoding<enc::ignore>() });
    VH_CHECK(back == o, "pass-through key changed " << show(s));
}
}  // namespace
VH_PART(passthrough, 16000, 300000)
{
    if (ctx.index % 2) pass<json, char>(ctx);
    else pass<wjson, wchar_t>(ctx);
}
// what passes the pass-through decoder and no encoder can write is refused, anywhere in the text
namespace
{
template <class J, class F>
void beyond(Ctx& ctx)
{
    using VC = Ch<J>;
    using P  = typename J::template parser_type<wchar_t>;
    auto&      r = ctx.rng;
    static const u32 edges[] = { 0x110000, 0x110001, 0x10FFFF, 0x10FFFE, 0x1FFFFF, 0x200000, 0x1100FF, 0x11FFFF, 0x7FFFFFFF, 0xFFFF0000, 0x80000000, 0x10000, 0x120000, 0x210000 };
    const u32  c = r.chance(2, 3) ? r.pick(edges) : r.chance(1, 2) ? u32(0x110000 + r.below(0x10000)) : u32(r.next() | 0x1000000);
    if (c == 0xFFFFFFFF) return;
    const bool legal = c <= 0x10FFFF, key = r.chance(1, 3), deep = r.chance(1, 3);
    U32        plain, with;
    for (u64 n = r.below(6); n; --n) plain += char32_t('a' + r.below(26));
    with = plain;
    with += char32_t(c);
    U32 rest;
    for (u64 n = r.below(6); n; --n) rest += char32_t(r.chance(1, 4) ? 0x80 + r.below(0x700) : 'a' + r.below(26));
    with += rest;
    ctx.seen(hash_str(with) ^ u64(key) ^ (u64(deep) << 1));
    std::wstring s, text;
    for (char32_t x : with) s += wchar_t(x);
    if (deep) text += L"[1,[";
    if (key) text += L"{\"" + s + L"\":1}";
    else text += L"\"" + s + L"\"";
    if (deep) text += L"]]";
    bool ok = false;
    V<J> v;
    try
    {
        v  = J::template parse<wchar_t>(text, { P::template with_source_encoding<enc::ignore>(), F::template dst<P>() });
        ok = true;
    }
    catch (const configor::configor_deserialization_error&) {}
    VH_CHECK(ok == legal, "passing U+" << std::hex << c << " through to " << F::name() << " was " << (ok ? "accepted" : "refused") << " on parsing, key " << key << " deep " << deep);
    if (ok)
    {
        const V<J>& x = deep ? v[size_t(1)][size_t(0)] : v;
        const std::basic_string<VC> got = key ? x.cbegin().key() : x.template get<std::basic_string<VC>>();
        VH_CHECK(got == F::put(with), "passing U+" << std::hex << c << " through to " << F::name() << " changed it to " << show(got));
    }
    ctx.count(ok ? "encodable" : "unencodable");
    // values whose text holds it, written raw and escaped
    wjson::value w, in;
    if (key) in[s] = 1;
    else in = s;
    if (deep) { w[size_t(0)] = 1; w[size_t(1)][size_t(0)] = in; }
    else w = in;
    using O = typename F::C;
    using D = typename wjson::template serializer_type<O>;
    const bool escape = r.chance(1, 2);
    std::basic_string<O> out;
    ok = false;
    try
    {
        out = wjson::template dump<O>(w, { D::template with_source_encoding<enc::ignore>(), F::template dst<D>(), D::with_unicode_escaping(escape) });
        ok  = true;
    }
    catch (const configor::configor_serialization_error&) {}
    VH_CHECK(ok == legal, "passing U+" << std::hex << c << " through to " << F::name() << " was " << (ok ? "accepted" : "refused") << " on dumping, escaped " << escape << " key " << key << " deep " << deep << ": " << show(out));
    ctx.evals(2);
}
}  // namespace
VH_PART(beyond_unicode, 8000, 100000)
{
    switch (ctx.index % 4)
    {
    case 0: beyond<json, Form<U8>>(ctx); break;
    case 1: beyond<wjson, Form<U16>>(ctx); break;
    case 2: beyond<wjson, Form<U32e>>(ctx); break;
    default: beyond<wjson, Form<W8>>(ctx); break;
    }
}

// known: libstdc++'s traits of char16_t give U+FFFF the number of U+FFFD, since they take its own for the end of file
VH_PART(char16_uffff, 3, 3)
{
    using J = JOf<char16_t>::T;
    const std::u16string one(1, char16_t(0xFFFF));
    switch (ctx.index)
    {
    case 0: VH_CHECK(J::parse<char>("\"\xEF\xBF\xBF\"").get<std::u16string>() == one, "U+FFFF is parsed into a char16_t value as something else"); break;
    case 1: VH_CHECK(J::dump<char>(J::value(one)) == "\"\xEF\xBF\xBF\"", "U+FFFF is dumped from a char16_t value as something else"); break;
    default: VH_CHECK(json::parse<char16_t>(u"\"" + one + u"\"").get<std::string>() == "\xEF\xBF\xBF", "U+FFFF is parsed from a char16_t text as something else"); break;
    }
}
