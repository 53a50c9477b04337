// A coverage-guided target over text (libFuzzer). VH_FUZZ 4: the verdict and the value are compared with the reference
// reader, in four widths and from several sources. VH_FUZZ 5: only the sanitizers decide, all encodings and sources.
// VH_FUZZ 2: the text, read as a document, is written with options taken from it and read by the strict reader.
#include "lib.hpp"
#include <cstdint>
using namespace vh;
namespace enc = configor::encoding;

namespace
{
template <class J, class C> void verdict(const U32& t, Verdict v, const M& want, int kind, size_t chunk)
{
    const auto e = Enc<C>::put(t);
    const auto o = outcome_of<J>([&] { return parse_via<J, C>(kind, e, chunk, chunk % 2); });
    if (o.ok)
    {
        VH_CHECK(v != Verdict::Reject, "malformed text accepted from " << source_name(kind) << " as " << show(o.m) << ": " << show(t, 800));
        if (v == Verdict::Accept)
        {
            const auto d = diff(want, o.m, read_tol());
            VH_CHECK(d.empty(), "text read wrongly: " << d << ": " << show(t, 800));
        }
        return;
    }
    VH_CHECK(v != Verdict::Accept, "well-formed text rejected by " << source_name(kind) << " (" << o.err << "): " << show(t, 800));
    VH_CHECK(o.deser, "rejected by " << source_name(kind) << " with something other than a deserialization error (" << o.err << "): " << show(t, 800));
}
template <class J, class C> void any(const std::basic_string<C>& s, int kind, uint8_t opts, size_t chunk)
{
    using P = typename J::template parser_type<C>;
    try
    {
        V<J> v;
        if (opts % 3 == 0) v = parse_via<J, C>(kind, s, chunk);
        else if (opts % 3 == 1) v = parse_via<J, C>(kind, s, chunk, true, { P::template with_source_encoding<enc::ignore>(), P::template with_target_encoding<enc::ignore>() });
        else v = parse_via<J, C>(kind, s, chunk, true, { P::template with_source_encoding<enc::utf8>() });
        V<J> c(v);
        (void)model<J>(c);
        try { (void)J::template dump<C>(c); } catch (const configor::configor_exception&) {}
    }
    catch (const configor::configor_exception&) {}
}
bool too_deep(const uint8_t* d, size_t n)
{
    int depth = 0;
    for (size_t i = 0; i < n; ++i) if ((d[i] == '[' || d[i] == '{') && ++depth > 300) return true;
    return false;
}
}  // namespace

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    if (n < 3 || too_deep(d, n)) return 0;
    const uint8_t how = d[0], opt = d[1], chunk = d[2];
    const std::string raw(reinterpret_cast<const char*>(d + 3), n - 3);
    try
    {
#if VH_FUZZ == 5
        const int kind = how % SrcExtract == SrcFile ? SrcString : how % SrcExtract;
        if (how & 128)
        {
            std::wstring w;
            for (size_t i = 0; i + 1 < raw.size(); i += 2)
            {
                const u32 hi = uint8_t(raw[i]);
                w += wchar_t(hi < 0xF0 ? (hi < 0x20 ? uint8_t(raw[i + 1]) : (hi << 8 | uint8_t(raw[i + 1]))) : (hi << 17) ^ uint8_t(raw[i + 1]));
            }
            if (how & 64) any<wjson, wchar_t>(w, kind, opt % 2, chunk % 9 + 1);
            else any<json, wchar_t>(w, kind, opt % 2, chunk % 9 + 1);
        }
        else if (how & 64) any<wjson, char>(raw, kind, opt, chunk % 9 + 1);
        else any<json, char>(raw, kind, opt, chunk % 9 + 1);
#else
        U32 t;
        if (!from8(raw, t)) return 0;
        RefReader     rd(t);
        M             want;
        const Verdict v = rd.read(want);
#if VH_FUZZ == 4
        int kind = how / 4 % SrcExtract;
        if (kind == SrcFile) kind = SrcString;
        if (kind == SrcAdapter) kind = SrcChunked;
        switch (how % 4)
        {
        case 0: case 1: verdict<json, char>(t, v, want, kind, chunk % 9 + 1); break;
        case 2: verdict<wjson, wchar_t>(t, v, want, kind, chunk % 9 + 1); break;
        default: if (how & 128) verdict<json, wchar_t>(t, v, want, kind, chunk % 9 + 1); else verdict<wjson, char>(t, v, want, kind, chunk % 9 + 1); break;
        }
#else
        if (v != Verdict::Accept) return 0;
        DumpOpt o;
        o.indent = opt & 1 ? chunk : 0;
        o.ch     = opt & 2 ? '\t' : ' ';
        o.escape = opt & 4;
        o.prec   = opt & 8 ? how % 40 : -1;
        if (o.prec >= 0) o.flags = opt & 16 ? std::ios::fixed : opt & 32 ? std::ios::scientific : std::ios::fmtflags();
        std::string text;
        const auto  b = build<json>(want);
        text = dump_via<json, char>(opt / 64 * 2 % int(SnkKinds), b, o);
        U32 u;
        VH_CHECK(from8(text, u), "the output is not UTF-8");
        RefReader s(u, true);
        M         back;
        VH_CHECK(s.read(back) == Verdict::Accept && !s.dup, "the output is not strict JSON: " << show(u, 800));
        const auto df = diff_text(want, back, o, true);
        VH_CHECK(df.empty(), "the output means something else: " << df << ": " << show(u, 800));
#endif
#endif
    }
    catch (const Fail& f)
    {
        fprintf(stderr, "VH-FAIL %s\n", f.what());
        fflush(stderr);
        abort();
    }
    return 0;
}
