// C18: numbers. Integers are compared exactly, decimal spellings with what glibc's correctly rounding strtod makes of them,
// and written floats with glibc's printf.
#include "lib.hpp"
#include <iomanip>
#include <cinttypes>
using namespace vh;

namespace
{
template <class C> std::basic_string<C> wide(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }

// where the number stands in the text
std::string embed(const std::string& n, int place)
{
    switch (place)
    {
    case 0: return n;
    case 1: return "[" + n + "]";
    case 2: return "{\"k\":" + n + "}";
    case 3: return "[0," + n + ",1.5]";
    case 4: return " " + n + "\n";
    case 5: return "{\"a\":[" + n + " ],\"b\":2}";
    default: return "[[" + n + "]," + n + "]";
    }
}
template <class J> const V<J>* dig(const V<J>& v, int place)
{
    using C = Ch<J>;
    switch (place)
    {
    case 0: case 4: return &v;
    case 1: return &v.at(0);
    case 2: return &v.at(St<J>(1, C('k')));
    case 3: return &v.at(1);
    case 5: return &v.at(St<J>(1, C('a'))).at(0);
    default: return &v.at(1);
    }
}
struct Got { bool ok = false, deser = false; V<json> v; std::string err; };
// parses the number in every width and at a place; all must agree
Got read_number(Ctx& ctx, const std::string& n)
{
    const int         place = int(ctx.rng.below(7));
    const std::string t = embed(n, place);
    Got               g;
    try { g.v = *dig<json>(json::parse<char>(t), place); g.ok = true; }
    catch (const configor::configor_deserialization_error& e) { g.deser = true; g.err = e.what(); }
    catch (const Fail&) { throw; }
    catch (const std::exception& e) { g.err = e.what(); }
    VH_CHECK(g.ok || g.deser, "'" << t << "' gives another exception: " << g.err);
    auto same = [&](const M& m, const char* how) {
        const auto mine = model<json>(g.v);
        VH_CHECK(mine.k == m.k && mine.i == m.i && (mine.k != M::Flt || memcmp(&mine.f, &m.f, 8) == 0), "'" << t << "' reads as " << show(mine) << " and through " << how << " as " << show(m));
    };
    switch (ctx.rng.below(3))
    {
    case 0:
    {
        const auto o = try_parse<wjson, wchar_t>(wide<wchar_t>(t), int(ctx.rng.below(3)));
        VH_CHECK(o.ok == g.ok, "'" << t << "' is " << (g.ok ? "read" : "refused") << " but not as wide text");
        if (o.ok) same(model<wjson>(*dig<wjson>(wjson::parse<wchar_t>(wide<wchar_t>(t)), place)), "wide text");
        break;
    }
    case 1:
    {
        const int  kind = int(ctx.rng.below(SrcExtract));
        const auto o = try_parse<json, char>(t, kind, 1 + ctx.rng.below(4));
        VH_CHECK(o.ok == g.ok, "'" << t << "' is " << (g.ok ? "read" : "refused") << " but not from " << source_name(kind));
        if (o.ok) same(model<json>(*dig<json>(parse_via<json, char>(kind, t, 2), place)), source_name(kind));
        break;
    }
    default: break;
    }
    ctx.evals(1);
    return g;
}
// decimal arithmetic on strings, for integers around the limits
std::string add_small(std::string d, int64_t delta)  // d: decimal magnitude
{
    for (; delta > 0; --delta)
    {
        size_t k = d.size();
        while (k && d[k - 1] == '9') d[--k] = '0';
        if (k) ++d[k - 1];
        else d.insert(d.begin(), '1');
    }
    return d;
}
bool fits(const std::string& digits, bool neg)  // digits without leading zeros
{
    const std::string lim = neg ? "9223372036854775808" : "9223372036854775807";
    return digits.size() < lim.size() || (digits.size() == lim.size() && digits <= lim);
}
void integer(Ctx& ctx, const std::string& digits, bool neg, bool plus)
{
    const std::string n = (neg ? "-" : plus ? "+" : "") + digits;
    const auto        g = read_number(ctx, n);
    if (fits(digits, neg))
    {
        const int64_t want = neg ? int64_t(-strtoull(digits.c_str(), nullptr, 10)) : int64_t(strtoull(digits.c_str(), nullptr, 10));
        VH_CHECK(g.ok, "the integer " << n << " is refused: " << g.err);
        VH_CHECK(g.v.is_integer() && g.v.get<int64_t>() == want, "the integer " << n << " reads as " << show(model<json>(g.v)));
        // and back
        const auto text = std::to_string(want);
        VH_CHECK(json::dump(g.v) == text, "the integer " << text << " is written " << json::dump(g.v));
        if (ctx.rng.chance(1, 4))
        {
            const auto o = gen_dump_opt(ctx.rng);
            VH_CHECK((dump_as<json, char>(g.v, o) == text), "the integer " << text << " is written " << (dump_as<json, char>(g.v, o)) << " with " << o.str());
            VH_CHECK((dump_as<wjson, wchar_t>(wjson::value(want), o) == wide<wchar_t>(text)), "the integer " << text << " in wide text");
        }
        ctx.count("integers_exact");
    }
    else
    {
        VH_CHECK(!g.ok, "the integer " << n << " does not fit but reads as " << show(model<json>(g.v)));
        ctx.count("integers_refused");
    }
    ctx.seen(hash_str(n));
}
std::string tail_of(double f) { char b[64]; snprintf(b, sizeof b, "%.17g", f); return b; }
// may_refuse: an exponent spelling that need not be accepted
void decimal(Ctx& ctx, const std::string& n, bool may_refuse = false)
{
    const std::string s = n[0] == '+' ? n.substr(1) : n;
    const double      want = strtod(s.c_str(), nullptr);
    const auto        g = read_number(ctx, n);
    ctx.seen(hash_str(n));
    if (!g.ok)
    {
        VH_CHECK(may_refuse || std::isinf(want), "the number " << (n.size() < 200 ? n : n.substr(0, 200) + "...") << " is refused: " << g.err);
        ctx.count("spellings_refused");
        return;
    }
    VH_CHECK(g.v.is_floating(), "the number " << n.substr(0, 200) << " reads as " << show(model<json>(g.v)));
    const double got = g.v.get<double>();
    VH_CHECK(got == got, "the number " << n.substr(0, 200) << " reads as NaN");
    if (std::isinf(want)) { ctx.count("overflows"); return; }
    if (std::fabs(want) > 1.7e308) { ctx.count("near_the_top"); return; }
    const double tol = std::fabs(want) * 1e-12 + (std::fabs(want) < 2.2250738585072014e-308 * 1.0000001 ? 2.3e-308 : 0);
    VH_CHECK(std::fabs(got - want) <= tol, "the number " << n.substr(0, 300) << " reads as " << tail_of(got) << " instead of " << tail_of(want));
    ctx.count(want == 0 || std::fabs(want) < 2.3e-308 ? "underflows" : "decimals");
}
std::string digits(Rng& r, size_t n, bool lead_nonzero)
{
    std::string s;
    const bool  zeros = r.chance(1, 6), nines = r.chance(1, 8);
    for (size_t i = 0; i < n; ++i) s += zeros && !r.chance(1, 8) ? '0' : nines ? '9' : char('0' + r.below(10));
    if (lead_nonzero && n && s[0] == '0') s[0] = char('1' + r.below(9));
    return s;
}
std::string expected_text(double f, int prec, std::ios::fmtflags fl)
{
    char b[2000];
    if (std::floor(f) == f && std::fabs(f) < 9223372036854775808.0)
    {
        snprintf(b, sizeof b, "%" PRId64 ".0", int64_t(f));
        return b;
    }
    snprintf(b, sizeof b, fl == std::ios::fixed ? "%.*f" : fl == std::ios::scientific ? "%.*e" : "%.*g", prec, f);
    std::string s = b;
    if (s.find_first_of(".e") == s.npos) s += ".0";
    return s;
}

template <class J, class C> void written(Ctx& ctx, double f, int prec, std::ios::fmtflags fl, bool set)
{
    using Ser = typename J::template serializer_type<C>;
    using Str = std::basic_string<C>;
    V<J> v(f);
    const int place = int(ctx.rng.below(3));
    V<J> holder;
    if (place == 1) holder = typename J::array{ v };
    else if (place == 2) holder[St<J>(1, Ch<J>('k'))] = v;
    else holder = v;
    Str t;
    // as an option, or as the state of the stream that is written to
    const int how = set ? int(ctx.rng.below(7)) : 0;
    static const std::ios::fmtflags others[] = { std::ios::fmtflags(), std::ios::fixed, std::ios::scientific, std::ios::fixed | std::ios::scientific };
    if (set && how >= 5)
    {
        // the last option wins over earlier ones
        std::basic_ostringstream<C> os;
        J::template dump<C>(os, holder, { Ser::with_precision(int(ctx.rng.below(30)), ctx.rng.pick(others)), Ser::with_unicode_escaping(true), Ser::with_precision(prec, fl) });
        t = os.str();
        ctx.count("written_with_repeated_options");
    }
    else if (set && how == 4)
    {
        // options win over the state of the stream
        std::basic_ostringstream<C> os;
        const int  sprec = int(ctx.rng.below(30));
        const auto sfl = ctx.rng.pick(others);
        os << std::setprecision(sprec);
        os.setf(sfl, std::ios::floatfield);
        J::template dump<C>(os, holder, { Ser::with_precision(prec, fl) });
        t = os.str();
        VH_CHECK(os.good() && os.precision() == sprec && (os.flags() & std::ios::floatfield) == sfl, "the precision or notation of the stream changed");
        ctx.count("written_with_options_over_stream_state");
    }
    else if (set && how >= 2)
    {
        std::basic_ostringstream<C> os;
        os << std::setprecision(prec);
        os.setf(fl, std::ios::floatfield);
        if (how == 2) J::dump(os, holder);
        else os << J::wrap(holder);
        t = os.str();
        VH_CHECK(os.good() && os.precision() == prec && (os.flags() & std::ios::floatfield) == fl, "the precision or notation of the stream changed");
        ctx.count("written_through_stream_state");
    }
    else if (set) t = J::template dump<C>(holder, { Ser::with_precision(prec, fl) });
    else t = J::template dump<C>(holder);
    std::string s(t.begin(), t.end());
    const std::string pre = place == 0 ? "" : place == 1 ? "[" : "{\"k\":", post = place == 0 ? "" : place == 1 ? "]" : "}";
    VH_CHECK(s.size() > pre.size() + post.size() && s.compare(0, pre.size(), pre) == 0 && s.compare(s.size() - post.size(), post.size(), post) == 0, "the float " << tail_of(f) << " is written " << s);
    s = s.substr(pre.size(), s.size() - pre.size() - post.size());
    const auto want = expected_text(f, set ? prec : 6, set ? fl : std::ios::fmtflags());
    // -0.0 may lose its sign
    VH_CHECK(s == want || (f == 0 && (s == "0.0" || s == "-0.0")), "the float " << tail_of(f) << " is written " << s << " instead of " << want << " with precision " << (set ? prec : -1));
    const auto back = J::template parse<C>(Str(s.begin(), s.end()));
    VH_CHECK(back.is_floating(), "the float " << tail_of(f) << " is written " << s << ", which does not read as a float");
    const double sd = strtod(s.c_str(), nullptr), got = back.template get<double>();
    if (std::fabs(sd) < 1.7e308) VH_CHECK(std::fabs(got - sd) <= std::fabs(sd) * 1e-12 + 2.3e-308, "the text " << s.substr(0, 100) << " reads as " << tail_of(got));
    ctx.evals(1);
}
void written_any(Ctx& ctx, double f, int prec, std::ios::fmtflags fl, bool set)
{
    ctx.seen(hash_bytes(&f, 8, u64(prec) * 8 + u64(fl)));
    switch (ctx.rng.below(4))
    {
    case 0: written<wjson, wchar_t>(ctx, f, prec, fl, set); break;
    case 1: written<json, wchar_t>(ctx, f, prec, fl, set); break;
    default: written<json, char>(ctx, f, prec, fl, set); break;
    }
}
const std::ios::fmtflags kNotations[] = { std::ios::fmtflags(), std::ios::fixed, std::ios::scientific };
}  // namespace

// around every power of two and ten, and both limits
VH_PART(integer_boundaries, 1, 1)
{
    for (int neg = 0; neg < 2; ++neg)
    {
        for (int k = 0; k < 64; ++k)
        {
            const u64 p = u64(1) << k;
            for (int d = -3; d <= 3; ++d) integer(ctx, std::to_string(p + u64(d)), neg, false);
        }
        std::string ten = "1";
        for (int k = 0; k < 42; ++k, ten += '0')
        {
            integer(ctx, ten, neg, false);
            integer(ctx, add_small(ten, 7), neg, false);
            integer(ctx, std::string(ten.size(), '9'), neg, k % 2);
        }
        const std::string lim = "9223372036854775800", two64 = "18446744073709551600";
        for (int d = 0; d < 40; ++d)
        {
            integer(ctx, add_small(lim, d), neg, d % 2);
            integer(ctx, add_small(two64, d), neg, false);
            // values that wrap round to small ones in 64 and in 128 bits
            integer(ctx, add_small("36893488147419103230", d), neg, false);
            integer(ctx, add_small("184467440737095516160", d), neg, false);
            integer(ctx, add_small("340282366920938463463374607431768211450", d), neg, false);
        }
    }
}
VH_PART(integers, 100000, 2000000)
{
    auto&      r = ctx.rng;
    const bool neg = r.chance(1, 2), plus = r.chance(1, 8);
    switch (r.below(5))
    {
    case 0: integer(ctx, digits(r, 1 + r.below(40), true), neg, plus); break;
    case 1: integer(ctx, digits(r, 17 + r.below(5), true), neg, plus); break;
    case 2: integer(ctx, std::to_string((u64(1) << 63) + r.below(2000) - 1000), neg, plus); break;
    case 3: integer(ctx, std::to_string(r.next() >> r.below(64)), neg, plus); break;
    default: integer(ctx, digits(r, 20 + r.below(r.chance(1, 20) ? 3000 : 60), true), neg, plus); break;
    }
}
VH_PART(decimals, 160000, 3000000)
{
    auto&       r = ctx.rng;
    std::string n = r.chance(1, 3) ? "-" : r.chance(1, 10) ? "+" : "";
    const bool  frac = r.chance(2, 3);
    bool        exp = !frac || r.chance(1, 2), may = false;
    if (r.chance(1, 3)) { n += "0"; if (!frac) may = true; }
    else n += digits(r, 1 + r.below(r.chance(1, 6) ? 60 : 20), true);
    if (frac) n += "." + digits(r, 1 + r.below(r.chance(1, 6) ? 60 : 20), false);
    if (exp)
    {
        n += r.chance(1, 2) ? "e" : "E";
        const u64 k = r.below(3);
        if (k) n += k == 1 ? "-" : "+";
        std::string e = std::to_string(r.chance(1, 8) ? r.below(1000) : r.chance(1, 2) ? r.below(330) : r.below(30));
        if (r.chance(1, 8)) e = std::string(1 + r.below(4), '0') + e;
        if (!k && e[0] == '0') may = true;
        n += e;
    }
    decimal(ctx, n, may);
    if (ctx.want_sample()) ctx.sample(n);
}
// the same number with the point moved far and the exponent making up for it
VH_PART(shifted, 6000, 100000)
{
    auto&       r = ctx.rng;
    std::string m = digits(r, 1 + r.below(18), true);
    const int   e = int(r.below(600)) - 300;
    const size_t zeros = r.below(r.chance(1, 4) ? 2000 : 40);
    // m * 10^e
    decimal(ctx, m + "e" + (e < 0 ? "" : "+") + std::to_string(e));
    decimal(ctx, m + std::string(zeros, '0') + "e" + (e < int(zeros) ? "" : "+") + std::to_string(e - int(zeros)));
    decimal(ctx, "0." + std::string(zeros, '0') + m + "e" + (e + int(zeros + m.size()) < 0 ? "" : "+") + std::to_string(e + int(zeros + m.size())));
    decimal(ctx, m + std::string(zeros, '0') + ".0" + "e" + (e < int(zeros) ? "" : "+") + std::to_string(e - int(zeros)));
    decimal(ctx, m.substr(0, 1) + "." + (m.size() > 1 ? m.substr(1) : "0") + std::string(zeros, '0') + "E" + (e + int(m.size()) - 1 < 0 ? "" : "+") + std::to_string(e + int(m.size()) - 1));
}
// exponents and lengths that overflow any counter
VH_PART(extremes, 400, 8000)
{
    auto&       r = ctx.rng;
    static const char* const exps[] = { "255", "256", "257", "308", "309", "323", "324", "325", "400", "999", "1000", "32767", "32768", "65535", "65536", "65537", "99999", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297",
                                        "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999" };
    static const char* const ms[] = { "1", "9", "1.0", "0.1", "0.0", "1.5", "123456789012345678901234567890", "0.000000000000000000000000000001", "10000000000000000000000", "0.00" };
    for (auto m : ms)
    {
        const char* e = r.pick(exps);
        const std::string sg = r.chance(1, 2) ? "-" : "";
        decimal(ctx, sg + m + "e-" + e);
        // what overflows may be refused or infinite, but a zero stays one
        const bool zero = strtod(m, nullptr) == 0;
        const auto g = read_number(ctx, sg + m + "e+" + e);
        if (g.ok)
        {
            const double x = g.v.get<double>();
            VH_CHECK(x == x, sg << m << "e+" << e << " reads as NaN");
            const double want = strtod((sg + m + "e+" + e).c_str(), nullptr);
            if (std::isinf(want)) VH_CHECK(std::fabs(x) > 1e300 && (x < 0) == (want < 0), sg << m << "e+" << e << " reads as " << tail_of(x));
            else if (std::fabs(want) < 1.7e308) VH_CHECK(std::fabs(x - want) <= std::fabs(want) * 1e-12, sg << m << "e+" << e << " reads as " << tail_of(x));
        }
        else VH_CHECK(!zero, sg << m << "e+" << e << " is refused: " << g.err);
    }
    // long runs of digits
    const size_t len = 1 + r.below(r.chance(1, 10) ? 100000 : 3000);
    decimal(ctx, "0." + std::string(len, '0') + "1" + digits(r, r.below(30), false));
    decimal(ctx, "0." + digits(r, len, false));
    decimal(ctx, digits(r, 1 + r.below(300), true) + "." + digits(r, len, false));
    if (len < 300) decimal(ctx, digits(r, len, true) + ".0");
    decimal(ctx, "0." + std::string(len, '0') + "12345e+" + std::to_string(len + r.below(30)));
}
// every decimal exponent with a few mantissas
VH_PART(all_exponents, 1, 1)
{
    static const char* const ms[] = { "1", "9.999999999999999", "4.9406564584124654", "2.2250738585072014", "1.7976931348623157", "5", "1.0000000000000002", "3.3333333333333333333333333333" };
    for (int e = -345; e <= 308; ++e)
        for (auto m : ms)
            decimal(ctx, std::string(m) + "e" + (e < 0 ? "" : "+") + std::to_string(e));
}
VH_PART(written_floats, 160000, 3000000)
{
    auto&  r = ctx.rng;
    double f = gen_dbl(r);
    if (r.chance(1, 6))
    {
        // halfway and nearly halfway cases of rounding
        f = double(int64_t(r.below(20000))) / 2000.0 + (r.chance(1, 2) ? 0.0005 : 0);
        if (r.chance(1, 2)) f = std::nextafter(f, r.chance(1, 2) ? 1e300 : -1e300);
    }
    const int prec = r.chance(1, 30) ? int(r.below(340)) : int(r.below(25));
    written_any(ctx, f, prec, kNotations[r.below(3)], !r.chance(1, 5));
    if (ctx.want_sample()) ctx.sample(tail_of(f));
}
// integral floats around the limits of the integer types
VH_PART(integral_floats, 1, 1)
{
    for (int neg = 0; neg < 2; ++neg)
        for (int k = 0; k < 70; ++k)
            for (int d = -2; d <= 2; ++d)
            {
                double f = std::ldexp(1.0, k);
                for (int s = std::abs(d); s; --s) f = std::nextafter(f, d < 0 ? 0.0 : 1e300);
                for (auto fl : kNotations)
                    for (int prec : { 0, 1, 6, 17, 30 }) written_any(ctx, neg ? -f : f, prec, fl, true);
                written_any(ctx, neg ? -f : f, 6, std::ios::fmtflags(), false);
                // exact where an integer type could hold it
                if (std::floor(f) == f && f < 9223372036854775808.0)
                {
                    const double g = json::parse<char>(json::dump(json::value(neg ? -f : f))).get<double>();
                    VH_CHECK(std::fabs(g - (neg ? -f : f)) <= f * 1e-12, "the float " << tail_of(f) << " comes back as " << tail_of(g));
                }
            }
}
