// Bridge between the model and the library's public interface: building values, reading them back, all the sources a
// text can be parsed from and all the sinks a value can be dumped to.
#pragma once
#include "model.hpp"

#include <cwchar>
#include <istream>
#include <ostream>
#include <sstream>
#include <streambuf>

#include "configor/json.hpp"

namespace vh
{
using configor::json;
using configor::wjson;
using configor::value_constant;

template <class J> using V  = typename J::value;
template <class J> using Ch = typename J::value::char_type;
template <class J> using St = typename J::value::string_type;

// ---------------------------------------------------------------- model <-> value
template <class C>
inline U32 decode_lossless(const std::basic_string<C>& s)
{
    U32 r;
    if (Enc<C>::get(s, r)) return r;
    r.clear();
    for (auto c : s) r += char32_t(0x80000000u | static_cast<u32>(static_cast<typename std::make_unsigned<C>::type>(c)));
    return r;
}

template <class J>
M model(const V<J>& v)
{
    using val = V<J>;
    switch (v.type())
    {
    case value_constant::null: return M::null();
    case value_constant::boolean: return M::boolean(v.template get<const typename val::boolean_type&>());
    case value_constant::integer: return M::integer(static_cast<int64_t>(v.template get<const typename val::integer_type&>()));
    case value_constant::floating: return M::flt(static_cast<double>(v.template get<const typename val::float_type&>()));
    case value_constant::string: return M::str(decode_lossless(v.template get<const typename val::string_type&>()));
    case value_constant::array:
    {
        M m = M::arr();
        for (const auto& e : v.template get<const typename val::array_type&>()) m.a.push_back(model<J>(e));
        return m;
    }
    case value_constant::object:
    {
        M m = M::obj();
        for (const auto& e : v.template get<const typename val::object_type&>())
            m.o.emplace_back(decode_lossless(e.first), model<J>(e.second));
        return m;
    }
    }
    VH_FAIL("value of unknown type " << int(v.type()));
}

// builds a value through one public path per kind; with a generator the paths are mixed
template <class J>
V<J> build(const M& m, Rng* r = nullptr)
{
    using val = V<J>;
    using C   = Ch<J>;
    const u64 way = r ? r->below(4) : 0;
    switch (m.k)
    {
    case M::Null: return way == 1 ? val(nullptr) : val();
    case M::Bool: return val(m.b);
    case M::Int: return val(static_cast<typename val::integer_type>(m.i));
    case M::Flt: return val(static_cast<typename val::float_type>(m.f));
    case M::Str:
    {
        auto s = Enc<C>::put(m.s);
        if (way == 1) return val(s);
        if (way == 2) { val v(value_constant::string); v.template get<typename val::string_type&>() = s; return v; }
        return val(std::move(s));
    }
    case M::Arr:
    {
        val v(value_constant::array);
        if (way == 1) for (auto& e : m.a) v.emplace_back(build<J>(e, r));
        else if (way == 2) for (size_t i = 0; i < m.a.size(); ++i) v[i] = build<J>(m.a[i], r);
        else for (auto& e : m.a) v.push_back(build<J>(e, r));
        return v;
    }
    default:
    {
        val v(value_constant::object);
        if (way == 1) for (auto& e : m.o) v.template get<typename val::object_type&>().emplace(Enc<C>::put(e.first), build<J>(e.second, r));
        else for (auto& e : m.o) v[Enc<C>::put(e.first)] = build<J>(e.second, r);
        return v;
    }
    }
}

// the member order of a std::map of encoded keys, for oracles that look at the text
template <class C>
M sorted(const M& m)
{
    M r = m;
    for (auto& e : r.a) e = sorted<C>(e);
    for (auto& e : r.o) e.second = sorted<C>(e.second);
    std::sort(r.o.begin(), r.o.end(), [](const std::pair<U32, M>& x, const std::pair<U32, M>& y)
              { return Enc<C>::put(x.first) < Enc<C>::put(y.first); });
    return r;
}

// ---------------------------------------------------------------- streams
// input with a get area of `chunk` characters (0: none at all), which may end or throw early
template <class C>
class InBuf : public std::basic_streambuf<C>
{
public:
    using T = std::char_traits<C>;
    enum Mode { End, Throw };
    InBuf(std::basic_string<C> s, size_t chunk, size_t limit = size_t(-1), Mode mode = End)
        : s_(std::move(s)), chunk_(chunk), limit_(limit), mode_(mode) {}
    size_t given() const { return pos_; }
    size_t underflows = 0;

protected:
    typename T::int_type at_end()
    {
        if (pos_ >= limit_ && mode_ == Throw) throw std::runtime_error("source failed");
        return T::eof();
    }
    typename T::int_type underflow() override
    {
        ++underflows;
        const size_t n = std::min(s_.size(), limit_);
        if (chunk_ == 0)
        {
            if (pos_ >= n) return at_end();
            return T::to_int_type(s_[pos_]);
        }
        if (this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        if (pos_ >= n) return at_end();
        const size_t k = std::min(chunk_, n - pos_);
        this->setg(&s_[pos_], &s_[pos_], &s_[pos_] + k);
        pos_ += k;
        return T::to_int_type(*this->gptr());
    }
    typename T::int_type uflow() override
    {
        if (chunk_ == 0)
        {
            const auto c = underflow();
            if (!T::eq_int_type(c, T::eof())) ++pos_;
            return c;
        }
        return std::basic_streambuf<C>::uflow();
    }

private:
    std::basic_string<C> s_;
    size_t               chunk_, pos_ = 0, limit_;
    Mode                 mode_;
};

// output with a put area of `chunk` characters (0: none), which may refuse or throw after `limit` characters
template <class C>
class OutBuf : public std::basic_streambuf<C>
{
public:
    using T = std::char_traits<C>;
    enum Mode { Refuse, Throw };
    explicit OutBuf(size_t chunk, size_t limit = size_t(-1), Mode mode = Refuse)
        : chunk_(chunk), limit_(limit), mode_(mode), area_(chunk)
    {
        if (chunk_) this->setp(area_.data(), area_.data() + chunk_);
    }
    // what has been accepted, including what waits in the put area
    std::basic_string<C> text() const
    {
        auto r = got_;
        if (chunk_) r.append(this->pbase(), this->pptr());
        return r;
    }
    std::basic_string<C> flushed() const { return got_; }
    size_t refused = 0;

protected:
    bool take(const C* s, size_t n)
    {
        const size_t room = limit_ > got_.size() ? limit_ - got_.size() : 0;
        const size_t k    = std::min(n, room);
        got_.append(s, k);
        if (k < n)
        {
            ++refused;
            if (mode_ == Throw) throw std::runtime_error("sink failed");
            return false;
        }
        return true;
    }
    typename T::int_type overflow(typename T::int_type c) override
    {
        if (chunk_)
        {
            const size_t n = static_cast<size_t>(this->pptr() - this->pbase());
            std::vector<C> copy(this->pbase(), this->pptr());
            this->setp(area_.data(), area_.data() + chunk_);
            if (n && !take(copy.data(), n)) return T::eof();
        }
        if (T::eq_int_type(c, T::eof())) return T::not_eof(c);
        const C ch = T::to_char_type(c);
        if (chunk_) { *this->pptr() = ch; this->pbump(1); return c; }
        return take(&ch, 1) ? c : T::eof();
    }
    int sync() override
    {
        if (chunk_)
        {
            const size_t n = static_cast<size_t>(this->pptr() - this->pbase());
            std::vector<C> copy(this->pbase(), this->pptr());
            this->setp(area_.data(), area_.data() + chunk_);
            if (n && !take(copy.data(), n)) return -1;
        }
        return 0;
    }

private:
    size_t               chunk_, limit_;
    Mode                 mode_;
    std::vector<C>       area_;
    std::basic_string<C> got_;
};

template <class C>
struct StrAdapterIn : configor::basic_iadapter<C>
{
    std::basic_string<C> s;
    size_t               p = 0, reads = 0;
    explicit StrAdapterIn(std::basic_string<C> t) : s(std::move(t)) {}
    using configor::basic_iadapter<C>::read;
    C read() override
    {
        ++reads;
        return p < s.size() ? s[p++] : static_cast<C>(std::char_traits<C>::eof());
    }
};
template <class C>
struct StrAdapterOut : configor::basic_oadapter<C>
{
    std::basic_string<C> s;
    using configor::basic_oadapter<C>::write;
    void write(const C c) override { s += c; }
};
// also overrides the bulk write
template <class C>
struct BulkAdapterOut : configor::basic_oadapter<C>
{
    std::basic_string<C> s;
    void write(const C c) override { s += c; }
    void write(const C* p, std::size_t n) override { s.append(p, n); }
};

template <class C> struct FileOf;
template <> struct FileOf<char>
{
    FILE* f;
    explicit FileOf(const std::string& s)
    {
        f = tmpfile();
        if (!f) VH_FAIL("tmpfile failed");
        fwrite(s.data(), 1, s.size(), f);
        rewind(f);
    }
    ~FileOf() { fclose(f); }
};
// a wide file can only be read in a locale that decodes it, the caller sees to that
template <> struct FileOf<wchar_t>
{
    FILE* f;
    explicit FileOf(const std::wstring& s)
    {
        f = tmpfile();
        if (!f) VH_FAIL("tmpfile failed");
        U32 u32s;
        if (!from32(s, u32s)) VH_FAIL("harness: cannot encode");
        const auto b = to8(u32s);
        // not through the FILE, which would become byte-oriented
        for (size_t n = 0; n < b.size();)
        {
            const auto k = ::write(fileno(f), b.data() + n, b.size() - n);
            if (k <= 0) VH_FAIL("write failed");
            n += size_t(k);
        }
        lseek(fileno(f), 0, SEEK_SET);
    }
    ~FileOf() { fclose(f); }
};

// ---------------------------------------------------------------- parsing
struct Outcome
{
    bool        ok = false;
    bool        deser = false;  // the library's deserialization error
    M           m;
    std::string err;
};

enum SourceKind { SrcString, SrcCStr, SrcStream, SrcChunked, SrcUnbuffered, SrcFile, SrcAdapter, SrcExtract, SrcKinds };
inline const char* source_name(int k)
{
    static const char* n[] = { "string", "c-string", "istringstream", "chunked stream", "unbuffered stream", "C file", "adapter", "extraction" };
    return n[k];
}

// what the parser says about a text that comes from the given source; throws what the library throws
template <class J, class C>
V<J> parse_via(int kind, const std::basic_string<C>& text, size_t chunk = 3, bool in_place = false,
               std::initializer_list<typename J::template parser_option<C>> opts = {})
{
    V<J> v;
    switch (kind)
    {
    case SrcCStr:
        if (text.find(C(0)) == text.npos)
        {
            // an exact-size block, so that reading past the terminator is seen
            std::vector<C> exact(text.begin(), text.end());
            exact.push_back(C(0));
            exact.shrink_to_fit();
            const C* p = exact.data();
            if (in_place) { J::template parse<C>(v, p, opts); return v; }
            return J::template parse<C>(p, opts);
        }
        // fall through
    case SrcString:
        if (in_place) { J::template parse<C>(v, text, opts); return v; }
        return J::template parse<C>(text, opts);
    case SrcStream:
    {
        std::basic_istringstream<C> is(text);
        if (in_place) { J::parse(v, is, opts); return v; }
        return J::parse(is, opts);
    }
    case SrcChunked:
    case SrcUnbuffered:
    {
        InBuf<C>              b(text, kind == SrcChunked ? chunk : 0);
        std::basic_istream<C> is(&b);
        if (in_place) { J::parse(v, is, opts); return v; }
        return J::parse(is, opts);
    }
    case SrcFile:
    {
        FileOf<C> f(text);
        if (in_place) { J::template parse<C>(v, f.f, opts); return v; }
        return J::template parse<C>(f.f, opts);
    }
    case SrcAdapter:
    {
        StrAdapterIn<C>                   a(text);
        configor::basic_iadapterstream<C> is(a);
        if (in_place) { J::parse(v, is, opts); return v; }
        return J::parse(is, opts);
    }
    default:
    {
        std::basic_istringstream<C> is(text);
        is >> J::wrap(v);
        return v;
    }
    }
}

// the standard streams know char and wchar_t only: texts of the others are read from memory and from a buffer of our own
template <class C> class PlainBuf : public std::basic_streambuf<C>
{
public:
    explicit PlainBuf(std::basic_string<C> s, size_t chunk) : s_(std::move(s)), chunk_(chunk ? chunk : 1) {}

protected:
    typename std::char_traits<C>::int_type underflow() override
    {
        if (at_ >= s_.size()) return std::char_traits<C>::eof();
        const size_t n = std::min(chunk_, s_.size() - at_);
        this->setg(&s_[at_], &s_[at_], &s_[at_] + n);
        at_ += n;
        return std::char_traits<C>::to_int_type(*this->gptr());
    }

private:
    std::basic_string<C> s_;
    size_t               chunk_, at_ = 0;
};
template <class J, class C>
V<J> parse_text(std::true_type, int kind, const std::basic_string<C>& t, size_t chunk, bool in_place, std::initializer_list<typename J::template parser_option<C>> o)
{
    return parse_via<J, C>(kind, t, chunk, in_place, o);
}
template <class J, class C>
V<J> parse_text(std::false_type, int kind, const std::basic_string<C>& t, size_t chunk, bool in_place, std::initializer_list<typename J::template parser_option<C>> o)
{
    V<J> v;
    if (kind == SrcString && in_place)
    {
        J::template parse<C>(v, t, o);
        return v;
    }
    if (kind == SrcString) return J::template parse<C>(t, o);
    if (kind == SrcCStr && t.find(C(0)) == t.npos) return J::template parse<C>(t.c_str(), o);
    PlainBuf<C>           b(t, chunk);
    std::basic_istream<C> is(&b);
    return J::template parse<C>(is, o);
}

template <class J, class C>
V<J> parse_any(int kind, const std::basic_string<C>& text, size_t chunk, bool in_place)
{
    return parse_text<J, C>(std::integral_constant<bool, std::is_same<C, char>::value || std::is_same<C, wchar_t>::value>(), kind, text, chunk, in_place, {});
}

template <class J, class F>
Outcome outcome_of(F f)
{
    Outcome o;
    try
    {
        V<J> v = f();
        o.ok   = true;
        o.m    = model<J>(v);
    }
    catch (const configor::configor_deserialization_error& e) { o.deser = true; o.err = e.what(); }
    catch (const Fail&) { throw; }
    catch (const std::exception& e) { o.err = e.what(); }
    catch (...) { o.err = "unknown exception"; }
    return o;
}
template <class J, class C>
Outcome try_parse(const std::basic_string<C>& text, int kind = SrcString, size_t chunk = 3)
{
    return outcome_of<J>([&] { return parse_via<J, C>(kind, text, chunk); });
}

// ---------------------------------------------------------------- dumping
struct DumpOpt
{
    int                indent = 0;   // 0: compact
    char               ch = ' ';
    bool               escape = false;
    int                prec = -1;    // -1: not set, stream default of 6 and general notation
    std::ios::fmtflags flags{};
    std::string str() const
    {
        return S() << "{indent " << indent << " char " << int(ch) << " escape " << escape << " precision " << prec << " notation "
                   << (flags == std::ios::fixed ? "fixed" : flags == std::ios::scientific ? "scientific" : flags == std::ios::fmtflags() ? "general" : "hex") << "}";
    }
    // how far a float that went through the text may be from the original
    // (exact_reader: the text is read without error; the library reads to 1e-12)
    Tol tol(double f, bool exact_reader) const
    {
        Tol t;
        if (std::floor(f) == f && std::fabs(f) < (exact_reader ? 9223372036854775808.0 : 1e12)) return t;  // exact
        t.exact = false;
        t.rel   = 1e-12;
        t.abs   = 2.3e-308;
        const int p = prec < 0 ? 6 : prec;
        if (prec >= 0 && flags == std::ios::fixed) t.abs += 0.501 * std::pow(10.0, -p);
        else if (prec >= 0 && flags == std::ios::scientific) t.rel += 0.501 * std::pow(10.0, -p);
        else t.rel += 0.501 * std::pow(10.0, 1 - std::max(p, 1)) ;
        // relative to the original: the leading digit may be as small as 1
        return t;
    }
};
inline DumpOpt gen_dump_opt(Rng& r)
{
    DumpOpt o;
    static const int steps[] = { 0, 0, 0, 1, 2, 3, 4, 4, 8, 16, 31, 64, 127, 128, 200, 254, 255 };
    o.indent = r.pick(steps);
    o.ch     = r.chance(1, 4) ? '\t' : ' ';
    o.escape = r.chance(1, 2);
    if (r.chance(2, 3))
    {
        static const int precs[] = { 0, 1, 2, 3, 5, 6, 7, 10, 15, 16, 17, 18, 20, 25, 40 };
        o.prec = r.pick(precs);
        const u64 k = r.below(4);
        o.flags = k == 0 ? std::ios::fmtflags() : k == 1 ? std::ios::scientific : k == 2 ? std::ios::fixed : (std::ios::fixed | std::ios::scientific);
    }
    return o;
}
// compares a model that was written with o and read back
inline std::string diff_text(const M& x, const M& y, const DumpOpt& o, bool exact_reader, const std::string& path = "$")
{
    if (x.k != y.k) return path + ": expected " + show(x) + " got " + show(y);
    if (x.k == M::Flt) return flt_eq(x.f, y.f, o.tol(x.f, exact_reader)) ? "" : path + ": expected " + show(x) + " got " + show(y);
    if (x.k == M::Arr)
    {
        if (x.a.size() != y.a.size()) return diff(x, y, Tol(), path);
        for (size_t i = 0; i < x.a.size(); ++i)
        {
            auto d = diff_text(x.a[i], y.a[i], o, exact_reader, path.size() < 200 ? path + "[" + std::to_string(i) + "]" : path);
            if (!d.empty()) return d;
        }
        return "";
    }
    if (x.k == M::Obj)
    {
        if (x.o.size() != y.o.size()) return diff(x, y, Tol(), path);
        std::map<U32, const M*> idx;
        for (auto& p : y.o) idx[p.first] = &p.second;
        for (auto& p : x.o)
        {
            auto it = idx.find(p.first);
            if (it == idx.end()) return path + ": member \"" + show(p.first, 40) + "\" missing";
            auto d = diff_text(p.second, *it->second, o, exact_reader, path.size() < 200 ? path + "." + show(p.first, 20) : path);
            if (!d.empty()) return d;
        }
        return "";
    }
    return diff(x, y, Tol(), path);
}

template <class J, class C>
struct Opts
{
    using Ser = typename J::template serializer_type<C>;
    using O   = typename Ser::option;
    O indent, escape, prec;
    explicit Opts(const DumpOpt& o)
        : indent([](Ser&) {}), escape([](Ser&) {}), prec([](Ser&) {})
    {
        if (o.indent) indent = Ser::with_indent(static_cast<uint8_t>(o.indent), static_cast<C>(o.ch));
        if (o.escape || o.indent % 2) escape = Ser::with_unicode_escaping(o.escape);
        if (o.prec >= 0) prec = Ser::with_precision(o.prec, o.flags);
    }
};

enum SinkKind { SnkReturn, SnkString, SnkStream, SnkChunked, SnkUnbuffered, SnkAdapter, SnkBulkAdapter, SnkKinds };
inline const char* sink_name(int k)
{
    static const char* n[] = { "returned string", "string", "ostringstream", "chunked stream", "unbuffered stream", "adapter", "bulk adapter" };
    return n[k];
}
template <class J, class C>
std::basic_string<C> dump_via(int kind, const V<J>& v, const DumpOpt& o, size_t chunk = 3)
{
    Opts<J, C> p(o);
    switch (kind)
    {
    case SnkReturn: return J::template dump<C>(v, { p.indent, p.escape, p.prec });
    case SnkString:
    {
        std::basic_string<C> s;
        J::template dump<C>(s, v, { p.prec, p.escape, p.indent });
        return s;
    }
    case SnkStream:
    {
        std::basic_ostringstream<C> os;
        J::template dump<C>(os, v, { p.indent, p.escape, p.prec });
        return os.str();
    }
    case SnkChunked:
    case SnkUnbuffered:
    {
        OutBuf<C>             b(kind == SnkChunked ? chunk : 0);
        std::basic_ostream<C> os(&b);
        J::template dump<C>(os, v, { p.escape, p.indent, p.prec });
        return b.text();
    }
    case SnkAdapter:
    {
        StrAdapterOut<C>                  a;
        configor::basic_oadapterstream<C> os(a);
        J::template dump<C>(os, v, { p.indent, p.prec, p.escape });
        return a.s;
    }
    default:
    {
        BulkAdapterOut<C>                 a;
        configor::basic_oadapterstream<C> os(a);
        J::template dump<C>(os, v, { p.indent, p.prec, p.escape });
        return a.s;
    }
    }
}
template <class J, class C = Ch<J>>
std::basic_string<C> dump_as(const V<J>& v, const DumpOpt& o = DumpOpt())
{
    return dump_via<J, C>(SnkReturn, v, o);
}
}  // namespace vh
