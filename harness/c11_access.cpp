// C11: every way of typed access on values of every kind, against the stored data.
#include "lib.hpp"
#include <deque>
#include <list>
#include <forward_list>
#include <memory>
#include <array>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace vh;

namespace
{
enum Want { No, Yes, Either };  // Either: unspecified, only consistency is checked

template <class C> struct Str16;

// what converting the model to T must give
template <class C, class T, class Enable = void> struct Exp;
template <class C> struct Exp<C, bool>
{
    static Want get(const M& m, bool& t) { if (m.k != M::Bool) return No; t = m.b; return Yes; }
};
template <class C, class T> struct Exp<C, T, typename std::enable_if<std::is_integral<T>::value>::type>
{
    static Want get(const M& m, T& t)
    {
        if (m.k != M::Int) return No;
        t = static_cast<T>(m.i);
        // narrowing is unspecified
        if (sizeof(T) == 8 && std::is_unsigned<T>::value) return Yes;
        return m.i >= static_cast<int64_t>(std::numeric_limits<T>::min()) && (sizeof(T) == 8 || m.i <= static_cast<int64_t>(std::numeric_limits<T>::max())) ? Yes : Either;
    }
};
template <class C, class T> struct Exp<C, T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static Want get(const M& m, T& t)
    {
        if (m.k != M::Flt) return No;
        if (sizeof(T) == 4 && std::fabs(m.f) > 3e38) return Either;
        t = static_cast<T>(m.f);
        return Yes;
    }
};
template <class C> struct Exp<C, std::basic_string<C>>
{
    static Want get(const M& m, std::basic_string<C>& t) { if (m.k != M::Str) return No; t = Enc<C>::put(m.s); return Yes; }
};
template <class C, class Seq> Want exp_seq(const M& m, Seq& t)
{
    using T = typename Seq::value_type;
    t.clear();
    if (m.k == M::Null) return Yes;
    if (m.k == M::Obj && m.o.empty()) return Either;
    if (m.k != M::Arr) return No;
    Want w = Yes;
    for (auto& e : m.a)
    {
        T x{};
        const Want y = Exp<C, T>::get(e, x);
        if (y == No) return No;
        if (y == Either) w = Either;
        t.insert(t.end(), x);
    }
    return w;
}
template <class C, class T> struct Exp<C, std::vector<T>> { static Want get(const M& m, std::vector<T>& t) { return exp_seq<C>(m, t); } };
template <class C, class T> struct Exp<C, std::deque<T>> { static Want get(const M& m, std::deque<T>& t) { return exp_seq<C>(m, t); } };
template <class C, class T> struct Exp<C, std::list<T>> { static Want get(const M& m, std::list<T>& t) { return exp_seq<C>(m, t); } };
template <class C, class T> struct Exp<C, std::set<T>> { static Want get(const M& m, std::set<T>& t) { return exp_seq<C>(m, t); } };
template <class C, class Map> Want exp_map(const M& m, Map& t)
{
    using T = typename Map::mapped_type;
    t.clear();
    if (m.k == M::Null) return Yes;
    if (m.k == M::Arr && m.a.empty()) return Either;
    if (m.k != M::Obj) return No;
    Want w = Yes;
    for (auto& e : m.o)
    {
        T x{};
        const Want y = Exp<C, T>::get(e.second, x);
        if (y == No) return No;
        if (y == Either) w = Either;
        t.emplace(Enc<C>::put(e.first), x);
    }
    return w;
}
template <class C, class T> struct Exp<C, std::map<std::basic_string<C>, T>> { static Want get(const M& m, std::map<std::basic_string<C>, T>& t) { return exp_map<C>(m, t); } };
template <class C, class T> struct Exp<C, std::unordered_map<std::basic_string<C>, T>> { static Want get(const M& m, std::unordered_map<std::basic_string<C>, T>& t) { return exp_map<C>(m, t); } };
template <class C, class T> struct Exp<C, std::shared_ptr<T>>
{
    static Want get(const M& m, std::shared_ptr<T>& t)
    {
        t.reset();
        if (m.k == M::Null) return Yes;
        T x{};
        const Want w = Exp<C, T>::get(m, x);
        if (w == Yes) t = std::make_shared<T>(x);
        return w;
    }
};
template <class T> bool same(const T& a, const T& b) { return a == b; }
template <class T> bool same(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return (!a && !b) || (a && b && *a == *b); }

enum Err { None, TypeErr, LibErr, Other };
template <class F> Err err_of(F f)
{
    try { f(); return None; }
    catch (const Fail&) { throw; }
    catch (const configor::configor_type_error&) { return TypeErr; }
    catch (const configor::configor_exception&) { return LibErr; }
    catch (const std::out_of_range&) { return LibErr; }
    catch (...) { return Other; }
}

template <class J> struct Access
{
    using val = V<J>;
    using C   = Ch<J>;
    Ctx&       ctx;
    val&       v;
    const val& c;
    const M&   m;
    Access(Ctx& x, val& y, const M& z) : ctx(x), v(y), c(y), m(z) {}

    template <class T> void value(const char* name, const T& before, bool simple)
    {
        T          want{};
        const Want w = Exp<C, T>::get(m, want);
        for (int form = 0; form < 3; ++form)
        {
            T         got{};
            const Err e = err_of([&] {
                if (form == 0) got = c.template get<T>();
                else if (form == 1) got = c.template get<const T>();
                else got = static_cast<T>(c.operator T());
            });
            VH_CHECK(e != Other, "value access to " << name << " of " << show(m) << " threw something that is not a library or range error");
            if (w == Yes) VH_CHECK(e == None && same(got, want), "value access to " << name << " of " << show(m) << (e ? " threw" : " gave other data"));
            if (w == No) VH_CHECK(e != None && (!simple || e == TypeErr), "value access to " << name << " of " << show(m) << (e ? " threw another error" : " did not throw"));
            T    t = before;
            bool ok = false;
            const Err e2 = err_of([&] { ok = c.get(t); });
            VH_CHECK(e2 == None, "non-throwing access to " << name << " of " << show(m) << " threw");
            VH_CHECK(ok == (e == None), "non-throwing access to " << name << " of " << show(m) << " reports " << ok);
            if (ok && w == Yes) VH_CHECK(same(t, want), "non-throwing access to " << name << " of " << show(m) << " gave other data");
            if (!ok && simple) VH_CHECK(same(t, before), "failed access to " << name << " of " << show(m) << " changed the target");
            ctx.count(ok ? "accesses_granted" : "accesses_refused");
        }
        ctx.evals(3);
    }

    template <class T> void refs(const char* name, bool mine, const T& other)
    {
        const T* p = c.template get_ptr<const T*>();
        VH_CHECK(c.template get<const T*>() == p && v.template get_ptr<T*>() == p && v.template get<T*>() == p && v.template get_ptr<const T*>() == p && v.template get<const T*>() == p,
                 "pointer accesses to " << name << " of " << show(m) << " disagree");
        VH_CHECK((p != nullptr) == mine, "pointer access to " << name << " of " << show(m) << " gave " << (p ? "a pointer" : "null"));
        const T* q = reinterpret_cast<const T*>(&other);
        VH_CHECK(c.get(q) && q == p, "pointer access by target to " << name << " of " << show(m));
        const T*  r1 = nullptr;
        const T*  r2 = nullptr;
        const T*  r3 = nullptr;
        const Err e1 = err_of([&] { r1 = &c.template get<const T&>(); }), e2 = err_of([&] { r2 = &v.template get<T&>(); }), e3 = err_of([&] { r3 = &v.template get<const T&>(); });
        const Err want = mine ? None : TypeErr;
        VH_CHECK(e1 == want && e2 == want && e3 == want, "reference access to " << name << " of " << show(m) << (mine ? " threw" : " did not throw a type error"));
        if (mine) VH_CHECK(r1 == p && r2 == p && r3 == p, "reference access to " << name << " refers to something else");
        ctx.evals(2);
    }
    // writes through a pointer and a reference show
    template <class T> void writes(const T& x, const T& y)
    {
        *v.template get_ptr<T*>() = x;
        VH_CHECK(c.template get<T>() == x && c.template get<const T&>() == x, "a write through a pointer does not show");
        v.template get<T&>() = y;
        VH_CHECK(c.template get<T>() == y && *c.template get_ptr<const T*>() == y, "a write through a reference does not show");
    }

    void kinds()
    {
        const value_constant::type t[] = { value_constant::null, value_constant::boolean, value_constant::integer, value_constant::floating, value_constant::string, value_constant::array, value_constant::object };
        const M::K                 k[] = { M::Null, M::Bool, M::Int, M::Flt, M::Str, M::Arr, M::Obj };
        const bool is[] = { c.is_null(), c.is_bool(), c.is_integer(), c.is_floating(), c.is_string(), c.is_array(), c.is_object() };
        for (int i = 0; i < 7; ++i)
        {
            VH_CHECK(is[i] == (k[i] == m.k), "type query " << i << " of " << show(m) << " says " << is[i]);
            VH_CHECK((c.type() == t[i]) == (k[i] == m.k), "type() of " << show(m) << " is wrong");
        }
        VH_CHECK(c.is_number() == (m.k == M::Int || m.k == M::Flt), "is_number of " << show(m));
        static const char* names[] = { "null", "boolean", "integer", "float", "string", "array", "object" };
        for (int i = 0; i < 7; ++i)
            if (k[i] == m.k) VH_CHECK(std::string(configor::to_string(c.type())) == names[i], "the type of " << show(m) << " is called " << configor::to_string(c.type()));
    }

    void all()
    {
        kinds();
        value<bool>("bool", ctx.rng.chance(1, 2), true);
        value<signed char>("signed char", 7, true);
        value<unsigned char>("unsigned char", 7, true);
        value<short>("short", -5, true);
        value<unsigned short>("unsigned short", 5, true);
        value<int>("int", 42, true);
        value<unsigned>("unsigned", 42, true);
        value<long>("long", 42, true);
        value<unsigned long>("unsigned long", 42, true);
        value<long long>("long long", 42, true);
        value<float>("float", 1.5f, true);
        value<double>("double", -1.5, true);
        value<long double>("long double", 2.5L, true);
        value<std::basic_string<C>>("string", Enc<C>::put(u("before")), true);
        value<std::vector<int64_t>>("vector of integers", { 1, 2, 3 }, false);
        value<std::vector<bool>>("vector of booleans", { true }, false);
        value<std::vector<std::basic_string<C>>>("vector of strings", {}, false);
        value<std::vector<std::vector<int64_t>>>("vector of vectors", { {}, { 1 } }, false);
        value<std::deque<double>>("deque of floats", { 1.0 }, false);
        value<std::list<int64_t>>("list of integers", { 9 }, false);
        value<std::set<int64_t>>("set of integers", { 9, 10 }, false);
        value<std::map<std::basic_string<C>, int64_t>>("map of integers", { { Enc<C>::put(u("k")), 1 } }, false);
        value<std::map<std::basic_string<C>, std::vector<int64_t>>>("map of vectors", {}, false);
        value<std::unordered_map<std::basic_string<C>, std::basic_string<C>>>("unordered map of strings", {}, false);
        value<std::shared_ptr<int64_t>>("pointer to integer", std::make_shared<int64_t>(3), false);
        value<std::shared_ptr<std::basic_string<C>>>("pointer to string", nullptr, false);
        // the stored containers and the value itself
        {
            typename val::array_type  a, a2{ val(1) };
            const Err e = err_of([&] { a = c.template get<typename val::array_type>(); });
            VH_CHECK((e == None) == (m.k == M::Arr || m.k == M::Null) && (e == None || e == TypeErr), "array access of " << show(m));
            VH_CHECK(c.get(a2) == (e == None), "non-throwing array access of " << show(m));
            if (!e) { VH_CHECK(a == a2, "array accesses of " << show(m) << " disagree"); val t(value_constant::array); t.template get<typename val::array_type&>() = a; const auto d = diff(m.k == M::Null ? M::arr() : m, model<J>(t)); VH_CHECK(d.empty(), "array access: " << d); }
            typename val::object_type o, o2;
            o2[Enc<C>::put(u("z"))] = 1;
            const Err f = err_of([&] { o = c.template get<typename val::object_type>(); });
            VH_CHECK((f == None) == (m.k == M::Obj || m.k == M::Null) && (f == None || f == TypeErr), "object access of " << show(m));
            VH_CHECK(c.get(o2) == (f == None), "non-throwing object access of " << show(m));
            if (!f) { VH_CHECK(o == o2, "object accesses of " << show(m) << " disagree"); val t(value_constant::object); t.template get<typename val::object_type&>() = o; const auto d = diff(m.k == M::Null ? M::obj() : m, model<J>(t)); VH_CHECK(d.empty(), "object access: " << d); }
            val w = 3;
            VH_CHECK(c.get(w), "access to the value itself fails");
            auto d = diff(m, model<J>(w));
            VH_CHECK(d.empty(), "access to the value itself: " << d);
            d = diff(m, model<J>(c.template get<val>()));
            VH_CHECK(d.empty(), "access to the value itself: " << d);
        }
        refs<typename val::boolean_type>("boolean", m.k == M::Bool, true);
        refs<typename val::integer_type>("integer", m.k == M::Int, 0);
        refs<typename val::float_type>("float", m.k == M::Flt, 0);
        refs<typename val::string_type>("string", m.k == M::Str, typename val::string_type());
        refs<typename val::array_type>("array", m.k == M::Arr, typename val::array_type());
        refs<typename val::object_type>("object", m.k == M::Obj, typename val::object_type());
        const auto d = diff(m, model<J>(v));
        VH_CHECK(d.empty(), "typed access changed the value: " << d);
    }
};

M gen(Ctx& ctx)
{
    auto& r = ctx.rng;
    M     m;
    GenOpt g;
    switch (ctx.index % 12)
    {
    case 0: return M::null();
    case 1: return M::boolean(r.chance(1, 2));
    case 2: return M::integer(gen_int(r));
    case 3: { static const int64_t b[] = { 0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, INT32_MAX, int64_t(INT32_MAX) + 1, INT32_MIN, UINT32_MAX, int64_t(UINT32_MAX) + 1, INT64_MAX, INT64_MIN }; return M::integer(r.pick(b)); }
    case 4: return M::flt(gen_dbl(r));
    case 5: return M::str(gen_str(r));
    case 6: case 7: case 8:   // arrays, mostly of one kind, now and then with one stranger
    {
        m = M::arr();
        const u64 k = r.below(4), n = r.below(6), odd = r.chance(1, 3) && n ? r.below(n) : 99;
        for (u64 i = 0; i < n; ++i)
        {
            if (i == odd) { m.a.push_back(gen_value(r, g)); continue; }
            if (k == 0) m.a.push_back(M::integer(gen_int(r)));
            else if (k == 1) m.a.push_back(M::str(gen_str(r)));
            else if (k == 2) m.a.push_back(M::boolean(r.chance(1, 2)));
            else { M y = M::arr(); for (u64 j = r.below(3); j; --j) y.a.push_back(M::integer(gen_int(r))); m.a.push_back(y); }
        }
        return m;
    }
    case 9: case 10:
    {
        m = M::obj();
        const u64 k = r.below(3), n = r.below(6), odd = r.chance(1, 3) && n ? r.below(n) : 99;
        for (u64 i = 0; i < n; ++i)
        {
            M& y = m.member(gen_key(r));
            if (i == odd) y = gen_value(r, g);
            else if (k == 0) y = M::integer(gen_int(r));
            else if (k == 1) y = M::str(gen_str(r));
            else { y = M::arr(); for (u64 j = r.below(3); j; --j) y.a.push_back(M::integer(gen_int(r))); }
        }
        return m;
    }
    default: g.depth = 4; return gen_value(r, g);
    }
}

template <class J> void access_case(Ctx& ctx)
{
    const M m = gen(ctx);
    ctx.seen(hash_m(m));
    auto      v = build<J>(m, &ctx.rng);
    Access<J> a(ctx, v, m);
    a.all();
    if (ctx.want_sample()) ctx.sample(show(m));
    // elements are accessed through their parents alike
    if (m.k == M::Arr && !m.a.empty())
    {
        const size_t i = ctx.rng.below(m.a.size());
        Access<J>    b(ctx, v[i], m.a[i]);
        b.all();
    }
    if (m.k == M::Obj && !m.o.empty())
    {
        const auto& e = m.o[ctx.rng.below(m.o.size())];
        Access<J>   b(ctx, v[Enc<Ch<J>>::put(e.first)], e.second);
        b.all();
    }
    const auto d = diff(m, model<J>(v));
    VH_CHECK(d.empty(), "typed access changed the value: " << d);
    // writes
    using val = V<J>;
    switch (m.k)
    {
    case M::Bool: a.template writes<typename val::boolean_type>(!m.b, m.b); break;
    case M::Int: a.template writes<typename val::integer_type>(INT64_MIN, 12); break;
    case M::Flt: a.template writes<typename val::float_type>(-0.5, 1e300); break;
    case M::Str: a.template writes<typename val::string_type>(Enc<Ch<J>>::put(u("x")), typename val::string_type(500, Ch<J>('y'))); break;
    case M::Arr: { typename val::array_type x{ val(1), val(nullptr) }, y; a.template writes<typename val::array_type>(x, y); a.template writes<typename val::array_type>(y, x); break; }
    case M::Obj: { typename val::object_type x, y; x[Enc<Ch<J>>::put(u("n"))] = val(true); a.template writes<typename val::object_type>(x, y); a.template writes<typename val::object_type>(y, x); break; }
    default: break;
    }
}
}  // namespace

VH_PART(access, 12000, 480000)
{
    if (ctx.index % 2) access_case<json>(ctx);
    else { ctx.index /= 2; access_case<wjson>(ctx); }
}
