// C13: C++ data of every supported type converted to a value, compared with an independent description, and converted back
// into fresh and into used targets.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <unordered_map>
#include <unordered_set>
using namespace vh;

// The types are compiled in groups (VH_GROUP 0 to 6), which the check builds side by side.
#ifndef VH_GROUP
#define VH_GROUP -1
#endif
#define VH_IN(g) (VH_GROUP == -1 || VH_GROUP == g)
#if VH_GROUP == -1
#define VH_FIRST 0
#define VH_COUNT 60
#elif VH_GROUP == 4
#define VH_FIRST 36
#define VH_COUNT 8
#elif VH_GROUP == 5
#define VH_FIRST 44
#define VH_COUNT 8
#elif VH_GROUP == 6
#define VH_FIRST 52
#define VH_COUNT 8
#else
#define VH_FIRST (VH_GROUP * 9)
#define VH_COUNT 9
#endif

namespace
{
size_t some_size(Rng& r, int depth)
{
    if (depth > 1) return r.below(4);
    switch (r.below(8))
    {
    case 0: return 0;
    case 1: return 1;
    case 2: return std::min<size_t>(kSizes[r.below(kNumSizes)], depth ? 17 : 1025);
    default: return r.below(12);
    }
}

// D<T>: generator of data, what it must become, equality
template <class C, class T, class E = void> struct D;
template <class C> struct D<C, bool>
{
    static bool gen(Rng& r, int) { return r.chance(1, 2); }
    static M m(bool x) { return M::boolean(x); }
    static bool eq(bool a, bool b) { return a == b; }
};
template <class C, class T> struct D<C, T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
{
    static T gen(Rng& r, int)
    {
        switch (r.below(6))
        {
        case 0: return std::numeric_limits<T>::max();
        case 1: return std::numeric_limits<T>::min();
        case 2: return T(0);
        case 3: return T(r.below(100));
        default: return static_cast<T>(r.next());
        }
    }
    static M m(T x) { return M::integer(static_cast<int64_t>(x)); }
    static bool eq(T a, T b) { return a == b; }
};
template <class C, class T> struct D<C, T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static T gen(Rng& r, int)
    {
        double d = gen_dbl(r);
        if (sizeof(T) == 4 && std::fabs(d) > 3e38) d = 1.25;
        return static_cast<T>(d);
    }
    static M m(T x) { return M::flt(static_cast<double>(x)); }
    static bool eq(T a, T b) { return a == b; }
};
template <class C> struct D<C, std::basic_string<C>>
{
    static std::basic_string<C> gen(Rng& r, int d) { return Enc<C>::put(d ? gen_key(r) : gen_str(r)); }
    static M m(const std::basic_string<C>& x) { return M::str(decode_lossless(x)); }
    static bool eq(const std::basic_string<C>& a, const std::basic_string<C>& b) { return a == b; }
};
template <class C, class Q> struct DSeq
{
    using T = typename Q::value_type;
    static Q gen(Rng& r, int d)
    {
        Q q;
        for (size_t n = some_size(r, d); n; --n) q.insert(q.end(), D<C, T>::gen(r, d + 1));
        return q;
    }
    static M m(const Q& q) { M x = M::arr(); for (const auto& e : q) x.a.push_back(D<C, T>::m(e)); return x; }
    static bool eq(const Q& a, const Q& b)
    {
        if (a.size() != b.size()) return false;
        auto j = b.begin();
        for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!D<C, T>::eq(*i, *j)) return false;
        return true;
    }
};
template <class C, class T> struct D<C, std::vector<T>> : DSeq<C, std::vector<T>> {};
template <class C, class T> struct D<C, std::deque<T>> : DSeq<C, std::deque<T>> {};
template <class C, class T> struct D<C, std::list<T>> : DSeq<C, std::list<T>> {};
template <class C, class T> struct D<C, std::set<T>> : DSeq<C, std::set<T>> {};
// elements in any order
template <class C, class T> struct D<C, std::unordered_set<T>> : DSeq<C, std::unordered_set<T>>
{
    static bool eq(const std::unordered_set<T>& a, const std::unordered_set<T>& b) { return a == b; }
};
template <class C> struct D<C, std::vector<bool>>
{
    using Q = std::vector<bool>;
    static Q gen(Rng& r, int d) { Q q; for (size_t n = some_size(r, d); n; --n) q.push_back(r.chance(1, 2)); return q; }
    static M m(const Q& q) { M x = M::arr(); for (bool e : q) x.a.push_back(M::boolean(e)); return x; }
    static bool eq(const Q& a, const Q& b) { return a == b; }
};
template <class C, class T> struct D<C, std::forward_list<T>>
{
    using Q = std::forward_list<T>;
    static Q gen(Rng& r, int d) { Q q; for (size_t n = some_size(r, d); n; --n) q.push_front(D<C, T>::gen(r, d + 1)); return q; }
    static M m(const Q& q) { M x = M::arr(); for (const auto& e : q) x.a.push_back(D<C, T>::m(e)); return x; }
    static bool eq(const Q& a, const Q& b)
    {
        auto i = a.begin();
        auto j = b.begin();
        for (; i != a.end() && j != b.end(); ++i, ++j) if (!D<C, T>::eq(*i, *j)) return false;
        return i == a.end() && j == b.end();
    }
};
template <class C, class T, size_t N> struct D<C, std::array<T, N>>
{
    using Q = std::array<T, N>;
    static Q gen(Rng& r, int d) { Q q; for (auto& e : q) e = D<C, T>::gen(r, d + 1); return q; }
    static M m(const Q& q) { M x = M::arr(); for (const auto& e : q) x.a.push_back(D<C, T>::m(e)); return x; }
    static bool eq(const Q& a, const Q& b) { for (size_t i = 0; i < N; ++i) if (!D<C, T>::eq(a[i], b[i])) return false; return true; }
};
template <class C, class Q> struct DMap
{
    using T = typename Q::mapped_type;
    static Q gen(Rng& r, int d) { Q q; for (size_t n = some_size(r, d); n; --n) q.emplace(Enc<C>::put(gen_key(r)), D<C, T>::gen(r, d + 1)); return q; }
    static M m(const Q& q) { M x = M::obj(); for (const auto& e : q) x.o.emplace_back(decode_lossless(e.first), D<C, T>::m(e.second)); return x; }
    static bool eq(const Q& a, const Q& b)
    {
        if (a.size() != b.size()) return false;
        for (const auto& e : a) { auto i = b.find(e.first); if (i == b.end() || !D<C, T>::eq(e.second, i->second)) return false; }
        return true;
    }
};
template <class C, class T> struct D<C, std::map<std::basic_string<C>, T>> : DMap<C, std::map<std::basic_string<C>, T>> {};
template <class C, class T> struct D<C, std::unordered_map<std::basic_string<C>, T>> : DMap<C, std::unordered_map<std::basic_string<C>, T>> {};
template <class C, class P> struct DPtr
{
    using T = typename P::element_type;
    static P gen(Rng& r, int d) { return r.chance(1, 4) ? P() : P(new T(D<C, T>::gen(r, d + 1))); }
    static M m(const P& p) { return p ? D<C, T>::m(*p) : M::null(); }
    static bool eq(const P& a, const P& b) { return (!a && !b) || (a && b && D<C, T>::eq(*a, *b)); }
};
template <class C, class T> struct D<C, std::shared_ptr<T>> : DPtr<C, std::shared_ptr<T>> {};
template <class C, class T> struct D<C, std::unique_ptr<T>> : DPtr<C, std::unique_ptr<T>> {};


#if VH_IN(6)
// types of the user's own: a binder that returns data (there is no default constructor), a binder that fills data,
// functions beside the type, and a type that is made from strings and gives strings
namespace own
{
template <class C> class Driver
{
    friend configor::value_binder<Driver>;
    std::basic_string<C> name_;
    int64_t              license_;

public:
    Driver(const std::basic_string<C>& n, int64_t l) : name_(n), license_(l) {}
    const std::basic_string<C>& name() const { return name_; }
    int64_t                     license() const { return license_; }
    friend bool operator==(const Driver& a, const Driver& b) { return a.name_ == b.name_ && a.license_ == b.license_; }
};
template <class C> class Passenger
{
    friend configor::value_binder<Passenger>;
    std::basic_string<C>                 name_;
    std::vector<int>                     seats_;
    std::shared_ptr<Driver<C>>           knows_;

public:
    Passenger() = default;
    Passenger(const std::basic_string<C>& n, const std::vector<int>& s, std::shared_ptr<Driver<C>> k) : name_(n), seats_(s), knows_(k) {}
    const std::basic_string<C>&       name() const { return name_; }
    const std::vector<int>&           seats() const { return seats_; }
    const std::shared_ptr<Driver<C>>& knows() const { return knows_; }
};
template <class C> struct Point
{
    int x, y;
    template <class Val> friend void to_value(Val& v, const Point& p)
    {
        v[size_t(0)] = p.x;
        v[size_t(1)] = p.y;
    }
    template <class Val> friend void from_value(const Val& v, Point& p)
    {
        if (!v.is_array() || v.size() != 2) throw configor::configor_type_error("a point is a pair");
        p.x = v[size_t(0)].template get<int>();
        p.y = v[size_t(1)].template get<int>();
    }
};
enum class Colour { Red, Green, Blue };
template <class Val> void to_value(Val& v, Colour c) { v = static_cast<int>(c); }
template <class Val> void from_value(const Val& v, Colour& c)
{
    const int i = v.template get<int>();
    if (i < 0 || i > 2) throw configor::configor_type_error("no such colour");
    c = static_cast<Colour>(i);
}
template <class C> class Tag
{
    std::basic_string<C> s_;

public:
    Tag() = default;
    Tag(const std::basic_string<C>& s) : s_(s) {}
    operator std::basic_string<C>() const { return s_; }
    const std::basic_string<C>& s() const { return s_; }
};
}  // namespace own
}  // namespace
namespace configor
{
template <class C> struct value_binder<own::Driver<C>>
{
    template <class Val> static void to_value(Val& v, const own::Driver<C>& d)
    {
        v[vh::Enc<C>::put(u("name"))] = d.name_;
        v[vh::Enc<C>::put(u("license"))] = d.license_;
    }
    template <class Val> static own::Driver<C> from_value(const Val& v)
    {
        return own::Driver<C>(v[vh::Enc<C>::put(u("name"))].template get<std::basic_string<C>>(), v[vh::Enc<C>::put(u("license"))].template get<int64_t>());
    }
};
template <class C> struct value_binder<own::Passenger<C>>
{
    template <class Val> static void to_value(Val& v, const own::Passenger<C>& p)
    {
        v[vh::Enc<C>::put(u("name"))] = p.name_;
        v[vh::Enc<C>::put(u("seats"))] = p.seats_;
        v[vh::Enc<C>::put(u("knows"))] = p.knows_;
    }
    template <class Val> static void from_value(const Val& v, own::Passenger<C>& p)
    {
        v[vh::Enc<C>::put(u("name"))].get(p.name_);
        v[vh::Enc<C>::put(u("seats"))].get(p.seats_);
        v[vh::Enc<C>::put(u("knows"))].get(p.knows_);
    }
};
}  // namespace configor
namespace
{
template <class C> struct D<C, own::Driver<C>>
{
    using Q = own::Driver<C>;
    static Q gen(Rng& r, int) { auto n = Enc<C>::put(gen_str(r)); return Q(n, int64_t(r.next())); }
    static M m(const Q& q) { M x = M::obj(); x.member(u("name")) = M::str(decode_lossless(q.name())); x.member(u("license")) = M::integer(q.license()); return x; }
    static bool eq(const Q& a, const Q& b) { return a == b; }
};
template <class C> struct D<C, own::Passenger<C>>
{
    using Q = own::Passenger<C>;
    static Q gen(Rng& r, int d) { auto n = Enc<C>::put(gen_str(r)); auto s = D<C, std::vector<int>>::gen(r, d + 1); return Q(n, s, D<C, std::shared_ptr<own::Driver<C>>>::gen(r, d + 1)); }
    static M m(const Q& q)
    {
        M x = M::obj();
        x.member(u("name")) = M::str(decode_lossless(q.name()));
        x.member(u("seats")) = D<C, std::vector<int>>::m(q.seats());
        x.member(u("knows")) = D<C, std::shared_ptr<own::Driver<C>>>::m(q.knows());
        return x;
    }
    static bool eq(const Q& a, const Q& b) { return a.name() == b.name() && a.seats() == b.seats() && D<C, std::shared_ptr<own::Driver<C>>>::eq(a.knows(), b.knows()); }
};
template <class C> struct D<C, own::Point<C>>
{
    using Q = own::Point<C>;
    static Q gen(Rng& r, int) { Q q; q.x = int(r.next()); q.y = int(r.below(9)); return q; }
    static M m(const Q& q) { M x = M::arr(); x.a = { M::integer(q.x), M::integer(q.y) }; return x; }
    static bool eq(const Q& a, const Q& b) { return a.x == b.x && a.y == b.y; }
};
template <class C> struct D<C, own::Colour>
{
    static own::Colour gen(Rng& r, int) { return static_cast<own::Colour>(r.below(3)); }
    static M m(own::Colour c) { return M::integer(int(c)); }
    static bool eq(own::Colour a, own::Colour b) { return a == b; }
};
template <class C> struct D<C, own::Tag<C>>
{
    using Q = own::Tag<C>;
    static Q gen(Rng& r, int) { return Q(Enc<C>::put(gen_str(r))); }
    static M m(const Q& q) { return M::str(decode_lossless(q.s())); }
    static bool eq(const Q& a, const Q& b) { return a.s() == b.s(); }
};
#endif

// sorts the elements of arrays that come from unordered sets
M canon(M m, bool unordered)
{
    for (auto& e : m.a) e = canon(e, unordered);
    for (auto& e : m.o) e.second = canon(e.second, unordered);
    if (unordered && m.k == M::Arr) std::sort(m.a.begin(), m.a.end(), [](const M& x, const M& y) { return hash_m(x) < hash_m(y); });
    return m;
}

template <class F> void must_refuse(F f, const std::string& what)
{
    bool thrown = false;
    try { f(); }
    catch (const configor::configor_exception&) { thrown = true; }
    catch (const std::out_of_range&) { thrown = true; }
    catch (const std::exception& e) { VH_FAIL(what << " threw something that is not a library or range error: " << e.what()); }
    VH_CHECK(thrown, what << " produced data");
}

template <class T> bool nullable(const std::shared_ptr<T>*) { return true; }
template <class T> bool nullable(const std::unique_ptr<T>*) { return true; }
inline bool             nullable(const void*) { return false; }

// through the library's functions where they know the type, through the type's own binder otherwise
template <class W, class T> auto call_to(W& w, const T& x, int) -> decltype(configor::to_value(w, x)) { configor::to_value(w, x); }
template <class W, class T> void call_to(W& w, const T& x, long) { w = W(); W::template binder_type<T>::to_value(w, x); }
template <class W, class T> auto call_from(const W& w, T& x, int) -> decltype(configor::from_value(w, x)) { configor::from_value(w, x); }
template <class W, class T> auto call_from(const W& w, T& x, long) -> decltype(W::template binder_type<T>::from_value(w, x)) { W::template binder_type<T>::from_value(w, x); }
template <class W, class T> void call_from(const W& w, T& x, ...) { x = W::template binder_type<T>::from_value(w); }
template <class T> struct FillsOnly : std::false_type {};  // the type's own function adds to what a value holds
#if VH_IN(6)
template <class C> struct FillsOnly<own::Point<C>> : std::true_type {};
#endif

// fits: whether a value of this kind may be converted to T at all (null and empty containers aside)
enum Shape { Scalar, Seq, Dict };

template <class J, class T>
void there_and_back(Ctx& ctx, const char* name, M::K kind, Shape shape, bool unordered = false)
{
    using val = V<J>;
    using C   = Ch<J>;
    using G   = D<C, T>;
    auto&   r = ctx.rng;
    const T x = G::gen(r, 0);
    const M m = canon(G::m(x), unordered);
    ctx.seen(hash_m(m) ^ hash_bytes(name, strlen(name)));
    auto is = [&](const val& v, const char* what) {
        const auto d = diff(m, canon(model<J>(v), unordered));
        VH_CHECK(d.empty(), name << " " << what << ": " << d);
    };
    const val v(x);
    is(v, "constructed");
    // into values that hold other things
    GenOpt g;
    val    w = build<J>(gen_value(r, g), &r);
    w        = x;
    is(w, "assigned");
    val z = build<J>(gen_value(r, g), &r);
    if (FillsOnly<T>::value) z = nullptr;
    call_to(z, x, 0);
    is(z, "converted into a used value");
    val a;
    a.push_back(val(1));
    a.push_back(x);
    a[size_t(3)] = x;
    is(a[size_t(1)], "appended");
    is(a[size_t(3)], "assigned to an element");
    // back
    VH_CHECK(G::eq(x, v.template get<T>()), name << " converted back differs: " << show(m));
    for (int i = 0; i < 3; ++i)
    {
        T t = G::gen(r, 0);
        if (i == 0) { VH_CHECK(v.get(t), name << " cannot be converted back into a used target"); }
        else if (i == 1) call_from(v, t, 0);
        else t = v.template get<T>();
        VH_CHECK(G::eq(x, t), name << " converted back into a used target differs: " << show(m));
    }
    is(v, "after converting back");
    // through text
    if (ctx.rng.chance(1, 8) && kind != M::Flt && !unordered)
    {
        const val p = J::template parse<C>(J::template dump<C>(v));
        bool floats = false;
        std::function<void(const M&)> scan = [&](const M& y) { floats |= y.k == M::Flt; for (auto& e : y.a) scan(e); for (auto& e : y.o) scan(e.second); };
        scan(m);
        if (!floats) VH_CHECK(G::eq(x, p.template get<T>()), name << " through text differs: " << show(m));
    }
    // values of the wrong kind, into nothing and into a target that holds something
    auto refuse = [&](const val& q, const std::string& what) {
        must_refuse([&] { (void)q.template get<T>(); }, what);
        T t = G::gen(r, 0), u = G::gen(r, 0);
        VH_CHECK(!q.get(t), what << " (into a used target) said that it did");
        must_refuse([&] { call_from(q, u, 0); }, what + " (into a used target)");
    };
    // values of the wrong kind
    if (shape == Scalar && !nullable(static_cast<T*>(nullptr)))
    {
        const val q;
        refuse(q, S() << "converting null to " << name);
    }
    const M wrong[] = { M::boolean(true), M::integer(5), M::flt(2.5), M::str(u("text")) };
    for (auto& y : wrong)
    {
        if (shape == Scalar && y.k == kind) continue;
        const val q = build<J>(y);
        refuse(q, S() << "converting " << show(y) << " to " << name);
    }
    M one = M::arr(), mem = M::obj();
    one.a.push_back(M::integer(1));
    mem.member(u("a")) = M::integer(1);
    if (shape != Seq) { const val q = build<J>(one); refuse(q, S() << "converting an array to " << name); }
    if (shape != Dict) { const val q = build<J>(mem); refuse(q, S() << "converting an object to " << name); }
    // one element of the wrong kind, anywhere (arrays where numbers or strings belong)
    if (shape != Scalar && !m.a.empty() && m.a[0].k != M::Obj)
    {
        M bad = m;
        const size_t at = r.below(bad.a.size());
        bad.a[at] = mem;
        const val q = build<J>(bad);
        if (m.a[at].k != M::Null) refuse(q, S() << "converting an array with a stranger to " << name);
    }
    ctx.evals(14);
}
// null and smart pointers, null and containers
template <class J, class T> void null_to_empty(const char* name)
{
    const V<J> v;
    T          t = v.template get<T>();
    VH_CHECK(t == T(), name << " from null is not empty");
}

template <class J> void by_type(Ctx& ctx, u64 k)
{
    using C  = Ch<J>;
    using S_ = std::basic_string<C>;
#define T2(kind, shape, ...) there_and_back<J, __VA_ARGS__>(ctx, #__VA_ARGS__, M::kind, shape)
    switch (k % 60)
    {
#if VH_IN(0)
    case 0: T2(Bool, Scalar, bool); break;
    case 1: T2(Int, Scalar, signed char); T2(Int, Scalar, char); break;
    case 2: T2(Int, Scalar, unsigned char); break;
    case 3: T2(Int, Scalar, short); T2(Int, Scalar, unsigned short); break;
    case 4: T2(Int, Scalar, int); T2(Int, Scalar, unsigned); break;
    case 5: T2(Int, Scalar, long); T2(Int, Scalar, unsigned long); break;
    case 6: T2(Int, Scalar, long long); T2(Int, Scalar, unsigned long long); break;
    case 7: T2(Int, Scalar, char16_t); T2(Int, Scalar, char32_t); break;
    case 8: T2(Flt, Scalar, float); T2(Flt, Scalar, double); T2(Flt, Scalar, long double); break;
#endif
#if VH_IN(1)
    case 9: T2(Str, Scalar, S_); break;
    case 10: T2(Arr, Seq, std::vector<int>); break;
    case 11: T2(Arr, Seq, std::vector<bool>); break;
    case 12: T2(Arr, Seq, std::vector<S_>); break;
    case 13: T2(Arr, Seq, std::vector<double>); break;
    case 14: T2(Arr, Seq, std::vector<std::vector<int64_t>>); break;
    case 15: T2(Arr, Seq, std::deque<unsigned>); break;
    case 16: T2(Arr, Seq, std::deque<S_>); break;
    case 17: T2(Arr, Seq, std::list<long>); break;
#endif
#if VH_IN(2)
    case 18: T2(Arr, Seq, std::list<std::deque<bool>>); break;
    case 19: T2(Arr, Seq, std::forward_list<int>); break;
    case 20: T2(Arr, Seq, std::forward_list<S_>); break;
    case 21: T2(Arr, Seq, std::set<int>); break;
    case 22: T2(Arr, Seq, std::set<S_>); break;
    case 23: T2(Arr, Seq, std::set<std::vector<int>>); break;
    case 24: there_and_back<J, std::unordered_set<int64_t>>(ctx, "unordered set of integers", M::Arr, Seq, true); break;
    case 25: there_and_back<J, std::unordered_set<S_>>(ctx, "unordered set of strings", M::Arr, Seq, true); break;
    case 26: T2(Obj, Dict, std::map<S_, int>); break;
#endif
#if VH_IN(3)
    case 27: T2(Obj, Dict, std::map<S_, S_>); break;
    case 28: T2(Obj, Dict, std::map<S_, std::map<S_, std::vector<bool>>>); break;
    case 29: T2(Obj, Dict, std::unordered_map<S_, int64_t>); break;
    case 30: T2(Obj, Dict, std::unordered_map<S_, std::list<double>>); break;
    case 31: T2(Arr, Seq, std::vector<std::map<S_, int>>); break;
    case 32: T2(Arr, Seq, std::vector<std::shared_ptr<S_>>); break;
    case 33: T2(Int, Scalar, std::shared_ptr<int64_t>); T2(Str, Scalar, std::shared_ptr<S_>); break;
    case 34: T2(Int, Scalar, std::unique_ptr<int>); T2(Str, Scalar, std::unique_ptr<S_>); break;
    case 35: T2(Arr, Seq, std::unique_ptr<std::vector<int>>); break;
#endif
#if VH_IN(5)
    case 44: T2(Obj, Dict, std::unordered_map<S_, std::shared_ptr<int>>); break;
    case 45: T2(Obj, Dict, std::map<S_, std::unique_ptr<S_>>); break;
    case 46: T2(Arr, Seq, std::vector<std::unique_ptr<int>>); break;
    case 47: T2(Arr, Seq, std::list<std::shared_ptr<std::vector<int>>>); break;
    case 48: T2(Arr, Seq, std::deque<std::unique_ptr<S_>>); break;
    case 49: T2(Arr, Seq, std::forward_list<std::shared_ptr<bool>>); break;
    case 50: T2(Arr, Seq, std::array<std::shared_ptr<double>, 4>); break;
    case 51: T2(Obj, Dict, std::unordered_map<S_, std::unique_ptr<std::unordered_map<S_, bool>>>); break;
#endif
#if VH_IN(6)
    case 52: T2(Obj, Dict, own::Driver<C>); break;
    case 53: T2(Obj, Dict, own::Passenger<C>); break;
    case 54: T2(Obj, Dict, std::unique_ptr<own::Driver<C>>); T2(Obj, Dict, std::shared_ptr<own::Passenger<C>>); break;
    case 55: T2(Arr, Seq, std::list<own::Driver<C>>); break;
    case 56: T2(Obj, Dict, std::map<S_, own::Driver<C>>); T2(Obj, Dict, std::unordered_map<S_, std::shared_ptr<own::Passenger<C>>>); break;
    case 57: T2(Arr, Seq, std::vector<std::shared_ptr<own::Passenger<C>>>); T2(Arr, Seq, std::forward_list<own::Driver<C>>); break;
    case 58: T2(Arr, Seq, own::Point<C>); T2(Arr, Seq, std::deque<own::Point<C>>); T2(Int, Scalar, own::Colour); break;
    case 59: T2(Str, Scalar, own::Tag<C>); T2(Arr, Seq, std::vector<own::Tag<C>>); T2(Obj, Dict, std::map<S_, own::Colour>); break;
#endif
#if VH_IN(4)
    case 36: T2(Obj, Dict, std::shared_ptr<std::map<S_, std::shared_ptr<int>>>); break;
    case 37: T2(Arr, Seq, std::array<int, 1>); T2(Arr, Seq, std::array<S_, 5>); break;
    case 38: T2(Arr, Seq, std::array<std::array<double, 2>, 3>); break;
    case 39: T2(Arr, Seq, std::array<std::vector<int>, 17>); break;
    case 40: T2(Arr, Seq, std::list<std::forward_list<std::set<int>>>); break;
    case 41: T2(Arr, Seq, std::vector<std::array<bool, 4>>); break;
    case 42: T2(Arr, Seq, std::deque<std::unordered_map<S_, S_>>); break;
    default:
        null_to_empty<J, std::vector<int>>("vector");
        null_to_empty<J, std::deque<S_>>("deque");
        null_to_empty<J, std::list<int>>("list");
        null_to_empty<J, std::forward_list<int>>("forward list");
        null_to_empty<J, std::set<S_>>("set");
        null_to_empty<J, std::unordered_set<int>>("unordered set");
        null_to_empty<J, std::map<S_, int>>("map");
        null_to_empty<J, std::unordered_map<S_, int>>("unordered map");
        null_to_empty<J, std::shared_ptr<int>>("shared pointer");
        null_to_empty<J, std::unique_ptr<S_>>("unique pointer");
        break;
#else
    default: break;
#endif
    }
}
}  // namespace

VH_PART(types, VH_COUNT * 128, VH_COUNT * 4000)
{
    const Rng saved = ctx.rng;
    check_no_leak("converting data", [&] {
        ctx.rng = saved;
        const u64 k = VH_FIRST + ctx.index % VH_COUNT;
        if (ctx.index / VH_COUNT % 2) by_type<json>(ctx, k);
        else by_type<wjson>(ctx, k);
    });
}

#if VH_IN(4)
// C arrays, character arrays and pointers, and values inside containers
VH_PART(arrays, 1200, 24000)
{
    auto& r = ctx.rng;
    int         a[7], b[7];
    double      f[1] = { gen_dbl(r) }, fb[1];
    std::string s[3] = { to8(gen_str(r)), to8(gen_str(r)), to8(gen_str(r)) }, sb[3];
    bool        t[2] = { r.chance(1, 2), r.chance(1, 2) }, tb[2];
    for (auto& x : a) x = int(r.next());
    ctx.seen(hash_str(s[0]) ^ u64(a[0]));
    for (auto& x : b) x = 77;
    json::value v(a);
    VH_CHECK(v.is_array() && v.size() == 7 && v.get(b), "a C array of integers does not become an array of its size");
    for (int i = 0; i < 7; ++i) VH_CHECK(v[size_t(i)] == a[i] && b[i] == a[i], "element " << i << " of a C array");
    v = f;
    VH_CHECK(v.size() == 1 && v.get(fb) && fb[0] == f[0] && v[size_t(0)].is_floating(), "a C array of floats");
    v = s;
    VH_CHECK(v.size() == 3 && v.get(sb) && sb[0] == s[0] && sb[1] == s[1] && sb[2] == s[2], "a C array of strings");
    v = t;
    VH_CHECK(v.size() == 2 && v.get(tb) && tb[0] == t[0] && tb[1] == t[1], "a C array of booleans");
    int m[2][3] = { { a[0], a[1], a[2] }, { a[3], a[4], a[5] } };
    v = m;
    VH_CHECK(v.size() == 2 && v[size_t(1)].size() == 3 && v[size_t(1)][size_t(2)] == a[5], "an array of C arrays");
    // characters
    std::string z;
    for (u64 n = r.below(30); n; --n) z += char(1 + r.below(126));
    char buf[40];
    memset(buf, 'q', sizeof buf);
    memcpy(buf, z.c_str(), z.size() + 1);
    v = buf;
    VH_CHECK(v.is_string() && v.get<std::string>() == z, "a character array");
    const char* p = buf;
    v = p;
    VH_CHECK(v.is_string() && v.get<std::string>() == z, "a C string");
    json::value l("literal"), n(nullptr);
    VH_CHECK(l.is_string() && l.get<std::string>() == "literal" && n.is_null(), "literals");
    std::wstring wz(z.begin(), z.end());
    wjson::value w(wz.c_str());
    VH_CHECK(w.is_string() && w.get<std::wstring>() == wz, "a wide C string");
    w = wz;
    VH_CHECK(w.is_string() && w.get<std::wstring>() == wz, "a wide string");
    w = std::wstring(wz);
    VH_CHECK(w.is_string() && w.get<std::wstring>() == wz, "a wide temporary");
    // containers of values
    GenOpt g;
    const M x = gen_value(r, g), y = gen_value(r, g);
    std::vector<json::value> vv{ build<json>(x), build<json>(y) };
    json::value              vx(vv);
    M                        e = M::arr();
    e.a = { x, y };
    auto d = diff(e, model<json>(vx));
    VH_CHECK(d.empty(), "a vector of values: " << d);
    VH_CHECK(vx.get<std::vector<json::value>>() == vv, "a vector of values back");
    std::map<std::string, json::value> mv{ { "x", build<json>(x) }, { "y", build<json>(y) } };
    vx = mv;
    e = M::obj();
    e.member(u("x")) = x;
    e.member(u("y")) = y;
    d = diff(e, model<json>(vx));
    VH_CHECK(d.empty(), "a map of values: " << d);
    auto mb = vx.get<std::map<std::string, json::value>>();
    VH_CHECK(mb == mv, "a map of values back");
    std::shared_ptr<json::value> none;
    (void)none;
    // arrays that are shorter or longer than the C array: what both have is read, nothing else is touched
    {
        const size_t n = r.below(20);
        json::value  q;
        for (size_t i = 0; i < n; ++i) q.push_back(json::value(int(i) + 100));
        if (n)
        {
            std::unique_ptr<int[][7]> hp(new int[1][7]);
            std::unique_ptr<std::array<int, 5>> ha(new std::array<int, 5>);
            for (auto& e : hp[0]) e = 55;
            ha->fill(56);
            q.get(hp[0]);
            q.get(*ha);
            for (size_t i = 0; i < 7; ++i) VH_CHECK(hp[0][i] == (i < n ? int(i) + 100 : 55), "element " << i << " of a C array of 7 from an array of " << n);
            for (size_t i = 0; i < 5; ++i) VH_CHECK((*ha)[i] == (i < n ? int(i) + 100 : 56), "element " << i << " of a std::array of 5 from an array of " << n);
        }
    }
    // wrong kinds for C arrays
    for (auto& q : { json::value(1), json::value("x"), json::value(true), json::value(2.5) })
    {
        b[0] = 99;
        VH_CHECK(!q.get(b), "a scalar was converted to a C array");
    }
    ctx.evals(15);
}

// a shared pointer that is read into gets an object of its own, what it pointed to before belongs to others too
template <class J, class T> void sharing(Ctx& ctx)
{
    using C = Ch<J>;
    using G = D<C, T>;
    auto&   r = ctx.rng;
    const T x = G::gen(r, 0), y = G::gen(r, 0), z = G::gen(r, 0);
    ctx.seen(hash_m(G::m(x)));
    const V<J> v(x);
    auto p = std::make_shared<T>(y), q = p;
    switch (r.below(3))
    {
    case 0: VH_CHECK(v.get(p), "a shared pointer cannot be read"); break;
    case 1: configor::from_value(v, p); break;
    default: p = v.template get<std::shared_ptr<T>>(); break;
    }
    VH_CHECK(G::eq(*p, x), "a shared pointer reads as something else");
    VH_CHECK(G::eq(*q, y), "reading into a shared pointer changes the object another one holds");
    // containers of pointers that share one object
    V<J> a;
    a.push_back(V<J>(x));
    a.push_back(V<J>(z));
    std::vector<std::shared_ptr<T>> s(2, q);
    VH_CHECK(a.get(s) && s.size() == 2 && s[0] && s[1], "shared pointers in a vector cannot be read");
    VH_CHECK(G::eq(*s[0], x) && G::eq(*s[1], z), "shared pointers in a vector that shared an object read as something else");
    VH_CHECK(G::eq(*q, y), "reading into a vector of shared pointers changes the object another one holds");
    std::map<std::basic_string<C>, std::shared_ptr<T>> mp;
    mp.emplace(Enc<C>::put(u("a")), q);
    mp.emplace(Enc<C>::put(u("b")), q);
    V<J> o;
    o[Enc<C>::put(u("b"))] = x;
    o[Enc<C>::put(u("c"))] = z;
    VH_CHECK(o.get(mp) && mp.size() == 2, "shared pointers in a map cannot be read");
    VH_CHECK(G::eq(*mp[Enc<C>::put(u("b"))], x) && G::eq(*mp[Enc<C>::put(u("c"))], z) && G::eq(*q, y), "shared pointers in a map");
    // two pointers to one object write two data
    s.assign(2, q);
    const V<J> w(s);
    VH_CHECK(w.is_array() && w.size() == 2 && diff(G::m(y), model<J>(w[size_t(0)])).empty() && diff(G::m(y), model<J>(w[size_t(1)])).empty(), "two pointers to one object");
    // null empties, without touching the others
    const V<J> n;
    VH_CHECK(n.get(p) && !p && G::eq(*q, y), "null read into a shared pointer");
    std::unique_ptr<T> u1(new T(y));
    VH_CHECK(v.get(u1) && u1 && G::eq(*u1, x), "reading into a used unique pointer");
    VH_CHECK(n.get(u1) && !u1, "null read into a used unique pointer");
    ctx.evals(10);
}
VH_PART(shared, 1200, 24000)
{
    const Rng saved = ctx.rng;
    check_no_leak("converting shared pointers", [&] {
        ctx.rng = saved;
        switch (ctx.index % 5)
        {
        case 0: sharing<json, int>(ctx); break;
        case 1: sharing<json, std::string>(ctx); break;
        case 2: sharing<wjson, std::wstring>(ctx); break;
        case 3: sharing<json, std::vector<int>>(ctx); break;
        default: sharing<json, std::map<std::string, int>>(ctx); break;
        }
    });
}
#endif
