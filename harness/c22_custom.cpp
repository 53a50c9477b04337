// C22: values with other template arguments: integer, float and character types, dictionaries, arrays and allocators.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <deque>
#include <list>
#include <unordered_map>
using namespace vh;
using configor::basic_json;
using configor::value_tplargs;

namespace
{
// a dictionary that keeps the order of insertion
template <class K, class T> class OrderedMap
{
public:
    using key_type       = K;
    using mapped_type    = T;
    using value_type     = std::pair<const K, T>;
    using list_type      = std::list<value_type>;
    using iterator       = typename list_type::iterator;
    using const_iterator = typename list_type::const_iterator;
    using size_type      = std::size_t;
    OrderedMap() {}
    OrderedMap(const OrderedMap&) = default;
    OrderedMap(OrderedMap&&) = default;
    OrderedMap& operator=(OrderedMap o) { l_.swap(o.l_); return *this; }
    OrderedMap(std::initializer_list<value_type> l) { for (auto& e : l) emplace(e.first, e.second); }
    template <class It> OrderedMap(It f, It l) { for (; f != l; ++f) emplace(f->first, f->second); }
    iterator begin() { return l_.begin(); }
    iterator end() { return l_.end(); }
    const_iterator begin() const { return l_.begin(); }
    const_iterator end() const { return l_.end(); }
    const_iterator cbegin() const { return l_.begin(); }
    const_iterator cend() const { return l_.end(); }
    size_type size() const { return l_.size(); }
    bool empty() const { return l_.empty(); }
    void clear() { l_.clear(); }
    iterator find(const K& k) { auto i = l_.begin(); while (i != l_.end() && !(i->first == k)) ++i; return i; }
    const_iterator find(const K& k) const { auto i = l_.begin(); while (i != l_.end() && !(i->first == k)) ++i; return i; }
    size_type count(const K& k) const { return find(k) == end() ? 0 : 1; }
    template <class KK, class... A> std::pair<iterator, bool> emplace(KK&& k, A&&... a)
    {
        auto i = find(k);
        if (i != end()) return { i, false };
        l_.emplace_back(std::piecewise_construct, std::forward_as_tuple(std::forward<KK>(k)), std::forward_as_tuple(std::forward<A>(a)...));
        return { std::prev(l_.end()), true };
    }
    std::pair<iterator, bool> insert(const value_type& v) { return emplace(v.first, v.second); }
    T& operator[](const K& k) { return emplace(k).first->second; }
    T& at(const K& k) { auto i = find(k); if (i == end()) throw std::out_of_range("at"); return i->second; }
    size_type erase(const K& k) { auto i = find(k); if (i == end()) return 0; l_.erase(i); return 1; }
    iterator erase(const_iterator i) { return l_.erase(i); }
    iterator erase(const_iterator f, const_iterator l) { return l_.erase(f, l); }
    friend bool operator==(const OrderedMap& a, const OrderedMap& b) { return a.l_ == b.l_; }
    friend bool operator!=(const OrderedMap& a, const OrderedMap& b) { return !(a == b); }
    friend bool operator<(const OrderedMap& a, const OrderedMap& b) { return a.l_ < b.l_; }

private:
    list_type l_;
};
// counts what it gives out; every allocation of a value must go through it
struct Counts { static long& live() { static long v = 0; return v; } static long& total() { static long v = 0; return v; } };
template <class T> struct CountAlloc
{
    using value_type = T;
    CountAlloc() {}
    template <class U> CountAlloc(const CountAlloc<U>&) {}
    T* allocate(size_t n) { ++Counts::live(); ++Counts::total(); return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_t) { --Counts::live(); ::operator delete(p); }
    template <class U> bool operator==(const CountAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const CountAlloc<U>&) const { return false; }
};

struct A_i32 : value_tplargs { using integer_type = int32_t; using float_type = float; };
struct A_u64 : value_tplargs { using integer_type = uint64_t; using float_type = long double; };
struct A_i16w : value_tplargs { using integer_type = int16_t; using float_type = float; using char_type = wchar_t; };
struct A_u32w : value_tplargs { using integer_type = uint32_t; using float_type = long double; using char_type = wchar_t; };
struct A_u16 : value_tplargs { using integer_type = uint16_t; using float_type = double; };
struct A_ord : value_tplargs { template <class K, class T, class...> using object_type = OrderedMap<K, T>; };
struct A_ordw : A_ord { using char_type = wchar_t; using integer_type = int32_t; };
struct A_unord : value_tplargs { template <class K, class T, class...> using object_type = std::unordered_map<K, T>; };
struct A_deque : value_tplargs { template <class T, class... R> using array_type = std::deque<T, R...>; };
struct A_alloc : value_tplargs
{
    template <class T> using allocator_type = CountAlloc<T>;
    template <class C, class...> using string_type = std::basic_string<C>;
};
struct A_c16 : value_tplargs { using char_type = char16_t; using integer_type = int32_t; };
struct A_c32 : A_ord { using char_type = char32_t; using float_type = float; };
struct A_rev : value_tplargs { template <class K, class T, class...> using object_type = std::map<K, T, std::greater<K>>; };

template <class J> using Int = typename V<J>::integer_type;
template <class J> using Flt = typename V<J>::float_type;
template <class F> double type_eps() { return sizeof(F) == 4 ? 2e-6 : 1e-12; }
template <class F> double type_top() { return sizeof(F) == 4 ? 1e38 : 1.4e308; }
template <class F> double type_min() { return sizeof(F) == 4 ? 1.2e-38 : 2.3e-308; }

// makes the model fit the customised types
template <class J> M fit(M m)
{
    if (m.k == M::Int) m.i = int64_t(static_cast<Int<J>>(m.i));
    if (m.k == M::Flt)
    {
        if (std::fabs(m.f) > type_top<Flt<J>>()) m.f = 0.5;
        m.f = double(static_cast<Flt<J>>(m.f));
    }
    for (auto& e : m.a) e = fit<J>(std::move(e));
    for (auto& e : m.o) e.second = fit<J>(std::move(e.second));
    if (std::is_same<Ch<J>, char16_t>::value)
    {
        // its traits do not have U+FFFF (known finding of C06)
        auto without = [](const U32& x) { U32 y; for (u32 c : x) if (c != 0xFFFF) y += char32_t(c); return y; };
        m.s = without(m.s);
        M o = M::obj();
        for (auto& e : m.o) if (!o.find(without(e.first))) o.o.emplace_back(without(e.first), std::move(e.second));
        m.o = std::move(o.o);
    }
    return m;
}
// x was written with o and read as y
template <class J> std::string same(const M& x, const M& y, const DumpOpt& o)
{
    if (x.k != y.k) return "expected " + show(x) + " got " + show(y);
    if (x.k == M::Flt)
    {
        Tol t = o.tol(x.f, false);
        if (sizeof(Flt<J>) == 4) { if (t.exact && x.f != 0) { t.exact = false; t.rel = 0; t.abs = 0; } if (!t.exact) { t.rel += 2e-6; t.abs += 1.2e-38; } }
        return flt_eq(x.f, y.f, t) ? "" : "expected " + show(x) + " got " + show(y);
    }
    if (x.k == M::Arr)
    {
        if (x.a.size() != y.a.size()) return "another number of elements";
        for (size_t i = 0; i < x.a.size(); ++i)
        {
            const auto d = same<J>(x.a[i], y.a[i], o);
            if (!d.empty()) return d;
        }
        return "";
    }
    if (x.k == M::Obj)
    {
        if (x.o.size() != y.o.size()) return "another number of members";
        std::map<U32, const M*> idx;
        for (auto& e : y.o) idx[e.first] = &e.second;
        for (auto& e : x.o)
        {
            if (!idx.count(e.first)) return "member " + show(e.first, 40) + " missing";
            const auto d = same<J>(e.second, *idx[e.first], o);
            if (!d.empty()) return d;
        }
        return "";
    }
    return diff(x, y);
}
std::vector<U32> keys_of(const M& m) { std::vector<U32> k; for (auto& e : m.o) k.push_back(e.first); return k; }
// same members in the same order, at every level
bool same_order(const M& x, const M& y)
{
    if (x.k != y.k || x.a.size() != y.a.size() || keys_of(x) != keys_of(y)) return false;
    for (size_t i = 0; i < x.a.size(); ++i) if (!same_order(x.a[i], y.a[i])) return false;
    for (size_t i = 0; i < x.o.size(); ++i) if (!same_order(x.o[i].second, y.o[i].second)) return false;
    return true;
}

template <class J, class C> void through_text(Ctx& ctx, const V<J>& v, const M& m, bool ordered, const char* name)
{
    const auto o = gen_dump_opt(ctx.rng);
    const auto t = dump_via<J, C>(int(ctx.rng.below(SnkKinds)), v, o, 1 + ctx.rng.below(5));
    int kind = int(ctx.rng.below(SrcExtract));
    if (kind == SrcFile && sizeof(C) > 1) kind = SrcString;
    V<J> w;
    try { w = parse_via<J, C>(kind, t, 1 + ctx.rng.below(5)); }
    catch (const Fail&) { throw; }
    catch (const std::exception& e) { VH_FAIL(name << ": the dumped text of " << show(m) << " is refused: " << e.what()); }
    const auto got = model<J>(w);
    const auto d = same<J>(m, got, o);
    VH_CHECK(d.empty(), name << ": round trip of " << show(m) << " with " << o.str() << ": " << d);
    if (ordered) VH_CHECK(same_order(m, got), name << ": the order of members changed: " << show(m) << " became " << show(got));
    ctx.evals(1);
}
template <class J> void generic(Ctx& ctx, const char* name, bool ordered)
{
    Rng&   r = ctx.rng;
    GenOpt g;
    g.depth = int(r.below(4));
    const M m = fit<J>(gen_value(r, g));
    ctx.seen(hash_m(m, hash_str(std::string(name))));
    auto v = build<J>(m, &r);
    const auto m1 = model<J>(v);
    VH_CHECK(diff(m, m1).empty(), name << ": built as " << show(m1) << " instead of " << show(m));
    if (ordered) VH_CHECK(same_order(m, m1), name << ": built in another order: " << show(m) << " as " << show(m1));
    through_text<J, char>(ctx, v, m, ordered, name);
    through_text<J, wchar_t>(ctx, v, m, ordered, name);
    // copies, comparison, independence
    V<J> c(v), d;
    d = v;
    VH_CHECK(c == v && v == d && !(c != v), name << ": a copy differs: " << show(m));
    VH_CHECK(diff(m, model<J>(c)).empty() && (!ordered || same_order(m, model<J>(d))), name << ": a copy of " << show(m) << " is " << show(model<J>(c)));
    // one change anywhere makes it different
    {
        V<J>* p = &c;
        M     cm = m;
        M*    q = &cm;
        while ((q->k == M::Arr && q->a.size()) || (q->k == M::Obj && q->o.size()))
        {
            if (q->k == M::Arr) { const size_t k = r.below(q->a.size()); p = &(*p)[k]; q = &q->a[k]; }
            else { const size_t k = r.below(q->o.size()); p = &(*p)[Enc<Ch<J>>::put(q->o[k].first)]; q = &q->o[k].second; }
        }
        if (q->k == M::Null) { *p = true; *q = M::boolean(true); }
        else if (q->k == M::Arr) { p->push_back(nullptr); q->a.push_back(M::null()); }
        else if (q->k == M::Obj) { (*p)[St<J>(2, Ch<J>('z'))] = nullptr; q->o.emplace_back(U32(U"zz"), M::null()); }
        else { *p = nullptr; *q = M::null(); }
        VH_CHECK(c != v && !(c == v) && v == d, name << ": " << show(cm) << " equals " << show(m));
        VH_CHECK(diff(cm, model<J>(c)).empty() && diff(m, model<J>(v)).empty(), name << ": changing a copy: " << show(model<J>(c)));
    }
    c = std::move(d);
    VH_CHECK(c == v, name << ": moved");
    std::swap(c, d);
    VH_CHECK(d == v && diff(m, model<J>(d)).empty(), name << ": swapped");
    // iteration
    size_t n = 0;
    const V<J>& cv = v;
    for (auto it = cv.begin(); it != cv.end(); ++it, ++n)
    {
        if (m.k == M::Obj)
        {
            VH_CHECK(&cv.at(it.key()) == &*it && cv.find(it.key()) == it && cv.count(it.key()) == 1, name << ": a visited key finds another element");
            if (ordered) VH_CHECK(it.key() == Enc<Ch<J>>::put(m.o[n].first), name << ": iteration in another order");
        }
        if (m.k == M::Arr) VH_CHECK(&*it == &cv[n], name << ": iteration of an array");
    }
    VH_CHECK(n == (m.k == M::Arr ? m.a.size() : m.k == M::Obj ? m.o.size() : m.k == M::Null ? 0 : 1), name << ": iteration visits " << n << " elements of " << show(m));
    VH_CHECK(cv.size() == n && cv.empty() == (n == 0), name << ": size " << cv.size() << " for " << n);
    if (m.k == M::Arr)
    {
        const auto vec = cv.template get<typename V<J>::array_type>();
        VH_CHECK(vec.size() == n, name << ": converting to an array");
        for (size_t k = 0; k < n; ++k) VH_CHECK(vec[k] == cv[k], name << ": converting to an array");
    }
    if (m.k == M::Obj)
    {
        const auto map = cv.template get<typename V<J>::object_type>();
        VH_CHECK(map.size() == n, name << ": converting to a map");
        for (auto& e : map) VH_CHECK(e.second == cv.at(e.first), name << ": converting to a map");
        V<J> w = v;
        for (auto& e : m.o)
        {
            VH_CHECK(w.erase(Enc<Ch<J>>::put(e.first)) == 1, name << ": erasing a key");
            VH_CHECK(w.size() == --n && w.count(Enc<Ch<J>>::put(e.first)) == 0, name << ": after erasing a key");
        }
    }
}
template <class J> void erase_by_iterator(Ctx& ctx, const char* name)
{
    Rng& r = ctx.rng;
    V<J> v;
    std::vector<int64_t> want;
    const size_t n = r.below(10);
    for (size_t k = 0; k < n; ++k) { v.push_back(Int<J>(k)); want.push_back(int64_t(k)); }
    for (int s = 0; s < 12 && !want.empty(); ++s)
    {
        const size_t k = r.below(want.size());
        const auto it = v.erase(std::next(v.begin(), ptrdiff_t(k)));
        want.erase(want.begin() + ptrdiff_t(k));
        VH_CHECK(size_t(std::distance(v.begin(), it)) == k, name << ": erase returns another position");
        VH_CHECK(v.size() == want.size(), name << ": size after erase");
        for (size_t i = 0; i < want.size(); ++i) VH_CHECK(int64_t(v[i].template get<Int<J>>()) == want[i], name << ": elements after erase");
    }
    if (want.size()) { v.erase(size_t(0)); VH_CHECK(v.size() == want.size() - 1, name << ": erase by index"); }
}

// ---- integers at and beyond the limits of the customised type
template <class J> void limits(Ctx& ctx, const char* name)
{
    using I = Int<J>;
    using C = Ch<J>;
    // digits of max and of -min
    std::string maxs = std::to_string(std::numeric_limits<I>::max()), mins = std::to_string(std::numeric_limits<I>::min());
    auto read = [&](const std::string& n, bool& ok) {
        const int place = int(ctx.rng.below(3));
        const std::string t = place == 0 ? n : place == 1 ? "[" + n + "]" : "{\"k\":" + n + "}";
        V<J> v;
        ok = true;
        try { v = ctx.rng.chance(1, 2) ? J::template parse<char>(t) : J::template parse<wchar_t>(std::wstring(t.begin(), t.end())); }
        catch (const configor::configor_deserialization_error&) { ok = false; return v; }
        return V<J>(place == 0 ? v : place == 1 ? v[0] : v[St<J>(1, C('k'))]);
    };
    auto good = [&](const std::string& n) {
        bool ok;
        const auto v = read(n, ok);
        VH_CHECK(ok, name << ": the integer " << n << " is refused");
        const bool neg = n[0] == '-';
        const unsigned long long u = strtoull(n.c_str() + neg, nullptr, 10);
        const I want = neg ? I(0ull - u) : I(u);
        VH_CHECK(v.is_integer() && v.template get<I>() == want && std::to_string(v.template get<I>()) == (n == "-0" ? "0" : n), name << ": the integer " << n << " reads as " << std::to_string(v.is_integer() ? v.template get<I>() : I()));
        VH_CHECK((J::template dump<char>(v)) == (n == "-0" ? "0" : n), name << ": the integer " << n << " is written " << (J::template dump<char>(v)));
        ctx.count("integers_exact");
    };
    auto bad = [&](const std::string& n) {
        bool ok;
        const auto v = read(n, ok);
        VH_CHECK(!ok, name << ": the integer " << n << " does not fit but reads as " << std::to_string(v.is_integer() ? v.template get<I>() : I()));
        ctx.count("integers_refused");
    };
    auto plus = [](std::string d, int k) {
        for (; k > 0; --k)
        {
            size_t i = d.size();
            while (i && d[i - 1] == '9') d[--i] = '0';
            if (i) ++d[i - 1]; else d.insert(d.begin(), '1');
        }
        return d;
    };
    for (int k = 0; k < 64; ++k)
    {
        const I a = I(std::numeric_limits<I>::max() - I(k)), b = I(std::numeric_limits<I>::min() + I(k));
        good(std::to_string(a));
        good(std::to_string(b));
        good(std::to_string(I(k)));
        bad(plus(maxs, k + 1));
        if (std::numeric_limits<I>::is_signed) { good(std::to_string(I(-k))); bad("-" + plus(mins.substr(1), k + 1)); }
        else bad("-" + std::to_string(k + 1));
        // multiples of the range, which wrap to small numbers
        bad(plus(std::to_string((static_cast<unsigned long long>(1) << 63)) + "0000", k));
        if (sizeof(I) < 8)
        {
            const unsigned long long range = 1ull << (8 * sizeof(I));
            bad(std::to_string(range * (1 + ctx.rng.below(1000)) + u64(k)));
            bad("-" + std::to_string(range * (1 + ctx.rng.below(1000)) + u64(k)));
        }
        good(std::to_string(I(ctx.rng.next())));
    }
    std::string ten = "1";
    for (int k = 0; k < 40; ++k, ten += '0')
        if (ten.size() < maxs.size()) good(ten);
        else if (ten.size() > maxs.size()) bad(ten);
    ctx.evals(64 * 7);
}
// ---- floats keep the customised precision
template <class J> void floats(Ctx& ctx, const char* name)
{
    using F = Flt<J>;
    using C = Ch<J>;
    Rng& r = ctx.rng;
    const long double eps = std::numeric_limits<F>::epsilon();
    for (int k = 0; k < 40; ++k)
    {
        char buf[80];
        std::string s;
        const int e = int(r.below(60)) - 30;
        for (size_t n = 1 + r.below(18); n; --n) s += char('0' + r.below(10));
        if (s.size() > 1 || true) s = std::to_string(1 + r.below(9)) + "." + s;
        if (e) { snprintf(buf, sizeof buf, "e%s%d", e < 0 ? "" : "+", e); s += buf; }
        const long double want = strtold(s.c_str(), nullptr);
        const auto v = J::template parse<char>(s);
        VH_CHECK(v.is_floating(), name << ": " << s << " is no float");
        const F got = v.template get<F>();
        // within a few units in the last place of the customised type
        VH_CHECK(fabsl(static_cast<long double>(got) - want) <= fabsl(want) * eps * 64, name << ": " << s << " reads with a relative error of " << double(fabsl(static_cast<long double>(got) - want) / fabsl(want)));
        // written with enough digits it comes back
        using Ser = typename J::template serializer_type<C>;
        const auto t = J::template dump<C>(v, { Ser::with_precision(std::numeric_limits<F>::max_digits10, std::ios::scientific) });
        const std::string nt(t.begin(), t.end());
        VH_CHECK(fabsl(strtold(nt.c_str(), nullptr) - got) <= fabsl(got) * eps, name << ": " << s << " is written " << nt);
        const F back = J::template parse<C>(t).template get<F>();
        VH_CHECK(fabsl(static_cast<long double>(back) - got) <= fabsl(got) * eps * 64, name << ": " << nt << " reads back with another value");
        // data go in and out whole
        F x = static_cast<F>(r.chance(1, 2) ? got : static_cast<F>(r.next()) / static_cast<F>(1 + r.below(1u << 30)));
        for (u64 n = r.below(4); n; --n) x = std::nextafter(x, r.chance(1, 2) ? F(0) : std::numeric_limits<F>::max());
        V<J> y = x, z(nullptr), c(y);
        z = x;
        std::vector<F> one{ x };
        const V<J> in(one);
        F out{};
        VH_CHECK(y.template get<F>() == x && z.template get<F>() == x && c.template get<const F&>() == x && y == z && y.get(out) && out == x
                     && in[0].template get<F>() == x && in.template get<std::vector<F>>() == one && *y.template get_ptr<F*>() == x && y == V<J>(x),
                 name << ": a float of " << double(x) << " changes when it is stored and read");
        if (x != 0) VH_CHECK(!(y == V<J>(std::nextafter(x, F(0)))) && V<J>(std::nextafter(x, F(0))) < y, name << ": neighbouring floats do not differ");
        // an integer and a float compare as floats of the customised type
        {
            using I = Int<J>;
            const I i = r.chance(1, 2) ? I(r.next()) : r.chance(1, 2) ? I(std::numeric_limits<I>::max() - I(r.below(100))) : I(r.below(200));
            const F a = static_cast<F>(i);
            F       b = a;
            const u64 away = r.below(4);
            for (u64 n = 0; n < away; ++n) b = std::nextafter(b, r.chance(1, 2) ? -std::numeric_limits<F>::max() : std::numeric_limits<F>::max());
            if (r.chance(1, 6)) b += r.chance(1, 2) ? F(0.5) : F(-0.5);
            const V<J> vi = i, vf = b;
            const V<J>& x1 = vi;
            const bool  all[] = { (x1 == vf) == (a == b), (vf == x1) == (a == b), (x1 != vf) == (a != b), (vf != x1) == (a != b), (x1 < vf) == (a < b), (vf < x1) == (b < a), (x1 > vf) == (a > b), (vf > x1) == (b > a),
                                  (x1 <= vf) == (a <= b), (vf <= x1) == (b <= a), (x1 >= vf) == (a >= b), (vf >= x1) == (b >= a), (x1 == b) == (a == b), (b == x1) == (a == b), (vf == i) == (a == b), (i == vf) == (a == b),
                                  (x1 < b) == (a < b), (b < x1) == (b < a), (i < vf) == (a < b), (vf < i) == (b < a), (i >= vf) == (a >= b), (vf <= i) == (b <= a) };
            for (size_t n = 0; n < sizeof all / sizeof *all; ++n) VH_CHECK(all[n], name << ": comparison " << n << " of the integer " << std::to_string(i) << " and the float " << std::to_string(b));
            const V<J> li = std::vector<V<J>>{ vi, V<J>(1) }, lf = std::vector<V<J>>{ vf, V<J>(1) };
            VH_CHECK((li == lf) == (a == b) && (li < lf) == (a < b) && (lf < li) == (b < a), name << ": arrays of the integer " << std::to_string(i) << " and the float " << std::to_string(b));
        }
        // huge and tiny exponents
        const auto tiny = J::template parse<char>("[1.5e-99999, 0.0e+99999, -1e-999999999999]");
        for (auto& x : tiny) VH_CHECK(x.template get<F>() == 0, name << ": an underflow reads as " << double(x.template get<F>()));
    }
    ctx.evals(40);
    ctx.count("floats", 40);
    for (F bad : { std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(), std::numeric_limits<F>::quiet_NaN() })
    {
        bool threw = false;
        try { J::dump(V<J>(bad)); }
        catch (const configor::configor_serialization_error&) { threw = true; }
        VH_CHECK(threw, name << ": a non-finite float is written");
    }
    // integers and floats compare as floats
    VH_CHECK(V<J>(Int<J>(3)) == V<J>(F(3)) && V<J>(Int<J>(3)) < V<J>(F(3.5)) && V<J>(F(2.5)) < V<J>(Int<J>(3)) && V<J>(Int<J>(3)) != V<J>(F(3.25)), name << ": comparing integers with floats");
}
// ---- an order-preserving dictionary against a list of pairs
template <class J> void ordered_history(Ctx& ctx, const char* name)
{
    using C = Ch<J>;
    using S_ = St<J>;
    Rng& r = ctx.rng;
    V<J> v(value_constant::object);
    std::vector<std::pair<S_, int>> want;
    auto key = [&] { return S_(1 + r.below(2), C('a' + r.below(8))); };
    auto find = [&](const S_& k) { size_t i = 0; while (i < want.size() && want[i].first != k) ++i; return i; };
    auto verify = [&](const V<J>& x, const char* what) {
        VH_CHECK(x.size() == want.size(), name << ": " << what << ": size " << x.size() << " instead of " << want.size());
        size_t i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++i)
            VH_CHECK(it.key() == want[i].first && it->template get<int>() == want[i].second, name << ": " << what << ": another member at " << i);
        i = want.size();
        for (auto it = x.rbegin(); it != x.rend(); ++it)
            VH_CHECK(i-- > 0 && it.key() == want[i].first, name << ": " << what << ": backwards, another member at " << i);
    };
    for (int s = 0; s < 40; ++s)
    {
        const auto k = key();
        const size_t i = find(k);
        const int x = int(r.below(1000));
        switch (r.below(8))
        {
        case 0: case 1: case 2:
            v[k] = x;
            if (i < want.size()) want[i].second = x; else want.emplace_back(k, x);
            break;
        case 3:
            VH_CHECK(v.erase(k) == (i < want.size() ? 1u : 0u), name << ": erase returns another count");
            if (i < want.size()) want.erase(want.begin() + ptrdiff_t(i));
            break;
        case 4:
            if (i < want.size())
            {
                const auto it = v.erase(v.find(k));
                want.erase(want.begin() + ptrdiff_t(i));
                VH_CHECK(size_t(std::distance(v.begin(), it)) == i, name << ": erase returns another position");
            }
            break;
        case 5: { const V<J> c = v; verify(c, "a copy"); V<J> d; d = c; verify(d, "an assigned copy"); v = std::move(d); break; }
        case 6:
        {
            // through text, compact and indented, narrow and wide
            const auto t = r.chance(1, 2) ? J::template dump<char>(v) : dump_as<J, char>(v, gen_dump_opt(r));
            std::string plain, expect = "{";
            for (size_t q = 0; q < want.size(); ++q) expect += (q ? ",\"" : "\"") + std::string(want[q].first.begin(), want[q].first.end()) + "\":" + std::to_string(want[q].second);
            for (char c : t) if (c != ' ' && c != '\n' && c != '\t') plain += c;
            VH_CHECK(plain == expect + "}", name << ": written as " << plain << " instead of " << expect << "}");
            v = r.chance(1, 2) ? J::template parse<char>(t) : J::template parse<wchar_t>(J::template dump<wchar_t>(v));
            break;
        }
        default:
            if (i < want.size()) VH_CHECK(v.at(k).template get<int>() == want[i].second && v.find(k).key() == k, name << ": at");
            else VH_CHECK(v.find(k) == v.end() && v.count(k) == 0, name << ": find of a missing key");
            break;
        }
        verify(v, "after a step");
        ctx.evals(1);
    }
    if (want.size() >= 3)
    {
        // builders keep the order too
        const V<J> b = typename J::object{ { want[2].first, 1 }, { want[0].first, 2 }, { want[1].first, typename J::array{ 1, 2 } } };
        size_t i = 0;
        for (auto it = b.begin(); it != b.end(); ++it, ++i) VH_CHECK(it.key() == want[i == 0 ? 2 : i - 1].first, name << ": a list builds another order");
        VH_CHECK(i == 3, name << ": a list builds " << i << " members");
        // the same members in another order
        V<J> c(value_constant::object), d(value_constant::object);
        for (size_t q = 0; q < want.size(); ++q) { c[want[q].first] = want[q].second; d[want[want.size() - 1 - q].first] = want[want.size() - 1 - q].second; }
        VH_CHECK(c == v && (c == d) == (want.size() < 2), name << ": the order is part of an ordered dictionary's content");
    }
    ctx.count("ordered_steps", 40);
}
}  // namespace

// The configurations are compiled in groups (VH_GROUP 0 to 3), which the check builds side by side.
#ifndef VH_GROUP
#define VH_GROUP -1
#endif
#define VH_IN(g) (VH_GROUP == -1 || VH_GROUP == g)

using Config = void (*)(Ctx&);
#define VH_CONFIG(fn, T, ...) [](Ctx& ctx) { fn<T>(ctx, __VA_ARGS__); }
using J_i32 = basic_json<A_i32>; using J_u64 = basic_json<A_u64>; using J_i16w = basic_json<A_i16w>; using J_u32w = basic_json<A_u32w>;
using J_u16 = basic_json<A_u16>; using J_ord = basic_json<A_ord>; using J_ordw = basic_json<A_ordw>; using J_unord = basic_json<A_unord>;
using J_deque = basic_json<A_deque>; using J_alloc = basic_json<A_alloc>; using J_rev = basic_json<A_rev>; using J_c16 = basic_json<A_c16>; using J_c32 = basic_json<A_c32>;

template <class L> void run_one(Ctx& ctx, const L& list, const char* what)
{
    check_no_leak(what, [&] {
        const Rng saved = ctx.rng;
        const long live = Counts::live();
        list[ctx.index % list.size()](ctx);
        VH_CHECK(Counts::live() == live, "the customised allocator has " << Counts::live() - live << " more live blocks than before");
        ctx.rng = saved;
    });
}

VH_PART(values, 6000, 120000)
{
    static const std::vector<Config> list = {
#if VH_IN(0)
        VH_CONFIG(generic, J_i32, "int32/float", false), VH_CONFIG(generic, J_u64, "uint64/long double", false), VH_CONFIG(generic, J_u16, "uint16", false),
#endif
#if VH_IN(1)
        VH_CONFIG(generic, J_i16w, "int16/float/wchar_t", false), VH_CONFIG(generic, J_u32w, "uint32/long double/wchar_t", false), VH_CONFIG(generic, J_ordw, "ordered/wchar_t", true),
#endif
#if VH_IN(2)
        VH_CONFIG(generic, J_ord, "ordered", true), VH_CONFIG(generic, J_unord, "unordered", false), VH_CONFIG(generic, J_rev, "reverse map", false),
#endif
#if VH_IN(3)
        VH_CONFIG(generic, J_deque, "deque", false), VH_CONFIG(generic, J_alloc, "allocator", false),
        VH_CONFIG(generic, J_c16, "char16_t/int32", false), VH_CONFIG(generic, J_c32, "char32_t/float/ordered", true),
#endif
    };
    run_one(ctx, list, "customised values");
    if (ctx.want_sample()) ctx.sample("configuration " + std::to_string(ctx.index % list.size()));
}
#if VH_IN(0) || VH_IN(1)
VH_PART(integers, 120, 1200)
{
    static const std::vector<Config> list = {
#if VH_IN(0)
        VH_CONFIG(limits, J_i32, "int32"), VH_CONFIG(limits, J_u64, "uint64"), VH_CONFIG(limits, J_u16, "uint16"), VH_CONFIG(limits, json, "int64"),
#endif
#if VH_IN(1)
        VH_CONFIG(limits, J_i16w, "int16/wchar_t"), VH_CONFIG(limits, J_u32w, "uint32/wchar_t"), VH_CONFIG(limits, wjson, "int64/wchar_t"),
#endif
    };
    run_one(ctx, list, "customised integers");
    ctx.seen(ctx.index % list.size());
}
VH_PART(floats, 2000, 40000)
{
    static const std::vector<Config> list = {
#if VH_IN(0)
        VH_CONFIG(floats, J_i32, "float"), VH_CONFIG(floats, J_u64, "long double"),
#endif
#if VH_IN(1)
        VH_CONFIG(floats, J_i16w, "float/wchar_t"), VH_CONFIG(floats, J_u32w, "long double/wchar_t"),
#endif
    };
    run_one(ctx, list, "customised floats");
    ctx.seen(ctx.rng.s);
}
#endif
#if VH_IN(1) || VH_IN(2)
VH_PART(ordered, 4000, 80000)
{
    static const std::vector<Config> list = {
#if VH_IN(1)
        VH_CONFIG(ordered_history, J_ordw, "ordered/wchar_t"),
#endif
#if VH_IN(2)
        VH_CONFIG(ordered_history, J_ord, "ordered"),
#endif
    };
    run_one(ctx, list, "ordered dictionaries");
    ctx.seen(ctx.rng.s);
}
#endif
#if VH_IN(0) || VH_IN(3)
VH_PART(arrays, 2000, 20000)
{
    static const std::vector<Config> list = {
#if VH_IN(0)
        VH_CONFIG(erase_by_iterator, J_i32, "int32"),
#endif
#if VH_IN(3)
        VH_CONFIG(erase_by_iterator, J_deque, "deque"), VH_CONFIG(erase_by_iterator, J_alloc, "allocator"),
#endif
    };
    run_one(ctx, list, "customised arrays");
    ctx.seen(ctx.rng.s);
}
#endif
