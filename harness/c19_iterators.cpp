// C19: iterators. Random walks of several iterators over a value are run next to positions in the model's element list;
// what they refer to is compared by address.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <algorithm>
#include <numeric>
using namespace vh;

namespace
{
template <class E, class F> bool throws(F f, const char* what)
{
    try { f(); }
    catch (const Fail&) { throw; }
    catch (const E&) { return true; }
    catch (const std::exception& e) { VH_FAIL(what << " throws something else: " << e.what()); }
    VH_FAIL(what << " does not throw");
}
// the elements in container order with their addresses
template <class J, class Val> struct Elems
{
    Val&                v;
    std::vector<St<J>>  keys;
    std::vector<Val*>   at;
    bool                obj, arr, null;
    explicit Elems(Val& x) : v(x), obj(x.is_object()), arr(x.is_array()), null(x.is_null())
    {
        if (auto p = x.template get_ptr<const typename V<J>::object_type*>())
            for (auto& e : *p) { keys.push_back(e.first); at.push_back(const_cast<V<J>*>(&e.second)); }
        else if (auto p = x.template get_ptr<const typename V<J>::array_type*>())
            for (auto& e : *p) at.push_back(const_cast<V<J>*>(&e));
        else if (!null) at.push_back(&x);
        // and not by iteration: the model and indexing
        if (obj)
        {
            for (size_t i = 0; i < keys.size(); ++i)
            {
                VH_CHECK(&v.at(keys[i]) == at[i], "the element of a key is another one");
                if (i) VH_CHECK(keys[i - 1] < keys[i], "keys are not in order");
            }
        }
        if (arr)
            for (size_t i = 0; i < at.size(); ++i) VH_CHECK(&v.at(i) == at[i], "the element of an index is another one");
    }
    size_t n() const { return at.size(); }
};

template <class J, class Val, class It> void look(const Elems<J, Val>& e, const It& it, size_t p, const char* kind)
{
    if (p < e.n())
    {
        VH_CHECK(&*it == e.at[p], kind << " iterator at " << p << " of " << e.n() << " refers to another element");
        VH_CHECK(&it.value() == e.at[p], kind << " iterator's value() at " << p << " of " << e.n() << " refers to another element");
        VH_CHECK(it->type() == e.at[p]->type(), kind << " iterator's ->");
        if (e.obj)
        {
            VH_CHECK(it.key() == e.keys[p], kind << " iterator's key at " << p << " of " << e.n());
            VH_CHECK(&it.key() == &it.key(), kind << " iterator's key is a copy");
        }
        else throws<configor::configor_invalid_iterator>([&] { it.key(); }, "key() of a non-object element");
    }
    else
    {
        throws<std::out_of_range>([&] { *it; }, "dereferencing the end");
        throws<std::out_of_range>([&] { it.value(); }, "value() of the end");
        throws<std::out_of_range>([&] { it.key(); }, "key() of the end");
    }
}
// forward and backward passes of every kind
template <class J, class Val> void passes(Val& v, const char* kind)
{
    const Elems<J, Val> e(v);
    size_t p = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++p) { VH_CHECK(p < e.n(), kind << " iteration goes on too long"); look<J>(e, it, p, kind); }
    VH_CHECK(p == e.n(), kind << " iteration visits " << p << " of " << e.n());
    p = 0;
    for (auto it = v.cbegin(); it != v.cend(); it++, ++p) { VH_CHECK(p < e.n(), kind << " c-iteration goes on too long"); VH_CHECK(&*it == e.at[p], kind << " c-iteration"); }
    VH_CHECK(p == e.n(), kind << " c-iteration visits " << p << " of " << e.n());
    p = 0;
    for (auto& x : v) { VH_CHECK(p < e.n() && &x == e.at[p], kind << " range iteration at " << p); ++p; }
    VH_CHECK(p == e.n(), kind << " range iteration visits " << p << " of " << e.n());
    p = e.n();
    for (auto it = v.rbegin(); it != v.rend(); ++it)
    {
        VH_CHECK(p-- > 0, kind << " reverse iteration goes on too long");
        VH_CHECK(&*it == e.at[p] && &it.value() == e.at[p] && it->type() == e.at[p]->type(), kind << " reverse iteration at " << p);
        if (e.obj) VH_CHECK(it.key() == e.keys[p], kind << " reverse iteration's key at " << p);
        else throws<configor::configor_invalid_iterator>([&] { it.key(); }, "reverse key() of a non-object element");
    }
    VH_CHECK(p == 0, kind << " reverse iteration misses " << p << " of " << e.n());
    p = e.n();
    for (auto it = v.crbegin(); it != v.crend(); it++) { VH_CHECK(p-- > 0, kind << " c-reverse iteration goes on too long"); VH_CHECK(&*it == e.at[p], kind << " c-reverse iteration at " << p); }
    VH_CHECK(p == 0, kind << " c-reverse iteration misses " << p);
    // backwards from the end with plain iterators
    p = e.n();
    if (e.n())
    {
        auto it = v.end();
        do { --it; --p; look<J>(e, it, p, kind); } while (p);
        VH_CHECK(it == v.begin(), kind << " iterator stepped back from the end is not the beginning");
        VH_CHECK(std::prev(v.rend()).base() == std::next(v.begin()), kind << " reverse end");
    }
    VH_CHECK(size_t(std::distance(v.begin(), v.end())) == e.n(), kind << " distance");
    VH_CHECK(size_t(std::distance(v.rbegin(), v.rend())) == e.n(), kind << " reverse distance");
    VH_CHECK((v.begin() == v.end()) == (e.n() == 0) && (v.rbegin() == v.rend()) == (e.n() == 0), kind << " emptiness");
    VH_CHECK(v.rbegin().base() == v.end() && v.rend().base() == v.begin(), kind << " reverse bases");
    if (!e.obj && !e.arr && !e.null) throws<std::out_of_range>([&] { *v.rend(); }, "dereferencing the reverse end of a scalar");
    const std::vector<V<J>> all(v.begin(), v.end());
    VH_CHECK(all.size() == e.n(), kind << " copying a range");
    for (size_t i = 0; i < all.size(); ++i) VH_CHECK(all[i].type() == e.at[i]->type(), kind << " copying a range");
}

// several iterators stepped about at random; all pairs are compared
template <class J, class Val, class It> void walk(Rng& r, Val& v, It begin, It end, const V<J>& other, int steps, const char* kind)
{
    const Elems<J, Val> e(v);
    const size_t        n = e.n();
    struct Pos { It it; size_t p; };
    std::vector<Pos> w{ { begin, 0 }, { end, n }, { begin, 0 } };
    for (int s = 0; s < steps; ++s)
    {
        Pos&       x = w[r.below(w.size())];
        const size_t p = x.p;
        switch (r.below(13))
        {
        case 0: if (p < n) { auto& y = ++x.it; ++x.p; VH_CHECK(&y == &x.it, kind << " ++ does not return itself"); } break;
        case 1: if (p < n) { auto y = x.it++; ++x.p; look<J>(e, y, p, kind); } break;
        case 2: if (p > 0) { auto& y = --x.it; --x.p; VH_CHECK(&y == &x.it, kind << " -- does not return itself"); } break;
        case 3: if (p > 0) { auto y = x.it--; --x.p; look<J>(e, y, p, kind); } break;
        case 4: case 5: case 6: case 7:
        {
            const size_t    q = r.below(n + 1);
            const ptrdiff_t d = ptrdiff_t(q) - ptrdiff_t(p);
            const u64       form = r.below(4);
            if (e.obj)
            {
                throws<configor::configor_invalid_iterator>([&] { if (form == 0) x.it += d; else if (form == 1) x.it -= -d; else if (form == 2) x.it + d; else x.it - -d; }, "an offset on an object");
                look<J>(e, x.it, p, kind);
                break;
            }
            if (form == 0) { auto& y = (x.it += d); VH_CHECK(&y == &x.it, kind << " += does not return itself"); x.p = q; }
            else if (form == 1) { x.it -= -d; x.p = q; }
            else
            {
                const auto y = form == 2 ? x.it + d : x.it - -d;
                look<J>(e, x.it, p, kind);
                look<J>(e, y, q, kind);
                x = Pos{ y, q };
            }
            break;
        }
        case 8: x = r.pick(w); break;
        case 9: { It y(x.it); look<J>(e, y, x.p, kind); x.it = y; break; }
        case 10: { const size_t q = r.below(n + 1); x.it = std::next(begin, ptrdiff_t(q)); x.p = q; if (e.null) x.it = begin; break; }
        default: break;
        }
        look<J>(e, x.it, x.p, kind);
        const Pos &a = r.pick(w), &b = r.pick(w);
        const bool eq = a.p == b.p;
        VH_CHECK((a.it == b.it) == eq && (a.it != b.it) == !eq, kind << " iterators at " << a.p << " and " << b.p << " of " << n << " compare wrongly for equality");
        if (e.obj)
        {
            throws<configor::configor_invalid_iterator>([&] { (void)(a.it < b.it); }, "ordering iterators of an object");
            throws<configor::configor_invalid_iterator>([&] { (void)(a.it >= b.it); }, "ordering iterators of an object");
        }
        else
        {
            VH_CHECK((a.it < b.it) == (a.p < b.p) && (a.it <= b.it) == (a.p <= b.p) && (a.it > b.it) == (a.p > b.p) && (a.it >= b.it) == (a.p >= b.p), kind << " iterators at " << a.p << " and " << b.p << " of " << n << " are ordered wrongly");
        }
        if (e.arr) VH_CHECK(a.it - b.it == ptrdiff_t(a.p) - ptrdiff_t(b.p), kind << " distance of iterators at " << a.p << " and " << b.p);
        else throws<configor::configor_invalid_iterator>([&] { a.it - b.it; }, "the distance of iterators of a non-array");
        if (s % 8 == 0)
        {
            // another value, even an equal one
            const V<J>& o = other;
            typename V<J>::const_iterator ca(a.it);
            const auto ob = r.chance(1, 2) ? o.begin() : o.end();
            VH_CHECK(!(ca == ob) && ca != ob, kind << " iterators of different values are equal");
            throws<configor::configor_invalid_iterator>([&] { (void)(ca < ob); }, "ordering iterators of different values");
            throws<configor::configor_invalid_iterator>([&] { (void)(ob <= ca); }, "ordering iterators of different values");
            throws<configor::configor_invalid_iterator>([&] { ca - ob; }, "the distance of iterators of different values");
            look<J>(Elems<J, const V<J>>(v), ca, a.p, "converted");
            typename V<J>::const_iterator cb = o.begin();
            cb = a.it;
            look<J>(Elems<J, const V<J>>(v), cb, a.p, "assigned");
            VH_CHECK(ca == cb, kind << " converted and assigned iterators differ");
        }
    }
}

// erasing through iterators against a list
template <class J, class It> void erasing(Ctx& ctx, const M& m, bool konst)
{
    Rng& r = ctx.rng;
    auto v = build<J>(m);
    struct Item { St<J> key; M m; };
    std::vector<Item> list;
    for (It it = v.begin(); it != It(v.end()); ++it) list.push_back(Item{ v.is_object() ? it.key() : St<J>(), model<J>(*it) });
    auto check = [&](const It& ret, size_t at, const char* what) {
        VH_CHECK(v.size() == list.size(), what << ": " << v.size() << " elements instead of " << list.size());
        size_t i = 0;
        for (It it = v.begin(); it != It(v.end()); ++it, ++i)
        {
            VH_CHECK(diff(list[i].m, model<J>(*it)).empty(), what << ": another element at " << i);
            if (v.is_object()) VH_CHECK(it.key() == list[i].key, what << ": another key at " << i);
            VH_CHECK((it == ret) == (i == at), what << ": the returned iterator is not at " << at);
        }
        VH_CHECK((ret == It(v.end())) == (at == list.size()), what << ": the returned iterator and the end");
    };
    while (true)
    {
        const size_t n = list.size(), p = r.below(n + 1), q = p + r.below(std::min<size_t>(n - p, 5) + 1);
        if (n && r.chance(1, 2))
        {
            const size_t k = r.below(n);
            const It     ret = v.erase(It(std::next(v.begin(), ptrdiff_t(k))));
            list.erase(list.begin() + ptrdiff_t(k));
            check(ret, k, "erasing one");
        }
        else
        {
            const It ret = v.erase(It(std::next(v.begin(), ptrdiff_t(p))), It(std::next(v.begin(), ptrdiff_t(q))));
            list.erase(list.begin() + ptrdiff_t(p), list.begin() + ptrdiff_t(q));
            check(ret, p, "erasing a range");
        }
        ctx.evals(1);
        if (!n) break;
        if (r.chance(1, 12))
        {
            // the usual loop that erases some
            size_t i = 0;
            for (It it = v.begin(); it != It(v.end());)
            {
                if (r.chance(1, 2)) { it = v.erase(it); list.erase(list.begin() + ptrdiff_t(i)); }
                else { ++it; ++i; }
            }
            check(v.end(), list.size(), "an erasing loop");
        }
    }
    (void)konst;
}

template <class J> void all(Ctx& ctx, const M& m)
{
    Rng& r = ctx.rng;
    auto v = build<J>(m);
    const V<J>& c = v;
    const V<J>  other(v);
    VH_CHECK((Elems<J, const V<J>>(c).n()) == (m.k == M::Arr ? m.a.size() : m.k == M::Obj ? m.o.size() : m.k == M::Null ? 0u : 1u), "another number of elements");
    passes<J, V<J>>(v, "mutable");
    passes<J, const V<J>>(c, "const");
    const int steps = 16;
    walk<J, V<J>>(r, v, v.begin(), v.end(), other, steps, "mutable");
    walk<J, const V<J>>(r, c, c.begin(), c.end(), other, steps, "const");
    walk<J, const V<J>>(r, c, typename V<J>::const_iterator(v.begin()), v.cend(), other, steps, "converted");
    VH_CHECK(v == other, "walking changed the value");
    // find
    if (m.k == M::Obj)
        for (auto& e : m.o)
        {
            const St<J> k = Enc<Ch<J>>::put(e.first);
            auto it = v.find(k);
            VH_CHECK(it != v.end() && it.key() == k && &*it == &v[k], "find gives another element");
            VH_CHECK(c.find(k) == typename V<J>::const_iterator(it), "const find gives another element");
            auto ahead = it;
            VH_CHECK(size_t(std::distance(v.begin(), it)) + size_t(std::distance(it, v.end())) == m.o.size(), "walking from a found element");
            if (++ahead != v.end()) VH_CHECK(ahead.key() > k, "the key after a found one");
        }
    VH_CHECK(v.find(St<J>(4, Ch<J>(1))) == v.end() && c.find(St<J>(4, Ch<J>(1))) == c.end(), "find of a missing key");
    // writing through iterators
    size_t i = 0;
    for (auto it = v.begin(); it != v.end() && m.k != M::Null; ++it, ++i)
    {
        const bool elem = m.k == M::Arr || m.k == M::Obj;
        *it = int64_t(1000 + i);
        if (!elem) break;
    }
    i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) VH_CHECK(it->template get<int64_t>() == int64_t(1000 + i), "writing through iterators");
    for (auto it = v.rbegin(); it != v.rend(); ++it) *it = int64_t(--i);
    i = 0;
    for (auto& x : v) VH_CHECK(x.template get<int64_t>() == int64_t(i++), "writing through reverse iterators");
    if (m.k == M::Arr)
    {
        std::reverse(v.begin(), v.end());
        i = v.size();
        for (auto& x : v) VH_CHECK(x.template get<int64_t>() == int64_t(--i), "std::reverse");
        VH_CHECK(std::find_if(v.begin(), v.end(), [](const V<J>& x) { return x.template get<int64_t>() == 0; }) == (v.size() ? std::prev(v.end()) : v.end()), "std::find_if");
    }
    ctx.seen(hash_m(m));
    ctx.evals(3 * steps);
    ctx.count("iterator_steps", 3 * steps);
}
}  // namespace

VH_PART(walks, 4800, 300000)
{
    GenOpt g;
    g.depth = int(ctx.rng.below(3));
    g.width = ctx.rng.chance(1, 5) ? 40 : 8;
    const auto m = gen_value(ctx.rng, g);
    check_no_leak("iterating", [&] {
        const Rng saved = ctx.rng;
        if (ctx.index % 3) all<json>(ctx, m);
        else all<wjson>(ctx, m);
        ctx.rng = saved;
    });
    if (ctx.want_sample()) ctx.sample(show(m));
}
// every small size of arrays and objects, and every scalar
VH_PART(small, 1, 1)
{
    for (int n = 0; n <= 12; ++n)
    {
        M a = M::arr(), o = M::obj();
        for (int k = 0; k < n; ++k)
        {
            a.a.push_back(gen_scalar(ctx.rng, GenOpt()));
            o.o.emplace_back(U32(1, char32_t(U'a' + k)), gen_scalar(ctx.rng, GenOpt()));
        }
        for (int rep = 0; rep < 3; ++rep)
        {
            all<json>(ctx, a);
            all<json>(ctx, o);
            all<wjson>(ctx, a);
            all<wjson>(ctx, o);
        }
    }
    for (int k = 0; k < 100; ++k) { all<json>(ctx, gen_scalar(ctx.rng, GenOpt())); all<wjson>(ctx, gen_scalar(ctx.rng, GenOpt())); }
}
VH_PART(large, 16, 160)
{
    M m;
    const size_t n = kSizes[ctx.index % kNumSizes];
    if (n > 5000) return;
    m = ctx.index & 1 ? M::arr() : M::obj();
    for (size_t k = 0; k < n; ++k)
    {
        if (ctx.index & 1) m.a.push_back(M::integer(int64_t(k)));
        else { char b[20]; snprintf(b, sizeof b, "%07zu", k); U32 key(b, b + strlen(b)); m.o.emplace_back(key, M::integer(int64_t(k))); }
    }
    all<json>(ctx, m);
}
VH_PART(erase, 4000, 200000)
{
    GenOpt g;
    g.depth = 1;
    g.width = 14;
    M m;
    do m = gen_value(ctx.rng, g); while (m.k != M::Arr && m.k != M::Obj);
    ctx.seen(hash_m(m));
    check_no_leak("erasing", [&] {
        const Rng saved = ctx.rng;
        switch (ctx.index % 4)
        {
        case 0: erasing<json, json::value::iterator>(ctx, m, false); break;
        case 1: erasing<wjson, wjson::value::iterator>(ctx, m, false); break;
        case 2: erasing<json, json::value::const_iterator>(ctx, m, true); break;
        default: erasing<wjson, wjson::value::const_iterator>(ctx, m, true); break;
        }
        ctx.rng = saved;
    });
}
// erasing through iterators of other kinds is refused and changes nothing
VH_PART(erase_refused, 300, 6000)
{
    M m;
    do m = gen_scalar(ctx.rng, GenOpt()); while (false);
    auto       v = build<json>(m);
    const auto before = model<json>(v);
    throws<configor::configor_invalid_iterator>([&] { v.erase(v.begin()); }, "erasing an iterator of a scalar");
    throws<configor::configor_invalid_iterator>([&] { v.erase(v.begin(), v.end()); }, "erasing a range of a scalar");
    VH_CHECK(diff(before, model<json>(v)).empty(), "a refused erase changed the value");
    ctx.seen(hash_m(m));
    // iterators of no value at all
    json::value::iterator none(nullptr);
    throws<configor::configor_invalid_iterator>([&] { *none; }, "dereferencing an empty iterator");
    throws<configor::configor_invalid_iterator>([&] { none.key(); }, "key() of an empty iterator");
    throws<configor::configor_invalid_iterator>([&] { ++none; }, "++ of an empty iterator");
    throws<configor::configor_invalid_iterator>([&] { --none; }, "-- of an empty iterator");
    throws<configor::configor_invalid_iterator>([&] { none += 1; }, "+= of an empty iterator");
    VH_CHECK(!(none == v.begin()) && none != v.begin(), "an empty iterator equals another");
}
