// C10: histories of container operations against a model of lists and dictionaries, with every result, exception and the
// whole content compared after every step.
#define VH_ALLOC_HOOK
#include "lib.hpp"
using namespace vh;

namespace
{
enum Err { None, InvalidKey, OutOfRange, TypeError, InvalidIterator, Other };
const char* err_name(Err e)
{
    static const char* n[] = { "nothing", "configor_invalid_key", "std::out_of_range", "configor_type_error", "configor_invalid_iterator", "something else" };
    return n[e];
}
template <class F>
Err err_of(F f)
{
    try { f(); return None; }
    catch (const Fail&) { throw; }
    catch (const configor::configor_invalid_key&) { return InvalidKey; }
    catch (const configor::configor_type_error&) { return TypeError; }
    catch (const configor::configor_invalid_iterator&) { return InvalidIterator; }
    catch (const std::out_of_range&) { return OutOfRange; }
    catch (...) { return Other; }
}

template <class J>
struct History
{
    using val = V<J>;
    using C   = Ch<J>;
    using S_  = St<J>;
    Ctx&        ctx;
    Rng&        r;
    val         root;
    M           m;
    std::string log;
    explicit History(Ctx& c) : ctx(c), r(c.rng) {}

    static S_ key(const U32& k) { return Enc<C>::put(k); }
    U32 some_key(const M& x)
    {
        if (x.k == M::Obj && !x.o.empty() && r.chance(1, 2)) return r.pick(x.o).first;
        return gen_key(r);
    }
    size_t some_index(const M& x)
    {
        const size_t n = x.k == M::Arr ? x.a.size() : 0;
        switch (r.below(6))
        {
        case 0: return n;
        case 1: return n + 1 + r.below(4);
        case 2: return n ? n - 1 : 0;
        default: return r.below(n + 1);
        }
    }
    void content(const val& v, const M& x, const std::string& what)
    {
        const auto d = diff(x, model<J>(v));
        VH_CHECK(d.empty(), "after " << what << ": " << d << "; history: " << tail());
        // object members in the order of their keys
        if (x.k == M::Obj)
        {
            const S_* prev = nullptr;
            for (auto& e : v.template get<const typename val::object_type&>())
            {
                VH_CHECK(!prev || *prev < e.first, "after " << what << ": members out of order; history: " << tail());
                prev = &e.first;
            }
        }
    }
    std::string tail() const { return log.size() > 1000 ? log.substr(log.size() - 1000) : log; }
#define expect(got, want, what)                       \
    do {                                              \
        const Err got_ = (got), want_ = (want);       \
        if (got_ != want_) wrong(got_, want_, what);  \
        if (want_ != None) ctx.count("documented_exceptions"); \
    } while (0)
    void wrong(Err got, Err want, const std::string& what)
    {
        VH_CHECK(got == want, what << " threw " << err_name(got) << " instead of " << err_name(want) << "; history: " << tail());
    }
    M small() { GenOpt g; g.depth = 2; g.width = 3; g.strlen = 8; return gen_value(r, g); }

    void queries(val& v, const M& x)
    {
        const val&   c = v;
        const size_t n = x.k == M::Arr ? x.a.size() : x.k == M::Obj ? x.o.size() : x.k == M::Null ? 0 : 1;
        VH_CHECK(c.size() == n, "size() is " << c.size() << " for " << show(x));
        VH_CHECK(c.empty() == (n == 0), "empty() is " << c.empty() << " for " << show(x));
        const U32  k = some_key(x);
        const S_   ks = key(k);
        const M*   hit = x.k == M::Obj ? x.find(k) : nullptr;
        VH_CHECK(c.count(ks) == (hit ? 1u : 0u), "count(" << show(k) << ") is " << c.count(ks) << " for " << show(x));
        auto it = v.find(ks);
        auto ci = c.find(ks);
        VH_CHECK((it != v.end()) == (hit != nullptr) && (ci != c.end()) == (hit != nullptr), "find(" << show(k) << ") is wrong for " << show(x));
        if (hit)
        {
            VH_CHECK(it.key() == ks && ci.key() == ks && &it.value() == &ci.value() && &*it == &v.at(ks), "find(" << show(k) << ") finds another element of " << show(x));
            VH_CHECK(diff(*hit, model<J>(*ci)).empty(), "find(" << show(k) << ") finds another value in " << show(x));
        }
        // checked access and access to constants
        for (int form = 0; form < 3; ++form)
        {
            const val* p = nullptr;
            Err        e;
            const bool nul = k.find(char32_t(0)) != k.npos;   // not as a C string
            if (form == 0) e = err_of([&] { p = &c.at(ks); });
            else if (form == 1) e = err_of([&] { p = &c[ks]; });
            else if (nul) continue;
            else e = err_of([&] { p = r.chance(1, 2) ? &c.at(ks.c_str()) : &c[ks.c_str()]; });
            expect(e, x.k != M::Obj ? InvalidKey : hit ? None : OutOfRange, S() << "reading key " << show(k) << " of " << show(x));
            if (hit) VH_CHECK(p && diff(*hit, model<J>(*p)).empty(), "reading key " << show(k) << " of " << show(x) << " gives another value");
        }
        const size_t i = r.chance(1, 12) ? size_t(-1) - r.below(3) : some_index(x);
        for (int form = 0; form < 2; ++form)
        {
            const val* p = nullptr;
            const Err  e = err_of([&] { p = form ? &c.at(i) : &c[i]; });
            expect(e, x.k != M::Arr ? InvalidKey : i < x.a.size() ? None : OutOfRange, S() << "reading index " << i << " of " << show(x));
            if (e == None) VH_CHECK(diff(x.a[i], model<J>(*p)).empty(), "reading index " << i << " of " << show(x) << " gives another value");
        }
    }

    void step(val& v, M& x)
    {
        std::string what;
        switch (r.below(18))
        {
        case 0: case 1:   // write by index
        {
            const size_t i = some_index(x);
            const M      y = small();
            what = S() << "[" << i << "] = " << show(y);
            const Err e = err_of([&] { v[i] = build<J>(y, &r); });
            expect(e, x.k == M::Arr || x.k == M::Null ? None : InvalidKey, what);
            if (e) break;
            if (x.k == M::Null) x = M::arr();
            if (x.a.size() <= i) x.a.resize(i + 1);
            x.a[i] = y;
            break;
        }
        case 2: case 3: case 4:  // write by key
        {
            const U32 k = some_key(x);
            const M   y = small();
            what = S() << "[\"" << show(k) << "\"] = " << show(y);
            const S_  ks = key(k);
            const bool cstr = k.find(char32_t(0)) == k.npos && r.chance(1, 2);
            const Err e = err_of([&] { if (cstr) v[ks.c_str()] = build<J>(y, &r); else v[ks] = build<J>(y, &r); });
            expect(e, x.k == M::Obj || x.k == M::Null ? None : InvalidKey, what);
            if (e) break;
            if (x.k == M::Null) x = M::obj();
            x.member(k) = y;
            break;
        }
        case 5:           // mention an element without writing it
        {
            if (r.chance(1, 2))
            {
                const U32 k = some_key(x);
                what = S() << "[\"" << show(k) << "\"]";
                const Err e = err_of([&] { v[key(k)]; });
                expect(e, x.k == M::Obj || x.k == M::Null ? None : InvalidKey, what);
                if (!e) { if (x.k == M::Null) x = M::obj(); x.member(k); }
            }
            else
            {
                const size_t i = some_index(x);
                what = S() << "[" << i << "]";
                const Err e = err_of([&] { v[i]; });
                expect(e, x.k == M::Arr || x.k == M::Null ? None : InvalidKey, what);
                if (!e) { if (x.k == M::Null) x = M::arr(); if (x.a.size() <= i) x.a.resize(i + 1); }
            }
            break;
        }
        case 6: case 7:   // append
        {
            if (x.k == M::Arr && !x.a.empty() && r.chance(1, 3))
            {
                // append one of the array's own elements (or something inside one): the source
                // lives in storage the append may have to move
                const size_t i = r.below(x.a.size());
                const M      e = x.a[i];
                const val*   src = &v[i];
                M            y = e;
                if (e.k == M::Arr && !e.a.empty() && r.chance(1, 2)) { const size_t j = r.below(e.a.size()); y = e.a[j]; src = &(*src)[j]; }
                const bool   move = src == &v[i] && r.chance(1, 3);
                const int    form = int(r.below(3));
                what = S() << "append its own " << (move ? "moved " : "") << "#" << i << ", " << show(y);
                if (move)
                {
                    // moved from: the old element is left valid but unspecified, so write it again
                    if (form == 0) v.push_back(std::move(v[i])); else v.emplace_back(std::move(v[i]));
                    v[i] = build<J>(e, &r);
                }
                else if (form == 0) v.push_back(*src);
                else if (form == 1) v.emplace_back(*src);
                else { const val& c = v; if (src == &v[i]) v.push_back(c[i]); else v.push_back(*src); }
                x.a.push_back(y);
                break;
            }
            const M y = small();
            what = "append " + show(y);
            const int form = int(r.below(4));
            const Err e = err_of([&] {
                val t = build<J>(y, &r);
                if (form == 0) v.push_back(t);
                else if (form == 1) v.push_back(std::move(t));
                else if (form == 2) v.emplace_back(t);
                else v.emplace_back(std::move(t));
            });
            expect(e, x.k == M::Arr || x.k == M::Null ? None : TypeError, what);
            if (e) break;
            if (x.k == M::Null) x = M::arr();
            x.a.push_back(y);
            break;
        }
        case 8:           // emplace from other arguments
        {
            const int form = int(r.below(5));
            what = S() << "emplace_back #" << form;
            const Err e = err_of([&] {
                if (form == 0) v.emplace_back(7);
                else if (form == 1) v.emplace_back(true);
                else if (form == 2) v.emplace_back();
                else if (form == 3) v.emplace_back(2.5);
                else v.emplace_back(key(u("text")));
            });
            expect(e, x.k == M::Arr || x.k == M::Null ? None : TypeError, what);
            if (e) break;
            if (x.k == M::Null) x = M::arr();
            x.a.push_back(form == 0 ? M::integer(7) : form == 1 ? M::boolean(true) : form == 2 ? M::null() : form == 3 ? M::flt(2.5) : M::str(u("text")));
            break;
        }
        case 9:           // erase by key
        {
            const U32 k = some_key(x);
            what = "erase(\"" + show(k) + "\")";
            size_t    n = 99;
            Err e;
            if (x.k == M::Obj && x.find(k) && r.chance(1, 3))
            {
                // the key that the object itself holds, or the one below it
                auto it = v.find(key(k));
                const auto& own = it.key();
                if (r.chance(1, 2)) { what += " by its own key"; e = err_of([&] { n = v.erase(own); }); }
                else
                {
                    what += " by a string in it";
                    v[own] = key(k);
                    VH_CHECK(v.count(own) == 1 && &v.at(own) == &v[own] && v.find(own) == v.find(key(k)), "own key not found for " << what);
                    const auto& text = v[own].template get<const typename val::string_type&>();
                    e = err_of([&] { n = v.erase(text); });
                }
            }
            else e = err_of([&] { n = v.erase(key(k)); });
            expect(e, x.k == M::Obj ? None : InvalidKey, what);
            if (e) break;
            const bool had = x.find(k) != nullptr;
            VH_CHECK(n == (had ? 1u : 0u), what << " returned " << n << " for " << show(x));
            for (size_t i = 0; i < x.o.size(); ++i) if (x.o[i].first == k) { x.o.erase(x.o.begin() + long(i)); break; }
            break;
        }
        case 10:          // erase by index
        {
            const size_t i = r.chance(1, 10) ? size_t(-1) - r.below(2) : some_index(x);
            what = S() << "erase(" << i << ")";
            const Err e = err_of([&] { v.erase(i); });
            expect(e, x.k != M::Arr ? InvalidKey : i < x.a.size() ? None : OutOfRange, what);
            if (!e) x.a.erase(x.a.begin() + long(i));
            break;
        }
        case 11: case 12: // erase by iterator or range
        {
            const bool range = r.chance(1, 2);
            if (x.k != M::Arr && x.k != M::Obj)
            {
                what = range ? "erase(range)" : "erase(iterator)";
                const Err e = err_of([&] { if (range) v.erase(v.begin(), v.end()); else v.erase(v.begin()); });
                expect(e, InvalidIterator, what + " of " + show(x));
                break;
            }
            // positions in container order
            M          s = sorted<C>(x);
            const size_t n = x.k == M::Arr ? x.a.size() : x.o.size();
            if (!n && !range) { what = "-"; break; }
            size_t f = r.below(range ? n + 1 : n), l = range ? f + r.below(n - f + 1) : f + 1;
            if (range && r.chance(1, 4)) { f = 0; l = n; }
            auto at = [&](size_t p) { auto it = v.begin(); for (size_t q = 0; q < p; ++q) ++it; return it; };
            what = S() << "erase(#" << f << (range ? "..#" : "") << (range ? std::to_string(l) : "") << ")";
            auto next = range ? v.erase(at(f), at(l)) : v.erase(at(f));
            if (x.k == M::Arr) x.a.erase(x.a.begin() + long(f), x.a.begin() + long(l));
            else
            {
                s.o.erase(s.o.begin() + long(f), s.o.begin() + long(l));
                x.o = s.o;
            }
            const size_t left = n - (l - f);
            VH_CHECK((next == v.end()) == (f == left) && next == at(f), what << " returned a wrong iterator for " << show(x));
            if (f < left) VH_CHECK(diff(x.k == M::Arr ? x.a[f] : x.o[f].second, model<J>(*next)).empty(), what << " returned a wrong iterator for " << show(x));
            break;
        }
        case 13:
        {
            what = "clear()";
            v.clear();
            switch (x.k)
            {
            case M::Null: break;
            case M::Bool: x.b = false; break;
            case M::Int: x.i = 0; break;
            case M::Flt: x.f = 0; break;
            case M::Str: x.s.clear(); break;
            case M::Arr: x.a.clear(); break;
            default: x.o.clear(); break;
            }
            break;
        }
        case 14:          // built from lists
        {
            const M a = small(), b = small(), c = small();
            what = "list builder";
            const val va = build<J>(a), vb = build<J>(b), vc = build<J>(c);
            const U32 k1 = gen_key(r), k2 = gen_key(r);
            if (r.chance(1, 2))
            {
                typename J::array l{ va, vb, vc };
                const val first = l;
                v = l;                          // used a second time
                if (r.chance(1, 2)) v = configor::make_array<val>({ va, vb, vc });
                x = M::arr();
                x.a = { a, b, c };
                VH_CHECK(diff(x, model<J>(first)).empty(), "first use of a list builder gave " << show(model<J>(first)));
            }
            else
            {
                typename J::object l{ { key(k1), va }, { key(k2), vb }, { key(k1), vc } };
                const val first = l;
                v = l;
                if (r.chance(1, 2)) v = configor::make_object<val>({ { key(k1), va }, { key(k2), vb }, { key(k1), vc } });
                x = M::obj();
                x.o.emplace_back(k1, a);
                if (k1 != k2) x.o.emplace_back(k2, b);
                VH_CHECK(diff(x, model<J>(first)).empty(), "first use of a dictionary builder gave " << show(model<J>(first)));
            }
            break;
        }
        case 15:          // through the stored containers
        {
            what = "write through get<>";
            const M y = small();
            if (x.k == M::Arr) { v.template get<typename val::array_type&>().insert(v.template get<typename val::array_type&>().begin(), build<J>(y)); x.a.insert(x.a.begin(), y); }
            else if (x.k == M::Obj) { const U32 k = some_key(x); (*v.template get_ptr<typename val::object_type*>())[key(k)] = build<J>(y); x.member(k) = y; }
            else what = "-";
            break;
        }
        case 16:          // empty containers and null
        {
            const u64 k = r.below(4);
            v = k == 0 ? val(value_constant::array) : k == 1 ? val(value_constant::object) : k == 2 ? val() : val(value_constant::string);
            x = k == 0 ? M::arr() : k == 1 ? M::obj() : k == 2 ? M::null() : M::str(U32());
            what = "start again with " + show(x);
            break;
        }
        default:          // nested writes create containers on the way
        {
            const U32    k = gen_key(r);
            const size_t i = r.below(4);
            what = S() << "[\"" << show(k) << "\"][" << i << "] = 1";
            const Err e = err_of([&] { v[key(k)][i] = 1; });
            const bool fits = x.k == M::Null || x.k == M::Obj;
            const M*   in = x.k == M::Obj ? x.find(k) : nullptr;
            const bool inner = !in || in->k == M::Null || in->k == M::Arr;
            expect(e, fits && inner ? None : InvalidKey, what);
            if (!fits) break;
            if (x.k == M::Null) x = M::obj();
            M& y = x.member(k);
            if (!inner) break;
            if (y.k == M::Null) y = M::arr();
            if (y.a.size() <= i) y.a.resize(i + 1);
            y.a[i] = M::integer(1);
            break;
        }
        }
        if (what == "-") return;
        log += what + "; ";
        ctx.count("operations");
        content(v, x, what);
        ctx.seen(mix(hash_m(x) ^ hash_str(what)));
    }

    void run(size_t steps)
    {
        if (r.chance(1, 3)) { m = small(); root = build<J>(m, &r); }
        // now and then something large, of which each element is known by its number
        const bool large = ctx.index % 16 == 5;
        auto       enlarge = [&] {
            const size_t n = 17 + r.below(r.chance(1, 8) ? 1100 : 80);
            m              = r.chance(1, 2) ? M::arr() : M::obj();
            for (size_t i = 0; i < n; ++i)
                if (m.k == M::Arr) m.a.push_back(M::integer(int64_t(i)));
                else m.member(u("n" + std::to_string(i))) = M::integer(int64_t(i));
            root = build<J>(m, &r);
            log += "something large; ";
        };
        for (size_t s = 0; s < steps; ++s)
        {
            if (large && nodes(m) < 18 && (s == 0 || r.chance(2, 3))) enlarge();
            // the root or one of its direct elements
            val* v = &root;
            M*   x = &m;
            if (r.chance(1, 4) && m.k == M::Arr && !m.a.empty()) { const size_t i = r.below(m.a.size()); v = &root[i]; x = &m.a[i]; }
            else if (r.chance(1, 4) && m.k == M::Obj && !m.o.empty()) { const size_t i = r.below(m.o.size()); v = &root[key(m.o[i].first)]; x = &m.o[i].second; }
            step(*v, *x);
            queries(*v, *x);
            ctx.evals(2);
            if (!large && nodes(m) > 80) { m = M::null(); root = nullptr; }
        }
        content(root, m, "all");
        if (ctx.want_sample()) ctx.sample(log);
    }
};
}  // namespace

VH_PART(histories, 2000, 60000)
{
    const Rng saved = ctx.rng;
    check_no_leak("a history of container operations", [&] {
        ctx.rng = saved;
        if (ctx.index % 3) { History<json> h(ctx); h.run(40); }
        else { History<wjson> h(ctx); h.run(40); }
    });
}

// containers of the sizes at which growth changes, by every way of filling them, and emptied again in every way
VH_PART(sizes, 120, 480)
{
    auto&        r = ctx.rng;
    const size_t n = std::min<size_t>(kSizes[ctx.index % kNumSizes], ctx.thorough ? 4100 : 1025), way = ctx.index / kNumSizes % 4;
    ctx.seen(n * 4 + way);
    json::value a, o;
    if (way == 0) for (size_t i = 0; i < n; ++i) { a.push_back(json::value(int64_t(i))); o["k" + std::to_string(i)] = int64_t(i); }
    else if (way == 1) for (size_t i = 0; i < n; ++i) { a[i] = int64_t(i); o[std::string(i % 50, 'x') + std::to_string(i)] = int64_t(i); }
    else if (way == 2) for (size_t i = n; i-- > 0;) { a[i] = int64_t(i); o["k" + std::to_string(i)] = int64_t(i); }
    else for (size_t i = 0; i < n; ++i) { const size_t p = (i * 7919 + 13) % n; a[p] = int64_t(p); o["k" + std::to_string(p)] = int64_t(p); }
    if (way == 3) for (size_t i = 0; i < n; ++i) { a[i] = int64_t(i); o["k" + std::to_string(i)] = int64_t(i); }
    VH_CHECK(a.size() == n && o.size() == n && a.empty() == (n == 0) && o.empty() == (n == 0), "sizes " << a.size() << " and " << o.size() << " instead of " << n);
    for (size_t i = 0; i < n; ++i)
    {
        VH_CHECK(a.at(i) == int64_t(i) && a[i].is_integer(), "element " << i << " of " << n << " is wrong");
        const std::string k = way == 1 ? std::string(i % 50, 'x') + std::to_string(i) : "k" + std::to_string(i);
        VH_CHECK(o.count(k) == 1 && o.at(k) == int64_t(i), "member " << k << " of " << n << " is wrong");
    }
    if (!n) return;
    // a gap is padded with nulls
    json::value g;
    g[n] = true;
    VH_CHECK(g.size() == n + 1, "writing index " << n << " made " << g.size() << " elements");
    for (size_t i = 0; i < n; ++i) VH_CHECK(g[i].is_null(), "padding element " << i << " is not null");
    g[n + n / 2 + 1] = 5;
    VH_CHECK(g.size() == n + n / 2 + 2 && g[n] == true && g[n + n / 2 + 1] == 5, "second gap");
    for (size_t i = n + 1; i <= n + n / 2; ++i) VH_CHECK(g[i].is_null(), "padding element " << i << " is not null");
    // emptied again
    switch (r.below(4))
    {
    case 0: while (!a.empty()) a.erase(a.size() - 1); break;
    case 1: for (auto it = a.begin(); it != a.end();) it = a.erase(it); break;
    case 2: a.erase(a.begin(), a.end()); break;
    default: a.clear(); break;
    }
    VH_CHECK(a.is_array() && a.empty() && a.begin() == a.end(), "emptied array is not empty");
    size_t left = n;
    for (auto it = o.begin(); it != o.end(); --left) it = o.erase(it);
    VH_CHECK(left == 0 && o.is_object() && o.empty(), "emptied object is not empty");
}

// every operation on every kind of value: which ones are refused, and that refusing changes nothing
VH_PART(kinds, 70, 700)
{
    auto&   r = ctx.rng;
    GenOpt  g;
    const u64 k = ctx.index % 7;
    M         m = k == 0 ? M::null() : k == 1 ? M::boolean(r.chance(1, 2)) : k == 2 ? M::integer(gen_int(r)) : k == 3 ? M::flt(gen_dbl(r)) : k == 4 ? M::str(gen_str(r)) : k == 5 ? M::arr() : M::obj();
    if (k == 5) for (u64 n = r.below(4); n; --n) m.a.push_back(gen_scalar(r, g));
    if (k == 6) for (u64 n = r.below(4); n; --n) m.member(gen_key(r)) = gen_scalar(r, g);
    ctx.seen(hash_m(m));
    auto       v = build<json>(m, &r);
    const auto& c = v;
    using F = std::function<void()>;
    const bool arr = m.k == M::Arr, obj = m.k == M::Obj, nul = m.k == M::Null;
    struct Op { const char* name; F f; Err want; };
    const Op ops[] = {
        { "const [size_t max]", [&] { (void)c[size_t(-1)]; }, arr ? OutOfRange : InvalidKey },
        { "at(size)", [&] { c.at(c.size() + 5); }, arr ? OutOfRange : InvalidKey },
        { "at(missing)", [&] { c.at(std::string("no such key")); }, obj ? OutOfRange : InvalidKey },
        { "at(C string)", [&] { c.at("no such key"); }, obj ? OutOfRange : InvalidKey },
        { "const [missing]", [&] { (void)c[std::string("no such key")]; }, obj ? OutOfRange : InvalidKey },
        { "const [C string]", [&] { (void)c["no such key"]; }, obj ? OutOfRange : InvalidKey },
        { "erase(key)", [&] { VH_CHECK(v.erase(std::string("no such key")) == 0, "erased a missing key"); }, obj ? None : InvalidKey },
        { "erase(index)", [&] { v.erase(size_t(1000)); }, arr ? OutOfRange : InvalidKey },
        { "erase(index max)", [&] { v.erase(size_t(-1)); }, arr ? OutOfRange : InvalidKey },
        { "erase(range)", [&] { v.erase(v.end(), v.end()); }, arr || obj ? None : InvalidIterator },
    };
    for (auto& op : ops)
    {
        const Err e = err_of(op.f);
        VH_CHECK(e == op.want, op.name << " on " << show(m) << " threw " << err_name(e) << " instead of " << err_name(op.want));
        const auto d = diff(m, model<json>(v));
        VH_CHECK(d.empty(), op.name << " changed the value: " << d);
    }
    if (!arr && !nul)
    {
        VH_CHECK(err_of([&] { v[size_t(0)] = 1; }) == InvalidKey, "[0] on " << show(m));
        VH_CHECK(err_of([&] { v.push_back(1); }) == TypeError, "push_back on " << show(m));
        VH_CHECK(err_of([&] { v.emplace_back(1); }) == TypeError, "emplace_back on " << show(m));
    }
    if (!obj && !nul)
    {
        VH_CHECK(err_of([&] { v["x"] = 1; }) == InvalidKey, "[C string] on " << show(m));
        VH_CHECK(err_of([&] { v[std::string("x")] = 1; }) == InvalidKey, "[key] on " << show(m));
    }
    if (arr) VH_CHECK(err_of([&] { v[size_t(-1)] = 1; }) == OutOfRange, "[huge index] on " << show(m));
    const auto d = diff(m, model<json>(v));
    VH_CHECK(d.empty(), "a refused operation changed the value: " << d);
    VH_CHECK(c.find("x") == c.end() || obj, "find on " << show(m));
    ctx.evals(16);
}
