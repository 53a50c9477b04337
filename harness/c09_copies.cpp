// C09: histories of copies, moves, assignments and swaps over a pool of values and their parts, against deep models.
// The allocation balance and ASan watch that memory is released exactly once.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <array>
using namespace vh;

namespace
{
// a part of a value and of its model, addressed by the same steps
template <class J>
struct Ref
{
    V<J>*       v;
    M*          m;
    std::string path;
    bool        whole;
};
template <class J>
Ref<J> pick_part(V<J>& v, M& m, Rng& r, const std::string& name, bool any = true)
{
    Ref<J> x{ &v, &m, name, true };
    while (any && (x.m->k == M::Arr || x.m->k == M::Obj) && r.chance(2, 3))
    {
        if (x.m->k == M::Arr)
        {
            if (x.m->a.empty()) break;
            const size_t i = r.below(x.m->a.size());
            x.v = &(*x.v)[i];
            x.m = &x.m->a[i];
            x.path += "[" + std::to_string(i) + "]";
        }
        else
        {
            if (x.m->o.empty()) break;
            const size_t i = r.below(x.m->o.size());
            const auto   k = x.m->o[i].first;
            x.v = &x.v->at(Enc<Ch<J>>::put(k));
            x.m = &x.m->o[i].second;
            x.path += "." + show(k, 12);
        }
        x.whole = false;
    }
    return x;
}
bool inside(const M* part, const M* whole)
{
    if (part == whole) return true;
    for (auto& e : whole->a) if (inside(part, &e)) return true;
    for (auto& e : whole->o) if (inside(part, &e.second)) return true;
    return false;
}

template <class J>
void history(Ctx& ctx, size_t steps)
{
    using val = V<J>;
    auto& r = ctx.rng;
    GenOpt g;
    g.depth = 3;
    g.width = 4;
    g.strlen = 30;
    const size_t N = 5;
    std::array<M, N> ms;
    std::array<val, N> vs;
    for (size_t i = 0; i < N; ++i) { ms[i] = gen_value(r, g); vs[i] = build<J>(ms[i], &r); }
    std::vector<val>              list;   // values inside a growing container
    std::vector<M>                mlist;
    std::string                   log;
    for (size_t step = 0; step < steps; ++step)
    {
        const size_t i = r.below(N), j = r.below(N);
        auto         a = pick_part<J>(vs[i], ms[i], r, "v" + std::to_string(i));
        auto         b = pick_part<J>(vs[j], ms[j], r, "v" + std::to_string(j));
        std::string  what;
        switch (r.below(20))
        {
        case 0: case 1: case 2:   // copy assignment between any two parts, also a part to its whole and back
        {
            what = a.path + " = " + b.path;
            const M t = *b.m;
            *a.v = *b.v;
            *a.m = t;
            break;
        }
        case 3: case 4:           // move assignment; moving a whole into its own part is not meant to work
        {
            if (a.v == b.v || inside(a.m, b.m)) { what = "-"; break; }
            what = a.path + " = move(" + b.path + ")";
            const M t = *b.m;
            const bool up = inside(b.m, a.m);
            *a.v = std::move(*b.v);
            if (!up)
            {
                VH_CHECK(b.v->is_null() && b.v->size() == 0 && b.v->empty(), "moved-from value is not null after " << what);
                *b.m = M::null();
            }
            *a.m = t;
            break;
        }
        case 5:
        {
            auto& q = *a.v;
            if (r.chance(1, 2)) { what = a.path + " = itself"; *a.v = q; }
            else { what = a.path + " = move(itself)"; *a.v = std::move(q); }
            break;
        }
        case 6: what = a.path + ".swap(itself)"; a.v->swap(*a.v); break;
        case 7: case 8:
        {
            if (a.v != b.v && (inside(a.m, b.m) || inside(b.m, a.m))) { what = "-"; break; }
            what = "swap(" + a.path + "," + b.path + ")";
            if (r.chance(1, 2)) a.v->swap(*b.v);
            else if (a.v != b.v) std::swap(*a.v, *b.v);
            if (a.m != b.m) std::swap(*a.m, *b.m);
            break;
        }
        case 9:
        {
            what = "copy construct from " + b.path;
            val c(*b.v);
            val d = c;
            VH_CHECK(diff(*b.m, model<J>(d)).empty(), what);
            c = nullptr;
            VH_CHECK(diff(*b.m, model<J>(d)).empty(), what << ", original changed");
            *a.v = d;
            const M t = *b.m;
            *a.m = t;
            break;
        }
        case 10:
        {
            what = "move construct from " + b.path;
            val c(std::move(*b.v));
            VH_CHECK(b.v->is_null(), "moved-from value is not null after " << what);
            const M t = *b.m;
            *b.m = M::null();
            VH_CHECK(diff(t, model<J>(c)).empty(), what);
            auto a2 = pick_part<J>(vs[i], ms[i], r, "v" + std::to_string(i));
            what += ", then " + a2.path + " = it";
            *a2.v = std::move(c);
            VH_CHECK(c.is_null(), "moved-from value is not null after " << what);
            *a2.m = t;
            break;
        }
        case 11:                  // change something deep
        {
            what = "change " + a.path;
            M t = gen_scalar(r, g);
            *a.v = build<J>(t, &r);
            *a.m = t;
            break;
        }
        case 12:                  // append a copy of any part, possibly of the value itself
        {
            if (a.m->k != M::Arr || nodes(*a.m) > 400 || nodes(*b.m) > 200) { what = "-"; break; }
            what = a.path + ".push_back(" + b.path + ")";
            const M t = *b.m;
            if (r.chance(1, 2)) a.v->push_back(*b.v);
            else a.v->emplace_back(*b.v);
            a.m->a.push_back(t);
            break;
        }
        case 13:                  // add a member holding a copy of any part
        {
            if (a.m->k != M::Obj || nodes(*a.m) > 400 || nodes(*b.m) > 200) { what = "-"; break; }
            const U32 k = gen_key(r);
            what = a.path + "." + show(k, 12) + " = copy of " + b.path;
            const M t = *b.m;
            val     c(*b.v);
            (*a.v)[Enc<Ch<J>>::put(k)] = c;
            a.m->member(k) = t;
            break;
        }
        case 14:                  // write through a reference to the stored data
        {
            what = "write into " + a.path;
            switch (a.m->k)
            {
            case M::Str: { auto& s = a.v->template get<St<J>&>(); s += Enc<Ch<J>>::put(u("!")); a.m->s += U'!'; break; }
            case M::Int: a.v->template get<typename val::integer_type&>() = 41; a.m->i = 41; break;
            case M::Bool: { bool& x = a.v->template get<bool&>(); x = !x; a.m->b = !a.m->b; break; }
            case M::Flt: a.v->template get<double&>() = 0.75; a.m->f = 0.75; break;
            case M::Arr: if (!a.m->a.empty()) { a.v->template get<typename val::array_type&>().pop_back(); a.m->a.pop_back(); } break;
            case M::Obj: a.v->clear(); a.m->o.clear(); break;
            default: break;
            }
            break;
        }
        case 15:                  // a growing vector of values moves them about
        {
            what = "list of values";
            list.push_back(*b.v);
            mlist.push_back(*b.m);
            if (list.size() > 1 && r.chance(1, 2))
            {
                const size_t x = r.below(list.size()), y = r.below(list.size());
                std::swap(list[x], list[y]);
                if (x != y) std::swap(mlist[x], mlist[y]);
                list.insert(list.begin() + long(x), list[y]);
                const M t = mlist[y];
                mlist.insert(mlist.begin() + long(x), t);
                list.erase(list.begin());
                mlist.erase(mlist.begin());
            }
            for (size_t k = 0; k < list.size(); ++k)
            {
                const auto d = diff(mlist[k], model<J>(list[k]));
                VH_CHECK(d.empty(), "values in a vector: " << d);
            }
            if (list.size() > 6) { list.clear(); mlist.clear(); }
            break;
        }
        case 16:                  // by value through functions, from a list of values
        {
            what = "by value";
            auto f = [](val x) { return x; };
            val  c = f(*b.v);
            c = f(std::move(c));
            *a.v = typename J::array{ c, *b.v, val(1) };
            M t = M::arr();
            t.a = { *b.m, *b.m, M::integer(1) };
            if (nodes(t) > 600) { t = M::null(); *a.v = nullptr; }
            *a.m = t;
            break;
        }
        case 17:                  // a chain
        {
            what = a.path + " = " + b.path + " = scalar";
            if (inside(a.m, b.m) || inside(b.m, a.m)) { what = "-"; break; }
            const M t = gen_scalar(r, g);
            *a.v = *b.v = build<J>(t);
            *a.m = t;
            *b.m = t;
            break;
        }
        case 18:                  // whole values to and from parts of themselves
        {
            auto p = pick_part<J>(vs[i], ms[i], r, "v" + std::to_string(i));
            const bool up = r.chance(1, 2);
            what = up ? "v" + std::to_string(i) + " = " + p.path : p.path + " = v" + std::to_string(i);
            if (!up && nodes(ms[i]) > 300) { what = "-"; break; }
            const M t = up ? *p.m : ms[i];
            if (up) { if (r.chance(1, 2) && !p.whole) vs[i] = std::move(*p.v); else vs[i] = *p.v; ms[i] = t; }
            else { *p.v = vs[i]; *p.m = t; }
            break;
        }
        default:
        {
            what = a.path + " rebuilt";
            const M t = gen_value(r, g);
            *a.v = build<J>(t, &r);
            *a.m = t;
            break;
        }
        }
        if (what == "-") continue;
        log += what + "; ";
        ctx.count("operations");
        for (size_t k = 0; k < N; ++k)
        {
            const auto d = diff(ms[k], model<J>(vs[k]));
            VH_CHECK(d.empty(), "v" << k << " after " << what << ": " << d << "; history: " << log.substr(log.size() > 900 ? log.size() - 900 : 0));
            if (nodes(ms[k]) > 500) { ms[k] = M::null(); vs[k] = nullptr; }
        }
        ctx.evals(1);
        ctx.seen(mix(hash_m(ms[i]) ^ hash_str(what)));
    }
    if (ctx.want_sample()) ctx.sample(log);
}
}  // namespace

VH_PART(histories, 2400, 50000)
{
    const Rng saved = ctx.rng;
    check_no_leak("a history of copies and moves", [&] {
        ctx.rng = saved;
        if (ctx.index % 3) history<json>(ctx, 60);
        else history<wjson>(ctx, 60);
    });
}
// every kind assigned, moved and swapped over every kind
VH_PART(kinds, 49, 49)
{
    auto& r = ctx.rng;
    auto  sample = [&](u64 k) {
        switch (k)
        {
        case 0: return M::null();
        case 1: return M::boolean(true);
        case 2: return M::integer(gen_int(r));
        case 3: return M::flt(gen_dbl(r));
        case 4: return M::str(gen_str(r, 60));
        case 5: { M m = M::arr(); m.a = { M::integer(1), M::str(u("two")), M::arr() }; return m; }
        default: { M m = M::obj(); m.o.emplace_back(u("k"), M::str(u("v"))); return m; }
        }
    };
    for (int rep = 0; rep < 20; ++rep)
    {
        const M x = sample(ctx.index % 7), y = sample(ctx.index / 7);
        ctx.seen(hash_m(x) ^ mix(hash_m(y)));
        check_no_leak("assigning kinds", [&] {
            auto is = [](const json::value& v, const M& m) { return diff(m, model<json>(v)).empty(); };
            {
                auto a = build<json>(x), b = build<json>(y);
                a = b;
                VH_CHECK(is(a, y) && is(b, y), "copy assignment " << show(x) << " <- " << show(y));
            }
            {
                auto a = build<json>(x), b = build<json>(y);
                a = std::move(b);
                VH_CHECK(is(a, y) && b.is_null(), "move assignment " << show(x) << " <- " << show(y));
            }
            {
                auto a = build<json>(x), b = build<json>(y);
                a.swap(b);
                VH_CHECK(is(a, y) && is(b, x), "swap " << show(x) << " " << show(y));
                std::swap(a, b);
                VH_CHECK(is(a, x) && is(b, y), "std::swap " << show(x) << " " << show(y));
            }
            {
                auto a = build<json>(x), b = build<json>(y);
                json::value c(a), d(std::move(b));
                VH_CHECK(is(c, x) && is(a, x) && is(d, y) && b.is_null(), "construction " << show(x) << " " << show(y));
                b = c;
                VH_CHECK(is(b, x), "reuse of a moved-from value " << show(x));
                b = json::value();
                VH_CHECK(b.is_null() && is(c, x), "null over " << show(x));
                a = nullptr;
                VH_CHECK(a.is_null() && is(c, x), "null over " << show(x));
            }
        });
        ctx.evals(4);
    }
}
// deep and wide values
VH_PART(large, 60, 600)
{
    auto&        r = ctx.rng;
    const size_t n = 1 + r.below(1024);
    const Rng    saved = r;
    check_no_leak("copying large values", [&] {
        r = saved;
        M m = M::integer(1);
        if (ctx.index % 2) for (size_t i = 0; i < n; ++i) { M e = i % 3 ? M::arr() : M::obj(); if (i % 3) e.a.push_back(std::move(m)); else e.o.emplace_back(u("k"), std::move(m)); m = std::move(e); }
        else { M a = M::arr(); for (size_t i = 0; i < n * 20; ++i) a.a.push_back(i % 5 ? M::integer(int64_t(i)) : M::str(gen_str(r, 20))); m = a; }
        ctx.seen(hash_m(m));
        auto a = build<json>(m, &r);
        auto b = a;
        VH_CHECK(diff(m, model<json>(b)).empty(), "copy of a large value");
        auto c = std::move(a);
        VH_CHECK(a.is_null() && diff(m, model<json>(c)).empty(), "move of a large value");
        c.swap(b);
        b = c;
        c = nullptr;
        VH_CHECK(diff(m, model<json>(b)).empty(), "assignment of a large value");
        json::value w(value_constant::array);
        for (int i = 0; i < 40; ++i) w.push_back(i % 8 ? json::value(i) : b);
        VH_CHECK(w.size() == 40 && diff(m, model<json>(w[size_t(32)])).empty(), "large value in a growing array");
    });
}
