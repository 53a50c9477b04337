// C14: every allocation of an operation is made to fail once (and, separately, from there on), and every conversion of a
// user type is made to throw; what must hold afterwards is checked on the values that took part.
#define VH_ALLOC_HOOK
#include "lib.hpp"
#include <iomanip>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <array>
#include <unordered_map>
#include <unordered_set>
using namespace vh;

namespace
{
using val = json::value;

struct Counting : configor::error_handler
{
    int calls = 0;
    void handle(std::exception_ptr) override { ++calls; }
};

// a user type whose conversions throw at a chosen point
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
struct Bomb
{
    static int& fuse() { static int f = -1; return f; }
    static void tick() { if (fuse() >= 0 && fuse()-- == 0) throw Boom(); }
    int n = 0;
    bool operator==(const Bomb& b) const { return n == b.n; }
    bool operator<(const Bomb& b) const { return n < b.n; }
    friend void to_value(val& c, const Bomb& b)
    {
        Bomb::tick();
        c["n"] = b.n;
        Bomb::tick();
        c["text"] = std::string(40, 't');
        Bomb::tick();
    }
    friend void from_value(const val& c, Bomb& b)
    {
        Bomb::tick();
        b.n = c.at("n").get<int>();
        Bomb::tick();
    }
};

struct State
{
    val         a, b, c;      // a: target, b: source, c: bystander
    M           ma, mb, mc;
    std::string text;         // what a parser reads
    std::string out;
    DumpOpt     opt;
    std::vector<std::string>                                v1, v1r;
    std::map<std::string, std::vector<std::string>>         v2, v2r;
    std::vector<Bomb>                                       bombs, bombsr;
    std::list<std::map<std::string, std::shared_ptr<Bomb>>> nest, nestr;
    std::deque<std::string>                                 dq;
    std::forward_list<std::string>                          fl;
    std::set<std::string>                                   se;
    std::unordered_set<std::string>                         us;
    std::unordered_map<std::string, std::string>            um;
    std::array<std::string, 3>                              ar;
    std::shared_ptr<std::string>                            sp;
    std::unique_ptr<std::vector<std::string>>               up;
    bool                                                    flag = true;
    Counting                                                h;
    configor::error_handler_with<configor::error_policy::record> rec;
    configor::error_handler_with<configor::error_policy::ignore> ign;
    configor::error_handler_with<configor::error_policy::strict> str;
    std::wstring                                            wtext, wout;
    wjson::value                                            w;
    Rng                                                     r;
};

struct Scenario
{
    const char* name;
    void (*op)(State&);
    // ok: the operation returned normally (its result must then be right)
    void (*check)(State&, bool ok);
};

void keeps(const val& v, const M& m, const char* what)
{
    const auto d = diff(m, model<json>(v));
    VH_CHECK(d.empty(), what << ": " << d);
}
void same_b(State& s) { keeps(s.b, s.mb, "the source of a failed operation changed"); }
void reads_back(const std::string& text, const M& m, const DumpOpt& o)
{
    M    got;
    U32  t;
    VH_CHECK(from8(text, t), "ill-formed text reported as complete");
    RefReader r(t, true);
    const auto v = r.read(got);
    VH_CHECK(v == Verdict::Accept, "text reported as complete is not well-formed: " << text.substr(0, 300));
    const auto d = diff_text(m, got, o, true);
    VH_CHECK(d.empty(), "text reported as complete differs: " << d);
}

typename json::parser_type<char>::option eh(configor::error_handler* h) { return json::parser_type<char>::with_error_handler(h); }

const Scenario scenarios[] = {
    { "copy construction", [](State& s) { val t(s.b); s.flag = t == s.b; }, [](State& s, bool) { VH_CHECK(s.flag, "copy differs"); same_b(s); } },
    { "copy assignment", [](State& s) { s.a = s.b; }, [](State& s, bool ok) { same_b(s); keeps(s.a, ok ? s.mb : s.ma, "the target of copy assignment"); } },
    { "copy assignment of a part to the whole", [](State& s) { s.b = static_cast<const val&>(*s.b.begin()); }, [](State& s, bool ok) {
          const M so = sorted<char>(s.mb);
          const M first = so.k == M::Arr ? so.a[0] : so.k == M::Obj ? so.o[0].second : so;
          keeps(s.b, ok ? first : s.mb, "the target of copy assignment"); } },
    { "copy assignment of the whole to a part", [](State& s) { *s.b.begin() = static_cast<const val&>(s.b); }, [](State& s, bool ok) {
          if (s.mb.k != M::Arr && s.mb.k != M::Obj) { same_b(s); return; }
          M so = sorted<char>(s.mb);
          if (ok) (so.k == M::Arr ? so.a[0] : so.o[0].second) = s.mb;
          keeps(s.b, so, "the target of copy assignment"); } },
    { "appending a copy", [](State& s) { s.a.push_back(s.b); }, [](State& s, bool) { same_b(s); } },
    { "appending a temporary", [](State& s) { for (int i = 0; i < 5; ++i) s.a.emplace_back(std::string(30, 'x')); }, [](State&, bool) {} },
    { "writing by key", [](State& s) { val& v = s.c; v["a key that is long enough to be allocated"]["inner"][size_t(2)] = s.b; }, [](State& s, bool ok) { same_b(s); if (ok) VH_CHECK(s.c["a key that is long enough to be allocated"]["inner"][size_t(2)] == s.b, "written element differs"); } },
    { "writing by index", [](State& s) { s.c[size_t(9)] = s.b; s.c[size_t(30)] = true; }, [](State& s, bool ok) { same_b(s); if (ok) VH_CHECK(s.c.size() == 31 && s.c[size_t(9)] == s.b && s.c[size_t(10)].is_null(), "written element differs"); } },
    { "writing by a string key into null", [](State& s) { s.c = nullptr; const std::string k(30, 'k'); s.c[k] = s.b; }, [](State& s, bool ok) { same_b(s); if (ok) VH_CHECK(s.c.size() == 1 && s.c[std::string(30, 'k')] == s.b, "written element differs"); else VH_CHECK(s.c.is_null() || s.c.is_object(), "a failed write changed the kind"); } },
    { "appending to null", [](State& s) { s.c = nullptr; s.c.push_back(s.b); }, [](State& s, bool ok) { same_b(s); if (ok) VH_CHECK(s.c.size() == 1 && s.c[size_t(0)] == s.b, "written element differs"); else VH_CHECK(s.c.is_null() || (s.c.is_array() && s.c.empty()), "a failed write changed the value"); } },
    { "emplacing into null", [](State& s) { s.c = nullptr; s.c.emplace_back(s.v1); }, [](State& s, bool ok) { if (ok) VH_CHECK(s.c.size() == 1 && s.c[size_t(0)].size() == s.v1.size(), "written element differs"); else VH_CHECK(s.c.is_null() || s.c.is_array(), "a failed write changed the kind"); } },
    { "writing by index into null", [](State& s) { s.c = nullptr; s.c[size_t(3)] = s.b; }, [](State& s, bool ok) { same_b(s); if (ok) VH_CHECK(s.c.size() == 4 && s.c[size_t(3)] == s.b && s.c[size_t(2)].is_null(), "written element differs"); else VH_CHECK(s.c.is_null() || s.c.is_array(), "a failed write changed the kind"); } },
    { "writing by a new key into a used object", [](State& s) { for (int i = 0; i < 3; ++i) s.c[std::string(28, char('a' + i))] = s.v1; }, [](State& s, bool ok) { if (ok) VH_CHECK(s.c.size() == 3 && s.c[std::string(28, 'b')].size() == s.v1.size(), "written element differs"); } },
    { "set to a kind", [](State& s) { s.a = value_constant::object; s.a = value_constant::string; s.a = value_constant::array; }, [](State& s, bool ok) { if (ok) VH_CHECK(s.a.is_array() && s.a.empty(), "kind"); } },
    { "array builder", [](State& s) { json::array l{ s.b, s.b, std::string(50, 'q'), 1, nullptr }; s.a = l; }, [](State& s, bool ok) { same_b(s); if (ok) VH_CHECK(s.a.size() == 5 && s.a[size_t(1)] == s.b, "built array differs"); } },
    { "object builder", [](State& s) { s.a = configor::make_object<val>({ { "one", s.b }, { "a second key that is long", s.b }, { "three", 3.5 } }); }, [](State& s, bool ok) { same_b(s); if (ok) VH_CHECK(s.a.size() == 3 && s.a["one"] == s.b, "built object differs"); else keeps(s.a, s.ma, "the target of a failed assignment"); } },
    { "value of a kind", [](State& s) { val x(value_constant::object), y(value_constant::array), z(value_constant::string); s.flag = x.is_object() && y.is_array() && z.is_string(); }, [](State& s, bool) { VH_CHECK(s.flag, "kind"); } },
    { "from a vector", [](State& s) { s.a = s.v1; }, [](State& s, bool ok) { if (ok) VH_CHECK(s.a.size() == s.v1.size(), "size"); else keeps(s.a, s.ma, "the target of a failed assignment"); } },
    { "from a map of vectors", [](State& s) { val t(s.v2); s.c = t; }, [](State& s, bool ok) { if (ok) VH_CHECK(s.c.size() == s.v2.size(), "size"); } },
    { "conversion into a used value", [](State& s) { configor::to_value(s.a, s.v2); }, [](State& s, bool ok) { if (ok) VH_CHECK(s.a.size() == s.v2.size(), "size"); } },
    { "string into a used value", [](State& s) { configor::to_value(s.a, s.v1[0]); }, [](State& s, bool ok) { if (ok) VH_CHECK(s.a.get<std::string>() == s.v1[0], "text"); } },
    { "C string and literal", [](State& s) { s.a = "a literal long enough to be allocated"; s.c = s.v1[0].c_str(); }, [](State&, bool) {} },
    { "from other containers", [](State& s) { val x(s.dq), y(s.fl), z(s.se); val u(s.us), v(s.um), w(s.ar), p(s.sp), q(s.up); s.flag = x.size() == s.dq.size() && v.size() == s.um.size() && q.size() == s.up->size(); }, [](State& s, bool) { VH_CHECK(s.flag, "size"); } },
    { "to a vector", [](State& s) { s.v1r = val(s.v1).get<std::vector<std::string>>(); }, [](State& s, bool ok) { if (ok) VH_CHECK(s.v1r == s.v1, "converted back differs"); } },
    { "non-throwing access to a vector", [](State& s) { val t(s.v1); s.flag = t.get(s.v1r); }, [](State& s, bool ok) { if (ok && s.flag) VH_CHECK(s.v1r == s.v1, "non-throwing access reports success with other data"); } },
    { "to a map of vectors", [](State& s) { s.v2r = val(s.v2).get<std::map<std::string, std::vector<std::string>>>(); }, [](State& s, bool ok) { if (ok) VH_CHECK(s.v2r == s.v2, "converted back differs"); } },
    { "to other containers", [](State& s) {
          std::deque<std::string> d; std::forward_list<std::string> f; std::set<std::string> e; std::unordered_set<std::string> u; std::unordered_map<std::string, std::string> m; std::array<std::string, 3> a; std::shared_ptr<std::string> p; std::unique_ptr<std::vector<std::string>> q;
          configor::from_value(val(s.dq), d); configor::from_value(val(s.fl), f); configor::from_value(val(s.se), e); configor::from_value(val(s.us), u); configor::from_value(val(s.um), m); configor::from_value(val(s.ar), a); configor::from_value(val(s.sp), p); configor::from_value(val(s.up), q);
          s.flag = d == s.dq && f == s.fl && e == s.se && u == s.us && m == s.um && a == s.ar && *p == *s.sp && *q == *s.up; }, [](State& s, bool) { VH_CHECK(s.flag, "converted back differs"); } },
    { "string access", [](State& s) { const val t(s.v1[0]); s.flag = t.get<std::string>() == s.v1[0]; std::string x("old"); const bool g = t.get(x); s.flag = s.flag && (g ? x == s.v1[0] : x == "old"); }, [](State& s, bool) { VH_CHECK(s.flag, "string access"); } },
    { "user conversion", [](State& s) { s.a = s.bombs; s.bombsr = s.a.get<std::vector<Bomb>>(); }, [](State& s, bool ok) { if (ok) VH_CHECK(s.bombsr == s.bombs, "converted back differs"); } },
    { "nested user conversion", [](State& s) { val t(s.nest); s.nestr = t.get<std::list<std::map<std::string, std::shared_ptr<Bomb>>>>(); }, [](State& s, bool ok) { if (ok) VH_CHECK(s.nestr.size() == s.nest.size(), "converted back differs"); } },
    { "user conversion into a used value", [](State& s) { configor::to_value(s.a, s.bombs); s.c = s.bombs[0]; }, [](State&, bool) {} },
    { "parsing a string", [](State& s) { s.a = json::parse<char>(s.text); }, [](State& s, bool ok) { keeps(s.a, ok ? s.mb : s.ma, "parsing"); } },
    { "parsing in place", [](State& s) { json::parse<char>(s.a, s.text); }, [](State& s, bool ok) { if (ok) keeps(s.a, s.mb, "parsing"); } },
    { "parsing a C string", [](State& s) { s.a = json::parse<char>(s.text.c_str()); }, [](State& s, bool ok) { keeps(s.a, ok ? s.mb : s.ma, "parsing"); } },
    { "parsing a stream", [](State& s) { InBuf<char> b(s.text, 3); std::istream is(&b); json::parse(s.a, is); }, [](State& s, bool ok) { if (ok) keeps(s.a, s.mb, "parsing"); } },
    { "parsing an adapter", [](State& s) { StrAdapterIn<char> a(s.text); configor::iadapterstream is(a); json::parse(s.a, is); }, [](State& s, bool ok) { if (ok) keeps(s.a, s.mb, "parsing"); } },
    { "extraction", [](State& s) { std::istringstream is(s.text); is >> json::wrap(s.a); s.flag = !is.bad(); }, [](State& s, bool ok) { if (ok && s.flag) keeps(s.a, s.mb, "parsing"); } },
    { "extraction of data", [](State& s) { std::istringstream is("[\"some text that is long enough\",\"x\"]"); is >> json::wrap(s.v1r); s.flag = is.bad() || s.v1r.size() == 2; }, [](State& s, bool ok) { if (ok) VH_CHECK(s.flag, "extracted data differ"); } },
    { "parsing with a handler", [](State& s) { json::parse<char>(s.a, s.text, { eh(&s.h) }); }, [](State& s, bool ok) { if (ok && !s.h.calls) keeps(s.a, s.mb, "parsing without report"); VH_CHECK(s.h.calls <= 1, "handler called " << s.h.calls << " times"); } },
    { "parsing with a recording handler", [](State& s) { json::parse<char>(s.a, s.text, { eh(&s.rec) }); }, [](State& s, bool ok) { if (ok && s.rec.error.empty()) keeps(s.a, s.mb, "parsing without report"); } },
    { "parsing with a strict handler", [](State& s) { json::parse<char>(s.a, s.text, { eh(&s.str) }); }, [](State& s, bool ok) { if (ok) keeps(s.a, s.mb, "parsing without report"); } },
    { "parsing with an ignoring handler", [](State& s) { json::parse<char>(s.a, s.text, { eh(&s.ign) }); }, [](State&, bool) {} },
    { "parsing wide text", [](State& s) { s.w = wjson::parse<wchar_t>(s.wtext); }, [](State& s, bool ok) { if (ok) { const auto d = diff(s.mb, model<wjson>(s.w)); VH_CHECK(d.empty(), "parsing wide text: " << d); } } },
    { "parsing wide text into narrow", [](State& s) { s.a = json::parse<wchar_t>(s.wtext); }, [](State& s, bool ok) { keeps(s.a, ok ? s.mb : s.ma, "parsing"); } },
    { "failing parse", [](State& s) { s.text.back() = '!'; try { json::parse<char>(s.a, s.text); s.flag = false; } catch (const configor::configor_deserialization_error&) { throw; } }, [](State& s, bool ok) { VH_CHECK(!ok && s.flag, "malformed text was accepted"); } },
    { "dumping to a returned string", [](State& s) { s.out = dump_via<json, char>(SnkReturn, s.b, s.opt); }, [](State& s, bool ok) { same_b(s); if (ok) reads_back(s.out, s.mb, s.opt); } },
    { "dumping to a string", [](State& s) { json::dump<char>(s.out, s.b); }, [](State& s, bool ok) { same_b(s); if (ok) reads_back(s.out, s.mb, DumpOpt()); } },
    { "dumping to a stream", [](State& s) { std::ostringstream os; Opts<json, char> p(s.opt); json::dump<char>(os, s.b, { p.indent, p.escape, p.prec }); s.flag = !os; s.out = os.str(); }, [](State& s, bool ok) { same_b(s); if (ok && !s.flag) reads_back(s.out, s.mb, s.opt); } },
    { "dumping to a chunked stream", [](State& s) { OutBuf<char> b(7); std::ostream os(&b); json::dump<char>(os, s.b); s.flag = !os; s.out = b.text(); }, [](State& s, bool ok) { same_b(s); if (ok && !s.flag) reads_back(s.out, s.mb, DumpOpt()); } },
    { "dumping to an adapter", [](State& s) { StrAdapterOut<char> a; configor::oadapterstream os(a); json::dump<char>(os, s.b); s.out = a.s; }, [](State& s, bool ok) { same_b(s); if (ok) reads_back(s.out, s.mb, DumpOpt()); } },
    { "insertion", [](State& s) { std::ostringstream os; os << std::setw(3) << json::wrap(s.b); s.flag = !os; s.out = os.str(); }, [](State& s, bool ok) { same_b(s); if (ok && !s.flag) reads_back(s.out, s.mb, DumpOpt()); } },
    { "dumping with a handler", [](State& s) { json::dump<char>(s.out, s.b, { json::serializer_type<char>::with_error_handler(&s.h) }); }, [](State& s, bool ok) { same_b(s); VH_CHECK(s.h.calls <= 1, "handler called " << s.h.calls << " times"); if (ok && !s.h.calls) reads_back(s.out, s.mb, DumpOpt()); } },
    { "dumping wide text", [](State& s) { s.wout = json::dump<wchar_t>(s.b); }, [](State& s, bool ok) { same_b(s); if (ok) { U32 t; VH_CHECK(from32(s.wout, t), "ill-formed"); reads_back(to8(t), s.mb, DumpOpt()); } } },
    { "comparing and reading", [](State& s) { s.flag = s.b == s.b && !(s.b < s.b) && s.b.count("x") <= 1 && (s.b.find("x") == s.b.end() || s.b.is_object()); for (auto it = s.b.rbegin(); it != s.b.rend(); ++it) s.flag = s.flag && (*it == *it); }, [](State& s, bool) { same_b(s); VH_CHECK(s.flag, "comparing"); } },
    { "checked access that throws", [](State& s) { val x; x["k"] = 1; x.at("no such key in this object at all"); }, [](State&, bool ok) { VH_CHECK(!ok, "a missing key was found"); } },
    { "erasing", [](State& s) { while (s.b.size() && (s.b.is_array() || s.b.is_object())) s.b.erase(s.b.begin()); s.b.clear(); }, [](State&, bool) {} },
};
constexpr size_t kScenarios = sizeof scenarios / sizeof scenarios[0];

void prepare(State& s, Ctx& ctx, const Rng& saved)
{
    AllocOff off;
    s.r = saved;
    auto& r = s.r;
    GenOpt g;
    g.depth = 3;
    g.width = 4;
    g.strlen = 24;
    s.ma = gen_value(r, g);
    do s.mb = gen_value(r, g); while (nodes(s.mb) < 2 || nodes(s.mb) > 14);
    s.a = build<json>(s.ma);
    s.b = build<json>(s.mb);
    s.opt = gen_dump_opt(r);
    if (s.opt.indent > 8) s.opt.indent = 2;
    // text that reads as mb (floats exactly)
    {
        DumpOpt o;
        o.prec = 17;
        o.flags = std::ios::scientific;
        s.text = dump_as<json>(s.b, o);
        s.wtext = dump_as<json, wchar_t>(s.b, o);
        // floats read to 1e-12, so take what is read without a fault
        s.mb = model<json>(json::parse<char>(s.text));
        s.b  = build<json>(s.mb);
    }
    for (size_t i = 0; i < 3; ++i) s.v1.push_back(std::string(10 + i * 12, char('a' + i)));
    s.v1r = { "old" };
    s.v2[std::string(25, 'k')] = s.v1;
    s.v2["short"] = {};
    s.bombs.resize(3);
    s.bombs[1].n = 4;
    s.nest.resize(2);
    s.nest.front()["bomb"] = std::make_shared<Bomb>();
    s.nest.back()["none"];
    s.dq.assign(s.v1.begin(), s.v1.end());
    s.fl.assign(s.v1.begin(), s.v1.end());
    s.se.insert(s.v1.begin(), s.v1.end());
    s.us.insert(s.v1.begin(), s.v1.end());
    s.um["k"] = s.v1[1];
    s.ar = { { s.v1[0], s.v1[1], s.v1[2] } };
    s.sp = std::make_shared<std::string>(s.v1[2]);
    s.up.reset(new std::vector<std::string>(s.v1));
    (void)ctx;
}

// a value that took part can be inspected, copied, compared, dumped, changed and destroyed
void usable(val& v)
{
    const M    m = model<json>(v);
    val        t(v);
    VH_CHECK(diff(m, model<json>(t)).empty(), "a copy of a value that took part in a failed operation differs");
    (void)(t == v);
    // a half-parsed string may not be dumpable
    try { (void)json::dump<char>(v); }
    catch (const configor::configor_serialization_error&) {}
    v = 5;
    VH_CHECK(v == 5, "a value that took part in a failed operation cannot be assigned");
    v = std::move(t);
    VH_CHECK(diff(m, model<json>(v)).empty(), "a value that took part in a failed operation cannot be assigned");
    v = nullptr;
    v["k"][size_t(1)] = 1;
}

// runs the scenario with the n-th allocation (or tick of a user conversion) failing; false when there is no n-th
bool one(Ctx& ctx, const Scenario& sc, const Rng& saved, long n, bool sticky, bool bombs)
{
    State s;
    prepare(s, ctx, saved);
    const long before = Alloc::injected();
    bool       ok = true, boom = false;
    Alloc::sticky() = sticky;
    if (bombs) Bomb::fuse() = int(n); else Alloc::fail_at() = n;
    std::string odd;
    try
    {
        sc.op(s);
    }
    catch (const std::bad_alloc&) { ok = false; }
    catch (const configor::configor_exception&) { ok = false; }
    catch (const std::out_of_range&) { ok = false; }
    catch (const Boom&) { ok = false; boom = true; }
    catch (const std::exception& e) { ok = false; AllocOff off; odd = e.what(); }
    catch (...) { ok = false; AllocOff off; odd = "unknown"; }
    const bool fired = bombs ? Bomb::fuse() < 0 : Alloc::injected() > before;
    Alloc::fail_at() = -1;
    Alloc::sticky() = false;
    Bomb::fuse() = -1;
    VH_CHECK(odd.empty(), sc.name << ": a failure came out as another exception: " << odd);
    if (bombs && fired) VH_CHECK(boom, sc.name << ": an exception of a user conversion was not passed on");
    if (fired) ctx.count(ok ? "faults_absorbed" : "faults_reported");
    try
    {
        sc.check(s, ok);
        usable(s.a);
        usable(s.b);
        usable(s.c);
    }
    catch (const Fail& f) { VH_FAIL(sc.name << " with failure " << n << (bombs ? " of user conversions" : sticky ? " of allocations and all later ones" : " of allocations") << (ok ? " (returned normally)" : " (threw)") << ": " << f.what()); }
    return fired;
}
}  // namespace

VH_PART(allocations, kScenarios * 48, kScenarios * 400)
{
    const auto& sc    = scenarios[ctx.index % kScenarios];
    const Rng   saved = ctx.rng;
    const bool  sticky = ctx.index / kScenarios % 2;
    // once without failing, which also makes the library's and the standard library's statics
    one(ctx, sc, saved, 1000000, false, false);
    long n = 0;
    for (bool more = true; more && n < 1500; ++n)
    {
        check_no_leak(sc.name, [&] { more = one(ctx, sc, saved, n, sticky, false); });
        ctx.evals(1);
        ctx.seen(mix(ctx.index) ^ u64(n));
    }
    VH_CHECK(n < 1500, "harness: too many allocations in " << sc.name);
    if (ctx.want_sample()) ctx.sample(S() << sc.name << ": " << n << " failure points");
    ctx.count("failure_points", u64(n));
}

VH_PART(conversions, kScenarios * 8, kScenarios * 40)
{
    const auto& sc    = scenarios[ctx.index % kScenarios];
    const Rng   saved = ctx.rng;
    one(ctx, sc, saved, 1000000, false, false);
    long n = 0;
    for (bool more = true; more && n < 200; ++n)
    {
        check_no_leak(sc.name, [&] { more = one(ctx, sc, saved, n, false, true); });
        ctx.evals(1);
    }
    ctx.seen(ctx.index);
    ctx.count("conversion_failure_points", u64(n));
}

// moving and swapping neither throw nor allocate
VH_PART(moves, 2000, 40000)
{
    auto&  r = ctx.rng;
    GenOpt g;
    const M mx = gen_value(r, g), my = gen_value(r, g);
    ctx.seen(mix(hash_m(mx)) ^ hash_m(my));
    val x = build<json>(mx), y = build<json>(my);
    long spent;
    {
        const long total = Alloc::total();
        Alloc::fail_at() = 0;
        try
        {
            val z(std::move(x));
            x = std::move(y);
            y = std::move(z);
            x.swap(y);
            using std::swap;
            swap(x, y);
            x.swap(x);
            Alloc::fail_at() = -1;
        }
        catch (...) { Alloc::fail_at() = -1; VH_FAIL("moving or swapping threw"); }
        spent = Alloc::total() - total;
    }
    VH_CHECK(spent == 0, "moving and swapping allocated " << spent << " times");
    keeps(x, my, "moved and swapped");
    keeps(y, mx, "moved and swapped");
    static_assert(std::is_nothrow_move_constructible<val>::value, "move construction may throw");
    static_assert(std::is_nothrow_destructible<val>::value, "destruction may throw");
    // growing an array moves its elements, so that a failure loses nothing
    val a(value_constant::array);
    for (int i = 0; i < 20; ++i) a.push_back(std::string(30, 'x'));
    Alloc::fail_at() = 0;
    bool threw = false;
    for (int i = 0; i < 40 && !threw; ++i)
    {
        try { a.push_back(nullptr); }
        catch (const std::bad_alloc&) { threw = true; }
    }
    Alloc::fail_at() = -1;
    VH_CHECK(threw, "harness: growth does not allocate");
    for (size_t i = 0; i < 20; ++i) VH_CHECK(a[i] == val(std::string(30, 'x')), "failed growth damaged element " << i);
}
