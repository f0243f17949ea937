// C09: calls on a block dispatch to the registered function with matching arguments.
#include "simdstub.hpp"
#include "values.hpp"
#include "common.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Callable.hpp>
using namespace pbt;
using Pothos::Object; using Pothos::Proxy; using Pothos::Callable;

struct State { std::vector<std::string> log; int throwing = 0; };
static State &st(void) { static State s; return s; }
static std::string arg(const Object &o) { return values::text(o); }
inline std::string cat(void) { return ""; }
template <typename T, typename... A> std::string cat(const T &a, const A &... m) { return arg(Object(a)) + "," + cat(m...); }
template <typename... A> std::string cat(const Object &a, const A &... m) { return "obj<" + arg(a) + ">," + cat(m...); }
static int digest(const std::string &s) { unsigned h = 17; for (char c : s) h = h * 31 + (unsigned char)c; return int(h % 1000); }
static void enter(const std::string &w)
{
    st().log.push_back(w); const std::string m = "thrown by " + w.substr(0, 5);
    if (st().throwing == 1) throw Pothos::NotFoundException(m, "why"); if (st().throwing == 2) throw std::runtime_error(m); if (st().throwing == 3) throw Pothos::BlockCallNotFound(m); if (st().throwing == 4) throw Pothos::CallableArgumentError(m); if (st().throwing == 5) throw Pothos::RangeException(m);
}
//! the functions to register, the same for blocks and topologies
template <typename Base> struct Fns: Base
{
    int id; Fns(int id): id(id) {}
    std::string head(const char *f) const { return std::string(f) + "#" + std::to_string(id) + "("; }
    int f0(int a) { const auto w = head("f0") + cat(a) + ")"; enter(w); return digest(w); }
    std::string f1(const std::string &a) const { const auto w = head("f1") + cat(a) + ")"; enter(w); return w; }
    void f2(void) { enter(head("f2") + ")"); }
    double f3(int a, int b) { const auto w = head("f3") + cat(a, b) + ")"; enter(w); return digest(w) + 0.5; }
    std::string f4(double a, const std::string &b) { const auto w = head("f4") + cat(a, b) + ")"; enter(w); return w; }
    int f5(const std::vector<int> &a, unsigned char b, const std::string &c) const { const auto w = head("f5") + cat(a, b, c) + ")"; enter(w); return digest(w); }
    Object f6(Object a) { const auto w = head("f6") + cat(a) + ")"; enter(w); return Object(w); }
    void f7(short a) { enter(head("f7") + cat(a) + ")"); }
    void f8(const std::string &a, const std::complex<double> &b) { enter(head("f8") + cat(a, b) + ")"); }
    int f9(unsigned char a, double b, const std::string &c, int d) { const auto w = head("f9") + cat(a, b, c, d) + ")"; enter(w); return digest(w); }
    void add(const std::string &n, size_t i, int how)
    {
        if (how == 1) // given a callable with the instance bound
        {
            static const Callable calls[] = {Callable(&Fns::f0), Callable(&Fns::f1), Callable(&Fns::f2), Callable(&Fns::f3), Callable(&Fns::f4), Callable(&Fns::f5), Callable(&Fns::f6), Callable(&Fns::f7), Callable(&Fns::f8), Callable(&Fns::f9)};
            this->registerCallable(n, Callable(calls[i]).bind(std::ref(*this), 0)); return;
        }
        switch (i) { case 0: this->registerCall(this, n, &Fns::f0); break; case 1: this->registerCall(this, n, &Fns::f1); break; case 2: this->registerCall(this, n, &Fns::f2); break; case 3: this->registerCall(this, n, &Fns::f3); break; case 4: this->registerCall(this, n, &Fns::f4); break; case 5: this->registerCall(this, n, &Fns::f5); break; case 6: this->registerCall(this, n, &Fns::f6); break; case 7: this->registerCall(this, n, &Fns::f7); break; case 8: this->registerCall(this, n, &Fns::f8); break; default: this->registerCall(this, n, &Fns::f9); }
    }
    void addBound(const std::string &n, size_t i, const std::map<size_t, Object> &bound)
    {
        Callable c; switch (i) { case 3: c = Callable(&Fns::f3); break; case 4: c = Callable(&Fns::f4); break; default: c = Callable(&Fns::f9); } c.bind(std::ref(*this), 0); for (auto &b : bound) c.bind(b.second, b.first + 1); this->registerCallable(n, c);
    }
    using Base::opaqueCallMethod;
};
struct Blk: Fns<Pothos::Block> { Blk(int id): Fns<Pothos::Block>(id) { this->registerSignal("sig"); this->setupInput("taken"); } };
struct Topo: Fns<Pothos::Topology> { Topo(int id): Fns<Pothos::Topology>(id) {} };

struct F { std::string name; std::vector<const std::type_info *> params; int ret; }; // ret: 0 number, 1 text, 2 nothing, 3 fraction, 4 object
static const std::vector<F> &methods(void)
{
    static const auto i = &typeid(int), s = &typeid(std::string), d = &typeid(double), u = &typeid(unsigned char);
    static const std::vector<F> m = {{"f0", {i}, 0}, {"f1", {s}, 1}, {"f2", {}, 2}, {"f3", {i, i}, 3}, {"f4", {d, s}, 1}, {"f5", {&typeid(std::vector<int>), u, s}, 0}, {"f6", {&typeid(Object)}, 4}, {"f7", {&typeid(short)}, 2}, {"f8", {s, &typeid(std::complex<double>)}, 2}, {"f9", {u, d, s, i}, 0}};
    return m;
}
struct Entry { size_t fn; std::map<size_t, Object> bound; };
struct Target { bool topo; int id; std::map<std::string, std::vector<Entry>> calls; std::shared_ptr<Blk> b; std::shared_ptr<Topo> t; };
struct Outcome { bool refused; std::string log, result; };
static std::string resultOf(int ret, const std::string &w) { switch (ret) { case 0: return arg(Object(digest(w))); case 3: return arg(Object(digest(w) + 0.5)); case 2: return arg(Object()); case 4: return "obj<" + arg(Object(w)) + ">"; default: return arg(Object(w)); } }
static std::vector<const std::type_info *> params(const Entry &e) { std::vector<const std::type_info *> r; const F &f = methods()[e.fn]; for (size_t i = 0; i < f.params.size(); i++) if (!e.bound.count(i)) r.push_back(f.params[i]); return r; }
static bool accepts(const Entry &e, const std::vector<Object> &a) { const auto p = params(e); if (p.size() != a.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!a[i].canConvert(*p[i])) return false; return true; }
static Outcome direct(const Entry &e, int id, const std::vector<Object> &a)
{
    const F &f = methods()[e.fn]; std::string w = f.name + "#" + std::to_string(id) + "("; size_t n = 0; for (size_t i = 0; i < f.params.size(); i++) { auto it = e.bound.find(i); if (it == e.bound.end() && n >= a.size()) return {true, "", ""}; const Object &in = it != e.bound.end() ? it->second : a[n++]; try { w += arg(in.convert(*f.params[i])) + ","; } catch (const Pothos::Exception &) { return {true, "", ""}; } }
    w += ")"; return {false, w, resultOf(f.ret, w)};
}
static Object genArg(Src &s, const std::type_info *t)
{
    if (!t || s.chance(1, 7)) { switch (s.draw(6)) { case 0: return Object(int(s.range(-5, 300))); case 1: return Object(values::genString(s, 4)); case 2: return Object(double(s.range(-9, 9)) / 2); case 3: return Object(std::vector<int>{1, 2}); case 4: return Object(s.flip()); case 5: return Object(std::complex<double>(1, double(s.range(0, 1)))); default: return values::genObject(s, 1); } }
    if (*t == typeid(std::string)) return Object(values::genString(s, 4)); if (*t == typeid(Object)) return s.flip() ? Object(int(s.range(0, 9))) : Object(values::genString(s, 3));
    if (*t == typeid(std::vector<int>)) { if (s.flip()) return Object(std::vector<int>{int(s.range(0, 9)), 3}); Pothos::ProxyVector pv; pv.push_back(values::managedEnv()->makeProxy(int(s.range(0, 9)))); return Object(pv); }
    if (*t == typeid(std::complex<double>) && s.flip()) return Object(std::complex<float>(float(s.range(-4, 4)), float(s.range(-4, 4))));
    switch (s.draw(4)) { case 0: return Object(int(s.range(-300, 300))); case 1: return Object((unsigned char)(s.draw(255))); case 2: return Object(1e12); case 3: return Object((long long)(s.range(-9, 99))); default: return Object(float(s.range(0, 99))); }
}
static std::string textOf(const std::vector<Object> &a) { std::string r; for (auto &o : a) r += arg(o) + ","; return r; }

static Object spread(const Pothos::CallInterface &x, const std::string &name, const std::vector<Object> &a)
{
    switch (a.size()) { case 0: return x.call(name); case 1: return x.call(name, a[0]); case 2: return x.call(name, a[0], a[1]); case 3: return x.call(name, a[0], a[1], a[2]); case 4: return x.call(name, a[0], a[1], a[2], a[3]); default: return x.call(name, a[0], a[1], a[2], a[3], a[4]); }
}
static void history(Case &c)
{
    auto &s = c.s; st() = State(); std::vector<Target> ts; for (int i = 0; i < 3; i++) { Target t; t.topo = i == 2; t.id = i; if (t.topo) t.t = std::make_shared<Topo>(i); else t.b = std::make_shared<Blk>(i); ts.push_back(t); }
    static const std::vector<std::string> names = {"a", "b", "set", "_p", "taken"}; size_t calls = 0, invoked = 0, overloaded = 0, failed = 0; const size_t steps = size_t(s.small(4, 50)); const auto env = values::managedEnv();
    for (size_t n = 0; n < steps; n++)
    {
        Target &t = ts[s.weighted({4, 1, 2})]; std::ostringstream w; w << "step " << n << " "; st().log.clear(); st().throwing = 0; const char *who = t.topo ? "t" : "b";
        if (n < 2 || s.chance(1, 4)) // register
        {
            const std::string name = s.pick(names); Entry e; e.fn = s.draw(methods().size() - 1); const int how = int(s.draw(2)); c.desc << who << t.id << "." << name << "=" << methods()[e.fn].name;
            if (how == 2 && (e.fn == 3 || e.fn == 4 || e.fn == 9)) { const size_t p = s.draw(methods()[e.fn].params.size() - 1); const auto ty = methods()[e.fn].params[p]; e.bound[p] = *ty == typeid(std::string) ? Object("bound") : Object(int(s.range(0, 20))); c.desc << " with " << p << " bound"; if (t.topo) t.t->addBound(name, e.fn, e.bound); else t.b->addBound(name, e.fn, e.bound); }
            else if (t.topo) t.t->add(name, e.fn, how % 2); else t.b->add(name, e.fn, how % 2);
            c.desc << "; "; if (t.topo) t.calls[name].clear(); t.calls[name].push_back(e); // a topology keeps the last one
            if (!t.topo) { bool slot = false, want = false; for (auto &p : t.b->inputPortInfo()) if (p.name == name && p.isSigSlot) slot = true; for (auto &x : t.calls[name]) want = want || methods()[x.fn].ret == 2; want = want && name[0] != '_' && name != "taken"; PBT_CHECK(slot == want, w.str() << who << t.id << ": " << (want ? "no slot" : "a slot") << " for " << name); }
            PBT_CHECK(st().log.empty(), w.str() << "registering invoked " << st().log[0]); continue;
        }
        std::string name = s.pick(names); if (s.chance(1, 12)) name = s.pick({std::string("f0"), std::string(""), std::string("nothing"), std::string("A"), std::string("a ")}); auto it = t.calls.find(name); std::vector<Object> a;
        if (it == t.calls.end() && s.chance(3, 4) && !t.calls.empty()) { it = t.calls.begin(); std::advance(it, long(s.draw(t.calls.size() - 1))); name = it->first; }
        if (it != t.calls.end() && s.chance(5, 6)) { for (auto p : params(s.pick(it->second))) a.push_back(genArg(s, p)); if (s.chance(1, 8)) { if (s.flip() && !a.empty()) a.pop_back(); else a.push_back(genArg(s, nullptr)); } } else for (size_t i = size_t(s.small(0, 4)); i > 0; i--) a.push_back(genArg(s, nullptr));
        // what may happen
        std::vector<Outcome> want; bool refusal = false; const std::vector<Entry> none; const auto &entries = it == t.calls.end() ? none : it->second;
        for (auto &e : entries) if (accepts(e, a)) { const auto o = direct(e, t.id, a); if (o.refused) refusal = true; else want.push_back(o); }
        if (entries.size() == 1 && a.size() > params(entries[0]).size()) { refusal = true; const auto o = direct(entries[0], t.id, a); if (!o.refused) want.push_back(o); } // surplus arguments may be ignored
        const bool fits = !want.empty() || refusal; st().throwing = s.chance(1, 6) ? 1 + int(s.draw(4)) : 0; const int route = int(s.draw(2));
        c.desc << who << t.id << "." << name << "(" << textOf(a).substr(0, 60) << ")" << (st().throwing ? "! " : " ") << (route == 2 ? "by proxy; " : "; "); w << who << t.id << "." << name << "(" << textOf(a) << ")" << (route == 2 ? " by proxy" : "");
        std::string err, notFound, result; bool unknown = false, haveResult = false;
        try
        {
            if (route == 0) { const Object o = t.topo ? t.t->opaqueCallMethod(name, a.data(), a.size()) : t.b->opaqueCallMethod(name, a.data(), a.size()); result = arg(o); haveResult = true; }
            else if (route == 1) { const Object o = t.topo ? spread(*t.t, name, a) : spread(*t.b, name, a); result = arg(o); haveResult = true; }
            else { std::vector<Proxy> pa; for (auto &o : a) pa.push_back(env->makeProxy(o)); const Proxy p = t.topo ? env->makeProxy(std::static_pointer_cast<Pothos::Topology>(t.t)) : env->makeProxy(std::static_pointer_cast<Pothos::Block>(t.b)); const Proxy r = p.getHandle()->call(name, pa.data(), pa.size()); result = arg(r.toObject()); haveResult = true; }
        }
        catch (const Pothos::BlockCallNotFound &ex) { unknown = true; err = ex.displayText() + "!"; } catch (const Pothos::Exception &ex) { err = ex.displayText() + "!"; } catch (const std::exception &ex) { err = std::string(ex.what()) + "!"; }
        calls++; invoked += st().log.size(); overloaded += entries.size() > 1; failed += !err.empty(); const std::string got = st().log.empty() ? "no call" : st().log[0];
        PBT_CHECK(st().log.size() <= 1, w.str() << ": " << st().log.size() << " functions invoked");
        if (!fits) { PBT_CHECK(st().log.empty(), w.str() << ": " << got << " invoked, want an error"); PBT_CHECK(!err.empty(), w.str() << ": no error"); if (entries.empty() && route != 2) PBT_CHECK(unknown, w.str() << ": reported as " << err << ", want the call not found"); continue; }
        bool ok = false; for (auto &o : want) if (st().log.size() == 1 && st().log[0] == o.log)
        {
            if (st().throwing) { PBT_CHECK(err.find("thrown by " + o.log.substr(0, 5)) != std::string::npos, w.str() << ": the exception of the function came back as " << (err.empty() ? "success" : err)); }
            else { PBT_CHECK(err.empty() && haveResult, w.str() << ": " << got << " failed: " << err); PBT_CHECK(result == o.result, w.str() << ": returned " << result << ", want " << o.result); }
            ok = true; break;
        }
        if (!ok && refusal && st().log.empty() && !err.empty()) ok = true;
        std::string options; for (auto &o : want) options += o.log + " or "; PBT_CHECK(ok, w.str() << ": " << got << " (" << err << "), want " << options << (refusal ? "a refused value" : "nothing else"));
    }
    c.count("calls", calls); c.count("invoked", invoked); c.count("overloaded", overloaded); c.count("failed", failed); c.nontrivial = calls > 3 && invoked > 1 && overloaded > 0;
}
//! the templated interface and missing names
static void typed(Case &c)
{
    auto &s = c.s; st() = State(); auto b = std::make_shared<Blk>(int(s.draw(9))); const int x = int(s.range(-50, 50)), y = int(s.range(-50, 50)); const auto t = values::genString(s, 5); b->add("n", 0, 0); b->add("n", 3, 1); b->add("t", 1, 0); b->add("v", 2, 0); b->add("_w", 7, 0); b->add("o", 6, 0); c.desc << x << " " << y << " " << t;
    auto expect = [&](const std::string &w) { PBT_CHECK(st().log.size() == 1 && st().log[0] == w, (st().log.empty() ? "nothing" : st().log[0]) << " invoked, want " << w); st().log.clear(); return w; };
    const std::string id = "#" + std::to_string(b->id) + "(";
    const int r0 = b->call<int>("n", x); const auto w0 = expect("f0" + id + cat(x) + ")"); PBT_CHECK(r0 == digest(w0), "n(" << x << ") returned " << r0);
    const double r1 = b->call<double>("n", x, y); const auto w1 = expect("f3" + id + cat(x, y) + ")"); PBT_CHECK(r1 == digest(w1) + 0.5, "n(x, y) returned " << r1);
    const auto r2 = b->call<std::string>("t", t); PBT_CHECK(r2 == expect("f1" + id + cat(t) + ")"), "t returned " << r2);
    b->call("v"); expect("f2" + id + ")"); b->call("_w", x); expect("f7" + id + cat(short(x)) + ")");
    const Object o = b->call("n", x); PBT_CHECK(o.convert<int>() == digest(expect("f0" + id + cat(x) + ")")), "call without a type");
    const Proxy p = values::managedEnv()->makeProxy(std::static_pointer_cast<Pothos::Block>(b)); const int r3 = p.call("n", x); PBT_CHECK(r3 == digest(expect("f0" + id + cat(x) + ")")), "call by proxy");
    // the result converts to what the caller asks for, or not at all
    PBT_CHECK(throws<Pothos::Exception>([&] { b->call<std::vector<int>>("t", t); }), "a text became a list"); st().log.clear();
    PBT_CHECK(throws<Pothos::BlockCallNotFound>([&] { b->call(x, y); }), "a call without a name"); PBT_CHECK(throws<Pothos::BlockCallNotFound>([&] { b->call("n", x, y, x); }), "three arguments for n"); PBT_CHECK(throws<Pothos::Exception>([&] { b->call("t"); }) && throws<Pothos::Exception>([&] { b->call("n", std::vector<std::string>{t}); }), "bad arguments"); PBT_CHECK(st().log.empty(), "an invalid call invoked " << st().log[0]);
    c.nontrivial = true;
}
PBT_MAIN("C09", (std::vector<Sub>{{"history", 12, &history, false}, {"typed", 1, &typed, false}}))
