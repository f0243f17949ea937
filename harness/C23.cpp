// C23: managed class calls resolve constructors, methods and inheritance faithfully.
#include "simdstub.hpp"
#include "values.hpp"
#include <Pothos/Managed.hpp>
#include <Pothos/Callable.hpp>
using namespace pbt;
using Pothos::Object; using Pothos::Proxy; using Pothos::Callable; using Pothos::ManagedClass;

struct State { std::vector<std::string> log; bool throwing = false; int nextId = 1; std::map<int, int> live; };
static State &st(void) { static State s; return s; }
static std::string arg(const Object &o) { return values::text(o); }
inline std::string cat(void) { return ""; }
template <typename T, typename... A> std::string cat(const T &a, const A &... m) { return arg(Object(a)) + "," + cat(m...); }
template <typename... A> std::string cat(const Object &a, const A &... m) { return "obj<" + arg(a) + ">," + cat(m...); }
static std::string raw(const Object *a, size_t n) { std::string r; for (size_t i = 0; i < n; i++) r += arg(a[i]) + ","; return r; }
static int digest(const std::string &s) { unsigned h = 17; for (char c : s) h = h * 31 + (unsigned char)c; return int(h % 1000); }
static void enter(const std::string &w) { st().log.push_back(w); if (st().throwing) throw Pothos::NotFoundException("thrown by " + w.substr(0, 20), "why"); }

struct Root { int id; int calls = 0; std::string made; Root(void): id(st().nextId++) { st().live[id]++; } Root(const Root &o): id(st().nextId++), calls(o.calls), made(o.made) { st().live[id]++; } ~Root(void) { st().live[id]--; } };
template <int K> struct Parent;
template <int K> struct Cls: Parent<K>::T
{
    typedef typename Parent<K>::T P; int field = 0; std::string text;
    Cls(void) { this->made = "()"; } explicit Cls(int a) { this->made = "(" + cat(a) + ")"; enterMade(); } Cls(int a, const std::string &b) { this->made = "(" + cat(a, b) + ")"; enterMade(); } Cls(const std::string &a, double b, int c) { this->made = "(" + cat(a, b, c) + ")"; enterMade(); }
    Cls(const Object *a, const size_t n) { this->made = "opaque(" + raw(a, n) + ")"; enterMade(); }
    void enterMade(void) { if (st().throwing) throw Pothos::NotFoundException("thrown by constructor", "why"); }
    std::string head(const char *f) const { return std::to_string(K) + "." + f + "#" + std::to_string(this->id) + "("; }
    int f0(int a) { this->calls++; const auto w = head("f0") + cat(a) + ")"; enter(w); return digest(w); }
    std::string f1(const std::string &a) { this->calls++; const auto w = head("f1") + cat(a) + ")"; enter(w); return w; }
    void f2(void) { this->calls++; enter(head("f2") + ")"); }
    double f3(int a, int b) { this->calls++; const auto w = head("f3") + cat(a, b) + ")"; enter(w); return digest(w) + 0.5; }
    std::string f4(double a, const std::string &b) { this->calls++; const auto w = head("f4") + cat(a, b) + ")"; enter(w); return w; }
    int f5(const std::vector<int> &a, unsigned char b, const std::string &c) { this->calls++; const auto w = head("f5") + cat(a, b, c) + ")"; enter(w); return digest(w); }
    Object f6(Object a) { this->calls++; const auto w = head("f6") + cat(a) + ")"; enter(w); return Object(w); }
    Proxy f7(const Proxy &a, int b) { this->calls++; const auto w = head("f7") + cat(a, b) + ")"; enter(w); return values::managedEnv()->makeProxy(w); }
    Object op(const Object *a, const size_t n) { this->calls++; const auto w = head("op") + raw(a, n) + ")"; enter(w); return Object(w); }
    Object wild(const std::string &name, const Object *a, const size_t n) { this->calls++; const auto w = head("wild") + name + ":" + raw(a, n) + ")"; enter(w); return Object(w); }
    static int s0(int a) { const auto w = std::to_string(K) + ".s0(" + cat(a) + ")"; enter(w); return digest(w); }
    static std::string s1(const std::string &a, int b) { const auto w = std::to_string(K) + ".s1(" + cat(a, b) + ")"; enter(w); return w; }
    static void s2(void) { enter(std::to_string(K) + ".s2()"); }
    static Object sop(const Object *a, const size_t n) { const auto w = std::to_string(K) + ".sop(" + raw(a, n) + ")"; enter(w); return Object(w); }
    static Object swild(const std::string &name, const Object *a, const size_t n) { const auto w = std::to_string(K) + ".swild(" + name + ":" + raw(a, n) + ")"; enter(w); return Object(w); }
};
template <> struct Parent<0> { typedef Root T; };
template <int K> struct Parent { typedef Cls<K - 1> T; };

//! one registrable function: its parameters and how it appears in the log and as result
struct F { std::string name; std::vector<const std::type_info *> params; int ret; }; // ret: 0 digest int, 1 text, 2 null, 3 digest+.5
static const std::vector<F> &methods(void)
{
    static const std::vector<F> m = {{"f0", {&typeid(int)}, 0}, {"f1", {&typeid(std::string)}, 1}, {"f2", {}, 2}, {"f3", {&typeid(int), &typeid(int)}, 3}, {"f4", {&typeid(double), &typeid(std::string)}, 1}, {"f5", {&typeid(std::vector<int>), &typeid(unsigned char), &typeid(std::string)}, 0}, {"f6", {&typeid(Object)}, 4}, {"f7", {&typeid(Proxy), &typeid(int)}, 1}};
    return m;
}
static const std::vector<F> &statics(void) { static const std::vector<F> m = {{"s0", {&typeid(int)}, 0}, {"s1", {&typeid(std::string), &typeid(int)}, 1}, {"s2", {}, 2}}; return m; }
static const std::vector<F> &ctors(void) { static const std::vector<F> m = {{"()", {}, 0}, {"(i)", {&typeid(int)}, 0}, {"(is)", {&typeid(int), &typeid(std::string)}, 0}, {"(sdi)", {&typeid(std::string), &typeid(double), &typeid(int)}, 0}}; return m; }

//! what is registered for one class
struct Reg { std::map<std::string, std::vector<size_t>> methods, statics; std::set<std::string> opaque, sopaque; bool wild = false, swild = false, octor = false, base = false, field = false; std::set<size_t> ctors; bool committed = false; };
struct Ops { void (*commit)(const Reg &); void (*unload)(void); const std::type_info *type, *ptr, *shared; Root &(*inst)(const Object &, int how); int &(*field)(const Object &, int how); };
template <int K> std::string path(void) { return "Verif/C23/K" + std::to_string(K); }
template <int K, typename Dummy = void> struct BaseReg { static void f(ManagedClass &m) { m.registerBaseClass<Cls<K>, Cls<K - 1>>(); } };
template <typename D> struct BaseReg<0, D> { static void f(ManagedClass &) {} };
template <int K> void addMethod(ManagedClass &m, const std::string &n, size_t i)
{
    typedef Cls<K> C;
    switch (i) { case 0: m.registerMethod(n, &C::f0); break; case 1: m.registerMethod(n, &C::f1); break; case 2: m.registerMethod(n, &C::f2); break; case 3: m.registerMethod(n, &C::f3); break; case 4: m.registerMethod(n, &C::f4); break; case 5: m.registerMethod(n, &C::f5); break; case 6: m.registerMethod(n, &C::f6); break; default: m.registerMethod(n, &C::f7); }
}
template <int K> void doCommit(const Reg &r)
{
    typedef Cls<K> C; ManagedClass m; m.registerClass<C>();
    for (size_t i : r.ctors) switch (i) { case 0: m.registerConstructor<C>(); break; case 1: m.registerConstructor<C, int>(); break; case 2: m.registerConstructor<C, int, const std::string &>(); break; default: m.registerConstructor<C, const std::string &, double, int>(); }
    if (r.octor) m.registerOpaqueConstructor<C>();
    for (auto &p : r.methods) for (size_t i : p.second) addMethod<K>(m, p.first, i);
    for (auto &p : r.statics) for (size_t i : p.second) { if (i == 0) m.registerStaticMethod(p.first, &C::s0); else if (i == 1) m.registerStaticMethod(p.first, &C::s1); else m.registerStaticMethod(p.first, &C::s2); }
    for (auto &n : r.opaque) m.registerOpaqueMethod(n, Callable(&C::op)); for (auto &n : r.sopaque) m.registerOpaqueStaticMethod(n, Callable(&C::sop));
    if (r.wild) m.registerWildcardMethod(Callable(&C::wild)); if (r.swild) m.registerWildcardStaticMethod(Callable(&C::swild));
    if (r.field) { m.registerField(std::string("field"), &C::field); m.registerField(std::string("text"), &C::text); }
    if (r.base) BaseReg<K>::f(m);
    m.commit(path<K>());
}
template <int K> Cls<K> &instOf(const Object &o, int how) { typedef Cls<K> C; if (how == 0) return const_cast<C &>(o.extract<C>()); if (how == 1) return *o.extract<C *>(); return *o.extract<std::shared_ptr<C>>(); }
template <int K> Ops mkOps(void) { typedef Cls<K> C; Ops o; o.commit = &doCommit<K>; o.unload = [] { ManagedClass::unload(path<K>()); }; o.type = &typeid(C); o.ptr = &typeid(C *); o.shared = &typeid(std::shared_ptr<C>); o.inst = [](const Object &x, int h) -> Root & { return instOf<K>(x, h); }; o.field = [](const Object &x, int h) -> int & { return instOf<K>(x, h).field; }; return o; }
static const std::vector<Ops> &ops(void) { static const std::vector<Ops> o = {mkOps<0>(), mkOps<1>(), mkOps<2>()}; return o; }
static std::string pathOf(int k) { return "Verif/C23/K" + std::to_string(k); }

struct Held { int cls, how, id, calls; Proxy proxy; };
static Object genArg(Src &s, const std::type_info *t)
{
    if (!t || s.chance(1, 6)) { switch (s.draw(6)) { case 0: return Object(int(s.range(-5, 300))); case 1: return Object(values::genString(s, 4)); case 2: return Object(double(s.range(-9, 9)) / 2); case 3: return Object(std::vector<int>{1, 2}); case 4: return Object(s.flip()); case 5: return Object(std::complex<double>(1, double(s.range(0, 1)))); default: return values::genObject(s, 1); } }
    if (*t == typeid(std::string)) return Object(values::genString(s, 4));
    if (*t == typeid(std::vector<int>)) { Pothos::ProxyVector pv; if (s.flip()) return Object(std::vector<int>{int(s.range(0, 9)), 3}); pv.push_back(values::managedEnv()->makeProxy(int(s.range(0, 9)))); return Object(pv); }
    if (*t == typeid(Object) || *t == typeid(Proxy)) return s.flip() ? Object(int(s.range(0, 9))) : Object(values::genString(s, 3));
    switch (s.draw(3)) { case 0: return Object(int(s.range(-300, 300))); case 1: return Object((unsigned char)(s.draw(255))); case 2: return Object(1e12); default: return Object(float(s.range(0, 99))); }
}
//! one acceptable outcome: the log entry and the result, or a refusal because a value does not convert
struct Outcome { bool refused; std::string log, result; };
static std::string resultOf(int ret, const std::string &w) { switch (ret) { case 0: return arg(Object(digest(w))); case 3: return arg(Object(digest(w) + 0.5)); case 2: return arg(Object()); case 4: return "obj<" + arg(Object(w)) + ">"; default: return arg(Object(w)); } }
static bool accepts(const F &f, const std::vector<Object> &a) { if (f.params.size() != a.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!a[i].canConvert(*f.params[i])) return false; return true; }
static Outcome direct(const F &f, const std::string &head, const std::vector<Object> &a)
{
    std::string w = head; for (size_t i = 0; i < a.size(); i++) { try { const Object o = a[i].convert(*f.params[i]); w += arg(o) + ","; } catch (const Pothos::Exception &) { return {true, "", ""}; } }
    w += ")"; return {false, w, resultOf(f.ret, w)};
}
static std::string rawText(const std::vector<Object> &a) { std::string r; for (auto &o : a) r += arg(o) + ","; return r; }
static std::vector<Outcome> resolve(const std::vector<Reg> &regs, int k, int id, const std::string &name, const std::vector<Object> &a)
{
    std::vector<Outcome> out; const Reg &r = regs[size_t(k)]; const std::string tail = "#" + std::to_string(id) + "(";
    auto it = r.methods.find(name); if (it != r.methods.end()) for (size_t i : it->second) if (accepts(methods()[i], a)) out.push_back(direct(methods()[i], std::to_string(k) + "." + methods()[i].name + tail, a));
    if (out.empty() && r.opaque.count(name)) { const std::string w = std::to_string(k) + ".op" + tail + rawText(a) + ")"; out.push_back({false, w, resultOf(1, w)}); }
    if (out.empty() && r.base && k > 0) { const auto b = resolve(regs, k - 1, id, name, a); out.insert(out.end(), b.begin(), b.end()); }
    if (out.empty() && r.wild) { const std::string w = std::to_string(k) + ".wild" + tail + name + ":" + rawText(a) + ")"; out.push_back({false, w, resultOf(1, w)}); }
    return out;
}
static void judge(const std::string &when, const std::vector<Outcome> &want, const std::string &err, bool callError, bool message, bool threw, const Proxy &result)
{
    std::string options; for (auto &o : want) options += (o.refused ? std::string("a refused value") : o.log) + " or "; options += want.empty() ? "a call error" : "nothing else";
    const std::string got = st().log.empty() ? "no call" : st().log[0];
    PBT_CHECK(st().log.size() <= 1, when << ": " << st().log.size() << " functions invoked: " << st().log[0] << " " << st().log[1]);
    if (want.empty()) { PBT_CHECK(st().log.empty(), when << ": " << got << " invoked, want a call error"); PBT_CHECK(callError, when << ": reported as " << (err.empty() ? "success" : err) << ", want a call error"); return; }
    for (auto &o : want)
    {
        if (o.refused) { if (st().log.empty() && !err.empty()) return; continue; }
        if (st().log.size() != 1 || st().log[0] != o.log) continue;
        if (threw) { PBT_CHECK(message && err.find("thrown by " + o.log.substr(0, 20)) != std::string::npos, when << ": the exception of the function came back as " << (err.empty() ? "success" : err)); return; }
        PBT_CHECK(err.empty(), when << ": " << got << " failed: " << err);
        PBT_CHECK(result.getEnvironment()->getName() == "managed", when << ": environment of the result"); const auto t = arg(result.toObject()); PBT_CHECK(t == o.result, when << ": returned " << t << ", want " << o.result); return;
    }
    PBT_FAIL(when << ": " << got << " (" << err << "), want " << options);
}
static void unloaded(int k, const std::string &when)
{
    const Ops &o = ops()[size_t(k)];
    PBT_CHECK(throws<Pothos::ManagedClassLookupError>([&] { ManagedClass::lookup(*o.type); }) && throws<Pothos::ManagedClassLookupError>([&] { ManagedClass::lookup(*o.ptr); }) && throws<Pothos::ManagedClassLookupError>([&] { ManagedClass::lookup(*o.shared); }), when << ": class " << k << " is still registered for its types");
    PBT_CHECK(throws<Pothos::ProxyEnvironmentFindError>([&] { values::managedEnv()->findProxy(pathOf(k)); }), when << ": class " << k << " is still found");
    PBT_CHECK(!Object::canConvert(typeid(int), *o.type), when << ": the conversion constructor of class " << k << " is still there");
}
static void history(Case &c)
{
    auto &s = c.s; st() = State(); std::vector<Reg> regs(3); std::vector<Held> held; const auto env = values::managedEnv(); size_t calls = 0, unloads = 0, failed = 0;
    struct Guard { std::function<void(void)> f; ~Guard(void) { f(); } } guard{[&] { for (auto &h : held) if (h.how == 1) { const Object o = h.proxy.toObject(); if (h.cls == 0) delete o.extract<Cls<0> *>(); else if (h.cls == 1) delete o.extract<Cls<1> *>(); else delete o.extract<Cls<2> *>(); } held.clear(); for (int k = 0; k < 3; k++) if (regs[size_t(k)].committed) ops()[size_t(k)].unload(); }};
    auto genReg = [&](int k)
    {
        Reg r; for (size_t i = 0; i < methods().size(); i++) if (s.chance(1, 2)) r.methods[s.pick({std::string("a"), std::string("b"), std::string("c")})].push_back(i);
        for (size_t i = 0; i < statics().size(); i++) if (s.flip()) r.statics[s.pick({std::string("a"), std::string("b")})].push_back(i);
        for (auto n : {"a", "b", "d"}) { if (s.chance(1, 6)) r.opaque.insert(n); if (s.chance(1, 6)) r.sopaque.insert(n); }
        for (size_t i = 0; i < ctors().size(); i++) if (s.chance(2, 3)) r.ctors.insert(i);
        r.wild = s.chance(1, 5); r.swild = s.chance(1, 5); r.octor = s.chance(1, 4); r.base = k > 0 && s.chance(3, 4); r.field = s.flip(); r.committed = true;
        c.desc << "commit " << k << "{"; for (auto &p : r.methods) { c.desc << p.first << ":"; for (auto i : p.second) c.desc << methods()[i].name << " "; } for (auto &n : r.opaque) c.desc << "opaque " << n << " "; c.desc << (r.wild ? "wild " : "") << (r.base ? "base" : "") << "}; "; return r;
    };
    for (int k = 0; k < 3; k++) { regs[size_t(k)] = genReg(k); ops()[size_t(k)].commit(regs[size_t(k)]); }
    const size_t steps = size_t(s.small(3, 50));
    for (size_t n = 0; n < steps; n++)
    {
        std::ostringstream w; w << "step " << n; st().log.clear(); st().throwing = false;
        // a class whose base is not registered at the moment is never called: its resolution is unspecified
        auto chainOk = [&](int k) { for (int i = k; i >= 0; i--) { if (!regs[size_t(i)].committed) return false; if (!regs[size_t(i)].base) break; } return true; };
        std::string err; bool callError = false, message = false; Proxy result;
        auto attempt = [&](const std::function<Proxy(void)> &f) { err.clear(); callError = message = false; try { result = f(); } catch (const Pothos::ProxyHandleCallError &ex) { callError = true; err = ex.displayText() + "!"; } catch (const Pothos::ProxyExceptionMessage &ex) { message = true; err = ex.displayText() + "!"; } catch (const Pothos::Exception &ex) { err = std::string(ex.name()) + ": " + ex.displayText(); } };
        const size_t op = s.weighted({4, 12, 3, 1, 2, 1}); const int k = int(s.draw(2)); Reg &r = regs[size_t(k)];
        if (op == 0 || held.empty()) // construct
        {
            if (!r.committed) continue;
            const int how = int(s.draw(2)); const char *names[] = {"()", "new", "shared"}; std::vector<Object> a; const bool fit = !r.ctors.empty() && s.chance(4, 5);
            if (fit) { auto it = r.ctors.begin(); std::advance(it, long(s.draw(r.ctors.size() - 1))); for (auto t : ctors()[*it].params) a.push_back(genArg(s, t)); } else for (size_t i = size_t(s.small(0, 3)); i > 0; i--) a.push_back(genArg(s, nullptr));
            c.desc << names[how] << k << "(" << rawText(a).substr(0, 60) << "); "; std::vector<Proxy> pa; for (auto &o : a) pa.push_back(env->makeProxy(o));
            std::set<std::string> want; bool refused = false; for (size_t i : r.ctors) if (accepts(ctors()[i], a)) { const auto o = direct(ctors()[i], "(", a); if (o.refused) refused = true; else want.insert(a.empty() ? "()" : o.log); }
            if (want.empty() && !refused && how == 0 && r.octor) want.insert("opaque(" + rawText(a) + ")");
            if (want.empty() && !refused && how != 0 && (r.swild)) continue; // the wildcard answers for a missing new or shared
            const int before = st().nextId; std::map<int, int> live = st().live; attempt([&] { return env->findProxy(pathOf(k)).getHandle()->call(names[how], pa.data(), pa.size()); }); calls++;
            w << " " << names[how] << k << "(" << rawText(a) << ")";
            PBT_CHECK(st().log.empty(), w.str() << ": a function was invoked");
            if (!err.empty()) { failed++; PBT_CHECK(want.empty() || refused, w.str() << ": " << err); if (!refused) PBT_CHECK(callError, w.str() << ": reported as " << err << ", want a call error"); PBT_CHECK(st().nextId == before, w.str() << ": an instance was made although the call failed"); continue; }
            PBT_CHECK(!want.empty(), w.str() << ": constructed without an acceptable constructor");
            const Object o = result.toObject(); const Ops &x = ops()[size_t(k)]; PBT_CHECK(o.type() == (how == 0 ? *x.type : how == 1 ? *x.ptr : *x.shared), w.str() << ": made a " << o.getTypeString());
            Root &inst = x.inst(o, how); Held h{k, how, inst.id, 0, result}; held.push_back(h);
            PBT_CHECK(want.count(inst.made), w.str() << ": constructed by " << inst.made << ", want " << *want.begin()); 
            for (int i = before; i < st().nextId; i++) PBT_CHECK(st().live[i] == (i == inst.id ? 1 : 0), w.str() << ": another instance was left behind");
        }
        else if (op == 1) // method
        {
            Held &h = held[s.draw(held.size() - 1)]; if (!chainOk(h.cls)) continue; const int hk = h.cls; const std::string name = s.pick({std::string("a"), std::string("b"), std::string("c"), std::string("d")});
            std::vector<std::pair<size_t, int>> cand; for (int i = hk; i >= 0; i--) { auto it = regs[size_t(i)].methods.find(name); if (it != regs[size_t(i)].methods.end()) for (size_t q : it->second) cand.push_back({q, i}); if (!regs[size_t(i)].base) break; }
            std::vector<Object> a; if (!cand.empty() && s.chance(5, 6)) { for (auto t : methods()[s.pick(cand).first].params) a.push_back(genArg(s, t)); } else for (size_t i = size_t(s.small(0, 3)); i > 0; i--) a.push_back(genArg(s, nullptr));
            // arguments travel as proxies: one given as proxy arrives as the proxied value
            std::vector<Proxy> pa; for (auto &o : a) pa.push_back(env->makeProxy(o));
            const auto want = resolve(regs, hk, h.id, name, a); st().throwing = s.chance(1, 8);
            c.desc << "#" << h.id << "." << name << "(" << rawText(a).substr(0, 60) << "); "; w << " #" << h.id << "." << name << "(" << rawText(a) << ")";
            attempt([&] { return h.proxy.getHandle()->call(name, pa.data(), pa.size()); }); const bool threw = st().throwing; st().throwing = false; calls++; failed += !err.empty();
            judge(w.str(), want, err, callError, message, threw, result);
            h.calls += int(st().log.size());
        }
        else if (op == 2) // static method
        {
            if (!r.committed) continue; const std::string name = s.pick({std::string("a"), std::string("b"), std::string("d"), std::string("zz")}); std::vector<Object> a; auto it = r.statics.find(name);
            if (it != r.statics.end() && s.chance(5, 6)) { for (auto t : statics()[s.pick(it->second)].params) a.push_back(genArg(s, t)); } else for (size_t i = size_t(s.small(0, 3)); i > 0; i--) a.push_back(genArg(s, nullptr));
            std::vector<Outcome> want; if (it != r.statics.end()) for (size_t i : it->second) if (accepts(statics()[i], a)) want.push_back(direct(statics()[i], std::to_string(k) + "." + statics()[i].name + "(", a));
            if (want.empty() && r.sopaque.count(name)) { const auto t = std::to_string(k) + ".sop(" + rawText(a) + ")"; want.push_back({false, t, resultOf(1, t)}); }
            if (want.empty() && r.swild) { const auto t = std::to_string(k) + ".swild(" + name + ":" + rawText(a) + ")"; want.push_back({false, t, resultOf(1, t)}); }
            std::vector<Proxy> pa; for (auto &o : a) pa.push_back(env->makeProxy(o)); st().throwing = s.chance(1, 8); c.desc << k << "::" << name << "(" << rawText(a).substr(0, 60) << "); "; w << " " << k << "::" << name << "(" << rawText(a) << ")";
            attempt([&] { return env->findProxy(pathOf(k)).getHandle()->call(name, pa.data(), pa.size()); }); const bool threw = st().throwing; st().throwing = false; calls++; failed += !err.empty(); judge(w.str(), want, err, callError, message, threw, result);
        }
        else if (op == 3) // unload, then perhaps register something else
        {
            c.desc << (r.committed ? "unload " : "recommit ") << k << "; ";
            if (r.committed) { ops()[size_t(k)].unload(); r = Reg(); unloads++; unloaded(k, w.str()); }
            else { r = genReg(k); ops()[size_t(k)].commit(r); }
        }
        else if (op == 4) // fields
        {
            Held &h = held[s.draw(held.size() - 1)]; if (!chainOk(h.cls)) continue; const Reg &hr = regs[size_t(h.cls)]; if (!hr.field || hr.wild) continue; const int v = int(s.range(-99, 99)); c.desc << "#" << h.id << ".field=" << v << "; "; w << " field of #" << h.id;
            h.proxy.call("set:field", v); PBT_CHECK(h.proxy.call<int>("get:field") == v && h.proxy.call<double>("get:field") == v, w.str() << ": read back another value"); const Object o = h.proxy.toObject(); PBT_CHECK(ops()[size_t(h.cls)].field(o, h.how) == v, w.str() << ": the instance itself did not change");
            const auto t = values::genString(s, 4); h.proxy.set("text", t); PBT_CHECK(h.proxy.get<std::string>("text") == t, w.str() << ": text");
        }
        else // drop an instance
        {
            const size_t i = s.draw(held.size() - 1); Held h = held[i]; if (h.how == 1 && !chainOk(h.cls)) continue; c.desc << "drop #" << h.id << "; "; held.erase(held.begin() + long(i));
            if (h.how == 1) h.proxy.call("delete"); h.proxy = Proxy(); result = Proxy();
            PBT_CHECK(st().live[h.id] == 0, w.str() << ": instance #" << h.id << " was not destroyed");
        }
        st().log.clear();
        for (auto &h : held) { const Object o = h.proxy.toObject(); Root &inst = ops()[size_t(h.cls)].inst(o, h.how); PBT_CHECK(inst.id == h.id && inst.calls == h.calls, w.str() << ": proxy of #" << h.id << " with " << h.calls << " calls holds #" << inst.id << " with " << inst.calls); PBT_CHECK(st().live[h.id] == 1, w.str() << ": instance #" << h.id << " is gone"); }
        for (int i = 0; i < 3; i++) { const Reg &q = regs[size_t(i)]; if (q.committed) PBT_CHECK(Object::canConvert(typeid(int), *ops()[size_t(i)].type) == (q.ctors.count(1) == 1), w.str() << ": conversion constructor of class " << i); }
    }
    for (auto &h : held) { const Reg &hr = regs[size_t(h.cls)]; if (hr.committed) continue; st().log.clear(); const auto e = errorOf([&] { h.proxy.call("a", 1); }); PBT_CHECK(!e.empty() && st().log.empty(), "a method of an unloaded class was called"); }
    c.count("calls", calls); c.count("failed calls", failed); c.nontrivial = calls > 4; if (unloads) c.tag("unload");
}
PBT_MAIN("C23", {{"history", 1, history, false}})
