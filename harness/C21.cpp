// C21: callables pass bound and given arguments to the right parameters.
#include "simdstub.hpp"
#include "values.hpp"
#include <Pothos/Callable.hpp>
#include <thread>
using namespace pbt;
using Pothos::Object; using Pothos::Callable;

struct Log { std::vector<std::string> calls; int throwing = 0; };
static Log &log_(void) { static thread_local Log l; return l; }
struct Boom { int n; };
struct Own { int v; };
struct Inst { int id; std::string name; int touched = 0; Inst(int i = 0, const std::string &n = ""): id(i), name(n) {} 
    int add(int a, double b); std::string get(const std::string &s, int x) const; void poke(void); long long wide(unsigned char a, const std::vector<int> &v, int c) const; };

static std::string argText(const Object &o) { if (o.type() == typeid(Own)) return "own" + std::to_string(o.extract<Own>().v); if (o.type() == typeid(Inst)) return "inst" + std::to_string(o.extract<Inst>().id); return values::text(o); }
template <typename T> std::string show(const T &v) { return argText(Object(v)); }
static std::string show(const Object &v) { return "obj<" + argText(v) + ">"; }
static void enter(const std::string &what)
{
    log_().calls.push_back(what);
    if (log_().throwing == 1) throw Boom{7};
    if (log_().throwing == 2) throw Pothos::NotFoundException("thrown by the function", "detail", 5);
    if (log_().throwing == 3) throw std::runtime_error("std thrown");
    if (log_().throwing == 4) throw Pothos::ObjectConvertError("thrown by the function");
}
static long long digest(const std::string &s) { unsigned h = 17; for (char c : s) h = h * 31 + (unsigned char)c; return h % 100; }
template <typename R> struct Ret { static R make(const std::string &) { return R(); } };
template <> struct Ret<int> { static int make(const std::string &w) { return int(digest(w)); } };
template <> struct Ret<unsigned char> { static unsigned char make(const std::string &w) { return (unsigned char)(digest(w)); } };
template <> struct Ret<double> { static double make(const std::string &w) { return double(digest(w)) + 0.5; } };
template <> struct Ret<std::string> { static std::string make(const std::string &w) { return w; } };
template <> struct Ret<Object> { static Object make(const std::string &w) { return Object(w); } };
template <> struct Ret<Own> { static Own make(const std::string &w) { return Own{int(digest(w))}; } };
template <> struct Ret<void> { static void make(const std::string &) {} };
template <typename R> R finish(const std::string &w) { return Ret<R>::make(w); }

//! what the model knows of one function
struct Fn
{
    std::string id; Callable call; std::vector<const std::type_info *> types; const std::type_info *ret;
    std::string (*retText)(const std::string &what); // text of the returned object for a call logged as what
};
inline std::string cat(void) { return ""; }
template <typename T, typename... A> std::string cat(const T &a, const A &... more) { return show(a) + "," + cat(more...); }
template <typename R> struct RetText { static std::string f(const std::string &w) { return argText(Object(Ret<R>::make(w))); } };
template <> struct RetText<Object> { static std::string f(const std::string &w) { return "obj<" + argText(Object(w)) + ">"; } }; // an object holding the returned object
template <> struct RetText<void> { static std::string f(const std::string &) { return argText(Object()); } };
template <int Id, typename R, typename... A> R fcn(A... a) { const std::string w = std::to_string(Id) + "(" + cat(a...) + ")"; enter(w); return finish<R>(w); }
template <int Id, typename R, typename... A> Fn mk(bool viaFunction = false)
{
    Fn f; f.id = std::to_string(Id); f.ret = &typeid(R); f.types = {&typeid(A)...}; f.retText = &RetText<R>::f;
    if (viaFunction) { std::function<R(A...)> g = &fcn<Id, R, A...>; f.call = Callable(g); } else f.call = Callable(&fcn<Id, R, A...>);
    return f;
}
int Inst::add(int a, double b) { touched++; const auto w = "add(inst" + std::to_string(id) + "," + cat(a, b) + ")"; enter(w); return Ret<int>::make(w); }
std::string Inst::get(const std::string &s, int x) const { const auto w = "get(inst" + std::to_string(id) + "," + cat(s, x) + ")"; enter(w); return Ret<std::string>::make(w); }
void Inst::poke(void) { touched++; enter("poke(inst" + std::to_string(id) + ",)"); }
long long Inst::wide(unsigned char a, const std::vector<int> &v, int c) const { const auto w = "wide(inst" + std::to_string(id) + "," + cat(a, v, c) + ")"; enter(w); return digest(w); }
static std::string retLL(const std::string &w) { return argText(Object((long long)(digest(w)))); }

static const std::vector<Fn> &fns(void)
{
    typedef std::string S; typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::complex<double> CD; typedef Pothos::ObjectVector OV;
    static const std::vector<Fn> f = {
        mk<0, int, int>(), mk<1, void>(), mk<2, S, int, int>(), mk<3, double, int, S, double>(), mk<4, S, const S &, int, unsigned char, double>(true), mk<5, Own, Own, int>(), mk<6, Object, Object, int, Object>(), mk<7, int, VI, double, VI>(), mk<8, void, bool, CD, float>(true),
        mk<9, S, unsigned char, short, unsigned short, unsigned, long long>(), mk<10, unsigned char, int, int, int, int, int, int>(), mk<11, S, const VD &, const S &>(), mk<12, Own, Own, Own, Own>(), mk<13, int, OV, int>(), mk<14, S, const Object &>(true), mk<15, int, S, S, S, S>(), mk<16, Object>(), mk<17, S, int, Own, S, Object, double, VI, bool>(),
        Fn{"add", Callable(&Inst::add), {&typeid(Inst), &typeid(int), &typeid(double)}, &typeid(int), &RetText<int>::f}, Fn{"get", Callable(&Inst::get), {&typeid(Inst), &typeid(S), &typeid(int)}, &typeid(S), &RetText<S>::f}, Fn{"poke", Callable(&Inst::poke), {&typeid(Inst)}, &typeid(void), &RetText<void>::f}, Fn{"wide", Callable::make(&Inst::wide), {&typeid(Inst), &typeid(unsigned char), &typeid(VI), &typeid(int)}, &typeid(long long), &retLL}};
    return f;
}
//! a value for a parameter of this type: mostly fitting, often of another convertible type, sometimes neither
static Object genArg(Src &s, const std::type_info &t)
{
    const size_t how = s.weighted({10, 1, 1});
    if (how == 1) return values::genObject(s, 1);
    if (how == 2) { switch (s.draw(5)) { case 0: return Object(Own{int(s.range(0, 9))}); case 1: return Object(values::genString(s, 5)); case 2: return Object(long(s.range(-300, 70000))); case 3: return Object(-1); case 4: return Object(std::complex<float>(1, 1)); default: return Object(1e300); } }
    if (t == typeid(Own)) return Object(Own{int(s.range(0, 99))});
    if (t == typeid(Inst)) return Object(Inst(int(s.range(0, 9)), "i"));
    if (t == typeid(std::string)) return s.chance(1, 5) ? Object(std::vector<char>{'q', char('a' + s.draw(20))}) : Object(values::genString(s, 6));
    if (t == typeid(bool)) return Object(s.flip());
    if (t == typeid(Object)) return values::genObject(s, 1);
    if (t == typeid(std::vector<int>) || t == typeid(std::vector<double>) || t == typeid(Pothos::ObjectVector))
    {
        const size_t n = size_t(s.small(0, 4)); const int k = int(s.draw(3));
        if (k == 0) { std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(int(s.range(-99, 99))); return Object(v); }
        if (k == 1) { std::vector<double> v; for (size_t i = 0; i < n; i++) v.push_back(double(s.range(-99, 99)) + (t == typeid(std::vector<int>) ? 0.0 : 0.25)); return Object(v); }
        if (k == 2) { Pothos::ObjectVector v; for (size_t i = 0; i < n; i++) v.push_back(Object(int(s.range(-99, 99)))); return Object(v); }
        Pothos::ProxyVector v; for (size_t i = 0; i < n; i++) v.push_back(values::managedEnv()->makeProxy(int(s.range(-99, 99)))); return Object(v);
    }
    // numbers
    switch (s.draw(5)) { case 0: return Object(int(s.range(-200, 300))); case 1: return Object((unsigned char)(s.draw(255))); case 2: return Object(double(s.range(-100, 100)) / 4); case 3: return Object((long long)(s.range(0, 100))); case 4: return Object(float(s.range(0, 250))); default: return Object(short(s.range(0, 100))); }
}
struct Slot { Callable c; int fn = -1; std::map<size_t, Object> bound; };
static Inst instances[3] = {Inst(1000), Inst(1001), Inst(1002)};

//! the outcome the model predicts: error class or the call text
struct Want { bool ok = false; bool argError = false; bool otherError = false; std::string text; };
static Want predict(const Slot &sl, const std::vector<Object> &in)
{
    Want w; const Fn &f = fns()[size_t(sl.fn)]; size_t next = 0; std::string t = f.id + "("; bool bad = false;
    for (size_t i = 0; i < f.types.size(); i++)
    {
        Object o; auto it = sl.bound.find(i);
        if (it != sl.bound.end()) o = it->second; else if (next < in.size()) o = in[next++]; else { w.argError = true; bad = true; break; }
        Object c; try { c = o.convert(*f.types[i]); } catch (const Pothos::ObjectConvertError &) { w.argError = true; bad = true; continue; } catch (const Pothos::Exception &) { w.otherError = true; bad = true; continue; }
        t += (*f.types[i] == typeid(Object) ? "obj<" + argText(o.type() == typeid(Object) ? o.extract<Object>() : o) + ">" : argText(c)) + ",";
    }
    w.ok = !bad; w.text = t + ")"; return w;
}
static void checkDescription(const Slot &sl, const std::string &when)
{
    if (sl.fn < 0)
    {
        PBT_CHECK(!sl.c, when << ": a null callable says it holds a function"); PBT_CHECK(throws<Pothos::CallableNullError>([&] { (void)sl.c.getNumArgs(); }) && throws<Pothos::CallableNullError>([&] { (void)sl.c.type(-1); }), when << ": a null callable describes itself");
        PBT_CHECK(throws<Pothos::CallableNullError>([&] { sl.c.opaqueCall(nullptr, 0); }), when << ": a null callable was called"); return;
    }
    const Fn &f = fns()[size_t(sl.fn)]; std::vector<const std::type_info *> free; for (size_t i = 0; i < f.types.size(); i++) if (!sl.bound.count(i)) free.push_back(f.types[i]);
    PBT_CHECK(bool(sl.c), when << ": a callable says it is null");
    PBT_CHECK(sl.c.getNumArgs() == free.size(), when << ": getNumArgs is " << sl.c.getNumArgs() << ", want " << free.size());
    PBT_CHECK(sl.c.type(-1) == *f.ret, when << ": return type");
    for (size_t i = 0; i < free.size(); i++) PBT_CHECK(sl.c.type(int(i)) == *free[i], when << ": type of argument " << i << " is " << sl.c.type(int(i)).name() << ", want " << free[i]->name());
    PBT_CHECK(throws<Pothos::CallableArgumentError>([&] { (void)sl.c.type(int(free.size())); }) && throws<Pothos::CallableArgumentError>([&] { (void)sl.c.type(-2); }) && throws<Pothos::CallableArgumentError>([&] { (void)sl.c.type(int(free.size()) + 3); }), when << ": type of an argument that does not exist");
}
static void history(Case &c)
{
    auto &s = c.s; std::vector<Slot> slots(3); size_t calls = 0, errors = 0, binds = 0; const size_t ops = size_t(s.small(3, 40));
    log_() = Log();
    for (size_t k = 0; k < ops; k++)
    {
        const size_t i = s.draw(slots.size() - 1); Slot &sl = slots[i]; std::ostringstream w; w << "step " << k << " slot " << i;
        switch (s.weighted({sl.fn < 0 ? 8u : 1u, 6, 3, 2, 8, 1}))
        {
        case 0: { sl.fn = int(s.draw(fns().size() - 1)); sl.c = fns()[size_t(sl.fn)].call; sl.bound.clear(); c.desc << i << "=" << fns()[size_t(sl.fn)].id << "; "; } break;
        case 1:
        {
            const size_t np = sl.fn < 0 ? 2 : fns()[size_t(sl.fn)].types.size(); const size_t p = s.chance(1, 10) ? np + s.draw(2) : np ? s.draw(np - 1) : 0;
            const std::type_info &t = sl.fn >= 0 && p < np ? *fns()[size_t(sl.fn)].types[p] : typeid(int);
            if (t == typeid(Inst) && s.chance(3, 4)) { const size_t n = s.draw(2); c.desc << i << ".bind(ref" << n << "," << p << "); "; sl.c.bind(std::ref(instances[n]), p); sl.bound[p] = Object(std::ref(instances[n])); }
            else { const Object v = genArg(s, t); c.desc << i << ".bind(" << argText(v).substr(0, 40) << "," << p << "); "; Object copy(v); auto &r = s.flip() ? sl.c.bind(std::move(copy), p) : sl.c.bind(v, p); PBT_CHECK(&r == &sl.c, w.str() << ": bind returned another callable"); if (v) sl.bound[p] = v; else sl.bound.erase(p); }
            binds++;
        } break;
        case 2: { const size_t np = sl.fn < 0 ? 2 : fns()[size_t(sl.fn)].types.size(); const size_t p = s.draw(np + 1); c.desc << i << ".unbind(" << p << "); "; sl.c.unbind(p); sl.bound.erase(p); } break;
        case 3: { const size_t j = s.draw(slots.size() - 1); c.desc << i << "=" << j << "; "; if (s.flip()) slots[i] = slots[j]; else { Slot t(slots[j]); slots[i].c = std::move(t.c); slots[i].fn = t.fn; slots[i].bound = t.bound; } if (slots[i].fn >= 0) PBT_CHECK(slots[i].c == slots[j].c && !(slots[i].c != slots[j].c), w.str() << ": a copy differs"); } break;
        case 5: c.desc << i << "=null; "; slots[i] = Slot(); break;
        default:
        {
            if (sl.fn < 0) break;
            const Fn &f = fns()[size_t(sl.fn)]; std::vector<Object> in;
            for (size_t p = 0; p < f.types.size(); p++) if (!sl.bound.count(p)) in.push_back(*f.types[p] == typeid(Inst) && s.flip() ? Object(std::ref(instances[s.draw(2)])) : genArg(s, *f.types[p]));
            if (s.chance(1, 10) && !in.empty()) in.pop_back(); bool extra = false; if (s.chance(1, 12)) { in.push_back(Object(5)); extra = true; }
            const std::vector<Object> before(in); const Want want = predict(sl, in); log_().calls.clear(); log_().throwing = want.ok && s.chance(1, 8) ? int(s.range(1, 4)) : 0;
            c.desc << i << "("; for (auto &o : in) c.desc << argText(o).substr(0, 40) << ","; c.desc << ")" << (log_().throwing ? " throwing" : "") << "; ";
            Object r; std::string err; bool argErr = false, mine = false; const int thr = log_().throwing;
            try { r = sl.c.opaqueCall(in.data(), in.size()); }
            catch (const Fail &) { throw; }
            catch (const Boom &b) { mine = thr == 1 && b.n == 7; err = "Boom"; }
            catch (const Pothos::CallableArgumentError &ex) { argErr = true; err = ex.displayText(); }
            catch (const Pothos::NotFoundException &ex) { mine = thr == 2 && ex.message().find("thrown by the function") != std::string::npos && ex.code() == 5; err = ex.displayText(); }
            catch (const Pothos::ObjectConvertError &ex) { mine = thr == 4 && ex.message().find("thrown by the function") != std::string::npos; err = ex.displayText(); }
            catch (const Pothos::Exception &ex) { err = ex.displayText(); }
            catch (const std::exception &ex) { mine = thr == 3 && std::string(ex.what()) == "std thrown"; err = ex.what(); }
            log_().throwing = 0; calls++;
            w << " calling " << f.id << ": ";
            if (!want.ok)
            {
                errors++;
                PBT_CHECK(!err.empty(), w.str() << "arguments that do not fit were accepted, result " << argText(r)); PBT_CHECK(log_().calls.empty(), w.str() << "the function was invoked in spite of " << err);
                if (!want.otherError) PBT_CHECK(argErr, w.str() << "not an argument error: " << err);
                break;
            }
            if (extra && argErr && log_().calls.empty()) break;
            PBT_CHECK(log_().calls.size() == 1, w.str() << "invoked " << log_().calls.size() << " times " << err);
            PBT_CHECK(log_().calls[0] == want.text, w.str() << "the function saw " << log_().calls[0] << ", want " << want.text);
            if (thr) { PBT_CHECK(mine, w.str() << "the exception of the function came back as " << (err.empty() ? "nothing" : err)); break; }
            PBT_CHECK(err.empty(), w.str() << err);
            PBT_CHECK(argText(r) == f.retText(want.text), w.str() << "returned " << argText(r) << ", want " << f.retText(want.text));
            for (size_t p = 0; p < in.size(); p++) PBT_CHECK(in[p] == before[p], w.str() << "the argument list changed");
        } break;
        }
        for (size_t j = 0; j < slots.size(); j++) checkDescription(slots[j], w.str() + ", then slot " + std::to_string(j));
    }
    c.count("calls", calls); c.count("rejected", errors); c.nontrivial = calls > 1 && binds > 0;
}
//! the templated interface: typed arguments and typed results
static void typed(Case &c)
{
    auto &s = c.s; c.nontrivial = true; log_() = Log();
    const int a = int(s.range(-100, 100)); const std::string t = values::genString(s, 6); const double d = double(s.range(-100, 100)) / 8; const unsigned char u = (unsigned char)(s.draw(255));
    Callable f(&fcn<4, std::string, const std::string &, int, unsigned char, double>);
    const std::string want = "4(" + cat(t, a, u, d) + ")"; c.desc << want;
    switch (s.draw(5))
    {
    case 0: PBT_CHECK(f.call<std::string>(t, a, u, d) == want, "typed call"); break;
    case 1: { f.bind(a, 1); PBT_CHECK(f.call<std::string>(t, int(u), float(d)) == want, "bound second"); f.bind(t, 0); PBT_CHECK(f.call<std::string>(long(u), d) == want, "bound first and second"); f.bind(d, 3); PBT_CHECK(f.call<std::string>(u) == want, "all but the third bound"); f.unbind(1); PBT_CHECK(f.call<std::string>(short(a), u) == want, "second unbound"); f.unbind(0).unbind(3); PBT_CHECK(f.call<std::string>(t, a, u, d) == want, "all unbound"); } break;
    case 2: { const Object o = f.call(t, (long long)(a), unsigned(u), d); PBT_CHECK(o.extract<std::string>() == want, "object result"); PBT_CHECK(throws<Pothos::CallableReturnError>([&] { (void)f.call<int>(t, a, u, d); }), "a string result was given as int"); PBT_CHECK(log_().calls.size() == 2, "calls"); } break;
    case 3: { Callable g(&fcn<0, int, int>); const std::string w = "0(" + cat(a) + ")"; PBT_CHECK(g.call<long long>(a) == digest(w) && g.call<double>(a) == double(digest(w)) && g.call<unsigned char>(a) == digest(w), "converted result"); } break;
    case 4:
    {
        Inst inst(int(s.range(0, 50))); Callable g(&Inst::add); g.bind(std::ref(inst), 0); const std::string w = "add(inst" + std::to_string(inst.id) + "," + cat(a, d) + ")"; const int before = inst.touched;
        PBT_CHECK(g.call<int>(a, d) == Ret<int>::make(w) && log_().calls.back() == w && inst.touched == before + 1, "method on a bound instance: touched " << inst.touched);
        Callable h(&Inst::poke); h.call(std::ref(inst)); PBT_CHECK(inst.touched == before + 2, "method on a given instance");
        Object held{Inst(77)}; Callable q(&Inst::poke); q.opaqueCall(&held, 1); q.opaqueCall(&held, 1); PBT_CHECK(held.extract<Inst>().touched == 2, "method on a held instance");
    } break;
    default:
    {
        const auto f0 = Callable::factory<Inst, int, const std::string &>(); const auto f1 = Callable::factoryShared<Inst, int, const std::string &>(); const auto f2 = Callable::factoryNew<Inst, int, const std::string &>();
        PBT_CHECK(f0.getNumArgs() == 2 && f0.type(-1) == typeid(Inst) && f1.type(-1) == typeid(std::shared_ptr<Inst>) && f2.type(-1) == typeid(Inst *) && f0.type(0) == typeid(int) && f0.type(1) == typeid(std::string), "factory description");
        const Object o = f0.call(a, t); PBT_CHECK(o.extract<Inst>().id == a && o.extract<Inst>().name == t, "factory"); const auto p = f1.call<std::shared_ptr<Inst>>(a, t); PBT_CHECK(p->id == a && p->name == t && p.use_count() == 1, "shared factory");
        std::unique_ptr<Inst> n(f2.call<Inst *>(a, t)); PBT_CHECK(n->id == a && n->name == t, "new factory");
    }
    }
}
PBT_MAIN("C21", {{"history", 10, history, false}, {"typed", 2, typed, false}})
