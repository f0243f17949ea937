// C33: an evaluated block is the block its description describes, made from the evaluated properties.
#include "remote.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Util/EvalEnvironment.hpp>
#include <cmath>
#include <json.hpp>
using namespace remote; using json = nlohmann::json; using Pothos::Object; typedef Pothos::PluginRegistry PR;

// ---------------------------------------------------------------- values as JSON: numbers by value, maps as sorted pairs
struct Opaque { int x = 0; };
static std::string plain(const std::string &t) { std::string r; for (const unsigned char c : t) { if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof(b), "<%02x>", c); r += b; } else r += char(c); } return r; }
static json norm(const Object &o)
{
    if (o.type() == typeid(bool)) return o.extract<bool>();
    if (o.type() == typeid(std::string)) return plain(o.extract<std::string>());
    if (o.type() == typeid(Opaque)) return "opaque " + std::to_string(o.extract<Opaque>().x);
    if (o.type() == typeid(std::complex<double>)) { const auto c = o.extract<std::complex<double>>(); return json({{"re", c.real()}, {"im", c.imag()}}); }
    if (o.type() == typeid(Pothos::Proxy)) return norm(o.extract<Pothos::Proxy>().toObject());
    if (o.canConvert(typeid(Pothos::ProxyMap)) && !o.canConvert(typeid(double)) && !o.canConvert(typeid(Pothos::ProxyVector)))
    {
        std::vector<std::string> v; for (auto &p : o.convert<Pothos::ProxyMap>()) v.push_back(json({norm(p.first.toObject()), norm(p.second.toObject())}).dump()); std::sort(v.begin(), v.end()); return json({{"map", v}});
    }
    if (o.canConvert(typeid(Pothos::ProxyVector)) && !o.canConvert(typeid(double))) { json a = json::array(); for (auto &p : o.convert<Pothos::ProxyVector>()) a.push_back(norm(p.toObject())); return a; }
    return o.convert<double>();
}

//! an object of the value, for conversions to the types of typed arguments (conversion itself is C16 and C17)
static Object toObj(const json &v)
{
    if (v.is_boolean()) return Object(v.get<bool>());
    if (v.is_string()) { const auto t = v.get<std::string>(); if (t.find("opaque ") == 0) { Opaque q; return Object(q); } return Object(t); }
    if (v.is_array()) { Pothos::ProxyVector p; auto env = Pothos::ProxyEnvironment::make("managed"); for (auto &x : v) p.push_back(env->convertObjectToProxy(toObj(x))); return Object(p); }
    if (v.is_object()) return Object(Pothos::ProxyMap());
    const double d = v.get<double>(); return d == std::floor(d) ? Object((long long)(d)) : Object(d);
}
template <typename T> static bool typed(json &v) { try { const auto x = toObj(v).convert<T>(); v = norm(Object(x)); return true; } catch (const Pothos::Exception &) { return false; } }

// ---------------------------------------------------------------- recording blocks
static std::atomic<int> live(0);
struct Rec : Pothos::Block
{
    explicit Rec(const json &ctor)
    {
        live++; log = json::array(); log.push_back(ctor);
        this->registerCall(this, "set0", &Rec::set0); this->registerCall(this, "set1", &Rec::set1); this->registerCall(this, "set2", &Rec::set2); this->registerCall(this, "setInt", &Rec::setInt); this->registerCall(this, "setVec", &Rec::setVec); this->registerCall(this, "setText", &Rec::setText); this->registerCall(this, "refuse", &Rec::refuse); this->registerCall(this, "getLog", &Rec::getLog);
    }
    ~Rec(void) { live--; }
    void set0(void) { log.push_back(json::array({"set0"})); }
    void set1(const Object &a) { log.push_back(json::array({"set1", norm(a)})); }
    void set2(const Object &a, const Object &b) { log.push_back(json::array({"set2", norm(a), norm(b)})); }
    void setInt(int a) { log.push_back(json::array({"setInt", double(a)})); }
    void setVec(const std::vector<double> &v) { json a = json::array(); for (auto x : v) a.push_back(x); log.push_back(json::array({"setVec", a})); }
    void setText(const std::string &t) { log.push_back(json::array({"setText", plain(t)})); }
    void refuse(const Object &a) { log.push_back(json::array({"refuse", norm(a)})); throw Pothos::RuntimeException("refused"); }
    std::string getLog(void) const { return log.dump(); }
    json log;
};
static Pothos::Block *mk0(void) { return new Rec(json::array()); }
static Pothos::Block *mk1(const Object &a) { return new Rec(json::array({norm(a)})); }
static Pothos::Block *mk2(const Object &a, const Object &b) { return new Rec(json::array({norm(a), norm(b)})); }
static Pothos::Block *mk3(const Object &a, const Object &b, const Object &c) { return new Rec(json::array({norm(a), norm(b), norm(c)})); }
static Pothos::Block *mkT(int a, const std::string &t) { return new Rec(json::array({double(a), plain(t)})); }
static Pothos::Block *mkX(void) { throw Pothos::RuntimeException("refused"); }
static int uniq = 0;

// ---------------------------------------------------------------- typed expressions with their value
enum Ty { NUM, STR, BOOL, LIST, MAP, OBJ };
struct Val { Ty ty; json v; bool simple = true; }; // simple: usable as a constant inside an expression
typedef std::map<std::string, Val> Env;
struct Ex { std::string text; Val val; bool ok = true; };
static std::string numText(double d) { if (d == std::floor(d)) { const auto t = std::to_string((long long)(d)); return d < 0 ? "(" + t + ")" : t; } char b[40]; std::snprintf(b, sizeof(b), "%.17g", d); return d < 0 ? std::string("(") + b + ")" : b; }
static std::string word(Src &s) { static const char cs[] = "abcXYZ 01_,:;[]{}()+-.#"; std::string r; const size_t n = s.draw(6); for (size_t i = 0; i < n; i++) r += cs[s.draw(sizeof(cs) - 2)]; return r; }
static std::vector<std::string> of(const Env &env, Ty ty) { std::vector<std::string> r; for (auto &p : env) if (p.second.ty == ty && p.second.simple) r.push_back(p.first); return r; }
static Ex number(Src &s, const Env &env, unsigned depth)
{
    Ex e; e.val.ty = NUM; const auto names = of(env, NUM);
    switch (depth == 0 ? s.weighted({3, 3}) : s.weighted({2, 3, 3, 2, 2}))
    {
    case 0: { const double d = s.chance(1, 4) ? double(s.range(-4000, 4000)) / 8 : double(s.range(-50, 50)); e.text = numText(d); e.val.v = d; } break;
    case 1: if (names.empty()) { const double d = double(s.range(0, 99)); e.text = numText(d); e.val.v = d; } else { e.text = s.pick(names); e.val.v = env.at(e.text).v; } break;
    case 2: { const auto a = number(s, env, depth - 1), b = number(s, env, depth - 1); e.text = a.text + " + " + b.text; e.val.v = a.val.v.get<double>() + b.val.v.get<double>(); e.text = "(" + e.text + ")"; } break;
    case 3: { const auto a = number(s, env, depth - 1), b = number(s, env, depth - 1); e.text = "(" + a.text + "-" + b.text + ")"; e.val.v = a.val.v.get<double>() - b.val.v.get<double>(); } break;
    default: { const auto a = number(s, env, depth - 1); const int k = int(s.range(-3, 3)); e.text = "(" + a.text + "*" + numText(k) + ")"; e.val.v = a.val.v.get<double>() * k; } break;
    }
    if (std::abs(e.val.v.get<double>()) > 1e9) { e.text = "7"; e.val.v = 7.0; }
    if (e.val.v.get<double>() == 0) e.val.v = 0.0;
    return e;
}
static Ex expression(Src &s, const Env &env, unsigned depth, int want = -1)
{
    Ex e; const int k = want >= 0 ? want : int(s.weighted({8, 3, 2, depth ? 3 : 0, depth ? 2 : 0}));
    if (want < 0 && !env.empty() && s.chance(1, 4)) { std::vector<std::string> all; for (auto &p : env) if (p.second.simple) all.push_back(p.first); if (!all.empty()) { e.text = s.pick(all); e.val = env.at(e.text); return e; } }
    switch (k)
    {
    case NUM: return number(s, env, depth);
    case STR: { const auto w = word(s); e.text = "\"" + w + "\""; e.val.ty = STR; e.val.v = w; } break;
    case BOOL: { const bool b = s.flip(); e.text = b ? "true" : "false"; e.val.ty = BOOL; e.val.v = b; } break;
    case LIST: { const size_t n = s.draw(3); e.text = "["; e.val.ty = LIST; e.val.v = json::array(); for (size_t i = 0; i < n; i++) { const auto x = expression(s, env, depth ? depth - 1 : 0); e.text += (i ? ", " : "") + x.text; e.val.v.push_back(x.val.v); } e.text += "]"; } break;
    default: { const size_t n = s.draw(2); e.text = "{"; e.val.ty = MAP; std::vector<std::string> v; for (size_t i = 0; i < n; i++) { const auto x = expression(s, env, depth ? depth - 1 : 0, depth ? -1 : NUM); const std::string key = std::string(1, char('a' + i)); e.text += (i ? ", \"" : "\"") + key + "\": " + x.text; v.push_back(json({key, x.val.v}).dump()); } e.text += "}"; e.val.v = json({{"map", v}}); } break;
    }
    return e;
}
//! a JSON value used directly as argument
static json native(Src &s, unsigned depth, json &want)
{
    switch (s.weighted({4, 2, 2, depth ? 3 : 0, depth ? 2 : 0}))
    {
    case 0: { const long long v = s.range(-100000, 100000); want = double(v); return v; }
    case 1: { const double v = double(s.range(-4000, 4000)) / 16; want = v == 0 ? 0.0 : v; return v; }
    case 2: { const bool b = s.flip(); want = b; return b; }
    case 3: { json a = json::array(); want = json::array(); const size_t n = s.draw(3); for (size_t i = 0; i < n; i++) { json w; if (s.chance(1, 3)) { const auto t = word(s); w = t; a.push_back(t); } else { auto x = native(s, depth - 1, w); a.push_back(x); } want.push_back(w); } return a; }
    default: { json a = json::object(); std::vector<std::string> v; const size_t n = s.draw(2); for (size_t i = 0; i < n; i++) { json w; auto x = native(s, depth - 1, w); const std::string key = std::string(1, char('p' + i)); a[key] = x; v.push_back(json({key, w}).dump()); } want = json({{"map", v}}); return a; }
    }
}

static void session(Case &c)
{
    auto &s = c.s; const std::string path = "/verif33x" + std::to_string(uniq++);
    // the properties a description may mention, and how
    static const std::vector<std::string> props = {"alpha", "beta", "gamma", "delta", "pi2", "e1"}, nums = {"alpha", "beta", "gamma"}; // the latter only ever hold numbers
    const bool remote_ = s.chance(1, 4);
    // the description: arguments as templates resolved against the property values at evaluation time
    struct T { int kind; std::string name; json nat, natWant; std::string text; std::function<bool(const Env &, json &)> val; };
    auto makeArg = [&](void) -> T
    {
        T t; t.kind = int(s.weighted({4, 4, 3, 1}));
        if (t.kind == 0) { t.name = s.pick(props); const auto n = t.name; t.text = n; t.val = [n](const Env &e, json &w) { auto it = e.find(n); if (it == e.end()) return false; w = it->second.v; return true; }; }
        else if (t.kind == 1) // an expression over number properties
        {
            const int k = int(s.range(-5, 5)), form = int(s.draw(3)); const auto a = form == 2 ? s.pick(props) : s.pick(nums), b = form == 2 ? s.pick(props) : s.pick(nums); // lists have an arithmetic of their own (C25)
            t.text = form == 0 ? a + " + " + numText(k) : form == 1 ? "(" + a + "-" + b + ")*" + numText(k) : form == 2 ? "[" + a + ", " + numText(k) + ", " + b + "]" : numText(k);
            t.val = [a, b, k, form](const Env &e, json &w)
            {
                auto num = [&](const std::string &n, double &d) { auto it = e.find(n); if (it == e.end() || it->second.ty != NUM) return false; d = it->second.v.get<double>(); return true; };
                double x = 0, y = 0; if (form == 3) { w = double(k); return true; }
                if (form == 2) { auto i = e.find(a), j = e.find(b); if (i == e.end() || j == e.end() || !i->second.simple || !j->second.simple) return false; w = json::array({i->second.v, double(k), j->second.v}); return true; }
                if (!num(a, x)) return false; if (form == 0) { w = x + k; } else { if (!num(b, y)) return false; w = (x - y) * k; }
                if (w.get<double>() == 0) w = 0.0; return true;
            };
        }
        else if (t.kind == 2) { t.nat = native(s, 2, t.natWant); if (t.nat.is_string()) { t.nat = 5; t.natWant = 5.0; } const auto w0 = t.natWant; t.val = [w0](const Env &, json &w) { w = w0; return true; }; }
        else { const bool str = s.flip(); if (str) { const auto w0 = word(s); t.text = "\"" + w0 + "\""; t.val = [w0](const Env &, json &w) { w = w0; return true; }; } else { t.text = s.pick({std::string("no_such"), std::string("1+"), std::string(""), std::string("alpha +"), std::string("]")}); t.val = [](const Env &, json &) { return false; }; } }
        return t;
    };
    auto spec = [](const T &t) { return t.kind == 2 ? t.nat : json(t.text); };
    json desc = json::object(); std::vector<T> cargs; const int fac = int(s.weighted({2, 3, 3, 2, 2, 1, 1})); // 0..3 args, typed, refusing, missing
    const size_t nargs = fac <= 3 ? size_t(fac) : fac == 4 ? 2 : fac == 5 ? 0 : s.draw(2); const bool wrongCount = s.chance(1, 20); const size_t have = wrongCount ? nargs + 1 : nargs;
    for (size_t i = 0; i < have; i++) cargs.push_back(makeArg());
    desc["path"] = path; desc["name"] = "block"; if (have || s.flip()) { desc["args"] = json::array(); for (auto &a : cargs) desc["args"].push_back(spec(a)); }
    struct CD { std::string name; std::vector<T> args; }; std::vector<CD> calls; const size_t ncalls = s.draw(5);
    for (size_t i = 0; i < ncalls; i++) { CD d; d.name = s.pick({std::string("set0"), std::string("set1"), std::string("set1"), std::string("set2"), std::string("set2"), std::string("setInt"), std::string("setVec"), std::string("setText"), std::string("refuse"), std::string("noSuch")}); if ((d.name == "refuse" || d.name == "noSuch") && !s.chance(1, 3)) d.name = "set1"; size_t n = d.name == "set0" ? 0 : d.name == "set2" ? 2 : 1; if (s.chance(1, 40)) n++; for (size_t k = 0; k < n; k++) d.args.push_back(makeArg()); calls.push_back(d); }
    if (!calls.empty() || s.flip()) { desc["calls"] = json::array(); for (auto &d : calls) { json o = json::object(); o["name"] = d.name; if (!d.args.empty() || s.flip()) { o["args"] = json::array(); for (auto &a : d.args) o["args"].push_back(spec(a)); } desc["calls"].push_back(o); } }
    c.desc << desc.dump() << (remote_ ? " remotely; " : "; ");
    struct Clean { std::vector<std::string> p; ~Clean(void) { for (auto &x : p) try { PR::remove(x); } catch (...) {} } } clean;
    PR::add("/blocks/docs" + path, desc.dump()); clean.p.push_back("/blocks/docs" + path);
    if (fac != 6) { PR::add("/blocks" + path, fac == 0 ? Pothos::Callable(&mk0) : fac == 1 ? Pothos::Callable(&mk1) : fac == 2 ? Pothos::Callable(&mk2) : fac == 3 ? Pothos::Callable(&mk3) : fac == 4 ? Pothos::Callable(&mkT) : Pothos::Callable(&mkX)); clean.p.push_back("/blocks" + path); }
    PBT_CHECK(live == 0, live << " blocks left over from earlier cases");
    {
    std::unique_ptr<Link> link; Pothos::ProxyEnvironment::Sptr env; if (remote_) { link.reset(new Link()); env = link->connect(); } else env = Pothos::ProxyEnvironment::make("managed");
    struct Down { std::unique_ptr<Link> &l; Pothos::ProxyEnvironment::Sptr &e; ~Down(void) { e.reset(); if (l) l->join(); } } down{link, env};
    auto ev = env->findProxy("Pothos/Util/BlockEval").call("()", path, env->findProxy("Pothos/Util/EvalEnvironment").call("make"));
    { const auto e = errorOf([&](void) { env->findProxy("Pothos/Util/BlockEval").call("()", path + "/none", env->findProxy("Pothos/Util/EvalEnvironment").call("make")); }); PBT_CHECK(!e.empty(), "an evaluator was made for a path without description"); }
    Env consts, have_; bool hasBlock = false, keptCurrent = false; json log; std::string name; std::vector<std::pair<Pothos::Proxy, json>> kept; size_t evals = 0, goods = 0, fails = 0;
    // what one call does to the log; false when it fails
    auto judgeCall = [&](const CD &d, const Env &e, json &lg) -> bool
    {
        json row = json::array({d.name}); std::vector<json> a; for (auto &t : d.args) { json w; if (!t.val(e, w)) return false; a.push_back(w); }
        const size_t want = d.name == "set0" ? 0 : d.name == "set2" ? 2 : 1; if (d.name == "noSuch" || a.size() < want) return false; a.resize(want);
        if (d.name == "setInt" && !typed<int>(a[0])) return false;
        if (d.name == "setVec" && !typed<std::vector<double>>(a[0])) return false;
        if (d.name == "setText" && !typed<std::string>(a[0])) return false;
        for (auto &x : a) row.push_back(x); lg.push_back(row); return d.name != "refuse";
    };
    auto check = [&](const std::string &when)
    {
        const Pothos::Proxy b = ev.call("getProxyBlock"); if (!remote_) PBT_CHECK(live == int(kept.size()) + int(hasBlock && !keptCurrent), when << ": " << live << " blocks exist, want " << kept.size() + (hasBlock && !keptCurrent));
        if (!hasBlock) { bool null = !b; if (b) { try { b.call("getName"); } catch (const Pothos::Exception &) { null = true; } } PBT_CHECK(null, when << ": there is a block"); return; }
        PBT_CHECK(bool(b), when << ": there is no block"); const auto got = json::parse(b.call<std::string>("getLog")); PBT_CHECK(got == log, when << ": the block got " << got.dump() << ", want " << log.dump()); PBT_CHECK(b.call<std::string>("getName") == name, when << ": name " << b.call<std::string>("getName") << ", want " << name);
        for (auto &k : kept) PBT_CHECK(json::parse(k.first.call<std::string>("getLog")) == k.second, when << ": an earlier block changed");
    };
    const size_t n = 2 + s.draw(14), setup = s.chance(5, 6) ? props.size() : 0; size_t nextProp = 0; // most histories start by evaluating every property
    for (size_t k = 0; k < n + setup; k++) switch (const size_t what = k < setup ? s.weighted({0, 0, 3, 1}) : s.weighted({2, 1, 6, 2, 6, 3, 1}); what)
    {
    case 0: { const auto nm = s.pick({std::string("ka"), std::string("kb"), std::string("kc")}); auto e = expression(s, consts, 2);  c.desc << "constant " << nm << "=" << e.text << "; "; ev.call("applyConstant", nm, e.text); consts[nm] = e.val; } break;
    case 1: { const auto nm = s.pick({std::string("ka"), std::string("kb"), std::string("kc")}); c.desc << "drop " << nm << "; "; ev.call("removeConstant", nm); consts.erase(nm); } break;
    case 2:
    {
        const auto nm = k < setup ? props[nextProp++] : s.pick(props); c.desc << "property " << nm << "=";
        if (s.chance(1, 14)) { const auto t = s.pick({std::string("1+"), std::string("kz"), std::string("[1,"), std::string("")}); c.desc << "'" << t << "' (bad); "; const auto er = errorOf([&](void) { ev.call("evalProperty", nm, t); }); PBT_CHECK(!er.empty(), "evaluating '" << t << "' raised nothing"); break; }
        const bool isNum = std::find(nums.begin(), nums.end(), nm) != nums.end(); const auto e = expression(s, consts, 2, isNum ? NUM : -1); c.desc << e.text << "; "; const auto got = norm(ev.call<Object>("evalProperty", nm, e.text)); PBT_CHECK(got == e.val.v, "property " << e.text << " evaluates to " << got.dump() << ", want " << e.val.v.dump()); have_[nm] = e.val;
    } break;
    case 3:
    {
        const auto nm = k < setup ? props[nextProp++] : s.pick(props); Val v; Object o; c.desc << "set " << nm << "=";
        const size_t sk = s.weighted({3, 1, 1, 1, 1}); switch ((remote_ && sk == 4) || std::find(nums.begin(), nums.end(), nm) != nums.end() ? 0 : sk)
        {
        case 0: { const int x = int(s.range(-100, 100)); v.ty = NUM; v.v = double(x); o = s.flip() ? Object(x) : s.flip() ? Object((long long)(x)) : Object(double(x)); } break;
        case 1: { const auto w = word(s); v.ty = STR; v.v = w; o = Object(w); } break;
        case 2: { const bool b = s.flip(); v.ty = BOOL; v.v = b; o = Object(b); } break;
        case 3: { std::vector<double> a; v.ty = LIST; v.v = json::array(); const size_t m = s.draw(4); for (size_t i = 0; i < m; i++) { a.push_back(double(s.range(0, 9))); v.v.push_back(a.back()); } o = Object(a); } break;
        default: { Opaque q; q.x = int(s.draw(9)); v.ty = OBJ; v.v = "opaque " + std::to_string(q.x); v.simple = false; o = Object(q); } break;
        }
        c.desc << v.v.dump() << "; "; ev.call("setProperty", nm, o); have_[nm] = v;
    } break;
    case 4:
    {
        name = "id" + std::to_string(s.draw(99)); c.desc << "eval " << name << "; "; evals++; json lg = json::array(); bool ok = fac < 5 && !wrongCount; json ctor = json::array(); if (wrongCount && fac < 4) ok = false;
        for (auto &t : cargs) { json w; if (!t.val(have_, w)) { ok = false; break; } ctor.push_back(w); }
        if (ok && fac == 4) ok = typed<int>(ctor[0]) && typed<std::string>(ctor[1]);
        hasBlock = ok; keptCurrent = false; if (ok) { lg.push_back(ctor); for (auto &d : calls) if (!judgeCall(d, have_, lg)) { ok = false; break; } } log = lg;
        const auto er = errorOf([&](void) { ev.call("eval", name); }); PBT_CHECK(er.empty() == ok, (ok ? "the evaluation raised " + er : "the evaluation raised nothing")); (ok ? goods : fails)++; check("evaluated"); c.tag(ok ? "ok" : "failing");
    } break;
    case 5:
    {
        const auto nm = calls.empty() || s.chance(1, 5) ? std::string("set1") : s.pick(calls).name; bool ok = true, any = false; json lg = log; c.desc << "call " << nm << "; ";
        for (auto &d : calls) if (d.name == nm) { any = true; if (!hasBlock || !judgeCall(d, have_, lg)) { ok = false; break; } }
        const auto er = errorOf([&](void) { ev.call("handleCall", nm); }); PBT_CHECK(er.empty() == ok, (ok ? "the call raised " + er : "the call raised nothing")); if (hasBlock) log = lg; if (keptCurrent) kept.back().second = log; check("called"); if (any) c.tag("handleCall");
    } break;
    default: if (hasBlock && !keptCurrent && kept.size() < 3) { c.desc << "keep; "; kept.emplace_back(ev.call("getProxyBlock"), log); keptCurrent = true; } break;
    }
    c.count("evaluations", evals); c.nontrivial = goods >= 1 && evals >= 2 && n > 3;
    }
    PBT_CHECK(live == 0, live << " blocks exist after the evaluator is gone");
}

PBT_MAIN("C33", {{"session", 1, session, true}})
