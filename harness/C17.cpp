// C17: container and indirect conversions work element-wise, and availability is honest.
#include "simdstub.hpp"
#include "values.hpp"
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <atomic>
#include <thread>
using namespace pbt;
using Pothos::Object; using Pothos::Proxy;

//! one element type with its vector and matrix forms, elements seen as objects
struct Elem
{
    std::string name; const std::type_info *type, *vtype, *mtype; bool numeric;
    Object (*gen)(Src &);
    Object (*vec)(const std::vector<Object> &); std::vector<Object> (*unvec)(const Object &);
    Object (*matrix)(const std::vector<Object> &); std::vector<Object> (*unmatrix)(const Object &); // of vectors
};
template <typename T> Elem mk(const char *name, bool numeric)
{
    typedef std::vector<T> V; typedef std::vector<V> M; Elem e; e.name = name; e.type = &typeid(T); e.vtype = &typeid(V); e.mtype = &typeid(M); e.numeric = numeric;
    e.gen = [](Src &s) { return Object(T(values::Gen<T>::get(s))); };
    e.vec = [](const std::vector<Object> &o) { V v; for (auto &x : o) v.push_back(x.extract<T>()); return Object(v); };
    e.unvec = [](const Object &o) { std::vector<Object> r; const V &v = o.extract<V>(); for (size_t i = 0; i < v.size(); i++) r.push_back(Object(T(v[i]))); return r; };
    e.matrix = [](const std::vector<Object> &o) { M v; for (auto &x : o) v.push_back(x.extract<V>()); return Object(v); };
    e.unmatrix = [](const Object &o) { std::vector<Object> r; for (auto &x : o.extract<M>()) r.push_back(Object(x)); return r; };
    return e;
}
static const std::vector<Elem> &elems(void)
{
    static const std::vector<Elem> e = {mk<int>("int", true), mk<double>("double", true), mk<std::string>("string", false), mk<bool>("bool", false), mk<char>("char", true), mk<signed char>("schar", true), mk<unsigned char>("uchar", true), mk<short>("short", true), mk<unsigned short>("ushort", true), mk<unsigned>("uint", true), mk<long>("long", true), mk<unsigned long>("ulong", true), mk<long long>("llong", true), mk<unsigned long long>("ullong", true), mk<float>("float", true), mk<std::complex<float>>("cfloat", true), mk<std::complex<double>>("cdouble", true)};
    return e;
}
static std::string listing(const std::vector<Object> &v) { std::string r; for (size_t i = 0; i < v.size() && i < 8; i++) r += (i ? " " : "") + values::text(v[i]); return r; }
static Object proxied(const std::vector<Object> &v) { Pothos::ProxyVector r; for (auto &o : v) r.push_back(values::managedEnv()->makeProxy(o)); return Object(r); }
static std::vector<Object> unproxied(const Object &o) { std::vector<Object> r; for (auto &p : o.extract<Pothos::ProxyVector>()) { PBT_CHECK(p.getEnvironment()->getName() == "managed", "environment of an element"); r.push_back(p.toObject()); } return r; }
static void same(const std::vector<Object> &got, const std::vector<Object> &want, const std::string &what)
{
    PBT_CHECK(got.size() == want.size(), what << ": length " << got.size() << ", want " << want.size());
    for (size_t i = 0; i < got.size(); i++) { const auto g = values::text(got[i]), w = values::text(want[i]); PBT_CHECK(g == w, what << ": element " << i << " is " << g << ", want " << w); }
}
//! elements converted one by one; empty and bad=true when one of them cannot be converted
static std::vector<Object> each(const std::vector<Object> &v, const std::type_info &t, bool &bad) { std::vector<Object> r; bad = false; for (auto &o : v) { try { r.push_back(o.convert(t)); } catch (const Pothos::Exception &) { bad = true; return {}; } } return r; }
//! small enough for most other types, now and then
static Object genElem(Src &s, const Elem &e, bool tame)
{
    if (tame && e.numeric) { const Object o(int(s.range(0, 120))); return o.convert(*e.type); }
    return e.gen(s);
}

static void vectors(Case &c)
{
    auto &s = c.s; const Elem &e = s.pick(elems()), &f = s.pick(elems()); const size_t n = size_t(s.small(0, 12)); const bool tame = s.chance(2, 3);
    std::vector<Object> v; for (size_t i = 0; i < n; i++) v.push_back(genElem(s, e, tame));
    c.desc << "vector of " << e.name << " [" << listing(v) << "], other type " << f.name; c.nontrivial = n > 1;
    const auto &PV = typeid(Pothos::ProxyVector); const auto &OV = typeid(Pothos::ObjectVector);
    const Object native = e.vec(v);
    const Object p = native.convert(PV); same(unproxied(p), v, "to proxies");
    same(e.unvec(p.convert(*e.vtype)), v, "to proxies and back");
    const Object o = p.convert(OV); same(o.extract<Pothos::ObjectVector>(), v, "proxies to objects");
    same(unproxied(o.convert(PV)), v, "objects to proxies");
    same(e.unvec(o.convert(*e.vtype)), v, "objects to native");
    same(native.convert(OV).extract<Pothos::ObjectVector>(), v, "native to objects");
    // across element types: as each element would
    bool bad = false; const auto want = each(v, *f.type, bad);
    const Object srcs[] = {native, p, o}; const char *names[] = {"native", "proxies", "objects"};
    for (int i = 0; i < 3; i++)
    {
        if (!srcs[i].canConvert(*f.vtype)) { PBT_CHECK(throws<Pothos::ObjectConvertError>([&] { (void)srcs[i].convert(*f.vtype); }), names[i] << " to " << f.name << " vector reported impossible, but converts"); PBT_CHECK(i == 0 && !e.numeric != !f.numeric, names[i] << " to " << f.name << " vector reported impossible"); continue; }
        std::vector<Object> got; std::string err;
        try { const Object r = srcs[i].convert(*f.vtype); PBT_CHECK(r.type() == *f.vtype, "type " << r.getTypeString()); got = f.unvec(r); } catch (const Pothos::Exception &ex) { err = ex.displayText(); if (err.empty()) err = "?"; }
        PBT_CHECK(err.empty() == !bad, names[i] << " to vector of " << f.name << ": " << (err.empty() ? "converted although an element cannot be" : err));
        if (!bad) same(got, want, std::string(names[i]) + " to vector of " + f.name);
        c.tag(bad ? "element refused" : "converted");
    }
}
static void matrices(Case &c)
{
    auto &s = c.s; const Elem &e = s.pick(elems()); const size_t n = size_t(s.small(0, 5)); std::vector<Object> rows;
    for (size_t i = 0; i < n; i++) { std::vector<Object> v; for (size_t k = size_t(s.small(0, 6)); k > 0; k--) v.push_back(genElem(s, e, s.flip())); rows.push_back(e.vec(v)); }
    c.desc << "matrix of " << e.name << " [" << listing(rows) << "]"; c.nontrivial = n > 1;
    const Object m = e.matrix(rows), p = m.convert(typeid(Pothos::ProxyVector));
    same(unproxied(p), rows, "matrix to proxies"); same(e.unmatrix(p.convert(*e.mtype)), rows, "matrix to proxies and back");
    // rows that are proxy vectors themselves
    std::vector<Object> pr; for (auto &r : rows) pr.push_back(r.convert(typeid(Pothos::ProxyVector)));
    same(e.unmatrix(proxied(pr).convert(*e.mtype)), rows, "nested proxies to matrix");
    if (e.numeric) { const Elem &f = s.pick(elems()); if (f.numeric) { bool bad = false; const auto want = each(rows, *f.vtype, bad); std::string err; std::vector<Object> got; try { got = f.unmatrix(p.convert(*f.mtype)); } catch (const Pothos::Exception &ex) { err = ex.displayText() + "!"; } PBT_CHECK(err.empty() == !bad, "matrix to " << f.name << ": " << err); if (!bad) same(got, want, "matrix to " + f.name); } }
}
//! proxy and object vectors of mixed element types
static void mixed(Case &c)
{
    auto &s = c.s; const size_t n = size_t(s.small(0, 8)); std::vector<Object> v; for (size_t i = 0; i < n; i++) v.push_back(s.chance(1, 4) ? values::genObject(s, 1) : genElem(s, s.pick(elems()), true));
    c.desc << "mixed [" << listing(v) << "]"; c.nontrivial = n > 1;
    const Object p = proxied(v), o = Object(Pothos::ObjectVector(v));
    same(p.convert(typeid(Pothos::ObjectVector)).extract<Pothos::ObjectVector>(), v, "proxies to objects"); same(unproxied(o.convert(typeid(Pothos::ProxyVector))), v, "objects to proxies");
    const Elem &f = s.pick(elems()); bool bad = false; const auto want = each(v, *f.type, bad); c.tag(bad ? "element refused" : "converted");
    const Object srcs[] = {p, o};
    for (const Object &src : srcs)
    {
        std::string err; std::vector<Object> got; try { got = f.unvec(src.convert(*f.vtype)); } catch (const Pothos::Exception &ex) { err = ex.displayText() + "!"; }
        PBT_CHECK(err.empty() == !bad, src.getTypeString() << " to vector of " << f.name << ": " << (bad ? "converted although an element cannot be" : err)); if (!bad) same(got, want, "to vector of " + f.name);
    }
}
static void sameMap(const std::map<std::string, std::string> &got, const std::map<std::string, std::string> &want, const char *what)
{
    PBT_CHECK(got.size() == want.size(), what << ": " << got.size() << " entries, want " << want.size());
    for (auto &w : want) { auto it = got.find(w.first); PBT_CHECK(it != got.end(), what << ": no entry " << w.first); PBT_CHECK(it->second == w.second, what << ": entry " << w.first << " is " << it->second << ", want " << w.second); }
}
static void maps(Case &c)
{
    auto &s = c.s; const int kind = int(s.draw(2)); const size_t n = size_t(s.small(0, 8)); const bool strValues = s.chance(1, 3);
    Pothos::ObjectMap m; Pothos::ObjectSet set; std::map<std::string, std::string> want, wantKw; std::set<std::string> wantSet;
    for (size_t i = 0; i < n; i++)
    {
        const Object k = values::genKey(s, kind); const Object v = strValues ? Object(values::genString(s, 6)) : values::genObject(s, 1);
        if (!m.emplace(k, v).second) continue;
        set.insert(k); want[values::text(k)] = values::text(v); wantSet.insert(values::text(k));
        if (kind == 1) wantKw[k.extract<std::string>()] = values::text(v); else if (kind == 0) wantKw[std::to_string(k.extract<int>())] = values::text(v);
    }
    for (auto &w : want) c.desc << w.first << "=>" << w.second << " "; c.nontrivial = want.size() > 1;
    auto ofMap = [](const Pothos::ObjectMap &x) { std::map<std::string, std::string> r; for (auto &e : x) r[values::text(e.first)] = values::text(e.second); PBT_CHECK(r.size() == x.size(), "duplicate keys"); return r; };
    auto ofPMap = [](const Pothos::ProxyMap &x) { std::map<std::string, std::string> r; for (auto &e : x) r[values::text(e.first.toObject())] = values::text(e.second.toObject()); PBT_CHECK(r.size() == x.size(), "duplicate keys"); return r; };
    auto ofKw = [](const Pothos::ObjectKwargs &x) { std::map<std::string, std::string> r; for (auto &e : x) r[e.first] = values::text(e.second); return r; };
    const Object om(m), pm = om.convert(typeid(Pothos::ProxyMap)), os(set), ps = os.convert(typeid(Pothos::ProxySet));
    sameMap(ofPMap(pm.extract<Pothos::ProxyMap>()), want, "object map to proxy map"); sameMap(ofMap(pm.convert(typeid(Pothos::ObjectMap)).extract<Pothos::ObjectMap>()), want, "proxy map to object map");
    { std::set<std::string> g; for (auto &p : ps.extract<Pothos::ProxySet>()) g.insert(values::text(p.toObject())); PBT_CHECK(g == wantSet && g.size() == ps.extract<Pothos::ProxySet>().size(), "object set to proxy set"); }
    { std::set<std::string> g; const Object b = ps.convert(typeid(Pothos::ObjectSet)); for (auto &p : b.extract<Pothos::ObjectSet>()) g.insert(values::text(p)); PBT_CHECK(g == wantSet && g.size() == b.extract<Pothos::ObjectSet>().size(), "proxy set to object set"); }
    if (kind != 2)
    {
        const Object kw = om.convert(typeid(Pothos::ObjectKwargs)); sameMap(ofKw(kw.extract<Pothos::ObjectKwargs>()), wantKw, "object map to kwargs");
        if (kind == 1)
        {
            sameMap(ofMap(kw.convert(typeid(Pothos::ObjectMap)).extract<Pothos::ObjectMap>()), want, "kwargs to object map");
            sameMap(ofKw(pm.convert(typeid(Pothos::ObjectKwargs)).extract<Pothos::ObjectKwargs>()), wantKw, "proxy map to kwargs");
            sameMap(ofPMap(kw.convert(typeid(Pothos::ProxyMap)).extract<Pothos::ProxyMap>()), want, "kwargs to proxy map");
            typedef std::map<std::string, std::string> SS; std::string err; SS got; bool strs = true; SS plain; for (auto &e : m) { if (e.second.type() == typeid(std::string)) plain[e.first.extract<std::string>()] = e.second.extract<std::string>(); else if (e.second.canConvert(typeid(std::string))) return; else strs = false; }
            try { got = pm.convert(typeid(SS)).extract<SS>(); } catch (const Pothos::Exception &ex) { err = ex.displayText() + "!"; }
            PBT_CHECK(err.empty() == strs, "proxy map to string map: " << err); if (strs) sameMap(got, plain, "proxy map to string map");
        }
    }
}
static void strings(Case &c)
{
    auto &s = c.s; const std::string x = values::genString(s, 60); c.desc << "\"" << x << "\""; c.nontrivial = x.size() > 2; const Object o(x);
    const auto v = o.convert<std::vector<char>>(); PBT_CHECK(std::string(v.begin(), v.end()) == x, "string to bytes");
    PBT_CHECK(Object(v).convert<std::string>() == x, "bytes to string");
    PBT_CHECK(Object(std::vector<signed char>(x.begin(), x.end())).convert<std::string>() == x && Object(std::vector<unsigned char>(x.begin(), x.end())).convert<std::string>() == x, "signed or unsigned bytes to string");
    std::vector<Pothos::Label> labels; std::string want; for (size_t n = size_t(s.small(0, 5)); n > 0; n--) labels.push_back(values::genLabel(s, 1));
    const Object lo(labels), lp = lo.convert(typeid(Pothos::ProxyVector)); const auto back = lp.convert<std::vector<Pothos::Label>>();
    PBT_CHECK(values::text(Object(back)) == values::text(lo), "labels to proxies and back");
}
//! every pair of a broad set of types: possible means no missing conversion, impossible means an error
static void availability(Case &c)
{
    auto &s = c.s; static const std::vector<const std::type_info *> targets = [](void) { std::vector<const std::type_info *> t; for (auto &e : elems()) { t.push_back(e.type); t.push_back(e.vtype); t.push_back(e.mtype); } for (auto x : {&typeid(Pothos::ProxyVector), &typeid(Pothos::ProxySet), &typeid(Pothos::ProxyMap), &typeid(Pothos::ObjectVector), &typeid(Pothos::ObjectSet), &typeid(Pothos::ObjectMap), &typeid(Pothos::ObjectKwargs), &typeid(Pothos::DType), &typeid(Pothos::Packet), &typeid(std::vector<Pothos::Label>), &typeid(Pothos::NullObject), &typeid(std::complex<long long>)}) t.push_back(x); return t; }();
    Object o; if (s.flip()) o = genElem(s, s.pick(elems()), s.flip()); else o = values::genObject(s, 2);
    const std::type_info &t = *s.pick(targets); const bool can = o.canConvert(t);
    c.desc << values::text(o).substr(0, 80) << " to " << Object().getTypeString() << t.name(); c.nontrivial = o.type() != t; c.tag(can ? "possible" : "impossible");
    PBT_CHECK(can == Object::canConvert(o.type(), t), "canConvert of the object is " << can << ", of the types not");
    std::string err; bool convertError = false; Object r;
    try { r = o.convert(t); } catch (const Pothos::ObjectConvertError &ex) { err = ex.displayText(); convertError = true; } catch (const Pothos::Exception &ex) { err = ex.displayText() + "!"; }
    if (!can) { PBT_CHECK(convertError, "reported impossible, but " << (err.empty() ? "converts" : err)); return; }
    if (err.empty()) { PBT_CHECK(r.type() == t, "converts to " << r.getTypeString()); return; }
    // elements of generic containers may lack a conversion of their own
    const auto &it = o.type(); const bool generic = it == typeid(Pothos::ProxyVector) || it == typeid(Pothos::ProxySet) || it == typeid(Pothos::ProxyMap) || it == typeid(Pothos::ObjectVector) || it == typeid(Pothos::ObjectSet) || it == typeid(Pothos::ObjectMap) || it == typeid(Pothos::ObjectKwargs);
    const bool through = Object::canConvert(it, typeid(Pothos::ProxyVector)) && Object::canConvert(typeid(Pothos::ProxyVector), t); // via a generic container
    if (!generic && !through) PBT_CHECK(!convertError, "reported possible, but " << err);
}

// ------------------------------------------------ conversions registered and removed at run time
template <int N> struct Own { std::string path; };
struct Refuse: Pothos::Exception { Refuse(void): Pothos::Exception("refused") {} ~Refuse(void) throw() {} Pothos::Exception *clone(void) const override { return new Refuse(*this); } void rethrow(void) const override { throw *this; } };
static bool &refuse(void) { static thread_local bool r = false; return r; }
template <int A, int B, int V> Own<B> conv(const Own<A> &a) { if (refuse()) throw Pothos::RangeException("refused by the converter"); return Own<B>{a.path + ">" + std::to_string(A) + std::to_string(B) + char('a' + V)}; }
template <int A> double toDouble(const Own<A> &) { return 40 + A; }
struct Edge { int a, b; Pothos::Callable call[2]; };
template <int A, int B> Edge edge(void) { return Edge{A, B, {Pothos::Callable(&conv<A, B, 0>), Pothos::Callable(&conv<A, B, 1>)}}; }
static const std::vector<Edge> &edges(void)
{
    static const std::vector<Edge> e = {edge<0, 1>(), edge<0, 2>(), edge<0, 3>(), edge<1, 0>(), edge<1, 2>(), edge<1, 3>(), edge<2, 0>(), edge<2, 1>(), edge<2, 3>(), edge<3, 0>(), edge<3, 1>(), edge<3, 2>()};
    return e;
}
static const std::type_info &ownType(int i) { return i == 0 ? typeid(Own<0>) : i == 1 ? typeid(Own<1>) : i == 2 ? typeid(Own<2>) : typeid(Own<3>); }
static Object ownMake(int i) { return i == 0 ? Object(Own<0>()) : i == 1 ? Object(Own<1>()) : i == 2 ? Object(Own<2>()) : Object(Own<3>()); }
static std::string ownPath(int i, const Object &o) { return i == 0 ? o.extract<Own<0>>().path : i == 1 ? o.extract<Own<1>>().path : i == 2 ? o.extract<Own<2>>().path : o.extract<Own<3>>().path; }

static void histories(Case &c)
{
    auto &s = c.s; std::map<std::pair<int, int>, int> have; bool dbl[4] = {false, false, false, false}; size_t removed = 0, indirect = 0; const size_t ops = size_t(s.small(3, 40));
    auto pathOf = [](int a, int b) { return "/object/convert/verif/" + std::to_string(a) + "_to_" + std::to_string(b); };
    struct Guard { std::function<void(void)> f; ~Guard(void) { f(); } } guard{[&] { for (auto &h : have) Pothos::PluginRegistry::remove(pathOf(h.first.first, h.first.second)); for (int i = 0; i < 4; i++) if (dbl[i]) Pothos::PluginRegistry::remove(pathOf(i, 9)); }};
    for (size_t k = 0; k < ops; k++)
    {
        if (s.chance(1, 5))
        {
            const int a = int(s.draw(3)); c.desc << (dbl[a] ? "-" : "+") << a << "d ";
            if (dbl[a]) { Pothos::PluginRegistry::remove(pathOf(a, 9)); removed++; } else Pothos::PluginRegistry::add(pathOf(a, 9), a == 0 ? Pothos::Callable(&toDouble<0>) : a == 1 ? Pothos::Callable(&toDouble<1>) : a == 2 ? Pothos::Callable(&toDouble<2>) : Pothos::Callable(&toDouble<3>));
            dbl[a] = !dbl[a];
        }
        else if (s.chance(2, 3))
        {
            const Edge &e = s.pick(edges()); auto it = have.find({e.a, e.b});
            if (it != have.end()) { c.desc << "-" << e.a << e.b << " "; Pothos::PluginRegistry::remove(pathOf(e.a, e.b)); have.erase(it); removed++; }
            else { const int v = int(s.draw(1)); c.desc << "+" << e.a << e.b << char('a' + v) << " "; Pothos::PluginRegistry::add(pathOf(e.a, e.b), e.call[v]); have[{e.a, e.b}] = v; }
        }
        const int a = int(s.draw(3)), b = int(s.draw(3)); const Object o = ownMake(a); const Object keep = o;
        std::set<std::string> want; auto name = [&](int x, int y) { return ">" + std::to_string(x) + std::to_string(y) + char('a' + have[{x, y}]); };
        if (a == b) want.insert(""); else if (have.count({a, b})) want.insert(name(a, b)); else for (int i = 0; i < 4; i++) if (have.count({a, i}) && have.count({i, b})) want.insert(name(a, i) + name(i, b));
        std::ostringstream w; w << "step " << k << ", " << a << " to " << b << ": ";
        PBT_CHECK(o.canConvert(ownType(b)) == !want.empty() && Object::canConvert(ownType(a), ownType(b)) == !want.empty(), w.str() << "canConvert is " << o.canConvert(ownType(b)));
        if (want.empty()) PBT_CHECK(throws<Pothos::ObjectConvertError>([&] { (void)o.convert(ownType(b)); }), w.str() << "no conversion registered, but no error");
        else
        {
            const Object r = o.convert(ownType(b)); PBT_CHECK(r.type() == ownType(b), w.str() << "type " << r.getTypeString()); const auto got = ownPath(b, r);
            PBT_CHECK(want.count(got), w.str() << "converted along " << got); indirect += got.size() > 4;
            if (a != b && s.chance(1, 4)) { refuse() = true; std::string err; try { (void)o.convert(ownType(b)); err = "nothing"; } catch (const Pothos::RangeException &ex) { if (ex.message().find("refused by the converter") == std::string::npos) err = ex.displayText(); } catch (const Pothos::Exception &ex) { err = ex.displayText(); } refuse() = false; PBT_CHECK(err.empty(), w.str() << "exception of the converter came back as " << err); }
        }
        // through a registered conversion to double, everything double converts to
        const bool can = Object::canConvert(ownType(a), typeid(int)); PBT_CHECK(can == dbl[a], w.str() << "canConvert to int is " << can);
        if (dbl[a]) { PBT_CHECK(o.convert<int>() == 40 + a && o.convert<double>() == 40 + a && o.convert<unsigned char>() == 40 + a, w.str() << "number"); } else PBT_CHECK(throws<Pothos::ObjectConvertError>([&] { (void)o.convert<int>(); }), w.str() << "converted to int");
        PBT_CHECK(ownPath(a, keep).empty(), w.str() << "the source changed");
    }
    c.count("indirect", indirect); c.nontrivial = removed > 0 && ops > 6;
}
// ------------------------------------------------ proxy environments: converters registered and removed at run time
struct Env: Pothos::ProxyEnvironment
{
    std::string getName(void) const override { return "verifenv"; }
    Proxy findProxy(const std::string &) override { throw Pothos::ProxyEnvironmentFindError("none"); }
    void serialize(const Proxy &, std::ostream &) override {}
    Proxy deserialize(std::istream &) override { return Proxy(); }
};
struct Handle: Pothos::ProxyHandle
{
    Handle(Pothos::ProxyEnvironment::Sptr e, const std::string &c, int v): env(e), cls(c), v(v) {}
    Pothos::ProxyEnvironment::Sptr getEnvironment(void) const override { return env; }
    Proxy call(const std::string &, const Proxy *, const size_t) override { return Proxy(); }
    int compareTo(const Proxy &) const override { return 0; }
    size_t hashCode(void) const override { return 0; }
    std::string toString(void) const override { return cls; }
    std::string getClassName(void) const override { return cls; }
    Pothos::ProxyEnvironment::Sptr env; std::string cls; int v;
};
template <int N> Proxy toProxy(Pothos::ProxyEnvironment::Sptr env, const Own<N> &o) { return Proxy(new Handle(env, "own" + std::to_string(N), int(o.path.size()))); }
template <int N> Own<N> toLocal(const Proxy &p) { return Own<N>{std::string(size_t(std::dynamic_pointer_cast<Handle>(p.getHandle())->v), 'x')}; }
static void environments(Case &c)
{
    auto &s = c.s; bool tp[2] = {false, false}, tl[2] = {false, false}; size_t removed = 0; const size_t ops = size_t(s.small(3, 30));
    auto path = [](bool toP, int n) { return "/proxy/converters/verifenv/" + std::string(toP ? "to_proxy" : "to_local") + std::to_string(n); };
    struct Guard { std::function<void(void)> f; ~Guard(void) { f(); } } guard{[&] { for (int i = 0; i < 2; i++) { if (tp[i]) Pothos::PluginRegistry::remove(path(true, i)); if (tl[i]) Pothos::PluginRegistry::remove(path(false, i)); } }};
    std::shared_ptr<Env> env(new Env());
    for (size_t k = 0; k < ops; k++)
    {
        const int n = int(s.draw(1));
        if (s.flip()) { c.desc << (tp[n] ? "-" : "+") << "p" << n << " "; if (tp[n]) { Pothos::PluginRegistry::remove(path(true, n)); removed++; } else Pothos::PluginRegistry::add(path(true, n), n ? Pothos::Callable(&toProxy<1>) : Pothos::Callable(&toProxy<0>)); tp[n] = !tp[n]; }
        if (s.flip()) { c.desc << (tl[n] ? "-" : "+") << "l" << n << " "; if (tl[n]) { Pothos::PluginRegistry::remove(path(false, n)); removed++; } else Pothos::PluginRegistry::add(path(false, n), Pothos::ProxyConvertPair("own" + std::to_string(n), n ? Pothos::Callable(&toLocal<1>) : Pothos::Callable(&toLocal<0>))); tl[n] = !tl[n]; }
        const int m = int(s.draw(1)); const size_t len = size_t(s.small(0, 9)); const Object o = m ? Object(Own<1>{std::string(len, 'x')}) : Object(Own<0>{std::string(len, 'x')});
        std::ostringstream w; w << "step " << k << ": ";
        if (tp[m]) { const Proxy p = env->convertObjectToProxy(o); auto h = std::dynamic_pointer_cast<Handle>(p.getHandle()); PBT_CHECK(h && h->v == int(len) && h->cls == "own" + std::to_string(m), w.str() << "wrong proxy"); }
        else PBT_CHECK(throws<Pothos::ProxyEnvironmentConvertError>([&] { (void)env->convertObjectToProxy(o); }), w.str() << "no converter to proxy, but no error");
        const Proxy p(new Handle(env, "own" + std::to_string(m), int(len)));
        if (tl[m]) { const Object r = env->convertProxyToObject(p); PBT_CHECK(r.type() == ownType(m) && ownPath(m, r) == std::string(len, 'x'), w.str() << "wrong object"); const Object q = p.toObject(); PBT_CHECK(q.type() == ownType(m), w.str() << "toObject"); }
        else PBT_CHECK(throws<Pothos::ProxyEnvironmentConvertError>([&] { (void)env->convertProxyToObject(p); }), w.str() << "no converter to local, but no error");
    }
    c.nontrivial = removed > 0 && ops > 5;
}
// ------------------------------------------------ conversions while others are registered
static void concurrent(Case &c)
{
    auto &s = c.s; const int threads = int(s.range(1, 4)); const int rounds = int(s.range(20, 200)), toggles = int(s.range(5, 60)); c.desc << threads << " threads, " << rounds << " rounds, " << toggles << " toggles"; c.nontrivial = true;
    Pothos::PluginRegistry::add("/object/convert/verif/c01", Pothos::Callable(&conv<0, 1, 0>));
    std::atomic<bool> go(false); std::mutex m; std::string error; std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++) ts.emplace_back([&, t]
    {
        while (!go) std::this_thread::yield();
        for (int i = 0; i < rounds; i++)
        {
            std::string err;
            try
            {
                if (Object(Own<0>()).convert<Own<1>>().path != ">01a") err = "wrong conversion";
                if (Object(int(i)).convert<double>() != i) err = "wrong number";
                if (!Object::canConvert(typeid(Own<0>), typeid(Own<1>))) err = "registered conversion reported impossible";
                const bool can = Object::canConvert(typeid(Own<2>), typeid(Own<3>)); (void)can;
                try { if (Object(Own<2>()).convert<Own<3>>().path != ">23a") err = "wrong toggled conversion"; } catch (const Pothos::ObjectConvertError &) {}
                if (Object(std::vector<int>{i}).convert<Pothos::ProxyVector>().at(0).convert<long>() != i) err = "wrong nested conversion";
            }
            catch (const Pothos::Exception &ex) { err = ex.displayText(); }
            if (!err.empty()) { std::lock_guard<std::mutex> l(m); error = err; return; }
        }
    });
    go = true;
    for (int i = 0; i < toggles; i++) { Pothos::PluginRegistry::add("/object/convert/verif/c23", Pothos::Callable(&conv<2, 3, 0>)); if (i % 3 == 0) std::this_thread::yield(); Pothos::PluginRegistry::remove("/object/convert/verif/c23"); }
    for (auto &t : ts) t.join();
    Pothos::PluginRegistry::remove("/object/convert/verif/c01");
    PBT_CHECK(error.empty(), error);
}
PBT_MAIN("C17", {{"vectors", 10, vectors, false}, {"matrices", 4, matrices, false}, {"mixed", 5, mixed, false}, {"maps", 6, maps, false}, {"strings", 2, strings, false}, {"availability", 10, availability, false}, {"histories", 5, histories, false}, {"environments", 2, environments, false}, {"concurrent", 1, concurrent, true}})
