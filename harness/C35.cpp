// C35: an object prints as its value, with the function registered for its type while there is one.
#include "values.hpp"
#include <Pothos/Object/RegisterToString.hpp>
#include <thread>
using namespace values; using Pothos::Object; typedef Pothos::PluginRegistry PR; typedef std::string S;

// ---------------------------------------------------------------- matching a text against the value it should show
struct A { int v = 0; }; struct B { S t; }; struct Plain { int v = 0; };
struct Expect { std::function<bool(const S &, size_t &)> match; S text; };
static Expect lit(const S &x) { return {[x](const S &t, size_t &p) { if (t.compare(p, x.size(), x) != 0) return false; p += x.size(); return true; }, x}; }
static bool near(long double got, long double want, bool exact) { if (want != want) return got != got; if (got == want) return true; return !exact && std::fabs(got - want) <= 1.1e-6L + std::fabs(want) * 1e-12L; }
static bool numAt(const S &t, size_t &p, long double &v) { if (p >= t.size() || std::isspace((unsigned char)t[p])) return false; char *e = nullptr; v = std::strtold(t.c_str() + p, &e); if (e == t.c_str() + p) return false; p = size_t(e - t.c_str()); return true; }
static Expect real(long double w, bool exact) { return {[=](const S &t, size_t &p) { long double v; return numAt(t, p, v) && near(v, w, exact); }, std::to_string(w)}; }
static Expect cplx(long double re, long double im, bool exact)
{
    return {[=](const S &t, size_t &p)
    {
        long double a, b = 0; if (!numAt(t, p, a)) return false; if (p < t.size() && t[p] == 'j') { p++; return near(a, im, exact) && near(0, re, exact); }
        size_t q = p; if (t.compare(p, 5, "+-nan") == 0) q++; if (q < t.size() && (t[q] == '+' || t[q] == '-') && numAt(t, q, b) && q < t.size() && t[q] == 'j') { p = q + 1; return near(a, re, exact) && near(b, im, exact); }
        return near(a, re, exact) && near(0, im, exact);
    }, "complex " + std::to_string(re) + " " + std::to_string(im)};
}
static Expect list(const std::vector<Expect> &v, const S &open, const S &close) { S x = open; for (size_t i = 0; i < v.size(); i++) x += (i ? ", " : "") + v[i].text; return {[=](const S &t, size_t &p) { if (!lit(open).match(t, p)) return false; for (size_t i = 0; i < v.size(); i++) { if (i && !lit(", ").match(t, p)) return false; if (!v[i].match(t, p)) return false; } return lit(close).match(t, p); }, x + close}; }
//! the elements in any order
static Expect anyOrder(const std::vector<Expect> &v, const S &open, const S &close)
{
    S x = open; for (size_t i = 0; i < v.size(); i++) x += (i ? ", " : "") + v[i].text;
    return {[=](const S &t, size_t &p) { std::vector<bool> used(v.size(), false); std::function<bool(size_t, size_t)> go = [&](size_t n, size_t q) -> bool { if (n == v.size()) { if (!lit(close).match(t, q)) return false; p = q; return true; } for (size_t i = 0; i < v.size(); i++) { size_t r = q; if (used[i] || (n && !lit(", ").match(t, r)) || !v[i].match(t, r)) continue; used[i] = true; if (go(n + 1, r)) return true; used[i] = false; } return false; }; return lit(open).match(t, p) && go(0, p); }, x + close};
}
struct Val { Object o; Expect e; };
template <typename T> static Val intVal(Src &s) { const T v = genInt<T>(s); return {Object(v), lit(std::to_string(v))}; }
template <typename T> static Val cintVal(Src &s) { const T a = s.chance(1, 4) ? T(0) : genInt<T>(s), b = s.chance(1, 4) ? T(0) : genInt<T>(s); return {Object(std::complex<T>(a, b)), cplx(a, b, true)}; }
template <typename T, typename U> static Val fltVal(Src &s) { const T v = genFloat<T, U>(s); return {Object(v), real(v, false)}; }
template <typename T, typename U> static Val cfltVal(Src &s) { const T a = s.chance(1, 4) ? T(0) : genFloat<T, U>(s), b = s.chance(1, 4) ? T(0) : genFloat<T, U>(s); return {Object(std::complex<T>(a, b)), cplx(a, b, false)}; }
template <typename T, typename F> static Val vecVal(Src &s, F gen) { std::vector<T> v; std::vector<Expect> e; const size_t n = s.draw(4); for (size_t i = 0; i < n; i++) { const auto x = gen(s); v.push_back(x.o.template extract<T>()); e.push_back(x.e); } return {Object(v), list(e, "[", "]")}; }
struct State { bool a = false, b = false; int fa = 0, fb = 0; };
static S showA(int f, int v) { return "A" + std::to_string(f) + "<" + std::to_string(v) + ">"; }
static Expect fallback(void) { return {[](const S &t, size_t &p) { if (p >= t.size() || t[p] != '<') return false; int d = 0; do { if (t[p] == '<') d++; if (t[p] == '>') d--; p++; } while (d > 0 && p < t.size()); return d == 0; }, "<type>"}; }
static Val gen(Src &s, const State &st, unsigned depth)
{
    const size_t k = s.weighted({4, 3, 3, 3, 3, 2, depth ? 3u : 0u, depth ? 2u : 0u, depth ? 2u : 0u, 3, 2});
    if (!depth && k >= 6 && k <= 8) return {Object(1), lit("1")};
    switch (k)
    {
    case 0: switch (s.draw(9)) { case 0: return intVal<int>(s); case 1: return intVal<long long>(s); case 2: return intVal<unsigned long long>(s); case 3: return intVal<char>(s); case 4: return intVal<signed char>(s); case 5: return intVal<unsigned char>(s); case 6: return intVal<short>(s); case 7: return intVal<unsigned short>(s); case 8: return intVal<unsigned>(s); default: return intVal<long>(s); }
    case 1: { const S t = genString(s, 8); return {s.flip() ? Object(t) : Object(t.c_str()).type() == typeid(S) && t.find('\0') == S::npos ? Object(t.c_str()) : Object(t), lit("\"" + t + "\"")}; }
    case 2: { const bool b = s.flip(); return {Object(b), lit(b ? "true" : "false")}; }
    case 3: return s.flip() ? fltVal<float, uint32_t>(s) : fltVal<double, uint64_t>(s);
    case 4: switch (s.draw(9)) { case 0: return cintVal<int>(s); case 1: return cintVal<long long>(s); case 2: return cintVal<int>(s); case 3: return cintVal<signed char>(s); case 4: return cintVal<int>(s); case 5: return cintVal<short>(s); case 6: return cintVal<int>(s); case 7: return cintVal<int>(s); case 8: return cfltVal<float, uint32_t>(s); default: return cfltVal<double, uint64_t>(s); }
    case 5: switch (s.draw(4)) { case 0: return vecVal<int>(s, &intVal<int>); case 1: return vecVal<unsigned long long>(s, &intVal<unsigned long long>); case 2: return vecVal<double>(s, &fltVal<double, uint64_t>); case 3: return vecVal<std::complex<float>>(s, &cfltVal<float, uint32_t>); default: return vecVal<short>(s, &intVal<short>); }
    case 6: { Pothos::ObjectVector v; std::vector<Expect> e; const size_t n = s.draw(4); for (size_t i = 0; i < n; i++) { const auto x = gen(s, st, depth - 1); v.push_back(x.o); e.push_back(x.e); } return {Object(v), list(e, "[", "]")}; }
    case 7: { Pothos::ObjectMap m; std::vector<Expect> e; std::set<long long> ks; const size_t n = s.draw(3); for (size_t i = 0; i < n; i++) { const long long key = s.range(-99, 99); if (!ks.insert(key).second) continue; const auto x = gen(s, st, depth - 1); m[Object(key)] = x.o; const auto ke = lit(std::to_string(key) + ": "), xe = x.e; e.push_back({[ke, xe](const S &t, size_t &p) { return ke.match(t, p) && xe.match(t, p); }, ke.text + xe.text}); } return {Object(m), anyOrder(e, "{", "}")}; }
    case 8: { Pothos::ObjectSet v; std::vector<Expect> e; std::set<S> ks; const size_t n = s.draw(3); for (size_t i = 0; i < n; i++) { const S t = S(1, char('a' + s.draw(25))) + genString(s, 3); if (!ks.insert(t).second) continue; v.insert(Object(t)); e.push_back(lit("\"" + t + "\"")); } return {Object(v), anyOrder(e, "(", ")")}; }
    case 9:
    {
        A a; a.v = int(s.range(-50, 50)); const S sh = showA(st.fa, a.v);
        switch (s.draw(3)) { case 0: return {Object(a), st.a ? lit(sh) : fallback()}; case 1: { auto p = std::make_shared<A>(a); return {Object(p), st.a ? lit("Shared pointer: " + sh) : fallback()}; } case 2: return {Object(std::shared_ptr<A>()), st.a ? Expect{[](const S &t, size_t &p) { return lit("Null shared pointer: ").match(t, p) && (p = std::min(t.find_first_of(",]})", p), t.size()), true); }, "Null shared pointer"} : fallback()}; default: { static A kept[101]; A *q = &kept[a.v + 50]; q->v = a.v; return {s.flip() ? Object(q) : Object((const A *)q), st.a ? lit("Pointer: " + sh) : fallback()}; } }
    }
    default: if (s.flip()) { Plain p; return {Object(p), fallback()}; } { B b; b.t = std::to_string(s.draw(99)); return {Object(b), st.b ? list({lit(b.t), lit(b.t)}, "B" + std::to_string(st.fb) + "[", "]") : fallback()}; }
    }
}
static void judge(const Val &v, const S &when) { S t; const auto e = errorOf([&](void) { t = v.o.toString(); }); PBT_CHECK(e.empty(), when << ": printing " << v.o.getTypeString() << " raised " << e); size_t p = 0; PBT_CHECK(v.e.match(t, p) && p == t.size(), when << ": a " << v.o.getTypeString() << " prints as '" << t << "', want '" << v.e.text << "'"); }

static int uniq = 0;
static void drop(const S &path) { try { PR::remove(path); } catch (const Pothos::Exception &) {} }
static void wipe(void) { for (const char *x : {"a", "a_ptr", "a_const_ptr", "a_sptr", "b", "n1", "n2", "n3"}) drop(S("/object/tostring/verif35/") + x); drop("/verif35/side"); }
static void setA(int f) { Pothos::registerToStringFunc<A>("verif35/a", [f](const A &a) { return showA(f, a.v); }, true); }
static void setB(int f) { Pothos::registerToStringFunc<B>("verif35/b", [f](const B &b) { drop("/verif35/side"); PR::add("/verif35/side", 1); return "B" + std::to_string(f) + Object(Pothos::ObjectVector{Object(std::stoi(b.t)), Object(std::stoi(b.t))}).toString(); }, false); }
static int wrong1(const A &) { PBT_FAIL("a function that makes no text was called"); } static S wrong2(const A &, const A &) { PBT_FAIL("a function of two values was called"); }
static void history(Case &c)
{
    auto &s = c.s; State st; wipe(); setA(77); setB(77); wipe(); struct Clean { ~Clean(void) { wipe(); } } clean; const size_t n = 3 + s.draw(20); size_t prints = 0, changes = 0, spoil = 0;
    for (size_t k = 0; k < n; k++) switch (s.weighted({8, 2, 2, 1}))
    {
    case 0: { const auto v = gen(s, st, unsigned(s.draw(2))); c.desc << "print " << v.e.text.substr(0, 60) << "; "; judge(v, "printed"); prints++; } break;
    case 1: changes++; if (st.a) { c.desc << "remove A; "; for (const char *x : {"a", "a_ptr", "a_const_ptr", "a_sptr"}) PR::remove(S("/object/tostring/verif35/") + x); st.a = false; } else { st.fa = int(s.draw(9)); c.desc << "register A " << st.fa << "; "; setA(st.fa); st.a = true; } break;
    case 2: changes++; if (st.b) { c.desc << "remove B; "; PR::remove("/object/tostring/verif35/b"); st.b = false; } else { st.fb = int(s.draw(9)); c.desc << "register B " << st.fb << "; "; setB(st.fb); st.b = true; } break;
    default: { const size_t w = s.draw(2); const S p = "/object/tostring/verif35/n" + std::to_string(w + 1); c.desc << "misfit " << w << "; "; if (PR::exists(p)) PR::remove(p); else if (w == 0) PR::add(p, Pothos::Callable(&wrong1)); else if (w == 1) PR::add(p, Pothos::Callable(&wrong2)); else PR::add(p, S("text")); spoil++; } break;
    }
    c.count("prints", prints); c.nontrivial = prints > 2 && changes > 1; if (spoil) c.tag("misfits");
}
static void threads(Case &c)
{
    auto &s = c.s; wipe(); struct Clean { ~Clean(void) { wipe(); } } clean; const size_t readers = 1 + s.draw(2), writers = 1 + s.draw(1), rounds = 20 + s.draw(150); c.desc << readers << " printing, " << writers << " registering, " << rounds << " rounds";
    std::atomic<size_t> running(writers); std::vector<S> errs(readers + writers); std::vector<std::thread> ts;
    for (size_t w = 0; w < writers; w++) ts.emplace_back([&, w](void) { errs[readers + w] = errorOf([&](void) { for (size_t k = 0; k < rounds; k++) { if (w == 0) { setA(int(k)); PR::remove("/object/tostring/verif35/a_ptr"); PR::remove("/object/tostring/verif35/a_const_ptr"); PR::remove("/object/tostring/verif35/a_sptr"); PR::remove("/object/tostring/verif35/a"); } else { setB(int(k)); PR::remove("/object/tostring/verif35/b"); } } }); running--; });
    for (size_t r = 0; r < readers; r++) ts.emplace_back([&, r](void) { try { size_t k = 0; A a; a.v = int(r); while (running > 0 || k < 3) { k++; const S t = Object(a).toString(); if (t[0] != '<' && (t[0] != 'A' || t.find("<" + std::to_string(r) + ">") == S::npos)) { errs[r] = "printed as " + t; break; } const S u = Object(std::make_shared<A>(a)).toString(); if (u[0] != '<' && u.find("Shared pointer: A") != 0) { errs[r] = "shared pointer printed as " + u; break; } const S w = Object(Pothos::ObjectVector{Object(a), Object(int(k))}).toString(); if (w.substr(w.size() > 4 + std::to_string(k).size() ? w.size() - 3 - std::to_string(k).size() : 0) != ", " + std::to_string(k) + "]") { errs[r] = "list printed as " + w; break; } } } catch (const std::exception &ex) { errs[r] = S("printing raised ") + ex.what(); } });
    for (auto &t : ts) t.join(); for (auto &e : errs) PBT_CHECK(e.empty(), e); c.nontrivial = readers + writers > 2; (void)uniq;
}
PBT_MAIN("C35", {{"history", 40, history}, {"threads", 1, threads, true}})
