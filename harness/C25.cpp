// C25: expressions evaluate to their mathematical and structural value.
#include "simdstub.hpp"
#include "values.hpp"
#include <Pothos/Util/EvalEnvironment.hpp>
#include <Pothos/Proxy.hpp>
#include <complex>
using namespace pbt;
using Pothos::Object; using Pothos::Util::EvalEnvironment;

enum Kind { NUM, BOOL, STR, LIST, MAP };
struct V { Kind k = NUM; std::complex<double> n; bool b = false; std::string s; std::vector<V> list; std::vector<std::pair<V, V>> map; };
static V num(std::complex<double> n) { V v; v.n = n; return v; }
static V boolean(bool b) { V v; v.k = BOOL; v.b = b; return v; }
static V str(const std::string &s) { V v; v.k = STR; v.s = s; return v; }
static V listOf(const std::vector<V> &l) { V v; v.k = LIST; v.list = l; return v; }
static bool equal(const V &a, const V &b)
{
    if (a.k != b.k) return false;
    switch (a.k)
    {
    case NUM: return a.n == b.n; case BOOL: return a.b == b.b; case STR: return a.s == b.s;
    case LIST: if (a.list.size() != b.list.size()) return false; for (size_t i = 0; i < a.list.size(); i++) if (!equal(a.list[i], b.list[i])) return false; return true;
    default: if (a.map.size() != b.map.size()) return false; for (auto &p : a.map) { bool found = false; for (auto &q : b.map) if (equal(p.first, q.first)) found = equal(p.second, q.second); if (!found) return false; } return true;
    }
}
static std::string show(const V &v)
{
    std::ostringstream o; o.precision(17);
    switch (v.k) { case NUM: o << v.n.real(); if (v.n.imag() != 0) o << "+" << v.n.imag() << "j"; break; case BOOL: o << (v.b ? "true" : "false"); break; case STR: o << '"' << v.s << '"'; break;
    case LIST: o << "["; for (auto &e : v.list) o << show(e) << ", "; o << "]"; break; default: o << "{"; for (auto &p : v.map) o << show(p.first) << ": " << show(p.second) << ", "; o << "}"; }
    return o.str();
}
//! the value of an evaluated object
static V valueOf(const Object &o)
{
    if (o.type() == typeid(bool)) return boolean(o.extract<bool>());
    if (o.type() == typeid(std::string)) return str(o.extract<std::string>());
    if (o.type() == typeid(Pothos::ProxyVector)) { std::vector<V> l; for (auto &p : o.extract<Pothos::ProxyVector>()) l.push_back(valueOf(p.toObject())); return listOf(l); }
    if (o.type() == typeid(Pothos::ProxyMap)) { V v; v.k = MAP; for (auto &p : o.extract<Pothos::ProxyMap>()) v.map.push_back({valueOf(p.first.toObject()), valueOf(p.second.toObject())}); return v; }
    if (o.type() == typeid(std::complex<double>)) return num(o.extract<std::complex<double>>());
    if (o.canConvert(typeid(double))) return num(o.convert<double>());
    PBT_FAIL("the result is a " << o.getTypeString());
    return V();
}
//! an expression: its text, how tight it binds and its value
struct E { std::string t; int prec; V v; };
enum { TERN, OR, AND, CMP, ADD, MUL, NEG, POW, ATOM };
typedef std::map<std::string, V> Consts;
struct Gen
{
    Src &s; const Consts &consts; size_t containers = 0, operators = 0, constants = 0;
    Gen(Src &s_, const Consts &c): s(s_), consts(c) {}
    std::string sp(void) { return s.chance(1, 3) ? std::string(1 + s.draw(1), ' ') : ""; }
    std::string paren(const E &e, int need) { if (e.prec < need || s.chance(1, 10)) return "(" + sp() + e.t + sp() + ")"; return e.t; }
    E bin(const E &a, const E &b, const std::string &op, int prec, bool right, const V &v) { operators++; const bool word = isalpha((unsigned char)op[0]); return {paren(a, right ? prec + 1 : prec) + (word ? " " : "") + sp() + op + sp() + (word ? " " : "") + paren(b, right ? prec : prec + 1), prec, v}; }
    bool constant(Kind k, E &e, const std::function<bool(const V &)> &ok = nullptr)
    {
        std::vector<std::string> names; for (auto &p : consts) if (p.second.k == k && (!ok || ok(p.second))) names.push_back(p.first);
        if (names.empty() || !s.chance(1, 2)) return false;
        constants++; const auto n = s.pick(names); e = {n, ATOM, consts.at(n)}; return true;
    }
    E real(int depth) { E e = number(depth, true); return e; }
    E number(int depth, bool realOnly = false)
    {
        E e; if (constant(NUM, e, [&](const V &v) { return (!realOnly || v.n.imag() == 0) && std::abs(v.n) < 1e5; })) return e;
        if (depth <= 0 || s.chance(1, 3))
        {
            const uint64_t n = s.chance(1, 8) ? s.draw(70000) : s.draw(20); std::ostringstream o;
            switch (s.draw(7))
            {
            case 0: case 1: o << n; break; case 2: o << "0x" << (s.flip() ? std::hex : std::hex) << n; break;
            case 3: { o << "0b"; std::string b; for (uint64_t x = n; x; x /= 2) b = char('0' + x % 2) + b; o << (b.empty() ? "0" : b); break; }
            case 4: o << "0o" << (s.chance(1, 4) ? "0" : "") << std::oct << n; break;
            case 5: { const uint64_t f = s.draw(3); o << n << (f == 0 ? ".0" : f == 1 ? ".25" : f == 2 ? ".5" : ".75"); return {o.str(), ATOM, num(double(n) + double(f) / 4)}; }
            case 6: if (s.chance(1, 6)) { o << n << (s.flip() ? "" : ".5") << "e" << (s.flip() ? "-" : s.flip() ? "+" : "") << s.draw(22); return {o.str(), ATOM, num(std::strtod(o.str().c_str(), nullptr))}; } o << n << "e" << 2; return {o.str(), ATOM, num(double(n) * 100)};
            default: if (!realOnly) return {"j", ATOM, num({0, 1})}; o << n;
            }
            return {o.str(), ATOM, num(double(n))};
        }
        const size_t w = s.weighted({5, 5, 5, 1, 2, 2, 2, 2});
        if (w == 3) { const E a = number(depth - 1, realOnly); const char *d[] = {"2", "4", "8"}; const double dv[] = {2, 4, 8}; const size_t i = s.draw(2); return bin(a, E{d[i], ATOM, num(dv[i])}, "/", MUL, false, num(a.v.n / dv[i])); }
        if (w == 4) { const E a = number(depth - 1, realOnly); if (std::abs(a.v.n) == 0) return a; operators++; return {"-" + sp() + paren(a, POW), NEG, num(-a.v.n)}; }
        if (w == 5) { const E c = truth(depth - 1), a = number(depth - 1, realOnly), b = number(depth - 1, realOnly); operators++; return {"(" + paren(c, OR) + sp() + " ? " + sp() + paren(a, ADD) + " : " + sp() + paren(b, ADD) + ")", ATOM, c.v.b ? a.v : b.v}; }
        if (w == 6) { const E a = real(depth - 1), b = real(depth - 1); const bool mx = s.flip(); operators++; const bool big = a.v.n.real() > b.v.n.real(); return {std::string(mx ? "max(" : "min(") + sp() + a.t + sp() + "," + sp() + b.t + sp() + ")", ATOM, mx == big ? a.v : b.v}; }
        if (w == 7) { const E a = number(0, true); if (std::abs(a.v.n) > 40) return a; const int x = int(s.draw(3)); return bin(a, E{std::to_string(x), ATOM, num(x)}, "^", POW, true, num(std::pow(a.v.n.real(), x))); }
        const E a = number(depth - 1, realOnly), b = number(depth - 1, realOnly);
        if (w == 0) return bin(a, b, "+", ADD, false, num(a.v.n + b.v.n)); if (w == 1) return bin(a, b, "-", ADD, false, num(a.v.n - b.v.n));
        const std::complex<double> p = a.v.n.imag() == 0 && b.v.n.imag() == 0 ? std::complex<double>(a.v.n.real() * b.v.n.real()) : a.v.n * b.v.n;
        if (std::abs(p) > 1e9) return a;
        return bin(a, b, "*", MUL, false, num(p));
    }
    E truth(int depth)
    {
        E e; if (constant(BOOL, e)) return e;
        if (depth <= 0 || s.chance(1, 5)) { const bool b = s.flip(); return {s.flip() ? (b ? "true" : "false") : (b ? "True" : "False"), ATOM, boolean(b)}; }
        switch (s.draw(5))
        {
        case 0: { const E a = truth(depth - 1), b = truth(depth - 1); return bin(E{paren(a, CMP), ATOM, a.v}, E{paren(b, CMP), ATOM, b.v}, s.flip() ? "&&" : "and", AND, false, boolean(a.v.b && b.v.b)); }
        case 1: { const E a = truth(depth - 1), b = truth(depth - 1); return bin(E{paren(a, CMP), ATOM, a.v}, E{paren(b, CMP), ATOM, b.v}, s.flip() ? "||" : "or", OR, false, boolean(a.v.b || b.v.b)); }
        case 2: { const E a = string(depth - 1), b = s.chance(1, 4) ? a : string(depth - 1); const bool ne = s.flip(); return bin(E{paren(a, ATOM), ATOM, a.v}, E{paren(b, ATOM), ATOM, b.v}, ne ? "!=" : "==", CMP, false, boolean((a.v.s == b.v.s) != ne)); }
        case 3: { const E a = numbers(depth - 1, 1, true), b = s.flip() ? a : numbers(depth - 1, a.v.list.size(), true); return bin(E{paren(a, ATOM), ATOM, a.v}, E{paren(b, ATOM), ATOM, b.v}, "==", CMP, false, boolean(equal(a.v, b.v))); }
        default:
        {
            const E a = real(depth - 1), b = s.chance(1, 4) ? a : real(depth - 1); const double x = a.v.n.real(), y = b.v.n.real(); const char *ops[] = {"<", "<=", ">", ">=", "==", "!="}; const bool r[] = {x < y, x <= y, x > y, x >= y, x == y, x != y}; const size_t i = s.draw(5);
            return bin(E{paren(a, ADD), ATOM, a.v}, E{paren(b, ADD), ATOM, b.v}, ops[i], CMP, false, boolean(r[i]));
        }
        }
    }
    E string(int depth)
    {
        E e; if (constant(STR, e)) return e;
        if (depth > 0 && s.chance(1, 4)) { const E a = string(depth - 1), b = string(depth - 1); operators++; return {"(" + paren(a, ATOM) + sp() + "//" + sp() + paren(b, ATOM) + ")", ATOM, str(a.v.s + b.v.s)}; }
        std::string t = "\"", v; const size_t n = size_t(s.small(0, 6));
        for (size_t i = 0; i < n; i++) switch (s.draw(12)) { case 0: t += "\\\""; v += '"'; break; case 1: t += "\\\\"; v += '\\'; break; case 2: t += "\\n"; v += '\n'; break; case 3: t += ","; v += ","; break; case 4: t += "]"; v += "]"; break; case 5: t += "{"; v += "{"; break; case 6: t += ":"; v += ":"; break; case 7: t += ")"; v += ")"; break; case 8: t += "["; v += "["; break; case 9: t += " "; v += " "; break; case 10: t += "}("; v += "}("; break; default: { const char ch = char('a' + s.draw(5)); t += ch; v += ch; } }
        return {t + "\"", ATOM, str(v)};
    }
    //! a list of n numbers
    E numbers(int depth, size_t n, bool realOnly = false)
    {
        E e; if (constant(LIST, e, [&](const V &v) { for (auto &x : v.list) if (x.k != NUM || std::abs(x.n) > 1e5 || (realOnly && x.n.imag() != 0)) return false; return v.list.size() == n; })) return e;
        if (depth > 0 && n > 0 && s.chance(1, 3))
        {
            const E a = numbers(depth - 1, n, realOnly); V v; v.k = LIST;
            if (s.chance(1, 3)) { const int f = int(s.range(0, 5)); for (auto &x : a.v.list) v.list.push_back(num(x.n * double(f))); const E c{std::to_string(f), ATOM, num(f)}; return s.flip() ? bin(a, c, "*", MUL, false, v) : bin(c, a, "*", MUL, false, v); }
            const E b = numbers(depth - 1, n, realOnly); const bool minus = s.flip(); for (size_t i = 0; i < n; i++) v.list.push_back(num(minus ? a.v.list[i].n - b.v.list[i].n : a.v.list[i].n + b.v.list[i].n)); return bin(a, b, minus ? "-" : "+", ADD, false, v);
        }
        std::vector<E> el; for (size_t i = 0; i < n; i++) el.push_back(number(depth - 1, realOnly)); return literal(el);
    }
    E literal(const std::vector<E> &el)
    {
        containers++; std::string t = "[" + sp(); std::vector<V> v; for (size_t i = 0; i < el.size(); i++) { if (i) t += sp() + "," + sp(); t += el[i].t; v.push_back(el[i].v); }
        if (!el.empty() && s.chance(1, 6)) t += sp() + ","; return {t + sp() + "]", ATOM, listOf(v)};
    }
    E list(int depth)
    {
        E e; if (constant(LIST, e)) return e;
        if (s.flip()) return numbers(depth, size_t(s.draw(3)));
        std::vector<E> el; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) el.push_back(any(depth - 1)); return literal(el);
    }
    E map(int depth)
    {
        E e; if (constant(MAP, e)) return e;
        containers++; std::string t = "{" + sp(); V v; v.k = MAP; const bool text = s.flip(); bool first = true;
        for (size_t n = size_t(s.small(0, 3)); n > 0; n--)
        {
            const E k = text ? string(depth - 1) : E(real(depth - 1)), x = any(depth - 1); bool dup = false; for (auto &p : v.map) dup = dup || equal(p.first, k.v); if (dup) continue;
            if (!first) t += sp() + "," + sp(); first = false; t += k.t + sp() + ":" + sp() + paren(x, OR); v.map.push_back({k.v, x.v});
        }
        if (!first && s.chance(1, 6)) t += sp() + ","; return {t + sp() + "}", ATOM, v};
    }
    E any(int depth) { switch (s.weighted({5, 3, 3, 4, 3})) { case 0: return number(depth); case 1: return truth(depth); case 2: return string(depth); case 3: return depth > 0 ? list(depth) : number(0); default: return depth > 0 ? map(depth) : string(0); } }
};
struct Unknown { int x; };
//! an object to register as constant
static Object constantObject(Src &s, V &v, int depth = 2)
{
    const int n = int(s.range(-100, 100)); const unsigned u = unsigned(s.draw(100));
    switch (s.draw(depth > 0 ? 19 : 13))
    {
    case 0: v = num(n); return Object(n); case 1: v = num(n); return Object(short(n)); case 2: v = num(n); return Object((signed char)(n)); case 3: v = num(u); return Object((unsigned char)(u)); case 4: v = num(u); return Object((unsigned short)(u));
    case 5: v = num(double(n) * 20000000000.0); return Object((long long)(n) * 20000000000ll); case 6: v = num(u * 40000000.0); return Object(unsigned(u * 40000000u)); case 7: v = num(n / 4.0); return Object(float(n) / 4); case 8: v = num(n / 8.0); return Object(n / 8.0);
    case 9: v = num({double(n), double(u)}); return Object(std::complex<float>(float(n), float(u))); case 10: v = num({n / 2.0, double(u)}); return Object(std::complex<double>(n / 2.0, u)); case 11: v = boolean(n > 0); return Object(n > 0); case 12: { const auto t = values::genString(s, 6); v = str(t); return Object(t); } case 13: v = num({double(n), double(u)}); return Object(std::complex<int>(n, int(u)));
    case 14: { std::vector<int> x; v = listOf({}); for (size_t i = s.draw(3); i > 0; i--) { x.push_back(n + int(i)); v.list.push_back(num(n + int(i))); } return Object(x); }
    case 15: { std::vector<std::string> x; v = listOf({}); for (size_t i = s.draw(3); i > 0; i--) { x.push_back(values::genString(s, 3)); v.list.push_back(str(x.back())); } return Object(x); }
    case 16: { Pothos::ProxyVector x; v = listOf({}); for (size_t i = s.draw(3); i > 0; i--) { V e; x.push_back(values::managedEnv()->convertObjectToProxy(constantObject(s, e, depth - 1))); v.list.push_back(e); } return Object(x); }
    case 17: { Pothos::ObjectVector x; v = listOf({}); for (size_t i = s.draw(3); i > 0; i--) { V e; x.push_back(constantObject(s, e, depth - 1)); v.list.push_back(e); } return Object(x); }
    case 18: { Pothos::ProxyMap x; v = V(); v.k = MAP; for (int i = int(s.draw(3)); i > 0; i--) { V e; const auto o = constantObject(s, e, depth - 1); x[values::managedEnv()->makeProxy(i)] = values::managedEnv()->convertObjectToProxy(o); v.map.push_back({num(i), e}); } return Object(x); }
    default: { std::vector<std::complex<double>> x; v = listOf({}); for (size_t i = s.draw(2); i > 0; i--) { x.push_back({double(n), double(i)}); v.list.push_back(num(x.back())); } return Object(x); }
    }
}
static std::vector<size_t> outside(const std::string &t, const std::string &chars)
{
    std::vector<size_t> r; bool q = false; for (size_t i = 0; i < t.size(); i++) { if (q) { if (t[i] == '\\') i++; else if (t[i] == '"') q = false; } else { if (chars.empty() || chars.find(t[i]) != std::string::npos) r.push_back(i); if (t[i] == '"') q = true; } }
    return r;
}
static std::string broken(Src &s, const std::string &good)
{
    std::string t = good;
    switch (s.draw(7))
    {
    case 0: { const auto at = outside(t, "()[]{}"); if (!at.empty()) { t.erase(s.pick(at), 1); return t; } } // fall through
    case 1: case 2: { const auto at = outside(t, ""); const size_t i = s.draw(at.size()); t.insert(i == at.size() ? t.size() : at[i], 1, s.pick({'(', ')', '[', ']', '{', '}'})); return t; }
    case 3: { size_t last = t.size(); bool q = false; for (size_t i = 0; i < t.size(); i++) { if (q && t[i] == '\\') i++; else if (t[i] == '"') { q = !q; last = i; } } if (last < t.size()) t.erase(last, 1); else t += " \""; return t; }
    case 4: return t + s.pick({std::string(" +"), std::string(" *"), std::string(" &&"), std::string(","), std::string(" 0o9"), std::string(" 0o"), std::string(" 0o-1"), std::string(" - ( )")});
    case 5: return s.flip() ? "undefined_name" : "[1, undefined_name]";
    case 6: return s.pick({std::string(""), std::string("  "), std::string("{1}"), std::string("{1:2:3}"), std::string("{1:}"), std::string("{:}"), std::string("[1 2]"), std::string("0o-7"), std::string("0o 7"), std::string("0o8"), std::string("(1, 2)"), std::string("1 = 2"), std::string("{\"a\" 1}"), std::string("[+]"), std::string("()"), std::string("[1][2]"), std::string("0o"), std::string("[1]2")});
    default: return t + " \"z\"";
    }
}
static const std::vector<std::string> &names(void) { static const std::vector<std::string> n = {"x", "y", "abc", "x_1", "Value", "x2", "arr", "_q"}; return n; }
static void history(Case &c)
{
    auto &s = c.s; EvalEnvironment envs[2]; Consts consts[2]; size_t evals = 0, rich = 0, bad = 0, redefined = 0; std::vector<std::pair<Object, V>> kept;
    const size_t steps = size_t(s.small(1, 14));
    auto err = [&](const std::function<void(void)> &f) { try { f(); } catch (const Pothos::Exception &ex) { return ex.displayText() + "!"; } return std::string(); };
    for (size_t n = 0; n < steps; n++)
    {
        const size_t w = s.chance(1, 4); auto &env = envs[w]; auto &cs = consts[w]; Gen g(s, cs);
        switch (s.weighted({8, 4, 3, 1, 3, 1}))
        {
        case 0: // evaluate
        {
            const E e = g.any(int(s.small(0, 4))); const std::string t = g.sp() + e.t + g.sp(); c.desc << t << "; "; Object o; const auto x = err([&] { o = env.eval(t); });
            PBT_CHECK(x.empty(), "evaluating " << t << ": " << x << ", want " << show(e.v)); const V v = valueOf(o); PBT_CHECK(equal(v, e.v), "evaluating " << t << ": " << show(v) << ", want " << show(e.v));
            evals++; rich += (g.containers > 1) + (g.operators > 1) + (g.constants > 0); if (kept.size() < 4) kept.push_back({o, e.v}); break;
        }
        case 1: // define with an expression, which may use the old value
        {
            const auto k = s.pick(names()); const E e = g.any(int(s.small(0, 3))); c.desc << k << ":=" << e.t << "; "; redefined += cs.count(k); const auto x = err([&] { env.registerConstantExpr(k, g.sp() + e.t + g.sp()); }); PBT_CHECK(x.empty(), "defining " << k << " as " << e.t << ": " << x); cs[k] = e.v; break;
        }
        case 2:
        {
            const auto k = s.pick(names()); V v; const Object o = constantObject(s, v); c.desc << k << ":=" << o.getTypeString() << " " << show(v) << "; "; redefined += cs.count(k); const auto x = err([&] { env.registerConstantObj(k, o); }); PBT_CHECK(x.empty(), "defining " << k << " as object " << show(v) << ": " << x); cs[k] = v; break;
        }
        case 3: { const auto k = s.pick(names()); c.desc << "remove " << k << "; "; const auto x = err([&] { env.unregisterConstant(k); }); PBT_CHECK(x.empty(), "removing " << k << ": " << x); cs.erase(k); PBT_CHECK(!err([&] { env.eval(k); }).empty(), "the removed constant " << k << " still has a value"); break; }
        case 4: // malformed
        {
            const auto t = broken(s, g.any(int(s.small(0, 3))).t); c.desc << "bad " << t << "; "; bad++; Object o; const bool define = s.chance(1, 4); const auto k = s.pick(names());
            const auto x = err([&] { if (define) env.registerConstantExpr(k, t); else o = env.eval(t); }); PBT_CHECK(!x.empty(), "malformed " << t << " was accepted" << (define ? std::string(" as constant") : " as " + show(valueOf(o)))); break;
        }
        default: { const auto k = s.pick(names()); c.desc << k << ":=unknown; "; PBT_CHECK(!err([&] { if (s.flip()) env.registerConstantObj(k, Object(Unknown())); else env.registerConstantObj("1" + k, Object(1)); }).empty(), "a value that cannot be used or a malformed name was accepted"); }
        }
        // all constants as defined
        for (size_t i = 0; i < 2; i++) for (auto &p : consts[i]) if (n + 1 == steps || s.chance(1, 4)) { Object o; const auto x = err([&] { o = envs[i].eval(p.first); }); PBT_CHECK(x.empty(), "step " << n << ": constant " << p.first << ": " << x); const V v = valueOf(o); PBT_CHECK(equal(v, p.second), "step " << n << ": constant " << p.first << " is " << show(v) << ", want " << show(p.second)); }
    }
    for (auto &p : kept) { const V v = valueOf(p.first); PBT_CHECK(equal(v, p.second), "an earlier result changed from " << show(p.second) << " to " << show(v)); }
    c.nontrivial = evals > 0 && (rich > 1 || bad > 1 || redefined > 0); c.count("expressions", evals); c.count("malformed", bad); c.count("redefined", redefined);
}
static void soup(Case &c)
{
    auto &s = c.s; static const std::vector<std::string> tok = {"[", "]", "{", "}", "(", ")", ",", ":", "\"", "\\", "\"a\"", "1", "0", "2.5", "0x", "0o7", "0b1", "x", "j", "+", "-", "*", "/", "^", "==", "<", "&&", "?", " ", "!", "=", "abs", "max", "\t", "e", ".", "#", "'", "\xc3\xa9", "[1,2]", "{1:2}", "[]", "__tmp__0", "true", "//", "~", "%", "\n", "m", "k", "i"};
    EvalEnvironment env; env.registerConstantExpr("x", s.flip() ? "[1, 2]" : "3"); std::string t; for (size_t n = size_t(s.small(1, 30)); n > 0; n--) t += s.pick(tok);
    if (getenv("PBT_TRACE")) std::cerr << "[" << t << "]\n"; c.desc << t; std::string x; try { valueOf(env.eval(t)); c.tag("accepted"); } catch (const Pothos::Exception &) { c.tag("refused"); } catch (const std::exception &ex) { PBT_FAIL("evaluating " << t << ": not reported as an expression error: " << ex.what()); }
    try { env.registerConstantExpr(t.substr(0, t.size() / 2), t.substr(t.size() / 2)); } catch (const Pothos::Exception &) {} catch (const std::exception &ex) { PBT_FAIL("defining from " << t << ": not reported as an expression error: " << ex.what()); }
    c.nontrivial = t.size() > 3;
}
PBT_MAIN("C25", (std::vector<Sub>{{"history", 3, &history, false}, {"soup", 1, &soup, false}}))
