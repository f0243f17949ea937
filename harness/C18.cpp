// C18: object comparison is a consistent order and hashing agrees with equality.
#include "simdstub.hpp"
#include "values.hpp"
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
using namespace pbt;
using Pothos::Object; using Pothos::Proxy;
typedef long double LD; // holds every value of every real type exactly

//! a value and what it is: 0 number, 1 string, 2 null, 3 incomparable
struct Val { Object o; int kind; LD num; std::string str; const std::type_info *type; };
static std::string show(const Val &v) { std::ostringstream s; s.precision(22); s << v.o.getTypeString() << ":"; if (v.kind == 0) s << v.num; else if (v.kind == 1) s << "\"" << v.str << "\""; return s.str(); }
static int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

//! the number nearest to x that type T holds
template <typename T> Val mk(LD x)
{
    T t;
    if (std::is_floating_point<T>::value) t = static_cast<T>(x);
    else t = x >= LD(std::numeric_limits<T>::max()) ? std::numeric_limits<T>::max() : x <= LD(std::numeric_limits<T>::lowest()) ? std::numeric_limits<T>::lowest() : static_cast<T>(x);
    return Val{Object(t), 0, LD(t), "", &typeid(T)};
}
static Val number(Src &s, LD x)
{
    switch (s.draw(12))
    {
    case 0: return mk<int>(x); case 1: return mk<double>(x); case 2: return mk<long long>(x); case 3: return mk<unsigned long long>(x); case 4: return mk<float>(x);
    case 5: return mk<char>(x); case 6: return mk<signed char>(x); case 7: return mk<unsigned char>(x); case 8: return mk<short>(x); case 9: return mk<unsigned short>(x);
    case 10: return mk<unsigned>(x); case 11: return mk<long>(x); default: return mk<unsigned long>(x);
    }
}
static LD genNumber(Src &s)
{
    switch (s.weighted({4, 4, 2, 2, 1}))
    {
    case 0: return LD(s.range(-5, 5));
    case 1: { static const std::vector<int> bits = {7, 8, 15, 16, 24, 31, 32, 53, 54, 62, 63, 64}; const LD x = std::ldexp(LD(1), s.pick(bits)) + LD(s.range(-3, 3)); return s.flip() ? x : -x; }
    case 2: return LD(values::genInt<long long>(s));
    case 3: return LD(s.range(-40, 40)) / 8;
    default: { const double d = values::genFloat<double, uint64_t>(s); return std::isnan(d) ? LD(0.25) : LD(d); }
    }
}
static Val genVal(Src &s, int kind)
{
    if (kind == 0) return number(s, genNumber(s));
    if (kind == 1) { auto x = values::genString(s, 6); return Val{Object(x), 1, 0, x, &typeid(std::string)}; }
    if (kind == 2) return Val{Object(), 2, 0, "", &typeid(Pothos::NullObject)};
    Object o;
    switch (s.draw(5))
    {
    case 0: o = Object(s.flip()); break;
    case 1: { double im = double(s.range(1, 9)); o = Object(std::complex<double>(double(s.range(-3, 3)), im)); } break;
    case 2: o = Object(std::complex<float>(0, float(s.range(1, 9)))); break;
    case 3: o = Object(std::vector<int>{int(s.range(0, 9))}); break;
    case 4: o = Object(values::genDType(s)); break;
    default: do { o = values::genObject(s, 2); } while (!o || o.type() == typeid(std::string) || (o.type() != typeid(std::complex<double>) && o.canConvert(typeid(double)))); break;
    }
    return Val{o, 3, 0, "", &o.type()};
}
static int order(const Val &a, const Val &b) // only for the same kind, 0-2
{
    if (a.kind == 0) return a.num < b.num ? -1 : a.num > b.num ? 1 : 0;
    if (a.kind == 1) return sgn(a.str.compare(b.str));
    return 0;
}
static void checkPair(const Val &a, const Val &b)
{
    const bool comparable = a.kind == b.kind && a.kind != 3;
    std::ostringstream w; w << show(a) << " and " << show(b) << ": ";
    if (a.kind == 3 || b.kind == 3 || !comparable)
    {
        int r = 0; std::string err;
        try { r = a.o.compareTo(b.o); } catch (const Pothos::ObjectCompareError &) { err = "ObjectCompareError"; } catch (const Pothos::Exception &ex) { err = std::string(ex.name()) + ": " + ex.displayText(); }
        if (a.kind != 3 && b.kind != 3) PBT_CHECK(err == "ObjectCompareError", w.str() << "comparing different kinds gave " << r << " " << err);
        else PBT_CHECK(err == "" || err == "ObjectCompareError", w.str() << "reported as " << err);
        const bool lt = a.o < b.o, gt = a.o > b.o, eq = a.o.equals(b.o); // the documented fall back is the hash code: never an error, and one of the three
        PBT_CHECK(int(lt) + int(gt) + int(eq) == 1, w.str() << "less " << lt << " greater " << gt << " equal " << eq);
        return;
    }
    const int want = order(a, b), got = a.o.compareTo(b.o), back = b.o.compareTo(a.o);
    PBT_CHECK(sgn(got) == want, w.str() << "compared as " << got << ", want " << want);
    PBT_CHECK(sgn(back) == -want, w.str() << "compared backwards as " << back << ", want " << -want);
    PBT_CHECK(a.o.compareTo(a.o) == 0 && a.o.equals(a.o), w.str() << "not equal to itself");
    PBT_CHECK((a.o < b.o) == (want < 0) && (a.o > b.o) == (want > 0) && a.o.equals(b.o) == (want == 0), w.str() << "operators disagree with the order");
    if (*a.type == *b.type && want == 0) PBT_CHECK(a.o.hashCode() == b.o.hashCode(), w.str() << "equal values have different hash codes");
    // the same values in a proxy environment
    const auto env = values::managedEnv(); const Proxy p = env->makeProxy(a.o), q = env->makeProxy(b.o);
    PBT_CHECK(sgn(p.compareTo(q)) == want && (p < q) == (want < 0) && (p > q) == (want > 0), w.str() << "managed proxies compare differently");
    if (*a.type == *b.type && want == 0) PBT_CHECK(p.hashCode() == q.hashCode(), w.str() << "proxies of equal values have different hash codes");
}
static void pairs(Case &c)
{
    auto &s = c.s; const int kind = int(s.weighted({8, 3, 1, 1})); const Val a = genVal(s, kind);
    Val b; const bool near = kind == 0 && s.chance(2, 3);
    if (near) { const LD step[] = {0, 1, -1, LD(0.5), 2}; b = number(s, a.num + s.pick({step[0], step[1], step[2], step[3], step[4]})); }
    else if (kind == 1 && s.chance(1, 2)) { std::string x = a.str; if (!x.empty() && s.flip()) x[s.draw(x.size() - 1)] = char(s.draw(255)); else if (s.flip()) x += char(s.draw(3)); b = Val{Object(x), 1, 0, x, &typeid(std::string)}; }
    else b = genVal(s, s.chance(1, 4) ? int(s.draw(3)) : kind);
    c.desc << show(a) << " and " << show(b); c.nontrivial = a.kind == b.kind && a.kind < 2; c.tag(a.kind == b.kind && a.kind < 3 ? "comparable" : "incomparable");
    checkPair(a, b);
}
//! sets, maps and sorting over mutually comparable values
static void sorted(Case &c)
{
    auto &s = c.s; const int kind = int(s.draw(1)); const size_t n = size_t(s.small(2, 30)); std::vector<Val> v;
    for (size_t i = 0; i < n; i++) { if (!v.empty() && kind == 0 && s.chance(1, 2)) { const LD d = LD(s.range(-2, 2)); v.push_back(number(s, s.pick(v).num + d)); } else v.push_back(genVal(s, kind)); }
    for (auto &x : v) c.desc << show(x) << " ";
    c.nontrivial = n > 4;
    auto less = [](const Val &a, const Val &b) { return order(a, b) < 0; };
    std::vector<Val> distinct(v); std::stable_sort(distinct.begin(), distinct.end(), less);
    distinct.erase(std::unique(distinct.begin(), distinct.end(), [](const Val &a, const Val &b) { return order(a, b) == 0; }), distinct.end());
    auto value = [&](const Object &o) -> const Val & { for (auto &x : v) if (x.o == o) return x; PBT_FAIL("an entry that was never inserted"); };
    for (int round = 0; round < 2; round++)
    {
        std::vector<Val> in(v); if (round) for (size_t i = in.size(); i > 1; i--) std::swap(in[i - 1], in[s.draw(i - 1)]);
        Pothos::ObjectSet set; Pothos::ObjectMap map; std::vector<Object> vec; for (auto &x : in) { set.insert(x.o); map[x.o] = x.o; vec.push_back(x.o); }
        PBT_CHECK(set.size() == distinct.size() && map.size() == distinct.size(), "round " << round << ": set of " << set.size() << ", map of " << map.size() << ", want " << distinct.size());
        size_t i = 0; for (auto &o : set) PBT_CHECK(order(value(o), distinct[i++]) == 0, "round " << round << ": set entry " << i - 1);
        i = 0; for (auto &p : map) PBT_CHECK(order(value(p.first), distinct[i++]) == 0, "round " << round << ": map entry " << i - 1);
        for (auto &x : in) { PBT_CHECK(set.count(x.o) == 1 && map.count(x.o) == 1, "round " << round << ": " << show(x) << " not found"); PBT_CHECK(order(value(map[x.o]), x) == 0, "round " << round << ": map value of " << show(x)); }
        std::sort(vec.begin(), vec.end());
        for (size_t k = 1; k < vec.size(); k++) PBT_CHECK(order(value(vec[k - 1]), value(vec[k])) <= 0, "round " << round << ": sorted vector out of order at " << k);
    }
}
//! comparators and hash functions registered and removed at run time
template <int N> struct Own { int key; int other; };
template <int N> int cmpOwn(const Own<N> &a, const Own<N> &b) { return a.key < b.key ? -7 : a.key > b.key ? 9 : 0; }
template <int N> int cmpOwnRev(const Own<N> &a, const Own<N> &b) { return cmpOwn<N>(b, a); }
template <int N> int cmpOwnInt(const Own<N> &a, const int &b) { return a.key < b ? -1 : a.key > b ? 1 : 0; }
template <int N> size_t hashOwn(const Own<N> &a) { return size_t(a.key) * 31 + 5; }
template <int N> void registered(Case &c)
{
    auto &s = c.s; typedef Own<N> T; const std::string cp = "/object/compare/verif" + std::to_string(N), ip = cp + "i", hp = "/object/hash/verif" + std::to_string(N);
    int cmp = 0; bool mixed = false, hash = false; const size_t ops = size_t(s.small(2, 30)); size_t removed = 0;
    std::vector<Object> objs; std::vector<int> keys; for (int i = 0; i < 4; i++) { keys.push_back(int(s.range(0, 2))); objs.push_back(Object(T{keys.back(), i})); }
    auto cleanup = [&]() { if (cmp) Pothos::PluginRegistry::remove(cp); if (mixed) Pothos::PluginRegistry::remove(ip); if (hash) Pothos::PluginRegistry::remove(hp); cmp = 0; mixed = hash = false; };
    struct Guard { std::function<void(void)> f; ~Guard(void) { f(); } } guard{cleanup};
    for (size_t k = 0; k < ops; k++)
    {
        switch (s.draw(5))
        {
        case 0: c.desc << "toggle compare; "; if (cmp) { Pothos::PluginRegistry::remove(cp); cmp = 0; removed++; } else { cmp = s.flip() ? 1 : -1; Pothos::PluginRegistry::add(cp, Pothos::Callable(cmp > 0 ? &cmpOwn<N> : &cmpOwnRev<N>)); } break;
        case 1: c.desc << "toggle mixed; "; if (mixed) { Pothos::PluginRegistry::remove(ip); removed++; } else Pothos::PluginRegistry::add(ip, Pothos::Callable(&cmpOwnInt<N>)); mixed = !mixed; break;
        case 2: c.desc << "toggle hash; "; if (hash) { Pothos::PluginRegistry::remove(hp); removed++; } else Pothos::PluginRegistry::add(hp, Pothos::Callable(&hashOwn<N>)); hash = !hash; break;
        default: break;
        }
        const size_t i = s.draw(3), j = s.draw(3); const int base = keys[i] < keys[j] ? -1 : keys[i] > keys[j] ? 1 : 0, want = base * cmp;
        std::ostringstream w; w << "step " << k << " compare=" << cmp << " mixed=" << mixed << " hash=" << hash << " keys " << keys[i] << "," << keys[j] << ": ";
        const auto err = errorOf([&] { const int r = objs[i].compareTo(objs[j]); PBT_CHECK(cmp, w.str() << "no comparator registered, but compared as " << r); PBT_CHECK(sgn(r) == want, w.str() << "compared as " << r); });
        if (!cmp) { PBT_CHECK(throws<Pothos::ObjectCompareError>([&] { (void)objs[i].compareTo(objs[j]); }), w.str() << "not a compare error: " << err); }
        else { PBT_CHECK(err.empty(), w.str() << err); PBT_CHECK((objs[i] < objs[j]) == (want < 0) && (objs[i] > objs[j]) == (want > 0) && objs[i].equals(objs[j]) == (want == 0), w.str() << "operators"); }
        if (hash) { PBT_CHECK(objs[i].hashCode() == size_t(keys[i]) * 31 + 5, w.str() << "hash code"); }
        else PBT_CHECK(objs[i].hashCode() == Object(objs[i]).hashCode() && (objs[i].hashCode() == objs[j].hashCode()) == (i == j), w.str() << "hash code without a hash function is not the identity");
        if (!cmp) { const bool lt = objs[i] < objs[j], gt = objs[i] > objs[j], eq = objs[i].equals(objs[j]); PBT_CHECK(int(lt) + int(gt) + int(eq) == 1, w.str() << "operators without comparator"); }
        const int x = int(s.range(0, 2));
        if (mixed) PBT_CHECK(sgn(objs[i].compareTo(Object(x))) == (keys[i] < x ? -1 : keys[i] > x ? 1 : 0), w.str() << "mixed comparison with " << x);
        else PBT_CHECK(throws<Pothos::ObjectCompareError>([&] { (void)objs[i].compareTo(Object(x)); }), w.str() << "mixed comparison did not report an error");
    }
    c.nontrivial = ops > 5 && removed > 0;
}
static void histories(Case &c) { if (c.s.flip()) registered<0>(c); else registered<1>(c); }
PBT_MAIN("C18", {{"pairs", 10, pairs, false}, {"sorted", 3, sorted, false}, {"histories", 1, histories, false}})
