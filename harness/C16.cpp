// C16: numeric conversion of objects is exact or reports out of range.
#include "simdstub.hpp"
#include "values.hpp"
using namespace pbt;
using Pothos::Object;
typedef long double LD; // 64 bit mantissa: holds every value of every supported real type exactly
static_assert(std::numeric_limits<LD>::digits >= 64, "oracle needs an exact super type");
struct Num { LD re, im; };

//! everything the oracle needs to know about one supported type
struct Type
{
    std::string name; bool cplx, integral, isSigned; LD lo, hi;
    const std::type_info *type, *vtype;
    Num (*gen)(Src &);
    LD (*round)(LD); // what the language's conversion makes of a number in range
    Object (*make)(const Num &); Num (*get)(const Object &);
    Object (*makeVec)(const std::vector<Num> &); std::vector<Num> (*getVec)(const Object &);
    Num (*convert)(const Object &, int how);
};
template <typename T> struct Parts { typedef T R; static const bool cplx = false; static Num get(const T &v) { return Num{LD(v), 0}; } static T mk(const Num &n) { return static_cast<T>(n.re); } };
template <typename T> struct Parts<std::complex<T>> { typedef T R; static const bool cplx = true; static Num get(const std::complex<T> &v) { return Num{LD(v.real()), LD(v.imag())}; } static std::complex<T> mk(const Num &n) { return std::complex<T>(static_cast<T>(n.re), static_cast<T>(n.im)); } };

//! a value of real type T close to an edge of some type, or anything
template <typename T> T genReal(Src &s)
{
    if (s.flip()) return values::Gen<T>::get(s);
    static const std::vector<LD> edges = [](void) { std::vector<LD> e = {0}; for (int b : {7, 8, 15, 16, 24, 31, 32, 53, 63, 64}) { e.push_back(std::ldexp(LD(1), b)); e.push_back(-std::ldexp(LD(1), b)); } e.push_back(LD(std::numeric_limits<float>::max())); e.push_back(-LD(std::numeric_limits<float>::max())); e.push_back(LD(std::numeric_limits<double>::max())); return e; }();
    LD x = s.pick(edges);
    if (std::is_integral<T>::value)
    {
        x += LD(s.range(-2, 2));
        if (x > LD(std::numeric_limits<T>::max()) || x < LD(std::numeric_limits<T>::lowest())) return values::genInt<T>(s);
        return static_cast<T>(x);
    }
    switch (s.draw(3))
    {
    case 0: x += LD(s.range(-2, 2)); break;
    case 1: x += LD(s.range(-4, 4)) / 4; break;
    case 2: { T t = static_cast<T>(x); for (long long n = s.range(0, 3); n > 0; n--) t = T(std::nextafter(t, std::numeric_limits<T>::infinity())); return t; }
    default: { T t = static_cast<T>(x); for (long long n = s.range(0, 3); n > 0; n--) t = T(std::nextafter(t, -std::numeric_limits<T>::infinity())); return t; }
    }
    return static_cast<T>(x);
}
template <typename T> Type make(const char *name)
{
    typedef typename Parts<T>::R R; typedef std::vector<T> V;
    Type t; t.name = name; t.cplx = Parts<T>::cplx; t.integral = std::is_integral<R>::value; t.isSigned = std::is_signed<R>::value;
    t.lo = LD(std::numeric_limits<R>::lowest()); t.hi = LD(std::numeric_limits<R>::max()); t.type = &typeid(T); t.vtype = &typeid(V);
    t.gen = [](Src &s) { Num n; n.re = LD(genReal<R>(s)); n.im = !Parts<T>::cplx || s.chance(1, 3) ? LD(0) : LD(genReal<R>(s)); return n; };
    t.round = [](LD x) { return LD(static_cast<R>(x)); };
    t.make = [](const Num &n) { return Object(Parts<T>::mk(n)); };
    t.get = [](const Object &o) { return Parts<T>::get(o.extract<T>()); };
    t.makeVec = [](const std::vector<Num> &v) { V r; for (auto &n : v) r.push_back(Parts<T>::mk(n)); return Object(r); };
    t.getVec = [](const Object &o) { std::vector<Num> r; for (auto &x : o.extract<V>()) r.push_back(Parts<T>::get(x)); return r; };
    t.convert = [](const Object &o, int how)
    {
        if (how == 0) return Parts<T>::get(o.convert<T>());
        if (how == 1) { const Object r = o.convert(typeid(T)); PBT_CHECK(r.type() == typeid(T), "the converted object has type " << r.getTypeString()); return Parts<T>::get(r.extract<T>()); }
        return Parts<T>::get(o.operator T());
    };
    return t;
}
typedef std::complex<float> cfloat; typedef std::complex<double> cdouble;
static const std::vector<Type> &types(void)
{
    static const std::vector<Type> t = {make<char>("char"), make<signed char>("schar"), make<unsigned char>("uchar"), make<short>("short"), make<unsigned short>("ushort"), make<int>("int"), make<unsigned>("uint"), make<long>("long"), make<unsigned long>("ulong"), make<long long>("llong"), make<unsigned long long>("ullong"), make<float>("float"), make<double>("double"), make<cfloat>("cfloat"), make<cdouble>("cdouble"),
        make<std::complex<long long>>("cllong"), make<std::complex<signed char>>("cschar"), make<std::complex<short>>("cshort"), make<std::complex<int>>("cint"), make<std::complex<long>>("clong")};
    return t;
}
//! supported pairs: anything to the first fifteen types, and small complex integers to cllong
static void pickPair(Src &s, const Type *&from, const Type *&to)
{
    const size_t f = s.chance(1, 4) ? size_t(s.range(13, 19)) : size_t(s.draw(12)); from = &types()[f];
    to = &types()[s.draw(f > 15 ? 15 : 14)];
}
enum { CONVERTS, REFUSED, EITHER }; // either: infinities and NaN into floating types
static int part(const Type &to, LD x, LD &out)
{
    out = 0;
    if (!to.integral)
    {
        out = to.round(x);
        if (std::isnan(x) || std::isinf(x)) return EITHER;
        return x > to.hi || x < to.lo ? REFUSED : CONVERTS;
    }
    if (std::isnan(x) || x > to.hi || x < to.lo) return REFUSED;
    out = to.round(x); return CONVERTS;
}
static int expected(const Type &from, const Type &to, const Num &v, Num &out)
{
    int k = part(to, v.re, out.re); out.im = 0;
    if (to.cplx) { const int q = part(to, v.im, out.im); k = k == REFUSED || q == REFUSED ? REFUSED : std::max(k, q); }
    else if (from.cplx && v.im != 0) k = REFUSED;
    return k;
}
static bool same(const Num &a, const Num &b) { return (a.re == b.re || (std::isnan(a.re) && std::isnan(b.re))) && (a.im == b.im || (std::isnan(a.im) && std::isnan(b.im))); }
static std::string show(const Type &t, const Num &v) { std::ostringstream o; o.precision(22); if (t.cplx) o << "(" << v.re << "," << v.im << ")"; else o << v.re; return o.str(); }

static void scalars(Case &c)
{
    auto &s = c.s; const Type *f, *t; pickPair(s, f, t);
    Num v = f->gen(s), want; int k = expected(*f, *t, v, want); if (f == t) { k = CONVERTS; want = v; }
    c.desc << f->name << " " << show(*f, v) << " to " << t->name;
    c.tag(k == REFUSED ? "refused" : k == CONVERTS ? "converts" : "infinite or nan"); c.nontrivial = f != t;
    const Object in = f->make(v); const int how = int(s.draw(2)); Num got;
    PBT_CHECK(in.canConvert(*t->type) && Object::canConvert(*f->type, *t->type), "canConvert says no");
    try { got = t->convert(in, how); }
    catch (const Pothos::RangeException &) { PBT_CHECK(k != CONVERTS, "refused as out of range"); return; }
    PBT_CHECK(k != REFUSED, "not in range, but gave " << show(*t, got));
    PBT_CHECK(same(got, want), "gave " << show(*t, got) << ", want " << show(*t, want));
    PBT_CHECK(same(f->get(in), v), "the source object changed");
}
static void vectors(Case &c)
{
    auto &s = c.s; const Type *f, *t; pickPair(s, f, t);
    const size_t n = size_t(s.small(0, 40)); std::vector<Num> v(n), want(n); int k = CONVERTS; size_t refused = 0; const bool allowBad = s.flip();
    c.desc << "vector of " << f->name << " to " << t->name << ":";
    for (size_t i = 0; i < n; i++)
    {
        int q = 0;
        for (int a = 0; a < 20; a++) { v[i] = f->gen(s); q = expected(*f, *t, v[i], want[i]); if (allowBad || q != REFUSED) break; }
        if (q == REFUSED && !allowBad) { v[i] = Num{0, 0}; q = expected(*f, *t, v[i], want[i]); }
        if (f == t) { q = CONVERTS; want[i] = v[i]; }
        refused += q == REFUSED; if (q == REFUSED) k = REFUSED; else if (q == EITHER && k == CONVERTS) k = EITHER;
        if (i < 12) c.desc << " " << show(*f, v[i]);
    }
    c.tag(k == REFUSED ? "vector refused" : "vector converts"); c.nontrivial = n > 1 && f != t;
    std::vector<Num> got;
    try { const Object o = f->makeVec(v).convert(*t->vtype); PBT_CHECK(o.type() == *t->vtype, "the converted object has type " << o.getTypeString()); got = t->getVec(o); }
    catch (const Pothos::RangeException &) { PBT_CHECK(k != CONVERTS, "refused as out of range"); return; }
    PBT_CHECK(got.size() == n, "length " << got.size());
    PBT_CHECK(k != REFUSED, refused << " elements not in range, but converted");
    for (size_t i = 0; i < n; i++) PBT_CHECK(same(got[i], want[i]), "element " << i << " (" << show(*f, v[i]) << ") gave " << show(*t, got[i]) << ", want " << show(*t, want[i]));
}
PBT_MAIN("C16", {{"scalar", 6, scalars, false}, {"vector", 2, vectors, false}})
