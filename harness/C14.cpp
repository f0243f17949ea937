// C14: DType parsing, printing and comparison against a table of the documented names.
#include "common.hpp"
#include <Pothos/Framework/DType.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Object.hpp>
#include <complex>
#include <cstdint>
#include <cctype>
using namespace pbt;

struct Kind { std::string name; size_t size; bool isFloat, isInt, isSigned, isComplex, isCustom; const std::type_info *type; };
static const std::vector<Kind> &kinds(void)
{
    static std::vector<Kind> ks;
    if (!ks.empty()) return ks;
    #define I(N, T, S) ks.push_back({N, sizeof(T), false, true, S, false, false, &typeid(T)}); ks.push_back({"complex_" N, 2 * sizeof(T), false, true, S, true, false, &typeid(std::complex<T>)});
    I("int8", signed char, true) I("uint8", unsigned char, false) I("int16", short, true) I("uint16", unsigned short, false)
    I("int32", int, true) I("uint32", unsigned int, false) I("int64", long long, true) I("uint64", unsigned long long, false)
    #define F(N, T) ks.push_back({N, sizeof(T), true, false, false, false, false, &typeid(T)}); ks.push_back({"complex_" N, 2 * sizeof(T), true, false, false, true, false, &typeid(std::complex<T>)});
    F("float32", float) F("float64", double)
    ks.push_back({"custom", 1, false, false, false, false, true, nullptr});
    ks.push_back({"unspecified", 1, false, false, false, false, false, nullptr});
    return ks;
}
static const std::vector<std::pair<std::string, std::string>> aliases = {
    {"sint8", "int8"}, {"sint16", "int16"}, {"sint32", "int32"}, {"sint64", "int64"},
    {"complex_sint8", "complex_int8"}, {"complex_sint16", "complex_int16"}, {"complex_sint32", "complex_int32"}, {"complex_sint64", "complex_int64"},
    {"byte", "int8"}, {"octet", "int8"}, {"float", "float32"}, {"double", "float64"}, {"complex64", "complex_float32"}, {"complex128", "complex_float64"},
    {"char", "int8"}, {"schar", "int8"}, {"uchar", "uint8"}, {"short", "int16"}, {"sshort", "int16"}, {"ushort", "uint16"}, {"int", "int32"}, {"sint", "int32"}, {"uint", "uint32"},
    {"long", "int64"}, {"slong", "int64"}, {"ulong", "uint64"}, {"long long", "int64"}, {"slong long", "int64"}, {"ulong long", "uint64"}, {"longlong", "int64"}, {"ulonglong", "uint64"}, {"llong", "int64"}, {"ullong", "uint64"}, {"sllong", "int64"},
    {"", "unspecified"}};
static const std::vector<std::pair<const std::type_info *, std::string>> ctypes = {
    {&typeid(char), "int8"}, {&typeid(signed char), "int8"}, {&typeid(unsigned char), "uint8"}, {&typeid(short), "int16"}, {&typeid(unsigned short), "uint16"},
    {&typeid(int), "int32"}, {&typeid(unsigned), "uint32"}, {&typeid(long), "int64"}, {&typeid(unsigned long), "uint64"}, {&typeid(long long), "int64"}, {&typeid(unsigned long long), "uint64"},
    {&typeid(float), "float32"}, {&typeid(double), "float64"}, {&typeid(std::complex<char>), "complex_int8"}, {&typeid(std::complex<long>), "complex_int64"}, {&typeid(std::complex<unsigned long>), "complex_uint64"},
    {&typeid(std::complex<float>), "complex_float32"}, {&typeid(std::complex<double>), "complex_float64"}, {&typeid(std::complex<short>), "complex_int16"}, {&typeid(std::complex<unsigned char>), "complex_uint8"}};

static const Kind &byName(const std::string &n)
{
    for (auto &k : kinds()) if (k.name == n) return k;
    PBT_FAIL("harness: no kind " << n);
}
static std::string mixCase(Src &s, std::string in)
{
    if (!s.chance(1, 3)) return in;
    for (auto &ch : in) if (s.flip()) ch = char(std::toupper(ch));
    return in;
}
static std::string ws(Src &s) { return std::string(size_t(s.small(0, 3)), s.flip() ? ' ' : '\t'); }
static size_t genDim(Src &s) { return size_t(s.weighted({3, 3, 1}) == 0 ? 1 : s.small(0, 5000)); }

static void checkKind(const Pothos::DType &d, const Kind &k, const size_t dim, const std::string &how)
{
    PBT_CHECK(d.name() == k.name, how << ": name '" << d.name() << "' want '" << k.name << "'");
    PBT_CHECK(size_t(d.elemSize()) == k.size, how << ": elemSize " << size_t(d.elemSize()) << " want " << k.size);
    PBT_CHECK(d.dimension() == dim, how << ": dimension " << d.dimension() << " want " << dim);
    PBT_CHECK(d.size() == dim * k.size, how << ": size " << d.size());
    PBT_CHECK(d.isFloat() == k.isFloat && d.isInteger() == k.isInt && d.isSigned() == k.isSigned && d.isComplex() == k.isComplex && d.isCustom() == k.isCustom,
        how << ": kind flags of " << k.name << " f" << d.isFloat() << " i" << d.isInteger() << " s" << d.isSigned() << " c" << d.isComplex() << " u" << d.isCustom());
    PBT_CHECK(bool(d) == (k.name != "unspecified"), how << ": bool of " << k.name);
    // printing and parsing back
    const auto m = d.toMarkup();
    const Pothos::DType back(m);
    PBT_CHECK(back == d && !(back != d), how << ": markup '" << m << "' parsed back to '" << back.toMarkup() << "'");
    PBT_CHECK(Pothos::DType(m.c_str()) == d, how << ": markup via char *");
    const auto str = d.toString();
    PBT_CHECK(str.find(k.name) == 0, how << ": toString '" << str << "'");
    if (dim != 1) PBT_CHECK(str.find(std::to_string(dim)) != std::string::npos, how << ": toString without dimension '" << str << "'");
}

static Pothos::DType build(Case &c, const Kind *&k, size_t &dim)
{
    auto &s = c.s;
    dim = genDim(s);
    std::string how;
    Pothos::DType d;
    switch (s.draw(5))
    {
    case 0:
        {
            k = &s.pick(kinds());
            const auto n = mixCase(s, k->name);
            how = "DType(\"" + n + "\"," + std::to_string(dim) + ")";
            d = Pothos::DType(n, dim);
        } break;
    case 1: case 2:
        {
            std::string n;
            if (s.flip()) { k = &s.pick(kinds()); n = k->name; }
            else { auto &a = s.pick(aliases); n = a.first; k = &byName(a.second); }
            n = mixCase(s, n);
            std::string m = n;
            if (dim != 1 || s.flip()) { m = ws(s) + n + ws(s) + "," + ws(s) + std::to_string(dim) + ws(s); c.tag("markup-dim"); }
            how = "DType(\"" + m + "\")";
            d = s.flip() ? Pothos::DType(m) : Pothos::DType(m.c_str());
        } break;
    case 3:
        {
            auto &t = s.pick(ctypes); k = &byName(t.second);
            how = std::string("DType(typeid ") + t.first->name() + "," + std::to_string(dim) + ")";
            d = (dim == 1 && s.flip()) ? Pothos::DType(*t.first) : Pothos::DType(*t.first, dim);
        } break;
    case 4:
        {
            k = &s.pick(kinds());
            const size_t d0 = genDim(s);
            how = "fromDType(" + k->name + "[" + std::to_string(d0) + "]," + std::to_string(dim) + ")";
            const Pothos::DType src(k->name, d0);
            d = Pothos::DType::fromDType(src, dim);
            checkKind(src, *k, d0, "source of " + how);
        } break;
    default:
        {
            auto &a = s.pick(aliases); k = &byName(a.second);
            how = "alias DType(\"" + a.first + "\"," + std::to_string(dim) + ")";
            d = Pothos::DType(mixCase(s, a.first), dim);
        } break;
    }
    c.desc << how << " ";
    checkKind(d, *k, dim, how);
    return d;
}

static void agree(Case &c)
{
    const Kind *ka, *kb; size_t da, db;
    const auto a = build(c, ka, da), b = build(c, kb, db);
    const bool same = ka == kb && da == db;
    PBT_CHECK((a == b) == same && (a != b) == !same && (b == a) == same, "equality of " << a.toString() << " and " << b.toString());
    const auto cp = a;
    PBT_CHECK(cp == a, "copy");
    if (c.s.chance(1, 2))
    {
        // two different constructions of the same type
        PBT_CHECK(Pothos::DType(ka->name, da) == a, "by name");
        if (ka->type) PBT_CHECK(Pothos::DType(*ka->type, da) == a, "by C++ type");
        PBT_CHECK(Pothos::DType::fromDType(b, da) == a || ka != kb, "by other dimension");
        PBT_CHECK(Pothos::Object(a).toString() == a.toString(), "Object::toString");
    }
    c.nontrivial = da != 1 || db != 1 || !same;
    if (same) c.tag("equal-pair");
    if (ka == kb && da != db) c.tag("same-element-other-dimension");
}

static void reject(Case &c)
{
    auto &s = c.s;
    std::string m;
    switch (s.draw(4))
    {
    case 0: { const size_t n = size_t(s.small(1, 12)); for (size_t i = 0; i < n; i++) m += char(s.range(32, 126)); break; }
    case 1: { m = s.pick(kinds()).name; const size_t at = size_t(s.draw(m.size() - 1)); m[at] = char(s.range('a', 'z')); break; }
    case 2: { m = s.pick(kinds()).name; m += char(s.range('0', 'z')); break; }
    case 3: { m = s.pick(aliases).first; if (!m.empty()) m.erase(s.draw(m.size() - 1), 1); break; }
    default: { m = s.pick(kinds()).name + "," + s.pick<std::string>({"", " ", "x", "abc", "[2]", "two"}); break; }
    }
    c.desc << "\"" << m << "\"";
    // what should it be?
    std::string low; for (char ch : m) low += char(std::tolower(ch));
    auto trim = [](std::string t) { while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); while (!t.empty() && isspace((unsigned char)t[0])) t.erase(0, 1); return t; };
    const auto comma = low.find(',');
    std::string base = comma == std::string::npos ? low : trim(low.substr(0, comma));
    const Kind *k = nullptr;
    for (auto &x : kinds()) if (x.name == base) k = &x;
    for (auto &x : aliases) if (x.first == base) k = &byName(x.second);
    // raw and readable C++ type names are accepted too; leave those alone
    bool cppName = base.size() <= 1 || base.find("char") != std::string::npos || base.find("int") == 0 || base.find("short") != std::string::npos || base.find("long") != std::string::npos || base.find("unsigned") == 0 || base.find("std::") == 0;
    bool ok = false; Pothos::DType d;
    try { d = Pothos::DType(m); ok = true; }
    catch (const Pothos::DTypeUnknownError &) {}
    if (comma == std::string::npos)
    {
        if (k) { PBT_CHECK(ok, "documented name rejected"); checkKind(d, *k, 1, m); }
        else if (!cppName || base != trim(base)) PBT_CHECK(!ok || base != trim(base), "unknown name '" << m << "' accepted as " << d.toString());
    }
    else
    {
        const auto dim = trim(low.substr(comma + 1));
        const bool digits = !dim.empty() && dim.find_first_not_of("0123456789") == std::string::npos && dim.size() < 10;
        if (k && digits) { PBT_CHECK(ok, "documented markup rejected"); checkKind(d, *k, std::stoul(dim), m); }
        if (!k && !cppName) PBT_CHECK(!ok, "unknown name in '" << m << "' accepted");
        if (dim.empty() || isalpha((unsigned char)dim[0]) || dim[0] == '[') PBT_CHECK(!ok, "markup '" << m << "' without a number accepted");
    }
    c.nontrivial = true;
    c.tag(ok ? "accepted" : "rejected");
}

PBT_MAIN("C14", {{"agree", 3, agree}, {"reject", 1, reject}})
