// C19: serialization round trips.
#include "values.hpp"
#include <Pothos/Archive.hpp>
#include <Pothos/Object/Serialize.hpp>
using namespace values;

//! a stream that hands out data in pieces of any size and counts what was taken
struct PieceBuf : std::streambuf
{
    PieceBuf(const std::string &d, size_t piece): data(d), piece(piece) { setg(&data[0], &data[0], &data[0]); }
    int_type underflow(void)
    {
        if (pos >= data.size()) return traits_type::eof();
        const size_t n = std::min(piece, data.size() - pos);
        setg(&data[0] + pos, &data[0] + pos, &data[0] + pos + n); pos += n;
        return traits_type::to_int_type(*gptr());
    }
    size_t taken(void) const { return pos - size_t(egptr() - gptr()); }
    std::string data; size_t piece, pos = 0;
};

static void objects(Case &c)
{
    auto &s = c.s;
    const size_t n = 1 + size_t(s.small(0, 3));
    std::vector<Pothos::Object> in; std::vector<size_t> ends; std::ostringstream os;
    for (size_t i = 0; i < n; i++)
    {
        in.push_back(genObject(s, unsigned(s.draw(3))));
        const auto t = text(in.back());
        c.desc << in.back().getTypeString() << " " << t.substr(0, 120) << "; "; c.tag(in.back().getTypeString().substr(0, 40));
        in.back().serialize(os); ends.push_back(os.str().size());
        PBT_CHECK(text(in.back()) == t, "serializing changed the value");
    }
    const bool trailing = s.flip();
    PieceBuf pb(os.str() + (trailing ? "trailing" : ""), size_t(s.small(1, 5000)));
    std::istream is(&pb);
    size_t big = 0;
    for (size_t i = 0; i < n; i++)
    {
        Pothos::Object out; out.deserialize(is);
        PBT_CHECK(out.type() == in[i].type(), "type " << in[i].getTypeString() << " came back as " << out.getTypeString());
        const auto a = text(in[i]), b = text(out);
        PBT_CHECK(a == b, "value changed: " << a.substr(0, 500) << "  came back as  " << b.substr(0, 500));
        PBT_CHECK(pb.taken() == ends[i], "value " << i << " took " << pb.taken() << " bytes, " << ends[i] << " were written");
        big = std::max(big, a.size());
    }
    PBT_CHECK(is.good(), "the stream is left in an error state");
    c.nontrivial = big > 12; c.count("bytes", ends.back());
}

// plain C++ values through the archivers, several in one archive
struct Item { std::function<void(Pothos::Archive::OStreamArchiver &)> save; std::function<std::string(Pothos::Archive::IStreamArchiver &)> load; std::string want; };
template <typename T> void canonAny(std::ostream &o, const T &v) { canonT(o, v); }
template <typename T> void canonAny(std::ostream &o, const std::vector<T> &v);
template <typename A, typename B> void canonAny(std::ostream &o, const std::pair<A, B> &p);
template <typename A, typename B> void canonAny(std::ostream &o, const std::map<A, B> &m);
template <typename A> void canonAny(std::ostream &o, const std::set<A> &m);
template <typename C> void canonAny(std::ostream &o, const std::basic_string<C> &v);
template <typename T> void canonAny(std::ostream &o, const std::vector<T> &v) { o << "v" << v.size() << "["; for (const T &x : v) { canonAny(o, x); o << ";"; } o << "]"; }
template <typename A, typename B> void canonAny(std::ostream &o, const std::pair<A, B> &p) { o << "("; canonAny(o, p.first); o << ":"; canonAny(o, p.second); o << ")"; }
template <typename A, typename B> void canonAny(std::ostream &o, const std::map<A, B> &m) { o << "m" << m.size() << "{"; for (auto &p : m) { canonAny(o, p); o << ";"; } o << "}"; }
template <typename A> void canonAny(std::ostream &o, const std::set<A> &m) { o << "s" << m.size() << "{"; for (auto &p : m) { canonAny(o, p); o << ";"; } o << "}"; }
template <typename C> void canonAny(std::ostream &o, const std::basic_string<C> &v) { o << "str" << sizeof(C) << "." << v.size() << "\""; hex(o, v.data(), v.size() * sizeof(C)); o << "\""; }

template <typename T> Item item(const T &v, const T &dirty)
{
    Item i; std::ostringstream o; canonAny(o, v); i.want = o.str();
    i.save = [v](Pothos::Archive::OStreamArchiver &a) { a << v; };
    i.load = [dirty](Pothos::Archive::IStreamArchiver &a) { T x(dirty); a >> x; std::ostringstream o; canonAny(o, x); return o.str(); }; // the target may hold something already
    return i;
}
template <typename T> T genAny(Src &s, T *) { return Gen<T>::get(s); }
template <typename T> std::vector<T> genAny(Src &s, std::vector<T> *);
template <typename A, typename B> std::pair<A, B> genAny(Src &s, std::pair<A, B> *);
template <typename A, typename B> std::map<A, B> genAny(Src &s, std::map<A, B> *);
template <typename A> std::set<A> genAny(Src &s, std::set<A> *);
template <typename T> std::vector<T> genAny(Src &s, std::vector<T> *) { std::vector<T> v; for (size_t n = size_t(s.small(0, 5)); n > 0; n--) v.push_back(genAny(s, (T *)nullptr)); return v; }
template <typename A, typename B> std::pair<A, B> genAny(Src &s, std::pair<A, B> *) { auto a = genAny(s, (A *)nullptr); return std::make_pair(a, genAny(s, (B *)nullptr)); }
template <typename A, typename B> std::map<A, B> genAny(Src &s, std::map<A, B> *) { std::map<A, B> m; for (size_t n = size_t(s.small(0, 5)); n > 0; n--) m.insert(genAny(s, (std::pair<A, B> *)nullptr)); return m; }
template <typename A> std::set<A> genAny(Src &s, std::set<A> *) { std::set<A> m; for (size_t n = size_t(s.small(0, 5)); n > 0; n--) m.insert(genAny(s, (A *)nullptr)); return m; }
template <typename T> Item genItem(Src &s) { auto a = genAny(s, (T *)nullptr); return item<T>(a, s.flip() ? T() : genAny(s, (T *)nullptr)); }
namespace values { template <> struct Gen<std::u16string> { static std::u16string get(Src &s) { std::u16string r; for (size_t n = size_t(s.small(0, 20)); n > 0; n--) r += char16_t(s.draw(65535)); return r; } }; 
template <> struct Gen<std::wstring> { static std::wstring get(Src &s) { std::wstring r; for (size_t n = size_t(s.small(0, 20)); n > 0; n--) r += wchar_t(s.draw(0x10ffff)); return r; } }; }

static Item anyItem(Src &s)
{
    switch (s.draw(27))
    {
    case 0: return genItem<int>(s);
    case 1: return genItem<long long>(s);
    case 2: return genItem<long>(s);
    case 3: return genItem<unsigned long long>(s);
    case 4: return genItem<unsigned>(s);
    case 5: return genItem<short>(s);
    case 6: return genItem<unsigned short>(s);
    case 7: return genItem<signed char>(s);
    case 8: return genItem<unsigned char>(s);
    case 9: return genItem<bool>(s);
    case 10: return genItem<double>(s);
    case 11: return genItem<float>(s);
    case 12: return genItem<std::string>(s);
    case 13: return genItem<std::pair<long long, std::string>>(s);
    case 14: return genItem<std::vector<long long>>(s);
    case 15: return genItem<std::vector<std::vector<int>>>(s);
    case 16: return genItem<std::map<std::string, int>>(s);
    case 17: return genItem<std::map<long long, std::vector<std::string>>>(s);
    case 18: return genItem<std::set<short>>(s);
    case 19: return genItem<std::set<std::string>>(s);
    case 20: return genItem<std::vector<std::pair<bool, double>>>(s);
    case 21: return genItem<std::complex<float>>(s);
    case 22: return genItem<std::map<int, std::map<unsigned, std::set<long>>>>(s);
    case 23: return genItem<std::u16string>(s);
    case 24: return genItem<std::vector<std::complex<double>>>(s);
    case 25: return genItem<char>(s);
    case 26: return genItem<std::wstring>(s);
    default: { auto v = genBuffer(s); return item<Pothos::BufferChunk>(v, s.flip() ? Pothos::BufferChunk() : genBuffer(s)); }
    }
}
static void archive(Case &c)
{
    auto &s = c.s;
    const size_t n = 1 + size_t(s.small(0, 8));
    std::vector<Item> items; std::vector<size_t> ends; std::ostringstream os;
    {
        Pothos::Archive::OStreamArchiver oa(os);
        for (size_t i = 0; i < n; i++) { items.push_back(anyItem(s)); items.back().save(oa); ends.push_back(os.str().size()); c.desc << items.back().want.substr(0, 100) << " | "; }
    }
    PieceBuf pb(os.str() + "more", size_t(s.small(1, 5000)));
    std::istream is(&pb);
    Pothos::Archive::IStreamArchiver ia(is);
    for (size_t i = 0; i < n; i++)
    {
        const auto got = items[i].load(ia);
        PBT_CHECK(got == items[i].want, "value " << i << " " << items[i].want << " came back as " << got);
        PBT_CHECK(pb.taken() == ends[i], "value " << i << " took up to byte " << pb.taken() << ", " << ends[i] << " were written");
    }
    c.nontrivial = n > 1;
}

// user-defined and polymorphic types through the documented extension points
struct Base { virtual ~Base(void) {} virtual std::string show(void) const = 0; };
struct DerA : Base { long long a = 0; std::string b; std::string show(void) const { return "A" + std::to_string(a) + "," + b; } };
struct DerB : Base { std::vector<int> v; std::string show(void) const { std::string r = "B"; for (auto x : v) r += std::to_string(x) + ","; return r; } };
struct Custom { int x = 0; std::map<std::string, Pothos::Object> m; DerA in; template <class A> void serialize(A &ar, const unsigned int) { ar & x; ar & m; ar & in; } };
namespace Pothos { namespace serialization {
template <class A> void serialize(A &, Base &, const unsigned int) {}
template <class A> void serialize(A &ar, DerA &t, const unsigned int) { ar & t.a; ar & t.b; }
template <class A> void serialize(A &ar, DerB &t, const unsigned int) { ar & t.v; }
}}
POTHOS_CLASS_EXPORT(DerA)
POTHOS_CLASS_EXPORT(DerB)
POTHOS_OBJECT_SERIALIZE(Custom)
static void user(Case &c)
{
    auto &s = c.s;
    std::vector<std::unique_ptr<Base>> in; std::ostringstream os;
    Pothos::Archive::OStreamArchiver oa(os);
    const size_t n = 1 + size_t(s.small(0, 4));
    for (size_t i = 0; i < n; i++)
    {
        if (s.flip()) { auto a = new DerA(); a->a = genInt<long long>(s); a->b = genString(s); in.emplace_back(a); }
        else { auto b = new DerB(); for (size_t k = size_t(s.small(0, 5)); k > 0; k--) b->v.push_back(genInt<int>(s)); in.emplace_back(b); }
        Base *p = in.back().get(); oa << p; c.desc << p->show() << " ";
    }
    Custom cu; cu.x = genInt<int>(s); cu.in.a = genInt<long long>(s); cu.in.b = genString(s);
    for (size_t k = size_t(s.small(0, 3)); k > 0; k--) { auto key = genString(s, 6); cu.m[key] = genObject(s, 1); }
    Pothos::Object obj(cu); obj.serialize(os);
    std::istringstream is(os.str());
    Pothos::Archive::IStreamArchiver ia(is);
    for (size_t i = 0; i < n; i++)
    {
        Base *p = s.flip() ? nullptr : static_cast<Base *>(new DerA()); ia >> p; std::unique_ptr<Base> own(p);
        PBT_CHECK(p && typeid(*p) == typeid(*in[i]) && p->show() == in[i]->show(), "polymorphic " << in[i]->show() << " came back as " << (p ? p->show() : "null"));
    }
    Pothos::Object out; out.deserialize(is);
    PBT_CHECK(out.type() == typeid(Custom), "custom type came back as " << out.getTypeString());
    const auto &cv = out.extract<Custom>(); std::ostringstream a, b; canonM(a, cu.m); canonM(b, cv.m);
    PBT_CHECK(cv.x == cu.x && cv.in.show() == cu.in.show() && a.str() == b.str(), "custom value changed");
    PBT_CHECK(size_t(is.tellg()) == os.str().size(), "left-over bytes");
    c.nontrivial = n > 1;
}

PBT_MAIN("C19", {{"objects", 4, objects}, {"archive", 3, archive}, {"user", 1, user}})
