// Generated values of every serializable type, with a canonical rendering as equality oracle.
#pragma once
#include "common.hpp"
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Framework.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/System.hpp>
#include <Pothos/Remote.hpp>
#include <cmath>
#include <complex>
#include <cstring>

namespace values {
using namespace pbt;

//! random bits of a magnitude between 0 and the full width, positive or negative, often at an edge
template <typename T>
T genInt(Src &s)
{
    const unsigned bits = sizeof(T) * 8;
    const unsigned b = unsigned(s.range(0, bits));
    uint64_t v = b == 0 ? 0 : s.draw(b >= 64 ? ~0ull : (1ull << b) - 1);
    switch (s.weighted({6, 1, 1, 1}))
    {
    case 1: v = b >= 64 ? ~0ull : (1ull << b); break;
    case 2: v = b >= 64 ? ~0ull : (1ull << b) - 1; break;
    case 3: v = 0; v = ~v >> (64 - std::max(1u, std::min(b, 63u))); break;
    default: break;
    }
    if (std::is_signed<T>::value && s.flip()) v = ~v + uint64_t(s.range(0, 1));
    return T(v);
}
template <typename T, typename U>
T genFloat(Src &s)
{
    switch (s.weighted({4, 4, 2, 1}))
    {
    case 0: return T(s.range(-1000, 1000));
    case 1: return std::ldexp(T(genInt<int>(s)), int(s.range(-40, 40)));
    case 2: { const U b = genInt<U>(s); T f; std::memcpy(&f, &b, sizeof(f)); return f; }
    default: return s.pick({T(0), T(-0.0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon()});
    }
}
inline std::string genString(Src &s, size_t max = 40)
{
    std::string r; const size_t n = size_t(s.small(0, (long long)max));
    const int kind = int(s.draw(2));
    for (size_t i = 0; i < n; i++) r += kind == 0 ? char('a' + s.draw(25)) : kind == 1 ? char(32 + s.draw(94)) : char(s.draw(255));
    return r;
}
template <typename T> struct Gen;
#define GEN_INT(T) template <> struct Gen<T> { static T get(Src &s) { return genInt<T>(s); } };
GEN_INT(char) GEN_INT(signed char) GEN_INT(unsigned char) GEN_INT(short) GEN_INT(unsigned short) GEN_INT(int) GEN_INT(unsigned) GEN_INT(long) GEN_INT(unsigned long) GEN_INT(long long) GEN_INT(unsigned long long)
template <> struct Gen<bool> { static bool get(Src &s) { return s.flip(); } };
template <> struct Gen<float> { static float get(Src &s) { return genFloat<float, uint32_t>(s); } };
template <> struct Gen<double> { static double get(Src &s) { return genFloat<double, uint64_t>(s); } };
template <> struct Gen<std::string> { static std::string get(Src &s) { return genString(s); } };
template <typename T> struct Gen<std::complex<T>> { static std::complex<T> get(Src &s) { const T a = Gen<T>::get(s); return std::complex<T>(a, Gen<T>::get(s)); } };

inline void hex(std::ostream &o, const void *p, size_t n) { static const char *d = "0123456789abcdef"; for (size_t i = 0; i < n; i++) { const auto b = ((const unsigned char *)p)[i]; o << d[b >> 4] << d[b & 15]; } }

// canonical text: equal exactly for equal values (floats by bit pattern)
template <typename T> typename std::enable_if<std::is_integral<T>::value>::type canonT(std::ostream &o, const T &v) { o << typeid(T).name() << +v; }
template <typename T> typename std::enable_if<std::is_floating_point<T>::value>::type canonT(std::ostream &o, const T &v) { o << typeid(T).name(); hex(o, &v, sizeof(v)); }
template <typename T> void canonT(std::ostream &o, const std::complex<T> &v) { o << "C("; canonT(o, v.real()); o << ","; canonT(o, v.imag()); o << ")"; }
inline void canonT(std::ostream &o, const std::string &v) { o << "s" << v.size() << "\"" << v << "\""; }
inline void canonT(std::ostream &o, const Pothos::Object &v);
inline void canonT(std::ostream &o, const Pothos::Proxy &v) { o << "proxy(" << v.getEnvironment()->getName() << ":"; canonT(o, v.toObject()); o << ")"; }
inline void canonT(std::ostream &o, const Pothos::DType &d) { o << "dtype(" << d.name() << "," << d.elemType() << "," << d.elemSize() << "," << d.dimension() << ")"; }
inline void canonT(std::ostream &o, const Pothos::PortInfo &p) { o << "port("; canonT(o, p.name); canonT(o, p.alias); canonT(o, p.isSigSlot); canonT(o, p.dtype); o << ")"; }
inline void canonT(std::ostream &o, const Pothos::Label &l) { o << "label("; canonT(o, l.id); canonT(o, l.data); o << "," << l.index << "," << l.width << ")"; }
inline void canonT(std::ostream &o, const Pothos::BufferChunk &b) { if (!b) { o << "nullbuf"; return; } o << "buf("; canonT(o, b.dtype); o << "," << b.length << ":"; hex(o, b.as<const void *>(), b.length); o << ")"; }
inline void canonT(std::ostream &o, const Pothos::PluginRegistryInfoDump &d) { o << "dump("; canonT(o, d.pluginPath); canonT(o, d.objectType); canonT(o, d.modulePath); canonT(o, d.moduleVersion); o << "["; for (auto &x : d.subInfo) canonT(o, x); o << "])"; }
inline void canonT(std::ostream &o, const Pothos::System::NumaInfo &n) { o << "numa(" << n.nodeNumber << "," << n.totalMemory << "," << n.freeMemory << "["; for (auto x : n.cpus) o << x << " "; o << "])"; }
template <typename T> void canonV(std::ostream &o, const std::vector<T> &v) { o << "v" << v.size() << "["; for (const T &x : v) { canonT(o, x); o << ";"; } o << "]"; }
template <> inline void canonV(std::ostream &o, const std::vector<bool> &v) { o << "vb" << v.size() << "["; for (bool x : v) o << x; o << "]"; }
template <typename T> std::string text(const T &v) { std::ostringstream o; canonT(o, v); return o.str(); }
template <typename M> void canonM(std::ostream &o, const M &m) { std::vector<std::string> e; for (auto &p : m) e.push_back(text(p.first) + "=>" + text(p.second)); std::sort(e.begin(), e.end()); o << "m" << e.size() << "{"; for (auto &x : e) o << x << ";"; o << "}"; }
template <typename S> void canonS(std::ostream &o, const S &m) { std::vector<std::string> e; for (auto &p : m) e.push_back(text(p)); std::sort(e.begin(), e.end()); o << "S" << e.size() << "{"; for (auto &x : e) o << x << ";"; o << "}"; }

inline void canonT(std::ostream &o, const Pothos::Object &v)
{
    const auto &t = v.type();
    #define CANON_T(T) if (t == typeid(T)) { canonT(o, v.extract<T>()); return; } if (t == typeid(std::vector<T>)) { canonV<T>(o, v.extract<std::vector<T>>()); return; }
    CANON_T(bool) CANON_T(char) CANON_T(signed char) CANON_T(unsigned char) CANON_T(short) CANON_T(unsigned short) CANON_T(int) CANON_T(unsigned) CANON_T(long) CANON_T(unsigned long) CANON_T(long long) CANON_T(unsigned long long)
    CANON_T(float) CANON_T(double) CANON_T(std::complex<float>) CANON_T(std::complex<double>) CANON_T(std::string)
    CANON_T(Pothos::PortInfo) CANON_T(Pothos::Label) CANON_T(Pothos::PluginRegistryInfoDump) CANON_T(Pothos::System::NumaInfo)
    if (!v) { o << "null"; return; }
    if (t == typeid(Pothos::Object)) { o << "obj<"; canonT(o, v.extract<Pothos::Object>()); o << ">"; return; }
    if (t == typeid(Pothos::ObjectVector)) { o << "O"; canonV(o, v.extract<Pothos::ObjectVector>()); return; }
    if (t == typeid(Pothos::ObjectSet)) { o << "O"; canonS(o, v.extract<Pothos::ObjectSet>()); return; }
    if (t == typeid(Pothos::ObjectMap)) { o << "O"; canonM(o, v.extract<Pothos::ObjectMap>()); return; }
    if (t == typeid(Pothos::ObjectKwargs)) { o << "K"; canonM(o, v.extract<Pothos::ObjectKwargs>()); return; }
    if (t == typeid(Pothos::Proxy)) { canonT(o, v.extract<Pothos::Proxy>()); return; }
    if (t == typeid(Pothos::ProxyVector)) { o << "P"; canonV(o, v.extract<Pothos::ProxyVector>()); return; }
    if (t == typeid(Pothos::ProxySet)) { o << "P"; canonS(o, v.extract<Pothos::ProxySet>()); return; }
    if (t == typeid(Pothos::ProxyMap)) { o << "P"; canonM(o, v.extract<Pothos::ProxyMap>()); return; }
    if (t == typeid(Pothos::BufferChunk)) { canonT(o, v.extract<Pothos::BufferChunk>()); return; }
    if (t == typeid(Pothos::DType)) { canonT(o, v.extract<Pothos::DType>()); return; }
    if (t == typeid(Pothos::Packet)) { const auto &p = v.extract<Pothos::Packet>(); o << "packet("; canonT(o, p.payload); canonM(o, p.metadata); canonV(o, p.labels); o << ")"; return; }
    if (t == typeid(Pothos::ThreadPoolArgs)) { const auto &p = v.extract<Pothos::ThreadPoolArgs>(); o << "pool(" << p.numThreads << ","; canonT(o, p.priority); canonT(o, p.affinityMode); canonV(o, p.affinity); canonT(o, p.yieldMode); o << ")"; return; }
    if (t == typeid(Pothos::System::HostInfo)) { const auto &h = v.extract<Pothos::System::HostInfo>(); o << "host("; canonT(o, h.osName); canonT(o, h.osVersion); canonT(o, h.osArchitecture); canonT(o, h.nodeName); canonT(o, h.nodeId); canonT(o, h.pid); o << h.processorCount << ")"; return; }
    o << "?" << v.getTypeString();
}

inline Pothos::DType genDType(Src &s)
{
    static const std::vector<std::string> names = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "complex_int8", "complex_uint16", "complex_float32", "complex_float64", "complex_int64"};
    switch (s.weighted({6, 1, 1}))
    {
    case 0: return Pothos::DType(s.pick(names), size_t(s.small(1, 300)));
    case 1: return Pothos::DType("custom", size_t(s.small(1, 5000)));
    default: return Pothos::DType();
    }
}
inline Pothos::BufferChunk genBuffer(Src &s)
{
    if (s.chance(1, 8)) return Pothos::BufferChunk();
    size_t n = size_t(s.small(1, 400));
    if (s.chance(1, 20)) n = size_t(s.range(16000, 17000)); // around one more byte of length encoding
    const auto seed = s.draw(255);
    Pothos::BufferChunk b(n + 16);
    for (size_t i = 0; i < b.length; i++) b.as<unsigned char *>()[i] = (unsigned char)(seed * 31 + i * 7 + (i >> 8));
    const size_t off = size_t(s.small(0, 16));
    b.address += off; b.length = n;
    b.dtype = genDType(s);
    return b;
}
inline Pothos::Object genObject(Src &s, unsigned depth);
inline Pothos::Label genLabel(Src &s, unsigned depth) { Pothos::Label l(genString(s, 10), genObject(s, depth), genInt<unsigned long long>(s), genInt<size_t>(s)); return l; }
inline Pothos::PortInfo genPort(Src &s) { Pothos::PortInfo p; p.name = genString(s, 10); p.alias = genString(s, 10); p.isSigSlot = s.flip(); p.dtype = genDType(s); return p; }
inline Pothos::PluginRegistryInfoDump genDump(Src &s, unsigned depth) { Pothos::PluginRegistryInfoDump d; d.pluginPath = genString(s, 10); d.objectType = genString(s, 10); d.modulePath = genString(s, 10); d.moduleVersion = genString(s, 5); if (depth) for (size_t n = size_t(s.small(0, 3)); n > 0; n--) d.subInfo.push_back(genDump(s, depth - 1)); return d; }
inline Pothos::System::NumaInfo genNuma(Src &s) { Pothos::System::NumaInfo n; n.nodeNumber = genInt<size_t>(s); n.totalMemory = genInt<unsigned long long>(s); n.freeMemory = genInt<unsigned long long>(s); for (size_t k = size_t(s.small(0, 5)); k > 0; k--) n.cpus.push_back(genInt<size_t>(s)); return n; }

template <typename T> Pothos::Object genScalarOrVector(Src &s)
{
    if (!s.chance(1, 3)) return Pothos::Object(Gen<T>::get(s));
    std::vector<T> v; size_t n = size_t(s.small(0, 12)); if (s.chance(1, 12)) n = size_t(s.range(120, 135));
    for (size_t i = 0; i < n; i++) v.push_back(Gen<T>::get(s));
    return Pothos::Object(v);
}
inline Pothos::ProxyEnvironment::Sptr managedEnv(void) { static auto e = Pothos::ProxyEnvironment::make("managed"); return e; }
//! keys of one kind, so that their order is a real order
inline Pothos::Object genKey(Src &s, int kind) { if (kind == 0) return Pothos::Object(genInt<int>(s)); if (kind == 1) return Pothos::Object(genString(s, 8)); double d = genFloat<double, uint64_t>(s); return Pothos::Object(std::isnan(d) ? 0.5 : d); }
inline Pothos::Proxy genProxy(Src &s, unsigned depth) { return managedEnv()->makeProxy(genObject(s, depth)); }

inline Pothos::Object genObject(Src &s, unsigned depth)
{
    const size_t kind = depth == 0 ? s.draw(17) : s.draw(34);
    const unsigned d = depth == 0 ? 0 : depth - 1;
    switch (kind)
    {
    case 0: return genScalarOrVector<int>(s);
    case 1: return genScalarOrVector<bool>(s);
    case 2: return genScalarOrVector<char>(s);
    case 3: return genScalarOrVector<signed char>(s);
    case 4: return genScalarOrVector<unsigned char>(s);
    case 5: return genScalarOrVector<short>(s);
    case 6: return genScalarOrVector<unsigned short>(s);
    case 7: return genScalarOrVector<unsigned>(s);
    case 8: return genScalarOrVector<long>(s);
    case 9: return genScalarOrVector<unsigned long>(s);
    case 10: return genScalarOrVector<long long>(s);
    case 11: return genScalarOrVector<unsigned long long>(s);
    case 12: return genScalarOrVector<float>(s);
    case 13: return genScalarOrVector<double>(s);
    case 14: return genScalarOrVector<std::complex<float>>(s);
    case 15: return genScalarOrVector<std::complex<double>>(s);
    case 16: return genScalarOrVector<std::string>(s);
    case 17: return Pothos::Object();
    case 18: { Pothos::ObjectVector v; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) v.push_back(genObject(s, d)); return Pothos::Object(v); }
    case 19: { Pothos::ObjectSet v; const int k = int(s.draw(2)); for (size_t n = size_t(s.small(0, 4)); n > 0; n--) v.insert(genKey(s, k)); return Pothos::Object(v); }
    case 20: { Pothos::ObjectMap v; const int k = int(s.draw(2)); for (size_t n = size_t(s.small(0, 4)); n > 0; n--) { auto key = genKey(s, k); v[key] = genObject(s, d); } return Pothos::Object(v); }
    case 21: { Pothos::ObjectKwargs v; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) { auto key = genString(s, 8); v[key] = genObject(s, d); } return Pothos::Object(v); }
    case 22: return Pothos::Object(genProxy(s, d));
    case 23: { Pothos::ProxyVector v; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) v.push_back(genProxy(s, d)); return Pothos::Object(v); }
    case 24: { Pothos::ProxySet v; const int k = int(s.draw(2)); for (size_t n = size_t(s.small(0, 4)); n > 0; n--) v.insert(managedEnv()->makeProxy(genKey(s, k))); return Pothos::Object(v); }
    case 25: { Pothos::ProxyMap v; const int k = int(s.draw(2)); for (size_t n = size_t(s.small(0, 4)); n > 0; n--) { auto key = managedEnv()->makeProxy(genKey(s, k)); v[key] = genProxy(s, d); } return Pothos::Object(v); }
    case 26: return Pothos::Object(genBuffer(s));
    case 27: return Pothos::Object(genDType(s));
    case 28: { if (s.flip()) return Pothos::Object(genLabel(s, d)); std::vector<Pothos::Label> v; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) v.push_back(genLabel(s, d)); return Pothos::Object(v); }
    case 29: { Pothos::Packet p; p.payload = genBuffer(s); for (size_t n = size_t(s.small(0, 3)); n > 0; n--) { auto key = genString(s, 8); p.metadata[key] = genObject(s, d); } for (size_t n = size_t(s.small(0, 3)); n > 0; n--) p.labels.push_back(genLabel(s, d)); return Pothos::Object(p); }
    case 30: { if (s.flip()) return Pothos::Object(genPort(s)); std::vector<Pothos::PortInfo> v; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) v.push_back(genPort(s)); return Pothos::Object(v); }
    case 31: { Pothos::ThreadPoolArgs a; a.numThreads = genInt<size_t>(s); a.priority = genFloat<double, uint64_t>(s); a.affinityMode = genString(s, 8); for (size_t n = size_t(s.small(0, 4)); n > 0; n--) a.affinity.push_back(genInt<size_t>(s)); a.yieldMode = genString(s, 8); return Pothos::Object(a); }
    case 32: { if (s.flip()) return Pothos::Object(genDump(s, d)); std::vector<Pothos::PluginRegistryInfoDump> v; for (size_t n = size_t(s.small(0, 3)); n > 0; n--) v.push_back(genDump(s, d)); return Pothos::Object(v); }
    case 33: { if (s.flip()) return Pothos::Object(genNuma(s)); std::vector<Pothos::System::NumaInfo> v; for (size_t n = size_t(s.small(0, 3)); n > 0; n--) v.push_back(genNuma(s)); return Pothos::Object(v); }
    default: { Pothos::System::HostInfo h; h.osName = genString(s, 8); h.osVersion = genString(s, 8); h.osArchitecture = genString(s, 8); h.nodeName = genString(s, 8); h.nodeId = genString(s, 8); h.pid = genString(s, 6); h.processorCount = genInt<size_t>(s); return Pothos::Object(h); }
    }
}
} // namespace values
