// C13: BufferChunk conversion and append. libsimdpp is absent here, so this file provides the
// element loops (simdConvertBuffer) that the library would link; everything around them is the library's.
#include "SIMD/SIMDConvert.hpp"
#include "common.hpp"
#include <Pothos/Framework/BufferChunk.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <cstdint>
using namespace pbt;
using Pothos::BufferChunk; using Pothos::DType;

template <typename A, typename B> struct Cast { static B f(const A &a) { return static_cast<B>(a); } };
template <typename A, typename B> struct Cast<std::complex<A>, std::complex<B>> { static std::complex<B> f(const std::complex<A> &a) { return std::complex<B>(static_cast<B>(a.real()), static_cast<B>(a.imag())); } };
template <typename InType, typename OutType>
void simdConvertBuffer(const void *in, void *out, size_t n)
{
    for (size_t i = 0; i < n; i++) ((OutType *)out)[i] = Cast<InType, OutType>::f(((const InType *)in)[i]);
}
#define INST2(A, B) template void simdConvertBuffer<A, B>(const void *, void *, size_t); template void simdConvertBuffer<std::complex<A>, std::complex<B>>(const void *, void *, size_t);
#define INST(A) INST2(A, int8_t) INST2(A, uint8_t) INST2(A, int16_t) INST2(A, uint16_t) INST2(A, int32_t) INST2(A, uint32_t) INST2(A, int64_t) INST2(A, uint64_t) INST2(A, float) INST2(A, double)
INST(int8_t) INST(uint8_t) INST(int16_t) INST(uint16_t) INST(int32_t) INST(uint32_t) INST(int64_t) INST(uint64_t) INST(float) INST(double)

static const std::vector<std::string> reals = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"};

static size_t primSize(const std::string &n) { return n.find("64") != std::string::npos ? 8 : n.find("32") != std::string::npos ? 4 : n.find("16") != std::string::npos ? 2 : 1; }
static long double readPrim(const std::string &n, const void *p)
{
    if (n == "int8") return *(const int8_t *)p; if (n == "uint8") return *(const uint8_t *)p;
    if (n == "int16") return *(const int16_t *)p; if (n == "uint16") return *(const uint16_t *)p;
    if (n == "int32") return *(const int32_t *)p; if (n == "uint32") return *(const uint32_t *)p;
    if (n == "int64") return *(const int64_t *)p; if (n == "uint64") return *(const uint64_t *)p;
    if (n == "float32") return *(const float *)p; return *(const double *)p;
}
static void writePrim(const std::string &n, void *p, int v)
{
    if (n == "int8") *(int8_t *)p = v; else if (n == "uint8") *(uint8_t *)p = v;
    else if (n == "int16") *(int16_t *)p = v; else if (n == "uint16") *(uint16_t *)p = v;
    else if (n == "int32") *(int32_t *)p = v; else if (n == "uint32") *(uint32_t *)p = v;
    else if (n == "int64") *(int64_t *)p = v; else if (n == "uint64") *(uint64_t *)p = v;
    else if (n == "float32") *(float *)p = v; else *(double *)p = v;
}

static void convert(Case &c)
{
    auto &s = c.s;
    const auto inN = s.pick(reals), outN = s.pick(reals);
    const bool inC = s.flip(), outC = s.flip();
    const size_t dim = s.chance(1, 2) ? 1 : size_t(s.range(2, 5));
    const size_t elems = size_t(s.small(0, 70));
    const DType inT((inC ? "complex_" : "") + inN, dim), outT((outC ? "complex_" : "") + outN, dim);
    // the source is a slice of a larger buffer, so that reading outside shows
    const size_t lead = size_t(s.range(0, 3)), trail = size_t(s.range(0, 3));
    BufferChunk whole(inT, lead + elems + trail);
    const size_t prims = (lead + elems + trail) * dim * (inC ? 2 : 1);
    std::vector<int> vals(prims);
    const bool anyUnsigned = inN[0] == 'u' || outN[0] == 'u';
    for (size_t i = 0; i < prims; i++) { vals[i] = anyUnsigned ? int(i * 37 + 11) % 128 : int(i * 37 + 11) % 255 - 127; writePrim(inN, whole.as<uint8_t *>() + i * primSize(inN), vals[i]); }
    BufferChunk in = whole;
    in.address += lead * inT.size(); in.setElements(elems);
    const size_t off = lead * dim * (inC ? 2 : 1);
    const size_t give = elems > 1 && s.chance(1, 3) ? size_t(s.range(1, elems)) : 0;
    const size_t n = give ? give : elems;
    c.desc << inT.toString() << " -> " << outT.toString() << " elements " << elems << " numElems " << give;
    auto valueOf = [&](size_t i) { return vals[off + i]; };
    auto checkOut = [&](const BufferChunk &out, const std::string &what)
    {
        PBT_CHECK(out.dtype == outT, what << ": dtype " << out.dtype.toString());
        PBT_CHECK(out.length == n * outT.size() && (outT.size() == 0 || out.elements() == n), what << ": " << out.length << " bytes, " << out.elements() << " elements, want " << n << " elements of " << outT.size() << " bytes");
        for (size_t i = 0; i < n * dim; i++)
        {
            const auto p = out.as<const uint8_t *>() + i * (outC ? 2 : 1) * primSize(outN);
            const long double re = readPrim(outN, p);
            const int wantRe = inC ? valueOf(2 * i) : valueOf(i);
            PBT_CHECK(re == wantRe, what << ": element " << i << " is " << (double)re << " want " << wantRe);
            if (outC) PBT_CHECK(readPrim(outN, p + primSize(outN)) == (inC ? valueOf(2 * i + 1) : 0), what << ": imaginary part of " << i);
        }
    };
    auto source = [&](void) { for (size_t i = 0; i < prims; i++) PBT_CHECK(readPrim(inN, whole.as<uint8_t *>() + i * primSize(inN)) == vals[i], "the source changed at " << i); };
    c.nontrivial = n > 0;
    if (dim > 1) c.tag("vector-elements");
    if (inC && !outC)
    {
        // complex to real: rejected by convert, split by convertComplex
        PBT_CHECK(throws<Pothos::BufferConvertError>([&](void) { in.convert(outT, give); }), "complex to real accepted by convert");
        BufferChunk o0(outT, n);
        PBT_CHECK(throws<Pothos::BufferConvertError>([&](void) { in.convert(o0, give); }), "complex to real accepted by convert(buffer)");
        auto checkParts = [&](const BufferChunk &re, const BufferChunk &im)
        {
            for (size_t i = 0; i < n * dim; i++)
            {
                PBT_CHECK(readPrim(outN, re.as<const uint8_t *>() + i * primSize(outN)) == valueOf(2 * i), "real part " << i);
                PBT_CHECK(readPrim(outN, im.as<const uint8_t *>() + i * primSize(outN)) == valueOf(2 * i + 1), "imaginary part " << i);
            }
        };
        const auto p = in.convertComplex(outT, give);
        PBT_CHECK(p.first.dtype == outT && p.second.dtype == outT && p.first.length == n * outT.size() && p.second.length == n * outT.size(), "split: " << p.first.elements() << " and " << p.second.elements() << " elements, want " << n);
        checkParts(p.first, p.second);
        BufferChunk re(outT, n + 1), im(outT, n);
        const size_t r = in.convertComplex(re, im, give);
        PBT_CHECK(r == n, "convertComplex(buffers) returned " << r << " want " << n);
        checkParts(re, im);
        if (n > 0)
        {
            BufferChunk small(outT, n - 1);
            PBT_CHECK(throws<Pothos::BufferConvertError>([&](void) { in.convertComplex(small, im, give); }) && throws<Pothos::BufferConvertError>([&](void) { in.convertComplex(re, small, give); }), "too small output accepted");
        }
        BufferChunk other(DType(outN == "int8" ? "int16" : "int8", dim), n + 1);
        PBT_CHECK(throws<Pothos::BufferConvertError>([&](void) { in.convertComplex(re, other, give); }), "mixed output types accepted");
        c.tag("complex-split");
    }
    else
    {
        const auto out = in.convert(outT, give);
        // an unsigned/signed pair of the same width shares the bytes; the values here are representable in both
        checkOut(out, "convert");
        BufferChunk dst(outT, n + size_t(s.range(0, 2)));
        const size_t r = in.convert(dst, give);
        PBT_CHECK(r == n, "convert(buffer) returned " << r << " want " << n);
        auto d2 = dst; d2.setElements(n);
        checkOut(d2, "convert(buffer)");
        if (n > 0) { BufferChunk small(outT, n - 1); PBT_CHECK(throws<Pothos::BufferConvertError>([&](void) { in.convert(small, give); }), "too small output accepted"); }
        PBT_CHECK(inC || throws<Pothos::BufferConvertError>([&](void) { in.convertComplex(DType(outN, dim), give); }), "splitting a real buffer accepted");
        c.tag(inC ? "complex-complex" : outC ? "real-complex" : "real-real");
    }
    // unsupported types
    PBT_CHECK(throws<Pothos::BufferConvertError>([&](void) { in.convert(DType("custom", 3)); }), "conversion to custom accepted");
    source();
}

static void append(Case &c)
{
    auto &s = c.s;
    const size_t k = size_t(s.range(1, 4));
    struct B { BufferChunk b; std::string want; };
    std::vector<B> bs;
    for (size_t i = 0; i < k; i++)
    {
        B x;
        const int kind = int(s.draw(3));
        if (kind == 0) { bs.push_back(x); c.desc << "null "; continue; }
        const DType t(s.pick(reals), size_t(s.range(1, 2)));
        const size_t n = size_t(s.small(0, 60));
        if (kind == 3)
        {
            // a chunk that runs over the end of its own (circular) buffer
            auto sb = Pothos::SharedBuffer::makeCirc(100);
            const size_t L = sb.getLength();
            for (size_t j = 0; j < L; j++) ((uint8_t *)sb.getAddress())[j] = uint8_t(j * 3 + i);
            x.b = BufferChunk(sb, t);
            const size_t off = L - size_t(s.range(0, 40)); x.b.address += off; x.b.length = n * t.size();
            for (size_t j = 0; j < x.b.length; j++) x.want += char(uint8_t(((off + j) % L) * 3 + i));
            c.desc << "circ[" << n << "] ";
        }
        else
        {
            x.b = BufferChunk(t, n + 4);
            const size_t lead = size_t(s.range(0, 3));
            for (size_t j = 0; j < x.b.length; j++) x.b.as<uint8_t *>()[j] = uint8_t(j * 5 + i * 50);
            x.b.address += lead; x.b.length = n * t.size();
            x.want = std::string(x.b.as<const char *>(), x.b.length);
            c.desc << t.toString() << "[" << n << "] ";
        }
        bs.push_back(x);
    }
    const size_t nops = size_t(s.range(1, 6)); size_t real = 0;
    for (size_t o = 0; o < nops; o++)
    {
        const size_t i = size_t(s.draw(k - 1)), j = size_t(s.draw(k - 1));
        auto &a = bs[i], &b = bs[j];
        if (s.chance(1, 4))
        {
            c.desc << i << "=" << j << " "; a.b = b.b; a.want = b.want;
            PBT_CHECK(a.b == b.b && a.b.dtype == b.b.dtype, "assignment");
        }
        else if (s.chance(1, 6)) { c.desc << "clear " << i << " "; a.b.clear(); a.want.clear(); PBT_CHECK(!bool(a.b) && a.b.length == 0, "clear"); }
        else
        {
            c.desc << i << "+=" << j << " ";
            const bool wasNull = !bool(a.b); const auto t = wasNull ? b.b.dtype : a.b.dtype;
            if (a.want.size() && b.want.size()) real++;
            const auto add = b.want;
            a.b.append(b.b);
            a.want = wasNull ? add : a.want + add;
            if (bool(a.b)) PBT_CHECK(a.b.dtype == t, "append changed the type to " << a.b.dtype.toString() << " want " << t.toString());
        }
        for (auto &x : bs) PBT_CHECK(std::string(x.b.as<const char *>(), x.b.length) == x.want, "bytes differ, length " << x.b.length << " want " << x.want.size());
    }
    c.nontrivial = real > 0;
}

PBT_MAIN("C13", {{"convert", 3, convert}, {"append", 1, append}})
