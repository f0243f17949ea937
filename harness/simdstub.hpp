// libsimdpp is absent here, so the harness provides the element loops (simdConvertBuffer) that the
// library would link; everything around them is the library's. Needs -rdynamic.
#pragma once
#include "SIMD/SIMDConvert.hpp"
#include <complex>
#include <cstdint>
template <typename A, typename B> struct SimdCast { static B f(const A &a) { return static_cast<B>(a); } };
template <typename A, typename B> struct SimdCast<std::complex<A>, std::complex<B>> { static std::complex<B> f(const std::complex<A> &a) { return std::complex<B>(static_cast<B>(a.real()), static_cast<B>(a.imag())); } };
template <typename InType, typename OutType>
void simdConvertBuffer(const void *in, void *out, size_t n)
{
    for (size_t i = 0; i < n; i++) ((OutType *)out)[i] = SimdCast<InType, OutType>::f(((const InType *)in)[i]);
}
#define SIMD_INST2(A, B) template void simdConvertBuffer<A, B>(const void *, void *, size_t); template void simdConvertBuffer<std::complex<A>, std::complex<B>>(const void *, void *, size_t);
#define SIMD_INST(A) SIMD_INST2(A, char) SIMD_INST2(A, int8_t) SIMD_INST2(A, uint8_t) SIMD_INST2(A, int16_t) SIMD_INST2(A, uint16_t) SIMD_INST2(A, int32_t) SIMD_INST2(A, uint32_t) SIMD_INST2(A, long) SIMD_INST2(A, unsigned long) SIMD_INST2(A, long long) SIMD_INST2(A, unsigned long long) SIMD_INST2(A, float) SIMD_INST2(A, double)
SIMD_INST(char) SIMD_INST(int8_t) SIMD_INST(uint8_t) SIMD_INST(int16_t) SIMD_INST(uint16_t) SIMD_INST(int32_t) SIMD_INST(uint32_t) SIMD_INST(long) SIMD_INST(unsigned long) SIMD_INST(long long) SIMD_INST(unsigned long long) SIMD_INST(float) SIMD_INST(double)
