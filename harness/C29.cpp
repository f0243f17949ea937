// C29: fixed-point helpers against exact power-of-two arithmetic.
#include "common.hpp"
#include <Pothos/Util/QFormat.hpp>
using namespace pbt;
using namespace Pothos::Util;

template <typename T> T anyInt(Src &s)
{
    typedef typename std::make_unsigned<T>::type U;
    const unsigned bits = sizeof(T) * 8;
    switch (s.draw(3))
    {
    case 0: return T(U(s.small(0, 300)) * (s.flip() ? 1 : -1));
    case 1: return T(U(s.draw(~0ull)));
    case 2: return T(U((U(1) << s.draw(bits - 1)) + U(s.range(0, 4)) - 2));
    default: return s.flip() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    }
}

// floor(v / 2^n), computed in wide arithmetic
static __int128 floorShift(__int128 v, int n)
{
    const __int128 d = (__int128)1 << n;
    __int128 q = v / d;
    if (v % d != 0 && v < 0) q--;
    return q;
}

template <typename U, typename T>
static void fromInt(Case &c, const char *name)
{
    auto &s = c.s;
    const int bits = sizeof(U) * 8;
    const bool def = s.chance(1, 4);
    const int n = def ? bits / 2 : int(s.range(0, bits - 1));
    const U a = anyInt<U>(s), b = anyInt<U>(s);
    c.desc << name << " fromQ n=" << n << (def ? " (default)" : "") << " " << (long long)a << "," << (long long)b;
    const T ra = def ? fromQ<T>(a) : fromQ<T>(a, n);
    PBT_CHECK(ra == T(floorShift(a, n)), "fromQ(" << (long long)a << ", " << n << ") = " << (long long)ra);
    const auto rc = def ? fromQ<std::complex<T>>(std::complex<U>(a, b)) : fromQ<std::complex<T>>(std::complex<U>(a, b), n);
    PBT_CHECK(rc.real() == T(floorShift(a, n)) && rc.imag() == T(floorShift(b, n)), "complex fromQ");
    c.nontrivial = n > 0 && a != 0;
    if (a < 0) c.tag("negative");
}

template <typename F, typename T>
static void floatQ(Case &c, const char *name)
{
    auto &s = c.s;
    const int bits = sizeof(T) * 8;
    const bool def = s.chance(1, 4);
    const int n = def ? bits / 2 : int(s.range(0, bits - 2));
    const int mant = std::numeric_limits<F>::digits;
    // q is an integer that F holds exactly; in = q / 2^n exactly
    auto gen = [&](void)
    {
        const int w = std::min(mant, bits - 1);
        long long q = (long long)(s.draw((1ull << w) - 1));
        if (s.flip()) q = s.small(0, std::min<long long>(1000, (1ll << w) - 1));
        if (s.flip()) q = -q;
        return q;
    };
    const long long qa = gen(), qb = gen();
    // optionally add a fraction below one step: the result is then truncated or rounded by at most one step
    const bool exact = s.chance(3, 4);
    const F fa = F(std::ldexp((long double)qa, -n)), fb = F(std::ldexp((long double)qb, -n));
    c.desc << name << " floatToQ n=" << n << (def ? " (default)" : "") << " q=" << qa << "," << qb << " exact=" << exact;
    if (exact)
    {
        const T ra = def ? floatToQ<T>(fa) : floatToQ<T>(fa, n);
        PBT_CHECK(ra == T(qa), "floatToQ(" << double(fa) << ", " << n << ") = " << (long long)ra << " want " << qa);
        typedef std::complex<T> CT;
        const CT rc = def ? floatToQ<CT>(std::complex<F>(fa, fb)) : floatToQ<CT>(std::complex<F>(fa, fb), n);
        PBT_CHECK(rc.real() == T(qa) && rc.imag() == T(qb), "complex floatToQ = " << (long long)rc.real() << "," << (long long)rc.imag());
        // back to an integer drops the fractional bits
        const T back = def ? fromQ<T>(ra) : fromQ<T>(ra, n);
        PBT_CHECK(back == T(floorShift(qa, n)), "fromQ(floatToQ) = " << (long long)back);
    }
    else
    {
        const long long q = qa / 4;
        const F f = F(std::ldexp((long double)q + 0.25L, -n));
        if (std::ldexp((long double)f, n) == (long double)q + 0.25L)
        {
            const T r = floatToQ<T>(f, n);
            PBT_CHECK((long long)r >= q - 1 && (long long)r <= q + 1, "floatToQ fraction: " << (long long)r << " for " << q << "+1/4");
        }
    }
    c.nontrivial = n > 0 && qa != 0;
}

template <typename A, typename B>
static void passThrough(Case &c)
{
    auto &s = c.s;
    const A a = A(double(s.range(-1000000, 1000000)) / 64), b = A(double(s.range(-1000000, 1000000)) / 64);
    const int n = int(s.range(0, 31));
    c.desc << "float pass-through " << double(a) << " n=" << n;
    PBT_CHECK((fromQ<B>(a, n)) == B(a) && (fromQ<B>(a)) == B(a), "fromQ of a float changed it");
    PBT_CHECK((floatToQ<B>(a, n)) == B(a) && (floatToQ<B>(a)) == B(a), "floatToQ to a float changed it");
    typedef std::complex<B> CB;
    const std::complex<A> ca(a, b);
    const CB want = CB(B(a), B(b));
    PBT_CHECK((fromQ<CB>(ca, n)) == want && (fromQ<CB>(ca)) == want, "fromQ complex float");
    PBT_CHECK((floatToQ<CB>(ca, n)) == want && (floatToQ<CB>(ca)) == want, "floatToQ complex float");
    c.nontrivial = a != A(0) && n > 0;
}

static void fromQSub(Case &c)
{
    switch (c.s.draw(11))
    {
    case 0: return fromInt<signed char, signed char>(c, "i8->i8");
    case 1: return fromInt<short, short>(c, "i16->i16");
    case 2: return fromInt<int, int>(c, "i32->i32");
    case 3: return fromInt<long long, long long>(c, "i64->i64");
    case 4: return fromInt<long long, int>(c, "i64->i32");
    case 5: return fromInt<int, short>(c, "i32->i16");
    case 6: return fromInt<short, signed char>(c, "i16->i8");
    case 7: return fromInt<unsigned, unsigned>(c, "u32->u32");
    case 8: return fromInt<unsigned short, unsigned char>(c, "u16->u8");
    case 9: return fromInt<int, double>(c, "i32->f64");
    case 10: return fromInt<short, float>(c, "i16->f32");
    default: return fromInt<unsigned char, short>(c, "u8->i16");
    }
}
static void toQSub(Case &c)
{
    switch (c.s.draw(6))
    {
    case 0: return floatQ<double, int>(c, "f64->i32");
    case 1: return floatQ<double, short>(c, "f64->i16");
    case 2: return floatQ<double, signed char>(c, "f64->i8");
    case 3: return floatQ<double, long long>(c, "f64->i64");
    case 4: return floatQ<float, int>(c, "f32->i32");
    case 5: return floatQ<float, short>(c, "f32->i16");
    default: return floatQ<float, signed char>(c, "f32->i8");
    }
}
static void passSub(Case &c)
{
    switch (c.s.draw(3))
    {
    case 0: return passThrough<double, double>(c);
    case 1: return passThrough<float, float>(c);
    case 2: return passThrough<float, double>(c);
    default: return passThrough<double, float>(c);
    }
}

PBT_MAIN("C29", {{"from_q", 4, fromQSub}, {"to_q", 4, toQSub}, {"pass_through", 1, passSub}})
