// Powers of two, alignment, arithmetic shift and integer power.
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>
namespace
{
	template<typename T> constexpr S top = W<T> - 1 - std::is_signed_v<T>; // position of the highest power of two
	template<typename T> T pot(S p) { return static_cast<T>(Un<T>(1) << p); }
	template<typename T> void round() { nz_check(Nz::RoundToPow2(T(1)) == 1, "1 is a power of two"); S p = nz_pick(top<T>); T v = static_cast<T>(withtop<T>(p) + 1); nz_check(Nz::RoundToPow2(v) == pot<T>(p + 1), "the least power of two not below"); }
	template<typename T> void nearest() { nz_check(Nz::GetNearestPowerOfTwo(T(0)) == 1 && Nz::GetNearestPowerOfTwo(T(1)) == 1, "1 is a power of two"); S p = nz_pick(top<T>); T v = static_cast<T>(withtop<T>(p) + 1); nz_check(Nz::GetNearestPowerOfTwo(v) == pot<T>(p + 1), "the least power of two not below"); }
	template<typename T> void ispow2() { S p = nz_pick(top<T> + 1); nz_check(Nz::IsPow2(pot<T>(p)), "powers of two are accepted"); }
	template<typename T> void isnot2() { S p = nz_pick(top<T>); for (S q = p + 1; q <= top<T>; ++q) nz_check(!Nz::IsPow2(static_cast<T>((withlow<T>(p) | (Un<T>(1) << q)) & (~Un<T>(0) >> std::is_signed_v<T>))), "other values are rejected"); }
	// last: offset + alignment - 1, any value that does not overflow
	template<typename T> constexpr std::uint64_t maxof = static_cast<std::uint64_t>(static_cast<Un<T>>(~Un<T>(0))) >> std::is_signed_v<T>;
	template<typename T> T last(T a) { S x = nz_any_size(); nz_assume(x <= maxof<T>); nz_assume(x >= static_cast<S>(a - 1)); return static_cast<T>(x); }
	template<typename T> void alignpow2() { S p = nz_pick(top<T>); T a = pot<T>(p), x = last<T>(a), o = static_cast<T>(x - (a - 1)); nz_check(Nz::AlignPow2(o, a) == static_cast<T>(static_cast<Un<T>>(static_cast<Un<T>>(x) >> p) << p), "the least multiple of the alignment not below"); }
	template<typename T> void alignbypow2() { S p = nz_pick(top<T>); T a = pot<T>(p), x = last<T>(a), o = static_cast<T>(x - (a - 1)); nz_check(Nz::Align(o, a) == static_cast<T>(static_cast<Un<T>>(static_cast<Un<T>>(x) >> p) << p), "both ways to align agree"); }
	template<typename T> void align() { S k = nz_pick(24); T a = static_cast<T>(k < 20 ? k + 1 : k == 20 ? 24 : k == 21 ? 60 : k == 22 ? 100 : 127), x = last<T>(a), o = static_cast<T>(x - (a - 1)); nz_check(Nz::Align(o, a) == static_cast<T>(x - x % a), "the least multiple of the alignment not below"); }
	// narrow types: every offset (8 bits), or those around the first, a middle and the last multiples (16 bits)
	template<typename T> bool least(S r, S o, S a) { return r >= o && r - o < a && r % a == 0; }
	template<typename T, typename F> void offsets(S a, F f)
	{
		S m = static_cast<S>(maxof<T>) - (a - 1);
		if (sizeof(T) == 1) { for (S o = 0; o <= m; ++o) f(static_cast<T>(o), o); return; }
		for (S c : { S(0), a, 2 * a, m / 2 / a * a, m / a * a, m }) for (S d = 0; d < 5; ++d) { S o = c + d - 2; if (o <= m) f(static_cast<T>(o), o); }
	}
	template<typename T> void nalignpow2() { S p = nz_pick(top<T>), a = S(1) << p; offsets<T>(a, [&](T o, S s) { T r = Nz::AlignPow2(o, static_cast<T>(a)); nz_check(least<T>(static_cast<S>(r), s, a), "the least multiple of the alignment not below"); nz_check(Nz::Align(o, static_cast<T>(a)) == r, "both ways to align agree"); }); }
	template<typename T> void nalign() { S k = nz_pick(24), a = k < 20 ? k + 1 : k == 20 ? 24 : k == 21 ? 60 : k == 22 ? 100 : 127; offsets<T>(a, [&](T o, S s) { nz_check(least<T>(static_cast<S>(Nz::Align(o, static_cast<T>(a))), s, a), "the least multiple of the alignment not below"); }); }
	template<typename T, typename U> void shiftby() { T v = any<T>(); S k = nz_pick(W<T>); T r = Nz::ArithmeticRightShift(v, static_cast<U>(k)); for (S i = 0; i < W<T>; ++i) nz_check(bitof(r, i) == (i + k < W<T> ? bitof(v, i + k) : std::is_signed_v<T> ? bitof(v, W<T> - 1) : false), "an arithmetic shift keeps the sign"); }
	template<typename T> void shift() { shiftby<T, int>(); }
	template<typename T> void ushift() { shiftby<T, unsigned long>(); }
	template<typename T> void bshift() { shiftby<T, unsigned char>(); }
	template<typename T> void powsmall() { S b = nz_pick(7), e = nz_pick(8); if (b > 3 && e > 2) return; if (b == 3 && e > 4) return; if (b == 2 && e > 6) return; long long m = 1; for (S i = 0; i < e; ++i) m *= static_cast<long long>(b); nz_check(Nz::IntegralPow(static_cast<T>(b), static_cast<unsigned>(e)) == static_cast<T>(m), "base to the power of the exponent"); }
	template<typename T> void pow() { Un<T> b = anyu<T>(); nz_check(Nz::IntegralPow(b, 0) == 1 && Nz::IntegralPow(b, 1) == b, "powers 0 and 1"); nz_check(Nz::IntegralPow(b, 2) == static_cast<Un<T>>(b * b), "the square"); S e = nz_pick(W<T>); nz_check(Nz::IntegralPow(Un<T>(2), static_cast<unsigned>(e)) == static_cast<Un<T>>(Un<T>(1) << e), "powers of two"); }
}
EACH_INT(INT_ENTRY, round) EACH_INT(INT_ENTRY, nearest) EACH_INT(INT_ENTRY, ispow2) EACH_INT(INT_ENTRY, isnot2) EACH_WIDE(INT_ENTRY, alignpow2) EACH_WIDE(INT_ENTRY, alignbypow2) EACH_WIDE(INT_ENTRY, align) EACH_NARROW(INT_ENTRY, nalignpow2) EACH_NARROW(INT_ENTRY, nalign) EACH_INT(INT_ENTRY, shift) EACH_INT(INT_ENTRY, ushift) EACH_INT(INT_ENTRY, bshift) EACH_INT(INT_ENTRY, powsmall) EACH_INT(INT_ENTRY, pow)
