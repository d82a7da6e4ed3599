// Bit scans, population count, bit reversal and integer logarithms of every integer type.
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>
namespace
{
	template<typename T> void first() { nz_check(Nz::FindFirstBit(T(0)) == 0, "no bit is set in 0"); S p = nz_pick(W<T>); nz_check(Nz::FindFirstBit(withlow<T>(p)) == p + 1, "the first set bit"); }
	template<typename T> void last() { nz_check(Nz::FindLastBit(T(0)) == 0, "no bit is set in 0"); S p = nz_pick(W<T>); nz_check(Nz::FindLastBit(withtop<T>(p)) == p + 1, "the last set bit"); }
	template<typename T> void reverse() { T v = any<T>(); T r = Nz::ReverseBits(v); for (S i = 0; i < W<T>; ++i) nz_check(bitof(r, W<T> - 1 - i) == bitof(v, i), "bit i becomes bit n-1-i"); nz_check(Nz::ReverseBits(r) == v, "reversing twice gives the value back"); }
	template<typename T> void log2() { nz_check(Nz::IntegralLog2(T(0)) == 0, "the logarithm of 0 is 0"); S p = nz_pick(W<T>); if (std::is_signed_v<T> && p == W<T> - 1) return; nz_check(Nz::IntegralLog2(withtop<T>(p)) == p, "the logarithm is the highest set bit"); }
	template<typename T> void log2c() { S p = nz_pick(W<T> - std::is_signed_v<T>), k = nz_pick(3); Un<T> low = below<T>(p); nz_check(Nz::IntegralLog2(static_cast<T>((Un<T>(1) << p) | (k == 0 ? Un<T>(0) : k == 1 ? low : static_cast<Un<T>>(low / 3)))) == p, "the logarithm is the highest set bit"); }
	template<typename T> void log2pot() { nz_check(Nz::IntegralLog2Pot(T(0)) == 0, "the logarithm of 0 is 0"); S p = nz_pick(W<T>); if (std::is_signed_v<T> && p == W<T> - 1) return; nz_check(Nz::IntegralLog2Pot(static_cast<T>(T(1) << p)) == p, "the logarithm of a power of two"); }
#ifndef NZ_CONSTEVAL
	template<typename T> void count() { T v = any<T>(); S n = 0; for (S i = 0; i < W<T>; ++i) n += (static_cast<Un<T>>(v) >> i) & 1; nz_check(Nz::CountBits(v) == n, "the number of set bits"); }
#else // clears one bit per iteration: every 8 bit value, runs of every length at the bottom, in the middle and at the top, and with a hole in it
	template<typename T> void count()
	{
		Un<T> v; S n;
		if (sizeof(T) == 1) { S k = nz_pick(256); v = static_cast<Un<T>>(k); n = 0; for (S i = 0; i < 8; ++i) n += (k >> i) & 1; }
		else
		{
			S len = nz_pick(W<T> + 1), at = len == 0 || len == W<T> ? 0 : nz_pick(3) * ((W<T> - len) / 2);
			v = len == W<T> ? static_cast<Un<T>>(~Un<T>(0)) : static_cast<Un<T>>(below<T>(len) << at); n = len;
			if (len > 2) { nz_check(Nz::CountBits(static_cast<T>(v ^ (Un<T>(1) << (at + len / 2)))) == n - 1, "the number of set bits"); }
		}
		nz_check(Nz::CountBits(static_cast<T>(v)) == n, "the number of set bits");
	}
#endif
}
EACH_INT(INT_ENTRY, first) EACH_INT(INT_ENTRY, last) EACH_INT(INT_ENTRY, reverse) EACH_INT(INT_ENTRY, log2) EACH_INT(INT_ENTRY, log2c) EACH_INT(INT_ENTRY, log2pot) EACH_INT(INT_ENTRY, count)
