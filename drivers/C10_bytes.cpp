// Byte swapping of every arithmetic type and of buffers, and conversions between byte orders.
#include "ints.hpp"
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/Algorithm.hpp>
namespace
{
	template<typename T> bool swapped(T v, T r) { bool ok = true; for (S i = 0; i < W<T>; ++i) ok &= bitof(r, (sizeof(T) - 1 - i / 8) * 8 + i % 8) == bitof(v, i); return ok; }
	template<typename T> void swap() { T v = any<T>(); T r = Nz::ByteSwap(v); nz_check(swapped<T>(v, r), "byte i becomes byte n-1-i"); nz_check(Nz::ByteSwap(r) == v, "swapping twice gives the value back"); }
	template<typename T> void endian()
	{
		T v = any<T>();
#ifdef NAZARA_BIG_ENDIAN
		nz_check(Nz::PlatformEndianness == Nz::Endianness::BigEndian, "the byte order of the platform");
		nz_check(Nz::BigEndianToHost(v) == v && Nz::HostToBigEndian(v) == v, "big endian is the order of the host");
		nz_check(swapped<T>(v, Nz::LittleEndianToHost(v)) && swapped<T>(v, Nz::HostToLittleEndian(v)), "little endian to and from the host swaps bytes");
#else
		nz_check(Nz::PlatformEndianness == Nz::Endianness::LittleEndian, "the byte order of the platform");
		nz_check(Nz::LittleEndianToHost(v) == v && Nz::HostToLittleEndian(v) == v, "little endian is the order of the host");
		nz_check(swapped<T>(v, Nz::BigEndianToHost(v)) && swapped<T>(v, Nz::HostToBigEndian(v)), "big endian to and from the host swaps bytes");
#endif
		nz_check(Nz::BigEndianToHost(Nz::HostToBigEndian(v)) == v && Nz::LittleEndianToHost(Nz::HostToLittleEndian(v)) == v, "converting back and forth gives the value back");
	}
}
EACH_INT(INT_ENTRY, swap) EACH_INT(INT_ENTRY, endian)
INT_ENTRY(wc, wchar_t, swap) INT_ENTRY(c16, char16_t, swap) INT_ENTRY(c32, char32_t, swap)
extern "C"
{
	void d_float() { std::uint32_t v = nz_any_u32(); float f = Nz::BitCast<float>(v); nz_check(swapped<std::uint32_t>(v, Nz::BitCast<std::uint32_t>(Nz::ByteSwap(f))), "floats are swapped bitwise"); }
	void d_double() { std::uint64_t v = nz_any_u64(); double f = Nz::BitCast<double>(v); nz_check(swapped<std::uint64_t>(v, Nz::BitCast<std::uint64_t>(Nz::ByteSwap(f))), "doubles are swapped bitwise"); }
	void d_float_endian()
	{
		std::uint32_t v = nz_any_u32(); float f = Nz::BitCast<float>(v);
		auto b = Nz::BitCast<std::uint32_t>(Nz::HostToBigEndian(f)), l = Nz::BitCast<std::uint32_t>(Nz::LittleEndianToHost(f));
#ifdef NAZARA_BIG_ENDIAN
		nz_check(b == v && swapped<std::uint32_t>(v, l), "conversions of floats");
#else
		nz_check(l == v && swapped<std::uint32_t>(v, b), "conversions of floats");
#endif
	}
	void d_buffer() // every length
	{
		S n = nz_any_small(); auto* b = static_cast<std::uint8_t*>(nz_raw(n, 1, "b"));
		Nz::SwapBytes(b, n);
		S i = nz_any_size(); nz_assume(i < n); nz_check(b[i] == nz_elem8("b", n - 1 - i), "bytes of the buffer are reversed");
	}
	void d_buffer_around() // bytes around the buffer
	{
		S n = nz_pick(12); std::uint8_t b[16], c[16]; for (S i = 0; i < 16; ++i) b[i] = c[i] = nz_any_u8();
		Nz::SwapBytes(b + 2, n);
		for (S i = 0; i < 16; ++i) nz_check(b[i] == (i < 2 || i >= 2 + n ? c[i] : c[2 + n - 1 - (i - 2)]), "the buffer is reversed and nothing else changes");
	}
}
