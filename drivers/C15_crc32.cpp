#include "nz.hpp"
#include <NazaraUtils/Hash.hpp>
using S = std::size_t;
namespace
{
	// the definition: reflected IEEE polynomial, bit by bit, initial and final complement
	std::uint32_t step(std::uint32_t crc, std::uint8_t byte)
	{
		crc ^= byte;
		for (int k = 0; k < 8; ++k)
			crc = (crc >> 1) ^ (0xEDB88320u & (0u - (crc & 1u)));
		return crc;
	}
	std::uint32_t crc(const unsigned char* p, S n)
	{
		std::uint32_t c = 0xFFFFFFFFu;
		for (S i = 0; i < n; ++i) c = step(c, p[i]);
		return ~c;
	}
}
extern "C" {
	void d_buffer_any() { S n = nz_any_size(); auto* b = static_cast<unsigned char*>(nz_raw(n, 1, "b")); nz_check(Nz::CRC32(b, n) == crc(b, n), "CRC-32 of a buffer of any length"); }
	void d_view_any() { S n = nz_any_size(); auto* b = static_cast<unsigned char*>(nz_raw(n, 1, "b")); nz_check(Nz::CRC32(std::string_view(reinterpret_cast<const char*>(b), n)) == crc(b, n), "CRC-32 of a view of any length"); }
	void d_cstr_any() { S n = nz_any_size(); const char* b = nz_cstr(n, "b"); nz_check(Nz::CRC32(b) == crc(reinterpret_cast<const unsigned char*>(b), n), "CRC-32 of a string of any length"); }
	void d_hash_any() { S n = nz_any_size(); auto* b = static_cast<unsigned char*>(nz_raw(n, 1, "b")); const unsigned char* p = b; nz_check(Nz::CRC32Hash{}(p, n) == crc(b, n) && Nz::CRC32Hash{}(std::string_view(reinterpret_cast<const char*>(b), n)) == crc(b, n), "the hash functor gives the same value"); }
	void d_hash_cstr() { S n = nz_any_size(); const char* b = nz_cstr(n, "b"); nz_check(Nz::CRC32Hash{}(b) == crc(reinterpret_cast<const unsigned char*>(b), n), "the hash functor gives the same value for a string"); }
	void d_buffer_short() { S n = nz_pick(5); auto* b = static_cast<unsigned char*>(nz_raw(n, 1, "b")); nz_check(Nz::CRC32(b, n) == crc(b, n), "CRC-32 of a short buffer"); }
	void d_view_short() { S n = nz_pick(5); auto* b = static_cast<unsigned char*>(nz_raw(n, 1, "b")); nz_check(Nz::CRC32(std::string_view(reinterpret_cast<const char*>(b), n)) == crc(b, n), "CRC-32 of a short view"); }
	void d_cstr_short() { S n = nz_pick(5); const char* b = nz_cstr(n, "b"); nz_check(Nz::CRC32(b) == crc(reinterpret_cast<const unsigned char*>(b), n), "CRC-32 of a short string"); }
	void d_default_view() { nz_check(Nz::CRC32(std::string_view()) == 0, "CRC-32 of nothing"); }
}
