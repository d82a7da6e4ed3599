#include "nz.hpp"
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <string>
using S = std::size_t;
namespace
{
	// the published definition: xor with the byte, then multiply by the prime
	template<typename T> T fnv(const unsigned char* p, S n)
	{
		T h = sizeof(T) == 4 ? static_cast<T>(2166136261u) : static_cast<T>(14695981039346656037ull);
		for (S i = 0; i < n; ++i) { h ^= p[i]; h *= sizeof(T) == 4 ? static_cast<T>(16777619u) : static_cast<T>(1099511628211ull); }
		return h;
	}
	const char* chars(const unsigned char* p) { return reinterpret_cast<const char*>(p); }
	const unsigned char* bytes(const char* p) { return reinterpret_cast<const unsigned char*>(p); }
	struct Raw { unsigned char* b; S n; Raw(S k) : b(static_cast<unsigned char*>(nz_raw(k, 1, "b"))), n(k) {} std::string_view sv() const { return std::string_view(chars(b), n); } };
}
#define BOTH(F, H, U, X) \
	void d_buffer_any_##X() { Raw r(nz_any_size()); nz_check(Nz::F(r.b, r.n) == fnv<U>(r.b, r.n), "FNV-1a of a buffer of any length"); } \
	void d_view_any_##X() { Raw r(nz_any_size()); nz_check(Nz::F(r.sv()) == fnv<U>(r.b, r.n), "FNV-1a of a view of any length"); } \
	void d_cstr_any_##X() { S n = nz_any_size(); const char* b = nz_cstr(n, "b"); nz_check(Nz::F(b) == fnv<U>(bytes(b), n), "FNV-1a of a string of any length"); } \
	void d_hash_any_##X() { Raw r(nz_any_size()); const unsigned char* p = r.b; nz_check(Nz::H{}(p, r.n) == fnv<U>(r.b, r.n) && Nz::H{}(r.sv()) == fnv<U>(r.b, r.n), "the hash functor gives the same value"); } \
	void d_hash_cstr_##X() { S n = nz_any_size(); const char* b = nz_cstr(n, "b"); nz_check(Nz::H{}(b) == fnv<U>(bytes(b), n), "the hash functor gives the same value for a string"); } \
	void d_buffer_short_##X() { Raw r(nz_pick(5)); nz_check(Nz::F(r.b, r.n) == fnv<U>(r.b, r.n), "FNV-1a of a short buffer"); } \
	void d_view_short_##X() { Raw r(nz_pick(5)); nz_check(Nz::F(r.sv()) == fnv<U>(r.b, r.n), "FNV-1a of a short view"); } \
	void d_cstr_short_##X() { S n = nz_pick(5); const char* b = nz_cstr(n, "b"); nz_check(Nz::F(b) == fnv<U>(bytes(b), n), "FNV-1a of a short string"); } \
	void d_empty_##X() { nz_check(Nz::F(std::string_view()) == fnv<U>(nullptr, 0), "FNV-1a of nothing"); }
extern "C" {
	BOTH(FNV1a32, FNV1a32Hash, std::uint32_t, 32)
	BOTH(FNV1a64, FNV1a64Hash, std::uint64_t, 64)
	void d_stringhash_any() { S n = nz_any_size(); const char* b = nz_cstr(n, "b"); Nz::StringHash<> h; nz_check(h(b) == h(std::string_view(b, n)), "a string and a view of it have equal hashes"); }
#define SHORT(N) void d_stringhash_short##N() \
	{ \
		S n = N; const char* b = nz_cstr(n, "b"); Nz::StringHash<> h; std::string s(b); std::string_view v(s); \
		S x = h(b); nz_check(x == h(s), "a string object has the hash of its characters"); nz_check(x == h(v), "a view has the same hash"); nz_check(x == h(std::string_view(b, n)), "a view of the characters has the same hash"); \
		nz_check(x == std::hash<std::string>{}(s), "the hash is the standard one"); \
	}
	SHORT(0) SHORT(1) SHORT(2) SHORT(3) SHORT(15) SHORT(16) SHORT(20)
	void d_stringhash_wide()
	{
		S n = nz_pick(3); char16_t t[4] = {}; for (S i = 0; i < n; ++i) { t[i] = static_cast<char16_t>(nz_any_u16()); nz_assume(t[i] != 0); }
		Nz::StringHash<char16_t> h; std::u16string s(t, n); S x = h(t); nz_check(x == h(s) && x == h(std::u16string_view(t, n)), "equal strings have equal hashes");
	}
	void d_combine()
	{ // combining is a function of the standard hashes of its operands, in order
		const std::uint64_t a = nz_any_u64(), b = nz_any_u64(), c = nz_any_u64(); S s = a; Nz::HashCombine(s, b);
		const std::uint64_t m = 0x9ddfea08eb382d69ull; std::uint64_t x = (b ^ a) * m; x ^= x >> 47; std::uint64_t y = (a ^ x) * m; y ^= y >> 47; y *= m;
		nz_check(s == y, "combining with one value");
		nz_check(Nz::HashCombine(a) == a, "the combination of one value is its hash");
		nz_check(Nz::HashCombine(a, b) == s, "the combination of two values");
		S t = b; Nz::HashCombine(t, c); S u = a; Nz::HashCombine(u, t); nz_check(Nz::HashCombine(a, b, c) == u, "the combination of three values");
	}
	void d_functor() { Raw r(nz_pick(4)); const unsigned char* p = r.b; nz_check(Nz::HashFunctor<Nz::FNV1a32Hash>{}(p, r.n) == fnv<std::uint32_t>(p, r.n), "the functor adapter widens the value"); nz_check(Nz::HashFunctor<Nz::FNV1a64Hash>{}(r.sv()) == fnv<std::uint64_t>(p, r.n), "the functor adapter returns the value"); }
}
