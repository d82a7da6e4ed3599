// Flag sets of enumerations whose values need 8, 16, 32 and 64 bits, with flags at bit positions and flags that are the bits.
#include "nz.hpp"
#include <NazaraUtils/Flags.hpp>
#include <type_traits>
using S = std::size_t;
#define ENUM(N) enum class E##N : unsigned { First = 0, Last = N - 1 }; template<> struct Nz::EnumAsFlags<E##N> { static constexpr E##N max = E##N::Last; };
ENUM(1) ENUM(3) ENUM(8) ENUM(9) ENUM(16) ENUM(17) ENUM(32) ENUM(33) ENUM(63) ENUM(64)
namespace local
{
	enum class C { A, B, C, D, Count };
	constexpr bool EnableEnumAsNzFlags(C) { return true; }
	enum class M { A, B, Max = B };
	constexpr bool EnableEnumAsNzFlags(M) { return true; }
	enum class V3 : unsigned { A = 1, B = 2, C = 4, Max = C };
	constexpr bool EnableEnumAsNzFlags(V3) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(V3) { return false; }
	enum class V7 : unsigned { A = 1, G = 64, Max = G };
	constexpr bool EnableEnumAsNzFlags(V7) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(V7) { return false; }
	enum class V32 : unsigned { A = 1, Last = 1u << 31, Max = Last };
	constexpr bool EnableEnumAsNzFlags(V32) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(V32) { return false; }
	enum class V40 : unsigned long long { A = 1, Last = 1ull << 39, Max = Last };
	constexpr bool EnableEnumAsNzFlags(V40) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(V40) { return false; }
}
namespace
{
	template<typename E, S N, bool Auto = true> struct T
	{
		using F = Nz::Flags<E>; using B = typename F::BitField;
		static_assert(std::is_unsigned_v<B> && sizeof(B) * 8 >= N);
		static constexpr std::uint64_t all = N == 64 ? ~std::uint64_t(0) : (std::uint64_t(1) << (N % 64)) - 1;
		static E at(S i) { if constexpr (Auto) return static_cast<E>(i); else return static_cast<E>(std::uint64_t(1) << i); }
		static std::uint64_t bit(S i) { return std::uint64_t(1) << i; }
		static F any() { return F(static_cast<B>(nz_any_u64() & all)); }
		static std::uint64_t val(F f) { return static_cast<std::uint64_t>(f); }
		static void one() { S i = nz_pick(N); F f(at(i)); nz_check(val(f) == bit(i), "a single enumerator is its own bit"); nz_check(F::GetFlagValue(at(i)) == bit(i), "the value of an enumerator is its own bit"); nz_check(f.Count() == 1 && f.size() == 1, "a set of one element"); nz_check(*f.begin() == at(i) && ++f.begin() == f.end(), "iteration over one element"); }
		static void build() { S i = nz_pick(N), j = nz_pick(3); j = j == 0 ? 0 : j == 1 ? N / 2 : N - 1; F f = at(i) | at(j); nz_check(val(f) == (bit(i) | bit(j)), "union of two enumerators"); F g = at(i) & at(j); nz_check(val(g) == (bit(i) & bit(j)), "intersection of two enumerators"); F h = at(i) ^ at(j); nz_check(val(h) == (bit(i) ^ bit(j)), "difference of two enumerators"); F k = ~at(i); nz_check(val(k) == (all & ~bit(i)), "complement of an enumerator"); }
		static void ops()
		{
			F a = any(), b = any(); const std::uint64_t x = val(a), y = val(b);
			nz_check(val(a | b) == (x | y), "union"); nz_check(val(a & b) == (x & y), "intersection"); nz_check(val(a ^ b) == (x ^ y), "symmetric difference"); nz_check(val(~a) == (all & ~x), "complement is relative to the enumeration");
			nz_check(val(~~a) == x, "complementing twice changes nothing"); nz_check(val(a) == x && val(b) == y, "operands are left alone");
			F c(a); c |= b; nz_check(val(c) == (x | y), "in-place union"); F d(a); d &= b; nz_check(val(d) == (x & y), "in-place intersection"); F e(a); e ^= b; nz_check(val(e) == (x ^ y), "in-place symmetric difference");
			F s(a); s.Set(b); nz_check(val(s) == (x | y), "setting flags"); F t(a); t.Clear(b); nz_check(val(t) == (x & ~y), "clearing flags"); F z(a); z.Clear(); nz_check(val(z) == 0, "clearing everything");
			nz_check(val(F()) == 0, "no flags by default");
		}
		static void cmp()
		{
			F a = any(), b = any(); const std::uint64_t x = val(a), y = val(b);
			nz_check(a.Test(b) == ((y & ~x) == 0), "testing is inclusion"); nz_check((a == b) == (x == y), "equality"); nz_check((a != b) == !(a == b), "inequality"); nz_check(static_cast<bool>(a) == (x != 0), "emptiness");
			nz_check(F(static_cast<B>(x)) == a, "conversion to an integer and back"); nz_check(static_cast<B>(a) == x, "conversion to the bit field type");
			F c(a); const std::hash<F> h{}; nz_check(h(c) == h(a), "equal sets have equal hashes"); nz_check(h(a) == std::hash<B>{}(static_cast<B>(x)), "the hash is that of the value");
		}
		static void with()
		{
			S i = nz_pick(N); F a = any(); const std::uint64_t x = val(a);
			nz_check(a.Test(at(i)) == (((x >> i) & 1) != 0), "testing an enumerator is membership");
			nz_check(val(a | at(i)) == (x | bit(i)) && val(at(i) | a) == (x | bit(i)), "adding an enumerator"); nz_check(val(a & at(i)) == (x & bit(i)) && val(at(i) & a) == (x & bit(i)), "restricting to an enumerator"); nz_check(val(a ^ at(i)) == (x ^ bit(i)) && val(at(i) ^ a) == (x ^ bit(i)), "toggling an enumerator");
			F s(a); s.Set(at(i)); nz_check(val(s) == (x | bit(i)), "setting an enumerator"); F t(a); t.Clear(at(i)); nz_check(val(t) == (x & ~bit(i)), "clearing an enumerator");
		}
		static void step()
		{ // one step of an iteration from a set whose least element is i
			S i = nz_pick(N); std::uint64_t r = (nz_any_u64() & all & ~((bit(i) << 1) - 1)); F a(static_cast<B>(r | bit(i)));
			auto it = a.begin(); nz_check(it != a.end(), "iteration over a non-empty set"); nz_check(*it == at(i), "iteration begins with the least element");
			auto old = it++; nz_check(*old == at(i), "post-increment returns the old position"); nz_check(it == F(static_cast<B>(r)).begin(), "each step drops the least element"); nz_check((it == a.end()) == (r == 0), "iteration ends after the last element");
			auto p = a.begin(); nz_check(++p == it, "both increments agree");
		}
		static void empty() { F f; nz_check(f.begin() == f.end(), "iterating over nothing"); nz_check(f.Count() == 0 && f.size() == 0, "nothing has size 0"); nz_check(!f, "nothing is false"); }
		static void count() { F a = any(); const std::uint64_t x = val(a); S n = 0; for (S i = 0; i < N; ++i) n += (x >> i) & 1; nz_check(a.Count() == n && a.size() == n, "the number of flags"); }
		static void mask() { nz_check(F::ValueMask == all, "the mask has a bit per enumerator"); }
	};
}
#define ALL(X, ...) extern "C" { void d_one_##X() { T<__VA_ARGS__>::one(); } void d_build_##X() { T<__VA_ARGS__>::build(); } void d_ops_##X() { T<__VA_ARGS__>::ops(); } void d_cmp_##X() { T<__VA_ARGS__>::cmp(); } void d_with_##X() { T<__VA_ARGS__>::with(); } void d_step_##X() { T<__VA_ARGS__>::step(); } void d_empty_##X() { T<__VA_ARGS__>::empty(); } void d_count_##X() { T<__VA_ARGS__>::count(); } void d_mask_##X() { T<__VA_ARGS__>::mask(); } }
ALL(1, E1, 1) ALL(3, E3, 3) ALL(8, E8, 8) ALL(9, E9, 9) ALL(16, E16, 16) ALL(17, E17, 17) ALL(32, E32, 32) ALL(33, E33, 33) ALL(63, E63, 63) ALL(64, E64, 64)
ALL(count, local::C, 4) ALL(max, local::M, 2) ALL(v3, local::V3, 3, false) ALL(v7, local::V7, 7, false) ALL(v32, local::V32, 32, false) ALL(v40, local::V40, 40, false)
