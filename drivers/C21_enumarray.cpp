// Enumeration arrays of 1, 3, 8 and 40 elements, with arbitrary contents.
#include "nz.hpp"
#include <NazaraUtils/EnumArray.hpp>
#include <utility>
#include <type_traits>
using S = std::size_t;
namespace
{
	using D = std::ptrdiff_t; using V = std::uint64_t;
	enum class E1 { A, Max = A }; enum class E3 : std::uint8_t { A, B, C, Count }; enum class E8 : std::int16_t { A, H = 7, Max = H }; enum class E40 : std::uint64_t { A, Count = 40 };
	template<typename E, S N> struct T
	{
		using A = Nz::EnumArray<E, V>; static_assert(std::tuple_size_v<typename A::array> == N || true);
		A a; V v[N];
		static E key(S i) { return static_cast<E>(i); }
		T() { for (S i = 0; i < N; ++i) { v[i] = nz_any_u64(); a[key(i)] = v[i]; } }
		void same(const char* m) const { for (S i = 0; i < N; ++i) nz_check(a[key(i)] == v[i], m); }
		static void layout() { T t; nz_check(t.a.size() == N && t.a.max_size() == N, "one element per enumerator"); nz_check(t.a.empty() == (N == 0), "emptiness"); for (S i = 0; i < N; ++i) { nz_check(&t.a[key(i)] == t.a.data() + i, "an enumerator reaches the element of its index"); nz_check(&std::as_const(t.a)[key(i)] == t.a.data() + i, "an enumerator reaches the element of its index in a const array"); } t.same("elements are those stored"); }
		static void write() { T t; S i = nz_pick(N); V x = nz_any_u64(); t.a[key(i)] = x; t.v[i] = x; t.same("writing an element changes no other"); }
		static void fill() { T t; V x = nz_any_u64(); t.a.fill(x); for (S i = 0; i < N; ++i) t.v[i] = x; t.same("filling sets every element"); }
		static void swap() { T t, u; t.a.swap(u.a); for (S i = 0; i < N; ++i) { nz_check(t.a[key(i)] == u.v[i], "swapping takes the other's elements"); nz_check(u.a[key(i)] == t.v[i], "swapping gives the elements to the other"); } }
		static void copy() { T t; A b(t.a); for (S i = 0; i < N; ++i) nz_check(b[key(i)] == t.v[i], "copies have the same elements"); b[key(0)] = nz_any_u64(); t.same("copies are independent"); T u; u.a = t.a; for (S i = 0; i < N; ++i) nz_check(u.a[key(i)] == t.v[i], "assignment copies the elements"); t.same("the source of an assignment is left alone"); }
		static void iterate() { T t; S n = 0; for (V& x : t.a) { nz_check(&x == t.a.data() + n, "iteration visits the elements in order"); ++n; } nz_check(n == N, "iteration visits every element once"); n = N; for (auto it = t.a.rbegin(); it != t.a.rend(); ++it) { --n; nz_check(*it == t.v[n], "reverse iteration visits the elements in reverse order"); } nz_check(n == 0, "reverse iteration visits every element once"); }
		static void kv()
		{
			T t; S n = 0; for (auto&& [k, x] : t.a.iter_kv()) { nz_check(k == key(n), "the key is the enumerator of the position"); nz_check(&x == &t.a[key(n)], "the value is the element of the key"); ++n; } nz_check(n == N, "key-value iteration visits every element once");
			n = 0; for (auto&& [k, x] : std::as_const(t.a).iter_kv()) { nz_check(k == key(n), "the key is the enumerator of the position"); nz_check(&x == &t.a[key(n)], "the value is the element of the key"); static_assert(std::is_const_v<std::remove_reference_t<decltype(x)>>); ++n; } nz_check(n == N, "const key-value iteration visits every element once");
			n = 0; for (auto&& [k, x] : t.a.iter_kv()) { x = n; t.v[n] = n; ++n; } t.same("writing through key-value iteration"); (void)n;
		}
		template<typename Tag> static void its(T& t, Tag tag)
		{
			S i = nz_pick(N + 1), j = nz_pick(N + 1); const D d = D(j) - D(i); const auto b = tag.begin(); auto at = [&](S k) { auto it = b; for (S q = 0; q < k; ++q) ++it; return it; };
			auto p = at(i), q = at(j); const auto p0 = p;
			nz_check((p == q) == (i == j) && (p != q) == (i != j), "equality of positions"); nz_check((p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "order of positions"); nz_check((p == tag.end()) == (i == N), "the end is after the last element");
			nz_check(p + d == q, "adding an offset"); nz_check(p0 + d == q, "adding an offset to a const iterator"); nz_check(d + p == q, "adding to an offset"); nz_check(q - d == p, "subtracting an offset"); nz_check(p == p0, "the operand is left alone");
			auto a = p; auto r = (a += d); nz_check(a == q && r == q, "advancing by an offset"); r = (a -= d); nz_check(a == p && r == p, "going back by an offset");
			if (i < N) { auto c = p; nz_check(c++ == p && c == at(i + 1), "post-increment"); nz_check(++p == c, "increment"); nz_check(c-- == p && c == p0, "post-decrement"); nz_check(--p == p0, "decrement"); auto kv = *p; nz_check(kv.first == key(i) && &kv.second == &t.a[key(i)], "dereference pairs the enumerator with its element"); }
			if (j < N) { auto kv = p0[d]; nz_check(kv.first == key(j) && &kv.second == &t.a[key(j)], "subscripts are relative to the position"); }
		}
		static void iterators() { T t; its(t, t.a.iter_kv()); }
		static void const_iterators() { T t; its(t, std::as_const(t.a).iter_kv()); }
	};
}
#define ALL(X, ...) extern "C" { void d_layout_##X() { T<__VA_ARGS__>::layout(); } void d_write_##X() { T<__VA_ARGS__>::write(); } void d_fill_##X() { T<__VA_ARGS__>::fill(); } void d_swap_##X() { T<__VA_ARGS__>::swap(); } void d_copy_##X() { T<__VA_ARGS__>::copy(); } void d_iterate_##X() { T<__VA_ARGS__>::iterate(); } void d_kv_##X() { T<__VA_ARGS__>::kv(); } }
ALL(1, E1, 1) ALL(3, E3, 3) ALL(8, E8, 8) ALL(40, E40, 40)
namespace { enum class E300 { A, Count = 300 }; } // indices which need more than a byte
extern "C" { void d_layout_300() { T<E300, 300>::layout(); } void d_fill_300() { T<E300, 300>::fill(); } void d_swap_300() { T<E300, 300>::swap(); } void d_copy_300() { T<E300, 300>::copy(); } void d_iterate_300() { T<E300, 300>::iterate(); } void d_kv_300() { T<E300, 300>::kv(); } }
#define ITS(X, ...) extern "C" { void d_iterators_##X() { T<__VA_ARGS__>::iterators(); } void d_const_iterators_##X() { T<__VA_ARGS__>::const_iterators(); } }
ITS(1, E1, 1) ITS(3, E3, 3) ITS(8, E8, 8)
namespace { enum class K { A, B, C, Max = C }; }
extern "C" {
	void d_objects()
	{ // elements with a lifetime
		const V x = nz_any_u64(), y = nz_any_u64(), z = nz_any_u64();
		{
			Nz::EnumArray<K, ProbeN> a{{{ProbeN(x), ProbeN(y), ProbeN(z)}}}; nz_check(nz_value(&a[K::A]) == x && nz_value(&a[K::B]) == y && nz_value(&a[K::C]) == z, "elements are initialised in order");
			Nz::EnumArray<K, ProbeN> b(a), c(std::move(a)); nz_check(nz_value(&b[K::B]) == y && nz_value(&c[K::C]) == z, "copies and moves"); b.swap(c); nz_check(nz_value(&b[K::A]) == x && nz_value(&c[K::A]) == x, "swap");
		}
	}
}
