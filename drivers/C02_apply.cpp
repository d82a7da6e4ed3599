#include "nz.hpp"
#include <NazaraUtils/TypeList.hpp>
#include <memory>
using S = std::size_t;
namespace
{
	template<int I> struct T {};
	struct Log { unsigned char order[16]; S n = 0; };
	// a functor that records its type, and the arguments it was given
	template<typename X> struct Visit;
	template<int I> struct Visit<T<I>>
	{
		void operator()(Log& log) { log.order[log.n++] = I; }
		void operator()(Log& log, std::uint32_t& a, const std::uint64_t& b) { log.order[log.n++] = I; nz_event(1, reinterpret_cast<std::uintptr_t>(&a)); nz_event(2, b); ++a; }
		void operator()(Log& log, std::uint32_t& a, std::uint64_t b, const void* p) const { log.order[log.n++] = I; nz_event(1, a); nz_event(2, b); nz_event(3, reinterpret_cast<std::uintptr_t>(p)); a += 5; }
	};
	bool seq(const Log& l, std::initializer_list<int> e) { if (l.n != e.size()) return false; S i = 0; for (int x : e) if (l.order[i++] != x) return false; return true; }
	// a functor that keeps state must start anew for every type
	template<typename X> struct Fresh { int calls = 0; void operator()(Log& log) { log.order[log.n++] = static_cast<unsigned char>(++calls); } };
	// value category: what is given as an lvalue stays one
	template<typename X> struct Cat { void operator()(Log& l, std::uint32_t&) { l.order[l.n++] = 1; } void operator()(Log& l, const std::uint32_t&) { l.order[l.n++] = 2; } void operator()(Log& l, std::uint32_t&&) { l.order[l.n++] = 3; } };
	template<typename... X> using L = Nz::TypeList<X...>;
}
#define O(name, ...) extern "C" void d_order_##name() { Log l; Nz::TypeListApply<L<__VA_ARGS__>, Visit>(l)
#define C(msg, ...) nz_check(seq(l, { __VA_ARGS__ }), msg); }
#define M "every type is visited once, in order"
O(0); nz_check(l.n == 0, M); }
O(1, T<7>); C(M, 7)
O(2, T<7>, T<3>); C(M, 7, 3)
O(2s, T<7>, T<7>); C(M, 7, 7)
O(3, T<1>, T<0>, T<2>); C(M, 1, 0, 2)
O(5, T<5>, T<4>, T<5>, T<2>, T<1>); C(M, 5, 4, 5, 2, 1)
O(8, T<0>, T<1>, T<2>, T<3>, T<4>, T<5>, T<6>, T<7>); C(M, 0, 1, 2, 3, 4, 5, 6, 7)
extern "C"
{
	void d_args_ref() { Log l; std::uint32_t a = nz_any_u32(), a0 = a; std::uint64_t b = nz_any_u64(); Nz::TypeListApply<L<T<1>, T<2>, T<3>>, Visit>(l, a, b); nz_check(seq(l, { 1, 2, 3 }), M); nz_check(a == std::uint32_t(a0 + 3), "references reach the functors"); for (S i = 0; i < 6; i += 2) { nz_check(nz_evarg(i, 1) == reinterpret_cast<std::uintptr_t>(&a), "references refer to the argument"); nz_check(nz_evarg(i + 1, 1) == b, "values are passed unchanged"); } nz_check(nz_evcount(1) == 3 && nz_evcount(2) == 3, "one call per type"); }
	void d_args_val() { Log l; std::uint32_t a = nz_any_u32(), a0 = a; std::uint64_t b = nz_any_u64(); int x; Nz::TypeListApply<L<T<4>, T<2>>, Visit>(l, a, b, static_cast<const void*>(&x)); nz_check(seq(l, { 4, 2 }), M); nz_check(nz_evarg(0, 1) == a0 && nz_evarg(3, 1) == std::uint32_t(a0 + 5) && a == std::uint32_t(a0 + 10), "references reach the functors"); for (S i : { 0, 3 }) { nz_check(nz_evarg(i + 1, 1) == b, "values are passed unchanged"); nz_check(nz_evarg(i + 2, 1) == reinterpret_cast<std::uintptr_t>(&x), "values are passed unchanged"); } nz_check(nz_evcount(1) == 2, "one call per type"); }
	void d_fresh() { Log l; Nz::TypeListApply<L<int, int, char>, Fresh>(l); nz_check(seq(l, { 1, 1, 1 }), "each type has a functor of its own"); }
	void d_cat_lvalue() { Log l; std::uint32_t a = 0; Nz::TypeListApply<L<int, char>, Cat>(l, a); nz_check(seq(l, { 1, 1 }), "an lvalue is passed as an lvalue"); }
	void d_cat_const() { Log l; const std::uint32_t a = 0; Nz::TypeListApply<L<int, char>, Cat>(l, a); nz_check(seq(l, { 2, 2 }), "a const lvalue is passed as one"); }
	void d_cat_rvalue() { Log l; Nz::TypeListApply<L<int>, Cat>(l, std::uint32_t(1)); nz_check(seq(l, { 3 }), "an rvalue is passed to the only functor as an rvalue"); }
	void d_void_types() { Log l; Nz::TypeListApply<L<void, const int&, struct Undefined>, Fresh>(l); nz_check(seq(l, { 1, 1, 1 }), "the types themselves are not needed"); }
}
