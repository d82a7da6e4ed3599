// An element operation may throw at any point: nothing is lost, destroyed twice or left half-built, the vector stays usable.
#include "nz.hpp"
#include "anyvec.hpp"
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/Result.hpp>
#include <utility>
using S = std::size_t;
namespace
{
	template<typename V> void wellformed(const V& v, S max)
	{
		S n = v.size(); nz_check(n <= max, "the size stays within what was asked");
		S j = nz_any_size(); nz_assume(j < n); nz_check(nz_alive(&v[j]), "every element counted is alive");
	}
	template<typename V> void unchanged(const V& v, S k)
	{
		nz_check(v.size() == k, "a failed insertion at the end changes nothing");
		S j = nz_any_size(); nz_assume(j < k); nz_check(nz_valid(&v[j]) && nz_value(&v[j]) == nz_elem("A", j), "a failed insertion at the end changes nothing");
	}
	template<typename P> P* seq(S n) { return static_cast<P*>(nz_elems(n + 1, sizeof(P), "A")); }
	// kits: a filled vector of k elements, capacity left for `room` more
	template<typename P> struct Stack { S k; P* src; P* st; Nz::StackVector<P> v; static S pick(S room, S& cap) { S k = nz_any_size(); cap = nz_any_size(); nz_assume(cap < 1000000); nz_assume(k + room <= cap); return k; } S cap; explicit Stack(S room) : k(pick(room, cap)), src(seq<P>(k)), st(static_cast<P*>(nz_storage(cap, sizeof(P), "storage"))), v(st, cap) { for (S i = 0; i < k; ++i) v.push_back(src[i]); } S max() { return cap; } };
	template<typename P, S N> struct Fixed { S k; P* src; Nz::FixedVector<P, N> v; static S pick(S room) { S k = nz_any_size(); nz_assume(k + room <= N); return k; } explicit Fixed(S room) : k(pick(room)), src(seq<P>(k)) { for (S i = 0; i < k; ++i) v.push_back(src[i]); } S max() { return N; } };
	template<typename P, S N> struct Hybrid { S k; P* src; Nz::FixedVector<P, N, AnyVector<P>> v; static S pick() { S k = nz_any_size(); nz_assume(k < 100000); return k; } explicit Hybrid(S) : k(pick()), src(seq<P>(k)) { for (S i = 0; i < k; ++i) v.push_back(src[i]); } S max() { return 100000; } };
	template<typename E> void t_grow() { E e(1); bool full = false; try { e.v.push_back(e.src[e.k]); full = true; } catch (...) { } wellformed(e.v, e.k + 1); nz_check(!full || e.v.size() == e.k + 1, "size"); }
	template<typename E> void t_grow_emplace() { E e(1); try { e.v.emplace_back(std::uint64_t(1)); } catch (...) { } wellformed(e.v, e.k + 1); }
	template<typename E> void t_reserve() { E e(1); S n = nz_any_size(); nz_assume(n < 100000); try { e.v.reserve(n); } catch (...) { } wellformed(e.v, e.k); }
	template<typename E> void t_push_back() { E e(1); bool full = false; try { e.v.push_back(e.src[e.k]); full = true; } catch (...) { unchanged(e.v, e.k); } if (full) wellformed(e.v, e.k + 1); }
	template<typename E> void t_push_back_move() { E e(1); try { e.v.push_back(std::move(e.src[e.k])); } catch (...) { unchanged(e.v, e.k); } wellformed(e.v, e.k + 1); }
	template<typename E> void t_emplace_back() { E e(1); try { e.v.emplace_back(std::uint64_t(1)); } catch (...) { unchanged(e.v, e.k); } wellformed(e.v, e.k + 1); }
	template<typename E> void t_emplace() { E e(1); S p = nz_any_size(); nz_assume(p <= e.k); try { e.v.emplace(e.v.begin() + p, std::uint64_t(1)); } catch (...) { } wellformed(e.v, e.k + 1); }
	template<typename E> void t_insert() { E e(1); S p = nz_any_size(); nz_assume(p <= e.k); try { e.v.insert(e.v.begin() + p, e.src[0]); } catch (...) { } wellformed(e.v, e.k + 1); }
	template<typename E> void t_erase() { E e(0); S p = nz_any_size(); nz_assume(p < e.k); try { e.v.erase(e.v.begin() + p); } catch (...) { } wellformed(e.v, e.k); }
	template<typename E> void t_erase_range() { E e(0); S p = nz_any_size(), q = nz_any_size(); nz_assume(q <= e.k); nz_assume(p <= q); try { e.v.erase(e.v.begin() + p, e.v.begin() + q); } catch (...) { } wellformed(e.v, e.k); }
	template<typename E> void t_resize() { E e(0); S n = nz_any_size(); nz_assume(n <= e.max()); try { e.v.resize(n); } catch (...) { } wellformed(e.v, e.max()); }
	template<typename E> void t_resize_value() { E e(0); S n = nz_any_size(); nz_assume(n <= e.max()); try { e.v.resize(n, e.src[0]); } catch (...) { } wellformed(e.v, e.max()); }
	template<typename E> void t_copy() { E e(0); try { auto w = e.v; wellformed(w, e.k); } catch (...) { } unchanged(e.v, e.k); }
	template<typename E> void t_copy_assign() { E e(0); E f(0); try { f.v = e.v; } catch (...) { } wellformed(f.v, f.max()); unchanged(e.v, e.k); }
	template<typename E> void t_iter() { S k = nz_any_size(); nz_assume(k <= 8); using V = decltype(E::v); using P = typename V::value_type; P* s = seq<P>(k); try { V v(static_cast<const P*>(s), static_cast<const P*>(s) + k); wellformed(v, k); } catch (...) {} }
	template<typename E> void t_count() { S k = nz_any_size(); nz_assume(k <= 8); using V = decltype(E::v); using P = typename V::value_type; P* s = seq<P>(1); try { V v(k, *s); wellformed(v, k); } catch (...) {} }
}
#define SC(kit, tag, name) extern "C" void d_##tag##_##name() { t_##name<kit>(); }
#define ALL(kit, tag) SC(kit, tag, push_back) SC(kit, tag, push_back_move) SC(kit, tag, emplace_back) SC(kit, tag, emplace) SC(kit, tag, insert) SC(kit, tag, erase) SC(kit, tag, erase_range) SC(kit, tag, resize) SC(kit, tag, resize_value)
#define OWN(kit, tag) SC(kit, tag, copy) SC(kit, tag, copy_assign) SC(kit, tag, iter) SC(kit, tag, count)
using StT = Stack<ProbeT>; using St = Stack<Probe>; using FxT = Fixed<ProbeT, 40>; using Fx = Fixed<Probe, 12>;
ALL(StT, stack_allthrow) ALL(St, stack_nothrowmove) ALL(FxT, fixed_allthrow) ALL(Fx, fixed_nothrowmove) OWN(FxT, fixed_allthrow) OWN(Fx, fixed_nothrowmove)
using Hy = Hybrid<ProbeT, 3>; using Hy2 = Hybrid<Probe, 2>;
#define HYB(kit, tag) SC(kit, tag, grow) SC(kit, tag, grow_emplace) SC(kit, tag, emplace) SC(kit, tag, insert) SC(kit, tag, erase) SC(kit, tag, erase_range) SC(kit, tag, resize) SC(kit, tag, resize_value) SC(kit, tag, reserve) OWN(kit, tag)
HYB(Hy, hybrid_allthrow) HYB(Hy2, hybrid_nothrowmove)
