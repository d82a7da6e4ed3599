// Stack containers where alloca does not exist: their storage comes from the heap and they own it.
#include "nz.hpp"
#include <NazaraUtils/MemoryHelper.hpp>
#ifndef NAZARA_ALLOCA_SUPPORT
#error "the platform has alloca"
#endif
#undef NAZARA_ALLOCA_SUPPORT
#undef NAZARA_ALLOCA
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <new>
#include <utility>
using S = std::size_t; using A = Nz::StackArray<ProbeN>; using AT = Nz::StackArray<ProbeT>; using V = Nz::StackVector<ProbeN>; using VT = Nz::StackVector<ProbeT>;
static S any(S max = 1000000) { S n = nz_any_size(); nz_assume(n < max); return n; }
static void fill(V& v, S n) { for (S i = 0; i < n; ++i) v.emplace_back(std::uint64_t(i)); }
extern "C"
{
	void d_array() { S n = any(); auto a = NazaraStackArray(ProbeN, n); nz_check(a.size() == n, "size"); S j = nz_any_size(); nz_assume(j < n); nz_check(nz_value(&a[j]) == 0, "every element is default-constructed"); }
	void d_array_noinit() { S n = any(); auto a = NazaraStackArrayNoInit(ProbeN, n); nz_check(a.size() == n, "size"); for (S i = 0; i < n; ++i) { nz_check(!nz_alive(a.data() + i), "no element is constructed"); Nz::PlacementNew(&a[i]); } }
	void d_array_move() { S n = any(); auto a = NazaraStackArray(ProbeN, n); ProbeN* m = a.data(); { A b(std::move(a)); nz_check(b.size() == n && b.data() == m, "a moved array holds the storage"); nz_check(a.size() == 0, "a moved-from array is empty"); S j = nz_any_size(); nz_assume(j < n); nz_check(nz_alive(&b[j]), "contents"); } nz_check(!nz_live(m), "the new owner releases the storage"); }
	void d_array_move_assign() { S n = any(), k = any(); auto a = NazaraStackArray(ProbeN, n); auto b = NazaraStackArray(ProbeN, k); ProbeN* m = a.data(); ProbeN* o = b.data(); b = std::move(a); nz_check(!nz_live(o), "assignment releases the storage it replaces"); nz_check(b.size() == n && b.data() == m && nz_live(m), "assignment takes the storage over"); nz_check(a.size() == 0, "a moved-from array is empty"); }
	void d_array_move_self() { S n = any(); auto a = NazaraStackArray(ProbeN, n); ProbeN* m = a.data(); A& r = a; a = std::move(r); nz_check(nz_live(m) && a.size() == n, "assigning an array to itself keeps its storage"); }
	void d_array_default() { A a; A b(std::move(a)); a = std::move(b); { S n = any(); auto c = NazaraStackArray(ProbeN, n); a = std::move(c); nz_check(a.size() == n, "size"); } a = A(); nz_check(a.size() == 0, "size"); }
	void d_array_swap() { S n = any(), k = any(); auto a = NazaraStackArray(ProbeN, n); auto b = NazaraStackArray(ProbeN, k); ProbeN* m = a.data(); ProbeN* o = b.data(); std::swap(a, b); nz_check(a.data() == o && b.data() == m && a.size() == k && b.size() == n && nz_live(m) && nz_live(o), "swapping exchanges the storages"); }
	void d_array_throwing() { S n = any(); try { auto a = NazaraStackArray(ProbeT, n); nz_check(a.size() == n, "size"); } catch (...) { } }
	void d_vector() { S n = any(), k = any(); nz_assume(k <= n); auto v = NazaraStackVector(ProbeN, n); nz_check(v.capacity() == n && v.empty(), "a new vector is empty"); fill(v, k); nz_check(v.size() == k, "size"); S j = nz_any_size(); nz_assume(j < k); nz_check(nz_value(&v[j]) == j, "contents"); }
	void d_vector_clear() { S n = any(), k = any(); nz_assume(k <= n); auto v = NazaraStackVector(ProbeN, n); fill(v, k); ProbeN* m = v.data(); v.clear(); nz_check(nz_live(m) && v.capacity() == n, "clearing keeps the storage"); }
	void d_vector_move() { S n = any(), k = any(); nz_assume(k <= n); auto v = NazaraStackVector(ProbeN, n); fill(v, k); ProbeN* m = v.data(); { V w(std::move(v)); nz_check(w.size() == k && w.capacity() == n && w.data() == m, "a moved vector holds the storage"); nz_check(v.size() == 0 && v.capacity() == 0, "a moved-from vector is empty"); } nz_check(!nz_live(m), "the new owner releases the storage"); }
	void d_vector_move_assign() { S n = any(), k = any(), n2 = any(), k2 = any(); nz_assume(k <= n); nz_assume(k2 <= n2); auto v = NazaraStackVector(ProbeN, n); fill(v, k); auto w = NazaraStackVector(ProbeN, n2); fill(w, k2); ProbeN* m = v.data(); ProbeN* o = w.data(); w = std::move(v); nz_check(!nz_live(o), "assignment releases the storage it replaces"); nz_check(w.size() == k && w.capacity() == n && w.data() == m && nz_live(m), "assignment takes the storage over"); nz_check(v.size() == 0 && v.capacity() == 0, "a moved-from vector is empty"); }
	void d_vector_move_self() { S n = any(), k = any(); nz_assume(k <= n); auto v = NazaraStackVector(ProbeN, n); fill(v, k); ProbeN* m = v.data(); V& r = v; v = std::move(r); nz_check(nz_live(m) && v.size() == k && v.capacity() == n, "assigning a vector to itself keeps its storage"); }
	void d_vector_default() { V v; V w(std::move(v)); v = std::move(w); { S n = any(); auto c = NazaraStackVector(ProbeN, n); v = std::move(c); nz_check(v.capacity() == n, "capacity"); } v = V(); nz_check(v.capacity() == 0, "capacity"); }
	void d_vector_swap() { S n = any(), k = any(); auto v = NazaraStackVector(ProbeN, n); auto w = NazaraStackVector(ProbeN, k); ProbeN* m = v.data(); ProbeN* o = w.data(); std::swap(v, w); nz_check(v.data() == o && w.data() == m && nz_live(m) && nz_live(o), "swapping exchanges the storages"); }
	void d_vector_throwing() { S n = any(); nz_assume(n > 1); try { auto v = NazaraStackVector(ProbeT, n); v.emplace_back(); v.emplace_back(); } catch (...) { } }
}
