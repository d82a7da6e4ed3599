// StackArray: element lifetimes, contents and iteration for every size.
#include "nz.hpp"
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <utility>
using S = std::size_t; using A = Nz::StackArray<ProbeN>; using AT = Nz::StackArray<ProbeT>;
static S any(S max = 1000000) { S n = nz_any_size(); nz_assume(n < max); return n; }
static ProbeN* room(S n) { return static_cast<ProbeN*>(nz_storage(n, sizeof(ProbeN), "storage")); }
extern "C"
{
	void d_ctor() { S n = any(); ProbeN* m = room(n); A a(m, n); nz_check(a.size() == n && a.max_size() == n && a.empty() == (n == 0), "size"); S j = nz_any_size(); nz_assume(j < n); nz_check(nz_value(&a[j]) == 0, "every element is default-constructed"); }
	void d_macro() { S n = any(10000); auto a = NazaraStackArray(ProbeN, n); nz_check(a.size() == n, "size"); S j = nz_any_size(); nz_assume(j < n); nz_check(nz_alive(&a[j]), "every element is constructed"); }
	void d_noinit()
	{
		S n = any(); ProbeN* src = static_cast<ProbeN*>(nz_elems(n + 1, sizeof(ProbeN), "A")); ProbeN* m = room(n); A a(m, n, A::NoInitTag{});
		nz_check(a.size() == n && a.data() == m, "size"); for (S i = 0; i < n; ++i) { nz_check(!nz_alive(a.data() + i), "no element is constructed"); Nz::PlacementNew(a.data() + i, src[i]); }
		S j = nz_any_size(); nz_assume(j < n); nz_check(nz_value(&a[j]) == nz_elem("A", j), "contents");
	}
	void d_macro_noinit() { S n = any(10000); auto a = NazaraStackArrayNoInit(ProbeN, n); nz_check(a.size() == n, "size"); for (S i = 0; i < n; ++i) Nz::PlacementNew(&a[i]); }
	void d_access()
	{
		S n = any(); ProbeN* m = room(n); A a(m, n); const A& c = a;
		nz_check(a.data() == m && c.data() == m && a.begin() == m && c.begin() == m && a.cbegin() == m, "begin"); nz_check(a.end() == m + n && c.end() == m + n && a.cend() == m + n, "end");
		nz_check(a.rbegin().base() == m + n && c.rbegin().base() == m + n && a.crbegin().base() == m + n, "rbegin"); nz_check(a.rend().base() == m && c.rend().base() == m && a.crend().base() == m, "rend");
		S j = nz_any_size(); nz_assume(j < n); nz_check(&a[j] == m + j && &c[j] == m + j, "operator[]"); nz_check(&a.front() == m && &c.front() == m && &a.back() == m + (n - 1) && &c.back() == m + (n - 1), "front and back");
	}
	void d_fill() { S n = any(); A a(room(n), n); std::uint64_t x = nz_any_u64(); { ProbeN p(x); a.fill(p); nz_check(nz_value(&p) == x, "fill leaves its argument untouched"); } S j = nz_any_size(); nz_assume(j < n); nz_check(nz_value(&a[j]) == x, "fill assigns every element"); nz_check(a.size() == n, "size"); }
	void d_iterate() { S n = any(), k = 0; A a(room(n), n); const A& c = a; for (ProbeN& p : a) { nz_check(&p == &a[k], "iteration order"); ++k; } nz_check(k == n, "iteration visits every element"); k = 0; for (auto it = c.rbegin(); it != c.rend(); ++it) { nz_check(&*it == &a[n - 1 - k], "reverse iteration order"); ++k; } nz_check(k == n, "reverse iteration visits every element"); }
	void d_move_ctor() { S n = any(); ProbeN* m = room(n); A a(m, n); A b(std::move(a)); nz_check(b.size() == n && b.data() == m, "a moved array holds the elements"); nz_check(a.size() == 0 && a.empty(), "a moved-from array is empty"); S j = nz_any_size(); nz_assume(j < n); nz_check(nz_alive(&b[j]), "contents"); }
	void d_move_assign() { S n = any(), k = any(); ProbeN* m = room(n); A a(m, n); A b(static_cast<ProbeN*>(nz_storage(k, sizeof(ProbeN), "other")), k); A& r = (b = std::move(a)); nz_check(&r == &b, "assignment returns its destination"); nz_check(b.size() == n && b.data() == m, "a moved array holds the elements"); nz_check(a.size() == 0 && a.empty(), "a moved-from array is empty"); }
	void d_default() { A a; nz_check(a.size() == 0 && a.empty() && a.begin() == a.end(), "a default array is empty"); S n = any(); A b(room(n), n); a = std::move(b); nz_check(a.size() == n, "size"); }
	void d_throwing() { S n = any(); ProbeT* m = static_cast<ProbeT*>(nz_storage(n, sizeof(ProbeT), "storage")); try { AT a(m, n); nz_check(a.size() == n, "size"); } catch (...) { } S j = nz_any_size(); nz_assume(j < n); nz_check(!nz_alive(m + j), "no element survives"); }
	void d_placement() { ProbeN* m = room(1); ProbeN src(5); ProbeN* p = Nz::PlacementNew(m, src); nz_check(p == m && nz_value(p) == 5 && nz_value(&src) == 5, "PlacementNew copies"); Nz::PlacementDestroy(p); nz_check(!nz_alive(m), "PlacementDestroy destroys"); p = Nz::PlacementNew(m, std::move(src)); nz_check(!nz_valid(&src) && nz_value(p) == 5, "PlacementNew moves"); Nz::PlacementDestroy(p); Nz::PlacementDestroy(static_cast<ProbeN*>(nullptr)); }
}
