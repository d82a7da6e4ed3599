// Scenarios shared by the vectors owning their storage.  K::V is the vector, K::max the greatest size considered
// (a constant or any size), elements are k symbolic copies of the symbolic sequence A.
#pragma once
#include "nz.hpp"
#include <utility>
template<typename K> struct Scn
{
	using V = typename K::V; using P = typename V::value_type; using S = std::size_t;
	static P* seq(S n) { return static_cast<P*>(nz_elems(n + 1, sizeof(P), "A")); }
	static S count(S room = 0) { S k = nz_any_size(); K::bound(k + room); return k; }
	struct Env { S k; P* src; V v; explicit Env(S room = 0) : k(count(room)), src(seq(k)) { for (S i = 0; i < k; ++i) v.push_back(src[i]); } };
	static void same(const V& v, S n, const char* what)
	{
		nz_check(v.size() == n, what); nz_check(v.empty() == (n == 0), what);
		S j = nz_any_size(); nz_assume(j < n);
		nz_check(nz_value(&v[j]) == nz_elem("A", j), what);
	}
	static void inserted(V& v, S k, S p, std::uint64_t x, P* it)
	{
		nz_check(it == &v[p], "insertion returns the position of the new element");
		nz_check(v.size() == k + 1, "insertion grows the vector by one");
		nz_check(nz_value(&v[p]) == x, "the inserted element has the value given");
		S j = nz_any_size();
		if (nz_any_bool()) { nz_assume(j < p); nz_check(nz_value(&v[j]) == nz_elem("A", j), "elements before the insertion point are unchanged"); }
		else { nz_assume(j < k); nz_assume(j >= p); nz_check(nz_value(&v[j + 1]) == nz_elem("A", j), "elements after the insertion point move up by one"); }
	}
	static void push_back_copy()
	{
		S k = count(); P* src = seq(k); V v;
		for (S i = 0; i < k; ++i) { P& r = v.push_back(src[i]); nz_check(&r == &v[i] && v.size() == i + 1, "push_back returns the new element"); }
		same(v, k, "push_back appends a copy");
		S j = nz_any_size(); nz_assume(j < k);
		nz_check(nz_value(src + j) == nz_elem("A", j), "the copied source is unchanged");
	}
	static void push_back_move()
	{
		S k = count(); P* src = seq(k); V v;
		for (S i = 0; i < k; ++i) { P& r = v.push_back(std::move(src[i])); nz_check(&r == &v[i] && v.size() == i + 1, "push_back(&&) returns the new element"); }
		same(v, k, "push_back(&&) appends the element");
		S j = nz_any_size(); nz_assume(j < k);
		nz_check(!nz_valid(src + j), "push_back(&&) moves from its argument");
	}
	static void emplace_back()
	{
		S k = count(); V v;
		for (S i = 0; i < k; ++i) { P& r = v.emplace_back(std::uint64_t(i)); nz_check(&r == &v[i] && v.size() == i + 1, "emplace_back returns the new element"); }
		nz_check(v.size() == k, "emplace_back size");
		S j = nz_any_size(); nz_assume(j < k);
		nz_check(nz_value(&v[j]) == j, "emplace_back constructs from its arguments");
	}
	static void access()
	{
		Env e; V& v = e.v; const V& c = v; S k = e.k;
		auto* d = v.data();
		nz_check(c.data() == d, "data"); nz_check(v.begin() == d && c.begin() == d && v.cbegin() == d, "begin");
		nz_check(v.end() == d + k && c.end() == d + k && v.cend() == d + k, "end");
		nz_check(v.rbegin().base() == d + k && c.rbegin().base() == d + k && v.crbegin().base() == d + k, "rbegin");
		nz_check(v.rend().base() == d && c.rend().base() == d && v.crend().base() == d, "rend");
		nz_check(v.size() == k && c.size() == k && c.empty() == (k == 0), "size"); nz_check(v.capacity() >= k && v.max_size() >= k, "capacity");
		S j = nz_any_size(); nz_assume(j < k);
		nz_check(&v[j] == d + j && &c[j] == d + j, "operator[]"); nz_check(v.data(j) == d + j && c.data(j) == d + j, "data(n)");
		nz_check(&v.front() == d && &c.front() == d, "front"); nz_check(&v.back() == d + (k - 1) && &c.back() == d + (k - 1), "back");
	}
	static void pop_back() { Env e; nz_assume(e.k > 0); e.v.pop_back(); same(e.v, e.k - 1, "pop_back removes the last element only"); e.v.push_back(e.src[e.k - 1]); same(e.v, e.k, "push_back after pop_back"); }
	static void clear()
	{
		Env e; e.v.clear(); nz_check(e.v.empty() && e.v.size() == 0 && e.v.begin() == e.v.end(), "clear empties");
		for (S i = 0; i < e.k; ++i) e.v.push_back(e.src[i]);
		same(e.v, e.k, "reusable after clear");
	}
	static void resize()
	{
		Env e; S n = count(); e.v.resize(n); nz_check(e.v.size() == n, "resize size");
		S j = nz_any_size(); nz_assume(j < n);
		if (j < e.k) nz_check(nz_value(&e.v[j]) == nz_elem("A", j), "resize keeps the existing elements");
		else nz_check(nz_value(&e.v[j]) == 0, "resize default-constructs the new elements");
	}
	static void resize_value()
	{
		Env e; S n = count(); std::uint64_t x = nz_any_u64();
		{ P p(x); e.v.resize(n, p); nz_check(nz_value(&p) == x, "resize leaves the value untouched"); }
		nz_check(e.v.size() == n, "resize(value) size");
		S j = nz_any_size(); nz_assume(j < n);
		if (j < e.k) nz_check(nz_value(&e.v[j]) == nz_elem("A", j), "resize(value) keeps the existing elements");
		else nz_check(nz_value(&e.v[j]) == x, "resize(value) copies the value into the new elements");
	}
	static void emplace() { Env e(1); S p = nz_any_size(); nz_assume(p <= e.k); std::uint64_t x = nz_any_u64(); P* it = e.v.emplace(e.v.begin() + p, x); inserted(e.v, e.k, p, x, it); }
	static void insert_copy()
	{
		Env e(1); S p = nz_any_size(); nz_assume(p <= e.k); std::uint64_t x = nz_any_u64(); const P val(x);
		P* it = e.v.insert(e.v.cbegin() + p, val); nz_check(nz_value(&val) == x, "insert copies its argument"); inserted(e.v, e.k, p, x, it);
	}
	static void insert_move()
	{
		Env e(1); S p = nz_any_size(); nz_assume(p <= e.k); std::uint64_t x = nz_any_u64(); P val(x);
		P* it = e.v.insert(e.v.cbegin() + p, std::move(val)); nz_check(!nz_valid(&val), "insert(&&) moves its argument"); inserted(e.v, e.k, p, x, it);
	}
	static void insert_own() // inserting a copy of one of its own elements
	{
		Env e(1); S p = nz_any_size(), q = nz_any_size(); nz_assume(p <= e.k); nz_assume(q < e.k);
		P* it = e.v.insert(e.v.cbegin() + p, e.v[q]); inserted(e.v, e.k, p, nz_elem("A", q), it);
	}
	static void push_own()
	{
		Env e(1); S q = nz_any_size(); nz_assume(q < e.k);
		P* it = &e.v.push_back(e.v[q]); inserted(e.v, e.k, e.k, nz_elem("A", q), it);
	}
	static void erase()
	{
		Env e; S p = nz_any_size(); nz_assume(p < e.k); P* it = e.v.erase(e.v.cbegin() + p);
		nz_check(it == e.v.data() + p, "erase returns the position after the removed element"); nz_check(e.v.size() == e.k - 1, "erase removes one element");
		S j = nz_any_size();
		if (nz_any_bool()) { nz_assume(j < p); nz_check(nz_value(&e.v[j]) == nz_elem("A", j), "elements before the erased one are unchanged"); }
		else { nz_assume(j < e.k - 1); nz_assume(j >= p); nz_check(nz_value(&e.v[j]) == nz_elem("A", j + 1), "elements after the erased one move down by one"); }
	}
	static void erase_range()
	{
		Env e; S a = nz_any_size(), b = nz_any_size(); nz_assume(b <= e.k); nz_assume(a <= b);
		P* it = e.v.erase(e.v.cbegin() + a, e.v.cbegin() + b);
		nz_check(it == e.v.data() + a, "erase(range) returns the position after the removed elements"); nz_check(e.v.size() == e.k - (b - a), "erase(range) removes the range");
		S j = nz_any_size();
		if (nz_any_bool()) { nz_assume(j < a); nz_check(nz_value(&e.v[j]) == nz_elem("A", j), "elements before the erased range are unchanged"); }
		else { nz_assume(b + j < e.k); nz_check(nz_value(&e.v[a + j]) == nz_elem("A", b + j), "elements after the erased range move down"); }
	}
	static void copy_ctor() { Env e; { V w(e.v); same(w, e.k, "a copy holds the same elements"); same(e.v, e.k, "the copied vector is unchanged"); w.clear(); } same(e.v, e.k, "a copy is independent"); }
	static void move_ctor() { Env e; V w(std::move(e.v)); same(w, e.k, "a moved vector holds the elements"); e.v.clear(); nz_check(e.v.empty(), "a moved-from vector can be cleared"); e.v.emplace_back(std::uint64_t(1)); nz_check(e.v.size() == 1 && nz_value(&e.v[0]) == 1, "a moved-from vector can be reused"); }
	static void fill7(V& w) { S n = count(); for (S i = 0; i < n; ++i) w.emplace_back(std::uint64_t(7)); }
	static void copy_assign() { Env e; V w; fill7(w); V& r = (w = e.v); nz_check(&r == &w, "assignment returns its destination"); same(w, e.k, "a copy-assigned vector holds the same elements"); same(e.v, e.k, "the copied vector is unchanged"); }
	static void move_assign() { Env e; V w; fill7(w); V& r = (w = std::move(e.v)); nz_check(&r == &w, "assignment returns its destination"); same(w, e.k, "a move-assigned vector holds the elements"); e.v.clear(); nz_check(e.v.empty(), "a moved-from vector can be cleared"); e.v.emplace_back(std::uint64_t(1)); nz_check(e.v.size() == 1 && nz_value(&e.v[0]) == 1, "a moved-from vector can be reused"); }
	static void self_assign() { Env e; V& w = e.v; if (nz_any_bool()) w = e.v; else w = std::move(e.v); same(e.v, e.k, "self-assignment changes nothing"); }
	static void iter_ctor() { S k = count(); P* src = seq(k); V v(static_cast<const P*>(src), static_cast<const P*>(src + k)); same(v, k, "iterator construction copies the sequence"); }
	static void count_ctor() { S k = count(); std::uint64_t x = nz_any_u64(); P p(x); V v(k, p); nz_check(v.size() == k, "count construction size"); S j = nz_any_size(); nz_assume(j < k); nz_check(nz_value(&v[j]) == x, "count construction copies the value"); }
	static void default_ctor() { V v; nz_check(v.empty() && v.size() == 0 && v.begin() == v.end(), "a default-constructed vector is empty"); v.clear(); }
	static void reserve() { Env e; S n = count(); e.v.reserve(n); same(e.v, e.k, "reserve changes no element"); nz_check(e.v.capacity() >= n && e.v.capacity() >= e.k, "reserve provides the capacity"); }
	static void iterate()
	{
		Env e; S n = 0;
		for (P& p : e.v) { nz_check(nz_value(&p) == nz_elem("A", n), "iteration visits the elements in order"); ++n; }
		nz_check(n == e.k, "iteration visits every element"); const V& c = e.v; n = 0;
		for (auto it = c.rbegin(); it != c.rend(); ++it) { nz_check(nz_value(&*it) == nz_elem("A", e.k - 1 - n), "reverse iteration visits the elements in reverse order"); ++n; }
		nz_check(n == e.k, "reverse iteration visits every element");
	}
};
#define VEC_SCENARIO(K, tag, name) extern "C" void d_##tag##_##name() { Scn<K>::name(); }
#define VEC_SCENARIOS_ONE(K, tag) \
	VEC_SCENARIO(K, tag, push_back_copy) VEC_SCENARIO(K, tag, push_back_move) VEC_SCENARIO(K, tag, emplace_back) VEC_SCENARIO(K, tag, access) VEC_SCENARIO(K, tag, pop_back) \
	VEC_SCENARIO(K, tag, clear) VEC_SCENARIO(K, tag, resize) VEC_SCENARIO(K, tag, resize_value) VEC_SCENARIO(K, tag, emplace) VEC_SCENARIO(K, tag, insert_copy) VEC_SCENARIO(K, tag, insert_move) \
	VEC_SCENARIO(K, tag, erase) VEC_SCENARIO(K, tag, erase_range) VEC_SCENARIO(K, tag, copy_ctor) VEC_SCENARIO(K, tag, move_ctor) \
	VEC_SCENARIO(K, tag, copy_assign) VEC_SCENARIO(K, tag, move_assign) VEC_SCENARIO(K, tag, self_assign) VEC_SCENARIO(K, tag, iter_ctor) VEC_SCENARIO(K, tag, count_ctor) VEC_SCENARIO(K, tag, default_ctor) \
	VEC_SCENARIO(K, tag, reserve) VEC_SCENARIO(K, tag, iterate)
#define VEC_SCENARIOS(K, tag) VEC_SCENARIOS_ONE(K, tag) VEC_SCENARIO(K, tag, insert_own) VEC_SCENARIO(K, tag, push_own)
