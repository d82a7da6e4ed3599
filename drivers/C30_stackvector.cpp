// StackVector: element lifetimes, contents and sizes for every capacity, every size and every contents.
#include "nz.hpp"
#include <NazaraUtils/StackVector.hpp>
#include <utility>
using V = Nz::StackVector<ProbeN>;
namespace
{
	struct Mem // storage of symbolic capacity, k symbolic elements copied from the symbolic sequence A
	{
		std::size_t cap, k; ProbeN* st; ProbeN* src;
		explicit Mem(std::size_t room = 0)
		{
			cap = nz_any_size(); k = nz_any_size();
			nz_assume(cap < 1000000); nz_assume(k + room <= cap);
			st = static_cast<ProbeN*>(nz_storage(cap, sizeof(ProbeN), "storage"));
			src = static_cast<ProbeN*>(nz_elems(k + 1, sizeof(ProbeN), "A"));
		}
		void fill(V& v) { for (std::size_t i = 0; i < k; ++i) v.push_back(src[i]); }
	};
	void same(const V& v, std::size_t n, const char* what)
	{
		nz_check(v.size() == n, what);
		std::size_t j = nz_any_size(); nz_assume(j < n);
		nz_check(nz_value(&v[j]) == nz_elem("A", j), what);
	}
}
extern "C"
{
	void d_push_back_copy()
	{
		Mem m; V v(m.st, m.cap);
		for (std::size_t i = 0; i < m.k; ++i) { ProbeN& r = v.push_back(m.src[i]); nz_check(&r == m.st + i, "push_back returns the new element"); }
		same(v, m.k, "push_back appends a copy");
		nz_check(v.capacity() == m.cap && v.max_size() == m.cap, "capacity"); nz_check(v.empty() == (m.k == 0), "empty");
		std::size_t j = nz_any_size(); nz_assume(j < m.k);
		nz_check(nz_value(m.src + j) == nz_elem("A", j), "the copied source is unchanged");
	}
	void d_push_back_move()
	{
		Mem m; V v(m.st, m.cap);
		for (std::size_t i = 0; i < m.k; ++i) { ProbeN& r = v.push_back(std::move(m.src[i])); nz_check(&r == m.st + i, "push_back(&&) returns the new element"); }
		same(v, m.k, "push_back(&&) appends the element");
		std::size_t j = nz_any_size(); nz_assume(j < m.k);
		nz_check(!nz_valid(m.src + j), "push_back(&&) moves from its argument");
	}
	void d_emplace_back()
	{
		Mem m; V v(m.st, m.cap);
		for (std::size_t i = 0; i < m.k; ++i) { ProbeN& r = v.emplace_back(std::uint64_t(i)); nz_check(&r == m.st + i, "emplace_back returns the new element"); }
		nz_check(v.size() == m.k, "emplace_back size");
		std::size_t j = nz_any_size(); nz_assume(j < m.k);
		nz_check(nz_value(&v[j]) == j, "emplace_back constructs from its arguments");
	}
	void d_access()
	{
		Mem m; V v(m.st, m.cap); m.fill(v); const V& c = v;
		nz_check(v.data() == m.st && c.data() == m.st, "data");
		nz_check(v.begin() == m.st && c.begin() == m.st && v.cbegin() == m.st, "begin");
		nz_check(v.end() == m.st + m.k && c.end() == m.st + m.k && v.cend() == m.st + m.k, "end");
		nz_check(v.rbegin().base() == m.st + m.k && c.rbegin().base() == m.st + m.k && v.crbegin().base() == m.st + m.k, "rbegin");
		nz_check(v.rend().base() == m.st && c.rend().base() == m.st && v.crend().base() == m.st, "rend");
		nz_check(v.size() == m.k && c.empty() == (m.k == 0), "size");
		std::size_t j = nz_any_size(); nz_assume(j < m.k);
		nz_check(&v[j] == m.st + j && &c[j] == m.st + j, "operator[]");
		nz_check(&v.front() == m.st && &c.front() == m.st, "front");
		nz_check(&v.back() == m.st + (m.k - 1) && &c.back() == m.st + (m.k - 1), "back");
	}
	void d_pop_back()
	{
		Mem m; nz_assume(m.k > 0); V v(m.st, m.cap); m.fill(v);
		v.pop_back();
		same(v, m.k - 1, "pop_back removes the last element only");
		nz_check(!nz_alive(m.st + (m.k - 1)), "pop_back destroys the last element");
	}
	void d_clear()
	{
		Mem m; V v(m.st, m.cap); m.fill(v);
		v.clear();
		nz_check(v.empty() && v.size() == 0, "clear empties");
		nz_check(v.capacity() == m.cap, "clear keeps the capacity");
		m.fill(v); same(v, m.k, "reusable after clear");
	}
	void d_resize()
	{
		Mem m; V v(m.st, m.cap); m.fill(v);
		std::size_t n = nz_any_size(); nz_assume(n <= m.cap);
		v.resize(n);
		nz_check(v.size() == n, "resize size");
		std::size_t j = nz_any_size(); nz_assume(j < n);
		if (j < m.k) nz_check(nz_value(&v[j]) == nz_elem("A", j), "resize keeps the existing elements");
		else nz_check(nz_value(&v[j]) == 0, "resize default-constructs the new elements");
	}
	void d_resize_value()
	{
		Mem m; V v(m.st, m.cap); m.fill(v);
		std::size_t n = nz_any_size(); nz_assume(n <= m.cap); std::uint64_t x = nz_any_u64();
		{ ProbeN p(x); v.resize(n, p); nz_check(nz_value(&p) == x, "resize leaves the value untouched"); }
		nz_check(v.size() == n, "resize(value) size");
		std::size_t j = nz_any_size(); nz_assume(j < n);
		if (j < m.k) nz_check(nz_value(&v[j]) == nz_elem("A", j), "resize(value) keeps the existing elements");
		else nz_check(nz_value(&v[j]) == x, "resize(value) copies the value into the new elements");
	}
	static void inserted(V& v, Mem& m, std::size_t p, std::uint64_t x, ProbeN* it)
	{
		nz_check(it == m.st + p, "insertion returns the position of the new element");
		nz_check(v.size() == m.k + 1, "insertion grows the vector by one");
		nz_check(nz_value(&v[p]) == x, "the inserted element has the value given");
		std::size_t j = nz_any_size();
		if (nz_any_bool()) { nz_assume(j < p); nz_check(nz_value(&v[j]) == nz_elem("A", j), "elements before the insertion point are unchanged"); }
		else { nz_assume(j < m.k); nz_assume(j >= p); nz_check(nz_value(&v[j + 1]) == nz_elem("A", j), "elements after the insertion point move up by one"); }
	}
	void d_emplace()
	{
		Mem m(1); V v(m.st, m.cap); m.fill(v);
		std::size_t p = nz_any_size(); nz_assume(p <= m.k); std::uint64_t x = nz_any_u64();
		inserted(v, m, p, x, v.emplace(v.begin() + p, x));
	}
	void d_insert_copy()
	{
		Mem m(1); V v(m.st, m.cap); m.fill(v);
		std::size_t p = nz_any_size(); nz_assume(p <= m.k); std::uint64_t x = nz_any_u64();
		const ProbeN val(x);
		ProbeN* it = v.insert(v.cbegin() + p, val); nz_check(nz_value(&val) == x, "insert copies its argument");
		inserted(v, m, p, x, it);
	}
	void d_insert_move()
	{
		Mem m(1); V v(m.st, m.cap); m.fill(v);
		std::size_t p = nz_any_size(); nz_assume(p <= m.k); std::uint64_t x = nz_any_u64();
		ProbeN val(x);
		ProbeN* it = v.insert(v.cbegin() + p, std::move(val)); nz_check(!nz_valid(&val), "insert(&&) moves its argument");
		inserted(v, m, p, x, it);
	}
	void d_erase()
	{
		Mem m; V v(m.st, m.cap); m.fill(v);
		std::size_t p = nz_any_size(); nz_assume(p < m.k);
		ProbeN* it = v.erase(v.cbegin() + p);
		nz_check(it == m.st + p, "erase returns the position after the removed element");
		nz_check(v.size() == m.k - 1, "erase removes one element");
		std::size_t j = nz_any_size();
		if (nz_any_bool()) { nz_assume(j < p); nz_check(nz_value(&v[j]) == nz_elem("A", j), "elements before the erased one are unchanged"); }
		else { nz_assume(j < m.k - 1); nz_assume(j >= p); nz_check(nz_value(&v[j]) == nz_elem("A", j + 1), "elements after the erased one move down by one"); }
	}
	void d_erase_range()
	{
		Mem m; V v(m.st, m.cap); m.fill(v);
		std::size_t a = nz_any_size(), b = nz_any_size(); nz_assume(b <= m.k); nz_assume(a <= b);
		ProbeN* it = v.erase(v.cbegin() + a, v.cbegin() + b);
		nz_check(it == m.st + a, "erase(range) returns the position after the removed elements");
		nz_check(v.size() == m.k - (b - a), "erase(range) removes the range");
		std::size_t j = nz_any_size();
		if (nz_any_bool()) { nz_assume(j < a); nz_check(nz_value(&v[j]) == nz_elem("A", j), "elements before the erased range are unchanged"); }
		else { nz_assume(b + j < m.k); nz_check(nz_value(&v[a + j]) == nz_elem("A", b + j), "elements after the erased range move down"); }
	}
	void d_move_ctor()
	{
		Mem m; V v(m.st, m.cap); m.fill(v);
		{
			V w(std::move(v));
			same(w, m.k, "a moved vector holds the elements"); nz_check(w.capacity() == m.cap && w.data() == m.st, "a moved vector holds the storage");
			nz_check(v.empty(), "a moved-from vector is empty");
		}
		nz_check(v.size() == 0, "a moved-from vector stays empty");
	}
	void d_move_assign()
	{
		Mem m; V v(m.st, m.cap); m.fill(v);
		std::size_t k2 = nz_any_size(); nz_assume(k2 < 1000);
		ProbeN* st2 = static_cast<ProbeN*>(nz_storage(k2, sizeof(ProbeN), "storage2"));
		V w(st2, k2); for (std::size_t i = 0; i < k2; ++i) w.emplace_back(std::uint64_t(7));
		w = std::move(v);
		same(w, m.k, "a move-assigned vector holds the elements"); nz_check(w.capacity() == m.cap && w.data() == m.st, "a move-assigned vector holds the storage");
		nz_check(v.empty(), "a moved-from vector is empty");
	}
	void d_default()
	{
		V v; nz_check(v.empty() && v.size() == 0 && v.capacity() == 0 && v.begin() == v.end(), "a default-constructed vector is empty");
		v.clear();
	}
	void d_macro()
	{
		std::size_t n = nz_any_size(); nz_assume(n < 100000); nz_assume(n > 0);
		ProbeN* src = static_cast<ProbeN*>(nz_elems(n, sizeof(ProbeN), "A"));
		auto v = NazaraStackVector(ProbeN, n);
		nz_check(v.capacity() == n && v.empty(), "NazaraStackVector reserves the capacity asked");
		for (std::size_t i = 0; i < n; ++i) v.push_back(src[i]);
		same(v, n, "NazaraStackVector holds its elements");
	}
	void d_iterate()
	{
		Mem m; V v(m.st, m.cap); m.fill(v);
		std::size_t n = 0;
		for (ProbeN& p : v) { nz_check(nz_value(&p) == nz_elem("A", n), "iteration visits the elements in order"); ++n; }
		nz_check(n == m.k, "iteration visits every element");
		const V& c = v; n = 0;
		for (auto it = c.rbegin(); it != c.rend(); ++it) { nz_check(nz_value(&*it) == nz_elem("A", m.k - 1 - n), "reverse iteration visits the elements in reverse order"); ++n; }
		nz_check(n == m.k, "reverse iteration visits every element");
	}
}
