// Standard algorithms over the library's iterators give what a direct computation over the contents gives.
#include "nz.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <algorithm>
#include <iterator>
#include <numeric>
using S = std::size_t; using D = std::ptrdiff_t;
enum class F { A, B, C, D, E, Max = E };
namespace Nz { template<> struct EnumAsFlags<F> { static constexpr F max = F::Max; }; }
namespace
{
	using V = std::uint64_t;
	// set bits, as positions
	template<typename Range> void positions(const Range& r, S n, const bool* set)
	{
		auto first = r.begin(), last = r.end(); S count = 0; for (S i = 0; i < n; ++i) count += set[i];
		nz_check(std::distance(first, last) == D(count), "the distance is the number of set bits");
		S k = nz_pick(n); auto is = [k](auto v) { return static_cast<S>(v) == k; };
		auto it = std::find_if(first, last, is); nz_check((it != last) == set[k], "a position is found if it is set"); if (set[k]) nz_check(is(*it), "the iterator found designates it");
		nz_check(std::count_if(first, last, is) == D(set[k]), "a set position is seen once"); nz_check(std::any_of(first, last, is) == set[k] && std::none_of(first, last, is) == !set[k], "membership");
		S j = nz_pick(count + 1); auto a = first; std::advance(a, D(j)); nz_check((a == last) == (j == count) && std::next(first, D(j)) == a, "advancing by the number of set bits reaches the end"); if (j < count) { S seen = 0, p = 0; for (; p < n; ++p) if (set[p] && seen++ == j) break; nz_check(static_cast<S>(*a) == p, "advancing goes from one set bit to the next"); }
		S out[8]; S* o = std::transform(first, last, out, [](auto v) { return static_cast<S>(v); }); S m = 0; for (S i = 0; i < n; ++i) if (set[i]) nz_check(out[m++] == i, "copies list the set positions in order"); nz_check(o == out + count, "everything is copied");
	}
	// every pair of positions: equal exactly when they are the same distance from the start
	template<typename I> void pairs(I first, S count) { S i = nz_pick(count + 1), j = nz_pick(count + 1); I a = first, b = first; for (S k = 0; k < i; ++k) ++a; for (S k = 0; k < j; ++k) b++; nz_check((a == b) == (i == j) && (b == a) == (i == j), "two positions are equal exactly when they are the same"); nz_check((a != b) == (i != j) && (b != a) == (i != j), "two positions differ exactly when they are not the same"); }
	template<S N> void bitpairs() { Nz::Bitset<Nz::UInt8> b(N * 4, false); Nz::Flags<F> f; S count = 0; for (S i = 0; i < N; ++i) if (nz_pick(2) != 0) { b.Set(i * 4 + (i & 1)); f |= static_cast<F>(i); ++count; } if (nz_pick(2)) pairs(b.IterBits().begin(), count); else pairs(f.begin(), count); }
	void poolpairs() { Nz::MemoryPool<V> p(3); S index, count = 0; for (S i = 0; i < 7; ++i) p.Allocate(index, V(10 + i)); for (S i = 0; i < 7; ++i) if (i % 3 != 2 && nz_pick(2)) p.Free(i); else ++count; if (nz_pick(2)) pairs(p.begin(), count); else pairs(p.cbegin(), count); }
	template<typename B, S N> void bitset() { bool set[N]; Nz::Bitset<B> b(N, false); for (S i = 0; i < N; ++i) { set[i] = nz_pick(2) != 0; if (set[i]) b.Set(i); } positions(b.IterBits(), N, set); }
	void flags() { bool set[5]; Nz::Flags<F> f; for (S i = 0; i < 5; ++i) { set[i] = nz_pick(2) != 0; if (set[i]) f |= static_cast<F>(i); } positions(f, 5, set); }
	// a random access range over elements el(0) .. el(n - 1)
	template<typename I, typename El, typename At> void random(I first, I last, S n, El el, At at)
	{
		nz_check(last - first == D(n) && first - last == -D(n) && std::distance(first, last) == D(n), "the distance is the number of elements");
		S i = nz_pick(n + 1), j = nz_pick(n + 1); auto p = first, q = first; std::advance(p, D(i)); std::advance(q, D(j)); nz_check(q - p == D(j) - D(i) && std::distance(p, q) == D(j) - D(i), "differences are distances"); nz_check((p == q) == (i == j) && (p != q) == (i != j), "two positions are equal exactly when they are the same"); nz_check(p + (q - p) == q && q - (q - p) == p, "a difference is the offset between its iterators");
		if (j <= i) nz_check(std::prev(p, D(i - j)) == q, "going back"); else nz_check(std::next(p, D(j - i)) == q, "going forward");
		auto t = p; auto* r = &(t += D(j) - D(i)); nz_check(r == &t && t == q, "advancing gives the iterator itself"); (r = &(t -= D(j) - D(i))); nz_check(r == &t && t == p, "going back gives the iterator itself");
		if (i < n) { nz_check(at(*p) == &el(i) && at(first[D(i)]) == &el(i), "the element designated"); std::reverse_iterator<I> b(last); b += D(n - 1 - i); nz_check(at(*b) == &el(i), "reverse iteration"); }
		S m = 0; bool order = true; std::for_each(first, last, [&](auto&& x) { order &= at(x) == &el(m); ++m; }); nz_check(order && m == n, "every element is visited once, in order");
	}
	void sparse(S n, int stride)
	{
		V buf[24]; for (V& v : buf) v = nz_any_u64(); V* base = stride < 0 ? buf + 23 : buf; Nz::SparsePtr<V> p(base, stride); D step = stride / D(sizeof(V));
		auto el = [&](S i) -> V& { return base[D(i) * step]; }; auto at = [](const V& v) { return &v; };
		random(p, p + n, n, el, at); random(Nz::SparsePtr<const V>(p), Nz::SparsePtr<const V>(p) + n, n, [&](S i) -> const V& { return base[D(i) * step]; }, at);
		V out[8]; V* o = std::copy(p, p + n, out); nz_check(o == out + n, "everything is copied"); for (S i = 0; i < n; ++i) nz_check(out[i] == el(i), "copies list the elements in order");
		V was[24]; for (S i = 0; i < 24; ++i) was[i] = buf[i]; V w[8]; for (S i = 0; i < n; ++i) w[i] = nz_any_u64(); auto e = std::copy(w, w + n, p); nz_check(e == p + n, "writing through a strided range ends at its end"); for (S i = 0; i < n; ++i) nz_check(el(i) == w[i], "writing through a strided range"); for (S i = 0; i < 24; ++i) { bool in = false; for (S k = 0; k < n; ++k) in |= &el(k) == buf + i; if (!in) nz_check(buf[i] == was[i], "nothing between the elements is written"); }
		if (stride > 0) { for (S i = 0; i < n; ++i) w[i] = el(i); std::reverse(p, p + n); for (S i = 0; i < n; ++i) nz_check(el(i) == w[n - 1 - i], "reversing a strided range"); } // a negative stride orders by address, against the direction of travel
		auto v = nz_any_u64(); std::fill(p, p + n, v); for (S i = 0; i < n; ++i) nz_check(el(i) == v, "filling a strided range");
		std::iota(p, p + n, V(3)); for (S i = 0; i < n; ++i) nz_check(el(i) == 3 + i, "numbering a strided range"); if (n) { S k = nz_pick(n); nz_check(std::lower_bound(p, p + n, V(3 + k)) == p + k && std::find(p, p + n, V(3 + k)) - p == D(k), "searching a strided range"); nz_check(std::accumulate(p, p + n, V(0)) == 3 * n + n * (n - 1) / 2, "summing a strided range"); }
	}
	void kv()
	{
		Nz::EnumArray<F, V> a; for (V& v : a) v = nz_any_u64(); auto t = a.iter_kv(); auto el = [&](S i) -> V& { return a[static_cast<F>(i)]; };
		random(t.begin(), t.end(), 5, el, [](const auto& kv) { return &kv.second; });
		auto c = std::as_const(a).iter_kv(); random(c.begin(), c.end(), 5, [&](S i) -> const V& { return a[static_cast<F>(i)]; }, [](const auto& kv) { return &kv.second; });
		S k = nz_pick(5); auto it = std::find_if(t.begin(), t.end(), [k](const auto& kv) { return kv.first == static_cast<F>(k); }); nz_check(it - t.begin() == D(k) && &(*it).second == &el(k), "finding a key");
		for (S i = 0; i < 5; ++i) el(i) = i * 2; auto lb = std::lower_bound(t.begin(), t.end(), V(2 * k), [](const auto& kv, V v) { return kv.second < v; }); nz_check(lb - t.begin() == D(k), "searching the values");
	}
	template<typename C> void seq(C& c, S n)
	{
		for (S i = 0; i < n; ++i) c.push_back(nz_any_u64()); auto el = [&](S i) -> V& { return c.data()[i]; }; auto at = [](const V& v) { return &v; };
		random(c.begin(), c.end(), n, el, at); auto rel = [&](S i) -> V& { return c.data()[n - 1 - i]; }; random(c.rbegin(), c.rend(), n, rel, at);
		V out[8]; std::copy(c.begin(), c.end(), out); for (S i = 0; i < n; ++i) nz_check(out[i] == el(i), "copies list the elements in order");
	}
	void pool()
	{
		Nz::MemoryPool<V> p(3); S index; bool live[5]; V* at[5]; S count = 0; V sum = 0; for (S i = 0; i < 5; ++i) at[i] = p.Allocate(index, V(10 + i)); for (S i = 0; i < 5; ++i) { live[i] = nz_any_bool(); if (!live[i]) p.Free(i); else { ++count; sum += 10 + i; } }
		nz_check(std::distance(p.begin(), p.end()) == D(count) && std::distance(p.cbegin(), p.cend()) == D(count), "the distance is the number of live entries"); nz_check(std::accumulate(p.begin(), p.end(), V(0)) == sum, "summing the live entries");
		S k = nz_pick(5); auto it = std::find(p.begin(), p.end(), V(10 + k)); nz_check((it != p.end()) == live[k], "a live entry is found"); if (live[k]) nz_check(&*it == at[k] && it.GetIndex() == k, "the iterator found designates it");
		V out[5]; V* o = std::copy(p.begin(), p.end(), out); S m = 0; for (S i = 0; i < 5; ++i) if (live[i]) nz_check(out[m++] == 10 + i, "copies list the live entries in order"); nz_check(o == out + count, "every live entry is copied");
	}
}
extern "C" void d_bits_u8() { bitset<Nz::UInt8, 5>(); }
extern "C" void d_bits_cross() { Nz::Bitset<Nz::UInt8> b(12, false); bool set[12] = {}; for (S i : { S(0), S(7), S(8), S(11) }) { set[i] = nz_pick(2) != 0; if (set[i]) b.Set(i); } positions(b.IterBits(), 12, set); }
extern "C" void d_bit_pairs() { bitpairs<4>(); }
extern "C" void d_pool_pairs() { poolpairs(); }
extern "C" void d_flags() { flags(); }
extern "C" void d_sparse_dense() { sparse(nz_pick(5), 8); }
extern "C" void d_sparse_wide() { sparse(nz_pick(5), 24); }
extern "C" void d_sparse_back() { sparse(nz_pick(5), -16); }
extern "C" void d_kv() { kv(); }
extern "C" void d_stackvector() { alignas(V) char s[8 * sizeof(V)]; Nz::StackVector<V> v(reinterpret_cast<V*>(s), 8); seq(v, nz_pick(5)); }
extern "C" void d_fixedvector() { Nz::FixedVector<V, 8> v; seq(v, nz_pick(5)); }
extern "C" void d_pool() { pool(); }
