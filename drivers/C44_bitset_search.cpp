// Bitset: searches, counts and iteration over the set bits, for arbitrary contents at sizes around the block boundaries.
#include "bits.hpp"
namespace
{
	template<typename B, S N, template<typename> class K = Dyn> struct Se
	{
		using V = K<B>;
		// every content has exactly one such form: bit m is the first set (or unset) one at or after bit from, or there is none (m == N)
		static void firstat(Src<B, N>& s, S from, S m, bool v) { for (S i = from; i < N && i <= m; ++i) { B b = static_cast<B>(B(1) << (i % bpb<B>)); bool x = (i == m) == v; s.w[i / bpb<B>] = x ? static_cast<B>(s.w[i / bpb<B>] | b) : static_cast<B>(s.w[i / bpb<B>] & static_cast<B>(~b)); } }
		static S pos(S n) { if (n <= 17) return nz_pick(n); constexpr S at[] = { 0, 1, bpb<B> - 2, bpb<B> - 1, bpb<B>, bpb<B> + 1, N / 2, N - 2, N - 1, N }; S k = at[nz_pick(10)]; return k < n ? k : n - 1; }
		static void first() { Src<B, N> s; S m = pos(N + 1); firstat(s, 0, m, true); const V v = s.template make<V>(); nz_check(v.FindFirst() == (m < N ? m : V::npos), "the first set bit"); bits<B>(v, N, [&](S i) { return s[i]; }, "a search changes nothing"); }
		static void next() { Src<B, N> s; S k = pos(N), m = k + 1 + pos(N - k); firstat(s, k + 1, m, true); const V v = s.template make<V>(); nz_check(v.FindNext(k) == (m < N ? m : V::npos), "the next set bit"); }
		static void any() { Src<B, N> s; S m = pos(N + 1); firstat(s, 0, m, true); const V v = s.template make<V>(); nz_check(v.TestAny() == (m < N), "test any"); nz_check(v.TestNone() == (m == N), "test none"); }
		static void all() { Src<B, N> s; S m = pos(N + 1); firstat(s, 0, m, false); const V v = s.template make<V>(); nz_check(v.TestAll() == (m == N), "test all"); }
		static void count() { Src<B, N> s; const V v = s.template make<V>(); S n = 0; for (S i = 0; i < N; ++i) n += S((s.w[i / bpb<B>] >> (i % bpb<B>)) & 1); nz_check(v.Count() == n, "the count is the number of set bits"); }
		static void ones() { V v(N, true); nz_check(v.TestAll() && v.Count() == N && v.TestAny() == (N != 0) && v.FindFirst() == (N ? 0 : V::npos), "a full bitset"); for (S i = 0; i < N; ++i) nz_check(v.FindNext(i) == (i + 1 < N ? i + 1 : V::npos), "next bit of a full bitset"); V z(N, false); nz_check(z.TestNone() && !z.TestAny() && z.Count() == 0 && z.FindFirst() == V::npos && z.TestAll() == (N == 0), "an unset bitset"); for (S i = 0; i < N; ++i) nz_check(z.FindNext(i) == V::npos, "next bit of an unset bitset"); }
		static void one() { S k = nz_pick(N); V v(N, false); v.Set(k); nz_check(v.Count() == 1 && v.FindFirst() == k && v.TestAny() && v.TestAll() == (N == 1) && v.FindNext(k) == V::npos, "a bitset with one bit"); for (S i = 0; i < k; ++i) nz_check(v.FindNext(i) == k, "next bit"); V w(N, true); w.Reset(k); nz_check(w.Count() == N - 1 && w.TestAll() == false && w.FindFirst() == (k ? 0 : N > 1 ? 1 : V::npos), "a bitset with all bits but one"); S n = 0, last = V::npos; for (S b : w.IterBits()) { nz_check(b != k && b < N && (n == 0 || b > last), "iteration in order"); last = b; ++n; } nz_check(n == N - 1, "iteration visits every set bit"); }
		static void iter() { Src<B, N> s; S p = nz_pick(N <= 5 ? S(1) << N : 16); if (N > 5) p = (p & 1) | (p & 2) << 3 | (p & 4) << 5 | (p & 8) << (N - 4); for (S i = 0; i < nblocks<B>(N); ++i) s.w[i] = static_cast<B>(p >> (i * bpb<B>)); const V v = s.template make<V>(); S at = 0; for (S b : v.IterBits()) { nz_check(b < N && b >= at, "iteration is increasing"); if (b >= N || b < at) break; for (; at < b; ++at) nz_check(!s[at], "no set bit is skipped"); nz_check(s[b], "iteration visits set bits"); at = b + 1; } for (; at < N; ++at) nz_check(!s[at], "no set bit is skipped"); }
		static void postinc() { Src<B, N> s; S k = pos(N + 1); firstat(s, 0, k, true); S m = k < N ? k + 1 + pos(N - k) : N; firstat(s, k + 1, m, true); const V v = s.template make<V>(); auto t = v.IterBits(); auto i = t.begin(), j = i, e = t.end(); nz_check((i == e) == (k == N) && (i != e) == (k < N), "an iteration over nothing ends at once"); if (k == N) return; nz_check(*i == k && *i++ == k, "post-increment returns the old position"); nz_check(m < N ? i != e && *i == m : i == e, "post-increment advances"); nz_check(&++j == &j && j == i, "pre-increment advances as well"); }
	};
}
#define SE(B, N, name) extern "C" void d_##B##_##N##_##name() { Se<B, N>::name(); }
#define SK(K, B, N, name) extern "C" void d_##K##_##B##_##N##_##name() { Se<B, N, K>::name(); }
#define SMALL(B, N) SE(B, N, first) SE(B, N, next) SE(B, N, count) SE(B, N, any) SE(B, N, all) SE(B, N, ones) SE(B, N, one) SE(B, N, postinc)
#define LARGE(B, N) SE(B, N, first) SE(B, N, next) SE(B, N, count) SE(B, N, any) SE(B, N, all) SE(B, N, ones)
SE(U8, 0, first) SE(U8, 0, count) SE(U8, 0, any) SE(U8, 0, all) SE(U8, 0, ones) SE(U8, 0, iter)
SMALL(U8, 1) SMALL(U8, 5) SMALL(U8, 8) SMALL(U8, 9) SMALL(U8, 16) SMALL(U8, 19) SMALL(U16, 17) SMALL(U16, 33)
SE(U8, 1, iter) SE(U8, 5, iter) SE(U8, 9, iter) SE(U8, 17, iter) SE(U16, 4, iter) SE(U64, 5, iter) SE(U32, 40, iter)
LARGE(U32, 32) LARGE(U32, 33) LARGE(U32, 70) LARGE(U64, 63) LARGE(U64, 64) LARGE(U64, 70) LARGE(U64, 130)
SK(Fix, U8, 13, first) SK(Fix, U8, 13, next) SK(Fix, U8, 13, count) SK(Fix, U8, 13, any) SK(Fix, U8, 13, all) SK(Hyb, U8, 19, first) SK(Hyb, U8, 19, next) SK(Hyb, U8, 19, count) SK(Hyb, U8, 19, any) SK(Hyb, U8, 19, all)
SE(U64, 300, first) SE(U64, 300, next) SE(U64, 300, any) SE(U64, 300, all) SE(U64, 300, ones) SE(U64, 300, count) // indices which need more than a byte
