// Bitset: single-bit and whole-set operations, logical operations and comparisons for operands of any sizes and contents.
#include "bits.hpp"
namespace
{
	template<typename B, S N, template<typename> class K = Dyn> struct One
	{
		using V = K<B>;
		static void access() { Src<B, N> s; V v = s.template make<V>(); const V& c = v; bits<B>(v, N, [&](S i) { return s[i]; }, "test"); for (S i = 0; i < N; ++i) { nz_check(c[i] == s[i], "const operator[]"); nz_check(v[i] == s[i] && v[i].Test() == s[i], "operator[]"); nz_check(v.UnboundedTest(i) == s[i], "unbounded test"); } nz_check(!v.UnboundedTest(N) && !v.UnboundedTest(N + 100), "a bit past the end is unset"); }
		static void set1() { for (S k = 0; k < N; ++k) { Src<B, N> s; V v = s.template make<V>(); v.Set(k); bits<B>(v, N, [&](S i) { return i == k || s[i]; }, "set one bit"); } }
		static void reset1() { for (S k = 0; k < N; ++k) { Src<B, N> s; V v = s.template make<V>(); v.Reset(k); bits<B>(v, N, [&](S i) { return i != k && s[i]; }, "reset one bit"); } }
		static void setv() { for (S k = 0; k < N; ++k) { Src<B, N> s; bool x = nz_any_bool(); V v = s.template make<V>(); v.Set(k, x); bits<B>(v, N, [&](S i) { return i == k ? x : s[i]; }, "set one bit to a value"); } }
		static void usetv() { for (S k = 0; k < N; ++k) { Src<B, N> s; bool x = nz_any_bool(); V v = s.template make<V>(); v.UnboundedSet(k, x); bits<B>(v, N, [&](S i) { return i == k ? x : s[i]; }, "unbounded set"); } }
		static void ureset() { Src<B, N> s; V v = s.template make<V>(); v.UnboundedReset(N); v.UnboundedReset(N + 77); bits<B>(v, N, [&](S i) { return s[i]; }, "resetting a bit past the end changes nothing"); if (N) { v.UnboundedReset(N - 1); bits<B>(v, N, [&](S i) { return i != N - 1 && s[i]; }, "unbounded reset"); } }
		static void ugrow() { for (S k : { N, N + 1, N + 9 }) { Src<B, N> s; V v = s.template make<V>(); v.UnboundedSet(k); bits<B>(v, k + 1, [&](S i) { return i == k || s[i]; }, "setting a bit past the end grows the bitset"); } }
		static void proxy()
		{
			for (S k = 0; k < N; ++k)
			{
				Src<B, N> s; bool x = nz_any_bool();
				{ V v = s.template make<V>(); v[k] = x; bits<B>(v, N, [&](S i) { return i == k ? x : s[i]; }, "bit ="); }
				{ V v = s.template make<V>(); v[k].Set(x); bits<B>(v, N, [&](S i) { return i == k ? x : s[i]; }, "bit set"); }
				{ V v = s.template make<V>(); v[k].Flip(); bits<B>(v, N, [&](S i) { return (i == k) != s[i]; }, "bit flip"); }
				{ V v = s.template make<V>(); v[k].Reset(); bits<B>(v, N, [&](S i) { return i != k && s[i]; }, "bit reset"); }
				{ V v = s.template make<V>(); v[k] |= x; bits<B>(v, N, [&](S i) { return i == k ? (s[i] | x) : s[i]; }, "bit |="); }
				{ V v = s.template make<V>(); v[k] &= x; bits<B>(v, N, [&](S i) { return i == k ? (s[i] & x) : s[i]; }, "bit &="); }
				{ V v = s.template make<V>(); v[k] ^= x; bits<B>(v, N, [&](S i) { return i == k ? (s[i] ^ x) : s[i]; }, "bit ^="); }
				{ V v = s.template make<V>(); v[k] -= x; bits<B>(v, N, [&](S i) { return i == k ? (s[i] & !x) : s[i]; }, "bit -="); }
				{ V v = s.template make<V>(); v[k] = v[N - 1 - k]; bits<B>(v, N, [&](S i) { return i == k ? s[N - 1 - k] : s[i]; }, "bit = bit"); }
			}
		}
		static void all() { Src<B, N> s; V v = s.template make<V>(); v.Set(); bits<B>(v, N, [&](S) { return true; }, "set all"); v.Set(false); bits<B>(v, N, [&](S) { return false; }, "set all to false"); s.fill(v); v.Reset(); bits<B>(v, N, [&](S) { return false; }, "reset all"); }
		static void flip() { Src<B, N> s; V v = s.template make<V>(); v.Flip(); bits<B>(v, N, [&](S i) { return !s[i]; }, "flip"); v.Flip(); bits<B>(v, N, [&](S i) { return s[i]; }, "flip twice"); }
		static void comp() { Src<B, N> s; const V v = s.template make<V>(); V w = ~v; bits<B>(w, N, [&](S i) { return !s[i]; }, "complement"); bits<B>(v, N, [&](S i) { return s[i]; }, "complement leaves its operand"); w.PerformsNOT(w); bits<B>(w, N, [&](S i) { return s[i]; }, "complement in place"); }
		static void copy() { Src<B, N> s; V v = s.template make<V>(); V w(v); bits<B>(w, N, [&](S i) { return s[i]; }, "copy"); w.Flip(); bits<B>(v, N, [&](S i) { return s[i]; }, "copies are independent"); V x; x = w; bits<B>(x, N, [&](S i) { return !s[i]; }, "copy assignment"); V y(std::move(x)); bits<B>(y, N, [&](S i) { return !s[i]; }, "move"); nz_check(x.GetSize() == 0 && x.GetBlockCount() == 0, "a moved-from bitset is empty"); x = std::move(v); bits<B>(x, N, [&](S i) { return s[i]; }, "move assignment"); x.Swap(y); bits<B>(x, N, [&](S i) { return !s[i]; }, "swap"); bits<B>(y, N, [&](S i) { return s[i]; }, "swap"); auto& r = x; x = r; bits<B>(x, N, [&](S i) { return !s[i]; }, "self assignment"); }
		static void blocks() { Src<B, N> s; V v = s.template make<V>(); for (S i = 0; i < nblocks<B>(N); ++i) { B b; anyword(b); V w(v); w.SetBlock(i, b); bits<B>(w, N, [&](S j) { return j / bpb<B> == i ? ((b >> (j % bpb<B>)) & 1) != 0 : s[j]; }, "set block"); B g = v.GetBlock(i); for (S j = 0; j < bpb<B>; ++j) nz_check((((g >> j) & 1) != 0) == s[i * bpb<B> + j], "get block"); } }
		static void selfeq() { Src<B, N> s; V v = s.template make<V>(), w = s.template make<V>(); nz_check(v == w && !(v != w) && v <= w && v >= w && !(v < w) && !(v > w), "equal bitsets compare equal"); }
	};
	template<typename B, S N, S M, template<typename> class K = Dyn> struct Two
	{
		using V = K<B>; static constexpr S X = N > M ? N : M;
		Src<B, N> a; Src<B, M> b; V v = a.template make<V>(), w = b.template make<V>();
		void kept() { bits<B>(v, N, [&](S i) { return a[i]; }, "operands are left alone"); bits<B>(w, M, [&](S i) { return b[i]; }, "operands are left alone"); }
		void and_() { V r = v & w; bits<B>(r, X, [&](S i) { return a[i] & b[i]; }, "&"); kept(); v &= w; bits<B>(v, X, [&](S i) { return a[i] & b[i]; }, "&="); }
		void or_() { V r = v | w; bits<B>(r, X, [&](S i) { return a[i] | b[i]; }, "|"); kept(); v |= w; bits<B>(v, X, [&](S i) { return a[i] | b[i]; }, "|="); }
		void xor_() { V r = v ^ w; bits<B>(r, X, [&](S i) { return a[i] != b[i]; }, "^"); kept(); v ^= w; bits<B>(v, X, [&](S i) { return a[i] != b[i]; }, "^="); }
		void perform() { V r(5, true), s(5, true), t(200, true); r.PerformsAND(v, w); bits<B>(r, X, [&](S i) { return a[i] & b[i]; }, "performs and"); s.PerformsOR(v, w); bits<B>(s, X, [&](S i) { return a[i] | b[i]; }, "performs or"); t.PerformsXOR(v, w); bits<B>(t, X, [&](S i) { return a[i] != b[i]; }, "performs xor"); w.PerformsOR(v, w); bits<B>(w, X, [&](S i) { return a[i] | b[i]; }, "performs or into an operand"); }
		static B low(S j, S n) { return n >= (j + 1) * bpb<B> ? static_cast<B>(~B(0)) : n <= j * bpb<B> ? B(0) : static_cast<B>((B(1) << (n - j * bpb<B>)) - 1); } // the bits of block j below bit n
		static void put(B* x, S i, bool v) { B m = static_cast<B>(B(1) << (i % bpb<B>)); x[i / bpb<B>] = static_cast<B>((x[i / bpb<B>] & static_cast<B>(~m)) | static_cast<B>(B(v) << (i % bpb<B>))); }
		void same(S k) // equal from bit k on: the shared bits are copied, the others are unset
		{
			constexpr S L = N < M ? N : M;
			for (S j = 0; j < nblocks<B>(X); ++j)
			{
				B keep = low(j, k), shared = low(j, L);
				if (j < nblocks<B>(N)) a.w[j] = static_cast<B>(a.w[j] & (shared | keep));
				if (j < nblocks<B>(M)) b.w[j] = static_cast<B>((b.w[j] & keep) | (j < nblocks<B>(N) ? a.w[j] & shared & static_cast<B>(~keep) : 0));
			}
		}
		void rebuild() { a.fill(v); b.fill(w); }
		static void at(S k, bool x) { Two t; t.same(k + 1); if (k < N) put(t.a.w, k, x); if (k < M) put(t.b.w, k, !x); t.rebuild(); t.less(!x); } // first difference at bit k
		void less(bool lt) { nz_check(!(v == w) && v != w, "bitsets with a different bit differ"); nz_check((v < w) == lt && (v <= w) == lt, "the highest different bit decides <"); nz_check((v > w) == !lt && (v >= w) == !lt, "the highest different bit decides >"); }
		void eq() { same(0); rebuild(); nz_check(v == w && !(v != w), "bitsets with the same bits are equal"); nz_check(v <= w && v >= w && !(v < w) && !(v > w), "equal bitsets are not ordered"); }
		void order() { for (S k = 0; k < X; ++k) { if (X > 24 && k % 16 != 0 && k % 16 != 15 && k + 1 != N && k + 1 != M) continue; if (k < M) at(k, false); if (k < N) at(k, true); } }
		void inter() { for (S j = 0; j < nblocks<B>(N) && j < nblocks<B>(M); ++j) b.w[j] = static_cast<B>(b.w[j] & static_cast<B>(~a.w[j])); rebuild(); nz_check(!v.Intersects(w), "disjoint bitsets do not intersect"); }
		void inter2() { for (S k = 0; k < N && k < M; ++k) { Two t; put(t.a.w, k, true); put(t.b.w, k, true); t.rebuild(); nz_check(t.v.Intersects(t.w), "bitsets with a common bit intersect"); } }
	};
}
#define S1K(K, B, N, name) extern "C" void d_##K##_##B##_##N##_##name() { One<B, N, K>::name(); }
#define S2K(K, B, N, M, name) extern "C" void d_##K##_##B##_##N##_##M##_##name() { Two<B, N, M, K> t; t.name(); }
#define SETK(K) S1K(K, U8, 13, access) S1K(K, U8, 13, setv) S1K(K, U8, 13, flip) S1K(K, U8, 13, comp) S1K(K, U8, 13, copy) S1K(K, U8, 5, copy) S1K(K, U8, 20, copy) S1K(K, U8, 13, ugrow) S1K(K, U8, 16, ugrow) S1K(K, U8, 13, all) S2K(K, U8, 5, 13, and_) S2K(K, U8, 13, 5, or_) S2K(K, U8, 8, 20, xor_) S2K(K, U8, 5, 13, eq)
#define S1(B, N, name) extern "C" void d_##B##_##N##_##name() { One<B, N>::name(); }
#define ALL1(B, N) S1(B, N, access) S1(B, N, set1) S1(B, N, reset1) S1(B, N, setv) S1(B, N, usetv) S1(B, N, ureset) S1(B, N, ugrow) S1(B, N, proxy) S1(B, N, all) S1(B, N, flip) S1(B, N, comp) S1(B, N, copy) S1(B, N, blocks) S1(B, N, selfeq)
#define S2(B, N, M, name) extern "C" void d_##B##_##N##_##M##_##name() { Two<B, N, M> t; t.name(); }
#define ALL2(B, N, M) S2(B, N, M, and_) S2(B, N, M, or_) S2(B, N, M, xor_) S2(B, N, M, perform) S2(B, N, M, eq) S2(B, N, M, order) S2(B, N, M, inter) S2(B, N, M, inter2)
ALL1(U8, 0) ALL1(U8, 1) ALL1(U8, 5) ALL1(U8, 8) ALL1(U8, 13) ALL1(U8, 16) ALL1(U8, 19) ALL1(U32, 33) ALL1(U32, 32) ALL1(U16, 17)
S1(U64, 70, access) S1(U64, 70, flip) S1(U64, 70, comp) S1(U64, 70, all) S1(U64, 70, copy) S1(U64, 70, blocks) S1(U64, 70, setv) S1(U64, 64, flip) S1(U64, 64, setv) S1(U64, 64, copy)
ALL2(U8, 0, 5) ALL2(U8, 5, 0) ALL2(U8, 3, 3) ALL2(U8, 3, 7) ALL2(U8, 8, 8) ALL2(U8, 8, 3) ALL2(U8, 5, 13) ALL2(U8, 13, 5) ALL2(U8, 8, 16) ALL2(U8, 16, 11) ALL2(U8, 3, 19) ALL2(U8, 19, 3)
S2(U64, 70, 64, and_) S2(U64, 70, 64, or_) S2(U64, 64, 70, xor_) S2(U64, 5, 130, and_) S2(U64, 130, 5, or_) S2(U64, 5, 130, xor_)
S2(U64, 70, 64, eq) S2(U64, 64, 70, inter) S2(U64, 70, 64, order) S2(U32, 33, 40, eq) S2(U32, 33, 40, order) S2(U32, 40, 33, inter2) S2(U16, 17, 3, order) S2(U16, 17, 16, eq) S2(U16, 17, 16, perform)
SETK(Fix) SETK(Hyb)
S1(U64, 300, access) S1(U64, 300, flip) S1(U64, 300, comp) S1(U64, 300, all) S1(U64, 300, copy) S1(U64, 300, ugrow) S2(U64, 300, 70, and_) S2(U64, 5, 300, or_) S2(U64, 300, 290, xor_) S2(U64, 300, 300, eq) S2(U64, 300, 70, inter)
