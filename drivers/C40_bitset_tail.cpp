// Bitset: no operation leaves a set bit past the size, or a wrong number of blocks.
#include "bits.hpp"
namespace
{
	template<typename B, S N, template<typename> class K = Dyn> struct Cl
	{
		using V = K<B>; static constexpr S W = bpb<B>;
		static constexpr const char* T = "no bit is set past the size, and the blocks are those the size needs";
		static void is(const V& v, S n) { clean<B>(v, n, T); }
		static V arb() { Src<B, N> s; return s.template make<V>(); }
		static void construct() { { V v; is(v, 0); } { V v(N, true); is(v, N); } { V v(N, false); is(v, N); } { V v = arb(); is(v, N); V w(v); is(w, N); V x(std::move(w)); is(x, N); is(w, 0); x = v; is(x, N); x = std::move(v); is(x, N); is(v, 0); x = V(N / 2, true); is(x, N / 2); } }
		static void blocks() { for (S k = 0; k < nblocks<B>(N); ++k) { V v = arb(); B b; anyword(b); v.SetBlock(k, b); is(v, N); } }
		static void sets() { { V v = arb(); v.Set(); is(v, N); v.Reset(); is(v, N); v.Set(true); is(v, N); v.Set(false); is(v, N); } for (S k = 0; k < N; ++k) { V v = arb(); v.Set(k, nz_any_bool()); is(v, N); v[k] = nz_any_bool(); is(v, N); v[k].Flip(); is(v, N); v.Reset(k); is(v, N); } for (S k : { N, N + 1, N + W - 1, N + W }) { V v = arb(); v.UnboundedSet(k, false); is(v, N); v.UnboundedReset(k); is(v, N); v.UnboundedSet(k); is(v, k + 1); } }
		static void flip() { V v = arb(); v.Flip(); is(v, N); v.Flip(); is(v, N); V w = ~v; is(w, N); w.PerformsNOT(v); is(w, N); V x(3 * W + 1, true); x.PerformsNOT(v); is(x, N); V y; y.PerformsNOT(x); is(y, N); }
		static void resize() { for (S m = 0; m <= N + W + 1; m += (N > 24 ? 5 : 1)) for (bool x : { false, true }) { V v = arb(); v.Resize(m, x); is(v, m); v.Resize(N, x); is(v, N); v.Flip(); is(v, N); } }
		static void append() { for (S c : { S(0), S(1), S(5), W - N % W, W, W + 3 }) { { U8 t = nz_any_u8(); V v = arb(); v.AppendBits(t, c); is(v, N + c); } { U32 t = nz_any_u32(); V v = arb(); v.AppendBits(t, c); is(v, N + c); } { U64 t = nz_any_u64(); V v = arb(); v.AppendBits(t, c); is(v, N + c); v.AppendBits(t, 1); is(v, N + c + 1); } } }
		static void appends() { for (S c : { S(0), S(1), S(5), W - N % W, W, W + 3 }) { std::int8_t t = nz_any_i8(); V v = arb(); v.AppendBits(t, c); is(v, N + c); int u = nz_any_i32(); v = arb(); v.AppendBits(u, c); is(v, N + c); } }
		static void write() { for (S c = 0; c <= 17; ++c) { U8 b[3] = { nz_any_u8(), nz_any_u8(), nz_any_u8() }; V v = arb(); auto q = v.Write(b, c); is(v, N + c); if (c <= 14) { v.Write(q, 9); is(v, N + c + 9); } V w = V::FromPointer(b, c); is(w, c); } }
		static void shift() { for (S d : { S(0), S(1), S(5), W - 1, W, W + 1, 2 * W, N ? N - 1 : 0, N, N + 1 }) { V v = arb(); v.ShiftLeft(d); is(v, N); V w = arb(); w.ShiftRight(d); is(w, N); V x = v << d; is(x, N); x = v >> d; is(x, N); x <<= d; is(x, N); x >>= d; is(x, N); } V v = arb(); v.Reverse(); is(v, N); }
		static void clear() { V v = arb(); v.Clear(); is(v, 0); v.Resize(N, true); is(v, N); v.Reserve(5 * W); is(v, N); V w(W + 3, true); v.Swap(w); is(v, W + 3); is(w, N); std::swap(v, w); is(v, N); is(w, W + 3); }
		template<S M> static void two_() { Src<B, N> a; Src<B, M> b; constexpr S X = N > M ? N : M; V v = a.template make<V>(), w = b.template make<V>(); { V r = v & w; is(r, X); } { V r = v | w; is(r, X); } { V r = v ^ w; is(r, X); } { V r(X + 2 * W, true); r.PerformsAND(v, w); is(r, X); } { V r(X + 2 * W, true); r.PerformsOR(v, w); is(r, X); } { V r(X + 2 * W, true); r.PerformsXOR(v, w); is(r, X); } { V r(v); r &= w; is(r, X); } { V r(v); r |= w; is(r, X); } { V r(v); r ^= w; is(r, X); r.PerformsXOR(w, r); is(r, X); } is(v, N); is(w, M); }
		static void two() { two_<0>(); two_<1>(); two_<5>(); two_<W>(); two_<W + 3>(); two_<2 * W>(); two_<2 * W + 5>(); }
		template<typename I> static void from(I i) { V v(i); is(v, sizeof(I) * 8); V w(W + 3, true); w = i; is(w, sizeof(I) * 8); }
		static void integers() { if constexpr (sizeof(B) >= 1) { from(nz_any_u8()); from(nz_any_i8()); } if constexpr (sizeof(B) >= 2) { from(nz_any_u16()); from(nz_any_i16()); } if constexpr (sizeof(B) >= 4) { from(nz_any_u32()); from(nz_any_i32()); } if constexpr (sizeof(B) >= 8) { from(nz_any_u64()); from(nz_any_i64()); } }
		static void wide() { if constexpr (sizeof(B) == 1) { S k = nz_pick(16); U16 t = static_cast<U16>(1u << k); if (k >= 5) t |= static_cast<U16>((nz_any_u8() & 7) << (k - 5)); V v(t); nz_check(v.GetSize() <= 16, T); is(v, v.GetSize()); V w(static_cast<std::int16_t>(t | 0x8000)); is(w, w.GetSize()); } }
		static void strings() { const char* p = "1011001110100111011"; for (S n = 0; n <= 19; ++n) { V v(p, n); is(v, n); V w(std::string_view(p, n)); is(w, n); } V v(p); is(v, 19); v = std::string_view(p, N < 19 ? N : 19); is(v, N < 19 ? N : 19); }
	};
}
#define CL(B, N, name) extern "C" void d_##B##_##N##_##name() { Cl<B, N>::name(); }
#define CK(K, B, N, name) extern "C" void d_##K##_##B##_##N##_##name() { Cl<B, N, K>::name(); }
#define ALL(B, N) CL(B, N, construct) CL(B, N, blocks) CL(B, N, sets) CL(B, N, flip) CL(B, N, resize) CL(B, N, append) CL(B, N, appends) CL(B, N, write) CL(B, N, shift) CL(B, N, clear) CL(B, N, two)
#define ALLK(K, B, N) CK(K, B, N, construct) CK(K, B, N, blocks) CK(K, B, N, sets) CK(K, B, N, flip) CK(K, B, N, resize) CK(K, B, N, append) CK(K, B, N, write) CK(K, B, N, shift) CK(K, B, N, clear) CK(K, B, N, two)
ALL(U8, 0) ALL(U8, 1) ALL(U8, 5) ALL(U8, 7) ALL(U8, 8) ALL(U8, 9) ALL(U8, 13) ALL(U8, 16) ALL(U8, 19) ALL(U16, 13) ALL(U16, 16) ALL(U16, 35) ALL(U32, 1) ALL(U32, 20) ALL(U32, 32) ALL(U32, 33) ALL(U32, 70) ALL(U64, 0) ALL(U64, 60) ALL(U64, 64) ALL(U64, 65) ALL(U64, 130)
ALLK(Fix, U8, 13) ALLK(Hyb, U8, 13) ALLK(Hyb, U8, 19) ALLK(Fix, U32, 33) ALLK(Hyb, U32, 40)
CL(U8, 0, integers) CL(U16, 0, integers) CL(U32, 0, integers) CL(U64, 0, integers) CL(U8, 0, wide) CL(U8, 5, strings) CL(U32, 32, strings) CL(U64, 9, strings)
CL(U64, 300, construct) CL(U64, 300, blocks) CL(U64, 300, flip) CL(U64, 300, append) CL(U64, 300, write) CL(U64, 300, shift) CL(U64, 300, clear) CL(U64, 300, two)
