// Bitset: shifts by every distance and reversal, for arbitrary contents at sizes around the block boundaries.
#include "bits.hpp"
namespace
{
	template<typename B, S N, template<typename> class K = Dyn> struct Sh
	{
		using V = K<B>;
		template<typename F> static void each(F f)
		{
			if (N <= 24) { for (S d = 0; d <= N + bpb<B> + 1; ++d) f(d); }
			else for (S d : { S(0), S(1), bpb<B> - 1, bpb<B>, bpb<B> + 1, 2 * bpb<B>, N - 1, N, N + 1 }) f(d);
			f(2 * N + 1000); f(~S(0)); f(~S(0) - bpb<B> + 1);
		}
		static void left() { each([](S d) { Src<B, N> s; V v = s.template make<V>(); v.ShiftLeft(d); bits<B>(v, N, [&](S i) { return i >= d && s[i - d]; }, "shift left moves bit i to i + distance"); }); }
		static void right() { each([](S d) { Src<B, N> s; V v = s.template make<V>(); v.ShiftRight(d); bits<B>(v, N, [&](S i) { return d < N && i < N - d && s[i + d]; }, "shift right moves bit i to i - distance"); }); }
		static void ops() { for (S d : { S(0), S(3), bpb<B>, N - 1, N + 2 }) { Src<B, N> s; V v = s.template make<V>(); const V& c = v; V l = c << d, r = c >> d; bits<B>(l, N, [&](S i) { return i >= d && s[i - d]; }, "<<"); bits<B>(r, N, [&](S i) { return d < N && i < N - d && s[i + d]; }, ">>"); bits<B>(v, N, [&](S i) { return s[i]; }, "shifting a copy leaves the operand"); l = v; r = v; nz_check(&(l <<= d) == &l && &(r >>= d) == &r, "shift assignments return their operand"); bits<B>(l, N, [&](S i) { return i >= d && s[i - d]; }, "<<="); bits<B>(r, N, [&](S i) { return d < N && i < N - d && s[i + d]; }, ">>="); } }
		static void reverse() { Src<B, N> s; V v = s.template make<V>(); v.Reverse(); bits<B>(v, N, [&](S i) { return s[N - 1 - i]; }, "reversal moves bit i to size-1-i"); v.Reverse(); bits<B>(v, N, [&](S i) { return s[i]; }, "reversing twice"); }
	};
}
#define SH(B, N, name) extern "C" void d_##B##_##N##_##name() { Sh<B, N>::name(); }
#define ALL(B, N) SH(B, N, left) SH(B, N, right) SH(B, N, ops) SH(B, N, reverse)
#define SK(K, B, N) extern "C" void d_##K##_##B##_##N##_left() { Sh<B, N, K>::left(); } extern "C" void d_##K##_##B##_##N##_right() { Sh<B, N, K>::right(); } extern "C" void d_##K##_##B##_##N##_reverse() { Sh<B, N, K>::reverse(); }
SH(U8, 0, left) SH(U8, 0, right) SH(U8, 0, reverse) ALL(U8, 1) ALL(U8, 5) ALL(U8, 7) ALL(U8, 8) ALL(U8, 9) ALL(U8, 13) ALL(U8, 16) ALL(U8, 17) ALL(U8, 19) ALL(U8, 24)
ALL(U16, 31) ALL(U16, 40) ALL(U32, 32) ALL(U32, 33) ALL(U32, 64) ALL(U32, 70) ALL(U64, 64) ALL(U64, 70) ALL(U64, 128)
SK(Fix, U8, 19) SK(Hyb, U8, 19) SK(Fix, U32, 70) SK(Hyb, U32, 70)
ALL(U64, 300) // indices which need more than a byte
