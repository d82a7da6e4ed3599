// Bitset: append, resize, byte sequences, integers and strings, for arbitrary contents at sizes around the block boundaries.
#include "bits.hpp"
#include <ostream>
namespace
{
	template<typename T> bool bit(T v, S i) { return i < sizeof(T) * 8 && ((static_cast<std::uint64_t>(v) >> i) & 1) != 0; }
	inline void anyof(std::uint8_t& w) { w = nz_any_u8(); } inline void anyof(std::uint16_t& w) { w = nz_any_u16(); } inline void anyof(std::uint32_t& w) { w = nz_any_u32(); } inline void anyof(std::uint64_t& w) { w = nz_any_u64(); }
	inline void anyof(std::int8_t& w) { w = nz_any_i8(); } inline void anyof(std::int16_t& w) { w = nz_any_i16(); } inline void anyof(std::int32_t& w) { w = nz_any_i32(); } inline void anyof(std::int64_t& w) { w = nz_any_i64(); }
	template<typename B, S N, template<typename> class K = Dyn> struct Ex
	{
		using V = K<B>;
		template<typename F> static void counts(S top, F f) { if (top <= 26) { for (S c = 0; c <= top; ++c) f(c); } else for (S c : { S(0), S(1), S(7), S(8), S(9), bpb<B> - N % bpb<B>, bpb<B>, bpb<B> + 1, top - 1, top }) f(c); }
		template<typename T> static void append() { counts(sizeof(T) * 8 + 10, [](S c) { Src<B, N> s; T t; anyof(t); V v = s.template make<V>(); v.AppendBits(t, c); bits<B>(v, N + c, [&](S i) { return i < N ? s[i] : bit(t, i - N); }, "append keeps the bits and adds the given ones after them"); nz_check(v.GetBlockCount() == nblocks<B>(N + c), "append adds the blocks needed"); }); }
		static void append8() { append<U8>(); }
		static void append16() { append<U16>(); }
		static void append32() { append<U32>(); }
		static void append64() { append<U64>(); }
		static void twice() { for (S c : { S(1), S(5), S(8), S(11) }) for (S e : { S(3), S(8), S(13) }) { Src<B, N> s; U16 t = nz_any_u16(), u = nz_any_u16(); V v = s.template make<V>(); v.AppendBits(t, c); v.AppendBits(u, e); bits<B>(v, N + c + e, [&](S i) { return i < N ? s[i] : i < N + c ? bit(t, i - N) : bit(u, i - N - c); }, "two appends"); } }
		static void resize() { counts(N + 2 * bpb<B> + 1, [](S m) { for (bool x : { false, true }) { Src<B, N> s; V v = s.template make<V>(); v.Resize(m, x); bits<B>(v, m, [&](S i) { return i < N ? s[i] : x; }, "resize keeps the common bits and fills the others"); nz_check(v.GetBlockCount() == nblocks<B>(m), "resize keeps the blocks needed"); } }); }
		static void back() { for (S m : { S(0), N / 2, N }) { Src<B, N> s; V v = s.template make<V>(); v.Resize(m); v.Resize(N, true); bits<B>(v, N, [&](S i) { return i < m ? s[i] : true; }, "bits cut off by a resize do not come back"); v.Resize(m); v.Resize(N); bits<B>(v, N, [&](S i) { return i < m ? s[i] : false; }, "bits cut off by a resize do not come back"); } }
		static void reserve() { Src<B, N> s; V v = s.template make<V>(); v.Reserve(N + 20); nz_check(v.GetCapacity() >= N + 20, "capacity reserved"); bits<B>(v, N, [&](S i) { return s[i]; }, "reserve keeps the bits"); v.Clear(); nz_check(v.GetSize() == 0 && v.GetBlockCount() == 0, "clear empties"); v.Resize(N); bits<B>(v, N, [&](S) { return false; }, "nothing is left after a clear"); }
		static void construct() { for (bool x : { false, true }) { V v(N, x); bits<B>(v, N, [&](S) { return x; }, "construction from a size and a value"); nz_check(v.GetBlockCount() == nblocks<B>(N), "construction makes the blocks needed"); } V e; nz_check(e.GetSize() == 0 && e.GetBlockCount() == 0, "a default bitset is empty"); }
		static void write()
		{
			for (S c = 0; c <= 19; ++c)
			{
				U8 b[3] = { nz_any_u8(), nz_any_u8(), nz_any_u8() }; auto at = [&](S i) { return ((b[i / 8] >> (i % 8)) & 1) != 0; };
				Src<B, N> s; V v = s.template make<V>();
				auto q = v.Write(b, c); bits<B>(v, N + c, [&](S i) { return i < N ? s[i] : at(i - N); }, "write adds the bits of the bytes in order");
				nz_check(q.first == b + c / 8 && q.second == c % 8, "write says where to continue");
				if (c <= 13) { auto r = v.Write(q, 10); bits<B>(v, N + c + 10, [&](S i) { return i < N ? s[i] : at(i - N); }, "writing in two steps gives the same bits"); nz_check(r.first == b + (c + 10) / 8 && r.second == (c + 10) % 8, "write says where to continue"); }
			}
		}
		static void frombytes()
		{
			for (S c = 0; c <= 24; ++c)
			{
				U8 b[3] = { nz_any_u8(), nz_any_u8(), nz_any_u8() }; auto at = [&](S i) { return ((b[i / 8] >> (i % 8)) & 1) != 0; };
				typename V::PointerSequence q(nullptr, 77); V v = V::FromPointer(b, c, &q), w = V::FromPointer(b, c);
				bits<B>(v, c, at, "bitset made from bytes"); bits<B>(w, c, at, "bitset made from bytes"); nz_check(q.first == b + c / 8 && q.second == c % 8, "where to continue");
			}
		}
		static void to() { Src<B, N> s; const V v = s.template make<V>(); if constexpr (N <= 8) { U8 x = v.template To<U8>(); for (S i = 0; i < 8; ++i) nz_check(bit(x, i) == s[i], "to integer"); } if constexpr (N <= 16) { U16 x = v.template To<U16>(); for (S i = 0; i < 16; ++i) nz_check(bit(x, i) == s[i], "to integer"); } if constexpr (N <= 32) { U32 x = v.template To<U32>(); for (S i = 0; i < 32; ++i) nz_check(bit(x, i) == s[i], "to integer"); } U64 x = v.template To<U64>(); for (S i = 0; i < 64; ++i) nz_check(bit(x, i) == s[i], "to integer"); }
		template<typename T> static void from() { T t; anyof(t); V v(t); nz_check(v.GetSize() <= sizeof(T) * 8, "as many bits as the integer at most"); for (S i = 0; i < sizeof(T) * 8; ++i) nz_check(v.UnboundedTest(i) == bit(t, i), "bitset made from an integer"); nz_check(v.template To<std::make_unsigned_t<T>>() == static_cast<std::make_unsigned_t<T>>(t), "integers survive the round trip"); V w(3, true); w = t; nz_check(w == v, "assignment from an integer"); }
		static void from8() { from<U8>(); } static void from16() { from<U16>(); } static void from32() { from<U32>(); } static void from64() { from<U64>(); }
		static void froms8() { from<std::int8_t>(); } static void froms16() { from<std::int16_t>(); } static void froms32() { from<std::int32_t>(); } static void froms64() { from<std::int64_t>(); }
		// wider than a block: one arbitrary bit pattern per highest bit
		static void wide() { { S k = nz_pick(16); U16 t = static_cast<U16>(1u << k); if (k >= 5) t |= static_cast<U16>((nz_any_u8() & 7) << (k - 5)); V v(t); nz_check(v.GetSize() <= 16, "as many bits as the integer at most"); for (S i = 0; i < 16; ++i) nz_check(v.UnboundedTest(i) == bit(t, i), "bitset made from a wide integer"); nz_check(v.template To<U16>() == t, "wide integers survive the round trip"); } V z(U16(0)); nz_check(z.TestNone() && z.template To<U16>() == 0, "zero"); }
		static void chars() { Src<B, N> s; char c[N + 1]; for (S i = 0; i < N; ++i) c[i] = static_cast<char>('0' + ((s.w[(N - 1 - i) / bpb<B>] >> ((N - 1 - i) % bpb<B>)) & 1)); c[N] = 0; { V v(c, N); bits<B>(v, N, [&](S i) { return s[i]; }, "bitset made from characters"); } if (N <= 5) { V v(static_cast<const char*>(c)); bits<B>(v, N, [&](S i) { return s[i]; }, "bitset made from a string"); V w(std::string_view(c, N)); bits<B>(w, N, [&](S i) { return s[i]; }, "bitset made from a string view"); w = std::string_view(c, N / 2); nz_check(w.GetSize() == N / 2, "assignment from a string view"); } }
		static void onechar() { S k = nz_pick(N); { bool x = nz_any_bool(); char c[N + 1]; for (S i = 0; i < N; ++i) c[i] = i % 3 == 0 ? '1' : '0'; c[N] = 0; c[k] = static_cast<char>('0' + x); V v(static_cast<const char*>(c)); bits<B>(v, N, [&](S i) { S j = N - 1 - i; return j == k ? x : j % 3 == 0; }, "each character gives one bit"); } }
		static void print() { Src<B, N> s; const V v = s.template make<V>(); std::ostream& o = *static_cast<std::ostream*>(nz_raw(512, 1, "stream")); std::ostream& r = (o << v); nz_check(&r == &o, "printing gives the stream"); nz_check(nz_evcount(0xCAFE) == N, "one character is printed per bit"); for (S i = 0; i < N; ++i) nz_check(nz_evarg(i, 1) == std::uint64_t('0' + s[N - 1 - i]), "the characters printed follow the bits, highest first"); }
		static void tostring() { Src<B, N> s; const V v = s.template make<V>(); std::string t = v.ToString(); nz_check(t.size() == N, "one character per bit"); for (S i = 0; i < N; ++i) nz_check(t[i] == '0' + s[N - 1 - i], "characters follow the bits, highest first"); V w(t); bits<B>(w, N, [&](S i) { return s[i]; }, "strings survive the round trip"); }
	};
}
#define EX(B, N, name) extern "C" void d_##B##_##N##_##name() { Ex<B, N>::name(); }
#define EK(K, B, N, name) extern "C" void d_##K##_##B##_##N##_##name() { Ex<B, N, K>::name(); }
#define APP(B, N) EX(B, N, append8) EX(B, N, append16) EX(B, N, append32) EX(B, N, append64)
#define GROW(B, N) EX(B, N, twice) EX(B, N, resize) EX(B, N, back) EX(B, N, reserve) EX(B, N, construct) EX(B, N, write)
APP(U8, 0) APP(U8, 3) APP(U8, 8) APP(U8, 13) APP(U8, 15) APP(U8, 16) APP(U16, 5) APP(U16, 16) APP(U16, 17) APP(U32, 0) APP(U32, 20) APP(U32, 32) APP(U32, 33) APP(U64, 0) APP(U64, 60) APP(U64, 64) APP(U64, 70)
GROW(U8, 0) GROW(U8, 1) GROW(U8, 5) GROW(U8, 8) GROW(U8, 13) GROW(U8, 16) GROW(U8, 19) GROW(U16, 13) GROW(U16, 17) GROW(U32, 30) GROW(U32, 32) GROW(U32, 33) GROW(U64, 60) GROW(U64, 64) GROW(U64, 70)
EX(U8, 0, frombytes) EX(U16, 0, frombytes) EX(U32, 0, frombytes) EX(U64, 0, frombytes)
EX(U8, 0, to) EX(U8, 5, to) EX(U8, 8, to) EX(U8, 13, to) EX(U8, 16, to) EX(U8, 33, to) EX(U8, 64, to) EX(U16, 9, to) EX(U16, 40, to) EX(U32, 12, to) EX(U32, 32, to) EX(U32, 64, to) EX(U64, 7, to) EX(U64, 64, to)
EX(U8, 0, from8) EX(U8, 0, froms8) EX(U16, 0, from8) EX(U16, 0, from16) EX(U16, 0, froms8) EX(U16, 0, froms16) EX(U32, 0, from8) EX(U32, 0, froms8) EX(U32, 0, from32) EX(U32, 0, froms32) EX(U32, 0, froms16) EX(U64, 0, froms8) EX(U64, 0, from64) EX(U64, 0, froms64) EX(U64, 0, froms32) EX(U64, 0, from16)
EX(U8, 0, wide)
EX(U8, 0, chars) EX(U8, 1, chars) EX(U8, 5, chars) EX(U32, 4, chars) EX(U8, 9, onechar) EX(U8, 17, onechar) EX(U32, 35, onechar) EX(U64, 7, onechar) EX(U8, 0, print) EX(U8, 5, print) EX(U32, 3, print) EX(U8, 0, tostring) EX(U8, 5, tostring) EX(U32, 3, tostring)
EK(Fix, U8, 13, append16) EK(Fix, U8, 13, resize) EK(Fix, U8, 8, write) EK(Fix, U8, 5, back) EK(Hyb, U8, 13, append16) EK(Hyb, U8, 13, resize) EK(Hyb, U8, 8, write) EK(Hyb, U8, 19, back) EK(Hyb, U8, 19, reserve) EK(Fix, U8, 0, from8) EK(Hyb, U8, 0, wide)
EX(U64, 300, append16) EX(U64, 300, resize) EX(U64, 300, back) EX(U64, 300, construct) EX(U64, 300, write) EX(U64, 300, twice)
