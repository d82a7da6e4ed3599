// Helpers of the bitset scenarios: a bitset of N bits with arbitrary contents and the model of its bits.
#pragma once
#include "nz.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <utility>
using S = std::size_t;
inline void anyword(std::uint8_t& w) { w = nz_any_u8(); } inline void anyword(std::uint16_t& w) { w = nz_any_u16(); } inline void anyword(std::uint32_t& w) { w = nz_any_u32(); } inline void anyword(std::uint64_t& w) { w = nz_any_u64(); }
template<typename B> constexpr S bpb = sizeof(B) * 8;
template<typename B> constexpr S nblocks(S n) { return (n + bpb<B> - 1) / bpb<B>; }
// N arbitrary bits
template<typename B, S N> struct Src
{
	B w[nblocks<B>(N) + 1];
	Src() { for (S i = 0; i < nblocks<B>(N); ++i) anyword(w[i]); w[nblocks<B>(N)] = 0; }
	bool operator[](S i) const { return i < N && ((w[i / bpb<B>] >> (i % bpb<B>)) & 1) != 0; }
	template<typename V> V make() const { V v(N, false); for (S i = 0; i < nblocks<B>(N); ++i) v.SetBlock(i, w[i]); return v; }
	template<typename V> void fill(V& v) const { v.Resize(N, false); for (S i = 0; i < nblocks<B>(N); ++i) v.SetBlock(i, w[i]); }
};
template<typename B, typename V> void clean(const V& v, S n, const char* what)
{
	nz_check(v.GetSize() == n, what); nz_check(v.GetBlockCount() == nblocks<B>(n), what);
	if (n % bpb<B> != 0 && v.GetBlockCount() == nblocks<B>(n)) nz_check((v.GetBlock(n / bpb<B>) >> (n % bpb<B>)) == 0, what);
}
template<typename B, typename V, typename F> void bits(const V& v, S n, F f, const char* what)
{
	nz_check(v.GetSize() == n, what);
	for (S i = 0; i < n; ++i) nz_check(v.Test(i) == static_cast<bool>(f(i)), what);
}
template<typename B> using Dyn = Nz::Bitset<B>;
template<typename B> using Fix = Nz::Bitset<B, Nz::FixedVector<B, 30>>;
template<typename B> using Hyb = Nz::Bitset<B, Nz::HybridVector<B, 2>>;
using U8 = std::uint8_t; using U16 = std::uint16_t; using U32 = std::uint32_t; using U64 = std::uint64_t;
