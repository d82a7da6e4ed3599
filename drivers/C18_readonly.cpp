// Reading: const members, copies from a source and functions of their arguments write nothing that exists outside the call.
#include "nz.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <string>
#include <utility>
#include <vector>
namespace
{
	using S = std::size_t; using X = std::uint64_t;
	constexpr S Max = 1000000;
	ProbeN* room(S n) { return static_cast<ProbeN*>(nz_storage(n, sizeof(ProbeN), "storage")); }
	ProbeN* seq(S n) { return static_cast<ProbeN*>(nz_elems(n + 1, sizeof(ProbeN), "A")); }
	S below(S n) { S i = nz_any_size(); nz_assume(i < n); return i; }
	// every reading member of a sequence
	template<typename C> void look(const C& c)
	{
		S n = c.size(); (void) c.empty(); (void) c.max_size(); (void) c.data(); (void) c.begin(); (void) c.end(); (void) c.cbegin(); (void) c.cend(); (void) c.rbegin(); (void) c.rend(); (void) c.crbegin(); (void) c.crend();
		if (n > 0) { (void) c.front(); (void) c.back(); S i = nz_any_size(); nz_assume(i < n); (void) nz_value(&c[i]); }
	}
	template<typename C> void walk(const C& c) { for (const auto& e : c) (void) nz_value(&e); }
	struct SV { S cap, k; ProbeN* st; ProbeN* src; Nz::StackVector<ProbeN> v; SV() : cap(nz_any_size()), k(nz_any_size()), st(nullptr), src(nullptr), v(prep(), cap) { for (S i = 0; i < k; ++i) v.push_back(src[i]); } ProbeN* prep() { nz_assume(cap < Max); nz_assume(k <= cap); st = room(cap); src = seq(k); return st; } };
	using F = Nz::FixedVector<ProbeN, 3>; using H = Nz::HybridVector<ProbeN, 3>;
	template<typename V> void fill(V& v, S n) { ProbeN* src = seq(n); for (S i = 0; i < n; ++i) v.push_back(src[i]); }
	template<typename Block> Nz::Bitset<Block> bits(S n) { Nz::Bitset<Block> b; b.Resize(n); for (S i = 0; i < n; ++i) b.Set(i, i % 3 != 1); return b; }
	template<typename Block, typename Op> void onbits(Op op) { switch (nz_pick(3)) { case 0: op(bits<Block>(0)); break; case 1: op(bits<Block>(5)); break; default: op(bits<Block>(11)); break; } }
	enum class E { A, B, C, Max = C }; enum class G { A, B, C, Max = C };
}
namespace Nz { template<> struct EnumAsFlags<G> { static constexpr G max = G::Max; }; }
namespace
{
	struct Impl { explicit Impl(X x) : p(x) {} Impl(const Impl&) = default; Impl(Impl&&) = default; Impl& operator=(const Impl&) = default; ProbeN p; };
	using R = Nz::Result<ProbeN, int>;
	struct Table { std::pair<const int, X> e[2] = { { 1, 2 }, { 3, 4 } }; auto begin() { return e; } auto begin() const { return e; } auto end() { return e + 2; } auto end() const { return e + 2; } auto find(int k) { return k == 1 ? e : k == 3 ? e + 1 : e + 2; } auto find(int k) const { return k == 1 ? e : k == 3 ? e + 1 : e + 2; } };
}
extern "C"
{
	// sequences
	void d_stackvector() { SV m; const auto& c = m.v; nz_freeze(&m); look(c); (void) c.capacity(); nz_thaw(); }
	void d_stackvector_walk() { SV m; nz_freeze(&m); walk(std::as_const(m.v)); nz_thaw(); }
	void d_stackarray() { S n = below(Max); Nz::StackArray<ProbeN> a(room(n), n); nz_freeze(&a); look(std::as_const(a)); nz_thaw(); }
	void d_stackarray_walk() { S n = below(Max); Nz::StackArray<ProbeN> a(room(n), n); nz_freeze(&a); walk(std::as_const(a)); nz_thaw(); }
	void d_fixedvector() { F v; fill(v, nz_pick(4)); const F& c = v; nz_freeze(&v); look(c); walk(c); (void) c.capacity(); if (!c.empty()) (void) c.data(0); nz_thaw(); }
	void d_fixedvector_copy() { F v; fill(v, nz_pick(4)); nz_freeze(&v); { F w(std::as_const(v)); F z; z = std::as_const(v); } nz_thaw(); }
	void d_fixedvector_from() { F v; fill(v, nz_pick(4)); F w; nz_freeze(&v); { F z(std::as_const(v).begin(), std::as_const(v).end()); } nz_thaw(); if (!v.empty()) { nz_freeze(&v); w.push_back(std::as_const(v).front()); w.insert(w.begin(), std::as_const(v).back()); nz_thaw(); } }
	void d_hybridvector() { H v; fill(v, nz_pick(6)); const H& c = v; nz_freeze(&v); look(c); walk(c); (void) c.capacity(); if (!c.empty()) (void) c.data(0); nz_thaw(); }
	void d_hybridvector_copy() { H v; fill(v, nz_pick(6)); nz_freeze(&v); { H w(std::as_const(v)); H z; z = std::as_const(v); } nz_thaw(); }
	// pools
	void d_pool()
	{
		Nz::MemoryPool<ProbeN> p(2); S ix[4] = {}; S n = nz_pick(5); for (S i = 0; i < n; ++i) p.Allocate(ix[i], X(i)); if (n > 1 && nz_pick(2)) { p.Free(ix[0]); ix[0] = ix[1]; }
		const auto& c = p; nz_freeze(&p); (void) c.GetAllocatedEntryCount(); (void) c.GetBlockCount(); (void) c.GetBlockSize(); (void) c.GetFreeEntryCount(); if (n > 0) (void) nz_value(c.RetrieveFromIndex(ix[0]));
		for (const ProbeN& e : c) (void) nz_value(&e); for (auto it = c.cbegin(); it != c.cend(); ++it) (void) it.GetIndex(); (void) (c.begin() == c.end()); nz_thaw();
	}
	// bitsets
	void d_bitset_queries() { onbits<std::uint8_t>([](const Nz::Bitset<std::uint8_t>& b) { nz_freeze(&b); (void) b.Count(); (void) b.FindFirst(); (void) b.GetBlockCount(); (void) b.GetCapacity(); (void) b.GetSize(); (void) b.TestAll(); (void) b.TestAny(); (void) b.TestNone(); if (b.GetSize()) { (void) b.FindNext(0); (void) b.GetBlock(0); (void) b.Test(0); (void) b[0]; } (void) b.UnboundedTest(100); (void) b.IterBits().begin(); (void) b.IterBits().end(); nz_thaw(); }); }
	void d_bitset_iterate() { onbits<std::uint8_t>([](const Nz::Bitset<std::uint8_t>& b) { S n = 0; nz_freeze(&b); for (S i : b.IterBits()) n += i; nz_thaw(); (void) n; }); }
	void d_bitset_values() { onbits<std::uint8_t>([](const Nz::Bitset<std::uint8_t>& b) { nz_freeze(&b); (void) b.To<std::uint32_t>(); (void) b.ToString(); { auto c = ~b; auto d = b << 3; auto e = b >> 3; auto f(b); f = b; } nz_thaw(); }); }
	void d_bitset_pairs() { onbits<std::uint8_t>([](const Nz::Bitset<std::uint8_t>& a) { const Nz::Bitset<std::uint8_t> b = bits<std::uint8_t>(nz_pick(2) ? 9 : 3); nz_freeze(&a); nz_freeze(&b); (void) a.Intersects(b); (void) (a == b); (void) (a != b); (void) (a < b); (void) (a <= b); (void) (a > b); (void) (a >= b); { auto x = a & b; auto y = a | b; auto z = a ^ b; } nz_thaw(); }); }
	void d_bitset_sources() { onbits<std::uint8_t>([](const Nz::Bitset<std::uint8_t>& a) { Nz::Bitset<std::uint8_t> c; nz_freeze(&a); c.PerformsAND(a, a); c.PerformsOR(a, a); c.PerformsXOR(a, a); c.PerformsNOT(a); nz_thaw(); }); }
	void d_bitset_assign() { onbits<std::uint8_t>([](const Nz::Bitset<std::uint8_t>& a) { Nz::Bitset<std::uint8_t> b; nz_freeze(&a); b = a; nz_thaw(); }); }
	// enumerations
	void d_enumarray() { Nz::EnumArray<E, int> a{}; a.fill(nz_any_i32()); const auto& c = a; nz_freeze(&a); (void) c[E::B]; (void) c.size(); for (int x : c) (void) x; for (auto&& [k, v] : c.iter_kv()) { (void) k; (void) v; } auto it = c.iter_kv().begin(); (void) *(it + 1); (void) it[2]; (void) (it == c.iter_kv().end()); (void) (it < c.iter_kv().end()); { auto b = c; (void) (b == c); } nz_thaw(); }
	void d_flags() { Nz::Flags<G> f(static_cast<Nz::Flags<G>::BitField>(nz_pick(8))), g(G::B); const auto& a = f; const auto& b = g; nz_freeze(&f); nz_freeze(&g); (void) a.Count(); (void) a.Test(b); (void) a.size(); (void) bool(a); (void) (a & b); (void) (a | b); (void) (a ^ b); (void) ~a; (void) (a == b); (void) (a != b); (void) static_cast<unsigned int>(a); for (G x : a) (void) x; nz_thaw(); }
	// pointers and wrappers
	void d_sparseptr() { X* m = static_cast<X*>(nz_raw(8, 8, "A")); Nz::SparsePtr<X> p(m, 8), q(m + 4, 8); const auto& a = p; const auto& b = q; nz_freeze(&p); nz_freeze(&q); (void) a.GetPtr(); (void) a.GetStride(); (void) bool(a); (void) *a; (void) a[3]; (void) (a + 2); (void) (b - 2); (void) (b - a); (void) (a == b); (void) (a != b); (void) (a < b); (void) (a <= b); (void) (a > b); (void) (a >= b); (void) a.operator->(); Nz::SparsePtr<const X> c(a); (void) *c; nz_thaw(); }
	void d_movable() { X x = 0; Nz::MovablePtr<X> p(&x); Nz::MovableValue<ProbeN> v(ProbeN(3)); Nz::MovableLiteral<int, 4> l(nz_any_i32()); nz_freeze(&p); nz_freeze(&v); nz_freeze(&l); (void) std::as_const(p).Get(); (void) *std::as_const(p); (void) std::as_const(p).operator->(); (void) nz_value(&std::as_const(v).Get()); (void) std::as_const(l).Get(); const ProbeN& r = std::as_const(v); (void) r; nz_thaw(); }
	void d_impl() { Nz::PrivateImpl<Impl, sizeof(Impl)> p(X(3)); const auto& c = p; nz_freeze(&p); (void) c.Get(); (void) nz_value(&c->p); (void) nz_value(&(*c).p); const Impl* r = c; (void) r; { auto d(c); } nz_thaw(); }
	void d_impl_maybe() { Nz::PrivateImpl<Impl> p(X(3)); const auto& c = p; nz_freeze(&p); (void) nz_value(&c->p); (void) nz_value(&(*c).p); (void) c.Get(); (void) c.HasValue(); (void) bool(c); { auto d(c); } nz_thaw(); }
	void d_result() { R r = nz_pick(2) ? R(Nz::Ok(ProbeN(4))) : R(Nz::Err(3)); const R& c = r; nz_freeze(&r); (void) c.IsOk(); (void) c.IsErr(); (void) bool(c); if (c) { (void) nz_value(&c.GetValue()); (void) nz_value(&*c); c.Expect("x"); } else (void) c.GetError(); { ProbeN d(7); ProbeN x = c.GetValueOr(d); auto y = c.Map([](const ProbeN& p) { return nz_value(&p); }); R z(c); R w = Nz::Err(1); w = c; } nz_thaw(); }
	void d_result_void() { using V = Nz::Result<void, ProbeN>; V r = nz_pick(2) ? V(Nz::Ok()) : V(Nz::Err(ProbeN(3))); const V& c = r; nz_freeze(&r); (void) c.IsOk(); (void) c.IsErr(); (void) bool(c); if (!c) (void) nz_value(&c.GetError()); { auto y = c.Map([] { return 3; }); V z(c); } nz_thaw(); }
	void d_functionref() { X x = nz_any_u64(); auto f = [&x](X y) { return x + y; }; Nz::FunctionRef<X(X)> r(f); nz_freeze(&r); nz_freeze(&f); nz_freeze(&x); (void) std::as_const(r)(3); (void) bool(std::as_const(r)); { Nz::FunctionRef<X(X)> s(std::as_const(r)); (void) s(1); } nz_thaw(); }
	void d_connection() { Nz::Signal<int> s; auto c = s.Connect([](int) {}); Nz::Signal<int>::ConnectionGuard g(c); nz_freeze(&s); nz_freeze(&c); nz_freeze(&g); (void) std::as_const(c).IsConnected(); { auto d(std::as_const(c)); (void) d.IsConnected(); } nz_thaw(); }
	// functions of their arguments
	void d_crc() { S n = below(Max); auto* m = static_cast<std::uint8_t*>(nz_raw(n, 1, "A")); nz_freeze(m); (void) Nz::CRC32(m, n); nz_thaw(); }
	void d_crc_view() { S n = below(Max); auto* m = static_cast<char*>(nz_raw(n, 1, "A")); nz_freeze(m); (void) Nz::CRC32(std::string_view(m, n)); nz_thaw(); }
	void d_fnv() { S n = below(Max); auto* m = static_cast<std::uint8_t*>(nz_raw(n, 1, "A")); nz_freeze(m); if (nz_pick(2)) (void) Nz::FNV1a32(m, n); else (void) Nz::FNV1a64(m, n); nz_thaw(); }
	void d_fnv_view() { S n = below(Max); auto* m = static_cast<char*>(nz_raw(n, 1, "A")); nz_freeze(m); if (nz_pick(2)) (void) Nz::FNV1a32(std::string_view(m, n)); else (void) Nz::FNV1a64(std::string_view(m, n)); nz_thaw(); }
	void d_stringhash() { S n = below(Max); auto* m = static_cast<char*>(nz_raw(n, 1, "A")); nz_freeze(m); (void) Nz::StringHash<>{}(std::string_view(m, n)); nz_thaw(); }
	void d_combine() { S seed = nz_any_size(); X a = nz_any_u64(), b = nz_any_u64(); nz_freeze(&a); nz_freeze(&b); Nz::HashCombine(seed, std::as_const(a)); (void) Nz::HashCombine(std::as_const(a), std::as_const(b)); nz_thaw(); }
	void d_strings() { std::string s("abc"); nz_freeze(&s); { auto u = Nz::ToUtf8String(s); auto v = Nz::FromUtf8String(u); auto w = Nz::ToUtf8String(std::string_view(s)); auto x = Nz::FromUtf8String(w); } nz_thaw(); }
	void d_lookup() { Table m; const auto& c = m; nz_freeze(&m); (void) Nz::Retrieve(c, 3); nz_thaw(); }
	void d_math() { X a = nz_any_u64(), b = nz_any_u64(), c = nz_any_u64(); nz_assume(b <= c); nz_assume(a); nz_freeze(&a); nz_freeze(&b); nz_freeze(&c); (void) Nz::Clamp(a, b, c); (void) Nz::CountBits(a); (void) Nz::ByteSwap(a); nz_thaw(); }
}
