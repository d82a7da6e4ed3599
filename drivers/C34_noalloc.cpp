// Types with storage of their own never touch dynamic memory; the others only where they need more room.
#include "nz.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <string>
#include <utility>
namespace
{
	using S = std::size_t; using X = std::uint64_t;
	constexpr S Max = 1000000;
	ProbeN* room(S n, const char* name = "storage") { return static_cast<ProbeN*>(nz_storage(n, sizeof(ProbeN), name)); }
	ProbeN* seq(S n) { return static_cast<ProbeN*>(nz_elems(n + 1, sizeof(ProbeN), "A")); }
	S below(S n) { S i = nz_any_size(); nz_assume(i < n); return i; }
	struct SV { S cap, k; ProbeN* st; ProbeN* src; Nz::StackVector<ProbeN> v; explicit SV(S extra = 0) : cap(nz_any_size()), k(nz_any_size()), st(nullptr), src(nullptr), v(prep(extra), cap) { for (S i = 0; i < k; ++i) v.push_back(src[i]); } ProbeN* prep(S extra) { nz_assume(cap < Max); nz_assume(k + extra <= cap); st = room(cap); src = seq(k + extra); return st; } };
	constexpr S Cap = 6;
	using F = Nz::FixedVector<ProbeN, Cap>; using H = Nz::HybridVector<ProbeN, Cap>;
	template<typename V> void fill(V& v, S n) { ProbeN* src = seq(n); for (S i = 0; i < n; ++i) v.push_back(src[i]); }
	template<typename V> void shrink(V& v, S n) { S i = below(n); switch (nz_pick(4)) { case 0: v.erase(v.begin() + i); break; case 1: { S j = nz_any_size(); nz_assume(i <= j); nz_assume(j <= n); v.erase(v.begin() + i, v.begin() + j); break; } case 2: v.pop_back(); break; default: v.clear(); break; } }
	template<typename V> void grow(V& v, S n, const ProbeN& p) { S i = nz_any_size(); nz_assume(i <= n); switch (nz_pick(5)) { case 0: v.push_back(p); break; case 1: v.emplace_back(X(3)); break; case 2: v.insert(v.begin() + i, p); break; case 3: v.insert(v.begin() + i, ProbeN(4)); break; default: v.emplace(v.begin() + i, X(5)); break; } }
	template<typename V> void resize(V& v, S most, const ProbeN& p) { S n = nz_any_size(); nz_assume(n <= most); if (nz_pick(2)) v.resize(n); else v.resize(n, p); }
	template<typename V> V moved(V&& v) { V w(std::move(v)); V z; z = std::move(w); return z; }
	enum class E { A, B, C, Max = C }; enum class G { A, B, C, Max = C };
	struct Impl { explicit Impl(X x) : p(x) {} Impl(const Impl&) = default; Impl(Impl&&) = default; Impl& operator=(const Impl&) = default; Impl& operator=(Impl&&) = default; ProbeN p; };
	using R = Nz::Result<ProbeN, int>;
	using B8 = Nz::Bitset<std::uint8_t>; using BF = Nz::Bitset<std::uint8_t, Nz::FixedVector<std::uint8_t, 3>>;
	template<typename B> B bits(S n) { B b; b.Resize(n); for (S i = 0; i < n; ++i) b.Set(i, i % 3 != 1); return b; }
}
namespace Nz { template<> struct EnumAsFlags<G> { static constexpr G max = G::Max; }; }
extern "C"
{
	// vectors over storage of their own
	void d_stackvector() { nz_noalloc(); SV m(1); grow(m.v, m.k, m.src[m.k]); nz_allocok(); }
	void d_stackvector_shrink() { nz_noalloc(); SV m; nz_assume(m.k > 0); shrink(m.v, m.k); nz_allocok(); }
	void d_stackvector_resize() { nz_noalloc(); SV m(1); resize(m.v, m.cap, m.src[m.k]); nz_allocok(); }
	void d_stackvector_move() { nz_noalloc(); { SV m; Nz::StackVector<ProbeN> w(std::move(m.v)); Nz::StackVector<ProbeN> z; z = std::move(w); } nz_allocok(); }
	void d_stackarray() { nz_noalloc(); { S n = below(Max); Nz::StackArray<ProbeN> a(room(n), n); ProbeN p(4); a.fill(p); Nz::StackArray<ProbeN> b(std::move(a)); } nz_allocok(); }
	void d_stackarray_macro() { nz_noalloc(); { S n = below(1000); auto a = NazaraStackArray(ProbeN, n); auto v = NazaraStackVector(ProbeN, n); (void) a; (void) v; } nz_allocok(); }
	void d_fixedvector() { nz_noalloc(); { S n = nz_pick(Cap); F v; fill(v, n); ProbeN p(3); grow(v, n, p); } nz_allocok(); }
	void d_fixedvector_shrink() { nz_noalloc(); { S n = 1 + nz_pick(Cap); F v; fill(v, n); shrink(v, n); } nz_allocok(); }
	void d_fixedvector_resize() { nz_noalloc(); { F v; fill(v, nz_pick(Cap + 1)); ProbeN p(3); v.reserve(Cap); resize(v, Cap, p); } nz_allocok(); }
	void d_fixedvector_copy() { nz_noalloc(); { F v; fill(v, nz_pick(Cap + 1)); F w(v), z; z = w; F x(std::move(v)); z = std::move(x); F y(w.begin(), w.end()); F i(S(2)); } nz_allocok(); }
	// up to its capacity a vector with a fallback does not use it; moving it never allocates
	void d_hybridvector() { nz_noalloc(); { S n = nz_pick(Cap); H v; fill(v, n); ProbeN p(3); grow(v, n, p); } nz_allocok(); }
	void d_hybridvector_shrink() { nz_noalloc(); { S n = 1 + nz_pick(Cap); H v; fill(v, n); shrink(v, n); } nz_allocok(); }
	void d_hybridvector_resize() { nz_noalloc(); { H v; fill(v, nz_pick(Cap + 1)); ProbeN p(3); v.reserve(Cap); resize(v, Cap, p); } nz_allocok(); }
	void d_hybridvector_copy() { nz_noalloc(); { H v; fill(v, nz_pick(Cap + 1)); H w(v), z; z = w; H x(std::move(v)); z = std::move(x); H y(w.begin(), w.end()); H i(S(2)); } nz_allocok(); }
	void d_hybridvector_move() { H v, o; fill(v, nz_pick(3) * 4); fill(o, nz_pick(3) * 4); nz_noalloc(); { H w(std::move(v)); o = std::move(w); } nz_allocok(); }
	void d_hybridvector_swap() { H v, o; fill(v, nz_pick(3) * 4); fill(o, nz_pick(3) * 4); nz_noalloc(); std::swap(v, o); nz_allocok(); }
	void d_hybridvector_release() { H v; S n = 8; fill(v, n); nz_noalloc(); shrink(v, n); nz_allocok(); }
	// pools: memory is only allocated for a new block
	void d_pool_reuse() { Nz::MemoryPool<ProbeN> p(2); S ix[4] = {}; S n = 3 + nz_pick(2); for (S i = 0; i < n; ++i) p.Allocate(ix[i], X(i)); S k = nz_pick(3); p.Free(ix[k]); nz_noalloc(); S at = 0; p.Allocate(at, X(9)); nz_allocok(); }
	void d_pool_first() { Nz::MemoryPool<ProbeN> p(2); S ix[4] = {}; p.Allocate(ix[0], X(1)); nz_noalloc(); p.Allocate(ix[1], X(2)); nz_allocok(); }
	void d_pool_free() { Nz::MemoryPool<ProbeN> p(2); S ix[4] = {}; S n = 1 + nz_pick(4); for (S i = 0; i < n; ++i) p.Allocate(ix[i], X(i)); nz_noalloc(); p.Free(ix[nz_pick(n)]); nz_allocok(); }
	void d_pool_reset() { Nz::MemoryPool<ProbeN> p(2); S ix[4] = {}; S n = 1 + nz_pick(4); for (S i = 0; i < n; ++i) p.Allocate(ix[i], X(i)); nz_noalloc(); p.Reset(); for (S i = 0; i < n; ++i) p.Allocate(ix[i], X(i)); nz_allocok(); }
	void d_pool_look() { Nz::MemoryPool<ProbeN> p(2); S ix[4] = {}; S n = nz_pick(5); for (S i = 0; i < n; ++i) p.Allocate(ix[i], X(i)); nz_noalloc(); for (const ProbeN& e : p) (void) nz_value(&e); if (n > 0) { (void) p.RetrieveEntryIndex(p.RetrieveFromIndex(ix[0])); } (void) p.GetAllocatedEntryCount(); (void) p.GetFreeEntryCount(); nz_allocok(); }
	void d_pool_move() { Nz::MemoryPool<ProbeN> p(2), q(3); S ix = 0; p.Allocate(ix, X(1)); q.Allocate(ix, X(2)); nz_noalloc(); q = std::move(p); Nz::MemoryPool<ProbeN> r(std::move(q)); nz_allocok(); }
	// bitsets
	void d_bitset_fixed() { nz_noalloc(); { BF a = bits<BF>(5 + nz_pick(2) * 6), b = bits<BF>(9); BF c(a); c &= b; c |= a; c ^= b; c.Flip(); c <<= 3; c >>= 2; c.Resize(20, true); c.AppendBits(std::uint8_t(5), 3); BF d = ~c; d.Reverse(); (void) d.Count(); (void) (a == b); (void) (a < b); (void) a.Intersects(b); d.Swap(a); d = std::move(a); } nz_allocok(); }
	void d_bitset_move() { B8 a = bits<B8>(11), b = bits<B8>(3); nz_noalloc(); { B8 c(std::move(a)); b = std::move(c); B8 d; d.Swap(b); swap(d, b); } nz_allocok(); }
	void d_bitset_inside() { B8 a = bits<B8>(11); const B8 b = bits<B8>(11); nz_noalloc(); a &= b; a |= b; a ^= b; a.Flip(); a <<= 3; a >>= 2; a.Set(S(3)); a.Reset(S(4)); a.Set(); a.Reset(); a.Reverse(); a.SetBlock(0, 3); a.Resize(4); a.Resize(11); nz_allocok(); }
	void d_bitset_look() { const B8 a = bits<B8>(5 + nz_pick(2) * 6), b = bits<B8>(9); nz_noalloc(); (void) a.Count(); (void) a.FindFirst(); (void) a.FindNext(1); (void) a.TestAll(); (void) a.TestAny(); (void) a.TestNone(); (void) (a == b); (void) (a < b); (void) a.Intersects(b); (void) a.To<std::uint32_t>(); for (S i : a.IterBits()) (void) i; nz_allocok(); }
	void d_bitset_reserved() { B8 a; a.Reserve(24); nz_noalloc(); a.Resize(20); a.AppendBits(std::uint8_t(3), 4); nz_allocok(); }
	// the rest
	void d_flags() { nz_noalloc(); Nz::Flags<G> f(static_cast<Nz::Flags<G>::BitField>(nz_pick(8))), g(G::B); (void) (f | g); (void) ~f; f ^= g; for (G x : f) (void) x; (void) f.Count(); nz_allocok(); }
	void d_enumarray() { nz_noalloc(); { Nz::EnumArray<E, ProbeN> a; ProbeN p(3); a.fill(p); auto b = a; for (auto&& [k, v] : b.iter_kv()) { (void) k; (void) v; } (void) a[E::C]; } nz_allocok(); }
	void d_sparseptr() { nz_noalloc(); X* m = static_cast<X*>(nz_raw(8, 8, "A")); Nz::SparsePtr<X> p(m, 8), q(m + 4, 8); *p = 4; p[2] = 5; (void) (q - p); ++p; p += 2; (void) (p < q); nz_allocok(); }
	void d_functionref() { nz_noalloc(); struct { X a[20] = {}; X operator()(X y) { return a[0] + y; } } f; Nz::FunctionRef<X(X)> r(f), s(r); s = r; (void) s(3); nz_allocok(); }
	void d_callonexit() { nz_noalloc(); { X n = 0; X big[20] = {}; auto f = [&n, big] { n += big[0]; }; Nz::CallOnExit g(std::move(f)); g.CallAndReset(); g.Reset(); } nz_allocok(); }
	void d_movable() { nz_noalloc(); { Nz::MovableValue<ProbeN> v(ProbeN(3)), w(std::move(v)); v = std::move(w); X x = 0; Nz::MovablePtr<X> p(&x), q(std::move(p)); p = std::move(q); } nz_allocok(); }
	void d_impl_inplace() { nz_noalloc(); { using P = Nz::PrivateImpl<Impl, sizeof(Impl)>; P p(X(3)), q(p), r(std::move(q)); p = r; q = std::move(p); (void) nz_value(&q->p); } nz_allocok(); }
	void d_impl_move() { using P = Nz::PrivateImpl<Impl>; P p(X(3)), q(X(4)); nz_noalloc(); { P r(std::move(p)); q = std::move(r); (void) nz_value(&q->p); q.Reset(); } nz_allocok(); }
	void d_result() { nz_noalloc(); { R r = nz_pick(2) ? R(Nz::Ok(ProbeN(4))) : R(Nz::Err(3)); R s(r), t(std::move(s)); s = t; t = std::move(s); (void) t.IsOk(); auto y = r.Map([](const ProbeN& p) { return nz_value(&p); }); ProbeN d(3); ProbeN x = r.GetValueOr(d); } nz_allocok(); }
	void d_emit() { Nz::Signal<int> s; X n = 0; auto c = s.Connect([&n](int i) { n += i; }); auto d = s.Connect([&n](int i) { n += 2 * i; }); nz_noalloc(); s(3); (void) c.IsConnected(); c.Disconnect(); s(4); d.Disconnect(); nz_allocok(); }
	void d_signal_move() { Nz::Signal<int> s; X n = 0; auto c = s.Connect([&n](int i) { n += i; }); Nz::Signal<int>::ConnectionGuard g(s.Connect([&n](int i) { n += 2 * i; })); nz_noalloc(); { Nz::Signal<int> t(std::move(s)); Nz::Signal<int> u; u = std::move(t); auto d(c), e(std::move(d)); auto h(std::move(g)); u(3); u.Clear(); } nz_allocok(); }
	void d_hash() { nz_noalloc(); S n = below(Max); auto* m = static_cast<char*>(nz_raw(n, 1, "A")); std::string_view v(m, n); (void) Nz::CRC32(v); (void) Nz::FNV1a32(v); (void) Nz::FNV1a64(v); nz_allocok(); }
	void d_stringhash() { nz_noalloc(); S n = below(Max); auto* m = static_cast<char*>(nz_raw(n, 1, "A")); (void) Nz::StringHash<>{}(std::string_view(m, n)); nz_allocok(); }
	void d_strings() { nz_noalloc(); S n = below(Max); auto* m = static_cast<char*>(nz_raw(n, 1, "A")); auto w = Nz::ToUtf8String(std::string_view(m, n)); auto x = Nz::FromUtf8String(w); (void) x; nz_allocok(); }
}
