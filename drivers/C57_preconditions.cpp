// Preconditions: with assertions on, a call that breaks one stops the program instead of returning or touching memory it should not.
#include "nz.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <map>
#include <utility>
namespace
{
	using S = std::size_t; using X = std::uint64_t;
	constexpr S Max = 1000000;
	void past(const char* m) { nz_check(false, m); }
	ProbeN* room(S n) { return static_cast<ProbeN*>(nz_storage(n, sizeof(ProbeN), "storage")); }
	ProbeN* seq(S n) { return static_cast<ProbeN*>(nz_elems(n + 1, sizeof(ProbeN), "A")); }
	// a vector of k elements, over storage of symbolic capacity or of constant capacity
	struct SV { S cap, k; ProbeN* st; ProbeN* src; Nz::StackVector<ProbeN> v; explicit SV(bool full = false) : cap(nz_any_size()), k(nz_any_size()), st(nullptr), src(nullptr), v(prep(full), cap) { for (S i = 0; i < k; ++i) v.push_back(src[i]); nz_maystop(); } ProbeN* prep(bool full) { nz_assume(cap < Max); if (full) nz_assume(k == cap); else nz_assume(k <= cap); st = room(cap); src = seq(k); return st; } };
	using F3 = Nz::FixedVector<ProbeN, 3>;
	struct FV { S k; ProbeN* src; F3 v; explicit FV(S n) : k(n), src(seq(n)) { for (S i = 0; i < k; ++i) v.push_back(src[i]); nz_maystop(); } };
	S beyond(S n) { S i = nz_any_size(); nz_assume(i >= n); return i; }
	constexpr const char* range = "an index out of range stops the program";
	constexpr const char* empty = "access to an empty container stops the program";
	constexpr const char* full = "growing past the capacity stops the program";
	constexpr const char* pos = "a position out of the container stops the program";
	enum class En { a, b, c, Max = c };
	enum class Fl { x, y, max = y };
}
namespace Nz
{
	template<> struct EnumAsFlags<Fl> { static constexpr Fl max = Fl::max; };
}
namespace
{
	struct Im { X v; Im(X a) : v(a) {} };
}
extern "C"
{
	void d_sv_index() { SV e; e.v[beyond(e.k)]; past(range); }
	void d_sv_index_const() { SV e; const auto& c = e.v; c[beyond(e.k)]; past(range); }
	void d_sv_back_empty() { ProbeN* m = room(2); Nz::StackVector<ProbeN> v(m, 2); nz_maystop(); v.back(); past(empty); }
	void d_sv_back_const_empty() { ProbeN* m = room(2); const Nz::StackVector<ProbeN> v(m, 2); nz_maystop(); v.back(); past(empty); }
	void d_sv_front_empty() { ProbeN* m = room(2); Nz::StackVector<ProbeN> v(m, 2); nz_maystop(); v.front(); past(empty); }
	void d_sv_front_const_empty() { ProbeN* m = room(2); const Nz::StackVector<ProbeN> v(m, 2); nz_maystop(); v.front(); past(empty); }
	void d_sv_pop_empty() { ProbeN* m = room(2); Nz::StackVector<ProbeN> v(m, 2); nz_maystop(); v.pop_back(); past(empty); }
	void d_sv_push_full() { SV e(true); const ProbeN p(7); e.v.push_back(p); past(full); }
	void d_sv_push_move_full() { SV e(true); ProbeN p(7); e.v.push_back(std::move(p)); past(full); }
	void d_sv_emplace_back_full() { SV e(true); e.v.emplace_back(X(7)); past(full); }
	void d_sv_emplace_full() { SV e(true); e.v.emplace(e.v.begin(), X(7)); past(full); }
	void d_sv_insert_full() { SV e(true); const ProbeN p(7); e.v.insert(e.v.begin(), p); past(full); }
	void d_sv_insert_move_full() { SV e(true); ProbeN p(7); e.v.insert(e.v.end(), std::move(p)); past(full); }
	void d_sv_emplace_outside() { SV e; S i = nz_any_size(); nz_assume(e.k < e.cap); nz_assume(i > e.k); nz_assume(i <= e.cap); e.v.emplace(e.st + i, X(7)); past(pos); }
	void d_sv_resize() { SV e; S n = nz_any_size(); nz_assume(n > e.cap); e.v.resize(n); past(full); }
	void d_sv_resize_value() { SV e; S n = nz_any_size(); nz_assume(n > e.cap); const ProbeN p(7); e.v.resize(n, p); past(full); }
	void d_sv_erase_end() { SV e; e.v.erase(e.v.end()); past(pos); }
	void d_sv_erase_reversed() { SV e; S a = nz_any_size(), b = nz_any_size(); nz_assume(a < b); nz_assume(b <= e.k); e.v.erase(e.v.begin() + b, e.v.begin() + a); past("a reversed range stops the program"); }
	void d_sv_erase_outside() { SV e; S b = nz_any_size(); nz_assume(b > e.k); nz_assume(b <= e.cap); e.v.erase(e.v.begin(), e.st + b); past(pos); }

	void d_fv_index() { FV e(nz_pick(4)); e.v[beyond(e.k)]; past(range); }
	void d_fv_index_const() { FV e(nz_pick(4)); const auto& c = e.v; c[beyond(e.k)]; past(range); }
	void d_fv_back_empty() { F3 v; nz_maystop(); v.back(); past(empty); }
	void d_fv_back_const_empty() { const F3 v; nz_maystop(); v.back(); past(empty); }
	void d_fv_front_empty() { F3 v; nz_maystop(); v.front(); past(empty); }
	void d_fv_front_const_empty() { const F3 v; nz_maystop(); v.front(); past(empty); }
	void d_fv_pop_empty() { F3 v; nz_maystop(); v.pop_back(); past(empty); }
	void d_fv_push_full() { FV e(3); const ProbeN p(7); e.v.push_back(p); past(full); }
	void d_fv_push_move_full() { FV e(3); ProbeN p(7); e.v.push_back(std::move(p)); past(full); }
	void d_fv_emplace_back_full() { FV e(3); e.v.emplace_back(X(7)); past(full); }
	void d_fv_emplace_full() { FV e(3); e.v.emplace(e.v.begin(), X(7)); past(full); }
	void d_fv_insert_full() { FV e(3); const ProbeN p(7); e.v.insert(e.v.end(), p); past(full); }
	void d_fv_insert_outside() { FV e(nz_pick(2)); const ProbeN p(7); e.v.insert(e.v.end() + 1, p); past(pos); }
	void d_fv_resize() { FV e(nz_pick(4)); S n = nz_any_size(); nz_assume(n > 3); e.v.resize(n); past(full); }
	void d_fv_resize_value() { FV e(nz_pick(4)); S n = nz_any_size(); nz_assume(n > 3); const ProbeN p(7); e.v.resize(n, p); past(full); }
	void d_fv_reserve() { FV e(nz_pick(4)); S n = nz_any_size(); nz_assume(n > 3); e.v.reserve(n); past(full); }
	void d_fv_erase_end() { FV e(nz_pick(4)); e.v.erase(e.v.end()); past(pos); }
	void d_fv_erase_reversed() { FV e(1 + nz_pick(3)); e.v.erase(e.v.end(), e.v.begin()); past("a reversed range stops the program"); }
	void d_fv_erase_outside() { FV e(nz_pick(3)); e.v.erase(e.v.begin(), e.v.end() + 1); past(pos); }
	void d_hv_index() { S k = nz_pick(5); Nz::HybridVector<ProbeN, 2> v; for (S i = 0; i < k; ++i) v.emplace_back(X(i)); nz_maystop(); v[beyond(k)]; past(range); }
	void d_hv_pop_empty() { Nz::HybridVector<ProbeN, 2> v; nz_maystop(); v.pop_back(); past(empty); }

	void d_sa_index() { S n = nz_any_size(); nz_assume(n < Max); ProbeN* m = room(n); Nz::StackArray<ProbeN> a(m, n); nz_maystop(); a[beyond(n)]; past(range); }
	void d_sa_index_const() { S n = nz_any_size(); nz_assume(n < Max); ProbeN* m = room(n); const Nz::StackArray<ProbeN> a(m, n); nz_maystop(); a[beyond(n)]; past(range); }
	void d_sa_back_empty() { ProbeN* m = room(1); Nz::StackArray<ProbeN> a(m, 0); nz_maystop(); a.back(); past(empty); }
	void d_sa_back_const_empty() { ProbeN* m = room(1); const Nz::StackArray<ProbeN> a(m, 0); nz_maystop(); a.back(); past(empty); }

	void d_bitset_test() { S n = nz_pick(70); Nz::Bitset<std::uint32_t> b(n, true); nz_maystop(); b.Test(beyond(n)); past(range); }
	void d_bitset_set() { S n = nz_pick(70); Nz::Bitset<std::uint32_t> b(n, true); nz_maystop(); b.Set(beyond(n), nz_any_bool()); past(range); }
	void d_bitset_set_next() { S n = nz_pick(70); Nz::Bitset<std::uint32_t> b(n, true); nz_maystop(); b.Set(n + nz_pick(2) * 40, nz_pick(2)); past(range); }
	void d_bitset_reset() { S n = nz_pick(70); Nz::Bitset<std::uint32_t> b(n, true); nz_maystop(); b.Reset(beyond(n)); past(range); }
	void d_bitset_next() { S n = nz_pick(70); Nz::Bitset<std::uint32_t> b(n, false); nz_maystop(); b.FindNext(beyond(n)); past(range); }
	void d_bitset_getblock() { S n = nz_pick(70); Nz::Bitset<std::uint32_t> b(n, true); nz_maystop(); b.GetBlock(beyond((n + 31) / 32)); past(range); }
	void d_bitset_setblock() { S n = nz_pick(70); Nz::Bitset<std::uint32_t> b(n, true); nz_maystop(); b.SetBlock(beyond((n + 31) / 32), 1u); past(range); }
	void d_bitset_to() { S n = 33 + nz_pick(40); Nz::Bitset<std::uint8_t> b(n, true); nz_maystop(); (void) b.To<std::uint32_t>(); past("a conversion that cannot hold every bit stops the program"); }
	void d_bitset_to8() { S n = 9 + nz_pick(9); Nz::Bitset<std::uint32_t> b(n, true); nz_maystop(); (void) b.To<std::uint8_t>(); past("a conversion that cannot hold every bit stops the program"); }
	void d_bitset_write_null() { Nz::Bitset<std::uint32_t> b; nz_maystop(); b.Write(Nz::Bitset<std::uint32_t>::PointerSequence(nullptr, 0), 1 + nz_pick(3)); past("a null sequence stops the program"); }
	void d_bitset_write_bit() { Nz::Bitset<std::uint32_t> b; std::uint8_t d[4] = {}; nz_maystop(); b.Write(Nz::Bitset<std::uint32_t>::PointerSequence(d, beyond(8)), 1); past("a sequence starting past its first byte stops the program"); }

	void d_pool_free_unused() { Nz::MemoryPool<ProbeN> p(4); S i; p.Allocate(i, X(1)); nz_maystop(); p.Free(1 + nz_pick(3)); past("freeing an entry that is not allocated stops the program"); }
	void d_pool_free_outside() { Nz::MemoryPool<ProbeN> p(4); S i; p.Allocate(i, X(1)); nz_maystop(); p.Free(4 + nz_pick(9)); past(range); }
	void d_pool_free_twice() { Nz::MemoryPool<ProbeN> p(2); S i, j; p.Allocate(i, X(1)); p.Allocate(j, X(2)); p.Free(i); nz_maystop(); p.Free(i); past("freeing an entry twice stops the program"); }
	void d_pool_free_last_twice() { Nz::MemoryPool<ProbeN> p(2); S i; p.Allocate(i, X(1)); p.Free(i, Nz::MemoryPool<ProbeN>::NoDestruction_t{}); nz_maystop(); p.Free(i, Nz::MemoryPool<ProbeN>::NoDestruction_t{}); past("freeing an entry twice stops the program"); }
	void d_pool_retrieve() { Nz::MemoryPool<ProbeN> p(2); S i; p.Allocate(i, X(1)); nz_maystop(); p.RetrieveFromIndex(1 + nz_pick(4)); past("looking up an entry that is not allocated stops the program"); }
	void d_pool_retrieve_const() { Nz::MemoryPool<ProbeN> p(2); S i; p.Allocate(i, X(1)); const auto& c = p; nz_maystop(); c.RetrieveFromIndex(1 + nz_pick(4)); past("looking up an entry that is not allocated stops the program"); }
	void d_pool_increment_end() { Nz::MemoryPool<ProbeN> p(2); S i; if (nz_pick(2)) p.Allocate(i, X(1)); nz_maystop(); auto it = p.end(); ++it; past("incrementing the end of a pool stops the program"); }
	void d_pool_iterators() { Nz::MemoryPool<ProbeN> p(2), q(2); S i; p.Allocate(i, X(1)); q.Allocate(i, X(1)); nz_maystop(); (void) (nz_pick(2) ? p.begin() == q.begin() : p.begin() != q.begin()); past("comparing iterators of two pools stops the program"); }
	void d_pool_end_index() { Nz::MemoryPool<ProbeN> p(2); nz_maystop(); (void) p.end().GetIndex(); past("the end of a pool has no index"); }

	void d_enumarray_iterators() { Nz::EnumArray<En, int> a{}, b{}; auto x = a.iter_kv().begin(); auto y = b.iter_kv().begin(); nz_maystop(); switch (nz_pick(6)) { case 0: (void) (x == y); break; case 1: (void) (x != y); break; case 2: (void) (x < y); break; case 3: (void) (x <= y); break; case 4: (void) (x > y); break; default: (void) (x >= y); break; } past("comparing iterators of two arrays stops the program"); }
	void d_flags_end() { Nz::Flags<Fl> f; auto it = f.begin(); nz_maystop(); if (nz_pick(2)) ++it; else (void) *it; past("the end of the flags is not a flag"); }
	void d_sparse_stride() { int x = 0; S s = nz_any_size(); nz_assume(s > 0x7FFFFFFFu); nz_maystop(); Nz::SparsePtr<int> p(&x, s); past("a stride that does not fit stops the program"); }
	void d_impl_twice() { Nz::PrivateImpl<Im> p(X(1)); nz_maystop(); p.Emplace(X(2)); past("creating a second object stops the program"); }
	void d_signal_null() { Nz::Signal<X> s; nz_maystop(); Nz::Signal<X>::Callback f; if (nz_pick(2)) s.Connect(f); else s.Connect(std::move(f)); past("connecting no function stops the program"); }

	void d_retrieve() { std::map<int, int> m; nz_maystop(); const auto& c = m; if (nz_pick(2)) (void) Nz::Retrieve(m, 3); else (void) Nz::Retrieve(c, 3); past("retrieving a missing key stops the program"); }
}
namespace
{
	template<typename T> T anyi(); template<> std::uint8_t anyi() { return static_cast<std::uint8_t>(nz_any_u64()); } template<> std::uint32_t anyi() { return static_cast<std::uint32_t>(nz_any_u64()); } template<> std::uint64_t anyi() { return nz_any_u64(); } template<> std::int32_t anyi() { return nz_any_i32(); }
	template<typename T> void bits(bool negative = false) { S w = sizeof(T) * 8; T b = anyi<T>(); if (negative) { nz_assume(b < T(0)); } else if constexpr (std::is_signed_v<T>) { std::uint32_t u = nz_any_u32(); nz_assume(!(u >> 31)); nz_assume(u >= w); b = static_cast<T>(u); } else { nz_assume(b >= T(w)); } T v = anyi<T>(); nz_maystop(); switch (nz_pick(4)) { case 0: (void) Nz::ClearBit(v, b); break; case 1: (void) Nz::SetBit(v, b); break; case 2: (void) Nz::TestBit(v, b); break; default: (void) Nz::ToggleBit(v, b); break; } past(range); }
	template<typename T> void align() { T v = anyi<T>(); T z = 0; nz_maystop(); if (nz_pick(2)) (void) Nz::Align(v, z); else (void) Nz::AlignPow2(v, z); past("a null alignment stops the program"); }
	template<typename T> void alignbad() { T v = anyi<T>(); constexpr T bad[] = { T(3), T(5), T(6), T(7), T(12), T(100), T(127) }; T b = bad[nz_pick(7)]; nz_maystop(); (void) Nz::AlignPow2(v, b); past("an alignment that is not a power of two stops the program"); }
	template<typename T> void pow2() { nz_maystop(); (void) Nz::IsPow2(T(0)); past("zero stops the program"); }
}
extern "C"
{
	void d_bit_u8() { bits<std::uint8_t>(); } void d_bit_u32() { bits<std::uint32_t>(); } void d_bit_u64() { bits<std::uint64_t>(); } void d_bit_i32() { bits<std::int32_t>(); } void d_bit_negative() { bits<std::int32_t>(true); }
	void d_align_u8() { align<std::uint8_t>(); } void d_align_u32() { align<std::uint32_t>(); } void d_align_u64() { align<std::uint64_t>(); } void d_align_i32() { align<std::int32_t>(); }
	void d_alignbad_u8() { alignbad<std::uint8_t>(); } void d_alignbad_u64() { alignbad<std::uint64_t>(); } void d_alignbad_i32() { alignbad<std::int32_t>(); }
	void d_pow2() { switch (nz_pick(3)) { case 0: pow2<std::uint8_t>(); break; case 1: pow2<std::uint64_t>(); break; default: pow2<std::int32_t>(); } }
}
