// MemoryPool: every occupancy reachable in small pools, one further operation, then the full state is checked.
#include "nz.hpp"
#include <NazaraUtils/MemoryPool.hpp>
#include <utility>
using S = std::size_t;
namespace
{
	template<S B, S NB, S A = alignof(ProbeN)> struct Env
	{
		using Pool = Nz::MemoryPool<ProbeN, A>;
		static constexpr S N = B * NB;
		Pool pool{B}; ProbeN* ptr[N + B]; bool live[N + B] = {}; S count = 0; S room = N; const S blocks = NB;
		// every entry allocated, then an arbitrary subset freed
		explicit Env(S used = N)
		{
			nz_check(pool.GetBlockSize() == B && pool.GetBlockCount() == 1 && pool.GetFreeEntryCount() == B, "a new pool has one free block");
			for (S i = 0; i < used; ++i) alloc(i);
			if (room < pool.GetBlockCount() * B) room = pool.GetBlockCount() * B;
		}
		void alloc(S expected)
		{
			S index = S(-1); ProbeN* p = pool.Allocate(index, std::uint64_t(100 + expected));
			nz_check(index == expected, "a free entry is handed out"); nz_check(!live[expected], "the index handed out is not in use");
			nz_check(nz_valid(p) && nz_value(p) == 100 + expected, "the entry is built from the arguments");
			ptr[expected] = p; live[expected] = true; ++count;
		}
		void free(S i) { pool.Free(i); live[i] = false; --count; nz_check(!nz_alive(ptr[i]), "a freed entry is destroyed"); }
		void subset() { for (S i = 0; i < N; ++i) if (nz_any_bool()) free(i); }
		void check(S nblocks = NB) { check(pool, nblocks); }
		void check(Pool& p, S nblocks)
		{
			const Pool& c = p;
			nz_check(c.GetAllocatedEntryCount() == count && p.size() == count, "the live entries are counted");
			nz_check(c.GetBlockCount() == nblocks && c.GetFreeEntryCount() == nblocks * B - count, "the free entries are counted");
			S n = 0;
			for (S i = 0; i < nblocks * B; ++i)
			{
				if (!live[i]) continue;
				++n;
				nz_check(nz_valid(ptr[i]) && nz_value(ptr[i]) == 100 + i, "a live entry keeps its value");
				nz_check(p.RetrieveFromIndex(i) == ptr[i] && c.RetrieveFromIndex(i) == ptr[i], "a live entry keeps its address");
				nz_check(p.RetrieveEntryIndex(ptr[i]) == i, "the index is found back from the address");
				
			}
			nz_check(n == count, "live entries");
			S next = 0; n = 0;
			for (auto it = p.begin(); it != p.end(); ++it)
			{
				S g = it.GetIndex(); while (next < nblocks * B && !live[next]) ++next;
				nz_check(g == next, "iteration visits the live entries in order"); nz_check(&*it == ptr[g], "iteration gives the entry"); ++next; ++n;
			}
			nz_check(n == count, "iteration visits every live entry");
			n = 0; next = 0;
			for (auto it = c.begin(); it != c.end();)
			{
				auto at = it++; S g = at.GetIndex(); while (next < nblocks * B && !live[next]) ++next;
				nz_check(g == next && &*at == ptr[g], "const iteration visits the live entries in order"); ++next; ++n;
			}
			nz_check(n == count && (count > 0 || c.cbegin() == c.cend()), "const iteration visits every live entry");
		}
		S firstFree() { for (S i = 0; i < N; ++i) if (!live[i]) return i; return N; }
	};
	template<typename E> struct T
	{
		static void alloc_free() { E e; e.subset(); e.check(); }
		static void realloc()
		{
			E e; e.subset(); S index = S(-1); bool full = e.count == E::N;
			ProbeN* p = e.pool.Allocate(index, std::uint64_t(7));
			nz_check(full ? index == E::N : index < E::N && !e.live[index], "an index not in use is handed out");
			nz_check(nz_valid(p) && nz_value(p) == 7, "the entry is built from the arguments");
			e.pool.Free(index); nz_check(!nz_alive(p), "a freed entry is destroyed");
			if (!full) e.check();
		}
		static void refill()
		{
			E e; e.subset();
			while (e.count < E::N) { S index = S(-1); ProbeN* p = e.pool.Allocate(index, std::uint64_t(0)); nz_check(index < E::N && !e.live[index], "every free entry is reused before the pool grows"); if (index >= E::N) return; p->~ProbeN(); new (p) ProbeN(std::uint64_t(100 + index)); e.live[index] = true; e.ptr[index] = p; ++e.count; }
			e.check();
		}
		static void defer()
		{
			E e; e.subset(); S index = S(-1); ProbeN* p = e.pool.Allocate(E::Pool::DeferConstruct, index);
			nz_check(!nz_alive(p), "a deferred entry is not constructed"); nz_check(index <= E::N && !(index < E::N && e.live[index]), "an index not in use is handed out");
			new (p) ProbeN(std::uint64_t(9));
			nz_check(e.pool.RetrieveFromIndex(index) == p && e.pool.RetrieveEntryIndex(p) == index, "lookups of a deferred entry");
			p->~ProbeN(); e.pool.Free(index, E::Pool::NoDestruction);
			if (index < E::N) e.check();
		}
		static void reset()
		{
			E e; e.subset(); e.pool.Reset();
			for (S i = 0; i < E::N; ++i) { nz_check(!nz_alive(e.ptr[i]), "reset destroys every entry"); e.live[i] = false; }
			e.count = 0; e.check();
			for (S i = 0; i < E::N; ++i) { ProbeN* old = e.ptr[i]; e.alloc(i); nz_check(e.ptr[i] == old, "the memory is reused after a reset"); }
			e.check();
		}
		static void clear()
		{
			E e; e.subset(); e.pool.Clear(); for (S i = 0; i < E::N; ++i) e.live[i] = false; e.count = 0;
			nz_check(e.pool.GetBlockCount() == 0 && e.pool.GetAllocatedEntryCount() == 0 && e.pool.GetFreeEntryCount() == 0, "clear releases everything");
			nz_check(!(e.pool.begin() != e.pool.end()), "nothing is left to visit");
			e.alloc(0); e.check(1);
		}
		static void move_ctor() { E e; e.subset(); typename E::Pool p(std::move(e.pool)); e.check(p, E::blocks_of(e)); }
		static void move_assign()
		{
			E e; e.subset(); E f; f.subset(); f.pool = std::move(e.pool); e.check(f.pool, E::blocks_of(e));
		}
		static void self_assign() { E e; e.subset(); auto& r = e.pool; e.pool = std::move(r); e.check(); }
		static void foreign() { E e; E f; nz_check(e.pool.RetrieveEntryIndex(f.ptr[0]) == E::Pool::InvalidIndex && e.pool.RetrieveEntryIndex(f.ptr[E::N - 1]) == E::Pool::InvalidIndex, "an address outside the pool has no index"); }
		static void one_mut() { E e; e.subset(); for (ProbeN& p : e.pool) { nz_check(nz_alive(&p), "iteration gives live entries"); } }
	};
	template<S B, S NB, S A = alignof(ProbeN)> struct EnvX : Env<B, NB, A> { static S blocks_of(const EnvX&) { return NB; } };
	using E31 = EnvX<3, 1>; using E22 = EnvX<2, 2>; using E13 = EnvX<1, 3>; using E21a = EnvX<2, 1, 32>; using E32 = EnvX<3, 2>;
}
#define SC(E, name) extern "C" void d_##E##_##name() { T<E>::name(); }
#define ALL(E) SC(E, alloc_free) SC(E, realloc) SC(E, refill) SC(E, defer) SC(E, reset) SC(E, clear) SC(E, move_ctor) SC(E, self_assign) SC(E, foreign) SC(E, one_mut)
ALL(E31) ALL(E22) ALL(E13) ALL(E21a)
SC(E31, move_assign) SC(E21a, move_assign)
ALL(E32)
extern "C"
{
	// one block larger than a word of the bitsets, one entry at any index freed and handed out again
	void d_big_block()
	{
		Nz::MemoryPool<ProbeN> pool(70); ProbeN* ptr[70];
		for (S i = 0; i < 70; ++i) { S index = S(-1); ptr[i] = pool.Allocate(index, std::uint64_t(i)); nz_check(index == i, "entries are handed out in turn"); }
		nz_check(pool.GetBlockCount() == 1 && pool.GetFreeEntryCount() == 0, "one full block");
		for (S k : { S(0), S(1), S(63), S(64), S(69) })
		{
			pool.Free(k); nz_check(!nz_alive(ptr[k]), "a freed entry is destroyed"); nz_check(pool.GetFreeEntryCount() == 1 && pool.GetAllocatedEntryCount() == 69, "counts");
			S n = 0; for (auto it = pool.begin(); it != pool.end(); ++it) { if (n == k) ++n; nz_check(it.GetIndex() == n && &*it == ptr[n], "iteration visits the live entries in order"); ++n; }
			nz_check(n == 70 || (k == 69 && n == 69), "iteration visits every live entry");
			S index = S(-1); ProbeN* p = pool.Allocate(index, std::uint64_t(k)); nz_check(index == k && p == ptr[k], "the free entry is reused");
		}
	}
	// indices which need more than a byte
	void d_wide_block()
	{
		Nz::MemoryPool<ProbeN> pool(300); ProbeN* ptr[300];
		for (S i = 0; i < 300; ++i) { S index = S(-1); ptr[i] = pool.Allocate(index, std::uint64_t(i)); nz_check(index == i, "entries are handed out in turn"); }
		nz_check(pool.GetBlockCount() == 1 && pool.GetFreeEntryCount() == 0 && pool.GetAllocatedEntryCount() == 300 && pool.size() == 300, "one full block");
		for (S k : { S(0), S(255), S(256), S(299) })
		{
			nz_check(pool.RetrieveEntryIndex(ptr[k]) == k && pool.RetrieveFromIndex(k) == ptr[k], "lookups");
			pool.Free(k); nz_check(!nz_alive(ptr[k]), "a freed entry is destroyed"); nz_check(pool.GetFreeEntryCount() == 1 && pool.GetAllocatedEntryCount() == 299, "counts");
			S index = S(-1); ProbeN* p = pool.Allocate(index, std::uint64_t(k)); nz_check(index == k && p == ptr[k], "the free entry is reused");
		}
		S index = S(-1); ProbeN* p = pool.Allocate(index, std::uint64_t(7)); nz_check(index == 300 && pool.RetrieveEntryIndex(p) == 300 && pool.RetrieveFromIndex(300) == p && pool.GetFreeEntryCount() == 299, "the next block");
		S n = 0; for (auto it = pool.begin(); it != pool.end(); ++it) { nz_check(it.GetIndex() == n && &*it == (n < 300 ? ptr[n] : p), "iteration visits the live entries in order"); ++n; }
		nz_check(n == 301, "iteration visits every live entry");
	}
	void d_ctor_throws()
	{
		Nz::MemoryPool<ProbeT> pool(2); S a = S(-1), b = S(-1); ProbeT* p = nullptr;
		try { p = pool.Allocate(a, std::uint64_t(1)); } catch (...) { nz_check(pool.GetAllocatedEntryCount() == 0 && pool.GetFreeEntryCount() == 2 && !(pool.begin() != pool.end()), "a failed construction gives the entry back"); return; }
		try { pool.Allocate(b, std::uint64_t(2)); } catch (...) { nz_check(pool.GetAllocatedEntryCount() == 1 && pool.GetFreeEntryCount() == 1, "a failed construction gives the entry back"); nz_check(&*pool.begin() == p && nz_alive(p), "the other entries stay"); }
	}
}
