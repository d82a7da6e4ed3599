// Signal: every connected slot once per emission, whatever the slots do meanwhile; no slot used after its destruction.
#include "nz.hpp"
#include <NazaraUtils/Signal.hpp>
#include <utility>
namespace
{
	using S = std::size_t; using X = std::uint64_t; using Sig = Nz::Signal<X>; using Conn = Sig::Connection; using Guard = Sig::ConnectionGuard;
	constexpr S Max = 8;
	struct Env { Sig sig; Conn c[Max]; S calls[Max] = {}; S order[32] = {}; S total = 0; bool on[Max] = {}; S n = 0; S actor = Max, target = Max, op = 0; X arg = 0; bool done = false; };
	void act(Env& e);
	// too big for std::function's inline buffer: a slot destroyed while it runs would be read after its memory is released
	struct Slot
	{
		Env* e; S id; S pad[4]; ProbeN p;
		Slot(Env* en, S i) : e(en), id(i), pad{ i, i, i, i }, p(i + 1) {}
		void operator()(X x) const
		{
			nz_check(e->on[id], "a disconnected slot is not called");
			nz_check(nz_alive(&p) && nz_value(&p) == id + 1, "the slot called is alive");
			nz_check(x == e->arg, "every slot gets the arguments of the emission");
			if (e->total < 32) e->order[e->total] = id;
			++e->total; ++e->calls[id];
			if (e->actor == id && !e->done) { e->done = true; act(*e); }
			nz_check(nz_alive(&p) && nz_value(&p) == id + 1 && pad[0] == id && pad[3] == id, "a slot stays alive until it returns");
		}
	};
	void add(Env& e) { S i = e.n++; e.on[i] = true; e.c[i] = e.sig.Connect(Slot(&e, i)); nz_check(e.c[i].IsConnected(), "a new connection is connected"); }
	void cut(Env& e, S i) { e.c[i].Disconnect(); e.on[i] = false; nz_check(!e.c[i].IsConnected(), "a disconnected connection says so"); }
	void act(Env& e)
	{
		switch (e.op)
		{
			case 0: cut(e, e.target); break;
			case 1: cut(e, e.target); cut(e, e.target); break;
			case 2: add(e); break;
			case 3: cut(e, e.target); add(e); break;
			case 4: cut(e, e.target); cut(e, (e.target + 1) % e.n); break;
			case 5: add(e); cut(e, e.target); break;
			case 6: e.sig.Clear(); for (S i = 0; i < e.n; ++i) e.on[i] = false; break;
			case 7: e.sig.Clear(); for (S i = 0; i < e.n; ++i) { e.on[i] = false; nz_check(!e.c[i].IsConnected(), "clearing disconnects every connection"); e.c[i].Disconnect(); } add(e); break;
			case 8: cut(e, e.actor); cut(e, e.target); add(e); break;
			case 11: { Sig o; o.Connect([](X) {}); e.sig = std::move(o); for (S i = 0; i < e.n; ++i) { e.on[i] = false; nz_check(!e.c[i].IsConnected(), "the slots replaced are disconnected"); e.c[i].Disconnect(); } } break;
			case 9: nz_maythrow(); break;
			case 10: cut(e, e.target); nz_maythrow(); break;
		}
	}
	// one emission: every slot connected throughout is called exactly once
	void emit(Env& e)
	{
		bool was[Max] = {}; S before[Max] = {}; for (S i = 0; i < Max; ++i) { was[i] = e.on[i]; before[i] = e.calls[i]; }
		e.arg = nz_any_u64(); e.sig(e.arg);
		for (S i = 0; i < e.n; ++i)
		{
			S k = e.calls[i] - before[i];
			if (was[i] && e.on[i]) nz_check(k == 1, "an emission calls every connected slot exactly once");
			else nz_check(k <= 1, "an emission calls no slot twice");
			nz_check(e.c[i].IsConnected() == e.on[i], "connections know whether they are connected");
		}
	}
	void inorder(Env& e) { e.total = 0; emit(e); for (S i = 1; i < e.total; ++i) nz_check(e.order[i - 1] < e.order[i], "slots are called in the order they were connected"); }
}
extern "C"
{
	void d_order() { S n = nz_pick(7); Env e; for (S i = 0; i < n; ++i) add(e); inorder(e); nz_check(e.total == n, "an emission calls every slot"); inorder(e); nz_check(e.total == n, "an emission calls every slot"); }
	void d_empty() { Env e; e.sig(1); e.sig.Clear(); e.sig(2); Conn c; nz_check(!c.IsConnected(), "a default connection is not connected"); c.Disconnect(); Guard g; nz_check(!g.IsConnected(), "a default guard is not connected"); g.Disconnect(); }
	void d_disconnect() { S k = nz_pick(5 * 5 * 5); S n = k / 25 + 1, a = k % 5, b = k / 5 % 5; Env e; for (S i = 0; i < n; ++i) add(e); if (a < n) cut(e, a); emit(e); if (b < n) cut(e, b); emit(e); add(e); emit(e); }
	void d_during() { S k = nz_pick(4 * 4 * 4); S n = k / 16 + 1; Env e; for (S i = 0; i < n; ++i) add(e); e.actor = k % 4; e.target = k / 4 % 4; if (e.actor >= n || e.target >= n) return; emit(e); emit(e); add(e); emit(e); }
	void d_during_twice() { S k = nz_pick(4 * 4 * 4); S n = k / 16 + 1; Env e; for (S i = 0; i < n; ++i) add(e); e.op = 1; e.actor = k % 4; e.target = k / 4 % 4; if (e.actor >= n || e.target >= n) return; emit(e); emit(e); }
	void d_during_connect() { S k = nz_pick(4 * 4); S n = k / 4 + 1; Env e; for (S i = 0; i < n; ++i) add(e); e.op = 2; e.actor = k % 4; if (e.actor >= n) return; emit(e); emit(e); cut(e, 0); emit(e); }
	void d_during_replace() { S k = nz_pick(4 * 4 * 4); S n = k / 16 + 1; Env e; for (S i = 0; i < n; ++i) add(e); e.op = 3; e.actor = k % 4; e.target = k / 4 % 4; if (e.actor >= n || e.target >= n) return; emit(e); emit(e); }
	void d_during_two() { S k = nz_pick(4 * 4 * 4); S n = k / 16 + 1; Env e; for (S i = 0; i < n; ++i) add(e); e.op = 4; e.actor = k % 4; e.target = k / 4 % 4; if (e.actor >= n || e.target >= n) return; emit(e); emit(e); }
	void d_during_connect_cut() { S k = nz_pick(4 * 4 * 4); S n = k / 16 + 1; Env e; for (S i = 0; i < n; ++i) add(e); e.op = 5; e.actor = k % 4; e.target = k / 4 % 4; if (e.actor >= n || e.target >= n) return; emit(e); emit(e); }
	void d_during_both() { S k = nz_pick(4 * 4 * 4); S n = k / 16 + 1; Env e; for (S i = 0; i < n; ++i) add(e); e.op = 8; e.actor = k % 4; e.target = k / 4 % 4; if (e.actor >= n || e.target >= n) return; emit(e); emit(e); }
	void d_during_clear() { S k = nz_pick(2 * 3 * 3); S n = k / 6 + 1; Env e; for (S i = 0; i < n; ++i) add(e); e.op = 6 + k % 2; e.actor = k / 2 % 3; if (e.actor >= n) return; emit(e); emit(e); add(e); emit(e); }
	void d_during_assign() { S k = nz_pick(9); S n = k / 3 + 1; Env e; for (S i = 0; i < n; ++i) add(e); e.op = 11; e.actor = k % 3; if (e.actor >= n) return; emit(e); emit(e); add(e); emit(e); }
	void d_throw() { S k = nz_pick(2 * 3 * 3); S n = 3; Env e; for (S i = 0; i < n; ++i) add(e); e.op = 9 + k % 2; e.actor = k / 2 % 3; e.target = k / 6; try { emit(e); } catch (...) { } for (S i = 0; i < n; ++i) nz_check(e.calls[i] <= 1, "an emission calls no slot twice"); emit(e); add(e); emit(e); cut(e, 3); emit(e); }
	void d_copy() { S n = nz_pick(3); Env e; for (S i = 0; i < n; ++i) add(e); Sig c(e.sig); c(1); nz_check(e.total == 0, "a copy of a signal has no slot"); Sig d; S hits = 0; d.Connect([&hits](X) { ++hits; }); d = e.sig; d(1); nz_check(e.total == 0 && hits == 1, "copy assignment changes neither signal's slots"); emit(e); nz_check(e.total == n, "copying leaves the source's slots"); }
	void d_move() { S n = nz_pick(4); Env e; for (S i = 0; i < n; ++i) add(e); { Sig m(std::move(e.sig)); e.sig(0); nz_check(e.total == 0, "a moved-from signal has no slot"); e.arg = 5; m(5); nz_check(e.total == n, "a moved signal calls its slots"); for (S i = 0; i < n; ++i) nz_check(e.c[i].IsConnected() && e.calls[i] == 1, "a moved signal calls each slot once"); if (n) { cut(e, 0); m(5); nz_check(e.total == 2 * n - 1, "a slot may be disconnected after the move"); } S hits = 0; Conn c = e.sig.Connect([&hits](X) { ++hits; }); e.sig(3); nz_check(hits == 1 && c.IsConnected(), "a moved-from signal is reusable"); } for (S i = 0; i < n; ++i) { nz_check(!e.c[i].IsConnected(), "destroying a signal disconnects its slots"); e.c[i].Disconnect(); } }
	void d_move_assign() { S k = nz_pick(9), n = k % 3, o = k / 3; Env e; for (S i = 0; i < n; ++i) add(e); S hits = 0; Sig m; Conn old[2]; for (S i = 0; i < o; ++i) old[i] = m.Connect([&hits](X) { ++hits; }); Sig& r = (m = std::move(e.sig)); nz_check(&r == &m, "assignment returns its destination"); e.arg = 4; m(4); nz_check(hits == 0 && e.total == n, "move assignment replaces the slots"); for (S i = 0; i < o; ++i) { nz_check(!old[i].IsConnected(), "the slots replaced are disconnected"); old[i].Disconnect(); } e.sig(4); nz_check(e.total == n, "a moved-from signal has no slot"); for (S i = 0; i < n; ++i) nz_check(e.c[i].IsConnected(), "moved slots stay connected"); e.sig = std::move(m); nz_check(&e.sig != &m, ""); emit(e); nz_check(e.total == 2 * n, "moved back"); if (n) { cut(e, n - 1); emit(e); } }
	void d_self_move() { S n = nz_pick(3); Env e; for (S i = 0; i < n; ++i) add(e); Sig& s = e.sig; e.sig = std::move(s); emit(e); nz_check(e.total == n, "self-move keeps the slots"); }
	void d_outlive() { S n = nz_pick(3); Conn c[3]; Guard g; { Sig s; S hits = 0; for (S i = 0; i < n; ++i) c[i] = s.Connect([&hits](X) { ++hits; }); g.Connect(s, [&hits](X) { ++hits; }); s(1); nz_check(hits == n + 1, "emission"); } for (S i = 0; i < n; ++i) { nz_check(!c[i].IsConnected(), "a connection outliving its signal reports disconnected"); c[i].Disconnect(); } nz_check(!g.IsConnected(), "a guard outliving its signal reports disconnected"); }
	void d_connection() { Sig s; S hits = 0; Conn a = s.Connect([&hits](X) { ++hits; }); Conn b(a); nz_check(a.IsConnected() && b.IsConnected(), "a copied connection is the same connection"); b.Disconnect(); nz_check(!a.IsConnected(), "a copied connection is the same connection"); a.Disconnect(); s(1); nz_check(hits == 0, "disconnected"); a.Connect(s, [&hits](X) { ++hits; }); Conn c(std::move(a)); nz_check(!a.IsConnected() && c.IsConnected(), "a moved connection hands over"); Conn d; Conn& r = (d = std::move(c)); nz_check(&r == &d && !c.IsConnected() && d.IsConnected(), "a moved connection hands over"); s(1); nz_check(hits == 1, "moving a connection keeps the slot"); a = d; nz_check(a.IsConnected(), "assignment"); { Conn t(d); } s(1); nz_check(hits == 2, "destroying a connection does not disconnect"); }
	void d_guard() { Sig s; S hits = 0, other = 0; { Guard g(s.Connect([&hits](X) { ++hits; })); nz_check(g.IsConnected() && g.GetConnection().IsConnected(), "a guard is connected"); s(1); nz_check(hits == 1, "emission"); g = s.Connect([&other](X) { ++other; }); s(1); nz_check(hits == 1 && other == 1, "assigning a guard disconnects its previous slot"); Guard h(std::move(g)); nz_check(!g.IsConnected() && h.IsConnected(), "a moved guard hands over"); s(1); nz_check(other == 2, "emission"); { Guard i; Guard& r = (i = std::move(h)); nz_check(&r == &i && !h.IsConnected() && i.IsConnected(), "a moved guard hands over"); s(1); nz_check(other == 3, "emission"); } s(1); nz_check(other == 3, "a guard disconnects its slot when destroyed"); Conn c = s.Connect([&hits](X) { ++hits; }); g = c; nz_check(g.IsConnected() && c.IsConnected(), "a guard made from a connection"); g.Connect(s, [&other](X) { ++other; }); nz_check(!c.IsConnected(), "connecting a guard disconnects its previous slot"); g.Disconnect(); nz_check(!g.IsConnected(), "a guard can be disconnected"); s(1); nz_check(other == 3 && hits == 1, "emission"); g.Connect(s, [&other](X) { ++other; }); } s(1); nz_check(other == 3 && hits == 1, "a guard disconnects its slot when destroyed"); }
	void d_guard_move_replaces() { Sig s; S a = 0, b = 0; Guard g(s.Connect([&a](X) { ++a; })), h(s.Connect([&b](X) { ++b; })); g = std::move(h); s(1); nz_check(a == 0 && b == 1, "moving a guard onto another disconnects the slot replaced"); Guard& x = g; g = std::move(x); s(1); nz_check(b == 2 && g.IsConnected(), "self-move keeps the slot"); }
	void d_guard_in_slot() { S k = nz_pick(3); Sig s; S a = 0, b = 0; Guard g; Conn first, last; if (k >= 1) first = s.Connect([&b](X) { ++b; }); struct Big { Guard* g; S* a; S pad[4]; void operator()(X) const { g->Disconnect(); ++*a; nz_check(!g->IsConnected(), "a guard disconnected by its own slot"); nz_check(pad[3] == 9, "a slot stays alive until it returns"); g->Disconnect(); } }; g.Connect(s, Big{ &g, &a, { 9, 9, 9, 9 } }); if (k == 2) last = s.Connect([&b](X) { ++b; }); s(1); s(1); nz_check(a == 1 && b == 2 * k, "a slot that disconnects its own guard runs once"); }
	// a function object given as an rvalue is moved all the way: copying it is the caller's choice
	struct Heavy { X* copies; ProbeN p; Heavy(X* c) : copies(c), p(1) {} Heavy(const Heavy& o) : copies(o.copies), p(o.p) { ++*copies; } Heavy(Heavy&&) noexcept = default; void operator()(X) const { nz_check(nz_valid(&p), "the slot called holds its own state"); nz_event(2, 0); } };
	void d_rvalue_callback() { S k = nz_pick(4); Sig s; X copies = 0; Heavy h(&copies); Sig::Callback f(std::move(h)); Conn c; Guard g; nz_check(copies == 0, "");
		switch (k) { case 0: s.Connect(std::move(f)); break; case 1: c.Connect(s, std::move(f)); break; case 2: g.Connect(s, std::move(f)); break; case 3: g = s.Connect(std::move(f)); break; }
		nz_check(copies == 0, "a callback given as an rvalue is moved"); s(1); nz_check(nz_evcount(2) == 1, "the slot is called once"); }
	void d_lvalue_callback() { S k = nz_pick(3); Sig s; X copies = 0; const Heavy h(&copies); Conn c; Guard g;
		switch (k) { case 0: s.Connect(h); break; case 1: c.Connect(s, h); break; case 2: g.Connect(s, h); break; }
		nz_check(nz_valid(&h.p), "a callback given as an lvalue is left untouched"); h(1); s(1); nz_check(nz_evcount(2) == 2, "the slot is called once"); }
	struct Obj { S hits = 0; X last = 0; void on(X x) { ++hits; last = x; } void con(X x) const { nz_event(1, x); } };
	void d_members() { Sig s; Obj o; const Obj& co = o; X x = nz_any_u64(); s.Connect(o, &Obj::on); s.Connect(&o, &Obj::on); s.Connect(co, &Obj::con); s.Connect(&co, &Obj::con); s(x); nz_check(o.hits == 2 && o.last == x && nz_evcount(1) == 2 && nz_evarg(0, 1) == x && nz_evarg(1, 1) == x, "member functions are called once each with the argument"); }
	void d_callback_copy() { Sig s; S hits = 0; const Sig::Callback f([&hits](X) { ++hits; }); Conn a = s.Connect(f), b = s.Connect(f); nz_check(bool(f), "connecting a callback copies it"); s(1); nz_check(hits == 2, "emission"); a.Disconnect(); s(1); nz_check(hits == 3 && b.IsConnected(), "emission"); Sig::Callback g(f); s.Connect(std::move(g)); s(1); nz_check(hits == 5, "emission"); }
	void d_byvalue() { Nz::Signal<ProbeN> s; S seen = 0; for (int i = 0; i < 3; ++i) s.Connect([&seen](ProbeN p) { nz_check(nz_valid(&p) && nz_value(&p) == 5, "every slot gets the value given"); ++seen; ProbeN q(std::move(p)); }); ProbeN v(5); s(v); nz_check(seen == 3 && nz_valid(&v), "every slot gets its own argument"); s(std::move(v)); nz_check(seen == 6, "every slot gets its own argument"); }
	void d_byref() { Nz::Signal<ProbeN&, X&&> t; ProbeN p(1); t.Connect([&p](ProbeN& q, X&&) { nz_check(&q == &p, "a reference argument is the object given"); nz_event(1, 0); }); (void)t; }
	void d_nested() { Env e; for (S i = 0; i < 3; ++i) add(e); S depth = 0, calls = 0; Sig s; Sig* ps = &s; for (S i = 0; i < 3; ++i) s.Connect([&depth, &calls, ps](X x) { if (x == 1) ++calls; if (depth == 0) { ++depth; (*ps)(2); } }); s(1); nz_check(calls == 3, "an emission from a slot of the signal does not cut short the outer emission"); }
	void d_other_signal() { Sig a, b; S hits = 0; b.Connect([&hits](X x) { hits += x; }); Sig* pb = &b; a.Connect([pb](X x) { (*pb)(x); (*pb)(x); }); a.Connect([&hits](X) { ++hits; }); a(10); nz_check(hits == 21, "a slot may emit another signal"); }
}
