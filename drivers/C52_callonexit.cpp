// CallOnExit: the function runs exactly once, on every path out of the scope, unless it was cancelled or handed over.
#include "nz.hpp"
#include <NazaraUtils/CallOnExit.hpp>
#include <utility>
namespace
{
	// the function carries an element, so that its own lifetime is tracked too
	struct Call { std::uint64_t id; ProbeN p; explicit Call(std::uint64_t i) : id(i), p(i) {} void operator()() { nz_check(nz_alive(&p) && nz_valid(&p) && nz_value(&p) == id, "the function called holds its own state"); nz_event(id, 0); } };
	struct Thrower { std::uint64_t id; ProbeN p; explicit Thrower(std::uint64_t i) : id(i), p(i) {} void operator()() { nz_event(id, 0); nz_maythrow(); } };
	struct MoveOnly { std::uint64_t id; ProbeN p; explicit MoveOnly(std::uint64_t i) : id(i), p(i) {} MoveOnly(MoveOnly&&) noexcept = default; MoveOnly(const MoveOnly&) = delete; void operator()() { nz_check(nz_valid(&p) && nz_value(&p) == id, "the function called holds its own state"); nz_event(id, 0); } };
	struct CountOnly { std::uint64_t id; void operator()() const { nz_event(id, 0); } };
	using G = Nz::CallOnExit<Call>;
	void once(std::uint64_t id, const char* m) { nz_check(nz_evcount(id) == 1, m); }
	void never(std::uint64_t id, const char* m) { nz_check(nz_evcount(id) == 0, m); }
	void leave(unsigned how)
	{
		Nz::CallOnExit g(Call(1));
		if (how == 0) return;
		if (how == 1) nz_maythrow();
		if (how == 2) throw 3;
		never(1, "the function is not called before the end of the scope");
	}
	void defer(unsigned how) { NAZARA_DEFER({ nz_event(1, 0); }); if (how == 0) return; if (how == 1) nz_maythrow(); never(1, "a deferred statement waits for the end of the scope"); }
	void nested() { Nz::CallOnExit a(Call(1)); Nz::CallOnExit b(Call(2)); nz_maythrow(); }
}
extern "C"
{
	void d_scope() { { Nz::CallOnExit g(Call(1)); never(1, "the function is not called before the end of the scope"); } once(1, "leaving the scope calls the function once"); }
	void d_paths() { std::size_t how = nz_pick(4); try { leave(unsigned(how)); } catch (...) { } once(1, "every path out of the scope calls the function once"); }
	void d_defer() { std::size_t how = nz_pick(3); try { defer(unsigned(how)); } catch (...) { } once(1, "every path out of the scope runs a deferred statement once"); }
	void d_two() { try { nested(); } catch (...) { } once(1, "every guard calls its function once"); once(2, "every guard calls its function once"); nz_check(nz_evarg(0, 0) == 2, "guards run in reverse order"); }
	void d_empty() { { G g; g.CallAndReset(); g.Reset(); G h; g = std::move(h); } never(1, "an empty guard calls nothing"); }
	void d_reset() { { Nz::CallOnExit g(Call(1)); g.Reset(); g.CallAndReset(); g.Reset(); } never(1, "a cancelled guard never calls its function"); }
	void d_call_and_reset() { { Nz::CallOnExit g(Call(1)); g.CallAndReset(); once(1, "CallAndReset calls the function"); g.CallAndReset(); } once(1, "after CallAndReset the function is not called again"); }
	void d_call_and_reset_throw() { bool thrown = false; { Nz::CallOnExit g(Thrower(1)); try { g.CallAndReset(); } catch (...) { thrown = true; } once(1, "CallAndReset calls the function once, even if it throws"); if (thrown) g.Reset(); } once(1, "a function that throws from CallAndReset is not called again"); }
	void d_call_and_reset_throw2() { try { Nz::CallOnExit g(Thrower(1)); g.CallAndReset(); } catch (...) { } once(1, "a function that throws from CallAndReset is not called again"); }
	void d_handover() { { G a; { Nz::CallOnExit b(Call(1)); G& r = (a = std::move(b)); nz_check(&r == &a, "assignment returns its destination"); } never(1, "a guard moved from does not call the function"); } once(1, "the guard moved to calls the function once"); }
	void d_handover_reset() { { G a; Nz::CallOnExit b(Call(1)); a = std::move(b); b.CallAndReset(); never(1, "a guard moved from is empty"); a.CallAndReset(); once(1, "the guard moved to holds the function"); } once(1, "the function is called once"); }
	void d_replace() { { Nz::CallOnExit a(Call(1)); Nz::CallOnExit b(Call(2)); a = std::move(b); never(1, "a replaced function is not called"); never(2, "a moved function is not called by moving it"); } never(1, "a replaced function is not called"); once(2, "the guard moved to calls the function once"); }
	void d_replace_empty() { { Nz::CallOnExit a(Call(1)); G b; a = std::move(b); } never(1, "a guard replaced by an empty one calls nothing"); }
	void d_self() { { Nz::CallOnExit a(Call(1)); G& b = a; a = std::move(b); never(1, "self-assignment does not call the function"); } once(1, "self-assignment keeps the function"); }
	void d_reuse() { { G a; Nz::CallOnExit b(Call(1)); a = std::move(b); Nz::CallOnExit c(Call(2)); b = std::move(c); b.CallAndReset(); once(2, "a moved-from guard is reusable"); } once(1, "each function is called once"); once(2, "each function is called once"); }
	void d_move_only() { { Nz::CallOnExit g(MoveOnly(1)); Nz::CallOnExit h(MoveOnly(2)); h = std::move(g); never(1, "a moved function is not called by moving it"); Nz::CallOnExit i(MoveOnly(3)); i.CallAndReset(); once(3, "CallAndReset calls the function"); } once(1, "a function that can only be moved is called once"); never(2, "a replaced function is not called"); once(3, "a function that can only be moved is called once"); }
	// every history of three operations on two guards
	static void step(std::size_t op, G& a, G& b, bool& ha, bool& hb, std::size_t& exp1, std::size_t& exp2, std::uint64_t& ia, std::uint64_t& ib)
	{
		auto fire = [&](std::uint64_t i) { if (i == 1) ++exp1; else ++exp2; };
		switch (op)
		{
			case 0: a.Reset(); ha = false; break;
			case 1: a.CallAndReset(); if (ha) fire(ia); ha = false; break;
			case 2: b.Reset(); hb = false; break;
			case 3: b.CallAndReset(); if (hb) fire(ib); hb = false; break;
			case 4: a = std::move(b); ha = hb; ia = ib; hb = false; break;
			case 5: b = std::move(a); hb = ha; ib = ia; ha = false; break;
		}
		nz_check(nz_evcount(1) == exp1 && nz_evcount(2) == exp2, "each operation calls exactly the functions it should");
	}
	void d_history()
	{
		std::size_t e1 = 0, e2 = 0;
		{
			std::size_t h = nz_pick(216);
			G a(Call(1)), b(Call(2)); bool ha = true, hb = true; std::uint64_t ia = 1, ib = 2;
			step(h % 6, a, b, ha, hb, e1, e2, ia, ib); step(h / 6 % 6, a, b, ha, hb, e1, e2, ia, ib); step(h / 36, a, b, ha, hb, e1, e2, ia, ib);
			if (ha) { if (ia == 1) ++e1; else ++e2; }
			if (hb) { if (ib == 1) ++e1; else ++e2; }
		}
		nz_check(nz_evcount(1) == e1 && nz_evcount(2) == e2, "each function is called as often as its guards' history says");
		nz_check(e1 <= 1 && e2 <= 1, "no function is called twice");
	}
}
