// Assertions: a false condition never gets past the check, a true one has no effect, and the macros evaluate their condition once (or not at all).
#include "nz.hpp"
#include <NazaraUtils/Assert.hpp>
#if !defined(NAZARA_NO_ASSERT) && (defined(NAZARA_ENABLE_ASSERTS) || !defined(NDEBUG))
constexpr bool On = true;
#else
constexpr bool On = false;
#endif
namespace
{
	constexpr std::uint64_t IO = 0xF00D; // something was printed
	bool cond(bool r) { nz_event(1, 0); return r; }
	const char* text() { nz_event(2, 0); return "%d"; }
	void quiet(std::size_t evals) { nz_check(nz_evcount(1) == evals, On ? "the condition is evaluated exactly once" : "the condition is not evaluated when assertions are off"); nz_check(nz_evcount(IO) == 0, "a condition that holds prints nothing"); nz_check(nz_evcount(2) == 0, "a condition that holds does not evaluate the message"); }
	void past(const char* m) { if (On) nz_check(false, m); else { nz_check(nz_evcount(1) == 0, "the condition is not evaluated when assertions are off"); nz_check(nz_evcount(IO) == 0, "nothing is printed when assertions are off"); } }
	struct Flag { bool v; explicit operator bool() const { nz_event(1, 0); return v; } };
	struct Throws { bool v; };
}
extern "C"
{
	void d_macro_true() { NazaraAssert(cond(true)); quiet(On); }
	void d_macro_any() { bool b = nz_any_bool(); nz_maystop(); NazaraAssert(cond(b)); if (On) { nz_check(b, "only a condition that holds gets past the check"); quiet(1); } else past(""); }
	void d_macro_false() { nz_maystop(); NazaraAssert(cond(false)); past("the program does not continue past a failed assertion"); }
	void d_macro_comma() { int a[2] = { 1, 2 }; NazaraAssert((a[0] == 1 || cond(true))); quiet(0); }
	void d_macro_precedence() { bool b = nz_any_bool(), c = nz_any_bool(); nz_maystop(); NazaraAssert(b | c); if (On) nz_check(b | c, "the whole condition is tested"); }
	void d_macro_precedence2() { bool b = nz_any_bool(), c = nz_any_bool(); nz_maystop(); NazaraAssert(b == c); if (On) nz_check(b == c, "the whole condition is tested"); }
	void d_macro_ternary() { bool b = nz_any_bool(), c = nz_any_bool(); nz_maystop(); NazaraAssert(b ? c : false); if (On) { nz_check(b, "the whole condition is tested"); nz_check(c, "the whole condition is tested"); } }
	void d_macro_pointer() { int x = 0; int* p = nz_any_bool() ? &x : nullptr; nz_maystop(); NazaraAssert(p); if (On) nz_check(p != nullptr, "a null pointer fails the assertion"); }
	void d_macro_explicit() { Flag f{nz_any_bool()}; nz_maystop(); NazaraAssert(f); if (On) { nz_check(f.v, "an object convertible to bool is tested"); nz_check(nz_evcount(1) == 1, "the condition is evaluated exactly once"); } else nz_check(nz_evcount(1) == 0, "the condition is not evaluated when assertions are off"); }
	void d_macro_number() { std::uint64_t n = nz_any_u64(); nz_maystop(); NazaraAssert(n); if (On) nz_check(n != 0, "zero fails the assertion"); }
	void d_msg_true() { NazaraAssertMsg(cond(true), "message"); quiet(On); }
	void d_msg_true_args() { NazaraAssertMsg(cond(true), text(), (nz_event(2, 0), 3)); quiet(On); }
	void d_msg_any() { bool b = nz_any_bool(); nz_maystop(); NazaraAssertMsg(cond(b), "message %d", 3); if (On) { nz_check(b, "only a condition that holds gets past the check"); quiet(1); } else past(""); }
	void d_msg_false() { nz_maystop(); NazaraAssertMsg(cond(false), "message"); past("the program does not continue past a failed assertion"); }
	void d_msg_false_args() { nz_maystop(); NazaraAssertMsg(cond(false), "%s %d", "message", 3); past("the program does not continue past a failed assertion"); }
	void d_msg_false_args_off() { nz_maystop(); NazaraAssertMsg(cond(false), text(), 3); past("the program does not continue past a failed assertion"); nz_check(nz_evcount(2) == 0, "the message is not evaluated when assertions are off"); }
	void d_msg_precedence() { bool b = nz_any_bool(), c = nz_any_bool(); nz_maystop(); NazaraAssertMsg(b | c, "message"); if (On) nz_check(b | c, "the whole condition is tested"); }
	void d_else() { bool b = nz_any_bool(); if (b) NazaraAssert(true); else nz_event(3, 0); nz_check(nz_evcount(3) == (b ? 0u : 1u), "the macro leaves the else of an enclosing if alone"); }
	void d_else_msg() { bool b = nz_any_bool(); if (b) NazaraAssertMsg(true, "message"); else nz_event(3, 0); nz_check(nz_evcount(3) == (b ? 0u : 1u), "the macro leaves the else of an enclosing if alone"); }
	void d_loop() { std::size_t n = nz_pick(4); for (std::size_t i = 0; i < n; ++i) NazaraAssert(cond(i < n)); quiet(On ? n : 0); }
	void d_loop_break() { nz_maystop(); for (std::size_t i = 0; i < 3; ++i) { NazaraAssert(cond(i < 2)); if (i == 2) past("the program does not continue past a failed assertion in a loop"); } }
	// the functions check in every configuration
	void d_fn_true() { Nz::Assert(true); Nz::Assert(true, "message"); Nz::Assert(true, "%d %s", 3, "message"); Nz::AssertWithSource(true, "file", 3, "message"); Nz::AssertWithSource(true, "file", 3, "%d", 4); nz_check(nz_evcount(IO) == 0, "a condition that holds prints nothing"); }
	void d_fn() { bool b = nz_any_bool(); nz_maystop(); Nz::Assert(b); nz_check(b, "only a condition that holds gets past the check"); nz_check(nz_evcount(IO) == 0, "a condition that holds prints nothing"); }
	void d_fn_message() { bool b = nz_any_bool(); nz_maystop(); Nz::Assert(b, "message"); nz_check(b, "only a condition that holds gets past the check"); nz_check(nz_evcount(IO) == 0, "a condition that holds prints nothing"); }
	void d_fn_args() { bool b = nz_any_bool(); nz_maystop(); Nz::Assert(b, "%d %s", 3, "message"); nz_check(b, "only a condition that holds gets past the check"); nz_check(nz_evcount(IO) == 0, "a condition that holds prints nothing"); }
	void d_fn_source() { bool b = nz_any_bool(); nz_maystop(); Nz::AssertWithSource(b, "file", 3, "message"); nz_check(b, "only a condition that holds gets past the check"); nz_check(nz_evcount(IO) == 0, "a condition that holds prints nothing"); }
	void d_fn_source_args() { bool b = nz_any_bool(); nz_maystop(); Nz::AssertWithSource(b, "file", 3, "%d", 4); nz_check(b, "only a condition that holds gets past the check"); nz_check(nz_evcount(IO) == 0, "a condition that holds prints nothing"); }
	void d_format() { nz_maystop(); std::uint64_t n = nz_any_u64(), s = 2; switch (nz_pick(4)) { case 0: NazaraAssert(n %s == 3); break; case 1: NazaraAssertMsg(n == 3, "n %d"); break; case 2: Nz::Assert(n == 3, "100%d"); break; default: Nz::AssertWithSource(n == 3, "%d%s", 1, "%d%d"); break; } nz_check(nz_evcount(IO) == 0, "a condition that holds prints nothing"); }
	void d_failure() { nz_maystop(); switch (nz_pick(5)) { case 0: Nz::AssertFailure(); break; case 1: Nz::AssertFailure("message"); break; case 2: Nz::AssertFailure("%d", 3); break; case 3: Nz::AssertFailureWithSource("file", 3, "message"); break; default: Nz::AssertFailureWithSource("file", 3, "%d", 3); } nz_check(false, "an assertion failure does not return"); }
	// what is said before stopping
	void d_says_plain() { nz_maystop(); nz_mustsay("assertion failed"); Nz::Assert(false); }
	void d_says_message() { nz_maystop(); nz_mustsay("assertion failed"); nz_mustsay("the message"); Nz::Assert(false, "the message"); }
	void d_says_literal() { nz_maystop(); nz_mustsay("assertion failed"); nz_mustsay("100%d of it"); Nz::Assert(false, "100%d of it"); }
	void d_says_args() { nz_maystop(); nz_mustsay("assertion failed"); nz_mustsay("got 3 for name"); Nz::Assert(false, "got %d for %s", 3, "name"); }
	void d_says_source() { nz_maystop(); nz_mustsay("assertion failed"); nz_mustsay("the message"); nz_mustsay("file.cpp:37"); Nz::AssertWithSource(false, "file.cpp", 37, "the message"); }
	void d_says_source_literal() { nz_maystop(); nz_mustsay("assertion failed"); nz_mustsay("100%s"); nz_mustsay("file.cpp:37"); Nz::AssertWithSource(false, "file.cpp", 37, "100%s"); }
	void d_says_source_args() { nz_maystop(); nz_mustsay("assertion failed"); nz_mustsay("got 3 for name"); nz_mustsay("file.cpp:37"); Nz::AssertWithSource(false, "file.cpp", 37, "got %d for %s", 3, "name"); }
	void d_says_condition() { std::uint64_t n = nz_any_u64(); nz_maystop(); nz_mustsay("assertion failed"); nz_mustsay("n % s == 3"); nz_mustsay("the_file.cpp:512"); std::uint64_t s = 4;
#line 512 "the_file.cpp"
		NazaraAssert(n % s == 3); }
	void d_says_macro() { nz_maystop(); nz_mustsay("assertion failed"); nz_mustsay("of 100%"); nz_mustsay("the_file.cpp:612");
#line 612 "the_file.cpp"
		NazaraAssertMsg(cond(false), "of 100%"); }
	void d_says_macro_args() { nz_maystop(); nz_mustsay("assertion failed"); nz_mustsay("index 12 of 7"); nz_mustsay("the_file.cpp:712");
#line 712 "the_file.cpp"
		NazaraAssertMsg(cond(false), "index %zu of %d", std::size_t(12), 7); }
	// constant evaluation: a condition that holds is accepted
#if __cplusplus >= 202002L
	constexpr int constant(int v) { NazaraAssert(v == 3); NazaraAssertMsg(v == 3, "message"); Nz::Assert(v == 3); Nz::Assert(v == 3, "message"); Nz::AssertWithSource(v == 3, "file", 1, "message"); return v; }
	void d_constant() { constexpr int v = constant(3); nz_check(v == 3, "assertions are usable in constant evaluation"); }
#endif
}
