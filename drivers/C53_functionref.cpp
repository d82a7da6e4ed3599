// FunctionRef: the call reaches exactly the referenced object, with the arguments' values and categories, and gives its result back.
#include "nz.hpp"
#include <NazaraUtils/FunctionRef.hpp>
#include <utility>
namespace
{
	std::uint64_t log(std::uint64_t who, std::uint64_t x) { nz_event(1, who); return x * 3 + who; }
	struct Mut { std::uint64_t n; ProbeN p; std::uint64_t operator()(std::uint64_t x) { ++n; return log(reinterpret_cast<std::uintptr_t>(this), x); } };
	struct Con { std::uint64_t n; ProbeN p; std::uint64_t operator()(std::uint64_t x) const { nz_event(1, 7); return x + n; } };
	struct Both { std::uint64_t operator()(std::uint64_t x) { nz_event(1, 1); return x; } std::uint64_t operator()(std::uint64_t x) const { nz_event(1, 2); return x + 1; } };
	std::uint64_t freefn(std::uint64_t x) { nz_event(1, 5); return x ^ 0x55; }
	struct Cat { void operator()(ProbeN& l, ProbeN&& r, const ProbeN& c) const { nz_event(reinterpret_cast<std::uintptr_t>(&l) == nz_evarg(0, 1), 0); ProbeN m(std::move(r)); nz_check(nz_value(&m) == 2, "an rvalue argument reaches the function as one"); l = ProbeN(9); nz_check(nz_value(&c) == 3, "a const argument keeps its value"); } };
	struct ByValue { void operator()(ProbeN p) const { nz_check(nz_valid(&p) && nz_value(&p) == 4, "a by-value argument keeps its value"); } };
	struct RefRet { ProbeN& r; ProbeN& operator()() const { return r; } };
	struct Thrower { void operator()() const { nz_event(1, 0); nz_maythrow(); } };
	struct Ret { std::uint64_t operator()(std::uint64_t x) const { nz_event(1, x); return x; } };
	struct Fun { std::uint64_t v; std::uint64_t get(std::uint64_t x) const { nz_event(1, 0); return v + x; } };
}
extern "C"
{
	void d_functor() { std::uint64_t x = nz_any_u64(); Mut f{ 0, ProbeN(1) }; Nz::FunctionRef<std::uint64_t(std::uint64_t)> r(f); nz_check(nz_evcount(1) == 0, "making a reference calls nothing"); nz_check(bool(r), "a reference to a functor is not empty"); std::uint64_t y = r(x); nz_check(f.n == 1 && nz_evcount(1) == 1, "one call reaches the object once"); nz_check(nz_evarg(0, 1) == reinterpret_cast<std::uintptr_t>(&f), "the call reaches the object itself, not a copy"); nz_check(y == x * 3 + reinterpret_cast<std::uintptr_t>(&f), "the result is returned"); nz_check(nz_valid(&f.p), "the target is neither copied nor moved"); }
	void d_const_functor() { std::uint64_t x = nz_any_u64(); const Con f{ nz_any_u64(), ProbeN(1) }; Nz::FunctionRef<std::uint64_t(std::uint64_t)> r(f); nz_check(r(x) == x + f.n && nz_evcount(1) == 1, "a const functor is called once"); }
	void d_constness() { const Both c{}; Both m{}; Nz::FunctionRef<std::uint64_t(std::uint64_t)> rc(c), rm(m); std::uint64_t x = nz_any_u64(); nz_check(rc(x) == x + 1, "a const functor is called as const"); nz_check(rm(x) == x, "a mutable functor is called as mutable"); }
	void d_function() { std::uint64_t x = nz_any_u64(); Nz::FunctionRef<std::uint64_t(std::uint64_t)> r(freefn); nz_check(bool(r) && r(x) == (x ^ 0x55) && nz_evcount(1) == 1, "a function is called once"); }
	void d_function_pointer() { std::uint64_t x = nz_any_u64(); std::uint64_t (*p)(std::uint64_t) = freefn; Nz::FunctionRef<std::uint64_t(std::uint64_t)> r(p); nz_check(r(x) == (x ^ 0x55) && nz_evcount(1) == 1, "a function pointer is called once"); }
	void d_lambda() { std::uint64_t x = nz_any_u64(), seen = 0; auto l = [&](std::uint64_t v) mutable { seen = v; return v + 1; }; Nz::FunctionRef<std::uint64_t(std::uint64_t)> r = l; nz_check(r(x) == x + 1 && seen == x, "a lambda is called with the argument"); nz_check(r(x + 5) == x + 6 && seen == x + 5, "every call passes its own argument"); }
	void d_member() { Fun f{ nz_any_u64() }; std::uint64_t x = nz_any_u64(); auto pm = &Fun::get; Nz::FunctionRef<std::uint64_t(const Fun&, std::uint64_t)> r(pm); nz_check(r(f, x) == f.v + x && nz_evcount(1) == 1, "a member function is called on its object"); }
	void d_copy() { Mut f{ 0, ProbeN(1) }, g{ 0, ProbeN(2) }; Nz::FunctionRef<std::uint64_t(std::uint64_t)> a(f), b(a), c(g); b(1); nz_check(f.n == 1 && g.n == 0, "a copy calls the same target"); c = a; c(1); nz_check(f.n == 2 && g.n == 0, "an assigned reference calls the new target"); Nz::FunctionRef<std::uint64_t(std::uint64_t)> d(std::move(a)); d(1); nz_check(f.n == 3 && g.n == 0, "a moved reference calls the same target"); Nz::FunctionRef<std::uint64_t(std::uint64_t)> e(g); e = std::move(d); e(1); nz_check(f.n == 4 && g.n == 0, "a move-assigned reference calls the new target"); }
	void d_empty() { Nz::FunctionRef<void()> r(nullptr); nz_check(!r, "a reference made from nothing is empty"); Nz::FunctionRef<void()> c(r); nz_check(!c, "a copy of an empty reference is empty"); bool hit = false; auto l = [&] { hit = true; }; c = l; nz_check(bool(c), "assigning a functor fills it"); c(); nz_check(hit, "call"); c = nullptr; nz_check(!c, "assigning nothing empties it"); r = c; nz_check(!r, "assigning an empty reference empties it"); }
	void d_categories() { Cat f; ProbeN l(1), rv(2); const ProbeN c(3); nz_event(0, reinterpret_cast<std::uintptr_t>(&l)); Nz::FunctionRef<void(ProbeN&, ProbeN&&, const ProbeN&)> r(f); r(l, std::move(rv), c); nz_check(nz_value(&l) == 9, "an lvalue argument is the caller's object"); nz_check(!nz_valid(&rv), "an rvalue argument is moved from"); nz_check(nz_valid(&c) && nz_value(&c) == 3, "a const argument is left alone"); }
	void d_by_value() { ByValue f; Nz::FunctionRef<void(ProbeN)> r(f); ProbeN p(4); r(p); nz_check(nz_valid(&p) && nz_value(&p) == 4, "an lvalue passed by value is copied"); r(std::move(p)); nz_check(!nz_valid(&p), "an rvalue passed by value is moved"); }
	void d_ref_result() { ProbeN p(1); RefRet f{ p }; Nz::FunctionRef<ProbeN&()> r(f); nz_check(&r() == &p, "a reference result is the object itself"); }
	void d_throw() { Thrower t; Nz::FunctionRef<void()> r(t); bool thrown = false; try { r(); } catch (...) { thrown = true; } nz_check(nz_evcount(1) == 1, "one call, even if it throws"); r = t; nz_check(bool(r) && (thrown || !thrown), "still usable"); }
	void d_ignored_result() { Ret f; std::uint64_t x = nz_any_u64(); Nz::FunctionRef<void(std::uint64_t)> r(f); r(x); nz_check(nz_evcount(1) == 1 && nz_evarg(0, 1) == x, "a result may be ignored"); }
	void d_converting() { std::uint32_t x = nz_any_u32(); auto l = [](std::uint64_t v) -> std::uint32_t { nz_event(1, v); return std::uint32_t(v); }; Nz::FunctionRef<std::uint64_t(std::uint32_t)> r(l); nz_check(r(x) == x && nz_evarg(0, 1) == x, "arguments and results convert"); }
	void d_const_ref() { Mut f{ 0, ProbeN(1) }; const Nz::FunctionRef<std::uint64_t(std::uint64_t)> r(f); r(2); nz_check(f.n == 1, "a const reference is callable"); Nz::FunctionRef g(&freefn); }
}
