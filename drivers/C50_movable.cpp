// MovablePtr, MovableValue, MovableLiteral: the value is transferred, never duplicated nor lost.
#include "nz.hpp"
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <utility>
namespace
{
	using P = Nz::MovablePtr<std::uint64_t>; using L = Nz::MovableLiteral<std::int32_t, -1>; using V = Nz::MovableValue<ProbeN>;
	std::uint64_t* some(std::uint64_t (&o)[4]) { std::size_t i = nz_pick(3); return i == 2 ? nullptr : &o[i]; }
	struct Owner { P p; L l; V v; Owner(std::uint64_t* q, std::int32_t i, std::uint64_t x) : p(q), l(i), v(ProbeN(x)) {} Owner(const Owner&) = default; Owner(Owner&&) noexcept = default; Owner& operator=(const Owner&) = default; Owner& operator=(Owner&&) noexcept = default; };
	template<typename A, typename B> bool exchanged(const A& now, const B& before, const B& neutral) { return now == before || now == neutral; }
}
extern "C"
{
	void d_ptr_basic() { std::uint64_t o[4] = {}; P e; nz_check(e.Get() == nullptr && !e, "a default pointer is null"); std::uint64_t* q = some(o); P p(q); const P& c = p; nz_check(p.Get() == q && static_cast<std::uint64_t*>(c) == q && c.operator->() == q, "the pointer stored is the one given"); std::uint64_t* w = some(o); P& r = (p = w); nz_check(&r == &p && p.Get() == w, "assignment stores the pointer given"); p = nullptr; nz_check(p.Get() == nullptr, "assignment of null"); }
	void d_ptr_copy() { std::uint64_t o[4] = {}; std::uint64_t* q = some(o); P p(q), c(p); nz_check(c.Get() == q && p.Get() == q, "a copy points to the same object and leaves the source"); P d(&o[3]); P& r = (d = p); nz_check(&r == &d && d.Get() == q && p.Get() == q, "assignment points to the same object and leaves the source"); }
	void d_ptr_move() { std::uint64_t o[4] = {}; std::uint64_t* q = some(o); P p(q), c(std::move(p)); nz_check(c.Get() == q && p.Get() == nullptr, "a move leaves the source null"); }
	void d_ptr_move_assign() { std::uint64_t o[4] = {}; std::uint64_t* q = some(o); std::uint64_t* w = some(o); P p(q), d(w); P& r = (d = std::move(p)); nz_check(&r == &d && d.Get() == q, "a move assignment transfers the pointer"); nz_check(p.Get() == nullptr || p.Get() == w, "a move assignment leaves the source null or with the destination's pointer"); nz_check(p.Get() != q || q == w || q == nullptr, "a move assignment does not duplicate the pointer"); }
	void d_ptr_self() { std::uint64_t o[4] = {}; std::uint64_t* q = some(o); P p(q); P& s = p; p = std::move(s); nz_check(p.Get() == q, "moving onto itself keeps the pointer"); p = s; nz_check(p.Get() == q, "assigning itself keeps the pointer"); }
	void d_lit_basic() { L d; nz_check(d.Get() == -1, "a default literal has its default value"); std::int32_t x = nz_any_i32(), y = nz_any_i32(); L l(x); const L& c = l; nz_check(l.Get() == x && c.Get() == x && static_cast<const std::int32_t&>(c) == x && static_cast<std::int32_t&>(l) == x, "the value stored is the one given"); L& r = (l = y); nz_check(&r == &l && l.Get() == y, "assignment stores the value given"); l.Get() = x; nz_check(c.Get() == x, "access reaches the stored value"); nz_check(&l.Get() == &c.Get() && &static_cast<std::int32_t&>(l) == &l.Get(), "accessors reach the same object"); nz_check(std::move(l).Get() == x && static_cast<std::int32_t&&>(std::move(l)) == x, "rvalue access"); nz_check(c.Get() == x, "access does not change the value"); }
	void d_lit_copy() { std::int32_t x = nz_any_i32(), y = nz_any_i32(); const L l(x); L c(l); nz_check(c.Get() == x && l.Get() == x, "a copy has the value and leaves the source"); L d(y); L& r = (d = l); nz_check(&r == &d && d.Get() == x && l.Get() == x, "assignment has the value and leaves the source"); }
	void d_lit_move() { std::int32_t x = nz_any_i32(); L l(x), m(std::move(l)); nz_check(m.Get() == x && l.Get() == -1, "a move leaves the default in the source"); }
	void d_lit_move_assign() { std::int32_t x = nz_any_i32(), y = nz_any_i32(); L l(x), m(y); L& r = (m = std::move(l)); nz_check(&r == &m && m.Get() == x, "a move assignment transfers the value"); std::int32_t s = l.Get(); nz_check(s == -1 || s == y, "a move assignment leaves the source with the default or the destination's value"); }
	void d_lit_move_assign_default() { std::int32_t x = nz_any_i32(); L l(x), m; m = std::move(l); nz_check(m.Get() == x && l.Get() == -1, "moving onto a default literal leaves the default"); }
	void d_lit_self() { std::int32_t x = nz_any_i32(); L l(x); L& s = l; l = std::move(s); nz_check(l.Get() == x, "moving onto itself keeps the value"); l = s; nz_check(l.Get() == x, "assigning itself keeps the value"); }
	void d_value_ctor() { std::uint64_t x = nz_any_u64(); ProbeN p(x); V a(p); nz_check(nz_valid(&p) && nz_value(&p) == x && nz_value(&a.Get()) == x, "construction from an lvalue copies it"); V b(std::move(p)); nz_check(!nz_valid(&p) && nz_value(&b.Get()) == x, "construction from an rvalue moves it"); }
	void d_value_assign() { std::uint64_t x = nz_any_u64(); ProbeN p(x); V a(ProbeN(1)); V& r = (a = p); nz_check(&r == &a && nz_valid(&p) && nz_value(&p) == x, "assigning an lvalue leaves it untouched"); nz_check(nz_valid(&a.Get()) && nz_value(&a.Get()) == x, "assigning an lvalue stores its value"); V b(ProbeN(2)); b = std::move(p); nz_check(!nz_valid(&p) && nz_value(&b.Get()) == x, "assigning an rvalue moves it"); const ProbeN q(7); b = q; nz_check(nz_value(&b.Get()) == 7 && nz_valid(&q), "assigning a const lvalue copies it"); }
	void d_value_copy() { std::uint64_t x = nz_any_u64(); V a{ ProbeN(x) }; const V& ca = a; V b(ca); nz_check(nz_value(&a.Get()) == x && nz_valid(&a.Get()) && nz_value(&b.Get()) == x, "a copy has the value and leaves the source"); V c{ ProbeN(1) }; c = ca; nz_check(nz_value(&a.Get()) == x && nz_valid(&a.Get()) && nz_value(&c.Get()) == x, "assignment has the value and leaves the source"); }
	void d_value_move() { std::uint64_t x = nz_any_u64(); V a{ ProbeN(x) }; V b(std::move(a)); nz_check(nz_value(&b.Get()) == x && !nz_valid(&a.Get()), "a move transfers the value"); V c{ ProbeN(1) }; V& r = (c = std::move(b)); nz_check(&r == &c && nz_value(&c.Get()) == x && !nz_valid(&b.Get()), "a move assignment transfers the value"); }
	void d_value_access() { V a{ ProbeN(3) }; const V& c = a; nz_check(&a.Get() == &c.Get() && &static_cast<ProbeN&>(a) == &a.Get() && &static_cast<const ProbeN&>(c) == &a.Get(), "accessors reach the same object"); ProbeN&& r = std::move(a).Get(); nz_check(&r == &a.Get() && nz_valid(&a.Get()), "rvalue access does not move by itself"); ProbeN&& q = static_cast<ProbeN&&>(std::move(a)); nz_check(&q == &a.Get() && nz_valid(&a.Get()), "rvalue conversion does not move by itself"); V d; nz_check(nz_alive(&d.Get()), "a default value is constructed"); }
	void d_owner() { std::uint64_t o[4] = {}; std::int32_t i = nz_any_i32(); std::uint64_t x = nz_any_u64(); Owner a(&o[0], i, x); Owner b(std::move(a)); nz_check(b.p.Get() == &o[0] && a.p.Get() == nullptr && b.l.Get() == i && a.l.Get() == -1 && nz_value(&b.v.Get()) == x, "a class made of movable members moves them"); Owner c(&o[1], 2, 3); c = std::move(b); nz_check(c.p.Get() == &o[0] && b.p.Get() != &o[0] && c.l.Get() == i && nz_value(&c.v.Get()) == x, "a class made of movable members move-assigns them"); Owner d(c); nz_check(d.p.Get() == &o[0] && c.p.Get() == &o[0] && d.l.Get() == i && c.l.Get() == i && nz_valid(&c.v.Get()), "a class made of movable members copies them"); }
}
