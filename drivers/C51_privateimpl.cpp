// PrivateImpl, in a buffer and on the heap: one live object per owner at most, deep copies, nothing destroyed twice.
#include "nz.hpp"
#include <NazaraUtils/PrivateImpl.hpp>
#include <utility>
namespace
{
	using S = std::size_t; using X = std::uint64_t;
	struct Impl { ProbeN p; X y; Impl(X a, X b) : p(a), y(b) {} };
	struct NoAssign { ProbeN p; NoAssign(X a, X) : p(a) {} NoAssign(const NoAssign&) = default; NoAssign(NoAssign&&) noexcept = default; NoAssign& operator=(const NoAssign&) = delete; };
	struct Risky { Probe p; Risky(X a, X) : p(a) {} Risky(const Risky&) = default; Risky(Risky&&) noexcept = default; Risky& operator=(const Risky&) = default; };
	struct RiskyNoAssign { Probe p; RiskyNoAssign(X a, X) : p(a) {} RiskyNoAssign(const RiskyNoAssign&) = default; RiskyNoAssign(RiskyNoAssign&&) noexcept = default; RiskyNoAssign& operator=(const RiskyNoAssign&) = delete; };
	template<typename T> using Buf = Nz::PrivateImpl<T, 64>; template<typename T> using Dyn = Nz::PrivateImpl<T>;
	template<typename T> X val(const T& t) { return nz_value(&t.p); }
	template<typename O> void holds(const O& o, X x, const char* m) { nz_check(nz_alive(&o.Get()->p) && nz_valid(&o.Get()->p) && val(*o) == x, m); }
	template<typename O> void access() { X x = nz_any_u64(); O o(x, X(2)); const O& c = o; holds(o, x, "construction forwards its arguments"); using T = std::remove_reference_t<decltype(*o)>; T* p = o.Get(); nz_check(c.Get() == p && &*o == p && &*c == p && o.operator->() == p && c.operator->() == p && static_cast<T*>(o) == p && static_cast<const T*>(c) == p, "accessors reach the owned object"); static_assert(std::is_same_v<decltype(*c), const T&> && std::is_same_v<decltype(c.Get()), const T*> && std::is_same_v<decltype(c.operator->()), const T*>, ""); }
	template<typename O> void copy() { X x = nz_any_u64(); O a(x, X(2)); const O& ca = a; O b(ca); nz_check(a.Get() != b.Get(), "a copy owns another object"); holds(b, x, "a copy has the value"); holds(a, x, "copying leaves the source"); O c(a); holds(c, x, "copying a non-const owner copies the object"); }
	template<typename O> void assign() { X x = nz_any_u64(), y = nz_any_u64(); O a(x, X(2)), b(y, X(3)); const O& ca = a; O& r = (b = ca); nz_check(&r == &b && a.Get() != b.Get(), "assignment keeps two objects"); holds(b, x, "assignment takes the value"); holds(a, x, "assignment leaves the source"); O& s = b; b = s; holds(b, x, "self-assignment keeps the object"); }
	template<typename O> void throwing() { try { O a(X(1), X(2)), b(X(3), X(4)); bool done = false; try { b = a; done = true; } catch (...) { } nz_check(nz_alive(&b.Get()->p), "a copy that throws leaves the destination an object"); nz_check(val(*b) == (done ? 1 : 3) || !done, "assignment"); nz_check(val(*a) == 1, "the source is left"); try { O c(a); holds(c, 1, "copy"); } catch (...) { } holds(a, 1, "the source is left"); } catch (...) { } }
}
extern "C"
{
	void d_buf_access() { access<Buf<Impl>>(); } void d_dyn_access() { access<Dyn<Impl>>(); }
	void d_buf_copy() { copy<Buf<Impl>>(); } void d_dyn_copy() { copy<Dyn<Impl>>(); } void d_buf_copy_na() { copy<Buf<NoAssign>>(); } void d_dyn_copy_na() { copy<Dyn<NoAssign>>(); }
	void d_buf_assign() { assign<Buf<Impl>>(); } void d_dyn_assign() { assign<Dyn<Impl>>(); } void d_buf_assign_na() { assign<Buf<NoAssign>>(); } void d_dyn_assign_na() { assign<Dyn<NoAssign>>(); }
	void d_buf_throwing() { throwing<Buf<Risky>>(); } void d_dyn_throwing() { throwing<Dyn<Risky>>(); } void d_buf_throwing_na() { throwing<Buf<RiskyNoAssign>>(); } void d_dyn_throwing_na() { throwing<Dyn<RiskyNoAssign>>(); }
	void d_buf_move() { X x = nz_any_u64(), y = nz_any_u64(); Buf<Impl> a(x, X(2)), b(std::move(a)); holds(b, x, "a move has the value"); nz_check(nz_alive(&a.Get()->p) && !nz_valid(&a.Get()->p), "a move leaves a moved-from object"); Buf<Impl> c(y, X(1)); Buf<Impl>& r = (c = std::move(b)); nz_check(&r == &c, "assignment returns its destination"); holds(c, x, "a move assignment has the value"); nz_check(nz_alive(&b.Get()->p) && !nz_valid(&b.Get()->p), "a move leaves a moved-from object"); Buf<Impl>& s = c; c = std::move(s); nz_check(nz_alive(&c.Get()->p), "self-move keeps an object"); holds(c, x, "self-move keeps the value"); }
	void d_dyn_move() { X x = nz_any_u64(), y = nz_any_u64(); Dyn<Impl> a(x, X(2)); Impl* p = a.Get(); Dyn<Impl> b(std::move(a)); nz_check(b.Get() == p && a.Get() == nullptr && !a && !a.HasValue() && b.HasValue() && bool(b), "a move hands over the object"); holds(b, x, "a move keeps the value"); Dyn<Impl> c(y, X(3)); Impl* q = c.Get(); Dyn<Impl>& r = (c = std::move(b)); nz_check(&r == &c && c.Get() == p && (b.Get() == nullptr || b.Get() == q), "a move assignment hands over the object"); holds(c, x, "a move assignment keeps the value"); Dyn<Impl>& s = c; c = std::move(s); nz_check(c.Get() == p, "self-move keeps the object"); holds(c, x, "self-move keeps the object"); }
	void d_dyn_empty() { Dyn<Impl> e(nullptr); const Dyn<Impl>& ce = e; nz_check(!e && !e.HasValue() && e.Get() == nullptr && ce.Get() == nullptr && e.operator->() == nullptr, "an empty owner has nothing"); Dyn<Impl> c(ce); nz_check(!c, "a copy of an empty owner is empty"); X x = nz_any_u64(); Dyn<Impl> a(x, X(1)); a = ce; nz_check(!a, "assigning an empty owner empties the destination"); Dyn<Impl> b(x, X(1)); c = b; nz_check(c.HasValue() && c.Get() != b.Get(), "assigning to an empty owner makes a copy"); holds(c, x, "assigning to an empty owner makes a copy"); holds(b, x, "assignment leaves the source"); Dyn<Impl> m(std::move(e)); nz_check(!m && !e, "moving an empty owner"); e = std::move(b); holds(e, x, "moving into an empty owner"); nz_check(!b, "moving into an empty owner"); Dyn<Impl>& s = m; m = s; nz_check(!m, "self-assignment of an empty owner"); }
	void d_dyn_empty_na() { Dyn<NoAssign> e(nullptr); const Dyn<NoAssign>& ce = e; X x = nz_any_u64(); Dyn<NoAssign> a(x, X(1)); Dyn<NoAssign> c(ce); nz_check(!c, "a copy of an empty owner is empty"); c = a; holds(c, x, "assigning to an empty owner makes a copy"); a = ce; nz_check(!a, "assigning an empty owner empties the destination"); holds(c, x, "copies are independent"); }
	void d_dyn_emplace() { X x = nz_any_u64(), y = nz_any_u64(); Dyn<Impl> e(nullptr); Impl& i = e.Emplace(x, X(2)); nz_check(&i == e.Get() && e.HasValue(), "emplace gives the object"); holds(e, x, "emplace forwards its arguments"); e.Reset(); nz_check(!e && e.Get() == nullptr, "reset empties the owner"); e.Reset(); nz_check(!e, "reset of an empty owner"); e.Emplace(y, X(1)); holds(e, y, "emplace after reset"); Dyn<Impl> adopted(new Impl(x, y)); holds(adopted, x, "an owner adopts the pointer given"); nz_check(adopted->y == y, "an owner adopts the pointer given"); }
	void d_dyn_emplace_throw() { Dyn<Risky> e(nullptr); try { e.Emplace(X(1), X(2)); } catch (...) { nz_check(!e, "an emplace that throws leaves the owner empty"); } if (e) holds(e, 1, "emplace"); }
	void d_history()
	{
		std::size_t h = nz_pick(125); Dyn<Impl> a(X(1), X(0)), b(nullptr); X va = 1, vb = 0;
		auto step = [&](S op) { switch (op) { case 0: a = b; va = vb; break; case 1: b = a; vb = va; break; case 2: { Dyn<Impl> t(std::move(a)); a = std::move(b); b = std::move(t); X v = va; va = vb; vb = v; } break; case 3: a.Reset(); va = 0; break; case 4: { Dyn<Impl> t(b); if (!t) t.Emplace(X(7), X(0)); a = std::move(t); va = vb ? vb : 7; } break; } };
		step(h % 5); step(h / 5 % 5); step(h / 25);
		nz_check(a.HasValue() == (va != 0) && b.HasValue() == (vb != 0), "an owner holds an object exactly when its history says");
		if (va) holds(a, va, "history"); if (vb) holds(b, vb, "history"); nz_check(!va || a.Get() != b.Get(), "no object has two owners");
	}
}
