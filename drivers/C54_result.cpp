// Result: one of value and error, transferred intact, constructed and destroyed once.
#include "nz.hpp"
#include <NazaraUtils/Result.hpp>
#include <utility>
namespace
{
	using S = std::size_t; using X = std::uint64_t;
	struct Err1 { ProbeN p; explicit Err1(X x) : p(x) {} };
	using R = Nz::Result<ProbeN, Err1>; using RV = Nz::Result<void, Err1>;
	using RT = Nz::Result<ProbeT, ProbeN>; using RP = Nz::Result<Probe, Probe*>;
	X val(const ProbeN& p) { return nz_value(&p); } X val(const Err1& e) { return nz_value(&e.p); }
	R make(bool ok, X x) { if (ok) return R(R::ValueTag{}, x); return R(R::ErrorTag{}, x); }
	RV makev(bool ok, X x) { if (ok) return RV(RV::ValueTag{}); return RV(RV::ErrorTag{}, x); }
	void is(const R& r, bool ok, X x, const char* m)
	{
		nz_check(r.IsOk() == ok && r.IsErr() == !ok && bool(r) == ok, "a result says which of value and error it is");
		if (ok) { nz_check(nz_alive(&r.GetValue()) && nz_valid(&r.GetValue()) && val(r.GetValue()) == x, m); nz_check(&*r == &r.GetValue() && r.operator->() == &r.GetValue(), "accessors reach the same value"); }
		else nz_check(nz_alive(&r.GetError().p) && nz_valid(&r.GetError().p) && val(r.GetError()) == x, m);
	}
	void is(const RV& r, bool ok, X x, const char* m) { nz_check(r.IsOk() == ok && r.IsErr() == !ok && bool(r) == ok, "a result says which of value and error it is"); if (!ok) nz_check(nz_alive(&r.GetError().p) && nz_valid(&r.GetError().p) && val(r.GetError()) == x, m); }
	bool moved(const R& r, bool ok) { return r.IsOk() == ok && !(ok ? nz_valid(&r.GetValue()) : nz_valid(&r.GetError().p)); }
	template<typename F> bool throws(F&& f) { try { f(); } catch (...) { return true; } return false; }
	struct NoDef { X v; explicit NoDef(X x) : v(x) {} NoDef(const ProbeN& p) : v(nz_value(&p)) {} };
	struct ErrConv { X v; ErrConv(const Err1& e) : v(val(e)) {} };
	struct NoDefT { ProbeN p; NoDefT(const ProbeN& q) : p(q) {} NoDefT(ProbeN&& q) : p(std::move(q)) {} };
	struct ErrT { ProbeN p; ErrT(const Err1& e) : p(e.p) {} ErrT(Err1&& e) : p(std::move(e.p)) {} };
	struct Once
	{
		X operator()(const ProbeN&) & { nz_event(21, 0); return 1; } X operator()(const ProbeN&) && { nz_event(22, 0); return 2; }
		X operator()() & { nz_event(21, 0); return 1; } X operator()() && { nz_event(22, 0); return 2; }
	};
	struct OnceV
	{
		void operator()(const ProbeN&) & { nz_event(21, 0); } void operator()(const ProbeN&) && { nz_event(22, 0); }
		void operator()() & { nz_event(21, 0); } void operator()() && { nz_event(22, 0); }
	};
	RV try_plain(R r, bool& after) { NAZARA_TRY(std::move(r)); after = true; return Nz::Ok(); }
	Nz::Result<X, Err1> try_value(R r, bool& after) { NAZARA_TRY_VALUE(ProbeN v, std::move(r)); after = true; return Nz::Result<X, Err1>(Nz::Ok(val(v) + 1)); }
	R from_err_lvalue(Err1& e) { return Nz::Err(e); } R from_ok_lvalue(ProbeN& v) { return Nz::Ok(v); } R from_err_rvalue(Err1& e) { return Nz::Err(std::move(e)); } R from_ok_rvalue(ProbeN& v) { return Nz::Ok(std::move(v)); }
	RV verr_lvalue(Err1& e) { return Nz::Err(e); } RV verr_rvalue(Err1& e) { return Nz::Err(std::move(e)); } RV verr_const(const Err1& e) { return Nz::Err(e); } RV vok() { return Nz::Ok(); }
}
extern "C"
{
	void d_tags() { bool ok = nz_pick(2); X x = nz_any_u64(); R r = make(ok, x); is(r, ok, x, "construction holds what it is given"); R d; nz_check(d.IsOk() && val(*d) == 0, "a default result holds a default value"); }
	void d_implicit() { X x = nz_any_u64(); ProbeN p(x); R a(p); is(a, true, x, "a value makes a value"); nz_check(nz_valid(&p) && val(p) == x, "an lvalue given is left untouched"); R b(std::move(p)); is(b, true, x, "a value makes a value"); nz_check(!nz_valid(&p), "an rvalue given is moved"); }
	void d_ok_err() { X x = nz_any_u64(); { Err1 e(x); is(from_err_lvalue(e), false, x, "Err makes an error"); nz_check(nz_valid(&e.p) && val(e) == x, "an error built from an lvalue leaves it untouched"); is(from_err_rvalue(e), false, x, "Err makes an error"); nz_check(!nz_valid(&e.p), "an rvalue error is moved"); } { ProbeN v(x); is(from_ok_lvalue(v), true, x, "Ok makes a value"); nz_check(nz_valid(&v) && val(v) == x, "a value built from an lvalue leaves it untouched"); is(from_ok_rvalue(v), true, x, "Ok makes a value"); nz_check(!nz_valid(&v), "an rvalue is moved"); } }
	void d_void_ok_err() { X x = nz_any_u64(); is(vok(), true, 0, ""); Err1 e(x); is(verr_lvalue(e), false, x, "Err makes an error"); nz_check(nz_valid(&e.p) && val(e) == x, "an error built from an lvalue leaves it untouched"); is(verr_const(e), false, x, "Err makes an error"); nz_check(nz_valid(&e.p), "an error built from a const lvalue leaves it untouched"); is(verr_rvalue(e), false, x, "Err makes an error"); nz_check(!nz_valid(&e.p), "an rvalue error is moved"); }
	void d_void_default_error() { Nz::Result<void, ProbeN> r(Nz::Result<void, ProbeN>::ErrorTag{}); nz_check(r.IsErr() && !r.IsOk() && nz_alive(&r.GetError()), "a default error is an error"); }
	void d_copy() { bool ok = nz_pick(2); X x = nz_any_u64(); const R r = make(ok, x); R c(r); is(c, ok, x, "a copy holds the same"); is(r, ok, x, "copying leaves the source"); }
	void d_move() { bool ok = nz_pick(2); X x = nz_any_u64(); R r = make(ok, x); R c(std::move(r)); is(c, ok, x, "a move transfers what is held"); nz_check(moved(r, ok), "a moved-from result keeps its state and a moved-from object"); }
	void d_assign() { S k = nz_pick(4); bool a = k & 1, b = k & 2; X x = nz_any_u64(), y = nz_any_u64(); R p = make(a, x); const R q = make(b, y); R& r = (p = q); nz_check(&r == &p, "assignment returns its destination"); is(p, b, y, "assignment takes the state and object of the source"); is(q, b, y, "assignment leaves the source"); }
	void d_move_assign() { S k = nz_pick(4); bool a = k & 1, b = k & 2; X x = nz_any_u64(), y = nz_any_u64(); R p = make(a, x), q = make(b, y); R& r = (p = std::move(q)); nz_check(&r == &p, "assignment returns its destination"); is(p, b, y, "move assignment takes the state and object of the source"); nz_check(moved(q, b), "a moved-from result keeps its state and a moved-from object"); }
	void d_self() { bool ok = nz_pick(2); X x = nz_any_u64(); R p = make(ok, x); R& s = p; p = s; is(p, ok, x, "self-assignment keeps what is held"); }
	void d_wrong_access() { bool ok = nz_pick(2); X x = nz_any_u64(); R p = make(ok, x); const R& c = p; if (ok) nz_check(throws([&] { p.GetError(); }) && throws([&] { c.GetError(); }) && throws([&] { std::move(p).GetError(); }), "reading the error of a value throws"); else nz_check(throws([&] { p.GetValue(); }) && throws([&] { c.GetValue(); }) && throws([&] { std::move(p).GetValue(); }) && throws([&] { *p; }) && throws([&] { *c; }) && throws([&] { p.operator->(); }), "reading the value of an error throws"); is(p, ok, x, "a refused access changes nothing"); }
	void d_access() { bool ok = nz_pick(2); X x = nz_any_u64(); R p = make(ok, x); const R& c = p; if (ok) { nz_check(&p.GetValue() == &c.GetValue() && &*p == &*c && p.operator->() == c.operator->() && &*p == &p.GetValue() && p.operator->() == &*p, "accessors reach the same object"); ProbeN&& v = std::move(p).GetValue(); ProbeN&& w = *std::move(p); nz_check(&v == &c.GetValue() && &w == &v && nz_valid(&v), "rvalue accessors reach the same object and do not move it"); } else { Err1&& e = std::move(p).GetError(); nz_check(&p.GetError() == &c.GetError() && &e == &c.GetError() && nz_valid(&e.p), "accessors reach the same object"); } }
	void d_expect() { bool ok = nz_pick(2); X x = nz_any_u64(); R p = make(ok, x); RV v = makev(ok, x); static const char* const messages[] = { "", "no", "a longer message, 100% of it" }; const char* m = messages[nz_pick(3)]; const std::string no = m; S len = no.size(), seen = 0;
		auto told = [&](auto&& f) { bool t = throws(f); nz_check(t == !ok, "Expect throws exactly for an error"); nz_check(nz_evcount(0xE44) == (seen += ok ? 0 : len), "the exception tells the whole message"); if (!ok) for (S i = 0; i < len; ++i) nz_check(nz_evarg(seen - len + i, 1) == static_cast<unsigned char>(m[i]), "the exception tells the message given"); };
		told([&] { p.Expect(m); }); told([&] { v.Expect(m); }); told([&] { std::as_const(p).Expect(no); }); told([&] { v.Expect(no); }); is(p, ok, x, "Expect changes nothing"); is(v, ok, x, "Expect changes nothing"); }
	void d_value_or() { bool ok = nz_pick(2); X x = nz_any_u64(), y = nz_any_u64(); R p = make(ok, x); ProbeN f(y); ProbeN g = p.GetValueOr(f); nz_check(val(g) == (ok ? x : y) && nz_valid(&g), "value-or gives the value if there is one, the fallback otherwise"); nz_check(nz_valid(&f) && val(f) == y, "value-or leaves an lvalue fallback untouched"); is(p, ok, x, "value-or of an lvalue leaves the result"); ProbeN h = std::move(p).GetValueOr(f); nz_check(val(h) == (ok ? x : y) && nz_valid(&h) && nz_valid(&f), "value-or gives the value if there is one, the fallback otherwise"); nz_check(!ok || !nz_valid(&p.GetValue()), "value-or of an rvalue moves the value"); R q = make(ok, x); ProbeN i = q.GetValueOr(std::move(f)); nz_check(val(i) == (ok ? x : y) && (ok == nz_valid(&f)), "an rvalue fallback is moved only when it is used"); }
	void d_map() { bool ok = nz_pick(2); X x = nz_any_u64(); const R p = make(ok, x); auto m = p.Map([&](const ProbeN& v) { nz_event(1, 0); nz_check(&v == &p.GetValue(), "mapping passes the value itself"); return val(v) + 1; }); nz_check(nz_evcount(1) == (ok ? 1 : 0), "mapping calls the function once for a value and never for an error"); nz_check(m.IsOk() == ok, "mapping keeps the state"); if (ok) nz_check(*m == x + 1, "mapping holds the function's result"); else nz_check(val(m.GetError()) == x && nz_valid(&m.GetError().p), "mapping passes the error on unchanged"); is(p, ok, x, "mapping an lvalue leaves it"); }
	void d_map_rvalue() { bool ok = nz_pick(2); X x = nz_any_u64(); R p = make(ok, x); auto m = std::move(p).Map([&](ProbeN&& v) { nz_event(1, 0); return ProbeN(std::move(v)); }); nz_check(nz_evcount(1) == (ok ? 1 : 0), "mapping calls the function once for a value and never for an error"); is(m, ok, x, "mapping transfers the value or the error"); nz_check(moved(p, ok), "mapping an rvalue moves what it holds"); }
	void d_value_or_rvalue() { bool ok = nz_pick(2); X x = nz_any_u64(), y = nz_any_u64(); R p = make(ok, x); ProbeN f(y); ProbeN g = std::move(p).GetValueOr(std::move(f)); nz_check(val(g) == (ok ? x : y) && nz_valid(&g) && ok == nz_valid(&f), "an rvalue fallback is moved only when it is used"); ProbeN f2(y); const R q = make(ok, x); ProbeN h = q.GetValueOr(std::move(f2)); nz_check(val(h) == (ok ? x : y) && nz_valid(&h) && ok == nz_valid(&f2), "an rvalue fallback is moved only when it is used"); is(q, ok, x, "value-or of an lvalue leaves the result"); }
	void d_map_category()
	{ // the function is called with the category it is given, once
		S k = nz_pick(8); X x = nz_any_u64(); R p = make(true, x); RV v = makev(true, x); Once f; OnceV g;
		switch (k)
		{
			case 0: nz_check(*p.Map(f) == 1, "a function lvalue is called as an lvalue"); break;
			case 1: nz_check(*std::move(p).Map(f) == 1, "a function lvalue is called as an lvalue"); break;
			case 2: nz_check(*v.Map(f) == 1, "a function lvalue is called as an lvalue"); break;
			case 3: nz_check(*std::move(v).Map(f) == 1, "a function lvalue is called as an lvalue"); break;
			case 4: nz_check(*p.Map(Once{}) == 2, "a function rvalue is called as an rvalue"); break;
			case 5: nz_check(*std::move(p).Map(Once{}) == 2, "a function rvalue is called as an rvalue"); break;
			case 6: nz_check(*v.Map(Once{}) == 2, "a function rvalue is called as an rvalue"); break;
			default: nz_check(*std::move(v).Map(Once{}) == 2, "a function rvalue is called as an rvalue"); break;
		}
		nz_check(nz_evcount(21) == (k < 4 ? 1 : 0) && nz_evcount(22) == (k < 4 ? 0 : 1), "the function is called once");
	}
	void d_map_category_void()
	{
		S k = nz_pick(8); X x = nz_any_u64(); R p = make(true, x); RV v = makev(true, x); OnceV g;
		switch (k)
		{
			case 0: nz_check(p.Map(g).IsOk(), "mapping"); break;
			case 1: nz_check(std::move(p).Map(g).IsOk(), "mapping"); break;
			case 2: nz_check(v.Map(g).IsOk(), "mapping"); break;
			case 3: nz_check(std::move(v).Map(g).IsOk(), "mapping"); break;
			case 4: nz_check(p.Map(OnceV{}).IsOk(), "mapping"); break;
			case 5: nz_check(std::move(p).Map(OnceV{}).IsOk(), "mapping"); break;
			case 6: nz_check(v.Map(OnceV{}).IsOk(), "mapping"); break;
			default: nz_check(std::move(v).Map(OnceV{}).IsOk(), "mapping"); break;
		}
		nz_check(nz_evcount(21) == (k < 4 ? 1 : 0) && nz_evcount(22) == (k < 4 ? 0 : 1), "the function is called once, with the category it is given");
	}
	void d_map_to_void() { bool ok = nz_pick(2); X x = nz_any_u64(); R p = make(ok, x); RV m = p.Map([&](const ProbeN&) { nz_event(1, 0); }); nz_check(nz_evcount(1) == (ok ? 1 : 0), "mapping calls the function once for a value and never for an error"); is(m, ok, x, "mapping to nothing keeps the state and the error"); is(p, ok, x, "mapping an lvalue leaves it"); RV n = std::move(p).Map([&](ProbeN&&) { nz_event(2, 0); }); nz_check(nz_evcount(2) == (ok ? 1 : 0), "mapping calls the function once for a value and never for an error"); is(n, ok, x, "mapping to nothing keeps the state and the error"); }
	void d_void_map() { bool ok = nz_pick(2); X x = nz_any_u64(), y = nz_any_u64(); RV p = makev(ok, x); auto m = p.Map([&] { nz_event(1, 0); return y; }); nz_check(nz_evcount(1) == (ok ? 1 : 0) && m.IsOk() == ok, "mapping calls the function once for a value and never for an error"); if (ok) nz_check(*m == y, "mapping holds the function's result"); else nz_check(val(m.GetError()) == x, "mapping passes the error on"); is(p, ok, x, "mapping an lvalue leaves it"); RV q = p.Map([&] { nz_event(2, 0); }); nz_check(nz_evcount(2) == (ok ? 1 : 0), "mapping calls the function once"); is(q, ok, x, "mapping keeps the state and the error"); auto s = std::move(p).Map([&] { nz_event(3, 0); return y; }); nz_check(nz_evcount(3) == (ok ? 1 : 0) && s.IsOk() == ok, "mapping an rvalue"); if (ok) nz_check(*s == y, "mapping holds the function's result"); else nz_check(val(s.GetError()) == x && !nz_valid(&p.GetError().p), "mapping an rvalue moves the error"); RV z = makev(ok, x); RV w = std::move(z).Map([&] { nz_event(4, 0); }); nz_check(nz_evcount(4) == (ok ? 1 : 0), "mapping calls the function once"); is(w, ok, x, "mapping keeps the state and the error"); }
	void d_void_states() { S k = nz_pick(4); bool a = k & 1, b = k & 2; X x = nz_any_u64(), y = nz_any_u64(); const RV q = makev(b, y); RV c(q); is(c, b, y, "a copy holds the same"); RV p = makev(a, x); p = q; is(p, b, y, "assignment takes the source's state"); is(q, b, y, "assignment leaves the source"); RV n = makev(a, x); RV& r = (n = std::move(p)); nz_check(&r == &n, "assignment returns its destination"); is(n, b, y, "move assignment takes the source's state"); RV t(std::move(n)); is(t, b, y, "a move takes the source's state"); if (b) nz_check(throws([&] { t.GetError(); }) && throws([&] { std::move(t).GetError(); }) && throws([&] { q.GetError(); }), "reading the error of a value throws"); else { Err1&& e = std::move(t).GetError(); nz_check(&e == &t.GetError() && nz_valid(&e.p), "accessors reach the same object"); } }
	void d_convert() { bool ok = nz_pick(2); X x = nz_any_u64(); R p = make(ok, x); Nz::Result<NoDef, ErrConv> c(p); nz_check(c.IsOk() == ok, "converting keeps the state"); if (ok) nz_check(c->v == x, "converting converts the value"); else nz_check(c.GetError().v == x, "converting converts the error"); is(p, ok, x, "converting an lvalue leaves it"); Nz::Result<NoDefT, ErrT> t(p); nz_check(t.IsOk() == ok && val(ok ? t->p : t.GetError().p) == x, "converting copies from an lvalue"); is(p, ok, x, "converting an lvalue leaves it"); Nz::Result<NoDefT, ErrT> u(std::move(p)); nz_check(u.IsOk() == ok && val(ok ? u->p : u.GetError().p) == x, "converting moves from an rvalue"); nz_check(moved(p, ok), "converting an rvalue moves it"); }
	void d_void_convert() { bool ok = nz_pick(2); X x = nz_any_u64(); RV p = makev(ok, x); Nz::Result<void, ErrT> c(p); nz_check(c.IsOk() == ok && (ok || val(c.GetError().p) == x), "converting keeps the state and the error"); is(p, ok, x, "converting an lvalue leaves it"); Nz::Result<void, ErrT> u(std::move(p)); nz_check(u.IsOk() == ok && (ok || (val(u.GetError().p) == x && !nz_valid(&p.GetError().p))), "converting an rvalue moves the error"); }
	void d_try() { bool ok = nz_pick(2), after = false; X x = nz_any_u64(); RV r = try_plain(make(ok, x), after); nz_check(after == ok, "NAZARA_TRY returns exactly on an error"); is(r, ok, x, "NAZARA_TRY passes the error on"); after = false; auto v = try_value(make(ok, x), after); nz_check(after == ok && v.IsOk() == ok, "NAZARA_TRY_VALUE returns exactly on an error"); if (ok) nz_check(*v == x + 1, "NAZARA_TRY_VALUE gives the value"); else nz_check(val(v.GetError()) == x && nz_valid(&v.GetError().p), "NAZARA_TRY_VALUE passes the error on"); }
	void d_throwing() { bool ok = nz_pick(2); try { RP r = ok ? RP(RP::ValueTag{}, X(1)) : RP(RP::ErrorTag{}, nullptr); RP s = RP(RP::ErrorTag{}, nullptr); bool done = false; try { s = r; done = true; } catch (...) { } nz_check(s.IsOk() != s.IsErr(), "a result is one of value and error even after a copy throws"); nz_check(done ? s.IsOk() == ok : s.IsErr(), "a failed assignment keeps the destination"); } catch (...) { } }
	void d_throwing_map() { try { RP r(RP::ValueTag{}, X(1)); try { auto m = r.Map([](const Probe& p) { nz_maythrow(); return nz_value(&p); }); nz_check(m.IsOk() && *m == 1, "mapping"); } catch (...) { nz_check(r.IsOk() && nz_value(&*r) == 1, "a function that throws leaves the result"); } } catch (...) { } }
}
