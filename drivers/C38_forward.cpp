// Arguments arrive as they were given: the same object, with the same constness and value category, in the same order.
#include "nz.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <type_traits>
#include <utility>
namespace
{
	using S = std::size_t; using X = std::uint64_t;
	struct P { X v; };
	template<typename T> constexpr int cat() { return (std::is_const_v<std::remove_reference_t<T>> ? 2 : 0) + (std::is_rvalue_reference_v<T> ? 1 : 0); } // 0: &, 1: &&, 2: const &, 3: const &&
	struct Rec // what its constructor was given
	{
		int c[4]; const P* p[4]; X n;
		template<typename A, typename B, typename C, typename D> Rec(A&& a, B&& b, C&& x, D&& d) noexcept : c{ cat<A&&>(), cat<B&&>(), cat<C&&>(), cat<D&&>() }, p{ &a, &b, &x, &d }, n(4) {}
		Rec() noexcept : c{}, p{}, n(0) {}
		Rec(const Rec& r) noexcept = default; Rec& operator=(const Rec&) noexcept = default;
	};
	struct One
	{
		int c; const P* p; X n;
		template<typename A, std::enable_if_t<std::is_same_v<std::decay_t<A>, P>, int> = 0> One(A&& a) noexcept : c(cat<A&&>()), p(&a), n(1) {}
		template<typename A, std::enable_if_t<std::is_same_v<std::decay_t<A>, P>, int> = 0> One& operator=(A&& a) noexcept { c = cat<A&&>(); p = &a; n = 2; return *this; }
		One(const One&) noexcept = default; One& operator=(const One&) noexcept = default;
	};
	struct Args
	{
		P a, b, x, d; const P e, f;
		Args() : a{ 1 }, b{ 2 }, x{ 3 }, d{ 4 }, e{ 5 }, f{ 6 } {}
		// lvalue, const lvalue, rvalue, const rvalue
		template<typename F> void give(F&& f2) { f2(a, std::as_const(b), std::move(x), std::move(f)); }
		void check(const Rec& r) const
		{
			nz_check(r.n == 4, "the element is constructed from the arguments");
			nz_check(r.p[0] == &a && r.p[1] == &b && r.p[2] == &x && r.p[3] == &f, "the arguments are the objects given, in the order given");
			nz_check(r.c[0] == 0, "an lvalue arrives as an lvalue"); nz_check(r.c[1] == 2, "a const lvalue arrives as a const lvalue"); nz_check(r.c[2] == 1, "an rvalue arrives as an rvalue"); nz_check(r.c[3] == 3, "a const rvalue arrives as a const rvalue");
		}
	};
	void one(const One& o, const void* p, int c, X n = 1) { nz_check(o.p == p, "the argument is the object given"); nz_check(o.c == c, "the argument keeps its constness and value category"); nz_check(o.n == n, "constructed or assigned once"); }
	template<typename V> void back(V& v, S n) { for (S i = 0; i < n; ++i) v.emplace_back(); Args g; g.give([&](auto&&... as) { v.emplace_back(std::forward<decltype(as)>(as)...); }); g.check(v[n]); }
	template<typename V> void mid(V& v, S n) { for (S i = 0; i < n; ++i) v.emplace_back(); S at = nz_pick(n + 1); Args g; g.give([&](auto&&... as) { v.emplace(v.begin() + at, std::forward<decltype(as)>(as)...); }); g.check(v[at]); }
	// callable by every category of itself and of its arguments
	struct Fn
	{
		mutable Rec last; mutable int self = -1;
		template<typename... As> P& operator()(As&&... as) & { self = 0; last = Rec(std::forward<As>(as)...); return const_cast<P&>(*last.p[0]); }
		template<typename... As> P& operator()(As&&... as) const & { self = 2; last = Rec(std::forward<As>(as)...); return const_cast<P&>(*last.p[0]); }
		template<typename... As> P& operator()(As&&... as) && { self = 1; last = Rec(std::forward<As>(as)...); return const_cast<P&>(*last.p[0]); }
	};
	P& freefn(P& a, const P& b, P&& x, const P&& d) { static Rec r; r = Rec(a, b, std::move(x), std::move(d)); return a; }
	struct Hasher { Rec* r; static inline Rec* at = nullptr; template<typename... As> S operator()(As&&... as) const { *at = Rec(std::forward<As>(as)...); return 17; } };
	template<typename T> struct Visit { template<typename... As> void operator()(As&&... as) { struct { void operator()(Rec& r, As&&... bs) { r = Rec(std::forward<As>(bs)...); } } f; static_assert(sizeof...(As) == 4, ""); f(*Hasher::at, std::forward<As>(as)...); } };
	struct CM { int* n; explicit CM(int* c) noexcept : n(c) {} CM(const CM& o) noexcept : n(o.n) { ++*n; } CM(CM&& o) noexcept : n(o.n) {} CM& operator=(const CM& o) noexcept { n = o.n; ++*n; return *this; } CM& operator=(CM&& o) noexcept { n = o.n; return *this; } }; // counts its copies
	struct CF : CM { using CM::CM; void operator()(P& p) const { p.v++; } };
	struct Take { mutable int got = 0; void by(CM) { got = 1; } void cby(CM) const { got = 1; } };
	using RV = Nz::Result<One, int>; using RE = Nz::Result<int, One>; using RVE = Nz::Result<void, One>;
	struct Obj { mutable const P* got = nullptr; mutable int c = -1; void lv(P& p) { got = &p; c = 0; } void cl(const P& p) { got = &p; c = 2; } void rv(P&& p) { got = &p; c = 1; } void ccl(const P& p) const { got = &p; c = 2; } };
}
extern "C"
{
	// containers
	void d_stackvector_back() { alignas(Rec) unsigned char st[5 * sizeof(Rec)]; Nz::StackVector<Rec> v(reinterpret_cast<Rec*>(st), 5); back(v, nz_pick(4)); }
	void d_stackvector_mid() { alignas(Rec) unsigned char st[5 * sizeof(Rec)]; Nz::StackVector<Rec> v(reinterpret_cast<Rec*>(st), 5); mid(v, nz_pick(4)); }
	void d_fixedvector_back() { Nz::FixedVector<Rec, 4> v; back(v, nz_pick(4)); }
	void d_fixedvector_mid() { Nz::FixedVector<Rec, 4> v; mid(v, nz_pick(4)); }
	void d_hybridvector_back() { Nz::HybridVector<Rec, 2> v; back(v, nz_pick(5)); }
	void d_hybridvector_mid() { Nz::HybridVector<Rec, 2> v; mid(v, nz_pick(5)); }
	void d_pool() { Nz::MemoryPool<Rec> p(2); S ix = 0; for (S i = nz_pick(4); i > 0; --i) p.Allocate(ix); Args g; Rec* r = nullptr; g.give([&](auto&&... as) { r = p.Allocate(ix, std::forward<decltype(as)>(as)...); }); g.check(*r); }
	void d_placement() { alignas(Rec) unsigned char st[sizeof(Rec)]; Rec* m = reinterpret_cast<Rec*>(st); Args g; Rec* r = nullptr; g.give([&](auto&&... as) { r = Nz::PlacementNew(m, std::forward<decltype(as)>(as)...); }); nz_check(r == m, "placed"); g.check(*r); }
	// private implementations
	void d_impl_inplace() { Args g; g.give([&](auto&&... as) { Nz::PrivateImpl<Rec, sizeof(Rec)> p(std::forward<decltype(as)>(as)...); g.check(*p); }); }
	void d_impl_heap() { Args g; g.give([&](auto&&... as) { Nz::PrivateImpl<Rec> p(std::forward<decltype(as)>(as)...); g.check(*p); }); }
	void d_impl_emplace() { Args g; g.give([&](auto&&... as) { Nz::PrivateImpl<Rec> p(nullptr); Rec& r = p.Emplace(std::forward<decltype(as)>(as)...); nz_check(&r == p.Get(), "Emplace returns the implementation"); g.check(*p); }); }
	// results
	void d_result_tag() { Args g; g.give([&](auto&&... as) { Nz::Result<Rec, int> r(Nz::Result<Rec, int>::ValueTag{}, std::forward<decltype(as)>(as)...); g.check(r.GetValue()); }); }
	void d_result_error_tag() { Args g; g.give([&](auto&&... as) { Nz::Result<int, Rec> r(Nz::Result<int, Rec>::ErrorTag{}, std::forward<decltype(as)>(as)...); g.check(r.GetError()); }); }
	void d_result_void_tag() { Args g; g.give([&](auto&&... as) { Nz::Result<void, Rec> r(Nz::Result<void, Rec>::ErrorTag{}, std::forward<decltype(as)>(as)...); g.check(r.GetError()); }); }
	void d_result_ok() { P p{ 1 }; const P q{ 2 }; { RV r = Nz::Ok(p); one(r.GetValue(), &p, 0); } { RV r = Nz::Ok(q); one(r.GetValue(), &q, 2); } { RV r = Nz::Ok(std::move(p)); one(r.GetValue(), &p, 1); } { RV r = Nz::Ok(std::move(q)); one(r.GetValue(), &q, 3); } }
	void d_result_err() { P p{ 1 }; const P q{ 2 }; { RE r = Nz::Err(p); one(r.GetError(), &p, 0); } { RE r = Nz::Err(q); one(r.GetError(), &q, 2); } { RE r = Nz::Err(std::move(p)); one(r.GetError(), &p, 1); } { RVE r = Nz::Err(p); one(r.GetError(), &p, 0); } { RVE r = Nz::Err(q); one(r.GetError(), &q, 2); } { RVE r = Nz::Err(std::move(p)); one(r.GetError(), &p, 1); } }
	void d_result_map()
	{
		using R = Nz::Result<P, int>; R r(R::ValueTag{}, P{ 4 }); const R& c = r; const P* got = nullptr; int k = -1;
		auto f = [&](auto&& p) { got = &p; k = cat<decltype(p)>(); return 1; };
		(void) r.Map(f); nz_check(got == &c.GetValue() && k == 2, "Map shows an lvalue's value as a const lvalue"); (void) c.Map(f); nz_check(got == &c.GetValue() && k == 2, "Map shows a const result's value as a const lvalue"); (void) std::move(r).Map(f); nz_check(got == &c.GetValue() && k == 1, "Map of an rvalue gives its value away");
		struct Q { int* s; int operator()(const P&) & { *s = 0; return 1; } int operator()(const P&) && { *s = 1; return 1; } int operator()(const P&) const & { *s = 2; return 1; } };
		int s = -1; Q q{ &s }; (void) c.Map(q); nz_check(s == 0, "a functor given as an lvalue is called as an lvalue"); (void) c.Map(std::as_const(q)); nz_check(s == 2, "a const functor is called as const"); (void) c.Map(std::move(q)); nz_check(s == 1, "a functor given as an rvalue is called as an rvalue"); s = -1; Q z{ &s }; (void) std::move(r).Map(std::move(z)); nz_check(s == 1, "a functor given as an rvalue is called as an rvalue");
	}
	void d_result_valueor() { using R = Nz::Result<One, int>; P p{ 1 }; const P q{ 2 }; R r = Nz::Err(3); { One o = r.GetValueOr(p); one(o, &p, 0); } { One o = r.GetValueOr(q); one(o, &q, 2); } { One o = r.GetValueOr(std::move(p)); one(o, &p, 1); } { One o = std::move(r).GetValueOr(std::move(p)); one(o, &p, 1); } }
	void d_result_map_void()
	{
		struct Q { int* s; void operator()(const P&) & { *s = 0; } void operator()(const P&) && { *s = 1; } void operator()(const P&) const & { *s = 2; } };
		struct Z { int* s; int operator()() & { *s = 0; return 1; } int operator()() && { *s = 1; return 1; } int operator()() const & { *s = 2; return 1; } };
		struct W { int* s; void operator()() & { *s = 0; } void operator()() && { *s = 1; } void operator()() const & { *s = 2; } };
		using R = Nz::Result<P, int>; R r(R::ValueTag{}, P{ 4 }); const R& c = r; int s = -1; Q q{ &s };
		(void) c.Map(q); nz_check(s == 0, "lvalue functor"); (void) c.Map(std::as_const(q)); nz_check(s == 2, "const functor"); (void) c.Map(std::move(q)); nz_check(s == 1, "rvalue functor"); s = -1; (void) std::move(r).Map(q); nz_check(s == 0, "lvalue functor"); (void) std::move(r).Map(std::move(q)); nz_check(s == 1, "rvalue functor");
		using V = Nz::Result<void, int>; V v = Nz::Ok(); const V& cv = v; Z z{ &s }; W w{ &s };
		(void) cv.Map(z); nz_check(s == 0, "lvalue functor"); (void) cv.Map(std::as_const(z)); nz_check(s == 2, "const functor"); (void) cv.Map(std::move(z)); nz_check(s == 1, "rvalue functor"); s = -1; (void) std::move(v).Map(z); nz_check(s == 0, "lvalue functor"); (void) std::move(v).Map(std::move(z)); nz_check(s == 1, "rvalue functor");
		(void) cv.Map(w); nz_check(s == 0, "lvalue functor"); (void) cv.Map(std::as_const(w)); nz_check(s == 2, "const functor"); (void) cv.Map(std::move(w)); nz_check(s == 1, "rvalue functor"); s = -1; (void) std::move(v).Map(w); nz_check(s == 0, "lvalue functor"); (void) std::move(v).Map(std::move(w)); nz_check(s == 1, "rvalue functor");
	}
	void d_result_value() { using R = Nz::Result<CM, int>; int n = 0; CM m(&n); { R r(std::move(m)); nz_check(n == 0, "a value given away is not copied"); R t(std::move(r)); nz_check(n == 0, "moving a result copies nothing"); CM x = std::move(t).GetValue(); CM y = std::move(t).GetValueOr(std::move(m)); nz_check(n == 0, "taking the value of an rvalue copies nothing"); } { R r(m); nz_check(n == 1, "a value given as an lvalue is copied once"); } }
	void d_result_ok_cm() { using R = Nz::Result<CM, int>; int n = 0; CM m(&n); { R r = Nz::Ok(std::move(m)); nz_check(n == 0, "a value given away is not copied"); R t = Nz::Err(3); t = std::move(r); nz_check(n == 0, "moving a result copies nothing"); } { R r = Nz::Ok(m); nz_check(n == 1, "a value given as an lvalue is copied once"); } }
	void d_result_valueor_lvalue() { using R = Nz::Result<One, int>; P p{ 1 }; const P q{ 2 }; R r = Nz::Err(3); { One o = std::move(r).GetValueOr(p); one(o, &p, 0); } { One o = std::move(r).GetValueOr(q); one(o, &q, 2); } }
	// movable values
	void d_movable() { P p{ 1 }; const P q{ 2 }; { Nz::MovableValue<One> m(p); one(m.Get(), &p, 0); m = p; one(m.Get(), &p, 0, 2); m = q; one(m.Get(), &q, 2, 2); m = std::move(p); one(m.Get(), &p, 1, 2); } { Nz::MovableValue<One> m(q); one(m.Get(), &q, 2); } { Nz::MovableValue<One> m(std::move(p)); one(m.Get(), &p, 1); } }
	// calls
	void d_functionref() { Fn f; Nz::FunctionRef<P&(P&, const P&, P&&, const P&&)> r(f); Args g; P* res = nullptr; g.give([&](auto&&... as) { res = &r(std::forward<decltype(as)>(as)...); }); g.check(f.last); nz_check(f.self == 0, "the function is called as the lvalue it is"); nz_check(res == &g.a, "the result is the function's"); }
	void d_functionref_const() { const Fn f{}; Nz::FunctionRef<P&(P&, const P&, P&&, const P&&)> r(f); Args g; P* res = nullptr; g.give([&](auto&&... as) { res = &r(std::forward<decltype(as)>(as)...); }); g.check(f.last); nz_check(f.self == 2, "a const function is called as const"); nz_check(res == &g.a, "the result is the function's"); }
	void d_functionref_copy() { Fn f; Nz::FunctionRef<P&(P&, const P&, P&&, const P&&)> r(f), s(r); const auto t = s; Args g; P* res = nullptr; g.give([&](auto&&... as) { res = &t(std::forward<decltype(as)>(as)...); }); g.check(f.last); nz_check(res == &g.a, "the result is the function's"); }
	void d_functionref_void() { int k = -1; const P* got = nullptr; auto f = Nz::Overloaded{ [&](P& p) { k = 0; got = &p; }, [&](const P& p) { k = 2; got = &p; }, [&](P&& p) { k = 1; got = &p; } }; P p{ 1 }; { Nz::FunctionRef<void(P&)> r(f); r(p); nz_check(k == 0 && got == &p, "lvalue"); } { Nz::FunctionRef<void(const P&)> r(f); r(p); nz_check(k == 2 && got == &p, "const lvalue"); } { Nz::FunctionRef<void(P&&)> r(f); r(std::move(p)); nz_check(k == 1 && got == &p, "rvalue"); } }
	void d_functionref_value() { int n = 0; CM m(&n); auto f = [](CM) {}; auto g = [](CM) { return 3; }; { Nz::FunctionRef<void(CM)> r(f); r(std::move(m)); nz_check(n == 0, "an argument given away is not copied"); r(m); nz_check(n == 1, "an lvalue argument is copied once"); } { n = 0; Nz::FunctionRef<int(CM)> r(g); r(std::move(m)); nz_check(n == 0, "an argument given away is not copied"); r(m); nz_check(n == 1, "an lvalue argument is copied once"); } }
	void d_functionref_result() { int n = 0; CM m(&n); auto f = [&]() -> CM&& { return std::move(m); }; auto g = [&]() -> const CM& { return m; }; auto h = [&]() { return CM(&n); }; Nz::FunctionRef<CM&&()> r(f); Nz::FunctionRef<const CM&()> s(g); Nz::FunctionRef<CM()> t(h); CM&& a = r(); const CM& b = s(); CM c = t(); nz_check(&a == &m && &b == &m && n == 0 && c.n == &n, "results are handed over, not copied"); }
	void d_callonexit() { int n = 0; P p{ 0 }; struct G { CM m; P* p; void operator()() const { p->v++; } }; { G g{ CM(&n), &p }; Nz::CallOnExit c(std::move(g)); } nz_check(n == 0 && p.v == 1, "the functor is moved in"); }
	void d_typelistapply_rest() { Rec r; Hasher::at = &r; Args g; g.give([&](auto&&... as) { Nz::TypeListApply<Nz::TypeList<int, char, long>, Visit>(std::forward<decltype(as)>(as)...); }); g.check(r); }
	void d_signal_values() { int n = 0; Take o, o2; const Take o3, o4; Nz::Signal<CM> s; auto c = s.Connect(o, &Take::by); auto d = s.Connect(&o2, &Take::by); CM m(&n); s(std::move(m)); nz_check(n <= 2, "an argument is copied at most once for each slot"); c.Disconnect(); d.Disconnect(); n = 0; auto e = s.Connect(o3, &Take::cby); auto f = s.Connect(&o4, &Take::cby); s(std::move(m)); nz_check(n <= 2, "an argument is copied at most once for each slot"); e.Disconnect(); f.Disconnect(); }
	void d_signal_functor() { int n = 0; P p{ 0 }; Nz::Signal<P&> s; Nz::Signal<P&>::Connection c; { CF f(&n); c.Connect(s, std::move(f)); nz_check(n == 0, "a functor given away is not copied"); } s(p); nz_check(p.v == 1, "connected"); { CF f(&n); Nz::Signal<P&>::ConnectionGuard g; g.Connect(s, std::move(f)); nz_check(n == 0, "a functor given away is not copied"); s(p); nz_check(p.v == 3, "connected"); } { Nz::Signal<P&>::Callback f((CF(&n))); n = 0; Nz::Signal<P&>::Connection d; d.Connect(s, std::move(f)); nz_check(n == 0, "a callback given away is not copied"); d.Disconnect(); } { Nz::Signal<P&>::Callback f((CF(&n))); n = 0; Nz::Signal<P&>::ConnectionGuard g; g.Connect(s, std::move(f)); nz_check(n == 0, "a callback given away is not copied"); } { Nz::Signal<P&>::Callback f((CF(&n))); n = 0; auto d = s.Connect(std::move(f)); nz_check(n == 0, "a callback given away is not copied"); d.Disconnect(); Nz::Signal<P&>::Callback k((CF(&n))); auto e = s.Connect(k); nz_check(n == 1, "a callback given as an lvalue is copied once"); e.Disconnect(); } c.Disconnect(); }
	void d_hashfunctor() { Rec r; Hasher::at = &r; Args g; S h = 0; g.give([&](auto&&... as) { h = Nz::HashFunctor<Hasher>{}(std::forward<decltype(as)>(as)...); }); g.check(r); nz_check(h == 17, "the result is the functor's"); }
	void d_typelistapply() { Rec r; Hasher::at = &r; Args g; g.give([&](auto&&... as) { Nz::TypeListApply<Nz::TypeList<int>, Visit>(std::forward<decltype(as)>(as)...); }); g.check(r); }
	void d_overloaded() { int k = -1; const P* got = nullptr; Nz::Overloaded o{ [&](P& p) { k = 0; got = &p; }, [&](const P& p) { k = 2; got = &p; }, [&](P&& p) { k = 1; got = &p; } }; P p{ 1 }; const P q{ 2 }; o(p); nz_check(k == 0 && got == &p, "an lvalue picks the lvalue overload"); o(q); nz_check(k == 2 && got == &q, "a const lvalue picks the const overload"); o(std::move(p)); nz_check(k == 1 && got == &p, "an rvalue picks the rvalue overload"); }
	void d_safecast() { struct A { virtual ~A() = default; }; struct B : A {}; B b; A& a = b; B& r = Nz::SafeCast<B&>(a); nz_check(&r == &b, "a reference is cast, not copied"); const A& ca = b; const B& cr = Nz::SafeCast<const B&>(ca); nz_check(&cr == &b, "a reference is cast, not copied"); A* pa = &b; B* pb = Nz::SafeCaster(pa); nz_check(pb == &b, "a pointer is cast"); }
	// signals whose arguments are references
	void d_signal_ref() { Nz::Signal<P&> s; const P* got[2] = {}; P p{ 4 }; auto c = s.Connect([&](P& x) { got[0] = &x; x.v = 5; }); auto d = s.Connect([&](P& x) { got[1] = &x; nz_check(x.v == 5, "a slot sees what the one before it did"); }); s(p); nz_check(got[0] == &p && got[1] == &p && p.v == 5, "every slot receives the object given"); c.Disconnect(); d.Disconnect(); }
	void d_signal_cref() { Nz::Signal<const P&> s; const P* got = nullptr; const P p{ 4 }; auto c = s.Connect([&](const P& x) { got = &x; }); s(p); nz_check(got == &p, "every slot receives the object given"); c.Disconnect(); }
	void d_signal_method() { Nz::Signal<P&> s; Nz::Signal<const P&> t; Obj o, o2, o3, o4; P p{ 4 }; auto c = s.Connect(o, &Obj::lv); auto d = s.Connect(&o2, &Obj::lv); s(p); nz_check(o.got == &p && o2.got == &p && o.c == 0 && o2.c == 0, "the method receives the object given"); auto e = t.Connect(o3, &Obj::cl); auto f = t.Connect(&o4, &Obj::cl); t(p); nz_check(o3.got == &p && o4.got == &p && o3.c == 2, "the method receives the object given"); c.Disconnect(); d.Disconnect(); e.Disconnect(); f.Disconnect(); }
	void d_signal_const_method() { Nz::Signal<const P&> t; const Obj o, o2; P p{ 4 }; auto c = t.Connect(o, &Obj::ccl); auto d = t.Connect(&o2, &Obj::ccl); t(p); nz_check(o.got == &p && o2.got == &p, "the method of the very object receives the object given"); c.Disconnect(); d.Disconnect(); }
	void d_signal_slot() { Nz::Signal<P&> s; Obj o; P p{ 4 }; { Nz::Signal<P&>::ConnectionGuard g; g.Connect(s, o, &Obj::lv); s(p); nz_check(o.got == &p, "the method receives the object given"); } Nz::Signal<P&>::Connection c; const P* got = nullptr; c.Connect(s, [&](P& x) { got = &x; }); s(p); nz_check(got == &p, "the slot receives the object given"); c.Disconnect(); }
}
