// What is given away is never copied, with either compiler: everything that forwards accepts arguments that can only be moved
// (a copy does not compile), and counts of copies in constant expressions.
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <utility>
struct M { int v; constexpr explicit M(int x) : v(x) {} M(const M&) = delete; M(M&&) = default; M& operator=(const M&) = delete; M& operator=(M&&) = default; };
struct Two { M a, b; Two(M&& x, M&& y) : a(std::move(x)), b(std::move(y)) {} Two(const Two&) = delete; Two(Two&&) = default; Two& operator=(const Two&) = delete; Two& operator=(Two&&) = default; };
struct FnM { M m; void operator()() const {} };
struct Once { M m; int operator()(M x) && { return x.v; } int operator()() && { return 1; } };
struct OnceV { M m; void operator()(M) && {} void operator()() && {} };
struct HashM { std::size_t operator()(M x) const { return std::size_t(x.v); } };
template<typename T> struct Take { void operator()(M x) const { (void)x; } };
M Make(); M GlobalFn(M x);
// conversions between results
struct W { M m; W(M&& x) : m(std::move(x)) {} W(W&&) = default; W& operator=(W&&) = default; };

void containers(Two* room)
{
	Nz::StackVector<Two> s(room, 3); s.emplace_back(Make(), Make()); s.emplace(s.begin(), Make(), Make()); s.push_back(Two(Make(), Make())); s.insert(s.begin(), Two(Make(), Make())); Nz::StackVector<Two> s2(std::move(s)); s = std::move(s2);
	Nz::FixedVector<Two, 3> f; f.emplace_back(Make(), Make()); f.emplace(f.begin(), Make(), Make()); f.push_back(Two(Make(), Make())); f.insert(f.begin(), Two(Make(), Make())); f.erase(f.begin()); Nz::FixedVector<Two, 3> f2(std::move(f)); f = std::move(f2);
	Nz::HybridVector<Two, 3> h; h.emplace_back(Make(), Make()); h.emplace(h.begin(), Make(), Make()); h.push_back(Two(Make(), Make())); h.insert(h.begin(), Two(Make(), Make())); h.erase(h.begin()); h.reserve(9); Nz::HybridVector<Two, 3> h2(std::move(h)); h = std::move(h2);
	Nz::MemoryPool<Two> p(4); std::size_t i; p.Allocate(i, Make(), Make()); Nz::MemoryPool<Two> p2(std::move(p)); p = std::move(p2); Nz::PlacementNew(room, Make(), Make());
	Nz::PrivateImpl<Two> a(Make(), Make()); a.Emplace(Make(), Make()); Nz::PrivateImpl<Two> b(std::move(a)); a = std::move(b); Nz::PrivateImpl<Two, sizeof(Two)> c(Make(), Make());
}
void results()
{
	using R = Nz::Result<M, int>; using E = Nz::Result<int, M>; using V = Nz::Result<void, M>;
	{ R r(Make()); R t(std::move(r)); r = std::move(t); M a = std::move(r).GetValue(); M b = std::move(t).GetValueOr(Make()); M c = *R(Make()); (void)std::move(t).Map([](M x) { return x.v; }); (void)std::move(t).Map([](M) {}); (void)std::move(t).Map([](M x) { return x; }); (void)std::move(t).Map(Once{ Make() }); (void)std::move(t).Map(OnceV{ Make() }); R w(R::ValueTag{}, Make()); R ok = Nz::Ok(Make()); }
	{ E e = Nz::Err(Make()); E t(std::move(e)); e = std::move(t); M a = std::move(e).GetError(); (void)std::move(t).Map([](int x) { return x; }); (void)std::move(t).Map([](int) {}); E w(E::ErrorTag{}, Make()); }
	{ V v = Nz::Err(Make()); V t(std::move(v)); v = std::move(t); M a = std::move(v).GetError(); (void)std::move(t).Map([] { return 1; }); (void)std::move(t).Map([] {}); (void)std::move(t).Map(Once{ Make() }); (void)std::move(t).Map(OnceV{ Make() }); V w(V::ErrorTag{}, Make()); }
	Nz::Result<W, int> x(R{ Make() }); Nz::Result<int, W> y(E{ Nz::Err(Make()) }); Nz::Result<void, W> z(V{ Nz::Err(Make()) });
}
void calls()
{
	auto l = [](M x) { return x; }; auto k = [](M) {}; Nz::FunctionRef<M(M)> r(l), g(GlobalFn); M a = r(Make()); a = g(Make()); Nz::FunctionRef<void(M)> s(k); s(Make()); Nz::FunctionRef<M && (M&&)> t(static_cast<M && (*)(M&&)>(nullptr)); M b = t(Make());
	Nz::CallOnExit e(FnM{ Make() }); Nz::HashFunctor<HashM>{}(Make()); Nz::TypeListApply<Nz::TypeList<int>, Take>(Make());
	auto o = Nz::Overloaded{ [m = Make()](int) { return m.v; }, FnM{ Make() } }; o(3); o();
	Nz::Signal<M&> sg; Nz::Signal<M&>::Connection c = sg.Connect([](M&) {}); Nz::Signal<M&>::ConnectionGuard gd; gd.Connect(sg, [](M&) {});
	Nz::MovableValue<M> mv(Make()); mv = Make(); Nz::MovableValue<M> mw(std::move(mv)); mv = std::move(mw); M q = std::move(mv).Get(); M q2 = static_cast<M&&>(std::move(mw));
}
// counts of copies and moves
struct C { int v, copies, moves; constexpr C(int x = 0) : v(x), copies(0), moves(0) {} constexpr C(const C& c) : v(c.v), copies(c.copies + 1), moves(c.moves) {} constexpr C(C&& c) noexcept : v(c.v), copies(c.copies), moves(c.moves + 1) {}
	constexpr C& operator=(const C& c) { v = c.v; copies = c.copies + 1; moves = c.moves; return *this; } constexpr C& operator=(C&& c) noexcept { v = c.v; copies = c.copies; moves = c.moves + 1; return *this; } };
constexpr Nz::Result<C, char> Error() { return Nz::Err('e'); }
constexpr Nz::Result<C, char> Value() { return Nz::Result<C, char>(C(4)); }
static_assert(Error().GetValueOr(C(5)).v == 5 && Error().GetValueOr(C(5)).copies == 0, "a default given away is not copied");
static_assert(Value().GetValueOr(C(5)).v == 4 && Value().GetValueOr(C(5)).copies == 0 && Value().GetValue().copies == 0, "the value of an expiring result is not copied");
constexpr int LvalueDefault(bool expiring) { Nz::Result<C, char> r = Nz::Err('e'); C d(5); C o = expiring ? std::move(r).GetValueOr(d) : r.GetValueOr(d); return o.copies; }
static_assert(LvalueDefault(false) == 1 && LvalueDefault(true) == 1, "an lvalue default is copied once");
constexpr int RvalueDefault() { const Nz::Result<C, char> r = Nz::Err('e'); C o = r.GetValueOr(C(7)); return o.copies; }
static_assert(RvalueDefault() == 0, "a default given away is not copied");
struct Peek { constexpr int operator()(const C& c) const { return c.copies * 10 + c.v; } }; struct Grab { constexpr C operator()(C c) const { return c; } };
#if __cplusplus >= 202002L // std::invoke is constexpr
static_assert(Value().Map(Peek{}).GetValue() == 4 && Value().Map(Grab{}).GetValue().copies == 0, "mapping an expiring result copies nothing");
constexpr int MapLvalue() { const auto r = Value(); return r.Map(Peek{}).GetValue() * 10 + r.Map(Grab{}).GetValue().copies; }
static_assert(MapLvalue() == 41, "mapping a result in use shows its value without copying it");
#endif
constexpr int Movable() { Nz::MovableLiteral<int, 0> a(4), b(std::move(a)); return a.Get() * 10 + b.Get(); }
static_assert(Movable() == 4);
constexpr int MovCopies() { Nz::MovableValue<C> a(C(4)); int n = a.Get().copies; Nz::MovableValue<C> b(std::move(a)); n += b.Get().copies; a = std::move(b); n += a.Get().copies; a = C(9); return n + a.Get().copies; }
constexpr int MovLvalue() { C c(4); Nz::MovableValue<C> a(c); int n = a.Get().copies; a = c; return n * 10 + a.Get().copies; }
static_assert(MovCopies() == 0 && MovLvalue() == 11, "movable values copy what is kept and move what is given away");
