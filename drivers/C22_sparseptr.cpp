// Strided pointers over a buffer of any size, from any position, for a list of strides of both signs and every type of index.
#include "nz.hpp"
#include <NazaraUtils/SparsePtr.hpp>
using S = std::size_t;
namespace
{
	using B = std::uint8_t; using P = Nz::SparsePtr<B>; using CP = Nz::SparsePtr<const B>; using D = std::ptrdiff_t;
	struct Buf { B* b; S n, at; Buf() : n(nz_any_size()) { b = static_cast<B*>(nz_raw(n, 1, "b")); at = nz_any_size(); nz_assume(at < n); } };
	template<typename I, bool Neg> I index(S k) { return Neg ? static_cast<I>(-static_cast<I>(k)) : static_cast<I>(k); }
	// element number k (or -k) of a pointer of stride St standing at byte `at` of a buffer; the target is inside the buffer
	template<typename I, int St, bool Neg> void reach()
	{
		Buf z; const S k = nz_any_size(); nz_assume(k <= (sizeof(I) == 1 ? 100u : sizeof(I) == 2 ? 30000u : S(1) << 30));
		constexpr bool back = (St < 0) != Neg; constexpr S mag = St < 0 ? S(-D(St)) : S(St);
		if (back) nz_assume(k * mag <= z.at); else nz_assume(k * mag < z.n - z.at);
		const S to = back ? z.at - k * mag : z.at + k * mag; const I i = index<I, Neg>(k);
		P p(z.b + z.at, St); B* q = z.b + to;
		nz_check(p.GetPtr() == z.b + z.at && p.GetStride() == St, "the position and stride given");
		nz_check(&p[i] == q, "indexing"); P s = p + i; nz_check(s.GetPtr() == q && s.GetStride() == St, "adding an offset"); nz_check(p.GetPtr() == z.b + z.at, "the operand is left alone");
		P a(p); a += i; nz_check(a.GetPtr() == q && a.GetStride() == St, "advancing by an offset");
		P m = s - i; nz_check(m == p && m.GetStride() == St, "subtracting undoes adding"); a -= i; nz_check(a == p, "going back by the same offset"); nz_check(s[0] == nz_elem8("b", to), "the element at that position");
	}
	template<typename I, int St> void less()
	{ // going down by a positive offset
		Buf z; const S k = nz_any_size(); nz_assume(k <= (sizeof(I) == 1 ? 100u : sizeof(I) == 2 ? 30000u : S(1) << 30));
		constexpr bool back = St > 0; constexpr S mag = St < 0 ? S(-D(St)) : S(St);
		if (back) nz_assume(k * mag <= z.at); else nz_assume(k * mag < z.n - z.at);
		B* q = z.b + (back ? z.at - k * mag : z.at + k * mag); const I i = static_cast<I>(k);
		P p(z.b + z.at, St); nz_check((p - i).GetPtr() == q, "subtracting an offset"); P a(p); a -= i; nz_check(a.GetPtr() == q, "going back by an offset"); nz_check((p - i) + i == p, "adding undoes subtracting");
	}
	template<int St> void step()
	{
		Buf z; constexpr S mag = St < 0 ? S(-D(St)) : S(St); nz_assume(z.at >= mag); nz_assume(mag < z.n - z.at);
		P p(z.b + z.at, St); B* up = St < 0 ? z.b + (z.at - mag) : z.b + (z.at + mag); B* down = St < 0 ? z.b + (z.at + mag) : z.b + (z.at - mag);
		P a(p); nz_check((++a).GetPtr() == up && a.GetPtr() == up && a.GetStride() == St, "increment"); P b(p); P old = b++; nz_check(old == p && b == a, "post-increment"); nz_check(&*p == z.b + z.at && p.operator->() == z.b + z.at && static_cast<B*>(p) == z.b + z.at, "dereference");
		P c(p); nz_check((--c).GetPtr() == down && c.GetPtr() == down && c.GetStride() == St, "decrement"); P d(p); old = d--; nz_check(old == p && d == c, "post-decrement");
		nz_check(*p == nz_elem8("b", z.at), "the element at the position"); nz_check(++c == p && --a == p, "increment and decrement undo each other");
		nz_check(&++a == &a && &--a == &a && &(a += 1) == &a && &(a -= 1) == &a, "the pointer itself is returned");
	}
	template<int St> void diff()
	{
		Buf z; constexpr S mag = St < 0 ? S(-D(St)) : S(St); S k = nz_pick(6); nz_assume(k * mag < z.n - z.at);
		P p(z.b + z.at, St), q(z.b + (z.at + k * mag), St); nz_check(q - p == (St < 0 ? -D(k) : D(k)), "the difference is the number of steps"); nz_check(p - q == (St < 0 ? D(k) : -D(k)), "the opposite difference");
		nz_check(p + (q - p) == q, "differences invert offsets");
	}
	template<int St> void order()
	{
		Buf z; S k = nz_any_size(); nz_assume(k < z.n); P p(z.b + z.at, St), q(z.b + k, St);
		nz_check((p == q) == (z.at == k), "equality"); nz_check((p != q) == (z.at != k), "inequality"); nz_check((p < q) == (z.at < k), "less"); nz_check((p > q) == (z.at > k), "greater"); nz_check((p <= q) == (z.at <= k), "not greater"); nz_check((p >= q) == (z.at >= k), "not less");
	}
	template<int St> void convert()
	{
		Buf z; P p(z.b + z.at, St); CP c(p); nz_check(c.GetPtr() == z.b + z.at && c.GetStride() == St, "conversion to const"); CP d; d = p; nz_check(d == c && d.GetStride() == St, "assignment to const"); CP e; e.Reset(p); nz_check(e == c && e.GetStride() == St, "resetting to another pointer");
		P f; f.Reset(p); nz_check(f == p && f.GetStride() == St, "resetting to a copy"); P g; g.Reset(z.b + z.at, St); nz_check(g == p && g.GetStride() == St, "resetting to a position and stride"); g.Reset(); nz_check(!g && g.GetPtr() == nullptr && g.GetStride() == 0, "resetting");
		P h; nz_check(!h && h.GetPtr() == nullptr, "null by default"); h.SetPtr(z.b + z.at); nz_check(h == p && static_cast<bool>(h), "setting the position"); h.SetStride(St); nz_check(h.GetStride() == St && h == p, "setting the stride");
		if (St > 0) { P s(z.b + z.at, static_cast<S>(St)); nz_check(s == p && s.GetStride() == St, "a stride given as a size"); }
		nz_check(&c[0] == &*c && &*c == z.b + z.at, "reading through a const pointer");
	}
}
#define SIGNED(X, I) IDX_(X, I, 1, 1) IDX_(X, I, 4, 4) IDX_(X, I, 12, 12) IDX_(X, I, m1, -1) IDX_(X, I, m8, -8) IDX_(X, I, m12, -12) IDX_(X, I, big, 70000) IDX_(X, I, mbig, -70000)
#define IDX_(X, I, N, St) extern "C" { void d_index_##X##_##N() { reach<I, St, false>(); } void d_less_##X##_##N() { less<I, St>(); } }
SIGNED(int, int) SIGNED(uint, unsigned) SIGNED(size, std::size_t) SIGNED(diff, std::ptrdiff_t) SIGNED(u8, std::uint8_t) SIGNED(i8, std::int8_t) SIGNED(u16, std::uint16_t) SIGNED(i16, std::int16_t)
#undef IDX_
#define IDX_(X, I, N, St) extern "C" { void d_negative_##X##_##N() { reach<I, St, true>(); } }
SIGNED(int, int) SIGNED(diff, std::ptrdiff_t) SIGNED(i8, std::int8_t) SIGNED(i16, std::int16_t)
#define EACH(N, St) extern "C" { void d_step_##N() { step<St>(); } void d_diff_##N() { diff<St>(); } void d_order_##N() { order<St>(); } void d_convert_##N() { convert<St>(); } }
EACH(1, 1) EACH(4, 4) EACH(12, 12) EACH(m1, -1) EACH(m8, -8) EACH(m12, -12) EACH(big, 70000) EACH(mbig, -70000)
namespace
{
	struct A { std::uint64_t a; }; struct Bb { std::uint64_t b; }; struct C : A, Bb { std::uint64_t c; };
}
extern "C" {
	void d_stride_limit() { Buf z; P p(z.b + z.at, S(0x7FFFFFFF)); nz_check(p.GetStride() == 0x7FFFFFFF && p.GetPtr() == z.b + z.at, "every stride up to the limit is accepted"); P q(z.b + z.at, -0x7FFFFFFF - 1); nz_check(q.GetStride() == -0x7FFFFFFF - 1, "every stride up to the limit is accepted"); }
	void d_base() { C c[3]; Nz::SparsePtr<C> p(c); nz_check(p.GetStride() == sizeof(C), "the stride of an object pointer"); Nz::SparsePtr<Bb> q(p); nz_check(&*q == static_cast<Bb*>(&c[0]) && &q[1] == static_cast<Bb*>(&c[1]) && q.GetStride() == sizeof(C), "conversion to a base keeps designating the same objects"); Nz::SparsePtr<const A> r(p); nz_check(&r[2] == static_cast<A*>(&c[2]), "conversion to a const base"); }
	void d_member() { C c[4]; Nz::SparsePtr<std::uint64_t> p(&c[0].c, sizeof(C)); nz_check(&p[0] == &c[0].c && &p[3] == &c[3].c, "walking over a member"); p += 2; *p = 5; nz_check(c[2].c == 5, "writing through the pointer"); Nz::SparsePtr deduced(&c[0].b, 8); deduced.SetStride(sizeof(C)); nz_check(&deduced[1] == &c[1].b, "deduced element type"); }
}
