// Clamp, Approach and NumberEquals of every integer type, Clamp and Approach of floating-point types.
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>
#include <limits>
namespace
{
	template<typename T> void clamp()
	{
		T v = any<T>(), lo = any<T>(), hi = any<T>(); nz_assume(lo <= hi);
		T r = Nz::Clamp(v, lo, hi);
		if (v < lo) nz_check(r == lo, "a value below the interval gives its minimum");
		else if (v > hi) nz_check(r == hi, "a value above the interval gives its maximum");
		else nz_check(r == v, "a value of the interval is kept");
	}
	template<typename T> Un<T> dist(T a, T b) { return a > b ? static_cast<Un<T>>(static_cast<Un<T>>(a) - static_cast<Un<T>>(b)) : static_cast<Un<T>>(static_cast<Un<T>>(b) - static_cast<Un<T>>(a)); }
	template<typename T> bool same(T a, T b) { return !(a < b) & !(b < a); }
	template<typename T> void approach()
	{
		T v = any<T>(), o = any<T>(), inc = any<T>(); nz_assume(inc >= T(0));
		T r = Nz::Approach(v, o, inc);
		if (dist(v, o) <= static_cast<Un<T>>(inc)) nz_check(same(r, o), "an objective within reach is reached");
		else if (v < o) nz_check(r == static_cast<T>(v + inc), "approaching from below adds the increment");
		else nz_check(r == static_cast<T>(v - inc), "approaching from above subtracts the increment");
	}
	template<typename T> void numeq()
	{
		T a = any<T>(), b = any<T>(), m = any<T>(); nz_assume(m >= T(0));
		bool r = Nz::NumberEquals(a, b, m);
		if (dist(a, b) <= static_cast<Un<T>>(m)) nz_check(r, "numbers within the tolerance are equal"); else nz_check(!r, "numbers further than the tolerance are different");
	}
	template<typename T> void numself() { T v = any<T>(); nz_check(Nz::NumberEquals(v, v), "a number equals itself"); }
	template<typename T> void numless() { T v = any<T>(), w = any<T>(); nz_assume(v < w); nz_check(!Nz::NumberEquals(v, w), "different integers are different"); }
	template<typename T> void nummore() { T v = any<T>(), w = any<T>(); nz_assume(v > w); nz_check(!Nz::NumberEquals(v, w), "different integers are different"); }
	template<typename T> T anyf(); template<> float anyf<float>() { return nz_any_f32(); } template<> double anyf<double>() { return nz_any_f64(); }
	template<typename T> void fclamp()
	{
		T v = anyf<T>(), lo = anyf<T>(), hi = anyf<T>(); nz_assume(v == v); nz_assume(lo <= hi);
		T r = Nz::Clamp(v, lo, hi);
		if (v < lo) nz_check(r == lo, "a value below the interval gives its minimum");
		else if (v > hi) nz_check(r == hi, "a value above the interval gives its maximum");
		else nz_check(r == v, "a value of the interval is kept");
	}
	template<typename T> void fapproach()
	{
		T v = anyf<T>(), o = anyf<T>(), inc = anyf<T>(); nz_assume(v == v); nz_assume(o == o); nz_assume(inc >= T(0));
		T r = Nz::Approach(v, o, inc);
		if (v == o) nz_check(r == o, "the objective is kept");
		else if (v < o) { T n = v + inc; nz_assume(n == n); nz_check(n < o ? r == n : r == o, "approaching from below adds the increment and stops at the objective"); }
		else { T n = v - inc; nz_assume(n == n); nz_check(n > o ? r == n : r == o, "approaching from above subtracts the increment and stops at the objective"); }
	}
}
EACH_INT(INT_ENTRY, clamp) EACH_INT(INT_ENTRY, approach) EACH_INT(INT_ENTRY, numeq) EACH_INT(INT_ENTRY, numself) EACH_INT(INT_ENTRY, numless) EACH_INT(INT_ENTRY, nummore)
INT_ENTRY(f32, float, fclamp) INT_ENTRY(f64, double, fclamp) INT_ENTRY(f32, float, fapproach) INT_ENTRY(f64, double, fapproach)
