// Classification of floating-point values, and the arithmetic helpers
#include "nz.hpp"
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>
template<class F> F any_(); template<> float any_<float>() { return nz_any_g32(); } template<> double any_<double>() { return nz_any_g64(); }
template<class F> void cls()
{
	constexpr F inf = F(__builtin_inf());
	F f = any_<F>();
	bool nan = f != f, infinite = f == inf || f == -inf;
	nz_check(Nz::IsFinite(f) == (!nan && !infinite), "finite: neither infinite nor NaN");
	nz_check(Nz::IsInfinity(f) == infinite, "infinite: of either sign");
	nz_check(Nz::IsNaN(f) == nan, "not a number");
}
template<class F> void clsc()
{
	const F v[] = { F(0), F(-0.0), F(1), F(-2.5), std::numeric_limits<F>::min(), -std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest() };
	F f = v[nz_pick(8)];
	nz_check(Nz::IsFinite(f) && !Nz::IsInfinity(f) && !Nz::IsNaN(f), "the extreme finite values");
}
// quarters: every intermediate result is exact
template<class F> void lerp()
{
	static const int ab[] = { 0, 1, -3, 40, -1024 }; static const int ts[] = { 0, 4, 1, 2, 3, 8, -4 };
	int a = ab[nz_pick(5)], b = ab[nz_pick(5)], t = ts[nz_pick(7)];
	nz_check(Nz::Lerp(F(a), F(b), F(t) / 4) * 4 == F(a * 4 + (b - a) * t), "interpolation");
	if (t == 0) nz_check(Nz::Lerp(F(a), F(b), 0) == a, "the first end");
	if (t == 4) nz_check(Nz::Lerp(F(a), F(b), 1) == b, "the second end");
}
template<class F> void mod()
{
	static const int xs[] = { 0, 1, 7, -7, 22, -22, 1025 }; static const int ys[] = { 1, 3, -3, 8, -10 };
	int x = xs[nz_pick(7)], y = ys[nz_pick(5)];
	nz_check(Nz::Mod(F(x) / 4, F(y) / 4) * 4 == F(x % y), "remainder of the sign of the dividend");
}
template<class F> void muladd()
{
	static const int v[] = { 0, 1, -3, 40, -1000 };
	int x = v[nz_pick(5)], y = v[nz_pick(5)], z = v[nz_pick(5)];
	nz_check(Nz::MultiplyAdd(F(x) / 4, F(y), F(z)) == F(x * y + 4 * z) / 4, "product and sum");
}
template<class F> void angles()
{
	static const int v[] = { 0, 1, 2, -1, -2, 4, 3 };
	int k = v[nz_pick(7)];
	F pi = F(3.14159265358979323846264338327950288L), eps = std::numeric_limits<F>::epsilon() * 4, r = Nz::DegreeToRadian(F(k * 90)), d = Nz::RadianToDegree(pi * F(k) / 2);
	F ra = r - pi * F(k) / 2, da = d - F(k * 90);
	nz_check(ra <= eps * 8 && ra >= -eps * 8, "half a turn is pi"); nz_check(da <= eps * 360 && da >= -eps * 360, "pi is half a turn");
}
// for integers the helpers are exact for every argument
template<class T> void ilerp() { T a = any<T>(), b = any<T>(); nz_assume(a >= -1000000000 && a <= 1000000000 && b >= -1000000000 && b <= 1000000000); nz_check(Nz::Lerp(a, b, 0) == a, "the first end"); nz_check(Nz::Lerp(a, b, 1) == b, "the second end"); }
template<class T> void imuladd() { static const int v[] = { 0, 1, 3, 10 }; T x = any<T>(), z = any<T>(); S k = nz_pick(4); nz_assume(x <= 1000000 && x >= 0 && z >= 0 && z <= 1000000); nz_check(Nz::MultiplyAdd(x, T(v[k]), z) == T(x * T(v[k]) + z), "product and sum"); }
template<class T> void imod() { static const int v[] = { 1, 2, 7, 100 }; T x = any<T>(), y = T(v[nz_pick(4)]); T r = Nz::Mod(x, y); nz_check(r == T(x % y), "integer remainder"); }
#define FL(name) void d_##name##_f32() { name<float>(); } void d_##name##_f64() { name<double>(); }
extern "C" {
	FL(cls) FL(clsc) FL(lerp) FL(mod) FL(muladd) FL(angles)
	void d_ilerp_i32() { ilerp<int>(); } void d_ilerp_i64() { ilerp<long long>(); }
	void d_imuladd_i32() { imuladd<int>(); } void d_imuladd_u64() { imuladd<unsigned long long>(); }
	void d_imod_i32() { imod<int>(); } void d_imod_u8() { imod<unsigned char>(); } void d_imod_i64() { imod<long long>(); }
}
