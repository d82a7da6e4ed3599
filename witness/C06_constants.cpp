// Constants are the representable values nearest to the mathematical ones, in every type and however they are obtained.
#include <NazaraUtils/Constants.hpp>
#include <cstdint>
template<typename T> struct Exact;
#define V(T, s) template<> struct Exact<T> { static constexpr T Pi = 3.14159265358979323846264338327950288419716939937510##s, Tau = 6.28318530717958647692528676655900576839433879875020##s, HalfPi = 1.57079632679489661923132169163975144209858469968755##s, Sqrt2 = 1.41421356237309504880168872420969807856967187537694##s, Sqrt3 = 1.73205080756887729352744634150587236694280525381038##s, Sqrt5 = 2.23606797749978969640917366873127623544061835961152##s; };
V(float, f) V(double, ) V(long double, L)
#define M(T, C) static_assert(Nz::C<T>() == Exact<T>::C, #C) ; static_assert(Nz::MathConstants<T>::C() == Exact<T>::C, #C); static_assert(static_cast<T>(Nz::C()) == Exact<T>::C, #C); static_assert(std::is_same_v<decltype(Nz::C<T>()), T> && std::is_convertible_v<decltype(Nz::C()), T>, #C);
#define ALL(T) namespace T##_ { M(T, Pi) M(T, Tau) M(T, HalfPi) M(T, Sqrt2) M(T, Sqrt3) M(T, Sqrt5) static_assert(Nz::Tau<T>() == 2 * Nz::Pi<T>() && Nz::Pi<T>() == 2 * Nz::HalfPi<T>()); }
using longdouble = long double;
ALL(float) ALL(double) ALL(longdouble)
template<typename T> constexpr bool limits()
{
	using L = std::numeric_limits<T>;
	static_assert(Nz::MaxValue<T>() == L::max() && Nz::MinValue<T>() == L::min() && static_cast<T>(Nz::MaxValue()) == L::max() && static_cast<T>(Nz::MinValue()) == L::min() && Nz::MathConstants<T>::Max() == L::max() && Nz::MathConstants<T>::Min() == L::min());
	static_assert(std::is_same_v<decltype(Nz::MaxValue<T>()), T> && std::is_same_v<decltype(Nz::MinValue<T>()), T>);
	static_assert(Nz::BitCount<T> == sizeof(T) * CHAR_BIT);
	constexpr T a = Nz::MaxValue(), b = Nz::MinValue(); static_assert(a == L::max() && b == L::min());
	if constexpr (std::is_floating_point_v<T>)
	{
		constexpr T inf = Nz::Infinity(), nan = Nz::NaN();
		static_assert(inf == L::infinity() && Nz::Infinity<T>() == L::infinity() && nan != nan && Nz::NaN<T>() != Nz::NaN<T>() && inf > L::max() && std::is_same_v<decltype(Nz::Infinity<T>()), T> && std::is_same_v<decltype(Nz::NaN<T>()), T>);
	}
	return true;
}
static_assert(limits<bool>() && limits<char>() && limits<signed char>() && limits<unsigned char>() && limits<short>() && limits<unsigned short>() && limits<int>() && limits<unsigned>() && limits<long>() && limits<unsigned long>() && limits<long long>() && limits<unsigned long long>() && limits<wchar_t>() && limits<char16_t>() && limits<char32_t>() && limits<float>() && limits<double>() && limits<long double>());
static_assert(Nz::BitCount<std::uint8_t> == 8 && Nz::BitCount<std::uint16_t> == 16 && Nz::BitCount<std::uint32_t> == 32 && Nz::BitCount<std::uint64_t> == 64 && Nz::BitCount<char[3]> == 24);
constexpr float takes(float x) { return x; }
static_assert(takes(Nz::Pi()) == Nz::Pi<float>() && takes(Nz::Sqrt5()) == Nz::Sqrt5<float>());
#ifdef FAIL_integer_pi
constexpr int x = Nz::Pi<int>();
#endif
#ifdef FAIL_integer_pi_implicit
constexpr int x = Nz::Pi();
#endif
#ifdef FAIL_integer_tau
constexpr int x = Nz::Tau<int>();
#endif
#ifdef FAIL_integer_halfpi
constexpr int x = Nz::HalfPi<int>();
#endif
#ifdef FAIL_integer_sqrt2
constexpr int x = Nz::Sqrt2<int>();
#endif
#ifdef FAIL_integer_sqrt3
constexpr int x = Nz::Sqrt3<int>();
#endif
#ifdef FAIL_integer_sqrt5
constexpr int x = Nz::Sqrt5<int>();
#endif
#ifdef FAIL_integer_infinity
constexpr int x = Nz::Infinity<int>();
#endif
#ifdef FAIL_integer_nan
constexpr int x = Nz::NaN<int>();
#endif
int main() {}
