// What is declared constexpr can be used in constant expressions, with every overload and type.
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionTraits.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <array>
#include <map>
#include <string>
#include <vector>
enum class E { A, B, C, D, Max = D }; template<> struct Nz::EnumAsFlags<E> { static constexpr E max = E::Max; };
enum class Err { None, Bad };
// ---- integers
template<typename T> constexpr bool integers()
{
	constexpr T x = T(0x5A);
	static_assert(Nz::ArithmeticRightShift(x, 1) == T(0x2D) && Nz::ByteSwap(Nz::ByteSwap(x)) == x && Nz::ClearBit(x, T(1)) == T(0x58) && Nz::SetBit(x, T(0)) == T(0x5B) && Nz::TestBit(x, T(1)) && Nz::ToggleBit(x, T(1)) == T(0x58) && Nz::ReverseBits(Nz::ReverseBits(x)) == x);
	static_assert(Nz::CountBits(x) == 4 && Nz::FindFirstBit(x) == 2 && Nz::FindLastBit(x) == 7 && Nz::CountBits(T(0)) == 0 && Nz::FindFirstBit(T(0)) == 0 && Nz::FindLastBit(T(0)) == 0);
	static_assert(Nz::Align(T(5), T(4)) == 8 && Nz::AlignPow2(T(5), T(4)) == 8 && Nz::Approach(T(5), T(9), T(3)) == 8 && Nz::Clamp(T(5), T(1), T(4)) == 4 && Nz::GetNearestPowerOfTwo(T(9)) == 16 && Nz::IntegralLog2(T(9)) == 3 && Nz::IntegralLog2Pot(T(8)) == 3 && Nz::IntegralPow(T(3), 4) == 81 && Nz::IsPow2(T(8)) && !Nz::IsPow2(T(9)) && Nz::Mod(T(9), T(4)) == 1 && Nz::MultiplyAdd(T(3), T(4), T(5)) == 17 && Nz::NumberEquals(T(3), T(3)) && Nz::NumberEquals(T(3), T(5), T(2)) && Nz::NumberEquals(T(5), T(3), T(2)) && !Nz::NumberEquals(T(6), T(3), T(2)) && Nz::RoundToPow2(T(9)) == 16);
	static_assert(Nz::BigEndianToHost(Nz::HostToBigEndian(x)) == x && Nz::LittleEndianToHost(Nz::HostToLittleEndian(x)) == x);
	return true;
}
static_assert(integers<signed char>() && integers<unsigned char>() && integers<short>() && integers<unsigned short>() && integers<int>() && integers<unsigned>() && integers<long>() && integers<unsigned long>() && integers<long long>() && integers<unsigned long long>());
template<typename T> constexpr bool floats()
{
	static_assert(Nz::Approach(T(5), T(9), T(3)) == 8 && Nz::Clamp(T(5), T(1), T(4)) == 4 && Nz::DegreeToRadian(T(0)) == 0 && Nz::RadianToDegree(T(0)) == 0 && Nz::Lerp(T(1), T(3), T(0.5)) == 2 && Nz::NumberEquals(T(1), T(1)) && Nz::NumberEquals(T(1), T(2), T(1)) && !Nz::NumberEquals(T(3), T(1), T(1)) && Nz::IntegralPow(T(2), 3) == 8);
	return true;
}
static_assert(floats<float>() && floats<double>() && floats<long double>());
static_assert(Nz::PlatformEndianness == Nz::Endianness::LittleEndian);
// ---- hashes
constexpr Nz::UInt8 data[] = { 'a', 'b', 'c' };
static_assert(Nz::CRC32("abc") == Nz::CRC32(std::string_view("abc")) && Nz::CRC32("abc") == Nz::CRC32(data, 3) && Nz::CRC32(static_cast<const char*>("abc")) == Nz::CRC32("abc") && Nz::CRC32("") == 0);
static_assert(Nz::FNV1a32("abc") == Nz::FNV1a32(std::string_view("abc")) && Nz::FNV1a32("abc") == Nz::FNV1a32(data, 3) && Nz::FNV1a32(static_cast<const char*>("abc")) == Nz::FNV1a32("abc"));
static_assert(Nz::FNV1a64("abc") == Nz::FNV1a64(std::string_view("abc")) && Nz::FNV1a64("abc") == Nz::FNV1a64(data, 3) && Nz::FNV1a64(static_cast<const char*>("abc")) == Nz::FNV1a64("abc"));
// ---- flags
using F = Nz::Flags<E>;
constexpr bool flags()
{
	F f = E::A; f |= E::B; f ^= E::A; f &= ~F(E::A); f.Set(E::C); f.Clear(E::B); bool ok = f == F(E::C) && f != F(E::A) && f.Test(E::C) && !f.Test(E::A) && bool(f) && static_cast<unsigned>(f) == 4; f.Clear(); ok = ok && !f && (E::A | E::B) == (F(E::A) | F(E::B)) && (E::A & E::B) == F() && (E::A ^ E::B) == (E::A | E::B) && (~E::A).Test(E::B) && (E::A | F(E::B)) == (F(E::B) | E::A); return ok && F::GetFlagValue(E::C) == 4 && F::MaxBit == 3 && F::ValueMask == 15;
}
static_assert(flags());
constexpr F cf = E::A | E::C; static_assert(cf.begin() != cf.end() && cf.begin() == cf.begin());
// ---- enumeration arrays
constexpr Nz::EnumArray<E, int> ea = { 1, 2, 3, 4 };
constexpr int sum() { int s = 0; for (auto it = ea.iter_kv().begin(); it != ea.iter_kv().end(); ++it) s += (*it).second * (int((*it).first) + 1); return s; }
constexpr bool change() { Nz::EnumArray<E, int> a = { 1, 2, 3, 4 }; a[E::B] = 7; auto it = a.iter_kv().begin(); it += 2; (*it).second = 9; --it; it++; it--; return a[E::C] == 9 && (*it).second == 7 && it[1].second == 9 && (*(it + 1)).second == 9 && (*(it - 1)).second == 1 && it < it + 1 && it <= it && it + 1 > it && it >= it && (*it).first == E::B; }
static_assert(ea[E::C] == 3);
#if __cplusplus >= 202002L
static_assert(sum() == 30 && change());
#endif
// ---- results
using R = Nz::Result<int, Err>;
constexpr R half(int x) { if (x % 2) return Nz::Err(Err::Bad); return Nz::Ok(x / 2); }
static_assert(half(4).IsOk() && half(4).GetValue() == 2 && half(3).IsErr() && half(3).GetError() == Err::Bad && half(3).GetValueOr(8) == 8 && half(4).GetValueOr(8) == 2 && bool(half(4)) && !half(3) && *half(4) == 2);
constexpr R kept = half(8); static_assert(kept.GetValue() == 4 && *kept == 4 && kept.GetValueOr(1) == 4); constexpr R copied = kept; static_assert(*copied == 4); constexpr Nz::Result<long, Err> widened = kept; static_assert(*widened == 4); constexpr R tagged(R::ErrorTag{}, Err::Bad), tagged2(R::ValueTag{}, 3); static_assert(tagged.IsErr() && *tagged2 == 3);
using RV = Nz::Result<void, Err>;
constexpr RV check(bool x) { if (x) return Nz::Ok(); return Nz::Err(Err::Bad); }
static_assert(check(true).IsOk() && check(false).IsErr() && check(false).GetError() == Err::Bad && bool(check(true)));
#if __cplusplus >= 202002L
static_assert(half(4).Map([](int x) { return x + 0.5; }).GetValue() == 2.5 && half(3).Map([](int x) { return x; }).GetError() == Err::Bad && kept.Map([](const int& x) { return x * 2; }).GetValue() == 8 && check(true).Map([] { return 3; }).GetValue() == 3 && check(false).Map([] { return 3; }).GetError() == Err::Bad);
#endif
// ---- movable values
constexpr bool movables()
{
	Nz::MovableLiteral<int, 5> a, b(3); a = 4; b = std::move(a); Nz::MovableLiteral<int, 5> c(std::move(b)); const auto& k = c; int& r = c; r = 9; Nz::MovableLiteral<int, 5> d(c); d = c;
	Nz::MovableValue<int> v(3), w(v), x(std::move(w)); v = x; v = std::move(x); v = 8; int& q = v; const auto& kv = v; q = 10;
	return k.Get() == 9 && d.Get() == 9 && kv.Get() == 10 && int(std::as_const(d)) == 9;
}
#if __cplusplus >= 202002L
static_assert(movables());
#endif
// ---- the rest
constexpr int arr[3] = {}; enum class U : unsigned char { A = 7 };
static_assert(Nz::CountOf(arr) == 3 && Nz::CountOf("abc") == 4 && Nz::CountOf(std::array<int, 5>{}) == 5 && Nz::UnderlyingCast(U::A) == 7 && Nz::TypeName<int>() == "int");
constexpr int casted = Nz::SafeCast<int>(3l); constexpr unsigned char narrowed = Nz::SafeCast<unsigned char>(200); constexpr E enumerated = Nz::SafeCast<E>(2); constexpr int cer = Nz::SafeCaster(7ull); static_assert(casted == 3 && narrowed == 200 && enumerated == E::C && cer == 7 && Nz::SafeCast<int>(E::B) == 1 && Nz::SafeCast<float>(3) == 3.f && Nz::SafeCast<int>(3.0) == 3);
static_assert(Nz::BitCast<unsigned>(1.f) == 0x3F800000u && Nz::BitCast<float>(0x3F800000u) == 1.f);
#if __cplusplus >= 202002L
// ---- bitsets
template<typename B> constexpr bool bitsets()
{
	B a, b(10, true), c("0101"), d("0101", 3), e(std::string_view("0110")), g(5u); B h(b), i(std::move(h)); bool ok = b.Count() == 10 && c.Count() == 2 && d.GetSize() == 3 && e.Test(1) && i == b && h.GetSize() == 0;
	a.AppendBits(3u, 2); a.Resize(40); a.Set(std::size_t(39)); ok = ok && a.FindFirst() == 0 && a.FindNext(1) == 39 && a.Test(39) && a.TestAny() && !a.TestAll() && !a.TestNone() && a.UnboundedTest(39) && !a.UnboundedTest(400) && a.GetSize() == 40;
	a.Flip(); a.Reset(std::size_t(3)); a.Reverse(); a.ShiftLeft(3); a.ShiftRight(2); a.Set(std::size_t(1), false); a.UnboundedSet(60); a.UnboundedReset(2); a.SetBlock(0, 1); a.Reset(); a.Set(); a.Clear();
	B x, y; x.PerformsAND(c, e); y.PerformsOR(c, e); ok = ok && x.Count() == 1 && y.Count() == 3 && c.Intersects(e) && (c & e) == x && (c | e) == y && (c ^ e).Count() == 2 && (~c).Count() == 2 && c != e && (c < e) != (c > e) && c <= c && c >= c; x.PerformsXOR(c, e); y.PerformsNOT(c); x &= c; x |= e; x ^= c; x <<= 1; x >>= 1; x = c << 1; y = c >> 1; x.Swap(y); std::swap(x, y); x = e; y = std::move(x); x = std::string_view("01");
	std::size_t n = 0; for (std::size_t bit : y.IterBits()) n += bit; B z = y; 
	return ok && n == 3 && g.template To<Nz::UInt64>() == 5 && z[1] == true && std::as_const(z)[0] == false && z.GetBlockCount() == 1 && z.GetBlock(0) == 6;
}
static_assert(bitsets<Nz::Bitset<Nz::UInt32>>() && bitsets<Nz::Bitset<Nz::UInt64>>());
constexpr int byPtr() { std::map<int, int>* m = nullptr; (void) m; int x = 3; void* p = nullptr; (void) p; return x; } static_assert(byPtr() == 3);
#endif
// ---- checks that fail are not constant expressions
#ifdef FAIL_value_of_error
constexpr int x = half(3).GetValue();
#endif
#ifdef FAIL_error_of_value
constexpr Err x = half(4).GetError();
#endif
#ifdef FAIL_enum_array_out_of_range
constexpr int x = ea[static_cast<E>(4)];
#endif
int main() {}
