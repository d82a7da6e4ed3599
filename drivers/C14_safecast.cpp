// Checked casts: what the target represents passes unchanged, everything else stops the program (assertions on).
#include "ints.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <limits>
namespace
{
	enum class E8 : std::uint8_t {}; enum class E8s : std::int8_t {}; enum class E32 : std::int32_t {}; enum class E64 : std::uint64_t {};
	template<typename T, bool = std::is_enum_v<T>> struct Base { using t = T; }; template<typename T> struct Base<T, true> { using t = std::underlying_type_t<T>; };
	template<typename T> using B = typename Base<T>::t;
	template<typename To, typename From> bool fits(From v)
	{
		using L = std::numeric_limits<To>;
		if constexpr (std::is_signed_v<From> && std::is_signed_v<To>) { if constexpr (sizeof(From) <= sizeof(To)) return true; else return (v >= static_cast<From>(L::min())) & (v <= static_cast<From>(L::max())); }
		else if constexpr (std::is_signed_v<From>) { if constexpr (sizeof(From) <= sizeof(To)) return v >= 0; else return (v >= 0) & (v <= static_cast<From>(L::max())); }
		else if constexpr (sizeof(From) < sizeof(To) || (std::is_unsigned_v<To> && sizeof(From) == sizeof(To))) return true;
		else return v <= static_cast<From>(L::max());
	}
	// by the highest bit that does not fit
	template<typename To, typename From> From outside()
	{
		constexpr S lo = std::numeric_limits<To>::digits, hi = std::numeric_limits<From>::digits;
		if constexpr (std::is_signed_v<From> && std::is_unsigned_v<To>) { if (lo >= hi || nz_pick(2)) return static_cast<From>(anyu<From>() | (Un<From>(1) << (W<From> - 1))); }
		Un<From> u = withtop<Un<From>>(lo + nz_pick(lo < hi ? hi - lo : 1));
		if constexpr (std::is_signed_v<From> && std::is_signed_v<To>) { if (nz_pick(2)) return static_cast<From>(~u); }
		return static_cast<From>(u);
	}
	template<typename To, typename From> void accepts() { B<From> v = any<B<From>>(); nz_assume(fits<B<To>>(v)); To r = Nz::SafeCast<To>(static_cast<From>(v)); nz_check(static_cast<B<To>>(r) == static_cast<B<To>>(v), "a checked cast returns the value"); }
	template<typename To, typename From> void acceptsl() { B<From> v = any<B<From>>(); nz_assume(fits<B<To>>(v)); const From f = static_cast<From>(v); To r = Nz::SafeCast<To>(f); nz_check(static_cast<B<To>>(r) == static_cast<B<To>>(v), "a checked cast returns the value"); }
	template<typename To, typename From> void casterok() { B<From> v = any<B<From>>(); nz_assume(fits<B<To>>(v)); From f = static_cast<From>(v); To r = Nz::SafeCaster(f); nz_check(static_cast<B<To>>(r) == static_cast<B<To>>(v), "a checked cast returns the value"); }
	template<typename To, typename From> void refuses() { B<From> v = outside<B<To>, B<From>>(); nz_maystop(); (void) Nz::SafeCast<To>(static_cast<From>(v)); nz_check(false, "a checked cast that changes the value does not return"); }
	template<typename To, typename From> void refusesl() { B<From> v = outside<B<To>, B<From>>(); nz_maystop(); From f = static_cast<From>(v); (void) Nz::SafeCast<To>(f); nz_check(false, "a checked cast of a lvalue that changes the value does not return"); }
	template<typename To, typename From> constexpr bool narrowing = !(std::is_same_v<To, From>) && (std::is_signed_v<B<From>> ? (std::is_unsigned_v<B<To>> || sizeof(B<From>) > sizeof(B<To>)) : (std::is_unsigned_v<B<To>> ? sizeof(B<From>) > sizeof(B<To>) : sizeof(B<From>) >= sizeof(B<To>)));
	template<typename To, typename From> void pair() { switch (nz_pick(2)) { case 0: accepts<To, From>(); break; default: acceptsl<To, From>(); break; } }
	template<typename To, typename From> void badpair() { if constexpr (narrowing<To, From>) { if (nz_pick(2)) refuses<To, From>(); else refusesl<To, From>(); } else accepts<To, From>(); }
	// floating-point sources
	template<typename F> F anyf(); template<> float anyf<float>() { return nz_any_f32(); } template<> double anyf<double>() { return nz_any_f64(); }
	template<typename F> F pow2(int e) { F r = 1; for (int i = 0; i < e; ++i) r *= F(2); return r; }
	template<typename To, typename F> void frefuse()
	{
		constexpr int digits = std::numeric_limits<To>::digits; constexpr F top = F(std::numeric_limits<To>::max() / 2 + 1) * F(2); constexpr F bottom = std::is_signed_v<To> ? -top : F(0);
		F f = anyf<F>(); nz_assume(!((f >= bottom) & (f < top))); static_assert(digits > 0);
		nz_maystop(); (void) Nz::SafeCast<To>(f); nz_check(false, "a checked cast of an out of range number (or NaN) does not return");
	}
	template<typename To, typename F, typename V> void fone(V v) { if (fits<To>(v) && static_cast<V>(static_cast<F>(v)) == v) { F f = static_cast<F>(v); nz_check(Nz::SafeCast<To>(f) == static_cast<To>(v), "a checked cast returns the integral value"); nz_check(Nz::SafeCast<To>(static_cast<F>(v)) == static_cast<To>(v), "a checked cast returns the integral value"); } }
	template<typename To, typename F> void faccept()
	{
		switch (nz_pick(14))
		{
			case 0: fone<To, F>(0); break; case 1: fone<To, F>(1); break; case 2: fone<To, F>(100); break; case 3: fone<To, F>(-1); break; case 4: fone<To, F>(-128); break; case 5: fone<To, F>(127); break; case 6: fone<To, F>(255); break;
			case 7: fone<To, F>(32767); break; case 8: fone<To, F>(65535); break; case 9: fone<To, F>(-32768); break; case 10: fone<To, F>(16777216); break; case 11: fone<To, F>(1ll << 40); break; case 12: fone<To, F>(std::numeric_limits<long long>::min()); break;
			default: fone<To, F>(1ull << 63); break;
		}
	}
	template<typename To, typename F> void ffraction() { F f = nz_pick(2) ? F(0.5) : F(1.25); nz_maystop(); (void) Nz::SafeCast<To>(f); nz_check(false, "a checked cast of a number with a fraction to an integer does not return"); }
	struct Root { virtual ~Root() {} int a = 1; }; struct Left : Root { int b = 2; }; struct Right : Root { int c = 3; }; struct Other { virtual ~Other() {} int d = 4; }; struct Both : Other, Left { int e = 5; }; struct Far : Both { int f = 6; };
	struct Plain { int a; }; struct PlainSub : Plain { int b; };
}
#define PAIRS(X, tag, F) X(i8_##tag, signed char, F) X(u8_##tag, unsigned char, F) X(i16_##tag, short, F) X(u16_##tag, unsigned short, F) X(i32_##tag, int, F) X(u32_##tag, unsigned int, F) X(i64_##tag, long long, F) X(u64_##tag, unsigned long, F) X(e8_##tag, E8, F) X(e8s_##tag, E8s, F) X(e32_##tag, E32, F) X(e64_##tag, E64, F)
#define CAST_ENTRY(tag, To, From) extern "C" void d_cast_##tag() { pair<To, From>(); } extern "C" void d_castbad_##tag() { badpair<To, From>(); }
PAIRS(CAST_ENTRY, i8, signed char) PAIRS(CAST_ENTRY, u8, unsigned char) PAIRS(CAST_ENTRY, i16, short) PAIRS(CAST_ENTRY, u16, unsigned short) PAIRS(CAST_ENTRY, i32, int) PAIRS(CAST_ENTRY, u32, unsigned int) PAIRS(CAST_ENTRY, i64, long long) PAIRS(CAST_ENTRY, u64, unsigned long) PAIRS(CAST_ENTRY, e8s, E8s) PAIRS(CAST_ENTRY, e64, E64)
#define FCAST_ENTRY(tag, To, F) extern "C" void d_frefuse_##tag() { frefuse<To, F>(); } extern "C" void d_faccept_##tag() { faccept<To, F>(); } extern "C" void d_ffraction_##tag() { ffraction<To, F>(); }
#define FPAIRS(X, tag, F) X(i8_##tag, signed char, F) X(u8_##tag, unsigned char, F) X(i16_##tag, short, F) X(u16_##tag, unsigned short, F) X(i32_##tag, int, F) X(u32_##tag, unsigned int, F) X(i64_##tag, long long, F) X(u64_##tag, unsigned long, F)
FPAIRS(FCAST_ENTRY, f32, float) FPAIRS(FCAST_ENTRY, f64, double)
extern "C"
{
	void d_caster() { switch (nz_pick(4)) { case 0: casterok<unsigned char, int>(); break; case 1: casterok<int, long long>(); break; case 2: casterok<unsigned int, short>(); break; default: casterok<E8, int>(); break; } }
	void d_caster_bad() { int v = outside<unsigned char, int>(); nz_maystop(); unsigned char r = Nz::SafeCaster(v); (void) r; nz_check(false, "a checked cast that changes the value does not return"); }
	void d_widen() { float f = nz_any_f32(); nz_assume(f == f); nz_assume((f <= std::numeric_limits<float>::max()) & (f >= std::numeric_limits<float>::lowest())); double r = Nz::SafeCast<double>(f); nz_check(r == static_cast<double>(f), "widening a number keeps it"); }
	void d_narrow_refuse() { double f = nz_any_f64(); nz_assume(!((f <= std::numeric_limits<float>::max()) & (f >= std::numeric_limits<float>::lowest()))); nz_maystop(); (void) Nz::SafeCast<float>(f); nz_check(false, "a checked cast to a floating-point type that cannot represent the number does not return"); }
	void d_narrow_accept() { double f = nz_any_f64(); nz_assume((f <= std::numeric_limits<float>::max()) & (f >= std::numeric_limits<float>::lowest())); (void) Nz::SafeCast<float>(f); nz_check(f == f, "a number in range is accepted"); }
	void d_down_pointer() { Left l; Root* r = &l; nz_check(Nz::SafeCast<Left*>(r) == &l && Nz::SafeCast<const Left*>(static_cast<const Root*>(r)) == &l && Nz::SafeCast<Root*>(&l) == r, "a checked downcast gives the object"); Root* n = nullptr; nz_check(Nz::SafeCast<Left*>(n) == nullptr, "a null pointer stays null"); }
	void d_down_reference() { Left l; Root& r = l; nz_check(&Nz::SafeCast<Left&>(r) == &l && &Nz::SafeCast<const Left&>(static_cast<const Root&>(r)) == &l && &Nz::SafeCast<Root&>(l) == &r, "a checked downcast gives the object"); }
	void d_down_multiple() { Far f; Root* r = &f; Other* o = &f; nz_check(Nz::SafeCast<Both*>(r) == static_cast<Both*>(&f) && Nz::SafeCast<Both*>(o) == static_cast<Both*>(&f) && Nz::SafeCast<Far*>(r) == &f && &Nz::SafeCast<Left&>(*r) == static_cast<Left*>(&f), "a checked downcast finds the object through several bases"); }
	void d_down_plain() { PlainSub s; Plain* p = &s; nz_check(Nz::SafeCast<PlainSub*>(p) == &s, "a cast between non-polymorphic types gives the object"); }
	void d_down_bad_pointer() { Left l; Root* r = &l; nz_maystop(); if (nz_pick(2)) (void) Nz::SafeCast<Right*>(r); else (void) Nz::SafeCast<Right*>(static_cast<Root*>(&l)); nz_check(false, "a checked downcast to another type does not return"); }
	void d_down_bad_reference() { Left l; Root& r = l; nz_maystop(); (void) Nz::SafeCast<Right&>(r); nz_check(false, "a checked downcast to another type does not return"); }
	void d_down_bad_base() { Root l; Root* r = &l; nz_maystop(); (void) Nz::SafeCast<Left*>(r); nz_check(false, "a checked downcast of a base object does not return"); }
	void d_down_bad_multiple() { Left l; Root* r = &l; nz_maystop(); (void) Nz::SafeCast<Both*>(r); nz_check(false, "a checked downcast to another type does not return"); }
	void d_unique() { std::unique_ptr<Root> r(new Left); Root* p = r.get(); std::unique_ptr<Left> l = Nz::StaticUniquePointerCast<Left>(std::move(r)); nz_check(l.get() == p && !r, "the pointer is handed over"); }
}
