#include "nz.hpp"
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/OffsetOf.hpp>
#include <map>
#include <string>
#include <array>
#include <vector>
using S = std::size_t;
namespace
{
#if __cplusplus >= 202002L
	using U8 = char8_t;
#else
	using U8 = char;
#endif
	using U8S = std::basic_string<U8>;
	using U8V = std::basic_string_view<U8>;
	template<typename T, typename F> bool same(const T* a, const F* b, S n)
	{
		S d = 0; for (S i = 0; i < n; ++i) d |= static_cast<unsigned char>(a[i]) ^ static_cast<unsigned char>(b[i]);
		return d == 0;
	}
	template<typename T, typename F> bool at(const T* a, const F* b, S i) { return static_cast<unsigned char>(a[i]) == static_cast<unsigned char>(b[i]); }
	struct Buf { char* p; S n; Buf(S k) : p(static_cast<char*>(nz_raw(k, 1, "b"))), n(k) {} U8* u() const { return reinterpret_cast<U8*>(p); } };
	struct Agg { std::uint32_t a; std::uint32_t b; };
	enum class E8 : std::uint8_t { A, B = 200 };
	enum class E64 : std::uint64_t { A };
	enum class EI : std::int16_t { A };
	struct Base { virtual ~Base() { nz_event(1, 0); } std::uint64_t v = 0; };
	struct Left { std::uint32_t l; std::uint8_t m; }; struct Right { std::uint64_t r; const std::uint16_t c; }; struct Both : Left, Right { std::uint8_t own; std::uint32_t arr[3]; };
	struct Abstract { std::uint64_t first; std::uint32_t second; virtual void f() = 0; }; struct Concrete : Abstract { void f() override {} std::uint8_t third; };
	template<typename T> struct Box { char tag; T value; std::array<T, 2> more; struct In { std::uint16_t x; T y; } in; };
	template<typename T, typename M> void offset(std::size_t o, T& t, M& m) { nz_check(o == static_cast<S>(reinterpret_cast<const volatile char*>(&m) - reinterpret_cast<const volatile char*>(&t)), "the offset of a member is its distance from the start of the object"); }
	struct Derived : Base { ~Derived() override { nz_event(2, v); } };
}
extern "C" {
	// views refer to the same memory, whatever their length
	void d_from_view() { Buf b(nz_any_size()); std::string_view v = Nz::FromUtf8String(U8V(b.u(), b.n)); nz_check(v.data() == b.p && v.size() == b.n, "a view from UTF-8 refers to the same bytes"); }
	void d_to_view() { Buf b(nz_any_size()); U8V v = Nz::ToUtf8String(std::string_view(b.p, b.n)); nz_check(v.data() == b.u() && v.size() == b.n, "a UTF-8 view refers to the same bytes"); }
	void d_from_view_null() { std::string_view v = Nz::FromUtf8String(U8V()); nz_check(v.empty(), "the empty view stays empty"); }
	void d_to_view_null() { U8V v = Nz::ToUtf8String(std::string_view()); nz_check(v.empty(), "the empty view stays empty"); }
#if __cplusplus >= 202002L
	void d_from_cstr() { S n = nz_any_size(); const char* p = nz_cstr(n, "b"); std::string_view v = Nz::FromUtf8String(reinterpret_cast<const char8_t*>(p)); nz_check(v.data() == p && v.size() == n, "the view of a string ends at its terminator"); }
	void d_to_cstr() { S n = nz_any_size(); const char* p = nz_cstr(n, "b"); U8V v = Nz::ToUtf8String(p); nz_check(v.data() == reinterpret_cast<const char8_t*>(p) && v.size() == n, "the view of a string ends at its terminator"); }
#define CSTR(N)
#else
#define CSTR(N) \
	void d_from_cstr##N() { const char* p = nz_cstr(N, "b"); std::string s = Nz::FromUtf8String(p); nz_check(s.size() == N && same(s.data(), p, N), "the string keeps length and bytes"); } \
	void d_to_cstr##N() { const char* p = nz_cstr(N, "b"); U8S s = Nz::ToUtf8String(p); nz_check(s.size() == N && same(s.data(), p, N), "the string keeps length and bytes"); }
#endif
#define STR(N) CSTR(N) \
	void d_from_string##N() { Buf b(N); U8S u(b.u(), N); std::string s = Nz::FromUtf8String(u); nz_check(s.size() == N && same(s.data(), b.p, N), "the string keeps length and bytes"); nz_check(u.size() == N && same(u.data(), b.p, N), "the source is left alone"); } \
	void d_to_string##N() { Buf b(N); std::string s(b.p, N); U8S u = Nz::ToUtf8String(s); nz_check(u.size() == N && same(u.data(), b.p, N), "the string keeps length and bytes"); nz_check(s.size() == N && same(s.data(), b.p, N), "the source is left alone"); } \
	void d_round##N() { Buf b(N); std::string s(b.p, N); nz_check(Nz::FromUtf8String(Nz::ToUtf8String(s)) == s, "a round trip gives the string back"); }
	STR(0) STR(1) STR(2) STR(7) STR(15) STR(16) STR(17) STR(40)
	void d_from_string_any() { Buf b(nz_any_size()); nz_assume(b.n > 0); nz_assume(b.n < 100000); U8S u(b.u(), b.n); std::string s = Nz::FromUtf8String(u); nz_check(s.size() == b.n, "the string keeps its length"); S i = nz_any_size(); nz_assume(i < b.n); nz_check(at(s.data(), b.p, i), "the string keeps every byte"); }
	void d_to_string_any() { Buf b(nz_any_size()); nz_assume(b.n > 0); nz_assume(b.n < 100000); std::string u(b.p, b.n); U8S s = Nz::ToUtf8String(u); nz_check(s.size() == b.n, "the string keeps its length"); S i = nz_any_size(); nz_assume(i < b.n); nz_check(at(s.data(), b.p, i), "the string keeps every byte"); }
	// typed access at an offset
	void d_access() { S n = nz_any_size(), o = nz_any_size(); nz_assume(o < n); Buf b(n); void* p = b.p; nz_check(Nz::AccessByOffset<char*>(p, o) == b.p + o && &Nz::AccessByOffset<char&>(p, o) == b.p + o, "access reaches base plus offset"); }
	void d_access_const() { S n = nz_any_size(), o = nz_any_size(); nz_assume(o < n); Buf b(n); const void* p = b.p; nz_check(Nz::AccessByOffset<const char*>(p, o) == b.p + o && &Nz::AccessByOffset<const char&>(p, o) == b.p + o, "access reaches base plus offset"); }
	void d_access_wide() { S n = nz_any_size(), o = nz_any_size(); nz_assume(o < n); std::uint32_t* b = static_cast<std::uint32_t*>(nz_raw(n, 4, "b")); nz_check(Nz::AccessByOffset<std::uint32_t*>(static_cast<void*>(b), o * 4) == b + o, "offsets count bytes"); nz_check(Nz::AccessByOffset<const std::uint32_t&>(static_cast<const void*>(b), o * 4) == nz_elem32("b", o), "the field is read"); std::uint32_t x = nz_any_u32(); Nz::AccessByOffset<std::uint32_t&>(static_cast<void*>(b), o * 4) = x; nz_check(b[o] == x, "the field is written"); }
	void d_access_zero() { Agg g{ nz_any_u32(), nz_any_u32() }; nz_check(Nz::AccessByOffset<std::uint32_t&>(&g, 0) == g.a && Nz::AccessByOffset<std::uint32_t&>(&g, 4) == g.b && static_cast<void*>(Nz::AccessByOffset<void*>(&g, 4)) == &g.b, "the fields are those of the structure"); }
	// bit casts
	void d_cast_f32() { std::uint32_t x = nz_any_u32(); nz_check(Nz::BitCast<std::uint32_t>(Nz::BitCast<float>(x)) == x, "bits are kept through a float"); }
	void d_cast_f64() { std::uint64_t x = nz_any_u64(); nz_check(Nz::BitCast<std::uint64_t>(Nz::BitCast<double>(x)) == x, "bits are kept through a double"); }
	void d_cast_signed() { std::uint64_t x = nz_any_u64(); nz_check(static_cast<std::uint64_t>(Nz::BitCast<std::int64_t>(x)) == x, "bits are kept through a signed integer"); std::uint16_t y = nz_any_u16(); nz_check(static_cast<std::uint16_t>(Nz::BitCast<std::int16_t>(y)) == y, "bits are kept through a narrow integer"); }
	void d_cast_struct() { Agg g{ nz_any_u32(), nz_any_u32() }; std::uint64_t w = Nz::BitCast<std::uint64_t>(g); nz_check(w == (g.a | static_cast<std::uint64_t>(g.b) << 32), "the bytes of the structure in order"); Agg h = Nz::BitCast<Agg>(w); nz_check(h.a == g.a && h.b == g.b, "a round trip gives the structure back"); }
	void d_cast_array() { std::uint32_t x = nz_any_u32(); auto a = Nz::BitCast<std::array<std::uint8_t, 4>>(x); nz_check(a[0] == (x & 255) && a[1] == (x >> 8 & 255) && a[2] == (x >> 16 & 255) && a[3] == (x >> 24), "the bytes of the integer in order"); }
	// pointers and integers
	void d_pointer() { Buf b(nz_any_size()); nz_assume(b.n > 0); auto i = Nz::PointerToInteger<std::uintptr_t>(b.p); nz_check(Nz::IntegerToPointer<char*>(i) == b.p, "a pointer survives the round trip"); nz_check(i == reinterpret_cast<std::uintptr_t>(b.p), "the integer is the address"); nz_check(Nz::IntegerToPointer<void*>(static_cast<unsigned long long>(i)) == b.p, "another integer type as wide"); }
	void d_pointer_const() { Buf b(4); const char* p = b.p; nz_check(Nz::IntegerToPointer<const char*>(Nz::PointerToInteger<std::uintptr_t>(p)) == p, "a pointer to const survives the round trip"); }
	void d_pointer_null() { char* p = nullptr; nz_check(Nz::PointerToInteger<std::uintptr_t>(p) == 0 && Nz::IntegerToPointer<char*>(0u) == nullptr && Nz::IntegerToPointer<char*>(std::uint8_t(0)) == nullptr, "the null pointer"); }
	void d_pointer_narrow() { std::uint32_t x = nz_any_u32(); nz_check(Nz::PointerToInteger<std::uint32_t>(Nz::IntegerToPointer<char*>(x)) == x && Nz::PointerToInteger<std::uint64_t>(Nz::IntegerToPointer<char*>(x)) == x, "an integer that fits survives the round trip"); }
	void d_integer() { std::uint64_t x = nz_any_u64(); nz_check(Nz::PointerToInteger<std::uint64_t>(Nz::IntegerToPointer<int*>(x)) == x, "an integer survives the round trip"); }
	// enumerations
	void d_underlying() { std::uint8_t a = nz_any_u8(); nz_check(Nz::UnderlyingCast(static_cast<E8>(a)) == a, "the value of a narrow enumerator"); std::uint64_t b = nz_any_u64(); nz_check(Nz::UnderlyingCast(static_cast<E64>(b)) == b, "the value of a wide enumerator"); std::int16_t c = nz_any_i16(); nz_check(Nz::UnderlyingCast(static_cast<EI>(c)) == c, "the value of a signed enumerator"); }
	void d_safecaster() { std::uint8_t a = nz_any_u8(); std::uint32_t r = Nz::SafeCaster(a); int q = Nz::SafeCaster(static_cast<E8>(a)); nz_check(r == a && q == a, "a deferred cast keeps the value"); }
	// construction in place
	void d_new() { S n = nz_any_size(), i = nz_any_size(); nz_assume(i < n); ProbeN* m = static_cast<ProbeN*>(nz_storage(n, sizeof(ProbeN), "m")); std::uint64_t x = nz_any_u64(); ProbeN* p = Nz::PlacementNew(m + i, x); nz_check(p == m + i && nz_alive(p) && nz_value(p) == x, "the object is built in place from its arguments"); Nz::PlacementDestroy(p); nz_check(!nz_alive(m + i), "the object is destroyed"); }
	void d_new_copy() { ProbeN* m = static_cast<ProbeN*>(nz_storage(2, sizeof(ProbeN), "m")); std::uint64_t x = nz_any_u64(); ProbeN* p = Nz::PlacementNew(m, x); ProbeN* q = Nz::PlacementNew(m + 1, static_cast<const ProbeN&>(*p)); nz_check(nz_value(q) == x && nz_value(p) == x && nz_valid(p), "an lvalue is copied"); Nz::PlacementDestroy(q); q = Nz::PlacementNew(m + 1, std::move(*p)); nz_check(nz_value(q) == x && nz_alive(p) && !nz_valid(p), "an rvalue is moved"); Nz::PlacementDestroy(p); Nz::PlacementDestroy(q); nz_check(!nz_alive(m) && !nz_alive(m + 1), "both are destroyed"); }
	void d_destroy_null() { Nz::PlacementDestroy(static_cast<Probe*>(nullptr)); nz_check(nz_evcount(1) == 0, "destroying nothing does nothing"); }
	void d_new_throw() { ProbeT* m = static_cast<ProbeT*>(nz_storage(1, sizeof(ProbeT), "m")); bool thrown = false; try { Nz::PlacementNew(m, nz_any_u64()); } catch (...) { thrown = true; } nz_check(nz_alive(m) == !thrown, "nothing is built when the constructor throws"); if (!thrown) Nz::PlacementDestroy(m); }
	void d_new_int() { std::uint64_t m = 1; std::uint64_t x = nz_any_u64(); nz_check(*Nz::PlacementNew(&m, x) == x && m == x, "an integer"); nz_check(*Nz::PlacementNew(&m) == 0, "value initialised"); Nz::PlacementDestroy(&m); }
	void d_new_sub() { std::uint32_t* b = static_cast<std::uint32_t*>(nz_raw(3, 4, "b")); std::uint32_t x = nz_any_u32(); Nz::PlacementNew(b + 1, x); nz_check(b[0] == nz_elem32("b", 0) && b[1] == x && b[2] == nz_elem32("b", 2), "neighbours are left alone"); }
	// lookups and ownership
	void d_count() { int a[7]; nz_check(Nz::CountOf(a) == 7, "elements of an array"); std::vector<int> v; nz_check(Nz::CountOf(v) == 0, "elements of a container"); Buf b(nz_any_size()); nz_check(Nz::CountOf(std::string_view(b.p, b.n)) == b.n, "characters of a view"); }
	void d_unique() { std::uint64_t x = nz_any_u64(); std::unique_ptr<Base> b; { auto d = std::make_unique<Derived>(); d->v = x; b = std::move(d); } Base* raw = b.get(); { std::unique_ptr<Derived> d = Nz::StaticUniquePointerCast<Derived>(std::move(b)); nz_check(!b && static_cast<Base*>(d.get()) == raw && d->v == x, "ownership of the same object is handed over"); nz_check(nz_evcount(1) == 0, "nothing is destroyed"); } nz_check(nz_evcount(1) == 1 && nz_evcount(2) == 1, "the object is destroyed once"); }
	void d_unique_null() { std::unique_ptr<Base> b; std::unique_ptr<Derived> d = Nz::StaticUniquePointerCast<Derived>(std::move(b)); nz_check(!d && !b, "nothing stays nothing"); }
	// offsets of members
	void d_offset_plain() { Agg a{}; offset(NazaraOffsetOf(Agg, a), a, a.a); offset(NazaraOffsetOf(Agg, b), a, a.b); }
	void d_offset_inherited() { Both b{ { 1, 2 }, { 3, 4 }, 5, {} }; offset(NazaraOffsetOf(Both, own), b, b.own); offset(NazaraOffsetOf(Both, l), b, b.l); offset(NazaraOffsetOf(Both, m), b, b.m); offset(NazaraOffsetOf(Both, r), b, b.r); offset(NazaraOffsetOf(Both, c), b, b.c); Right& r = b; offset(NazaraOffsetOf(Right, c), r, r.c); }
	void d_offset_array() { Both b{ { 1, 2 }, { 3, 4 }, 5, {} }; offset(NazaraOffsetOf(Both, arr), b, b.arr); }
	void d_offset_virtual() { Concrete c; offset(NazaraOffsetOf(Abstract, first), static_cast<Abstract&>(c), c.first); offset(NazaraOffsetOf(Abstract, second), static_cast<Abstract&>(c), c.second); offset(NazaraOffsetOf(Concrete, third), c, c.third); offset(NazaraOffsetOf(Concrete, second), c, c.second); }
	void d_offset_template() { Box<double> b{}; offset(NazaraOffsetOf(Box<double>, tag), b, b.tag); offset(NazaraOffsetOf(Box<double>, value), b, b.value); offset(NazaraOffsetOf(Box<double>, more), b, b.more); offset(NazaraOffsetOf(Box<double>, in), b, b.in); offset(NazaraOffsetOf(Box<double>::In, y), b.in, b.in.y); }
}
