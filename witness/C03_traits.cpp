// Function and type traits, for every combination of qualifiers.
#include <NazaraUtils/Concepts.hpp>
#include <NazaraUtils/FunctionTraits.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <variant>
template<typename A, typename B> constexpr bool same = std::is_same_v<A, B>;
struct Incomplete; struct MoveOnly { MoveOnly(MoveOnly&&); };
struct C {};

// ---- function traits: the signature, whatever surrounds it
template<typename Tr, typename R, typename... A, std::size_t... I> constexpr bool args(std::index_sequence<I...>)
{
	static_assert((same<typename Tr::template ArgType<I>, std::tuple_element_t<I, std::tuple<A...>>> && ...), "argument types");
	static_assert((same<typename Tr::template Arg<I>::type, std::tuple_element_t<I, std::tuple<A...>>> && ...), "argument types");
	return true;
}
template<typename F, typename R, typename... A> constexpr bool sig()
{
	using Tr = Nz::FunctionTraits<F>;
	static_assert(same<typename Tr::ReturnType, R>, "return type");
	static_assert(same<typename Tr::ArgTypes, Nz::TypeList<A...>>, "argument types");
	static_assert(Tr::ArgCount == sizeof...(A), "argument count");
	static_assert(same<typename Tr::FuncType, R(A...)>, "signature");
	return args<Tr, R, A...>(std::make_index_sequence<sizeof...(A)>());
}
// every reference to and const of a callable type names the same signature
template<typename F, typename R, typename... A> constexpr bool sigs() { return sig<F, R, A...>() && sig<const F, R, A...>() && sig<F&, R, A...>() && sig<const F&, R, A...>() && sig<F&&, R, A...>() && sig<const F&&, R, A...>(); }
// as a free function, a pointer to one, and a reference to one
template<typename R, typename... A> constexpr bool free()
{
	return sig<R(A...), R, A...>() && sig<R(A...) noexcept, R, A...>() && sig<R(&)(A...), R, A...>() && sig<R(&&)(A...), R, A...>() && sig<R(&)(A...) noexcept, R, A...>() && sigs<R(*)(A...), R, A...>() && sigs<R(*)(A...) noexcept, R, A...>();
}
#define QUALS(X) X() X(&) X(&&) X(const) X(const&) X(const&&) X(volatile) X(volatile&) X(volatile&&) X(const volatile) X(const volatile&) X(const volatile&&) \
	X(noexcept) X(& noexcept) X(&& noexcept) X(const noexcept) X(const& noexcept) X(const&& noexcept) X(volatile noexcept) X(volatile& noexcept) X(volatile&& noexcept) X(const volatile noexcept) X(const volatile& noexcept) X(const volatile&& noexcept)
#define NV_QUALS(X) X(, a) X(&, b) X(&&, c) X(const, d) X(const&, e) X(const&&, f) X(noexcept, g) X(& noexcept, h) X(&& noexcept, i) X(const noexcept, j) X(const& noexcept, k) X(const&& noexcept, l)
// as a member function pointer, and as a functor, with every qualifier
template<typename R, typename... A> constexpr bool member()
{
	return true
#define X(q) && sigs<R(C::*)(A...) q, R, A...>() && sig<R(Incomplete::*)(A...) q, R, A...>()
	QUALS(X)
#undef X
	;
}
template<typename R, typename... A> constexpr bool functor()
{
	bool ok = true;
#define X(q) { struct F { R operator()(A...) q; int other(char); int data; }; static_assert(sigs<F, R, A...>() && sig<decltype(&F::operator()), R, A...>()); static_assert(Nz::IsFunctor_v<F> && Nz::IsFunctor<F>::value && Nz::IsFunctor_v<const F>); static_assert(Nz::IsFunctor_v<decltype(&F::operator())>); }
	QUALS(X)
#undef X
	struct Derived : std::conditional_t<true, C, int> { R operator()(A...) const; }; struct Final final { R operator()(A...); }; struct Static { virtual R operator()(A...) = 0; };
	return ok && sigs<Derived, R, A...>() && sigs<Final, R, A...>() && sig<Static, R, A...>();
}
template<typename R, typename... A> constexpr bool every() { return free<R, A...>() && member<R, A...>() && functor<R, A...>(); }
static_assert(every<void>() && every<int>() && every<int&>() && every<int&&>() && every<const int&>() && every<MoveOnly>() && every<std::string>() && every<void*>() && every<void(*)(int)>() && every<int(C::*)(int) const>());
static_assert(every<void, int>() && every<int, int&>() && every<int&, int&&>() && every<void, const int&>() && every<bool, MoveOnly>() && every<bool, MoveOnly&&>() && every<void, std::string, const std::string&, std::string&&>() && every<void, void(*)(int), int C::*, int(C::*)(char) noexcept>());
static_assert(every<int, char, char>() && every<int, int, char>() && every<int, char, int>() && every<char, const char*, char* const*, int(&)[3], const int(*)[2]>() && every<long, int, unsigned, long, unsigned long, bool>() && every<double, const volatile int&, volatile int*, std::nullptr_t, float, double, char, signed char, unsigned char>());
static_assert(free<const int>() && free<Incomplete>() && free<Incomplete, Incomplete>() && free<int, Incomplete&, Incomplete*>() && member<Incomplete, Incomplete>());
static_assert(sig<void(const int, int[4], void(int)), void, int, int*, void(*)(int)>(), "parameters have their adjusted types");
constexpr auto lambda = [](int, const std::string&) -> long { return 0; }; constexpr auto mlambda = [](char&) mutable noexcept {}; 
static_assert(sigs<std::remove_const_t<decltype(lambda)>, long, int, const std::string&>() && sigs<std::remove_const_t<decltype(mlambda)>, void, char&>() && sigs<std::function<int(char&&)>, int, char&&>());
#ifdef FAIL_arg_out_of_range
Nz::FunctionTraits<void(int)>::ArgType<1>* x;
#endif
#ifdef FAIL_arg_of_nothing
Nz::FunctionTraits<void()>::ArgType<0>* x;
#endif
#ifdef FAIL_traits_of_int
Nz::FunctionTraits<int>::ReturnType* x;
#endif
// ---- functors
struct Plain { int x; void f(); }; union U { int a; }; enum E0 {}; enum class E1 { A }; struct Private { private: void operator()(); };
static_assert(Nz::IsFunctor_v<void()> && Nz::IsFunctor_v<int(int, char) noexcept> && Nz::IsFunctor_v<decltype(lambda)> && Nz::IsFunctor_v<std::function<void()>>);
static_assert(!Nz::IsFunctor_v<int> && !Nz::IsFunctor_v<void> && !Nz::IsFunctor_v<int*> && !Nz::IsFunctor_v<Plain> && !Nz::IsFunctor_v<U> && !Nz::IsFunctor_v<E0> && !Nz::IsFunctor_v<E1> && !Nz::IsFunctor_v<int Plain::*> && !Nz::IsFunctor_v<int[3]> && !Nz::IsFunctor_v<std::nullptr_t> && !Nz::IsFunctor_v<Private> && !Nz::IsFunctor_v<std::string>);
#ifdef NAZARA_HAS_CONCEPTS
static_assert(Nz::Functor<void()> && Nz::Functor<decltype(lambda)> && !Nz::Functor<int> && !Nz::Functor<Plain>);
#endif
// ---- overload selection: among overloads for each parameter list and each qualifier, the one named
template<typename... A> struct Sig {};
struct Over
{
	char m(); short m(int); int m(int, char); long m(const std::string&); float m(int&); double m(int*);
	template<int> void noise();
};
static_assert(same<decltype(Nz::Overload<>(&Over::m)), char(Over::*)()> && same<decltype(Nz::Overload<int>(&Over::m)), short(Over::*)(int)> && same<decltype(Nz::Overload<int, char>(&Over::m)), int(Over::*)(int, char)> && same<decltype(Nz::Overload<const std::string&>(&Over::m)), long(Over::*)(const std::string&)> && same<decltype(Nz::Overload<int&>(&Over::m)), float(Over::*)(int&)> && same<decltype(Nz::Overload<int*>(&Over::m)), double(Over::*)(int*)>);
static_assert(Nz::Overload<>(&Over::m) == static_cast<char(Over::*)()>(&Over::m) && Nz::Overload<int>(&Over::m) == static_cast<short(Over::*)(int)>(&Over::m) && Nz::Overload<int*>(&Over::m) == static_cast<double(Over::*)(int*)>(&Over::m));
// one overload set per qualifier, over the same parameter lists
#define X(q, n) struct Q##n { char m() q; short m(int) q; int m(int, char) q; long m(const std::string&) q; }; \
	static_assert(same<decltype(Nz::Overload<>(&Q##n::m)), char(Q##n::*)() q> && same<decltype(Nz::Overload<int>(&Q##n::m)), short(Q##n::*)(int) q> && same<decltype(Nz::Overload<int, char>(&Q##n::m)), int(Q##n::*)(int, char) q> && same<decltype(Nz::Overload<const std::string&>(&Q##n::m)), long(Q##n::*)(const std::string&) q>); \
	static_assert(Nz::Overload<int>(&Q##n::m) == static_cast<short(Q##n::*)(int) q>(&Q##n::m)); static_assert(noexcept(Nz::Overload<int>(&Q##n::m)));
NV_QUALS(X)
#undef X
char f(); short f(int); int f(int, char) noexcept; long f(const std::string&); 
static_assert(same<decltype(Nz::Overload<>(&f)), char(*)()> && same<decltype(Nz::Overload<int>(&f)), short(*)(int)> && same<decltype(Nz::Overload<int, char>(&f)), int(*)(int, char) noexcept> && same<decltype(Nz::Overload<const std::string&>(&f)), long(*)(const std::string&)> && same<decltype(Nz::Overload<int>(f)), short(*)(int)>);
static_assert(Nz::Overload<int>(&f) == static_cast<short(*)(int)>(&f) && Nz::Overload<>(&f) == static_cast<char(*)()>(&f));
struct Statics { static char m(); static short m(int) noexcept; int m(char); int m(char) const = delete; };
static_assert(same<decltype(Nz::Overload<>(&Statics::m)), char(*)()> && same<decltype(Nz::Overload<int>(&Statics::m)), short(*)(int) noexcept>);
#ifdef FAIL_no_such_overload
auto x = Nz::Overload<void*>(&f);
#endif
#ifdef FAIL_too_many
auto x = Nz::Overload<int, int>(&Over::m);
#endif
#ifdef FAIL_convertible_is_not_same
auto x = Nz::Overload<short>(&f);
#endif
// ---- function pointers
template<typename R, typename... A> constexpr bool fp() { return same<Nz::FunctionPtr<R(A...)>, R(*)(A...)> && same<Nz::FunctionPtr<R(A...) noexcept>, R(*)(A...) noexcept>; }
static_assert(fp<void>() && fp<int, char>() && fp<int&, char&&, const std::string&>() && fp<MoveOnly, MoveOnly>() && fp<void, int(*)(int)>());
#ifdef FAIL_fp_of_object
Nz::FunctionPtr<int>* x;
#endif
#ifdef FAIL_fp_of_pointer
Nz::FunctionPtr<void(*)()>* x;
#endif
// ---- enumerations
enum class CountA { A, B, C, Count }; enum class MaxA { A, B, Max = B }; enum MaxU { UA, UB, UC, Max = UC }; enum class Count0 { Count }; enum class Max0 { A, Max = A }; enum class Count8 : unsigned char { A, Count = 255 }; enum class Max8 : unsigned char { A, Max = 255 }; enum class MaxS : signed char { A, Max = 127 }; enum class Max16 : unsigned short { Max = 65535 }; enum class Max32 : unsigned { Max = 0xFFFFFFFF }; enum class MaxI : int { Max = 0x7FFFFFFF }; enum class Count64 : unsigned long long { Count = 0x123456789ABCULL };
static_assert(Nz::EnumValueCount_v<CountA> == 3 && Nz::EnumValueCount_v<MaxA> == 2 && Nz::EnumValueCount_v<MaxU> == 3 && Nz::EnumValueCount_v<Count0> == 0 && Nz::EnumValueCount_v<Max0> == 1 && Nz::EnumValueCount_v<Count8> == 255 && Nz::EnumValueCount_v<Max8> == 256 && Nz::EnumValueCount_v<MaxS> == 128 && Nz::EnumValueCount_v<Max16> == 65536 && Nz::EnumValueCount_v<Max32> == 0x100000000ULL && Nz::EnumValueCount_v<MaxI> == 0x80000000ULL && Nz::EnumValueCount_v<Count64> == 0x123456789ABCULL && Nz::EnumValueCount<CountA>::value == 3);
static_assert(same<std::remove_const_t<decltype(Nz::EnumValueCount_v<CountA>)>, std::size_t>);
#ifdef FAIL_enum_without_count
enum class NoCount { A, B }; constexpr auto x = Nz::EnumValueCount_v<NoCount>;
#endif
#ifdef FAIL_count_of_class
struct NotEnum { static constexpr int Max = 3; }; constexpr auto x = Nz::EnumValueCount_v<NotEnum>;
#endif
#ifdef FAIL_count_of_class2
struct NotEnum { static constexpr int Count = 3; }; constexpr auto x = Nz::EnumValueCount_v<NotEnum>;
#endif
// ---- completeness
struct Later; template<typename T> struct Undefined; template<typename T> struct Defined { T x; }; enum Opaque : int; 
static_assert(!Nz::IsComplete_v<Incomplete> && !Nz::IsComplete_v<const Incomplete> && !Nz::IsComplete_v<Undefined<int>> && !Nz::IsComplete_v<int[]> && !Nz::IsComplete_v<Incomplete[3]> && !Nz::IsComplete<Incomplete>::value);
static_assert(Nz::IsComplete_v<int> && Nz::IsComplete_v<const C> && Nz::IsComplete_v<Defined<int>> && Nz::IsComplete_v<int[3]> && Nz::IsComplete_v<int*> && Nz::IsComplete_v<Incomplete*> && Nz::IsComplete_v<U> && Nz::IsComplete_v<E1> && Nz::IsComplete_v<Opaque> && Nz::IsComplete_v<std::string> && Nz::IsComplete_v<volatile int> && Nz::IsComplete<C>::value && Nz::IsComplete_v<int C::*>);
// ---- first type of a pack
static_assert(Nz::IsFirstType_v<int, int> && Nz::IsFirstType_v<int, int, char> && Nz::IsFirstType_v<int, int, int> && Nz::IsFirstType_v<void, void> && Nz::IsFirstType<int&, int&, char>::value);
static_assert(!Nz::IsFirstType_v<int> && !Nz::IsFirstType_v<int, char> && !Nz::IsFirstType_v<int, char, int> && !Nz::IsFirstType_v<int, const int> && !Nz::IsFirstType_v<int, int&> && !Nz::IsFirstType_v<int&, int> && !Nz::IsFirstType_v<int*, const int*>);
// ---- pointers
template<typename T> constexpr bool pointed() { return same<typename Nz::PointedType<T*>::type, T> && same<typename Nz::PointedType<T* const>::type, T> && same<typename Nz::PointedType<T* volatile>::type, T> && same<typename Nz::PointedType<T* const volatile>::type, T> && same<Nz::Pointer<T>, T*>; }
static_assert(pointed<int>() && pointed<const int>() && pointed<volatile int>() && pointed<const volatile int>() && pointed<int*>() && pointed<int* const>() && pointed<void>() && pointed<const void>() && pointed<Incomplete>() && pointed<void(int)>() && pointed<int[3]>() && pointed<int[]>());
#ifdef FAIL_pointed_int
Nz::PointedType<int>::type* x;
#endif
#ifdef FAIL_pointed_ref
Nz::PointedType<int*&>::type* x;
#endif
#ifdef FAIL_pointed_unique
Nz::PointedType<std::unique_ptr<int>>::type* x;
#endif
// ---- qualifiers removed
template<typename T> constexpr bool bare()
{
	return same<Nz::RemoveCvRef_t<T>, T> && same<Nz::RemoveCvRef_t<const T>, T> && same<Nz::RemoveCvRef_t<volatile T>, T> && same<Nz::RemoveCvRef_t<const volatile T>, T> && same<Nz::RemoveCvRef_t<T&>, T> && same<Nz::RemoveCvRef_t<const T&>, T> && same<Nz::RemoveCvRef_t<volatile T&>, T> && same<Nz::RemoveCvRef_t<T&&>, T> && same<Nz::RemoveCvRef_t<const T&&>, T> && same<Nz::RemoveCvRef_t<const volatile T&&>, T> && same<typename Nz::RemoveCvRef<const T&>::type, T>;
}
static_assert(bare<int>() && bare<C>() && bare<Incomplete>() && bare<int*>() && bare<const int*>() && bare<int[3]>() && bare<std::string>() && same<Nz::RemoveCvRef_t<void>, void> && same<Nz::RemoveCvRef_t<const void>, void> && same<Nz::RemoveCvRef_t<void(int)>, void(int)> && same<Nz::RemoveCvRef_t<void(&)(int)>, void(int)>);
// ---- constructors that must not hide the copy and the move
template<typename, typename T, typename... A> struct Hidden : std::true_type {}; template<typename T, typename... A> struct Hidden<std::void_t<Nz::PreventHiddenCopyMove<T, A...>>, T, A...> : std::false_type { static_assert(std::is_void_v<Nz::PreventHiddenCopyMove<T, A...>>); };
template<typename T, typename... A> constexpr bool hidden = Hidden<void, T, A...>::value;
static_assert(hidden<C, C> && hidden<C, C&> && hidden<C, const C&> && hidden<C, C&&> && hidden<C, const C> && hidden<C, const C&&> && hidden<C, volatile C&>);
static_assert(!hidden<C> && !hidden<C, int> && !hidden<C, C*> && !hidden<C, C&, int> && !hidden<C, C, C> && !hidden<C, const C&, const C&> && !hidden<C, Plain&> && !hidden<C, int, C>);
struct Greedy { template<typename... A, typename = Nz::PreventHiddenCopyMove<Greedy, A...>> explicit Greedy(A&&...) = delete; Greedy(const Greedy&); Greedy(Greedy&&) noexcept; };
static_assert(std::is_copy_constructible_v<Greedy> && std::is_constructible_v<Greedy, Greedy&> && std::is_nothrow_move_constructible_v<Greedy> && !std::is_constructible_v<Greedy, int>);
// ---- the rest
static_assert(!Nz::AlwaysFalse<int>::value && !Nz::AlwaysFalse<void>::value && !Nz::AlwaysFalse<Incomplete>() && !Nz::AlwaysFalseValue<3>::value && !Nz::AlwaysFalseValue<E1::A>::value && !Nz::AlwaysFalseValue<false>() && !Nz::AlwaysFalseValue<true>());
static_assert(same<Nz::LazyVoid_t<int>, void> && same<Nz::LazyVoid_t<Incomplete>, void> && same<Nz::LazyVoid<int&>::type, void>);
static_assert(same<Nz::TypeTag<int>::Type, int> && same<Nz::TypeTag<const int&>::Type, const int&> && same<Nz::TypeTag<void>::Type, void> && same<Nz::TypeTag<Incomplete>::Type, Incomplete> && std::is_empty_v<Nz::TypeTag<int>> && !same<Nz::TypeTag<int>, Nz::TypeTag<const int>>);
auto overloaded() { return Nz::Overloaded{ [](int) { return 'c'; }, [](const std::string&) { return 1; }, [](auto*) { return 2.0; } }; }
using Ov = decltype(overloaded());
static_assert(same<std::invoke_result_t<Ov, int>, char> && same<std::invoke_result_t<Ov, std::string>, int> && same<std::invoke_result_t<Ov, const char*>, int> == false && same<std::invoke_result_t<Ov, int*>, double> && !std::is_invocable_v<Ov, C>);
#ifdef NAZARA_HAS_STD_CONCEPTS
template<typename T> constexpr bool ar = Nz::Arithmetic<T>;
static_assert(ar<int> && ar<bool> && ar<char> && ar<wchar_t> && ar<float> && ar<long double> && ar<unsigned long long> && ar<const int> && !ar<int*> && !ar<E1> && !ar<E0> && !ar<void> && !ar<C> && !ar<int&> && !ar<std::nullptr_t>);
#endif
int main() {}
