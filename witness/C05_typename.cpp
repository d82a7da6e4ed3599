// The name of a type is that type, complete, and nothing else.
#include <NazaraUtils/TypeName.hpp>
#include <array>
#include <map>
#include <string>
#include <vector>
// spelling, but for spaces
constexpr bool eq(std::string_view a, std::string_view b)
{
	std::size_t i = 0, j = 0;
	for (;;)
	{
		while (i < a.size() && a[i] == ' ') ++i;
		while (j < b.size() && b[j] == ' ') ++j;
		if (i == a.size() || j == b.size()) return i == a.size() && j == b.size();
		if (a[i++] != b[j++]) return false;
	}
}
template<std::size_t N> struct Buf { char c[N + 1] = {}; std::size_t n = 0; constexpr void add(std::string_view s) { for (char x : s) c[n++] = x; } constexpr std::string_view view() const { return { c, n }; } };
struct S {}; union U { int i; }; enum E0 { e0 }; enum class E1 { A }; struct Incomplete; class K {};
struct AVeryLongNameOfAStructureDeclaredAtGlobalScopeSoThatItsNameIsLongerThanTheRestOfTheSignatureOfTheFunctionThatNamesIt {};
namespace ns { struct S {}; namespace inner { class Class {}; enum class Enumeration { A }; template<typename T> struct W {}; template<typename... T> struct P {}; template<int I> struct I_ {}; } struct AVeryLongNameInsideOfANamespaceWhichIsLongerThanTheEndOfTheSignature {}; }
struct Outer { struct Inner {}; enum class E { A }; template<typename T> struct W {}; };
template<typename T> struct W {}; template<typename A, typename B> struct P {};
template<typename T> constexpr std::string_view name = Nz::TypeName<T>();
// exact names
#define N(...) static_assert(eq(name<__VA_ARGS__>, #__VA_ARGS__), #__VA_ARGS__)
N(int); N(char); N(bool); N(float); N(double); N(void); N(unsigned int); N(S); N(U); N(E0); N(E1); N(K); N(Incomplete); N(ns::S); N(ns::inner::Class); N(ns::inner::Enumeration); N(Outer); N(Outer::Inner); N(Outer::E);
N(AVeryLongNameOfAStructureDeclaredAtGlobalScopeSoThatItsNameIsLongerThanTheRestOfTheSignatureOfTheFunctionThatNamesIt); N(ns::AVeryLongNameInsideOfANamespaceWhichIsLongerThanTheEndOfTheSignature);
N(W<int>); N(W<S>); N(P<S, K>); N(P<W<S>, W<W<K>>>); N(ns::inner::W<ns::S>); N(ns::inner::P<>); N(ns::inner::P<S>); N(ns::inner::P<S, K, ns::S>); N(Outer::W<Outer::Inner>); N(W<void>); N(W<AVeryLongNameOfAStructureDeclaredAtGlobalScopeSoThatItsNameIsLongerThanTheRestOfTheSignatureOfTheFunctionThatNamesIt>);
N(P<ns::AVeryLongNameInsideOfANamespaceWhichIsLongerThanTheEndOfTheSignature, ns::AVeryLongNameInsideOfANamespaceWhichIsLongerThanTheEndOfTheSignature>);
N(int*); N(S&); N(S&&); N(const S); N(const S&); N(S**); N(volatile S); N(const W<S>&);
// the name is not shortened nor extended, whatever its length: wrapping a type wraps its name
template<typename T> constexpr bool wraps()
{
	Buf<name<T>.size() * 2 + 64> a; a.add("W<"); a.add(name<T>); a.add(">");
	Buf<name<T>.size() * 2 + 64> b; b.add("P<"); b.add(name<T>); b.add(","); b.add(name<T>); b.add(">");
	Buf<name<T>.size() * 2 + 64> c; c.add("ns::inner::W<"); c.add(name<T>); c.add(">");
	return eq(name<W<T>>, a.view()) && eq(name<P<T, T>>, b.view()) && eq(name<ns::inner::W<T>>, c.view());
}
template<typename T, std::size_t D> struct Deep { using type = W<typename Deep<T, D - 1>::type>; }; template<typename T> struct Deep<T, 0> { using type = T; };
template<typename T, std::size_t... D> constexpr bool every(std::index_sequence<D...>) { return (wraps<typename Deep<T, D>::type>() && ...); }
template<typename T> constexpr bool all = every<T>(std::index_sequence<0, 1, 2, 3, 5, 9, 14, 21>());
static_assert(all<int> && all<S> && all<ns::inner::Class> && all<void> && all<const char*> && all<int&> && all<ns::inner::Enumeration> && all<int(*)(int)> && all<int(S::*)(char) const> && all<S[3]> && all<ns::inner::I_<42>>);
static_assert(wraps<std::array<int, 3>>() && wraps<std::vector<int>>() && wraps<std::pair<std::vector<int>, std::map<int, S>>>());
// different types, different names
template<typename... T> constexpr bool distinct() { constexpr std::string_view n[] = { name<T>... }; for (std::size_t i = 0; i < sizeof...(T); ++i) { if (n[i].empty() || n[i].front() == ' ' || n[i].back() == ' ') return false; for (std::size_t j = 0; j < i; ++j) if (n[i] == n[j]) return false; } return true; }
static_assert(distinct<int, const int, int&, int&&, int*, const int*, int* const, unsigned int, long, unsigned long, short, char, signed char, unsigned char, S, ns::S, Outer, Outer::Inner, W<int>, W<const int>, W<W<int>>, P<int, S>, P<S, int>, ns::inner::W<int>, Outer::W<int>, int[3], int[4], int(int), int(*)(int), ns::inner::I_<1>, ns::inner::I_<2>, ns::inner::P<>, ns::inner::P<int>, ns::inner::P<int, int>, std::string_view, std::string, std::vector<std::string_view>>());
// names that contain what surrounds a name in the signature
template<typename T> struct T_ {}; struct T {}; namespace with { struct T {}; }
N(T_<T>); N(T); N(with::T);
static_assert(name<int> == "int" && name<S> == "S" && name<ns::S> == "ns::S" && (name<const int*> == "const int*" || name<const int*> == "const int *"));
static_assert(std::is_same_v<decltype(Nz::TypeName<int>()), std::string_view>);
int main() {}
