// Every list of up to four types over a small alphabet, against independent definitions of the operations.
#include <NazaraUtils/TypeList.hpp>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
using Nz::TypeList;
struct Incomplete;
template<typename A, typename B> constexpr bool same = std::is_same_v<A, B>;
constexpr std::size_t None = std::size_t(-1);

// ---- alphabet: close relatives of one type, and types no object can have
template<std::size_t I> struct Letter; template<> struct Letter<0> { using type = int; }; template<> struct Letter<1> { using type = const int; }; template<> struct Letter<2> { using type = int&; }; template<> struct Letter<3> { using type = void; }; template<> struct Letter<4> { using type = Incomplete; };
constexpr std::size_t K = 3;
constexpr std::size_t pow(std::size_t n) { return n ? K * pow(n - 1) : 1; }
template<std::size_t N, std::size_t Code, std::size_t Shift, typename S = std::make_index_sequence<N>> struct Make;
template<std::size_t N, std::size_t Code, std::size_t Shift, std::size_t... I> struct Make<N, Code, Shift, std::index_sequence<I...>> { using type = TypeList<typename Letter<((Code / pow(I)) % K + Shift) % 5>::type...>; };

// ---- reference definitions
template<typename L> struct Ref;
template<typename... T> struct Ref<TypeList<T...>>
{
	static constexpr std::size_t size = sizeof...(T);
	template<typename X> static constexpr std::size_t find() { constexpr bool hit[] = { std::is_same_v<T, X>..., true }; std::size_t i = 0; while (!hit[i]) ++i; return i == size ? None : i; }
	template<typename X> static constexpr std::size_t count() { return (std::size_t(0) + ... + std::size_t(std::is_same_v<T, X>)); }
	template<std::size_t I> using at = std::tuple_element_t<I, std::tuple<T...>>;
};
template<typename... L> struct Cat; template<> struct Cat<> { using type = TypeList<>; }; template<typename... A> struct Cat<TypeList<A...>> { using type = TypeList<A...>; };
template<typename... A, typename... B, typename... R> struct Cat<TypeList<A...>, TypeList<B...>, R...> { using type = typename Cat<TypeList<A..., B...>, R...>::type; };
template<typename L, typename S = std::make_index_sequence<Ref<L>::size>> struct Firsts;
template<typename L, std::size_t... I> struct Firsts<L, std::index_sequence<I...>> { using type = typename Cat<std::conditional_t<Ref<L>::template find<typename Ref<L>::template at<I>>() == I, TypeList<typename Ref<L>::template at<I>>, TypeList<>>...>::type; };
template<typename L, typename X> struct Without; template<typename... T, typename X> struct Without<TypeList<T...>, X> { using type = typename Cat<std::conditional_t<std::is_same_v<T, X>, TypeList<>, TypeList<T>>...>::type; };
template<typename... T> struct Holder; template<typename T> struct Ptr { using type = std::add_pointer_t<T>; }; template<typename T> struct Const { using type = int; };
template<typename L> struct Map; template<typename... T> struct Map<TypeList<T...>> { using ptr = TypeList<std::add_pointer_t<T>...>; using one = TypeList<std::conditional_t<true, int, T>...>; using hold = Holder<T...>; using func = std::tuple<T...>*; };

// ---- one list
template<typename L, std::size_t... I> constexpr bool ats(std::index_sequence<I...>)
{
	static_assert((same<Nz::TypeListAt<L, I>, typename Ref<L>::template at<I>> && ...), "the type at index i is the i-th type");
	static_assert((same<Nz::TypeListRemove<L, typename Ref<L>::template at<I>>, typename Without<L, typename Ref<L>::template at<I>>::type> && ...), "removal removes every occurrence and nothing else");
	static_assert(((Nz::TypeListFind<L, typename Ref<L>::template at<I>> == Ref<L>::template find<typename Ref<L>::template at<I>>()) && ...), "search gives the first occurrence");
	static_assert((Nz::TypeListHas<L, typename Ref<L>::template at<I>> && ...), "a list has its types");
	return true;
}
template<typename L, typename X> constexpr bool with()
{
	static_assert(Nz::TypeListFind<L, X> == Ref<L>::template find<X>(), "search gives the first occurrence");
	static_assert(Nz::TypeListHas<L, X> == (Ref<L>::template count<X>() != 0), "membership");
	static_assert(same<Nz::TypeListAppend<L, X>, typename Cat<L, TypeList<X>>::type>, "append puts the type last");
	static_assert(same<Nz::TypeListPrepend<L, X>, typename Cat<TypeList<X>, L>::type>, "prepend puts the type first");
	static_assert(same<Nz::TypeListRemove<L, X>, typename Without<L, X>::type>, "removal removes every occurrence and nothing else");
	static_assert(!Nz::TypeListHas<Nz::TypeListRemove<L, X>, X> && Nz::TypeListHas<Nz::TypeListAppend<L, X>, X> && Nz::TypeListFind<Nz::TypeListPrepend<L, X>, X> == 0);
	return true;
}
template<typename L> constexpr bool one()
{
	static_assert(Nz::TypeListSize<L> == Ref<L>::size && Nz::TypeListEmpty<L> == (Ref<L>::size == 0), "size");
	static_assert(same<Nz::TypeListUnique<L>, typename Firsts<L>::type>, "uniqueness keeps the first occurrence of every type, in order");
	static_assert(same<Nz::TypeListTransform<L, Ptr>, typename Map<L>::ptr> && same<Nz::TypeListTransform<L, Const>, typename Map<L>::one>, "transformation maps every type");
	static_assert(same<Nz::TypeListInstantiate<L, Holder>, typename Map<L>::hold> && same<Nz::TypeListInstantiate<L, TypeList>, L>, "instantiation passes every type");
	static_assert(same<Nz::TypeListConcat<L, TypeList<>>, L> && same<Nz::TypeListConcat<TypeList<>, L>, L>, "the empty list is the identity of concatenation");
	static_assert(std::is_empty_v<L> && std::is_trivially_default_constructible_v<L>);
	return ats<L>(std::make_index_sequence<Ref<L>::size>()) && with<L, int>() && with<L, const int>() && with<L, int&>() && with<L, void>() && with<L, Incomplete>() && with<L, int&&>() && with<L, TypeList<>>() && with<L, L>();
}
template<typename A, typename B> constexpr bool two()
{
	static_assert(same<Nz::TypeListConcat<A, B>, typename Cat<A, B>::type>, "concatenation is the types of the one followed by those of the other");
	static_assert(same<Nz::TypeListConcat<Nz::TypeListConcat<A, B>, A>, Nz::TypeListConcat<A, Nz::TypeListConcat<B, A>>>, "concatenation is associative");
	static_assert(same<Nz::TypeListUnique<Nz::TypeListConcat<A, B>>, typename Firsts<typename Cat<A, B>::type>::type>);
	return true;
}
template<std::size_t N, std::size_t Shift, std::size_t... C> constexpr bool ones(std::index_sequence<C...>) { return (one<typename Make<N, C, Shift>::type>() && ...); }
template<typename A, std::size_t M, std::size_t... C> constexpr bool pairs1(std::index_sequence<C...>) { return (two<A, typename Make<M, C, 2>::type>() && ...); }
template<std::size_t N, std::size_t M, std::size_t... C> constexpr bool pairs(std::index_sequence<C...>) { return (pairs1<typename Make<N, C, 0>::type, M>(std::make_index_sequence<pow(M)>()) && ...); }
template<std::size_t N, std::size_t Shift> constexpr bool all = ones<N, Shift>(std::make_index_sequence<pow(N)>());
template<std::size_t N, std::size_t M> constexpr bool allp = pairs<N, M>(std::make_index_sequence<pow(N)>());
static_assert(all<0, 0> && all<1, 0> && all<2, 0> && all<3, 0> && all<4, 0>);
static_assert(all<1, 2> && all<2, 2> && all<3, 2>);
static_assert(allp<0, 0> && allp<0, 2> && allp<2, 0> && allp<1, 1> && allp<1, 2> && allp<2, 1> && allp<2, 2> && allp<3, 2> && allp<2, 3>);
// ---- long lists
template<std::size_t I> struct N {};
template<typename S> struct Long; template<std::size_t... I> struct Long<std::index_sequence<I...>> { using type = TypeList<N<I>...>; using twice = TypeList<N<I>..., N<I>...>; static constexpr bool found = ((Nz::TypeListFind<type, N<I>> == I) && ...); static constexpr bool at = (same<Nz::TypeListAt<type, I>, N<I>> && ...); };
using L100 = Long<std::make_index_sequence<100>>;
static_assert(L100::found && L100::at && same<Nz::TypeListUnique<L100::twice>, L100::type> && same<Nz::TypeListConcat<L100::type, L100::type>, L100::twice> && Nz::TypeListSize<L100::twice> == 200 && !Nz::TypeListHas<L100::type, N<100>> && same<Nz::TypeListUnique<L100::type>, L100::type> && Nz::TypeListSize<Nz::TypeListRemove<L100::twice, N<50>>> == 198);
// ---- instantiation of ordinary templates
static_assert(same<Nz::TypeListInstantiate<TypeList<int, char, double>, std::variant>, std::variant<int, char, double>> && same<Nz::TypeListInstantiate<TypeList<int, char>, std::tuple>, std::tuple<int, char>> && same<Nz::TypeListInstantiate<TypeList<>, std::tuple>, std::tuple<>>);
// ---- out of range
#ifdef FAIL_at_empty
using X = Nz::TypeListAt<TypeList<>, 0>; X* x;
#endif
#ifdef FAIL_at_one
using X = Nz::TypeListAt<TypeList<int>, 1>; X* x;
#endif
#ifdef FAIL_at_two
using X = Nz::TypeListAt<TypeList<int, char>, 2>; X* x;
#endif
#ifdef FAIL_at_far
using X = Nz::TypeListAt<TypeList<int, char>, 700>; X* x;
#endif
#ifdef FAIL_not_a_list
constexpr auto x = Nz::TypeListSize<std::tuple<int>>;
#endif
int main() {}
