// Every iterator of the library against the standard's requirements on iterators of the category it declares.
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <algorithm>
#include <iterator>
#include <numeric>
#include <string>
#include <type_traits>
#include <vector>
enum class E { A, B, C, Max = C };
namespace Nz { template<> struct EnumAsFlags<E> { static constexpr E max = E::C; }; }
template<class I, class = void> struct HasTraits : std::false_type {};
template<class I> struct HasTraits<I, std::void_t<typename std::iterator_traits<I>::iterator_category, typename std::iterator_traits<I>::value_type,
	typename std::iterator_traits<I>::difference_type, typename std::iterator_traits<I>::pointer, typename std::iterator_traits<I>::reference>> : std::true_type {};
template<class I, class = void> struct Arrow : std::false_type { using type = void; };
template<class I> struct Arrow<I, std::void_t<decltype(std::declval<const I&>().operator->())>> : std::true_type { using type = decltype(std::declval<const I&>().operator->()); };
template<class I, class C> constexpr bool Is = std::is_base_of_v<C, typename std::iterator_traits<I>::iterator_category>;
template<class T> using Bare = std::remove_cv_t<std::remove_reference_t<T>>;

template<class I> constexpr bool Input()
{
	using Tr = std::iterator_traits<I>;
	static_assert(HasTraits<I>::value, "the standard library finds the traits of the iterator");
	static_assert(std::is_same_v<typename Tr::reference, decltype(*std::declval<I&>())>, "reference is what dereferencing gives");
	static_assert(std::is_same_v<typename Tr::reference, decltype(*std::declval<const I&>())>, "reference is what dereferencing a const iterator gives");
	static_assert(std::is_signed_v<typename Tr::difference_type> && sizeof(typename Tr::difference_type) == sizeof(std::ptrdiff_t), "differences are signed and wide enough");
	static_assert(std::is_convertible_v<typename Tr::reference, Bare<typename Tr::value_type>>, "an element converts to the value type");
	static_assert(std::is_pointer_v<I> || !Arrow<I>::value || std::is_same_v<typename Arrow<I>::type, typename Tr::pointer>, "pointer is what the arrow gives");
	if constexpr (std::is_reference_v<typename Tr::reference>)
	{
		static_assert(std::is_same_v<Bare<typename Tr::value_type>, Bare<typename Tr::reference>>, "the value type is the type of the elements");
		static_assert(std::is_same_v<typename Tr::pointer, std::remove_reference_t<typename Tr::reference>*>, "pointer points to what reference refers to");
	}
	else static_assert(std::is_same_v<typename Tr::value_type, typename Tr::reference>, "the value type is what is returned by value");
	static_assert(std::is_copy_constructible_v<I> && std::is_copy_assignable_v<I> && std::is_destructible_v<I> && std::is_swappable_v<I>);
	static_assert(std::is_nothrow_move_constructible_v<I> && std::is_nothrow_move_assignable_v<I>);
	static_assert(std::is_same_v<decltype(++std::declval<I&>()), I&>, "pre-increment gives the iterator itself");
	static_assert(std::is_same_v<Bare<decltype(std::declval<I&>()++)>, I>, "post-increment gives the previous iterator");
	static_assert(std::is_convertible_v<decltype(*std::declval<I&>()++), Bare<typename Tr::value_type>>);
	static_assert(std::is_convertible_v<decltype(std::declval<const I&>() == std::declval<const I&>()), bool> && std::is_convertible_v<decltype(std::declval<const I&>() != std::declval<const I&>()), bool>);
	if constexpr (Is<I, std::bidirectional_iterator_tag>)
	{
		static_assert(std::is_same_v<decltype(--std::declval<I&>()), I&>, "pre-decrement gives the iterator itself");
		static_assert(std::is_same_v<Bare<decltype(std::declval<I&>()--)>, I>);
	}
	if constexpr (Is<I, std::random_access_iterator_tag>)
	{
		using D = typename Tr::difference_type;
		static_assert(std::is_same_v<decltype(std::declval<I&>() += std::declval<D>()), I&>, "+= gives the iterator itself");
		static_assert(std::is_same_v<decltype(std::declval<I&>() -= std::declval<D>()), I&>, "-= gives the iterator itself");
		static_assert(std::is_same_v<Bare<decltype(std::declval<const I&>() + std::declval<D>())>, I>);
		static_assert(std::is_same_v<Bare<decltype(std::declval<const I&>() - std::declval<D>())>, I>);
		static_assert(std::is_same_v<decltype(std::declval<const I&>() - std::declval<const I&>()), D>, "the distance between two iterators");
		static_assert(std::is_convertible_v<decltype(std::declval<const I&>()[std::declval<D>()]), typename Tr::reference>);
		static_assert(std::is_convertible_v<decltype(std::declval<const I&>() < std::declval<const I&>()), bool> && std::is_convertible_v<decltype(std::declval<const I&>() >= std::declval<const I&>()), bool>);
		static_assert(std::is_convertible_v<decltype(std::declval<const I&>() > std::declval<const I&>()), bool> && std::is_convertible_v<decltype(std::declval<const I&>() <= std::declval<const I&>()), bool>);
	}
#ifdef __cpp_lib_concepts
	static_assert(std::input_iterator<I>, "an input iterator of C++20");
#endif
	return true;
}
// what algorithms do with them
template<class I> std::ptrdiff_t Use(I a, I b)
{
	using V = Bare<typename std::iterator_traits<I>::value_type>;
	std::ptrdiff_t n = std::distance(a, b);
	n += std::count_if(a, b, [](const auto&) { return true; });
	n += std::find_if(a, b, [](const auto&) { return false; }) == b;
	I c = a; std::advance(c, 1); c = std::next(a);
	n += std::accumulate(a, b, 0, [](int s, const auto&) { return s + 1; });
	if constexpr (std::is_copy_constructible_v<V> && std::is_copy_assignable_v<V>) { std::vector<V> v(a, b); v.assign(a, b); n += std::ptrdiff_t(v.size()); std::copy(a, b, v.begin()); }
	if constexpr (Is<I, std::random_access_iterator_tag>) { std::reverse_iterator<I> r(b); ++r; n += std::lower_bound(a, b, 0, [](const auto&, int) { return true; }) - a; }
	return n;
}
template<class I> constexpr bool Ok = Input<I>() && (&Use<I> != nullptr);
struct Plain { int x; }; struct Owner { std::string s; };
#define CONTAINER(...) static_assert(Ok<__VA_ARGS__::iterator> && Ok<__VA_ARGS__::const_iterator> && Ok<__VA_ARGS__::reverse_iterator> && Ok<__VA_ARGS__::const_reverse_iterator>); \
	static_assert(std::is_same_v<__VA_ARGS__::value_type, std::iterator_traits<__VA_ARGS__::iterator>::value_type> && std::is_same_v<__VA_ARGS__::reference, std::iterator_traits<__VA_ARGS__::iterator>::reference> && std::is_same_v<__VA_ARGS__::pointer, std::iterator_traits<__VA_ARGS__::iterator>::pointer> && std::is_same_v<__VA_ARGS__::difference_type, std::iterator_traits<__VA_ARGS__::iterator>::difference_type>); \
	static_assert(std::is_same_v<decltype(std::declval<__VA_ARGS__&>().begin()), __VA_ARGS__::iterator> && std::is_same_v<decltype(std::declval<const __VA_ARGS__&>().end()), __VA_ARGS__::const_iterator> && std::is_same_v<decltype(std::declval<__VA_ARGS__&>().cbegin()), __VA_ARGS__::const_iterator> && std::is_same_v<decltype(std::declval<__VA_ARGS__&>().rbegin()), __VA_ARGS__::reverse_iterator> && std::is_same_v<decltype(std::declval<const __VA_ARGS__&>().crend()), __VA_ARGS__::const_reverse_iterator>); \
	static_assert(std::is_convertible_v<__VA_ARGS__::iterator, __VA_ARGS__::const_iterator> && !std::is_convertible_v<__VA_ARGS__::const_iterator, __VA_ARGS__::iterator>);
CONTAINER(Nz::StackArray<int>) CONTAINER(Nz::StackArray<Owner>) CONTAINER(Nz::StackVector<int>) CONTAINER(Nz::StackVector<Owner>) CONTAINER(Nz::StackVector<int*>)
CONTAINER(Nz::FixedVector<int, 4>) CONTAINER(Nz::FixedVector<Owner, 4>)
CONTAINER(Nz::EnumArray<E, int>) CONTAINER(Nz::EnumArray<E, Owner>)
static_assert(Ok<Nz::HybridVector<int, 4>::iterator> && Ok<Nz::HybridVector<int, 4>::const_iterator>);
static_assert(Ok<Nz::EnumArray<E, int>::kv_iterator> && Ok<Nz::EnumArray<E, int>::kv_const_iterator> && Ok<Nz::EnumArray<E, Owner>::kv_iterator> && Ok<Nz::EnumArray<E, Owner>::kv_const_iterator>);
static_assert(Ok<Nz::MemoryPool<int>::iterator> && Ok<Nz::MemoryPool<int>::const_iterator> && Ok<Nz::MemoryPool<Owner>::iterator> && Ok<Nz::MemoryPool<Owner>::const_iterator>);
static_assert(Ok<Nz::Flags<E>::iterator>);
static_assert(Ok<Nz::Bitset<>::BitIterator> && Ok<Nz::Bitset<Nz::UInt8>::BitIterator> && Ok<decltype(std::declval<const Nz::Bitset<Nz::UInt64>&>().IterBits().begin())>);
static_assert(Ok<Nz::SparsePtr<int>> && Ok<Nz::SparsePtr<const int>> && Ok<Nz::SparsePtr<Owner>> && Ok<Nz::SparsePtr<const Owner>>);
