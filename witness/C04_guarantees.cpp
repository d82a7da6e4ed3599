// Ownership, constness, conversions and no-throw guarantees, as the types show them.
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <memory>
#include <string>
#include <vector>
template<typename A, typename B> constexpr bool same = std::is_same_v<A, B>;
template<typename T> constexpr bool copyable = std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>;
template<typename T> constexpr bool notCopyable = !std::is_copy_constructible_v<T> && !std::is_copy_assignable_v<T> && !std::is_constructible_v<T, T&> && !std::is_assignable_v<T&, T&>;
template<typename T> constexpr bool movable = std::is_move_constructible_v<T> && std::is_move_assignable_v<T>;
template<typename T> constexpr bool nothrowMovable = std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T> && std::is_nothrow_destructible_v<T>;
struct Throwing { Throwing(); Throwing(int); Throwing(const Throwing&); Throwing(Throwing&&) noexcept(false); Throwing& operator=(const Throwing&); Throwing& operator=(Throwing&&) noexcept(false); ~Throwing(); };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&) noexcept; MoveOnly& operator=(MoveOnly&&) noexcept; };
struct Impl { int x; void f(); void g() const; }; struct Hidden;
enum class A { X, Y, Max = Y }; enum class B { X, Y, Max = Y }; enum class NotFlag { X, Y, Max = Y };
template<> struct Nz::EnumAsFlags<A> { static constexpr A max = A::Max; }; template<> struct Nz::EnumAsFlags<B> { static constexpr B max = B::Max; };
template<typename T> T& lv() noexcept; template<typename T> const T& cl() noexcept; template<typename T> T&& rv() noexcept;
template<typename, typename L, typename R> struct CanOr : std::false_type {}; template<typename L, typename R> struct CanOr<std::void_t<decltype(lv<L>() | lv<R>())>, L, R> : std::true_type {};
template<typename, typename L, typename R> struct CanEq : std::false_type {}; template<typename L, typename R> struct CanEq<std::void_t<decltype(lv<L>() == lv<R>())>, L, R> : std::true_type {};
template<typename, typename L, typename R> struct CanIndex : std::false_type {}; template<typename L, typename R> struct CanIndex<std::void_t<decltype(lv<L>()[lv<R>()])>, L, R> : std::true_type {};
template<typename L, typename R> constexpr bool canOr = CanOr<void, L, R>::value; template<typename L, typename R> constexpr bool canEq = CanEq<void, L, R>::value; template<typename L, typename R> constexpr bool canIndex = CanIndex<void, L, R>::value;
template<typename From, typename To> constexpr bool converts = std::is_convertible_v<From, To>;
template<typename To, typename... From> constexpr bool constructs = std::is_constructible_v<To, From...>;

// ---- copies: exclusive owners have none, the others keep theirs
static_assert(notCopyable<Nz::StackVector<int>> && notCopyable<Nz::StackArray<int>> && notCopyable<Nz::MemoryPool<int>> && notCopyable<Nz::CallOnExit<void(*)()>> && notCopyable<Nz::Signal<>::ConnectionGuard> && notCopyable<Nz::Signal<int>::ConnectionGuard> && notCopyable<Nz::StackVector<std::string>> && notCopyable<Nz::MemoryPool<std::string>>);
static_assert(!std::is_move_constructible_v<Nz::CallOnExit<void(*)()>> && std::is_move_assignable_v<Nz::CallOnExit<void(*)()>> && std::is_default_constructible_v<Nz::CallOnExit<void(*)()>>);
static_assert(copyable<Nz::FixedVector<int, 3>> && copyable<Nz::HybridVector<int, 3>> && copyable<Nz::Bitset<>> && copyable<Nz::FixedBitset<Nz::UInt32, 40>> && copyable<Nz::HybridBitset<Nz::UInt32, 40>> && copyable<Nz::MovablePtr<int>> && copyable<Nz::MovableValue<int>> && copyable<Nz::MovableValue<std::string>> && copyable<Nz::MovableLiteral<int, 3>> && copyable<Nz::PrivateImpl<Impl, 8>> && copyable<Nz::PrivateImpl<Impl>> && copyable<Nz::Signal<>> && copyable<Nz::Signal<>::Connection> && copyable<Nz::Flags<A>> && copyable<Nz::EnumArray<A, std::string>> && copyable<Nz::SparsePtr<int>> && copyable<Nz::FunctionRef<void()>> && copyable<Nz::Result<int, std::string>> && copyable<Nz::Result<void, std::string>>);
static_assert(copyable<Nz::MemoryPool<int>::iterator> && copyable<Nz::MemoryPool<int>::const_iterator> && copyable<Nz::Flags<A>::iterator> && copyable<Nz::Bitset<>::BitIterator> && copyable<Nz::EnumArray<A, int>::kv_iterator> && copyable<Nz::EnumArray<A, int>::kv_const_iterator>);
// wrappers are copyable exactly when what they hold is
static_assert(!std::is_copy_constructible_v<Nz::Result<MoveOnly, int>> && !std::is_copy_assignable_v<Nz::Result<int, MoveOnly>> && !std::is_copy_constructible_v<Nz::Result<void, MoveOnly>> && !std::is_copy_constructible_v<Nz::MovableValue<MoveOnly>> && !std::is_copy_assignable_v<Nz::MovableValue<MoveOnly>> && !std::is_copy_constructible_v<Nz::EnumArray<A, MoveOnly>>);
static_assert(movable<Nz::Result<MoveOnly, int>> && movable<Nz::Result<int, MoveOnly>> && movable<Nz::Result<void, MoveOnly>> && movable<Nz::MovableValue<MoveOnly>> && movable<Nz::EnumArray<A, MoveOnly>> && movable<Nz::FixedVector<MoveOnly, 2>> && movable<Nz::HybridVector<MoveOnly, 2>> && movable<Nz::StackVector<MoveOnly>> && movable<Nz::MemoryPool<MoveOnly>>);
#ifdef FAIL_pool_copy
Nz::MemoryPool<int> copy(const Nz::MemoryPool<int>& p) { return p; }
#endif
#ifdef FAIL_guard_copy
void copy(const Nz::Signal<>::ConnectionGuard& p) { Nz::Signal<>::ConnectionGuard g; g = p; }
#endif
#ifdef FAIL_stackvector_copy
void copy(Nz::StackVector<int>& p) { Nz::StackVector<int> g(p); }
#endif
#ifdef FAIL_callonexit_copy
void copy() { auto f = [] {}; Nz::CallOnExit a(std::move(f)); auto b = std::move(a); }
#endif
// ---- moves that never throw, even when the elements' do
static_assert(nothrowMovable<Nz::StackVector<int>> && nothrowMovable<Nz::StackVector<Throwing>> && nothrowMovable<Nz::StackArray<int>> && nothrowMovable<Nz::StackArray<Throwing>> && nothrowMovable<Nz::FixedVector<int, 3>> && nothrowMovable<Nz::FixedVector<std::string, 3>> && nothrowMovable<Nz::HybridVector<int, 3>> && nothrowMovable<Nz::HybridVector<std::string, 3>> && nothrowMovable<Nz::MemoryPool<int>> && nothrowMovable<Nz::MemoryPool<Throwing>> && nothrowMovable<Nz::Bitset<>> && nothrowMovable<Nz::FixedBitset<Nz::UInt8, 9>> && nothrowMovable<Nz::HybridBitset<Nz::UInt64, 9>>);
static_assert(nothrowMovable<Nz::MovablePtr<int>> && nothrowMovable<Nz::MovablePtr<Throwing>> && nothrowMovable<Nz::MovableValue<int>> && nothrowMovable<Nz::MovableValue<std::string>> && nothrowMovable<Nz::MovableLiteral<int, 3>> && nothrowMovable<Nz::PrivateImpl<Impl, 8>> && nothrowMovable<Nz::PrivateImpl<Impl>> && nothrowMovable<Nz::Signal<>> && nothrowMovable<Nz::Signal<int, std::string>> && nothrowMovable<Nz::Signal<>::Connection> && nothrowMovable<Nz::Signal<>::ConnectionGuard>);
static_assert(nothrowMovable<Nz::Flags<A>> && nothrowMovable<Nz::SparsePtr<int>> && nothrowMovable<Nz::FunctionRef<void()>> && nothrowMovable<Nz::EnumArray<A, std::string>> && nothrowMovable<Nz::Result<int, std::string>> && nothrowMovable<Nz::Result<std::string, int>> && nothrowMovable<Nz::Result<void, std::string>> && nothrowMovable<Nz::MemoryPool<int>::iterator> && nothrowMovable<Nz::Bitset<>::BitIterator> && nothrowMovable<Nz::EnumArray<A, int>::kv_iterator>);
static_assert(!std::is_nothrow_move_constructible_v<Nz::Result<Throwing, int>> && !std::is_nothrow_move_constructible_v<Nz::Result<int, Throwing>> && !std::is_nothrow_move_constructible_v<Nz::EnumArray<A, Throwing>>);
static_assert(std::is_nothrow_destructible_v<Nz::CallOnExit<void(*)()>>);
static_assert(std::is_trivially_copyable_v<Nz::Flags<A>> && std::is_trivially_copyable_v<Nz::SparsePtr<int>> && std::is_trivially_copyable_v<Nz::FunctionRef<int(int)>> && std::is_trivially_copyable_v<Nz::EnumArray<A, int>> && std::is_nothrow_copy_constructible_v<Nz::FunctionRef<int(int)>>);
// ---- promised not to throw
template<typename V> constexpr bool quietAccess() { return noexcept(lv<V>().begin()) && noexcept(cl<V>().begin()) && noexcept(cl<V>().cbegin()) && noexcept(lv<V>().end()) && noexcept(cl<V>().end()) && noexcept(cl<V>().cend()) && noexcept(lv<V>().rbegin()) && noexcept(cl<V>().rbegin()) && noexcept(cl<V>().crbegin()) && noexcept(lv<V>().rend()) && noexcept(cl<V>().rend()) && noexcept(cl<V>().crend()) && noexcept(cl<V>().size()) && noexcept(cl<V>().empty()) && noexcept(cl<V>().max_size()) && noexcept(lv<V>().data()) && noexcept(cl<V>().data()) && noexcept(lv<V>().front()) && noexcept(cl<V>().front()); }
template<typename V> constexpr bool quiet() { return quietAccess<V>() && noexcept(cl<V>().capacity()) && noexcept(lv<V>().clear()); }
static_assert(quiet<Nz::StackVector<int>>() && quiet<Nz::StackVector<Throwing>>() && quiet<Nz::FixedVector<int, 3>>() && quiet<Nz::FixedVector<Throwing, 3>>() && quiet<Nz::HybridVector<int, 3>>() && quiet<Nz::HybridVector<Throwing, 3>>() && quietAccess<Nz::StackArray<int>>() && quietAccess<Nz::StackArray<Throwing>>());
template<template<typename> typename V> constexpr bool pushes() { return noexcept(lv<V<int>>().push_back(3)) && noexcept(lv<V<int>>().push_back(cl<int>())) && !noexcept(lv<V<Throwing>>().push_back(cl<Throwing>())) && !noexcept(lv<V<Throwing>>().push_back(rv<Throwing>())) && noexcept(lv<V<std::string>>().push_back(rv<std::string>())) && !noexcept(lv<V<std::string>>().push_back(cl<std::string>())); }
template<typename T> using F3 = Nz::FixedVector<T, 3>;
static_assert(pushes<Nz::StackVector>() && pushes<F3>());
static_assert(noexcept(lv<Nz::Bitset<>>().Clear()) && noexcept(lv<Nz::Bitset<>>().Swap(lv<Nz::Bitset<>>())) && noexcept(std::swap(lv<Nz::Bitset<>>(), lv<Nz::Bitset<>>())) && noexcept(lv<Nz::Signal<>::Connection>().Disconnect()) && noexcept(lv<Nz::Signal<>::ConnectionGuard>().Disconnect()));
static_assert(noexcept(cl<Nz::Result<int, std::string>>().IsOk()) && noexcept(cl<Nz::Result<int, std::string>>().IsErr()) && noexcept(bool(cl<Nz::Result<int, std::string>>())) && noexcept(cl<Nz::Result<void, std::string>>().IsOk()) && noexcept(cl<Nz::Result<void, std::string>>().IsErr()) && noexcept(bool(cl<Nz::Result<void, std::string>>())));
template<typename P> constexpr bool quietImpl() { return noexcept(lv<P>().Get()) && noexcept(cl<P>().Get()) && noexcept(*lv<P>()) && noexcept(*cl<P>()) && noexcept(lv<P>().operator->()) && noexcept(cl<P>().operator->()); }
static_assert(quietImpl<Nz::PrivateImpl<Impl>>() && quietImpl<Nz::PrivateImpl<Impl, 8>>() && noexcept(cl<Nz::PrivateImpl<Impl>>().HasValue()) && noexcept(lv<Nz::PrivateImpl<Impl>>().Reset()) && noexcept(bool(cl<Nz::PrivateImpl<Impl>>())));
static_assert(noexcept(lv<Nz::EnumArray<A, int>>()[A::X]) && noexcept(cl<Nz::EnumArray<A, int>>()[A::X]) && noexcept(lv<Nz::EnumArray<A, int>>().iter_kv()) && std::is_nothrow_constructible_v<Nz::FunctionRef<void()>, void(&)()> && std::is_nothrow_constructible_v<Nz::FunctionRef<void()>, std::nullptr_t>);
// ---- constness: a const object only gives const access
template<typename V, typename T> constexpr bool constAccess()
{
	static_assert(same<decltype(cl<V>().front()), const T&> && same<decltype(cl<V>().back()), const T&> && same<decltype(cl<V>()[0]), const T&> && same<decltype(cl<V>().data()), const T*>);
	static_assert(same<decltype(*cl<V>().begin()), const T&> && same<decltype(*cl<V>().end()), const T&> && same<decltype(*cl<V>().rbegin()), const T&> && same<decltype(*cl<V>().rend()), const T&> && same<decltype(*lv<V>().cbegin()), const T&> && same<decltype(*lv<V>().cend()), const T&> && same<decltype(*lv<V>().crbegin()), const T&> && same<decltype(*lv<V>().crend()), const T&>);
	static_assert(same<decltype(lv<V>().front()), T&> && same<decltype(lv<V>().back()), T&> && same<decltype(lv<V>()[0]), T&> && same<decltype(lv<V>().data()), T*> && same<decltype(*lv<V>().begin()), T&> && same<decltype(*lv<V>().rbegin()), T&>);
	static_assert(same<decltype(cl<V>().begin()), typename V::const_iterator> && same<decltype(lv<V>().begin()), typename V::iterator> && same<decltype(cl<V>().rbegin()), typename V::const_reverse_iterator> && same<decltype(lv<V>().rbegin()), typename V::reverse_iterator>);
	static_assert(converts<typename V::iterator, typename V::const_iterator> && !converts<typename V::const_iterator, typename V::iterator> && converts<typename V::reverse_iterator, typename V::const_reverse_iterator>);
	return true;
}
static_assert(constAccess<Nz::StackVector<int>, int>() && constAccess<Nz::StackVector<std::string>, std::string>() && constAccess<Nz::StackArray<int>, int>() && constAccess<Nz::FixedVector<int, 3>, int>() && constAccess<Nz::FixedVector<std::string, 3>, std::string>() && constAccess<Nz::HybridVector<std::string, 3>, std::string>());
static_assert(same<decltype(cl<Nz::FixedVector<int, 3>>().data(1)), const int*> && same<decltype(lv<Nz::FixedVector<int, 3>>().data(1)), int*>);
using EA = Nz::EnumArray<A, std::string>;
static_assert(same<decltype(cl<EA>()[A::X]), const std::string&> && same<decltype(lv<EA>()[A::X]), std::string&> && same<decltype((*cl<EA>().iter_kv().begin()).second), const std::string&> && same<decltype((*lv<EA>().iter_kv().begin()).second), std::string&> && same<decltype((*lv<EA>().iter_kv().begin()).first), A> && same<decltype(lv<EA>().iter_kv().begin()), EA::kv_iterator> && same<decltype(cl<EA>().iter_kv().begin()), EA::kv_const_iterator> && same<decltype(cl<EA>().iter_kv().end()), EA::kv_const_iterator> && !converts<EA::kv_const_iterator, EA::kv_iterator>);
using MP = Nz::MemoryPool<std::string>;
static_assert(same<decltype(cl<MP>().RetrieveFromIndex(0)), const std::string*> && same<decltype(lv<MP>().RetrieveFromIndex(0)), std::string*> && same<decltype(*cl<MP>().begin()), const std::string&> && same<decltype(*lv<MP>().cbegin()), const std::string&> && same<decltype(*lv<MP>().begin()), std::string&> && same<decltype(cl<MP>().end()), MP::const_iterator> && same<decltype(lv<MP>().end()), MP::iterator> && !converts<MP::const_iterator, MP::iterator>);
template<typename P> constexpr bool constImpl() { return same<decltype(cl<P>().Get()), const Impl*> && same<decltype(lv<P>().Get()), Impl*> && same<decltype(*cl<P>()), const Impl&> && same<decltype(*lv<P>()), Impl&> && same<decltype(cl<P>().operator->()), const Impl*> && converts<const P&, const Impl*> && !converts<const P&, Impl*> && converts<P&, Impl*>; }
static_assert(constImpl<Nz::PrivateImpl<Impl>>() && constImpl<Nz::PrivateImpl<Impl, 8>>());
template<typename M> constexpr bool constMovable() { return same<decltype(cl<M>().Get()), const int&> && same<decltype(lv<M>().Get()), int&> && same<decltype(rv<M>().Get()), int&&> && converts<const M&, const int&> && !converts<const M&, int&> && converts<M&, int&> && converts<M&&, int&&>; }
static_assert(constMovable<Nz::MovableValue<int>>() && constMovable<Nz::MovableLiteral<int, 3>>());
using R = Nz::Result<std::string, int>; using RV = Nz::Result<void, std::string>;
static_assert(same<decltype(cl<R>().GetValue()), const std::string&> && same<decltype(lv<R>().GetValue()), std::string&> && same<decltype(rv<R>().GetValue()), std::string&&> && same<decltype(cl<R>().GetError()), const int&> && same<decltype(lv<R>().GetError()), int&> && same<decltype(rv<R>().GetError()), int&&> && same<decltype(*cl<R>()), const std::string&> && same<decltype(*lv<R>()), std::string&> && same<decltype(*rv<R>()), std::string&&> && same<decltype(cl<R>().operator->()), const std::string*> && same<decltype(cl<R>().GetValueOr("x")), std::string> && same<decltype(cl<RV>().GetError()), const std::string&> && same<decltype(lv<RV>().GetError()), std::string&> && same<decltype(rv<RV>().GetError()), std::string&&>);
static_assert(same<decltype(cl<Nz::Bitset<>>()[0]), bool> && same<decltype(lv<Nz::Bitset<>>()[0]), Nz::Bitset<>::Bit> && !std::is_assignable_v<decltype(cl<Nz::Bitset<>>()[0]), bool> && std::is_assignable_v<decltype(lv<Nz::Bitset<>>()[0]), bool>);
static_assert(same<decltype(*cl<Nz::SparsePtr<const int>>()), const int&> && same<decltype(cl<Nz::SparsePtr<const int>>()[0]), const int&> && same<decltype(cl<Nz::SparsePtr<const int>>().GetPtr()), const void*> && same<decltype(*cl<Nz::SparsePtr<int>>()), int&> && !constructs<Nz::SparsePtr<int>, const int*> && !constructs<Nz::SparsePtr<int>, const void*, int> && constructs<Nz::SparsePtr<const int>, int*> && converts<Nz::SparsePtr<int>, Nz::SparsePtr<const int>>);
static_assert(same<decltype(cl<Nz::MovablePtr<int>>().Get()), int*> && same<decltype(cl<Nz::MovablePtr<const int>>().Get()), const int*> && !constructs<Nz::MovablePtr<int>, const int*> && !std::is_assignable_v<Nz::MovablePtr<int>&, const int*> && !converts<Nz::MovablePtr<const int>, int*>);
#ifdef FAIL_sparse_constness
Nz::SparsePtr<int> drop(Nz::SparsePtr<const int> p) { return p; }
#endif
#ifdef FAIL_const_bit
void drop(const Nz::Bitset<>& b) { b[0] = true; }
#endif
#ifdef FAIL_const_vector
void drop(const Nz::FixedVector<int, 3>& b) { b[0] = 3; }
#endif
#ifdef FAIL_const_kv
void drop(const Nz::EnumArray<A, int>& b) { for (auto [k, v] : b.iter_kv()) v = 3; }
#endif
#ifdef FAIL_const_pool
void drop(const Nz::MemoryPool<int>& b) { for (int& x : b) x = 3; }
#endif
#ifdef FAIL_const_impl
void drop(const Nz::PrivateImpl<Impl>& b) { b->f(); }
#endif
#ifdef FAIL_const_result
void drop(const R& r) { r.GetValue() = "x"; }
#endif
#ifdef FAIL_bit_address
void drop(Nz::Bitset<>& b) { (void) &b[0]; }
#endif
// ---- flags and enumerations do not mix
static_assert(!constructs<Nz::Flags<A>, Nz::Flags<B>> && !constructs<Nz::Flags<A>, B> && !converts<B, Nz::Flags<A>> && converts<A, Nz::Flags<A>> && !std::is_assignable_v<Nz::Flags<A>&, Nz::Flags<B>> && !std::is_assignable_v<Nz::Flags<A>&, B>);
static_assert(!canOr<Nz::Flags<A>, Nz::Flags<B>> && !canOr<Nz::Flags<A>, B> && !canOr<A, B> && !canOr<NotFlag, NotFlag> && canOr<A, A> && canOr<Nz::Flags<A>, A> && canOr<A, Nz::Flags<A>> && canOr<Nz::Flags<A>, Nz::Flags<A>> && !canEq<Nz::Flags<A>, Nz::Flags<B>> && !canEq<Nz::Flags<A>, B> && canEq<Nz::Flags<A>, A>);
static_assert(!converts<Nz::Flags<A>, bool> && !converts<Nz::Flags<A>, int> && !converts<Nz::Flags<A>, A> && constructs<bool, Nz::Flags<A>> && constructs<int, Nz::Flags<A>>);
static_assert(Nz::IsEnumFlag<A>::value && !Nz::IsEnumFlag<NotFlag>::value && same<decltype(A::X | A::Y), Nz::Flags<A>> && same<decltype(~A::X), Nz::Flags<A>> && same<decltype(A::X & Nz::Flags<A>()), Nz::Flags<A>>);
static_assert(canIndex<Nz::EnumArray<A, int>, A> && !canIndex<Nz::EnumArray<A, int>, B> && !canIndex<Nz::EnumArray<A, int>, int> && !canIndex<Nz::EnumArray<A, int>, std::size_t>);
#ifdef FAIL_flags_of_plain_enum
Nz::Flags<NotFlag> f;
#endif
#ifdef FAIL_flags_of_int
Nz::Flags<int> f;
#endif
#ifdef FAIL_mixed_test
bool f(Nz::Flags<A> a) { return a.Test(B::X); }
#endif
#ifdef FAIL_mixed_assign
void f(Nz::Flags<A> a) { a |= B::X; }
#endif
#ifdef FAIL_mixed_index
int f(Nz::EnumArray<A, int>& a) { return a[B::X]; }
#endif
#ifdef FAIL_bitset_signed_block
Nz::Bitset<int> b;
#endif
#ifdef FAIL_fixedvector_zero
Nz::FixedVector<int, 0> v;
#endif
// ---- errors are never taken for values, nor the reverse
static_assert(converts<std::string, R> && !converts<int, R> && !constructs<R, int> && !converts<int, Nz::Result<std::string, long>> && !converts<const char*, R>);
static_assert(!constructs<RV, std::string> && !converts<std::string, RV> && !constructs<RV, const char*> && converts<Nz::ResultValue<void>, RV>);
static_assert(!converts<int, Nz::Result<int, int>> && converts<decltype(Nz::Ok(3)), Nz::Result<int, int>> && converts<decltype(Nz::Err(3)), Nz::Result<int, int>>);
static_assert(!converts<R, bool> && !converts<R, std::string> && !converts<RV, bool> && constructs<bool, R> && constructs<bool, RV> && !converts<R, int>);
static_assert(converts<Nz::Result<int, std::string>, Nz::Result<long, std::string>> && !converts<Nz::Result<int, std::string>, Nz::Result<std::string, std::string>> && !converts<Nz::Result<std::string, int>, Nz::Result<int, std::string>> && converts<Nz::Result<void, const char*>, RV> && !converts<Nz::Result<void, Impl>, RV>);
#ifdef FAIL_result_void_error
Nz::Result<int, void>* f(Nz::Result<int, void> r);
Nz::Result<int, void> r;
#endif
#ifdef FAIL_result_wrong_ok
Nz::Result<int, int> f() { return Nz::Ok(Impl{}); }
#endif
#ifdef FAIL_result_wrong_err
Nz::Result<int, int> f() { return Nz::Err(Impl{}); }
#endif
#ifdef FAIL_result_void_value
Nz::Result<void, int> f() { return Nz::Ok(3); }
#endif
// ---- conversions that must be asked for
static_assert(!converts<std::size_t, Nz::FixedVector<int, 3>> && !converts<int, Nz::FixedVector<int, 3>> && constructs<Nz::FixedVector<int, 3>, std::size_t> && constructs<Nz::Bitset<>, const char*>);
static_assert(!converts<Nz::SparsePtr<int>, bool> && !converts<Nz::SparsePtr<int>, int*> && !converts<Nz::FunctionRef<void()>, bool> && constructs<bool, Nz::SparsePtr<int>> && constructs<int*, Nz::SparsePtr<int>> && constructs<bool, Nz::FunctionRef<void()>>);
// ---- what a function reference accepts
struct Fn { int operator()(int); }; struct CFn { int operator()(int) const; };
template<typename S, typename F> constexpr bool refers = constructs<Nz::FunctionRef<S>, F>;
static_assert(refers<int(int), Fn&> && refers<int(int), const CFn&> && !refers<int(int), const Fn&> && refers<long(char), Fn&> && refers<void(int), Fn&> && !refers<std::string(int), Fn&> && !refers<int(std::string), Fn&> && !refers<int(), Fn&> && !refers<int(int, int), Fn&> && !refers<int(int), int> && !refers<int(int), Impl> && refers<int(int), std::nullptr_t> && refers<int(int), int(*)(int)> && refers<int(int), int(&)(int)> && !std::is_default_constructible_v<Nz::FunctionRef<int(int)>>);
static_assert(std::is_invocable_r_v<int, const Nz::FunctionRef<int(int)>&, int> && !std::is_invocable_v<Nz::FunctionRef<int(int)>, std::string> && !std::is_invocable_v<Nz::FunctionRef<int(int)>> && !std::is_invocable_v<Nz::FunctionRef<int(int)>, int, int> && same<std::invoke_result_t<Nz::FunctionRef<int&(int)>, int>, int&> && same<std::invoke_result_t<Nz::FunctionRef<void()>>, void> && !std::is_invocable_v<Nz::FunctionRef<void(int&)>, int> && !std::is_invocable_v<Nz::FunctionRef<void(int&&)>, int&> && !std::is_invocable_v<Nz::FunctionRef<void(MoveOnly)>, MoveOnly&> && std::is_invocable_v<Nz::FunctionRef<void(MoveOnly)>, MoveOnly>);
// ---- signals: only matching callbacks
template<typename, typename S, typename... C> struct CanConnect : std::false_type {}; template<typename S, typename... C> struct CanConnect<std::void_t<decltype(lv<S>().Connect(rv<C>()...))>, S, C...> : std::true_type {};
template<typename S, typename... C> constexpr bool connects = CanConnect<void, S, C...>::value;
struct Obj { void m(int); void c(int) const; void w(std::string); };
static_assert(connects<Nz::Signal<int>, void(*)(int)> && connects<Nz::Signal<int>, Obj&, void(Obj::*)(int)> && connects<Nz::Signal<int>, const Obj&, void(Obj::*)(int) const> && !connects<Nz::Signal<int>, const Obj&, void(Obj::*)(int)> && !connects<Nz::Signal<int>, const Obj*, void(Obj::*)(int)> && !connects<Nz::Signal<int>, Obj&, void(Obj::*)(std::string)> && !connects<Nz::Signal<int>, void(*)(std::string)> && !connects<Nz::Signal<int>, void(*)(int, int)>);
static_assert(!constructs<Nz::Signal<>::Connection, Nz::Signal<int>::Connection> && constructs<Nz::Signal<>::ConnectionGuard, Nz::Signal<>::Connection> && !constructs<Nz::Signal<>::ConnectionGuard, Nz::Signal<int>::Connection> && std::is_invocable_v<const Nz::Signal<int>&, int> && !std::is_invocable_v<const Nz::Signal<int>&, std::string>);
// ---- incomplete implementations can be named
struct Holder { Nz::PrivateImpl<Hidden>* p; Nz::PrivateImpl<Hidden, 32, 8>* q; Nz::MovablePtr<Hidden> r; Holder() = default; }; struct User { User(); ~User(); Nz::PrivateImpl<Hidden> a; Nz::PrivateImpl<Hidden, 32, 8> b; };
static_assert(sizeof(Nz::PrivateImpl<Hidden>) == sizeof(void*) && sizeof(Nz::PrivateImpl<Hidden, 32, 8>) == 32 && alignof(Nz::PrivateImpl<Hidden, 32, 8>) == 8 && sizeof(Nz::PrivateImpl<Hidden, 32, 32>) == 32 && alignof(Nz::PrivateImpl<Hidden, 32, 32>) == 32 && sizeof(User) == 40 + 0 && alignof(Nz::PrivateImpl<Hidden, 16>) == alignof(std::max_align_t));
#ifdef FAIL_impl_too_small
struct Large { char c[64]; }; Nz::PrivateImpl<Large, 32> p;
#endif
#ifdef FAIL_impl_misaligned
struct alignas(32) Al { char c[32]; }; Nz::PrivateImpl<Al, 32, 8> p;
#endif
// ---- alignment of in-place storage
struct alignas(64) Wide { char c; };
static_assert(alignof(Nz::FixedVector<Wide, 2>) >= 64 && alignof(Nz::HybridVector<Wide, 2>) >= 64 && alignof(Nz::FixedVector<double, 2>) >= alignof(double) && sizeof(Nz::FixedVector<Wide, 2>) >= 128);
int main() {}
