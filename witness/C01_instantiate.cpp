// Every public member of every public class template, instantiated.
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Assert.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/Constants.hpp>
#include <NazaraUtils/DebugBreak.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/FunctionTraits.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/OffsetOf.hpp>
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <algorithm>
#include <filesystem>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <ostream>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

struct Full // regular
{
	int v = 0; Full() = default; Full(int x) : v(x) {} Full(int x, int y) : v(x + y) {}
	friend bool operator==(const Full& a, const Full& b) { return a.v == b.v; } friend bool operator!=(const Full& a, const Full& b) { return a.v != b.v; }
	friend bool operator<(const Full& a, const Full& b) { return a.v < b.v; } friend bool operator<=(const Full& a, const Full& b) { return a.v <= b.v; }
	friend bool operator>(const Full& a, const Full& b) { return a.v > b.v; } friend bool operator>=(const Full& a, const Full& b) { return a.v >= b.v; }
};
struct MoveOnly { int v = 0; MoveOnly() = default; explicit MoveOnly(int x) : v(x) {} MoveOnly(MoveOnly&&) noexcept = default; MoveOnly& operator=(MoveOnly&&) noexcept = default; };
struct NoDefault { int v; explicit NoDefault(int x) : v(x) {} };
struct Base { virtual ~Base() = default; int b = 0; };
struct Derived : Base { int d = 0; };
struct alignas(64) Wide { char c = 0; };
enum class Four { A, B, C, D, Max = D };
enum class Bits { A, B, C, Max = C };
enum class Masks { A = 1, B = 4, Max = B };
enum Plain { PlainA, PlainB, Max = PlainB };
namespace ns { enum class Adl { X, Y, Max = Y }; constexpr bool EnableEnumAsNzFlags(Adl) { return true; } }
template<> struct Nz::EnumAsFlags<Bits> { static constexpr Bits max = Bits::Max; };
template<> struct Nz::EnumAsFlags<Masks> { static constexpr Masks max = Masks::Max; };
constexpr bool EnableAutoFlagForNzFlags(Masks) { return false; }

template class Nz::Bitset<Nz::UInt8>;
template class Nz::Bitset<Nz::UInt16>;
template class Nz::Bitset<Nz::UInt32>;
template class Nz::Bitset<Nz::UInt64>;
template class Nz::CallOnExit<void(*)()>;
template class Nz::CallOnExit<std::function<void()>>;
template class Nz::EnumArray<Four, int>;
template class Nz::EnumArray<Four, Full>;
template class Nz::EnumArray<Plain, MoveOnly>;
template class Nz::EnumArrayKvIterator<Four, int, false>;
template class Nz::EnumArrayKvIterator<Four, int, true>;
template class Nz::FixedVector<int, 4>;
template class Nz::FixedVector<Full, 4>;
template class Nz::FixedVector<std::string, 1>;
template class Nz::FixedVector<Wide, 3>;
template class Nz::FixedVector<int, 4, std::vector<int>>;
template class Nz::FixedVector<std::string, 2, std::vector<std::string>>;
template class Nz::Flags<Bits>;
template class Nz::Flags<Masks>;
template class Nz::Flags<ns::Adl>;
template class Nz::FunctionRef<void()>;
template class Nz::FunctionRef<int(int, const std::string&)>;
template class Nz::MemoryPool<int>;
template class Nz::MemoryPool<std::string>;
template class Nz::MemoryPool<MoveOnly>;
template class Nz::MemoryPool<Wide>;
template class Nz::MemoryPool<int, 32>;
template class Nz::MemoryPoolIterator<int, alignof(int), false>;
template class Nz::MemoryPoolIterator<int, alignof(int), true>;
template class Nz::MovablePtr<int>;
template class Nz::MovablePtr<const Full>;
template class Nz::MovableValue<int>;
template class Nz::MovableValue<std::string>;
template class Nz::MovableLiteral<int, 42>;
template class Nz::MovableLiteral<Four, Four::B>;
template class Nz::PrivateImpl<Full>;
template class Nz::PrivateImpl<Full, 16>;
template class Nz::PrivateImpl<std::string, 64, 8>; // and exactly as large and aligned as needed
template class Nz::PrivateImpl<std::string, sizeof(std::string), alignof(std::string)>; template class Nz::PrivateImpl<char, 1, 1>;
template class Nz::Result<int, std::string>;
template class Nz::Result<std::string, int>;
template class Nz::Result<int, int>;
template class Nz::Result<Full, Full>;
template class Nz::Result<void, std::string>;
template class Nz::Signal<>;
template class Nz::Signal<int, const std::string&>;
template class Nz::SparsePtr<Full>;
template class Nz::SparsePtr<const Full>;
template class Nz::StackArray<int>;
template class Nz::StackArray<Full>;
template class Nz::StackArray<std::string>;
template class Nz::StackVector<int>;
template class Nz::StackVector<Full>;
template class Nz::StackVector<std::string>;
template struct Nz::StringHash<char>;
template struct Nz::StringHash<wchar_t>;
template struct Nz::StringHash<char16_t>;
template struct Nz::MathConstants<float>;
template struct Nz::MathConstants<double>;
template struct Nz::MathConstants<long double>;
template struct Nz::HashFunctor<Nz::CRC32Hash>;
template struct Nz::TypeTag<int>;

template<typename T> T& lv();
template<typename T> const T& cl();
template<typename T> T&& rv();
template<typename T> void use(T&&) {}

template<typename It, typename Ref> void random_iterator(It a, It b)
{
	use(static_cast<Ref>(*a)); use(static_cast<Ref>(a[1])); use(a == b); use(a != b); use(a < b); use(a > b); use(a <= b); use(a >= b); use(a - b);
	use(a + 1); use(1 + a); use(a - 1); a += 1; a -= 1; use(a++); use(a--); use(++a); use(--a); It c = a; c = b; c = std::move(a);
}
template<typename V, typename T> void vector_access(V& v)
{
	const V& c = v; use(v.front()); use(v.back()); use(c.front()); use(c.back()); use(v[0]); use(c[0]); use(v.data()); use(c.data()); use(v.size()); use(v.empty()); use(v.max_size());
	random_iterator<typename V::iterator, T&>(v.begin(), v.end()); random_iterator<typename V::const_iterator, const T&>(c.begin(), c.end()); random_iterator<typename V::const_iterator, const T&>(v.cbegin(), v.cend());
	random_iterator<typename V::reverse_iterator, T&>(v.rbegin(), v.rend()); random_iterator<typename V::const_reverse_iterator, const T&>(c.rbegin(), c.rend()); random_iterator<typename V::const_reverse_iterator, const T&>(v.crbegin(), v.crend());
	typename V::const_iterator ci = v.begin(); use(ci == c.end()); typename V::const_reverse_iterator cr = v.rbegin(); use(cr);
	for (T& x : v) use(x);
	for (const T& x : c) use(x);
	std::sort(v.begin(), v.end()); use(std::find(c.begin(), c.end(), T{}));
	static_assert(std::is_same_v<typename V::value_type, T> && std::is_same_v<typename V::reference, T&> && std::is_same_v<typename V::const_reference, const T&> && std::is_same_v<typename V::pointer, T*> && std::is_same_v<typename V::const_pointer, const T*> && std::is_same_v<typename V::size_type, std::size_t> && std::is_same_v<typename V::difference_type, std::ptrdiff_t>);
}
template<typename V, typename T> void vector_modify(V& v)
{
	vector_access<V, T>(v); const T x{};
	use(v.emplace(v.begin(), T{})); use(v.emplace(v.cbegin())); use(v.emplace_back()); use(v.emplace_back(x)); use(v.emplace_back(T{})); use(v.insert(v.begin(), x)); use(v.insert(v.cend(), T{}));
	use(v.push_back(x)); use(v.push_back(T{})); v.pop_back(); v.resize(3); v.resize(4, x); use(v.erase(v.begin())); use(v.erase(v.cbegin(), v.cend())); v.clear(); use(v.capacity());
}
void vectors()
{
	vector_modify<Nz::StackVector<Full>, Full>(lv<Nz::StackVector<Full>>()); vector_modify<Nz::StackVector<std::string>, std::string>(lv<Nz::StackVector<std::string>>());
	vector_modify<Nz::FixedVector<Full, 5>, Full>(lv<Nz::FixedVector<Full, 5>>()); vector_modify<Nz::FixedVector<std::string, 5>, std::string>(lv<Nz::FixedVector<std::string, 5>>());
	vector_modify<Nz::HybridVector<Full, 5>, Full>(lv<Nz::HybridVector<Full, 5>>()); vector_modify<Nz::HybridVector<std::string, 1>, std::string>(lv<Nz::HybridVector<std::string, 1>>());
	vector_access<Nz::StackArray<Full>, Full>(lv<Nz::StackArray<Full>>()); vector_access<Nz::StackArray<std::string>, std::string>(lv<Nz::StackArray<std::string>>());
	lv<Nz::StackArray<Full>>().fill(Full{});
	// elements that cannot be copied, or have no default value
	auto& sm = lv<Nz::StackVector<MoveOnly>>(); sm.push_back(MoveOnly{}); sm.emplace_back(3); sm.insert(sm.begin(), MoveOnly{}); sm.emplace(sm.begin(), 4); sm.resize(2); sm.erase(sm.begin()); sm.erase(sm.begin(), sm.end()); sm.clear(); sm = std::move(sm);
	auto& fm = lv<Nz::FixedVector<MoveOnly, 4>>(); fm.push_back(MoveOnly{}); fm.emplace_back(3); fm.insert(fm.begin(), MoveOnly{}); fm.emplace(fm.begin(), 4); fm.resize(2); fm.erase(fm.begin()); fm.erase(fm.begin(), fm.end()); fm.clear(); fm = std::move(fm); Nz::FixedVector<MoveOnly, 4> fm2(std::move(fm));
	auto& hm = lv<Nz::HybridVector<MoveOnly, 4>>(); hm.push_back(MoveOnly{}); hm.emplace_back(3); hm.insert(hm.begin(), MoveOnly{}); hm.emplace(hm.begin(), 4); hm.resize(2); hm.erase(hm.begin()); hm.erase(hm.begin(), hm.end()); hm.clear(); hm.reserve(9); hm = std::move(hm); Nz::HybridVector<MoveOnly, 4> hm2(std::move(hm));
	auto& sn = lv<Nz::StackVector<NoDefault>>(); sn.push_back(NoDefault(1)); sn.emplace_back(3); sn.insert(sn.begin(), NoDefault(2)); sn.resize(2, NoDefault(1)); sn.erase(sn.begin()); sn.clear();
	auto& fn = lv<Nz::FixedVector<NoDefault, 4>>(); fn.push_back(NoDefault(1)); fn.emplace_back(3); fn.insert(fn.begin(), NoDefault(2)); fn.resize(2, NoDefault(1)); fn.erase(fn.begin()); fn.clear(); fn = fn; Nz::FixedVector<NoDefault, 4> fn2(fn);
	auto& hn = lv<Nz::HybridVector<NoDefault, 4>>(); hn.push_back(NoDefault(1)); hn.emplace_back(3); hn.insert(hn.begin(), NoDefault(2)); hn.resize(2, NoDefault(1)); hn.erase(hn.begin()); hn.clear(); hn = hn; Nz::HybridVector<NoDefault, 4> hn2(hn);
	Nz::FixedVector<int, 4> a, b(2), c(2, 7), d{ 1, 2, 3 }, e(d), f(std::move(d)), g(e.begin(), e.end()); a = e; a = std::move(f); a = { 1, 2 }; use(a.data(1)); use(std::as_const(a).data(1)); a.reserve(4);
	std::list<int> l; Nz::FixedVector<int, 4> h(l.begin(), l.end()); std::istringstream is; Nz::FixedVector<int, 4> in{ std::istream_iterator<int>(is), std::istream_iterator<int>() };
	Nz::HybridVector<int, 4> ha, hb(2), hc(2, 7), hd{ 1, 2, 3 }, he(hd), hf(std::move(hd)), hg(l.begin(), l.end()); ha = he; ha = std::move(hf);
	Nz::StackVector<int> sv = NazaraStackVector(int, 8); Nz::StackVector<int> sv2(std::move(sv)); sv = std::move(sv2); Nz::StackArray<int> sa = NazaraStackArray(int, 8), sb = NazaraStackArrayNoInit(int, 8); Nz::StackArray<int> sc(std::move(sa)); sa = std::move(sc);
	static_assert(Nz::FixedVector<int, 4>::FixedCapacity == 4);
}
template<typename B> void bitset()
{
	B a, b(10, true), c("0101"), d("0101", 3), e(std::string_view("01")), f(std::string("01")), g(5u), h(a), i(std::move(h)), j(Nz::UInt8(3)), k(Nz::UInt64(3)); const B& z = a;
	a.AppendBits(3u, 2); a.AppendBits(Nz::UInt8(3), 2); a.AppendBits(Nz::UInt64(3), 2); a.Clear(); use(z.Count()); a.Flip(); use(z.FindFirst()); use(z.FindNext(0)); use(z.GetBlock(0)); use(z.GetBlockCount()); use(z.GetCapacity()); use(z.GetSize());
	a.PerformsAND(b, c); a.PerformsNOT(b); a.PerformsOR(b, c); a.PerformsXOR(b, c); use(z.Intersects(b)); for (std::size_t bit : z.IterBits()) use(bit);
	auto it = z.IterBits().begin(); use(it++); use(++it); use(it == z.IterBits().end()); use(it != z.IterBits().end()); it = z.IterBits().end();
	a.Reserve(10); a.Resize(10); a.Resize(10, true); a.Reset(); a.Reset(1); a.Reverse(); a.Set(); a.Set(true); a.Set(std::size_t(1)); a.Set(1, false); a.SetBlock(0, 1); a.ShiftLeft(1); a.ShiftRight(1); a.Swap(b); std::swap(a, b);
	use(z.Test(0)); use(z.TestAll()); use(z.TestAny()); use(z.TestNone()); use(z.template To<Nz::UInt8>()); use(z.template To<Nz::UInt64>()); use(z.template To<unsigned int>()); use(z.ToString()); a.UnboundedReset(1); a.UnboundedSet(1); a.UnboundedSet(1, false); use(z.UnboundedTest(3));
	int x = 0; auto s = a.Write(&x, 8); s = a.Write(s, 8); a = B::FromPointer(&x, 8); a = B::FromPointer(&x, 8, &s);
	use(a[0]); use(z[0]); a[0] = true; a[0] = a[1]; a[0].Flip().Reset().Set().Set(false); use(a[0].Test()); a[0] |= true; a[0] &= true; a[0] ^= true; a[0] -= true; bool v = a[0]; use(v); auto bit = a[0]; auto bit2 = bit; use(bit2);
	use(~z); a = b; a = std::string_view("01"); a = 5u; a = std::move(b); use(z << 1); use(z >> 1); a <<= 1; a >>= 1; a &= c; a |= c; a ^= c; use(z & c); use(z | c); use(z ^ c);
	use(z == c); use(z != c); use(z < c); use(z <= c); use(z > c); use(z >= c); lv<std::ostream>() << z; use(B::fullBitMask); use(B::bitsPerBlock); use(B::npos);
}
void bitsets()
{
	bitset<Nz::Bitset<>>(); bitset<Nz::Bitset<Nz::UInt8>>(); bitset<Nz::Bitset<Nz::UInt16>>(); bitset<Nz::Bitset<Nz::UInt64>>(); bitset<Nz::Bitset<Nz::UInt32, Nz::FixedVector<Nz::UInt32, 8>>>(); bitset<Nz::FixedBitset<Nz::UInt64, 128>>(); bitset<Nz::HybridBitset<Nz::UInt64, 128>>(); bitset<Nz::FixedBitset<Nz::UInt8, 17>>(); bitset<Nz::HybridBitset<Nz::UInt16, 9>>();
}
void guards()
{
	int n = 0; Nz::CallOnExit a([&] { ++n; }); a.CallAndReset(); a.Reset(); Nz::CallOnExit<std::function<void()>> b, c([] {}); b = std::move(c); void(*fp)() = nullptr; Nz::CallOnExit d(std::move(fp)); d.Reset(); Nz::CallOnExit<std::unique_ptr<MoveOnly>(*)()> e; e.Reset();
}
template<typename A> void kv(A& a)
{
	const A& c = a;
	for (auto&& [k, v] : a.iter_kv()) { use(k); use(v); }
	for (auto&& [k, v] : c.iter_kv()) { use(k); use(v); }
	auto i = a.iter_kv().begin(), j = a.iter_kv().end(); auto ci = c.iter_kv().begin(), cj = c.iter_kv().end();
	use(*i); use(i[1]); use(i == j); use(i != j); use(i < j); use(i <= j); use(i > j); use(i >= j); use(i + 1); use(1 + i); use(i - 1); i += 1; i -= 1; use(i++); use(++i); use(i--); use(--i); i = j; i = std::move(j);
	use(*ci); use(ci[1]); use(ci == cj); use(ci != cj); use(ci < cj); use(ci <= cj); use(ci > cj); use(ci >= cj); use(ci + 1); use(1 + ci); use(ci - 1); ci += 1; ci -= 1; use(ci++); use(++ci); use(ci--); use(--ci); ci = cj; ci = std::move(cj);
	typename A::kv_iterator x = a.iter_kv().begin(); typename A::kv_const_iterator y = c.iter_kv().begin(); use(x); use(y);
}
void enumarrays()
{
	Nz::EnumArray<Four, int> a = {}; kv(a); use(a[Four::A]); use(std::as_const(a)[Four::A]); a.fill(3); a.swap(a); use(a.size()); use(a.begin()); use(a.rbegin()); use(a.data()); use(a == a); use(a != a); use(a < a); for (int& x : a) use(x);
	Nz::EnumArray<Four, std::string> s; kv(s); Nz::EnumArray<Plain, MoveOnly> m; kv(m); use(m[PlainA]); constexpr Nz::EnumArray<Four, int> k = { 1, 2, 3, 4 }; static_assert(k[Four::C] == 3);
}
template<typename E> void flag(E x, E y)
{
	using F = Nz::Flags<E>; F a, b(x), c = x, d(typename F::BitField(1)); const F& z = a; a.Clear(); a.Clear(b); use(z.Count()); a.Set(b); use(z.Test(b)); use(z.Test(x)); for (E e : z) use(e); use(z.size());
	auto it = z.begin(); use(it++); use(++it); use(*it); use(it == z.end()); use(it != z.end()); it = z.end();
	use(bool(z)); use(static_cast<typename F::BitField>(z)); use(static_cast<Nz::UInt64>(z)); use(~z); use(z & b); use(z | b); use(z ^ b); use(z & x); use(z | x); use(z ^ x); use(x & z); use(x | z); use(x ^ z); use(z == b); use(z != b); use(z == x); use(z != x);
	a |= b; a &= b; a ^= b; a |= x; a &= x; a ^= x; a = x; use(~x); use(x & y); use(x | y); use(x ^ y); use(F::GetFlagValue(x)); use(F::MaxBit); use(F::ValueMask); use(std::hash<F>{}(z)); std::unordered_set<F> us; us.insert(a); std::unordered_map<F, int> um; um[a] = 1; use(std::is_same_v<typename F::BitField, Nz::UInt8>);
}
void flagsets() { flag(Bits::A, Bits::B); flag(Masks::A, Masks::B); flag(ns::Adl::X, ns::Adl::Y); }
struct Callable { int operator()(int) { return 1; } int operator()(int) const { return 2; } void m(int) {} };
int freefn(int); int freefn2(int) noexcept;
void functions()
{
	Nz::FunctionRef<int(int)> a(nullptr), b(freefn), c(&freefn), d = [](int x) { return x; }, f(b), g(std::move(f)), h(freefn2); Callable cb; const Callable cc{}; Nz::FunctionRef<int(int)> i(cb), j(cc), k(std::function<int(int)>{}); use(a(1)); use(bool(a)); a = b; a = std::move(c); a = nullptr; Nz::FunctionRef deduced(&freefn); use(deduced(1)); Nz::FunctionRef<void(MoveOnly)> mo = [](MoveOnly) {}; mo(MoveOnly{}); Nz::FunctionRef<MoveOnly()> mr = [] { return MoveOnly{}; }; use(mr()); Nz::FunctionRef<const int&(std::string&, std::string&&)> rr = [](std::string&, std::string&&) -> const int& { static int q; return q; }; std::string s; use(rr(s, std::move(s))); Nz::FunctionRef<void()> discard = [] { return 3; }; discard();
}
template<typename T> void pool(T&& x)
{
	using V = std::decay_t<T>; using P = Nz::MemoryPool<V>; P p(4), q(std::move(p)); p = std::move(q); const P& z = p; std::size_t i; use(p.Allocate(i)); use(p.Allocate(i, std::forward<T>(x))); V* r = p.Allocate(P::DeferConstruct, i); Nz::PlacementNew(r); p.Free(i); p.Free(i, P::NoDestruction); use(z.GetAllocatedEntryCount()); use(z.GetBlockCount()); use(z.GetBlockSize()); use(z.GetFreeEntryCount()); p.Reset(); p.Clear(); use(p.RetrieveFromIndex(0)); const V* cr = z.RetrieveFromIndex(0); use(p.RetrieveEntryIndex(r)); use(p.RetrieveEntryIndex(cr)); use(p.size());
	for (V& e : p) use(e);
	for (const V& e : z) use(e);
	auto it = p.begin(); auto ci = z.begin(); auto cc = p.cbegin(); use(it.GetIndex()); use(ci.GetIndex()); use(it++); use(++it); use(ci++); use(++ci); use(*it); use(*ci); use(it == p.end()); use(it != p.end()); use(ci == z.end()); use(cc != p.cend()); it = p.end(); ci = z.end(); ci = std::move(cc); use(P::InvalidIndex);
}
void pools() { pool(3); pool(std::string()); pool(MoveOnly{}); pool(Wide{}); }
void movables()
{
	int n = 0; Nz::MovablePtr<int> a, b(&n), c(b), d(std::move(c)); a = b; a = std::move(b); a = &n; a = nullptr; use(a.Get()); int* p = a; use(p); use(a == nullptr); use(*a); if (a) use(1); Nz::MovablePtr<Full> f; use(f->v);
	Nz::MovableValue<int> v, w(3), x(w), y(std::move(x)); v = w; v = std::move(w); v = 4; int& r = v; const int& cr = std::as_const(v); int m = std::move(v); use(r); use(cr); use(m); use(v.Get()); use(std::as_const(v).Get()); use(std::move(v).Get()); Nz::MovableValue<std::string> s("abc"), t(std::string("x")); s = "def"; s = std::string(); Nz::MovableValue<std::unique_ptr<int>> u(std::make_unique<int>(3)), u2(std::move(u)); u = std::move(u2); u = nullptr;
	Nz::MovableLiteral<int, 5> l, l2(3), l3(l), l4(std::move(l3)); l = l2; l = std::move(l2); l = 4; int& lr = l; const int& lc = std::as_const(l); int lm = std::move(l); use(lr); use(lc); use(lm); use(l.Get()); use(std::as_const(l).Get()); use(std::move(l).Get()); const std::string cs; Nz::MovableValue<std::string> fromlv(cs); fromlv = cs; int iv = 2; Nz::MovableLiteral<int, 1> fl(iv); fl = iv;
}
template<typename P> void impl()
{
	P a, b(3), c(a), d(std::move(c)), e(1, 2); a = b; a = std::move(b); const P& z = a; Full* p = a.Get(); const Full* q = z.Get(); p = a; q = z; use(p); use(q); Full& r = *a; const Full& s = *z; use(r); use(s); use(a->v); use(z->v);
}
void impls() { impl<Nz::PrivateImpl<Full, 16>>(); impl<Nz::PrivateImpl<Full>>(); Nz::PrivateImpl<Full> n(nullptr), o(new Full); use(n.Emplace()); use(n.Emplace(3)); use(n.HasValue()); n.Reset(); use(bool(n)); Nz::PrivateImpl<MoveOnly, 16> m(3); use(m->v); }
void results()
{
	using R = Nz::Result<int, std::string>; R a(3), b(Nz::Ok(3)), c(Nz::Err("x")), d(R::ValueTag{}, 3), e(R::ErrorTag{}, "x"), f, g(a), h(std::move(g)); a = b; a = std::move(b); a = Nz::Ok(4); a = Nz::Err(std::string("y")); const R& z = a; z.Expect("x"); z.Expect(std::string("x"));
	use(a.GetError()); use(z.GetError()); use(std::move(a).GetError()); use(a.GetValue()); use(z.GetValue()); use(std::move(a).GetValue()); use(z.GetValueOr(3)); use(std::move(a).GetValueOr(3)); use(z.IsErr()); use(z.IsOk()); use(z.Map([](int x) { return x * 2.0; })); use(std::move(a).Map([](int&& x) { return std::to_string(x); })); use(bool(z)); use(*a); use(*z); use(*std::move(a)); Nz::Result<Full, int> fr(Full{ 1 }); use(fr->v); use(std::as_const(fr)->v);
	Nz::Result<long, std::string> l(a), l2(std::move(a)); std::string lve("x"); R le(Nz::Err(lve)); int lvv = 3; R lv2(Nz::Ok(lvv)); R lv3(lvv); Nz::Result<MoveOnly, int> mo(MoveOnly{}); use(std::move(mo).GetValue()); use(std::move(mo).GetValueOr(MoveOnly{})); Nz::Result<MoveOnly, int> mo2 = Nz::Ok(MoveOnly{}); use(std::move(mo2).Map([](MoveOnly&& m) { return m.v; }));
	using V = Nz::Result<void, std::string>; V va(Nz::Ok()), vb(Nz::Err("x")), vc(V::ValueTag{}), vd(V::ErrorTag{}, "x"), ve(va), vf(std::move(ve)); va = vb; va = std::move(vb); const V& vz = va; vz.Expect("x"); vz.Expect(std::string("x")); use(va.GetError()); use(vz.GetError()); use(std::move(va).GetError()); use(vz.IsErr()); use(vz.IsOk()); use(vz.Map([] { return 3; })); use(std::move(va).Map([] { return std::string(); })); use(bool(vz)); Nz::Result<void, const char*> vs(Nz::Err("x")); V vw(vs), vx(std::move(vs)); Nz::Result<int, std::string> same = [](bool x) -> R { if (x) return Nz::Ok(1); return Nz::Err("no"); }(true); use(same);
	use(z.Map([](const int&) {})); use(std::move(a).Map([](int&&) {})); use(vz.Map([] {})); use(std::move(va).Map([] {}));
}
struct Slots { void a(int, const std::string&) {} void b(int, const std::string&) const {} };
void signals()
{
	using S = Nz::Signal<int, const std::string&>; S s, t(s), u(std::move(t)); s = u; s = std::move(u); s.Clear(); Slots o; const Slots co; S::Callback f = [](int, const std::string&) {}; S::Connection c = s.Connect(f); c = s.Connect(S::Callback(f)); c = s.Connect([](int, const std::string&) {}); c = s.Connect(o, &Slots::a); c = s.Connect(&o, &Slots::a); c = s.Connect(co, &Slots::b); c = s.Connect(&co, &Slots::b); s(1, "x"); std::as_const(s)(1, "x");
	S::Connection d, e(c), g(std::move(e)); d = c; d = std::move(g); d.Connect(s, f); d.Connect(s, [](int, const std::string&) {}); d.Connect(s, o, &Slots::a); d.Disconnect(); use(std::as_const(d).IsConnected());
	S::ConnectionGuard cg, ch(c), ci(std::move(c)), cj(std::move(ch)); cg = d; cg = std::move(d); cg = std::move(cj); cg.Connect(s, f); cg.Connect(s, &o, &Slots::a); cg.Disconnect(); use(cg.GetConnection()); use(std::as_const(cg).IsConnected());
	struct Owner { NazaraSignal(OnThing, const Owner*, int); NazaraSlot(Owner, OnThing, slot); } ow; ow.slot.Connect(ow.OnThing, [](const Owner*, int) {});
}
template<typename P, typename T> void sparse(T* p)
{
	P a, b(p), c(p, 8), d(p, std::size_t(8)), e(a); use(a.GetPtr()); use(a.GetStride()); a.Reset(); a.Reset(p); a.Reset(p, 8); a.Reset(b); a.SetPtr(p); a.SetStride(4); use(bool(a)); use(static_cast<T*>(a)); use(*a); use(a->v); use(a[0]); use(a[0u]); use(a[std::size_t(0)]); use(a[-1]); a = b; use(a + 1); use(a - 1); use(a + 1u); use(a - std::size_t(1)); use(a - b); a += 1; a -= 1; a += 1u; a -= 1u; use(++a); use(a++); use(--a); use(a--); use(a == b); use(a != b); use(a < b); use(a > b); use(a <= b); use(a >= b);
}
void sparses() { Full f; const Full cf; sparse<Nz::SparsePtr<Full>>(&f); sparse<Nz::SparsePtr<const Full>>(&cf); Nz::SparsePtr<Full> a(&f); Nz::SparsePtr<const Full> b(a), c = a; b.Reset(a); b = a; Nz::SparsePtr de(&f), df(&f, 8), dg(&f, std::size_t(8)); Derived der; Nz::SparsePtr<Derived> pd(&der); Nz::SparsePtr<Base> pb(pd); pb.Reset(pd); use(std::is_same_v<decltype(de), Nz::SparsePtr<Full>>); use(sizeof(typename std::iterator_traits<Nz::SparsePtr<Full>>::value_type)); std::sort(a, a + 1); use(df); use(dg); }
template<typename T> void integers(T x)
{
	use(Nz::ArithmeticRightShift(x, 1)); use(Nz::ArithmeticRightShift(x, 1u)); use(Nz::ByteSwap(x)); use(Nz::ClearBit(x, T(1))); use(Nz::CountBits(x)); use(Nz::FindFirstBit(x)); use(Nz::FindLastBit(x)); use(Nz::ReverseBits(x)); use(Nz::SetBit(x, T(1))); use(Nz::TestBit(x, T(1))); use(Nz::ToggleBit(x, T(1))); use(Nz::Align(x, T(4))); use(Nz::AlignPow2(x, T(4))); use(Nz::Approach(x, T(1), T(1))); use(Nz::Clamp(x, T(1), T(2))); use(Nz::GetNearestPowerOfTwo(x)); use(Nz::IntegralLog2(x)); use(Nz::IntegralLog2Pot(x)); use(Nz::IntegralPow(x, 2)); use(Nz::IsPow2(x)); use(Nz::Mod(x, T(3))); use(Nz::MultiplyAdd(x, x, x)); use(Nz::NumberEquals(x, x)); use(Nz::NumberEquals(x, x, T(1))); use(Nz::RoundToPow2(x)); use(Nz::Lerp(x, x, 0.5f));
	use(Nz::BigEndianToHost(x)); use(Nz::LittleEndianToHost(x)); use(Nz::HostToBigEndian(x)); use(Nz::HostToLittleEndian(x)); use(Nz::SafeCast<int>(x)); use(Nz::SafeCast<unsigned char>(x)); use(Nz::SafeCast<long long>(x)); use(Nz::SafeCast<float>(x)); use(Nz::BitCount<T>); use(Nz::MaxValue<T>()); use(Nz::MinValue<T>()); T lim = Nz::MaxValue(); T low = Nz::MinValue(); use(lim); use(low); int y = Nz::SafeCaster(x); use(y);
	static_assert(Nz::CountBits(T(5)) == 2 && Nz::FindFirstBit(T(4)) == 3 && Nz::FindLastBit(T(5)) == 3 && Nz::IntegralLog2(T(9)) == 3 && Nz::IntegralLog2Pot(T(8)) == 3 && Nz::IsPow2(T(8)) && Nz::GetNearestPowerOfTwo(T(9)) == 16 && Nz::Align(T(5), T(4)) == 8 && Nz::SetBit(T(1), T(2)) == 5 && Nz::ByteSwap(Nz::ByteSwap(T(3))) == T(3));
}
template<typename T> void floats(T x)
{
	use(Nz::Approach(x, T(1), T(1))); use(Nz::Clamp(x, T(1), T(2))); use(Nz::DegreeToRadian(x)); use(Nz::RadianToDegree(x)); use(Nz::IsFinite(x)); use(Nz::IsInfinity(x)); use(Nz::IsNaN(x)); use(Nz::Lerp(x, x, x)); use(Nz::Mod(x, x)); use(Nz::MultiplyAdd(x, x, x)); use(Nz::NumberEquals(x, x)); use(Nz::NumberEquals(x, x, x)); use(Nz::IntegralPow(x, 2)); use(Nz::SafeCast<int>(x)); use(Nz::SafeCast<float>(x)); use(Nz::SafeCast<double>(x)); T pi = Nz::Pi(), inf = Nz::Infinity(), nan = Nz::NaN(), hp = Nz::HalfPi(), tau = Nz::Tau(), s2 = Nz::Sqrt2(), s3 = Nz::Sqrt3(), s5 = Nz::Sqrt5(); use(pi + inf + nan + hp + tau + s2 + s3 + s5);
	use(Nz::Pi<T>() + Nz::HalfPi<T>() + Nz::Tau<T>() + Nz::Sqrt2<T>() + Nz::Sqrt3<T>() + Nz::Sqrt5<T>() + Nz::Infinity<T>() + Nz::NaN<T>() + Nz::MaxValue<T>() + Nz::MinValue<T>());
}
void math()
{
	integers<signed char>(1); integers<unsigned char>(1); integers<short>(1); integers<unsigned short>(1); integers(1); integers(1u); integers(1l); integers(1ul); integers(1ll); integers(1ull); floats(1.f); floats(1.0); use(Nz::ByteSwap(1.f)); use(Nz::ByteSwap(1.0)); use(Nz::BigEndianToHost(1.f)); use(Nz::HostToLittleEndian(1.0));
	static_assert(std::is_same_v<Nz::FloatType_t<32>, float> && std::is_same_v<Nz::FloatType_t<64>, double> && std::is_same_v<Nz::SignedIntegerType_t<8>, Nz::Int8> && std::is_same_v<Nz::SignedIntegerType_t<16>, Nz::Int16> && std::is_same_v<Nz::SignedIntegerType_t<32>, Nz::Int32> && std::is_same_v<Nz::SignedIntegerType_t<64>, Nz::Int64> && std::is_same_v<Nz::UnsignedIntegerType_t<8>, Nz::UInt8> && std::is_same_v<Nz::UnsignedIntegerType_t<16>, Nz::UInt16> && std::is_same_v<Nz::UnsignedIntegerType_t<32>, Nz::UInt32> && std::is_same_v<Nz::UnsignedIntegerType_t<64>, Nz::UInt64>);
	static_assert(Nz::NumberEquals(1, 1) && Nz::NumberEquals(1.f, 1.f) && Nz::NumberEquals(3u, 5u, 2u) && !Nz::NumberEquals(5, 2, 2) && Nz::NumberEquals(2, 5, 3));
}
void hashes()
{
	const Nz::UInt8* p = nullptr; use(Nz::CRC32("x")); use(Nz::CRC32(std::string_view("x"))); use(Nz::CRC32(p, 0)); use(Nz::CRC32Hash{}("x")); use(Nz::CRC32Hash{}(p, 0)); use(Nz::FNV1a32("x")); use(Nz::FNV1a32(std::string_view("x"))); use(Nz::FNV1a32(p, 0)); use(Nz::FNV1a32Hash{}(std::string_view("x"))); use(Nz::FNV1a64("x")); use(Nz::FNV1a64(std::string_view("x"))); use(Nz::FNV1a64(p, 0)); use(Nz::FNV1a64Hash{}("x")); use(Nz::HashFunctor<Nz::CRC32Hash>{}("x")); const char* cs = "x"; use(Nz::CRC32(cs)); use(Nz::FNV1a32(cs)); use(Nz::FNV1a64(cs));
	std::size_t seed = 0; Nz::HashCombine(seed, 3); Nz::HashCombine(seed, std::string("x")); use(Nz::HashCombine(1, 2.0, std::string("x"))); use(Nz::HashCombine(1)); Nz::StringHash<> sh; use(sh("x")); use(sh(std::string("x"))); use(sh(std::string_view("x"))); std::unordered_map<std::string, int, Nz::StringHash<>, std::equal_to<>> um; um["x"] = 1;
	constexpr Nz::UInt32 crc = Nz::CRC32("123456789"); static_assert(crc == 0xCBF43926); static_assert(Nz::FNV1a32(std::string_view("a")) == 0xE40C292C); static_assert(Nz::FNV1a64(std::string_view("a")) == 0xAF63DC4C8601EC8C);
}
struct Offsets { int a; char b; double c; };
void helpers()
{
	int x = 3; const void* cv = &x; void* v = &x; use(Nz::AccessByOffset<int&>(v, 0)); use(Nz::AccessByOffset<int*>(v, 0)); use(Nz::AccessByOffset<const int&>(cv, 0)); use(Nz::AccessByOffset<const int*>(cv, 0)); use(Nz::BitCast<float>(x)); int arr[3]; use(Nz::CountOf(arr)); use(Nz::CountOf(std::string("x"))); use(Nz::CountOf(std::vector<int>{})); static_assert(Nz::CountOf("abc") == 4);
	use(Nz::IntegerToPointer<int*>(std::uintptr_t(0))); use(Nz::PointerToInteger<std::uintptr_t>(&x)); std::map<int, std::string> m; const auto& cm = m; std::string& r = Nz::Retrieve(m, 3); const std::string& cr = Nz::Retrieve(cm, 3); use(r); use(cr); std::unordered_map<std::string, int> um; use(Nz::Retrieve(um, "x")); Base* b = nullptr; use(Nz::SafeCast<Derived*>(b)); const Base* cb = nullptr; use(Nz::SafeCast<const Derived*>(cb)); Derived d; Base& br = d; use(Nz::SafeCast<Derived&>(br)); use(Nz::SafeCast<Base*>(&d)); use(Nz::SafeCast<Four>(2)); use(Nz::SafeCast<int>(Four::A)); use(Nz::StaticUniquePointerCast<Derived>(std::unique_ptr<Base>())); use(Nz::UnderlyingCast(Four::A)); Derived* dp = Nz::SafeCaster(b); use(dp);
	use(Nz::PlacementNew(&x, 3)); Nz::PlacementDestroy(&x); use(NazaraOffsetOf(Offsets, b)); use(NazaraOffsetOf(Offsets, c)); use(Nz::PathToString(std::filesystem::path("x"))); use(Nz::Utf8Path("x")); use(Nz::TypeName<int>()); use(Nz::FromUtf8String(u8"x")); use(Nz::ToUtf8String("x")); use(Nz::ToUtf8String(std::string("x"))); use(Nz::ToUtf8String(std::string_view("x")));
	std::visit(Nz::Overloaded{ [](int) {}, [](const std::string&) {} }, std::variant<int, std::string>{}); NazaraAssert(x == 3); NazaraAssertMsg(x == 3, "x"); NazaraAssertMsg(x == 3, "x %d", x); Nz::Assert(true); Nz::Assert(true, "x"); Nz::Assert(true, "x %d", 3); Nz::AssertWithSource(true, "f", 1, "x"); if (x) Nz::AssertFailure(); if (x) Nz::AssertFailure("x"); if (x) Nz::AssertFailure("x %d", 3); if (x) Nz::AssertFailureWithSource("f", 1, "x");
}
