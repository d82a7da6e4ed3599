// Sizes and alignments of representative types, as constants of the generated assembly: they must not depend on the build configuration.
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <string>
enum class E { A, B, C, Max = C };
namespace Nz { template<> struct EnumAsFlags<E> { static constexpr E max = E::Max; }; }
struct alignas(32) Wide { char c[40]; };
struct Fn { void* p; void operator()() {} };
#define T(n, ...) extern "C" { extern const unsigned long long size_##n = sizeof(__VA_ARGS__); extern const unsigned long long align_##n = alignof(__VA_ARGS__); }
T(bitset8, Nz::Bitset<std::uint8_t>) T(bitset, Nz::Bitset<>) T(bitset_bit, Nz::Bitset<>::Bit) T(bitset_iter, Nz::Bitset<>::BitIterator) T(bitset_fixed, Nz::Bitset<std::uint8_t, Nz::FixedVector<std::uint8_t, 3>>)
T(callonexit, Nz::CallOnExit<Fn>) T(enumarray, Nz::EnumArray<E, short>) T(enumarray_wide, Nz::EnumArray<E, Wide>)
T(fixed, Nz::FixedVector<int, 3>) T(fixed_wide, Nz::FixedVector<Wide, 2>) T(fixed_str, Nz::FixedVector<std::string, 2>) T(hybrid, Nz::HybridVector<int, 3>) T(hybrid_wide, Nz::HybridVector<Wide, 2>)
T(flags, Nz::Flags<E>) T(functionref, Nz::FunctionRef<int(int)>) T(pool, Nz::MemoryPool<int>) T(pool_wide, Nz::MemoryPool<Wide, 32>) T(pool_iter, Nz::MemoryPool<int>::iterator)
T(movableptr, Nz::MovablePtr<int>) T(movablevalue, Nz::MovableValue<std::string>) T(movableliteral, Nz::MovableLiteral<int, 3>)
T(impl, Nz::PrivateImpl<Wide>) T(impl_inplace, Nz::PrivateImpl<int, 24>) T(result, Nz::Result<std::string, int>) T(result_void, Nz::Result<void, Wide>) T(result_small, Nz::Result<char, char>)
T(signal, Nz::Signal<int, const std::string&>) T(connection, Nz::Signal<int>::Connection) T(guard, Nz::Signal<int>::ConnectionGuard)
T(sparse, Nz::SparsePtr<int>) T(stackarray, Nz::StackArray<int>) T(stackvector, Nz::StackVector<int>) T(tag, Nz::TypeTag<int>)
