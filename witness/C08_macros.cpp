// Configuration macros describe the compiler, the language version and the target, and leave the meaning of the code alone.
#include <NazaraUtils/Prerequisites.hpp>
#include <NazaraUtils/Concepts.hpp>
#include <NazaraUtils/ConstantEvaluated.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/DebugBreak.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <string_view>
#include <type_traits>
// exactly one compiler, told by its version
#if defined(NAZARA_COMPILER_CLANG) + defined(NAZARA_COMPILER_GCC) + defined(NAZARA_COMPILER_ICC) + defined(NAZARA_COMPILER_MSVC) + defined(NAZARA_COMPILER_UNKNOWN) != 1
	#error one compiler
#endif
#ifdef __clang__
	#ifndef NAZARA_COMPILER_CLANG
		#error clang
	#endif
	static_assert(NAZARA_COMPILER_CLANG_VER == __clang_major__ * 100 + __clang_minor__);
	static_assert(NAZARA_CHECK_CLANG_VER(__clang_major__ * 100) && NAZARA_CHECK_CLANG_VER(500) && NAZARA_CHECK_CLANG_VER(NAZARA_COMPILER_CLANG_VER) && !NAZARA_CHECK_CLANG_VER(NAZARA_COMPILER_CLANG_VER + 1) && !NAZARA_CHECK_GCC_VER(0) && !NAZARA_CHECK_GCC_VER(900));
#else
	#ifndef NAZARA_COMPILER_GCC
		#error gcc
	#endif
	static_assert(NAZARA_COMPILER_GCC_VER == __GNUC__ * 100 + __GNUC_MINOR__);
	static_assert(NAZARA_CHECK_GCC_VER(__GNUC__ * 100) && NAZARA_CHECK_GCC_VER(900) && NAZARA_CHECK_GCC_VER(NAZARA_COMPILER_GCC_VER) && !NAZARA_CHECK_GCC_VER(NAZARA_COMPILER_GCC_VER + 1) && !NAZARA_CHECK_CLANG_VER(0) && !NAZARA_CHECK_CLANG_VER(900));
#endif
static_assert(!NAZARA_CHECK_MSVC_VER(0) && !NAZARA_CHECK_ICC_VER(0) && !NAZARA_CHECK_NDK_VER(0));
// the language version
static_assert(NAZARA_CPP_VER == __cplusplus && NAZARA_CHECK_CPP_VER(__cplusplus) && !NAZARA_CHECK_CPP_VER(__cplusplus + 1) && NAZARA_CHECK_CPP_VER(NAZARA_CPP17) && NAZARA_CHECK_CPP_VER(NAZARA_CPP11));
static_assert(NAZARA_CHECK_CPP_VER(NAZARA_CPP20) == (__cplusplus >= 202002L) && NAZARA_CHECK_CPP_VER(NAZARA_CPP23) == (__cplusplus >= 202302L));
static_assert(NAZARA_CPP98 < NAZARA_CPP11 && NAZARA_CPP11 < NAZARA_CPP14 && NAZARA_CPP14 < NAZARA_CPP17 && NAZARA_CPP17 < NAZARA_CPP20 && NAZARA_CPP20 < NAZARA_CPP23);
// the target: Linux on x86-64, in this sandbox
#if !defined(NAZARA_PLATFORM_LINUX) || !defined(NAZARA_PLATFORM_POSIX) || !defined(NAZARA_PLATFORM_DESKTOP) || defined(NAZARA_PLATFORM_WINDOWS) || defined(NAZARA_PLATFORM_BSD) || defined(NAZARA_PLATFORM_MOBILE) || defined(NAZARA_PLATFORM_WEB) || defined(NAZARA_PLATFORM_ANDROID) || defined(NAZARA_PLATFORM_UNKNOWN)
	#error platform
#endif
#if !defined(NAZARA_ARCH_x86_64) || defined(NAZARA_ARCH_x86) || defined(NAZARA_ARCH_arm) || defined(NAZARA_ARCH_aarch64) || defined(NAZARA_ARCH_wasm32) || defined(NAZARA_ARCH_wasm64)
	#error architecture
#endif
static_assert(Nz::PlatformEndianness == (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__ ? Nz::Endianness::LittleEndian : Nz::Endianness::BigEndian));
// sized integers
template<typename T, int Bits, bool Signed> constexpr bool sized = sizeof(T) * 8 == Bits && std::is_integral_v<T> && std::is_signed_v<T> == Signed;
static_assert(sized<Nz::Int8, 8, true> && sized<Nz::Int16, 16, true> && sized<Nz::Int32, 32, true> && sized<Nz::Int64, 64, true>);
static_assert(sized<Nz::UInt8, 8, false> && sized<Nz::UInt16, 16, false> && sized<Nz::UInt32, 32, false> && sized<Nz::UInt64, 64, false>);
// branch hints keep the value of the condition, in every form of statement
constexpr int hints(int x)
{
	int r = 0;
	if NAZARA_LIKELY(x > 3) r |= 1;
	if NAZARA_UNLIKELY(x > 3) r |= 2; else r |= 4;
	if NAZARA_LIKELY(x > 3 && x < 9) { r |= 8; } else if NAZARA_UNLIKELY(x == 2) r |= 16;
	if NAZARA_UNLIKELY(x & 6) r |= 32; // not only 0 and 1
	if NAZARA_LIKELY(x & 6) r |= 64;
	if NAZARA_LIKELY((x == 1, x == 5)) r |= 128;
	while NAZARA_LIKELY(x > 0) --x;
	return r + x * 1000;
}
static_assert(hints(5) == 1 + 2 + 8 + 32 + 64 + 128 && hints(2) == 4 + 16 + 32 + 64 && hints(0) == 4 && hints(9) == 1 + 2 && hints(4) == 1 + 2 + 8 + 32 + 64);
// an assumption that holds changes nothing, in constant expressions too
constexpr int assumed(int x) { NAZARA_ASSUME(x > 0); return x * 2; }
static_assert(assumed(4) == 8);
constexpr int branch(int x) { if (x > 0) return x; if (x == 0) return 7; NAZARA_UNREACHABLE(); }
static_assert(branch(3) == 3 && branch(0) == 7);
NAZARA_FORCEINLINE constexpr int inlined(int x) { return x + 1; }
static_assert(inlined(1) == 2);
NAZARA_DEPRECATED("old") constexpr int deprecated() { return 4; }
static_assert(deprecated() == 4);
constexpr int unused(int a) { NazaraUnused(a); return 1; }
static_assert(unused(3) == 1);
#ifdef FAIL_unreachable_is_not_constant
constexpr int bad = branch(-1);
#endif
// token macros
#define LEFT left
#define RIGHT right
constexpr int leftright = 1, rightleft = 2;
static_assert(NazaraPrefix(right, left) == 1 && NazaraSuffix(left, right) == 1 && NazaraPrefixMacro(RIGHT, LEFT) == 1 && NazaraSuffixMacro(LEFT, RIGHT) == 1 && NazaraPrefixMacro(LEFT, RIGHT) == 2 && NazaraSuffixMacro(RIGHT, LEFT) == 2);
static_assert(std::string_view(NazaraStringify(LEFT)) == "LEFT" && std::string_view(NazaraStringifyMacro(LEFT)) == "left" && std::string_view(NazaraStringify(a + "b")) == "a + \"b\"");
static_assert(NAZARA_ANONYMOUS_NAMESPACE_PREFIX(leftright) == 1);
namespace N { namespace NAZARA_ANONYMOUS_NAMESPACE { constexpr int hidden = 3; } NAZARA_USE_ANONYMOUS_NAMESPACE static_assert(hidden == 3); }
NAZARA_WARNING_PUSH()
NAZARA_WARNING_CLANG_GCC_DISABLE("-Wunused-variable")
NAZARA_WARNING_GCC_DISABLE("-Wunused-variable")
NAZARA_WARNING_CLANG_DISABLE("-Wunused-variable")
NAZARA_WARNING_MSVC_DISABLE(4100)
NAZARA_WARNING_ICC_DISABLE(1)
constexpr int afterwarnings = 1;
NAZARA_WARNING_POP()
static_assert(afterwarnings == 1);
// which evaluation a branch is for
#ifdef NAZARA_HAS_CONSTEVAL
constexpr int evaluation() { int r = 0; if NAZARA_IS_CONSTEVAL() { r |= 1; } else { r |= 2; } if NAZARA_IS_RUNTIME_EVAL() { r |= 4; } else { r |= 8; } return r; }
static_assert(evaluation() == 9);
#else
	#error both compilers tell constant evaluation apart
#endif
NAZARA_CONSTEXPR20 int c20() { return 3; }
static_assert(c20() == 3);
#ifdef NAZARA_HAS_CONSTEXPR_BITCAST
NAZARA_CONSTEXPR_BITCAST Nz::UInt32 one() { return Nz::BitCast<Nz::UInt32>(1.f); }
static_assert(one() == 0x3f800000);
#else
	#error both compilers cast bits in constant expressions
#endif
// concepts: checked where the language has them
template<NAZARA_STD_CONCEPT_T(std::integral) T> constexpr int pick(T) { return 1; } constexpr int pick(...) { return 0; }
static_assert(pick(3) == 1 && pick(1.5) == (__cplusplus >= 202002L ? 0 : 1));
#if __cplusplus >= 202002L
	#if !defined(NAZARA_HAS_CONCEPTS) || !defined(NAZARA_HAS_STD_CONCEPTS)
		#error concepts
	#endif
	static_assert(Nz::Arithmetic<int> && Nz::Arithmetic<bool> && Nz::Arithmetic<long double> && !Nz::Arithmetic<int*> && !Nz::Arithmetic<std::string_view> && !Nz::Arithmetic<int&>);
	template<typename T> concept Big = sizeof(T) > 4;
	template<NAZARA_CONCEPT_T(Big) T> constexpr int big(T) { return 1; } constexpr int big(...) { return 0; }
	static_assert(big(1ll) == 1 && big('a') == 0);
#endif
template<typename T> constexpr int tagged(Nz::TypeTag<T>) { return sizeof(T); }
static_assert(tagged(Nz::TypeTag<double>{}) == 8 && tagged(Nz::TypeTag<char>()) == 1 && std::is_empty_v<Nz::TypeTag<int>> && !std::is_same_v<Nz::TypeTag<int>, Nz::TypeTag<const int>>);
void breaks() { NazaraDebugBreak(); }
