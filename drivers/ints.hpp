// Helpers of the integer scenarios: arbitrary values of every integer type, and values with a known highest or lowest set bit.
#pragma once
#include "nz.hpp"
#include <NazaraUtils/Prerequisites.hpp>
#include <NazaraUtils/ConstantEvaluated.hpp>
#ifdef NZ_CONSTEVAL // the branches taken during constant evaluation
	#undef NAZARA_IS_CONSTEVAL
	#undef NAZARA_IS_RUNTIME_EVAL
	#define NAZARA_IS_CONSTEVAL() (true)
	#define NAZARA_IS_RUNTIME_EVAL() (false)
#endif
#include <type_traits>
using S = std::size_t;
template<S N> struct UIntOf; template<> struct UIntOf<1> { using t = std::uint8_t; static t any() { return nz_any_u8(); } }; template<> struct UIntOf<2> { using t = std::uint16_t; static t any() { return nz_any_u16(); } };
template<> struct UIntOf<4> { using t = std::uint32_t; static t any() { return nz_any_u32(); } }; template<> struct UIntOf<8> { using t = std::uint64_t; static t any() { return nz_any_u64(); } };
template<typename T> using Un = typename UIntOf<sizeof(T)>::t;
template<typename T> constexpr S W = sizeof(T) * 8;
template<typename T> Un<T> anyu() { return UIntOf<sizeof(T)>::any(); }
template<typename T> T any() { return static_cast<T>(anyu<T>()); }
template<typename T> bool bitof(T v, S i) { return ((static_cast<Un<T>>(v) >> i) & 1) != 0; }
template<typename T> Un<T> below(S p) { return static_cast<Un<T>>((Un<T>(1) << p) - 1); }
template<typename T> T withtop(S p) { return static_cast<T>((anyu<T>() & below<T>(p)) | (Un<T>(1) << p)); } // p is the highest set bit
template<typename T> T withlow(S p) { return static_cast<T>((anyu<T>() & static_cast<Un<T>>(~below<T>(p))) | (Un<T>(1) << p)); } // p is the lowest set bit
#define EACH_NARROW(X, name) X(i8, signed char, name) X(u8, unsigned char, name) X(c8, char, name) X(i16, short, name) X(u16, unsigned short, name)
#define EACH_WIDE(X, name) X(i32, int, name) X(u32, unsigned int, name) X(il, long, name) X(ul, unsigned long, name) X(i64, long long, name) X(u64, unsigned long long, name)
#define EACH_INT(X, name) EACH_NARROW(X, name) EACH_WIDE(X, name)
#define INT_ENTRY(tag, T, name) extern "C" void d_##name##_##tag() { name<T>(); }
