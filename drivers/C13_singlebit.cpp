// Setting, clearing, toggling and testing one bit of every integer type.
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>
namespace
{
	template<typename T, typename F> void each(T r, T v, S k, F f, const char* what) { for (S i = 0; i < W<T>; ++i) nz_check(bitof(r, i) == (i == k ? static_cast<bool>(f(bitof(v, i))) : bitof(v, i)), what); }
	template<typename T> void set() { T v = any<T>(); S k = nz_pick(W<T>); each<T>(Nz::SetBit(v, static_cast<T>(k)), v, k, [](bool) { return true; }, "setting a bit sets it and no other"); }
	template<typename T> void clear() { T v = any<T>(); S k = nz_pick(W<T>); each<T>(Nz::ClearBit(v, static_cast<T>(k)), v, k, [](bool) { return false; }, "clearing a bit clears it and no other"); }
	template<typename T> void toggle() { T v = any<T>(); S k = nz_pick(W<T>); each<T>(Nz::ToggleBit(v, static_cast<T>(k)), v, k, [](bool b) { return !b; }, "toggling a bit toggles it and no other"); }
	template<typename T> void test() { T v = any<T>(); S k = nz_pick(W<T>); nz_check(Nz::TestBit(v, static_cast<T>(k)) == bitof(v, k), "testing a bit"); }
}
EACH_INT(INT_ENTRY, set) EACH_INT(INT_ENTRY, clear) EACH_INT(INT_ENTRY, toggle) EACH_INT(INT_ENTRY, test)
