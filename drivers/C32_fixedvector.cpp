// FixedVector: lifetimes, contents and sizes for every size up to the capacity and every contents.
#include "vecscn.hpp"
#include <NazaraUtils/FixedVector.hpp>
template<std::size_t N> struct Kit { using V = Nz::FixedVector<ProbeN, N>; static void bound(std::size_t n) { nz_assume(n <= N); } };
using K1 = Kit<1>; using K6 = Kit<6>; using K40 = Kit<70000>;
VEC_SCENARIOS(K6, six)
VEC_SCENARIOS(K40, forty)
VEC_SCENARIOS_ONE(K1, one) // no room for the other two
