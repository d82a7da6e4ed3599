// HybridVector: same scenarios across the inline storage, the fallback container and the transition between them.
// The fallback is any container behaving as a vector of unbounded capacity (anyvec.hpp).
#include "vecscn.hpp"
#include "anyvec.hpp"
#include <NazaraUtils/FixedVector.hpp>
template<std::size_t N> struct Kit { using V = Nz::FixedVector<ProbeN, N, AnyVector<ProbeN>>; static void bound(std::size_t n) { nz_assume(n <= 100000); } };
using K1 = Kit<1>; using K3 = Kit<3>; using K40 = Kit<300>;
VEC_SCENARIOS(K3, three)
VEC_SCENARIOS(K40, forty)
VEC_SCENARIOS(K1, one)
