#pragma once
#include "KokkosBatched_Util.hpp"
namespace KokkosBatched {
namespace shim {
template <bool TA, bool TB, class S, class A, class B, class C>
void rows(size_t i, const S alpha, const A& a, const B& b, const S beta, const C& c)
{
    const size_t n = c.extent(1), k = TA ? a.extent(0) : a.extent(1);
    for (size_t j = 0; j < n; ++j) {
        typename C::non_const_value_type s{};
        for (size_t l = 0; l < k; ++l)
            s += (TA ? a(l, i) : a(i, l)) * (TB ? b(j, l) : b(l, j));
        c(i, j) = (beta == S(0) ? typename C::non_const_value_type(0) : beta * c(i, j)) + alpha * s;
    }
}
template <bool TA, bool TB, class A, class B, class C>
void check(const A& a, const B& b, const C& c)
{
    const size_t m = c.extent(0), n = c.extent(1), k = TA ? a.extent(0) : a.extent(1);
    if ((TA ? a.extent(1) : a.extent(0)) != m || (TB ? b.extent(1) : b.extent(0)) != k || (TB ? b.extent(0) : b.extent(1)) != n)
        Kokkos::shim::die("KokkosBatched gemm: extents do not match");
}
}  // namespace shim
template <class M, class TrA, class TrB, class Alg>
struct TeamGemm {
    template <class S, class A, class B, class C>
    static int invoke(const M& m, const S alpha, const A& a, const B& b, const S beta, const C& c)
    {
        shim::check<TrA::transposed, TrB::transposed>(a, b, c);
        Kokkos::parallel_for(Kokkos::TeamThreadRange(m, c.extent(0)),
                             [&](const int i) { shim::rows<TrA::transposed, TrB::transposed>(i, alpha, a, b, beta, c); });
        return 0;
    }
};
template <class M, class TrA, class TrB, class Alg>
struct TeamVectorGemm : TeamGemm<M, TrA, TrB, Alg> {};
template <class TrA, class TrB, class Alg>
struct SerialGemm {
    template <class S, class A, class B, class C>
    static int invoke(const S alpha, const A& a, const B& b, const S beta, const C& c)
    {
        shim::check<TrA::transposed, TrB::transposed>(a, b, c);
        for (size_t i = 0; i < c.extent(0); ++i)
            shim::rows<TrA::transposed, TrB::transposed>(i, alpha, a, b, beta, c);
        return 0;
    }
};
}  // namespace KokkosBatched
