#pragma once
#include "Kokkos_Core.hpp"
#include "KokkosBatched_Util.hpp"
namespace KokkosBlas {
using Kokkos::View;
template <class X, class Y>
auto dot(const X& x, const Y& y)
{
    if (x.extent(0) != y.extent(0))
        Kokkos::shim::die("KokkosBlas::dot: extents differ");
    typename X::non_const_value_type s{};
    for (size_t i = 0; i < x.extent(0); ++i)
        s += x(i) * y(i);
    return s;
}
template <class X>
auto sum(const X& x)
{
    typename X::non_const_value_type s{};
    for (size_t i = 0; i < x.extent(0); ++i)
        s += x(i);
    return s;
}
template <class A, class X, class Y>
void axpy(const A& a, const X& x, const Y& y)
{
    for (size_t i = 0; i < x.extent(0); ++i)
        y(i) += a * x(i);
}
template <class R, class A, class X>
void scal(const R& r, const A& a, const X& x)
{
    for (size_t i = 0; i < x.extent(0); ++i)
        r(i) = a * x(i);
}
template <class R, class X>
void fill(const R& r, const X& x)
{
    Kokkos::deep_copy(r, x);
}
template <class AA, class A, class X, class BB, class Y>
void gemv(const char t[], const AA& alpha, const A& a, const X& x, const BB& beta, const Y& y)
{
    const bool tr = t[0] != 'N' && t[0] != 'n';
    const size_t m = tr ? a.extent(1) : a.extent(0), n = tr ? a.extent(0) : a.extent(1);
    if (x.extent(0) != n || y.extent(0) != m)
        Kokkos::shim::die("KokkosBlas::gemv: extents differ");
    for (size_t i = 0; i < m; ++i) {
        typename Y::non_const_value_type s{};
        for (size_t j = 0; j < n; ++j)
            s += (tr ? a(j, i) : a(i, j)) * x(j);
        y(i) = (beta == 0 ? 0 : beta * y(i)) + alpha * s;
    }
}
template <class AA, class A, class B, class BB, class C>
void gemm(const char ta[], const char tb[], const AA& alpha, const A& a, const B& b, const BB& beta, const C& c)
{
    const bool tra = ta[0] != 'N' && ta[0] != 'n', trb = tb[0] != 'N' && tb[0] != 'n';
    const size_t m = c.extent(0), n = c.extent(1), k = tra ? a.extent(0) : a.extent(1);
    if ((tra ? a.extent(1) : a.extent(0)) != m || (trb ? b.extent(1) : b.extent(0)) != k || (trb ? b.extent(0) : b.extent(1)) != n)
        Kokkos::shim::die("KokkosBlas::gemm: extents differ");
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < n; ++j) {
            typename C::non_const_value_type s{};
            for (size_t l = 0; l < k; ++l)
                s += (tra ? a(l, i) : a(i, l)) * (trb ? b(j, l) : b(l, j));
            c(i, j) = (beta == 0 ? 0 : beta * c(i, j)) + alpha * s;
        }
}
template <class Tr, class Algo>
struct SerialGemv {
    template <class S, class A, class X, class Y>
    static int invoke(const S alpha, const A& a, const X& x, const S beta, const Y& y)
    {
        gemv(Tr::transposed ? "T" : "N", alpha, a, x, beta, y);
        return 0;
    }
};
}  // namespace KokkosBlas
