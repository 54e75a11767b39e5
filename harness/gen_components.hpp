// Generators and comparison helpers for the numerical building blocks, shared by the plain and the Kokkos harness.
#pragma once
#include <algorithm>
#include <vector>
#include "pbt.hpp"
#include "ref_components.hpp"
using namespace pbt;
using ref::R;
static const double EPS = 2.2e-16;

// ---------------------------------------------------------------- splines

struct SplineData { double h; int n; std::vector<std::vector<double>> f, d; };

[[maybe_unused]] static SplineData gen_splines(Src& s, Ctx& ctx, int nspl) {
    SplineData D;
    D.n = s.chance(12) ? s.integer(41, nspl > 30 ? 120 : 1200) : s.sized(2, 40);
    if (nspl <= 2 && s.integer(0, 799) == 799) D.n = s.integer(60000, 70000);
    D.h = s.pick(std::vector<double>{1.0, 0.5, 0.1, 5.0 / 19, 0.025, 6.0 / 199, 1.0 / 3, 2.75, 7e-4, 13.0});
    if (s.chance(60)) D.h *= s.real(0.3, 1.7);
    int smooth = s.integer(0, 2);
    for (int k = 0; k < nspl; ++k) {
        std::vector<double> f(D.n), d(D.n);
        double fs = std::pow(10.0, s.integer(-3, 3)), ds = std::pow(10.0, s.integer(-3, 3));
        Bulk b(s.bulk_seed());
        double w = 1 + 3 * b.uni(), ph = 6 * b.uni();
        for (int i = 0; i < D.n; ++i) {
            if (smooth == 0) { double x = D.h * i; f[i] = fs * std::sin(w * x + ph); d[i] = fs * w * std::cos(w * x + ph); }
            else if (smooth == 1) { f[i] = b.sym(fs); d[i] = b.sym(ds); }
            else { f[i] = b.uni() < 0.4 ? 0 : b.sym(fs); d[i] = b.uni() < 0.4 ? 0 : b.sym(ds); }
        }
        D.f.push_back(f); D.d.push_back(d);
    }
    ctx.describe("h=", D.h, " n=", D.n, " nspl=", nspl, " shape=", smooth, "\n");
    return D;
}

// a point strictly inside [0,(n-1)h): nodes, near nodes, near the ends, interior
[[maybe_unused]] static double gen_r(Src& s, const SplineData& D, const char** kind) {
    double end = D.h * (D.n - 1), r;
    switch (s.integer(0, 5)) {
    case 0: r = D.h * s.integer(0, D.n - 2); *kind = "node"; if (int k = s.integer(0, 4); k > 2 && r > 0) r = std::nextafter(r, k == 3 ? 1e9 : -1e9); break;
    case 1: { r = D.h * s.integer(0, D.n - 1); double e = std::pow(10.0, -s.integer(2, 15)); r += (s.boolean() ? 1 : -1) * e * D.h; *kind = "near-node"; break; }
    case 2: r = end * (1 - std::pow(10.0, -s.integer(1, 12))); *kind = "near-end"; break;
    case 3: r = D.h * std::pow(10.0, -s.integer(0, 12)) * 0.999; *kind = "near-start"; break;
    default: r = s.real(0, 1) * end; *kind = "interior";
    }
    return std::min(std::max(r, 0.0), end * (1 - 1e-13));
}

[[maybe_unused]] static void check_spline_point(const SplineData& D, int k, double r, double v, const double* der, const char* what) {
    R rv, rd; ref::hermite(D.h, D.f[k], D.d[k], r, rv, rd);
    double sc = (double)ref::hermite_scale(D.h, D.f[k], D.d[k], r);
    // r/h carries a relative rounding error, i.e. up to n ulps of h in the local coordinate
    double tol = sc * EPS * (100 + 20.0 * D.n);
    check_close(v, (double)rv, tol, 0, str(what, " value at r=", r));
    if (der) check_close(*der, (double)rd, 8 * tol / D.h, 0, str(what, " derivative at r=", r));
}

// ---------------------------------------------------------------- ZBL

[[maybe_unused]] static ref::ZBL gen_zbl(Src& s, Ctx& ctx) {
    ref::ZBL z;
    if (s.chance(40)) { z.a_exp = 0.3; z.a_pre = 0.4543; z.c = {0.1818, 0.5099, 0.2802, 0.02817}; z.p = 6; }
    else { z.a_exp = s.real(0.15, 0.45); z.a_pre = s.real(0.3, 1.2); for (int i = 0; i < 4; ++i) z.c.push_back(s.real(0.01, 0.8)); z.p = s.integer(1, 10); }
    int nz = s.chance(50) ? 119 : s.integer(2, 40);
    Bulk b(s.bulk_seed());
    for (int i = 0; i < nz; ++i) z.cov.push_back(0.2 + 2.3 * b.uni());
    ctx.describe("a_exp=", z.a_exp, " a_pre=", z.a_pre, " c=", vec(z.c), " p=", z.p, " nz=", nz, " ");
    return z;
}
[[maybe_unused]] static double gen_zbl_r(Src& s, double rm, const char** kind) {
    switch (s.integer(0, 4)) {
    case 0: *kind = "at-cutoff"; return rm;
    case 1: *kind = "just-inside"; return rm * (1 - std::pow(10.0, -s.integer(1, 10)));
    case 2: *kind = "outside"; return rm * s.real(1.0, 3.0) + 1e-12;
    case 3: *kind = "close"; return rm * std::pow(10.0, -s.real(0.5, 2.5));
    default: *kind = "inside"; return rm * s.real(0.05, 0.999);
    }
}

