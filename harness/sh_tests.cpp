// Spherical harmonics of libsymmetrix against boost's, in long double.
#include <boost/math/special_functions/spherical_harmonic.hpp>
#include "pbt.hpp"
#include "spherical_harmonic.hpp"
using namespace pbt;
using C = std::complex<double>;
using CL = std::complex<long double>;

namespace {
CL ref(int l, int m, long double t, long double p) { return boost::math::spherical_harmonic<long double, long double>(l, m, t, p); }
CL rreal(int l, int m, long double t, long double p) { long double q = std::sqrt(2.0L) * (m % 2 ? -1 : 1); return m < 0 ? q * ref(l, -m, t, p).imag() : m == 0 ? ref(l, 0, t, p).real() : q * ref(l, m, t, p).real(); }
void near(C got, CL want, double tol, const std::string& what) {
    tol *= tight();
    check(pbt::finite(got.real()) && pbt::finite(got.imag()), str(what, ": not finite"));
    check(std::abs(CL(got.real(), got.imag()) - want) <= tol, str(what, ": got ", got, ", expected ", C((double)want.real(), (double)want.imag())));
}
struct Dir { double x, y, z; const char* kind; };
Dir gen_dir(Src& s) {
    Dir d; double sc = s.chance(30) ? std::fabs(s.chance(30) ? s.wide(-12, 12) : s.wide(-3, 3)) : 1.0;
    switch (s.integer(0, 5)) {
    case 0: d = {s.sym(2), s.sym(2), s.sym(2), "general"}; break;
    case 1: d = {0, 0, s.boolean() ? 1.0 : -1.0, "pole"}; break;
    case 2: d = {s.sym(2), 0, s.sym(2), "y=0"}; break;
    case 3: d = {0, s.sym(2), s.sym(2), "x=0"}; break;
    case 4: d = {s.sym(2), s.sym(2), 0, "equator"}; break;
    default: d = {s.wide(-9, -2), s.wide(-9, -2), s.sym(2), "near pole"}; break;
    }
    if (s.chance(10)) { if (d.x == 0) d.x = -0.0; if (d.y == 0) d.y = -0.0; if (d.z == 0) d.z = -0.0; }
    if (d.x == 0 && d.y == 0 && d.z == 0) d.z = 1;
    d.x *= sc; d.y *= sc; d.z *= sc; return d;
}
int gen_l(Src& s) { return s.chance(12) ? s.integer(11, 24) : s.sized(0, 10); }
// the polar angle reaches these functions through its cosine, so the sine carries an error of eps/sine
double slack(int l, long double sine) { return std::sqrt((2 * l + 1) / 12.566) * (l + 1) * (l + 1) * (1e-13 + std::min(3e-8, 2e-15 / (double)(std::fabs(sine) + 1e-30L))); }
}  // namespace

PBT_PROPERTY(sh_angles, "complex and real spherical harmonics of degree 0-24 (mostly below 11) and every order at generated polar and azimuthal angles (poles, equator, beyond one turn) against boost's long-double ones; non-trivial: degree at least 1") {
    int l = gen_l(s), m = s.integer(-l, l); const double pi = M_PI;
    double t = s.chance(25) ? pi * s.integer(0, 4) / 4 : s.real(0, pi), p = s.chance(25) ? pi * s.integer(-8, 8) / 4 : s.real(-7, 7);
    ctx.describe("l=", l, " m=", m, " polar=", t, " azimuth=", p); ctx.nontrivial = l > 0; double tol = slack(l, std::fabs(std::sin((long double)t)));
    near(sph_harm(l, m, t, p), ref(l, m, t, p), tol, "sph_harm"); near(real_sph_harm(l, m, t, p), rreal(l, m, t, p), 2 * tol, "real_sph_harm");
}

PBT_PROPERTY(sh_cartesian, "the Cartesian forms at generated directions (axes, coordinate planes, signed zeros, near the poles, lengths 1e-12 to 1e12): sph_harm_xyz and real_sph_harm_xyz equal the harmonics of the direction; the sphericart forms, single and batched with 0-40 points (mostly up to 5), equal them too; non-trivial: degree at least 1") {
    Dir d = gen_dir(s); int l = gen_l(s), m = s.integer(-l, l); ctx.label(d.kind); ctx.describe("l=", l, " m=", m, " (", d.x, ",", d.y, ",", d.z, ")"); ctx.nontrivial = l > 0;
    auto ang = [](const Dir& d) { long double q = std::hypot((long double)d.x, (long double)d.y); return std::tuple{std::atan2(q, (long double)d.z), std::atan2((long double)d.y, (long double)d.x)}; };
    auto [t, p] = ang(d); double tol = slack(l, std::sin(t));
    near(sph_harm_xyz(l, m, d.x, d.y, d.z), ref(l, m, t, p), tol, "sph_harm_xyz"); near(real_sph_harm_xyz(l, m, d.x, d.y, d.z), rreal(l, m, t, p), 2 * tol, "real_sph_harm_xyz");
    double st = (l + 1) * 1e-12;
    near(sphericart_sph_harm(l, m, d.x, d.y, d.z), ref(l, m, t, p), st, "sphericart_sph_harm"); near(sphericart_real_sph_harm(l, m, d.x, d.y, d.z), rreal(l, m, t, p), st, "sphericart_real_sph_harm");
    int L = s.chance(8) ? s.integer(7, 14) : s.sized(0, 6), n = s.chance(5) ? s.integer(6, 40) : s.integer(0, 5); std::vector<Dir> ds; std::vector<double> xyz; for (int i = 0; i < n; ++i) { ds.push_back(i ? gen_dir(s) : d); for (double v : {ds[i].x, ds[i].y, ds[i].z}) xyz.push_back(v); }
    ctx.describe(" batch l_max=", L, " points=", n); auto sh = sphericart_complex(L, xyz); check((int)sh.size() == n * (L + 1) * (L + 1), str("sphericart_complex returned ", sh.size(), " values for ", n, " points"));
    for (int i = 0; i < n; ++i) { auto [t, p] = ang(ds[i]); for (int l = 0; l <= L; ++l) for (int m = -l; m <= l; ++m) near(sh[i * (L + 1) * (L + 1) + l * (l + 1) + m], ref(l, m, t, p), (l + 1) * 1e-12, str("sphericart_complex point ", i, " l=", l, " m=", m)); }
    auto sr = sphericart_real(L, {d.x, d.y, d.z}); check((int)sr.size() == (L + 1) * (L + 1), "size of sphericart_real");
    for (int l = 0; l <= L; ++l) for (int m = -l; m <= l; ++m) near(sr[l * (l + 1) + m], rreal(l, m, t, p), (l + 1) * 1e-12, str("sphericart_real l=", l, " m=", m));
}
