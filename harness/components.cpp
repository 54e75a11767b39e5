// Properties of the numerical building blocks, through their public interfaces.
#include <algorithm>
#include <complex>
#include <limits>
#include <numeric>
#include <span>

#include "pbt.hpp"
#include "ref_components.hpp"
#include "gen_components.hpp"

#include "cubic_spline.hpp"
#include "cubic_spline_set.hpp"
#include "multilayer_perceptron.hpp"
#include "multivariate_polynomial.hpp"
#include "tools.hpp"
#include "zbl.hpp"

using namespace pbt;

PBT_PROPERTY(spline_hermite, "random node tables (2-1200 nodes, spacings 2e-4..22, smooth/random/sparse data) and 1-8 evaluation points at/near nodes, near both ends and inside; non-trivial: at least one point outside the first interval and non-zero data") {
    auto D = gen_splines(s, ctx, 1);
    CubicSpline spl(D.h, D.f[0], D.d[0]);
    int np = s.sized(1, 8);
    for (int i = 0; i < np; ++i) {
        const char* kind; double r = gen_r(s, D, &kind);
        ctx.label(kind); ctx.describe("r=", r, " ");
        if (r > D.h) ctx.nontrivial = true;
        int order = s.integer(0, 5);
        double v = 0, v1 = 0, d1 = 0, v2 = 0, d2 = 0;
        for (int k = 0; k < 3; ++k) {   // every order of the three queries
            static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
            switch (perm[order][k]) {
            case 0: v = spl.evaluate(r); break;
            case 1: std::tie(v1, d1) = spl.evaluate_deriv(r); break;
            case 2: if (r > 0) std::tie(v2, d2) = spl.evaluate_deriv_divided(r); break;
            }
        }
        check_spline_point(D, 0, r, v, nullptr, "evaluate");
        check_spline_point(D, 0, r, v1, &d1, "evaluate_deriv");
        if (r > 0) { double dd = d2 * r; check_spline_point(D, 0, r, v2, &dd, "evaluate_deriv_divided (times r)"); }
    }
}

template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

PBT_PROPERTY(spline_out_of_range, "random node tables and points below zero by at least one spacing or beyond the last node; non-trivial: always") {
    auto D = gen_splines(s, ctx, 1);
    CubicSpline spl(D.h, D.f[0], D.d[0]);
    double end = D.h * (D.n - 1), r;
    switch (s.integer(0, 3)) {
    case 0: r = end * (1 + std::pow(10.0, -s.integer(0, 11))); break;
    case 1: r = end + D.h * s.real(0.01, 5); break;
    case 2: r = -D.h * s.real(1.001, 50); break;
    default: r = end + D.h * s.real(1, 1e5);
    }
    ctx.describe("r=", r); ctx.nontrivial = true;
    check(throws([&] { volatile double x = spl.evaluate(r); (void)x; }), str("evaluate accepted out-of-range r=", r));
    check(throws([&] { auto x = spl.evaluate_deriv(r); volatile double y = std::get<0>(x); (void)y; }), str("evaluate_deriv accepted out-of-range r=", r));
    check(throws([&] { auto x = spl.evaluate_deriv_divided(r); volatile double y = std::get<0>(x); (void)y; }), str("evaluate_deriv_divided accepted out-of-range r=", r));
    // and the table is still intact
    const char* kind; double r2 = gen_r(s, D, &kind);
    check_spline_point(D, 0, r2, spl.evaluate(r2), nullptr, "evaluate after a rejected point");
}

PBT_PROPERTY(spline_set_matches_members, "sets of 1-700 splines (mostly below 25) sharing a grid, 1-8 points, value-only and value+derivative queries interleaved with dirty output buffers; non-trivial: two or more splines and a point outside the first interval") {
    int nspl = s.chance(15) ? (s.chance(20) ? s.integer(131, 700) : s.integer(25, 130)) : s.sized(1, 24);
    auto D = gen_splines(s, ctx, nspl);
    CubicSplineSet set(D.h, D.f, D.d);
    check(set.num_splines == nspl, "num_splines");
    int np = s.sized(1, 8);
    const double guard = 12345.678;
    for (int i = 0; i < np; ++i) {
        const char* kind; double r = gen_r(s, D, &kind);
        if (s.integer(0, 15) == 15) { r = D.h * ((int)D.f[0].size() - 1); kind = "the last node itself"; }
        ctx.label(kind); ctx.describe("r=", r, " ");
        if (nspl >= 2 && r > D.h) ctx.nontrivial = true;
        std::vector<double> v(nspl + 2, guard), d(nspl + 2, guard);
        if (s.boolean()) {
            ctx.label("evaluate");
            set.evaluate(r, std::span<double>(v.data() + 1, nspl));
            for (int k = 0; k < nspl; ++k) check_spline_point(D, k, r, v[k + 1], nullptr, "set.evaluate");
        } else {
            ctx.label("evaluate_derivs");
            set.evaluate_derivs(r, std::span<double>(v.data() + 1, nspl), std::span<double>(d.data() + 1, nspl));
            for (int k = 0; k < nspl; ++k) check_spline_point(D, k, r, v[k + 1], &d[k + 1], "set.evaluate_derivs");
            check(d[0] == guard && d[nspl + 1] == guard, "derivatives written outside the output range");
        }
        check(v[0] == guard && v[nspl + 1] == guard, "values written outside the output range");
    }
}

// ---------------------------------------------------------------- MLP

PBT_PROPERTY(mlp_histories, "networks with 0-4 hidden layers (widths 1-140, 1-6 outputs; sometimes to 300), a history of 1-8 calls of the four evaluation forms with batch sizes 1-300 (sometimes to 1100) on one object or alternating between two, each compared with a long-double network and its exact Jacobian; non-trivial: at least one hidden layer and two calls") {
    struct Net { ref::MLP M; std::unique_ptr<MultilayerPerceptron> net; bool wide; };
    std::vector<Net> nets; int count = s.chance(25) ? 2 : 1;
    for (int q = 0; q < count; ++q) {
        nets.emplace_back(); ref::MLP& M = nets.back().M;
        bool wide = nets.back().wide = s.chance(10);   // few, wide layers and small batches; otherwise more layers and large batches
        int nl = wide ? s.integer(2, 4) : s.sized(2, 6);
        for (int i = 0; i < nl; ++i) M.shape.push_back(i == nl - 1 ? s.sized(1, 6) : s.chance(25) ? 1 << s.integer(0, 4) : wide ? s.chance(10) ? s.integer(141, 300) : s.integer(25, 140) : s.sized(1, 24));
        M.scale = s.chance(20) ? 1.0 : s.real(0.2, 2.0);
        double wm = s.pick(std::vector<double>{1.0, 0.3, 3.0, 0.01});
        Bulk b(s.bulk_seed());
        for (int l = 0; l + 1 < nl; ++l) {
            std::vector<double> w(M.shape[l] * M.shape[l + 1]);
            for (auto& x : w) x = b.uni() < 0.1 ? 0 : b.sym(wm * 2 / std::sqrt(M.shape[l]));
            M.w.push_back(w);
        }
        ctx.describe(q ? " and " : "", "shape=", vec(M.shape), " scale=", M.scale, " wmag=", wm);
        nets.back().net = std::make_unique<MultilayerPerceptron>(M.shape, M.w, M.scale);
    }
    ctx.describe(" calls:"); if (count > 1) ctx.label("two networks");
    int calls = s.sized(1, 8); std::vector<double> last;
    ctx.nontrivial = nets[0].M.shape.size() > 2 && calls > 1;
    for (int c = 0; c < calls; ++c) {
        int which = count > 1 ? s.integer(0, count - 1) : 0; ref::MLP& M = nets[which].M; MultilayerPerceptron& net = *nets[which].net; bool wide = nets[which].wide;
        int nin = M.shape[0], nout = M.shape.back(), nl = M.shape.size(); if (count > 1) ctx.describe(" #", which);
        int op = s.integer(0, 3), bs = op < 2 ? 1 : wide ? s.sized(1, 6) : s.chance(15) ? s.integer(34, s.chance(10) ? 1100 : 300) : s.sized(1, 33);
        double xm = s.pick(std::vector<double>{1.0, 0.01, 10.0, 40.0, 200.0, 3000.0});
        std::vector<double> x(nin * bs);
        Bulk xb(s.bulk_seed());
        for (auto& v : x) v = xb.uni() < 0.1 ? 0.0 : xb.sym(xm);
        if (x.size() == last.size() && s.chance(25)) { ctx.describe(" near-repeat"); x = last; if (s.chance(80)) x[s.integer(0, (int)x.size() - 1)] = s.sym(xm); }
        last = x;
        static const char* names[4] = {"evaluate", "evaluate_gradient", "evaluate_batch", "evaluate_gradient_batch"};
        ctx.describe(" ", names[op], "(", bs, ",", xm, ")"); ctx.label(names[op]);
        std::vector<double> f, g;
        if (op == 0) f = net.evaluate(x);
        else if (op == 1) std::tie(f, g) = net.evaluate_gradient(x);
        else if (op == 2) f = net.evaluate_batch(x, bs);
        else std::tie(f, g) = net.evaluate_gradient_batch(x, bs);
        int phase = bs > 40 ? s.integer(0, 30) : 0;
        check((int)f.size() == nout * bs, str(names[op], ": output has ", f.size(), " entries"));
        if (op & 1) check((int)g.size() == nout * nin * bs, str(names[op], ": gradient has ", g.size(), " entries"));
        for (int r = 0; r < bs; ++r) {
            if (bs > 40 && (r + phase) % (bs > 300 ? 31 : 7) && r < bs - 6) continue;   // large batches: some rows and the last ones
            std::vector<R> rf, rj; M.maxpre = M.mag = 0;
            M.eval(x.data() + r * nin, rf, rj);
            if (M.maxpre > 700) ctx.label("saturated beyond the range of exp");
            R jm = 1; for (auto v : rj) jm = std::max(jm, std::fabs(v));
            // error bound: sums of <=24 terms per layer, propagated through <=5 layers with gain bounded by the weights
            R gain = 1; for (int l = 0; l + 1 < nl; ++l) { R m = 0; for (int i = 0; i < M.shape[l + 1]; ++i) { R t = 0; for (int j = 0; j < M.shape[l]; ++j) t += std::fabs((R)M.w[l][i * M.shape[l] + j]); m = std::max(m, t); } gain *= std::max((R)1, m * (l + 2 < nl ? (R)1.1 * std::max(M.scale, 1.0) : (R)1)); }
            double tol = (double)(1e-12L * (M.mag + 1e-3L) + 1e-14L * gain * (1 + M.maxpre));
            for (int o = 0; o < nout; ++o) check_close(f[r * nout + o], (double)rf[o], tol, 1e-11, str(names[op], " row ", r, " output ", o));
            if (op & 1) for (int o = 0; o < nout * nin; ++o) check_close(g[r * nout * nin + o], (double)rj[o], (double)(1e-13L * gain * (1 + M.maxpre)), 1e-11, str(names[op], " row ", r, " d(out ", o / nin, ")/d(in ", o % nin, ")"));
        }
    }
}

// ---------------------------------------------------------------- polynomials

PBT_PROPERTY(poly_histories, "polynomials in 1-49 variables, 1-160 (sometimes to 600) distinct monomials of degree 1-9 (repeated variables, unsorted index order, nested and overlapping factors), a history of 1-8 calls of the five evaluation forms with batch sizes 1-150 (sometimes to 700), on one object or alternating between two, at points including zeros and negatives, compared with a long-double sum of monomials; non-trivial: a monomial of degree >= 3 and two or more calls") {
    struct Poly { int nv; std::vector<std::vector<int>> mono; std::vector<double> c; std::unique_ptr<MultivariatePolynomial> P; };
    std::vector<Poly> polys; int count = s.chance(25) ? 2 : 1; bool deg3 = false;
    for (int q = 0; q < count; ++q) {
        polys.emplace_back(); Poly& A = polys.back(); auto& mono = A.mono; auto& c = A.c;
        int nv = A.nv = s.chance(12) ? s.integer(17, 49) : s.sized(1, 16);
        int nm = s.chance(10) ? s.integer(41, s.chance(10) ? 600 : 160) : s.sized(1, 40);
        int maxdeg = s.chance(8) ? s.integer(7, 9) : s.integer(1, 6); if (nm > 160) maxdeg = std::min(maxdeg, 4);
        bool sorted = s.boolean();
        for (int i = 0; i < nm; ++i) {
            std::vector<int> m;
            if (!mono.empty() && s.chance(35)) { m = mono[s.raw(mono.size() - 1)]; if (s.boolean() && m.size() > 1) m.erase(m.begin() + s.raw(m.size() - 1)); }   // extend or cut an earlier monomial
            int extra = m.empty() ? s.integer(1, maxdeg) : s.integer(0, 2);
            for (int k = 0; k < extra && (int)m.size() < maxdeg; ++k) m.push_back(s.integer(0, nv - 1));
            if (sorted) std::sort(m.begin(), m.end());
            if (m.empty() || std::find(mono.begin(), mono.end(), m) != mono.end()) continue;
            mono.push_back(m);
            c.push_back(s.chance(5) ? 0.0 : s.chance(5) ? s.sym(3) * 1e-9 : s.sym(3));
        }
        ctx.describe(q ? " and " : "", "nvar=", nv, " mono=[");
        for (auto& m : mono) { ctx.describe(vec(m)); deg3 |= m.size() >= 3; }
        ctx.describe("] c=", vec(c));
        A.P = std::make_unique<MultivariatePolynomial>(nv, c, mono);
    }
    ctx.describe(" calls:"); if (count > 1) ctx.label("two polynomials");
    int calls = s.sized(1, 8); std::vector<double> last;
    ctx.nontrivial = deg3 && calls > 1;
    for (int k = 0; k < calls; ++k) {
        int which = count > 1 ? s.integer(0, count - 1) : 0; const int nv = polys[which].nv; auto &c = polys[which].c; auto& mono = polys[which].mono; MultivariatePolynomial& P = *polys[which].P; if (count > 1) ctx.describe(" #", which);
        int op = s.integer(0, 4), bs = op == 4 ? s.chance(10) ? s.integer(18, s.chance(10) ? 700 : 150) : s.sized(1, 17) : 1;
        std::vector<double> x(nv * bs);
        if (bs == 1) for (auto& v : x) v = s.chance(15) ? 0.0 : s.sym(2);
        else { Bulk xb(s.bulk_seed()); for (auto& v : x) v = xb.uni() < 0.15 ? 0 : xb.sym(2); }
        if (s.chance(12)) { double q = std::pow(10.0, s.integer(-9, 6)); bool some = s.boolean(); ctx.describe(" x", q); for (size_t i = 0; i < x.size(); ++i) if (!some || i % 3 == 0) x[i] *= q; }   // other magnitudes, all or some variables
        if (x.size() == last.size() && s.chance(25)) { ctx.describe(" near-repeat"); x = last; if (s.chance(80)) x[s.integer(0, (int)x.size() - 1)] = s.sym(2); }
        last = x;
        static const char* names[5] = {"evaluate", "evaluate_gradient", "evaluate_simple", "evaluate_gradient_simple", "evaluate_batch"};
        ctx.describe(" ", names[op], "(", bs, ")"); ctx.label(names[op]);
        std::vector<double> f(1), g;
        if (op == 0) f[0] = P.evaluate(x);
        else if (op == 1) std::tie(f[0], g) = P.evaluate_gradient(x);
        else if (op == 2) f[0] = P.evaluate_simple(x);
        else if (op == 3) std::tie(f[0], g) = P.evaluate_gradient_simple(x);
        else std::tie(f, g) = P.evaluate_batch(x, bs);
        check((int)f.size() == bs, "number of values");
        if (op == 1 || op >= 3) check((int)g.size() == nv * bs, "number of gradient entries");
        for (int r = 0; r < bs; ++r) {
            R rf, fm; std::vector<R> rg, gm;
            ref::poly(nv, c, mono, x.data() + r * nv, rf, rg, fm, gm);
            check_close(f[r], (double)rf, 1e-13 * (double)fm + 1e-300, 0, str(names[op], " value, row ", r));
            for (size_t v = 0; v < (g.empty() ? 0 : (size_t)nv); ++v) check_close(g[r * nv + v], (double)rg[v], 1e-13 * (double)gm[v] + 1e-300, 0, str(names[op], " d/dx", v, ", row ", r));
        }
    }
}

PBT_PROPERTY(zbl_pair, "random ZBL parameter sets (p 1-10, up to 118 elements), element pairs and separations below/at/above the pair cutoff; value, gradient, envelope and symmetry compared with the formula in long double; non-trivial: separation inside the cutoff") {
    auto z = gen_zbl(s, ctx);
    ZBL zbl(z.a_exp, z.a_pre, z.c, z.cov, z.p);
    int np = s.sized(1, 6);
    for (int i = 0; i < np; ++i) {
        int zu = s.integer(1, (int)z.cov.size() - 1), zv = s.integer(1, (int)z.cov.size() - 1);
        double rm = (double)z.rmax(zu, zv); const char* kind;
        double r = gen_zbl_r(s, rm, &kind);
        ctx.label(kind); ctx.describe("(", zu, ",", zv, ",", r, ") ");
        R v, dv, bare, dbare; z.eval(zu, zv, r, v, dv, bare, dbare);
        double pp = (z.p + 1.0) * (z.p + 2.0) / 2 + z.p * (z.p + 2.0) + z.p * (z.p + 1.0) / 2 + 1;   // cancellation in the envelope
        double tv = 1e-13 * (double)bare * pp, tg = 1e-13 * ((double)std::fabs(dbare) * pp + (double)bare * pp * (z.p + 2) / rm);
        if (r < rm) ctx.nontrivial = true;
        double a = zbl.compute(zu, zv, r), g = zbl.compute_gradient(zu, zv, r);
        check_close(a, (double)v, tv, 1e-12, "pair energy");
        check_close(g, (double)dv, tg, 1e-12, "pair energy gradient");
        check_close(zbl.compute(zv, zu, r), a, 1e-14 * std::fabs((double)bare), 1e-13, "pair energy with the atoms exchanged");
        check_close(zbl.compute_gradient(zv, zu, r), g, tg, 1e-13, "pair gradient with the atoms exchanged");
        if (r >= rm * (1 + 1e-14)) check(a == 0 && g == 0, "non-zero pair term beyond the sum of covalent radii");
        double er = s.real(0.1, 4), e_rm = s.real(0.2, 4); int p2 = s.integer(1, 10);
        double pp2 = (p2 + 1.0) * (p2 + 2.0) / 2 + p2 * (p2 + 2.0) + p2 * (p2 + 1.0) / 2 + 1;
        check_close(zbl.compute_envelope(er, e_rm, p2), (double)ref::ZBL::env(er, e_rm, p2), 1e-14 * pp2, 0, "envelope");
        check_close(zbl.compute_envelope_gradient(er, e_rm, p2), (double)ref::ZBL::denv(er, e_rm, p2), 1e-14 * pp2 * (p2 + 2) / e_rm, 0, "envelope gradient");
    }
}

PBT_PROPERTY(zbl_accumulates, "random neighbour lists (0-5 atoms, 0-6 neighbours, 1-4 elements, non-zero starting energies/forces): every pair term is added once to its atom's energy and to its own pair force; non-trivial: some pair inside its cutoff and some atom after one without neighbours or several atoms") {
    auto z = gen_zbl(s, ctx);
    ZBL zbl(z.a_exp, z.a_pre, z.c, z.cov, z.p);
    int ne = s.integer(1, 4); std::vector<int> an;
    for (int i = 0; i < ne; ++i) an.push_back(s.integer(1, (int)z.cov.size() - 1));
    bool many = s.integer(0, 99) == 99; int nn = many ? s.integer(6, 40) : s.sized(0, 5); std::vector<int> nt, num, neight; std::vector<double> r, xyz;
    for (int i = 0; i < nn; ++i) {
        nt.push_back(s.integer(0, ne - 1)); num.push_back(many && s.chance(20) ? s.integer(7, 70) : s.sized(0, 6));
        for (int j = 0; j < num[i]; ++j) {
            int t = s.integer(0, ne - 1); neight.push_back(t);
            const char* k; double rr = gen_zbl_r(s, (double)z.rmax(an[nt[i]], an[t]), &k);
            double cz = s.real(-1, 1), ph = s.real(0, 6.283), sz = std::sqrt(1 - cz * cz);
            double v[3] = {rr * sz * std::cos(ph), rr * sz * std::sin(ph), rr * cz};
            xyz.insert(xyz.end(), v, v + 3); r.push_back(std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]));
        }
    }
    ctx.describe("an=", vec(an), " types=", vec(nt), " num=", vec(num), " r=", vec(r));
    std::vector<double> e(nn), f(xyz.size()), e0, f0;
    for (auto& v : e) v = s.sym(2);
    Bulk b(s.bulk_seed()); for (auto& v : f) v = b.sym(2);
    e0 = e; f0 = f;
    zbl.compute_ZBL(nn, nt, num, neight, an, r, xyz, e, f);
    int ij = 0;
    for (int i = 0; i < nn; ++i) {
        R ei = e0[i], em = std::fabs(e0[i]);
        for (int j = 0; j < num[i]; ++j, ++ij) {
            R v, dv, bare, dbare; z.eval(an[nt[i]], an[neight[ij]], r[ij], v, dv, bare, dbare);
            ei += v; em += std::fabs(bare);
            if (v != 0 && nn > 1) ctx.nontrivial = true;
            double rm = (double)z.rmax(an[nt[i]], an[neight[ij]]);
            for (int k = 0; k < 3; ++k)
                check_close(f[3 * ij + k], (double)((R)f0[3 * ij + k] - (R)xyz[3 * ij + k] / r[ij] * dv), 1e-14 + 1e-11 * (double)(std::fabs(dbare) + std::fabs(bare) * (z.p + 2) / rm), 1e-12, str("force of pair ", ij));
        }
        check_close(e[i], (double)ei, 1e-11 * (double)em, 0, str("energy of atom ", i));
    }
}

// ---------------------------------------------------------------- combinatorics

using VV = std::vector<std::vector<int>>;
using VVV = std::vector<VV>;

static VV canon_partition(VV p) { for (auto& b : p) std::sort(b.begin(), b.end()); std::sort(p.begin(), p.end()); return p; }

// all set partitions of positions 0..n-1 by restricted growth strings
static void partitions_brute(int n, std::vector<std::vector<int>>& rgs) {
    std::vector<int> a(n, 0);
    std::function<void(int, int)> rec = [&](int i, int m) {
        if (i == n) { rgs.push_back(a); return; }
        for (int k = 0; k <= m; ++k) { a[i] = k; rec(i + 1, std::max(m, k + 1)); }
    };
    if (n) rec(0, 0);
}

PBT_PROPERTY(tools_partitions, "lists of 0-9 integers (10-14 for two blocks; duplicates and negatives allowed): set partitions and two-block partitions compared as multisets with an enumeration by restricted growth strings; non-trivial: three or more elements") {
    bool longer = s.integer(0, 99) >= 97; int n = longer ? s.integer(10, 14) : s.integer(0, 99) == 99 ? 9 : s.sized(0, 8); std::vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(s.boolean() ? s.integer(0, 3) : s.integer(-50, 50));
    ctx.describe("v=", vec(v)); ctx.nontrivial = n >= 3; ctx.label(str("n=", n));
    if (longer) {   // two blocks only: one per proper subset holding the first position
        VVV two, got2 = _two_part_partitions(v);
        for (int b = 0; b + 1 < 1 << (n - 1); ++b) { VV p(2); p[0].push_back(v[0]); for (int i = 1; i < n; ++i) p[b >> (i - 1) & 1 ? 0 : 1].push_back(v[i]); two.push_back(canon_partition(p)); }
        for (auto& p : got2) p = canon_partition(p);
        std::sort(two.begin(), two.end()); std::sort(got2.begin(), got2.end());
        check(got2 == two, str("two-part partitions: ", got2.size(), " found, ", two.size(), " exist, or some differ"));
        return;
    }
    std::vector<std::vector<int>> rgs; partitions_brute(n, rgs);
    VVV all, two;
    for (auto& a : rgs) {
        int m = *std::max_element(a.begin(), a.end()) + 1;
        VV p(m); for (int i = 0; i < n; ++i) p[a[i]].push_back(v[i]);
        all.push_back(canon_partition(p)); if (m == 2) two.push_back(canon_partition(p));
    }
    VVV got = _partitions(v), got2 = _two_part_partitions(v);
    for (auto& p : got) p = canon_partition(p);
    for (auto& p : got2) p = canon_partition(p);
    std::sort(all.begin(), all.end()); std::sort(two.begin(), two.end()); std::sort(got.begin(), got.end()); std::sort(got2.begin(), got2.end());
    check(got == all, str("partitions: ", got.size(), " found, ", all.size(), " exist, or some differ"));
    check(got2 == two, str("two-part partitions: ", got2.size(), " found, ", two.size(), " exist, or some differ"));
}

PBT_PROPERTY(tools_binomial_large, "binomial coefficients with n=24..31 and k within 3 of n/2, up to the largest that the recursion reaches in reasonable time, against 64-bit arithmetic; non-trivial: every case") {
    int n = 30, k = 15; if (!s.chance(25)) { n = s.integer(24, 31); k = n / 2 + s.integer(-3, 3); } ctx.nontrivial = true; ctx.describe("binomial(", n, ",", k, ")");
    long long w = 1; int kk = std::min(k, n - k); for (int i = 1; i <= kk; ++i) w = w * (n - kk + i) / i;
    if (w > 160000000) throw Discard{};
    int got = _binomial_coefficient(n, k);
    check(got == w, str("binomial coefficient is ", got, ", expected ", w));
}

PBT_PROPERTY(tools_enumerations, "permutations (0-8), pair combinations (0-60 items), products of 0-4 lists of 0-4 items, repeated products, index grids, binomial coefficients (n<=20 any k; n<=400 for small k) and sums, compared with direct enumeration in lexicographic order; non-trivial: more than one tuple enumerated") {
    int what = s.integer(0, 6);
    auto odometer = [](const VV& in) {   // lexicographic product
        VV out; std::vector<size_t> ix(in.size(), 0);
        for (auto& l : in) if (l.empty()) return out;
        for (;;) {
            std::vector<int> t; for (size_t i = 0; i < in.size(); ++i) t.push_back(in[i][ix[i]]);
            out.push_back(t);
            int k = (int)in.size() - 1;
            while (k >= 0 && ++ix[k] == in[k].size()) ix[k--] = 0;
            if (k < 0) return out;
        }
    };
    auto list = [&](int maxn) { std::vector<int> v; int n = s.sized(0, maxn); for (int i = 0; i < n; ++i) v.push_back(s.integer(-20, 20)); return v; };
    if (what == 0) {
        int n = s.integer(0, 199) == 199 ? 8 : s.integer(0, 7); ctx.describe("permutations(", n, ")"); ctx.nontrivial = n > 1; ctx.label("permutations");
        VV got = _permutations(n), want; std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
        // independent enumeration: all index tuples without repeats, in lexicographic order
        std::function<void(std::vector<int>&, unsigned)> rec = [&](std::vector<int>& c, unsigned used) {
            if ((int)c.size() == n) { want.push_back(c); return; }
            for (int i = 0; i < n; ++i) if (!(used >> i & 1)) { c.push_back(i); rec(c, used | 1u << i); c.pop_back(); }
        };
        std::vector<int> c; rec(c, 0);
        check(got == want, "permutations differ");
    } else if (what == 1) {
        auto v = list(s.integer(0, 49) == 49 ? 60 : 12); ctx.describe("combinations(", vec(v), ",2)"); ctx.nontrivial = v.size() > 2; ctx.label("combinations");
        VV want; for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) want.push_back({v[i], v[j]});
        check(_combinations(v, 2) == want, "combinations differ");
    } else if (what == 2) {
        VV in; int n = s.sized(0, 4); for (int i = 0; i < n; ++i) in.push_back(list(4));
        ctx.describe("product("); for (auto& l : in) ctx.describe(vec(l)); ctx.describe(")"); ctx.label("product");
        VV want = odometer(in); ctx.nontrivial = want.size() > 1;
        check(_product<int>(in) == want, "product differs");
        std::vector<std::vector<std::string>> sin; for (auto& l : in) { sin.emplace_back(); for (int x : l) sin.back().push_back(std::to_string(x)); }
        auto got = _product<std::string>(sin);
        check(got.size() == want.size(), "string product size");
        for (size_t i = 0; i < got.size(); ++i) for (size_t j = 0; j < got[i].size(); ++j) check(got[i][j] == std::to_string(want[i][j]), "string product");
    } else if (what == 3) {
        auto v = list(5); int rep = s.integer(0, 4); ctx.describe("product_repeat(", vec(v), ",", rep, ")"); ctx.label("product_repeat");
        VV want = odometer(VV(rep, v)); ctx.nontrivial = want.size() > 1;
        check(_product_repeat(v, rep) == want, "repeated product differs");
    } else if (what == 4) {
        int dim = s.integer(0, 4), mx = s.integer(0, 5); ctx.describe("generate_indices(", dim, ",", mx, ")"); ctx.label("generate_indices");
        std::vector<int> v(mx); std::iota(v.begin(), v.end(), 0);
        VV want = odometer(VV(dim, v)); ctx.nontrivial = want.size() > 1;
        check(_generate_indices(dim, mx) == want, "index grid differs");
    } else if (what == 5) {
        int n, k; if (s.boolean()) { n = s.integer(0, 20); k = s.integer(-3, n + 3); } else { n = s.integer(0, 300); k = s.integer(0, 2); if (s.boolean()) k = n - k; }
        ctx.describe("binomial(", n, ",", k, ")"); ctx.label("binomial"); ctx.nontrivial = k > 0 && k < n;
        long long w = 0;
        if (k >= 0 && k <= n) { w = 1; int kk = std::min(k, n - k); for (int i = 1; i <= kk; ++i) w = w * (n - kk + i) / i; }
        check(_binomial_coefficient(n, k) == w, str("binomial coefficient is ", _binomial_coefficient(n, k), ", expected ", w));
    } else {
        std::vector<int> v; int n = s.sized(0, 60); long long w = 0; for (int i = 0; i < n; ++i) { v.push_back(s.integer(-30000000, 30000000)); w += v.back(); }
        ctx.describe("sum(", vec(v), ")"); ctx.label("sum"); ctx.nontrivial = n > 1;
        check(_sum(v) == w, "sum differs");
    }
}
