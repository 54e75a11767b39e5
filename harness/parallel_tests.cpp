// Separate objects share nothing: evaluators and building blocks used at the same time by different threads, copied in the middle
// of a history, moved, and built while others are in use give what each gives alone.
#include <barrier>
#include <cmath>
#include <exception>
#include <functional>
#include <memory>
#include <thread>
#include "gen_components.hpp"
#include "mace_model.hpp"
#include "cubic_spline.hpp"
#include "cubic_spline_set.hpp"
#include "mace.hpp"
#include "multilayer_perceptron.hpp"
#include "multivariate_polynomial.hpp"
#include "spherical_harmonic.hpp"
#include "tools.hpp"
#include "zbl.hpp"
using namespace mm;
using std::vector;

namespace {
struct Files { ~Files() { drop_mem_files(); } };
using Job = std::function<DV(bool fresh)>;   // fresh: on an object of its own made for the occasion; otherwise as the case says (copied, moved, made earlier)
void append(DV& o, const DV& v) { o.insert(o.end(), v.begin(), v.end()); }
DV randv(Bulk& b, size_t n, double m = 1) { DV v(n); for (auto& x : v) x = b.sym(m); return v; }

void together(const vector<Job>& jobs, const vector<std::string>& names, Ctx& ctx) {
    int n = (int)jobs.size();
    vector<DV> want(n), got(n); vector<std::exception_ptr> err(n);
    for (int i = 0; i < n; ++i) want[i] = jobs[i](true);
    if (n == 1) got[0] = jobs[0](false);
    else {
        std::barrier gate(n); vector<std::thread> ts;
        for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { gate.arrive_and_wait(); try { got[i] = jobs[i](false); } catch (...) { err[i] = std::current_exception(); } });
        for (auto& t : ts) t.join();
    }
    for (int i = 0; i < n; ++i) {
        if (err[i]) { try { std::rethrow_exception(err[i]); } catch (const std::exception& e) { fail(names[i] + " threw " + e.what()); } }
        check(got[i].size() == want[i].size(), str(names[i], " gave ", got[i].size(), " numbers, alone ", want[i].size()));
        double big = 0; for (double x : want[i]) big = std::max(big, std::fabs(x));
        for (size_t k = 0; k < want[i].size(); ++k) check_close(got[i][k], want[i][k], 1e-14 * big + 1e-300, 1e-13, str(names[i], ", number ", k, " against the object used alone"));
    }
}

// a copyable building block: built fresh, copied from one that has been used, copy-assigned over another one, or moved
template <class T> Job component(Src& s, Ctx& ctx, std::function<T()> make, std::function<T()> other, vector<std::function<DV(T&)>> calls) {
    int how = s.integer(0, 4); size_t warm = s.integer(0, (int)calls.size());
    std::shared_ptr<T> proto;
    static const char* hows[] = {"made in the thread", "made before", "copied from a used one", "assigned over another", "moved"};
    ctx.describe(" (", hows[how], ", ", calls.size(), " calls, ", warm, " before)"); ctx.label(hows[how]);
    if (how) { proto = std::make_shared<T>(make()); for (size_t i = 0; i < warm; ++i) calls[i](*proto); }
    return [=](bool fresh) {
        DV o;
        auto go = [&](T& t) { for (auto& c : calls) append(o, c(t)); };
        if (fresh || how == 0) { T t = make(); go(t); }
        else if (how == 1) go(*proto);
        else if (how == 2) { T t(*proto); go(t); go(*proto); DV a(o.begin(), o.begin() + o.size() / 2), b(o.begin() + o.size() / 2, o.end()); o = a; if (a != b) { double m = 0; for (size_t i = 0; i < a.size(); ++i) m = std::max(m, std::fabs(a[i] - b[i]) / (1e-14 + std::fabs(a[i]))); if (!(m < 1e-9)) fail("a copy and its original disagree"); } }
        else if (how == 3) { T t = other(); t = *proto; go(t); }
        else { T t(std::move(*proto)); T u = other(); u = std::move(t); go(u); *proto = std::move(u); }
        return o;
    };
}

Job gen_job(Src& s, Ctx& ctx, std::string& name) {
    int kind = s.integer(0, 6); Bulk b(s.bulk_seed()); int nc = s.sized(1, 4);
    if (kind == 0) {
        name = "network"; ctx.describe(" network");
        auto mk = [&] { vector<int> shape; int nl = s.sized(2, 4); for (int i = 0; i < nl; ++i) shape.push_back(s.sized(1, 8)); vector<DV> w; for (int l = 0; l + 1 < nl; ++l) w.push_back(randv(b, shape[l] * shape[l + 1])); double sc = s.real(0.3, 2); return std::pair{shape, std::function<MultilayerPerceptron()>([=] { return MultilayerPerceptron(shape, w, sc); })}; };
        auto [shape, make] = mk(); auto [sh2, other] = mk();
        vector<std::function<DV(MultilayerPerceptron&)>> calls;
        for (int c = 0; c < nc; ++c) { int op = s.integer(0, 3), bs = op < 2 ? 1 : s.sized(1, 9); DV x = randv(b, shape[0] * bs);
            calls.push_back([=](MultilayerPerceptron& t) { if (op == 0) return t.evaluate(x); if (op == 2) return t.evaluate_batch(x, bs); auto [f, g] = op == 1 ? t.evaluate_gradient(x) : t.evaluate_gradient_batch(x, bs); append(f, g); return f; }); }
        return component<MultilayerPerceptron>(s, ctx, make, other, calls);
    }
    if (kind == 1) {
        name = "polynomial"; ctx.describe(" polynomial");
        auto mk = [&] { int nv = s.sized(1, 6), nm = s.sized(1, 14); vector<vector<int>> mons; for (int i = 0; i < nm; ++i) { vector<int> m; int d = s.sized(1, 5); for (int j = 0; j < d; ++j) m.push_back(b.integer(0, nv - 1)); std::sort(m.begin(), m.end()); if (std::find(mons.begin(), mons.end(), m) == mons.end()) mons.push_back(m); } DV c = randv(b, mons.size()); return std::pair{nv, std::function<MultivariatePolynomial()>([=] { return MultivariatePolynomial(nv, c, mons); })}; };
        auto [nv, make] = mk(); auto [nv2, other] = mk();
        vector<std::function<DV(MultivariatePolynomial&)>> calls;
        for (int c = 0; c < nc; ++c) { int op = s.integer(0, 4), bs = op < 4 ? 1 : s.sized(1, 9); DV x = randv(b, nv * bs);
            calls.push_back([=](MultivariatePolynomial& t) { if (op == 0) return DV{t.evaluate(x)}; if (op == 1) return DV{t.evaluate_simple(x)}; if (op < 4) { auto [f, g] = op == 2 ? t.evaluate_gradient(x) : t.evaluate_gradient_simple(x); g.push_back(f); return g; } auto [f, g] = t.evaluate_batch(x, bs); append(f, g); return f; }); }
        return component<MultivariatePolynomial>(s, ctx, make, other, calls);
    }
    if (kind == 2 || kind == 3) {
        int n = s.sized(2, 12), ns = kind == 2 ? 1 : s.sized(1, 12); double h = s.real(0.1, 1); name = kind == 2 ? "spline" : "spline set"; ctx.describe(" ", name, " n=", n, " ns=", ns);
        auto tab = [&] { vector<DV> v; for (int k = 0; k < ns; ++k) v.push_back(randv(b, n)); return v; };
        auto f = tab(), d = tab(), f2 = tab(), d2 = tab(); vector<double> rs; for (int c = 0; c < nc; ++c) rs.push_back(b.uni() * h * (n - 1) * 0.999);
        if (kind == 2) {
            vector<std::function<DV(CubicSpline&)>> calls; for (double r : rs) { int op = s.integer(0, 2); calls.push_back([=](CubicSpline& t) { if (op == 0) return DV{t.evaluate(r)}; auto [v, g] = op == 1 ? t.evaluate_deriv(r) : t.evaluate_deriv_divided(r); return DV{v, g}; }); }
            return component<CubicSpline>(s, ctx, [=] { return CubicSpline(h, f[0], d[0]); }, [=] { return CubicSpline(h * 2, f2[0], d2[0]); }, calls);
        }
        vector<std::function<DV(CubicSplineSet&)>> calls; for (double r : rs) { bool der = s.boolean(); calls.push_back([=](CubicSplineSet& t) { DV v(ns), g(ns); if (der) t.evaluate_derivs(r, v, g); else t.evaluate(r, v); append(v, g); return v; }); }
        return component<CubicSplineSet>(s, ctx, [=] { return CubicSplineSet(h, f, d); }, [=] { return CubicSplineSet(h * 2, f2, d2); }, calls);
    }
    if (kind == 4) {
        name = "ZBL"; ctx.describe(" ZBL ");
        auto z = gen_zbl(s, ctx), z2 = gen_zbl(s, ctx); int nz = (int)z.cov.size();
        vector<std::function<DV(ZBL&)>> calls;
        for (int c = 0; c < nc; ++c) { int Zu = b.integer(1, nz - 1), Zv = b.integer(1, nz - 1); double r = (z.cov[Zu] + z.cov[Zv]) * (0.1 + b.uni());
            int N = b.integer(1, 4); vector<int> ty, nn, nt; DV rr, xyz; for (int i = 0; i < N; ++i) { ty.push_back(b.integer(0, 1)); nn.push_back(b.integer(0, 3)); for (int j = 0; j < nn.back(); ++j) { nt.push_back(b.integer(0, 1)); DV v = randv(b, 3, r); append(xyz, v); rr.push_back(std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) + 1e-3); } }
            calls.push_back([=](ZBL& t) { DV o{t.compute(Zu, Zv, r), t.compute_gradient(Zu, Zv, r), t.compute_envelope(r, 1.5 * r, 6), t.compute_envelope_gradient(r, 1.5 * r, 6)}; DV e(N, 0.5), f(xyz.size(), 0.25); vector<int> Z{Zu, Zv}; t.compute_ZBL(N, ty, nn, nt, Z, rr, xyz, e, f); append(o, e); append(o, f); return o; }); }
        auto mk = [](const ref::ZBL& z) { return [z] { return ZBL(z.a_exp, z.a_pre, z.c, z.cov, z.p); }; };
        return component<ZBL>(s, ctx, mk(z), mk(z2), calls);
    }
    if (kind == 5) {
        name = "spherical harmonics"; ctx.describe(" spherical harmonics"); vector<std::function<DV()>> calls;
        for (int c = 0; c < 3 * nc; ++c) { int l = b.integer(0, 9), m = b.integer(-l, l), L = b.integer(0, 6); DV x = randv(b, 3); double t = 3.1 * b.uni(), p = b.sym(3);
            calls.push_back([=] { auto a = sph_harm(l, m, t, p), e = sph_harm_xyz(l, m, x[0], x[1], x[2]), g = sphericart_sph_harm(l, m, x[0], x[1], x[2]); DV o{a.real(), a.imag(), e.real(), e.imag(), g.real(), g.imag(), real_sph_harm(l, m, t, p), real_sph_harm_xyz(l, m, x[0], x[1], x[2]), sphericart_real_sph_harm(l, m, x[0], x[1], x[2])}; append(o, sphericart_real(L, x)); for (auto z : sphericart_complex(L, x)) { o.push_back(z.real()); o.push_back(z.imag()); } return o; }); }
        return [calls](bool) { DV o; for (auto& c : calls) append(o, c()); return o; };
    }
    name = "combinatorics"; ctx.describe(" combinatorics"); vector<vector<int>> in; for (int c = 0; c < nc; ++c) { in.emplace_back(); int n = b.integer(0, 6); for (int i = 0; i < n; ++i) in.back().push_back(b.integer(-2, 4)); }
    return [in](bool) {
        DV o; auto put2 = [&](const vector<vector<int>>& v) { o.push_back(v.size()); for (auto& a : v) { o.push_back(a.size()); for (int x : a) o.push_back(x); } };
        for (auto& v : in) { int n = (int)v.size(); o.push_back(_sum(v)); o.push_back(_binomial_coefficient(n + 3, n / 2)); for (auto& p : _partitions(v)) put2(p); for (auto& p : _two_part_partitions(v)) put2(p); put2(_permutations(std::min(n, 5))); put2(_combinations(v, 2)); put2(_product_repeat(v, 2)); put2(_product<int>({v, v})); put2(_generate_indices(2, n)); }
        return o;
    };
}
}  // namespace

PBT_PROPERTY(par_components, "2-4 generated building blocks (networks, polynomials, splines, spline sets, ZBL, spherical harmonics, combinatorics), each made fresh, made earlier, copied from a used one, assigned over another one or moved, each put through its own 1-4 calls by its own thread at the same time: every result equals that of a fresh object used alone; in the thread-sanitizer build any unsynchronised sharing is reported; non-trivial: at least two of the same kind or one copied or moved") {
    int n = s.integer(1, 4); vector<Job> jobs; vector<std::string> names;
    for (int i = 0; i < n; ++i) { names.emplace_back(); jobs.push_back(gen_job(s, ctx, names.back())); names.back() += str(" ", i); ctx.describe(";"); }
    ctx.nontrivial = n > 1;
    together(jobs, names, ctx);
}

PBT_PROPERTY(par_evaluators, "2-3 MACE evaluators of one or two generated models, made in their thread, made earlier and handed over, or moved, each running its own sequence of 1-3 systems in its own thread at the same time (files being loaded meanwhile): every energy and force equals that of an evaluator used alone; in the thread-sanitizer build any unsynchronised sharing is reported; non-trivial: at least two threads with edges") {
    Files fs; GenOpt go{.max_K = 3, .max_E = 3, .max_l = 2, .max_terms = 15, .big = false};
    vector<Model> ms{gen_model(s, go)}; if (s.boolean()) ms.push_back(s.boolean() ? sibling(ms[0], s) : gen_model(s, go));
    vector<std::string> path; for (auto& m : ms) { path.push_back(mem_file(to_json(m))); ctx.describe(m.summary(), " "); }
    int n = s.integer(1, 3), withe = 0; vector<Job> jobs; vector<std::string> names;
    for (int i = 0; i < n; ++i) {
        int w = s.integer(0, (int)ms.size() - 1), how = s.integer(0, 2), nc = s.sized(1, 3), warm = s.integer(0, 1); vector<Graph> gs; bool any = false;
        for (int c = 0; c < nc; ++c) { gs.push_back(s.boolean() ? gen_free_graph(s, ms[w]) : build_graph(gen_system(s, ms[w], {.max_atoms = 4, .big = false}), ms[w].r_cut, 80)); any |= gs.back().edges() > 0; }
        withe += any; static const char* hows[] = {"made in the thread", "made before", "moved"}; ctx.label(hows[how]);
        ctx.describe("| thread ", i, " model ", w, " ", hows[how]); for (auto& g : gs) ctx.describe(" nodes=", g.N, " edges=", g.edges());
        auto run = [](MACE& M, const Graph& g) { M.compute_node_energies_forces(g.N, g.type, g.num, g.idx, g.ntype, g.xyz, g.r); DV o = M.node_energies; o.resize(g.N); DV f = M.node_forces; f.resize(g.xyz.size()); append(o, f); return o; };
        std::shared_ptr<MACE> made; std::string p = path[w];
        if (how) { made = std::make_shared<MACE>(p); if (warm) run(*made, gs.back()); }
        names.push_back(str("evaluator ", i));
        jobs.push_back([=](bool fresh) {
            DV o; auto all = [&](MACE& M) { for (auto& g : gs) append(o, run(M, g)); };
            if (fresh || how == 0) { MACE M(p); all(M); }
            else if (how == 1) all(*made);
            else { MACE M(std::move(*made)); all(M); *made = std::move(M); }
            return o;
        });
    }
    ctx.nontrivial = withe >= 2;
    together(jobs, names, ctx);
}
