// The Python module against the C++ classes it exposes: the same calls made through Python and directly.
#include <numeric>
#include "py_common.hpp"
#include "gen_components.hpp"
#include "cubic_spline.hpp"
#include "cubic_spline_set.hpp"
#include "cubic_spline_kokkos.hpp"
#include "cubic_spline_set_kokkos.hpp"
#include "mace.hpp"
#include "mace_kokkos.hpp"
#include "multilayer_perceptron.hpp"
#include "multilayer_perceptron_kokkos.hpp"
#include "multivariate_polynomial.hpp"
#include "multivariate_polynomial_kokkos.hpp"
#include "spherical_harmonic.hpp"
#include "tools.hpp"
#include "zbl.hpp"
#include "zbl_kokkos.hpp"
using namespace pyh;

namespace {
AtStart at_start;
struct KokkosOn { KokkosOn() { if (!Kokkos::is_initialized()) get().core.attr("_init_kokkos")(); check(get().core.attr("_kokkos_is_initialized")().cast<bool>(), "Kokkos is not initialised after _init_kokkos"); } };

// the same numbers as a list, a tuple or an array of some type that holds them exactly
template <class T> py::object as_input(Src& s, const vector<T>& v) {
    World& w = get(); bool integral = std::is_integral_v<T>;
    bool exact = true; for (auto x : v) exact = exact && (double)(float)x == (double)x;
    switch (s.integer(0, 3)) {
    case 0: return py::cast(v);
    case 1: return w.np.attr("array")(v, "dtype"_a = integral ? "int64" : "float64");
    case 2: return w.np.attr("array")(v, "dtype"_a = integral ? "int32" : exact ? "float32" : "float64");
    default: return w.np.attr("ascontiguousarray")(w.np.attr("array")(v, "dtype"_a = integral ? "int32" : "float64"));
    }
}
py::object array_of(const vector<double>& v) { return get().np.attr("array")(v, "dtype"_a = "float64"); }
void same(const vector<double>& a, const vector<double>& b, double tol, const std::string& what) {
    check(a.size() == b.size(), str(what, ": ", a.size(), " values through Python, ", b.size(), " directly"));
    double sc = 0; for (double x : b) if (pbt::finite(x)) sc = std::max(sc, std::fabs(x));
    for (size_t i = 0; i < a.size(); ++i) { if (!pbt::finite(a[i]) && !pbt::finite(b[i])) continue; check(pbt::finite(a[i]) && std::fabs(a[i] - b[i]) <= tol * sc, str(what, "[", i, "]: ", a[i], " through Python, ", b[i], " directly")); }
}
void same(double a, double b, double tol, const std::string& what) { same(vector<double>{a}, vector<double>{b}, tol, what); }
template <class F> bool throws(F&& f) { try { f(); return false; } catch (py::error_already_set&) { throw; } catch (const std::exception&) { return true; } }

// --- evaluators of the three kinds behind one interface
template <class V> vector<double> flat(const V& v) {
    vector<double> o;
    if constexpr (V::rank == 1) for (size_t i = 0; i < v.extent(0); ++i) o.push_back(v(i));
    else if constexpr (V::rank == 2) for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) o.push_back(v(i, j));
    else for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) for (size_t k = 0; k < v.extent(2); ++k) o.push_back(v(i, j, k));
    return o;
}
template <class V> void fill(V& v, const vector<double>& x) {
    size_t n = 0;
    if constexpr (V::rank == 1) for (size_t i = 0; i < v.extent(0); ++i) v(i) = x[n++];
    else if constexpr (V::rank == 2) for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) v(i, j) = x[n++];
    else for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) for (size_t k = 0; k < v.extent(2); ++k) v(i, j, k) = x[n++];
}
inline vector<double> flat(const vector<double>& v) { return v; }
inline void fill(vector<double>& v, const vector<double>& x) { v = x; }
#define FIELDS(X) X(node_energies, "node_energies") X(node_forces, "node_forces") X(R0, "R0") X(R1, "R1") X(A0, "A0") X(A0_adj, "A0_adj") X(M0, "M0") X(M0_adj, "M0_adj") X(H1, "H1") X(H1_adj, "H1_adj") \
    X(Phi1, "Phi1") X(dPhi1, "Phi1_adj") X(A1, "A1") X(A1_adj, "A1_adj") X(M1, "M1") X(M1_adj, "M1_adj") X(H2, "H2") X(H2_adj, "H2_adj")
template <class T> struct Both {
    T direct; py::object py_; double tol; std::string path;
    Both(const std::string& p, const char* cls, double t) : direct(p), py_(get().core.attr(cls)(p)), tol(t), path(p) {}
    void compare(const std::string& after) {
#define X(member, name) if constexpr (requires(T& t) { t.member; }) same(doubles(py_.attr(name)), flat(direct.member), tol, str(name, " after ", after));
        FIELDS(X)
#undef X
    }
    bool set(const std::string& name, Bulk& b) {
        vector<double> v;
#define X(member, nm) if constexpr (requires(T& t) { t.member; }) if (name == nm) { v = flat(direct.member); for (auto& x : v) x = (double)(float)((pbt::finite(x) ? x : 0) * (1 + 0.25 * b.sym()) + 0.01 * b.sym()); fill(direct.member, v); }
        FIELDS(X)
#undef X
        if (v.empty()) return false;
        py_.attr(name.c_str()) = array_of(v);
        same(doubles(py_.attr(name.c_str())), v, 0, name + " after assigning to it");
        return true;
    }
};
template <class T> Kokkos::View<const T*> kv(const vector<T>& v) { Kokkos::View<T*> w("in", v.size()); for (size_t i = 0; i < v.size(); ++i) w(i) = v[i]; return w; }
}  // namespace

template <class T> static void evaluator(Src& s, Ctx& ctx, const char* cls, double tol) {
    constexpr bool plain = std::is_same_v<T, MACE>;
    Model m = gen_model(s, {.max_K = 3, .max_E = 3, .big = s.chance(20)}); Both<T> B(mem_file(to_json(m)), cls, tol);
    ctx.describe(cls, " ", m.summary()); ctx.label(cls);
    check_close(B.py_.attr("r_cut").template cast<double>(), (double)B.direct.r_cut, 0, 0, "r_cut");
    check(B.py_.attr("atomic_numbers").template cast<vector<int>>() == m.Z, "atomic_numbers");
    int rounds = s.sized(1, 3);
    for (int q = 0; q < rounds; ++q) {
        Graph g = s.boolean() ? gen_free_graph(s, m) : build_graph(gen_system(s, m, {.max_atoms = 5}), m.r_cut, 100);
        if (g.N == 0) throw Discard{};
        ctx.describe(" | nodes=", g.N, " edges=", g.edges());
        py::object nt = as_input(s, g.type), nn = as_input(s, g.num), ix = as_input(s, g.idx), jt = as_input(s, g.ntype), xyz = as_input(s, g.xyz), r = as_input(s, g.r);
        py::object before = py::module_::import("copy").attr("deepcopy")(py::make_tuple(nt, nn, ix, jt, xyz, r)); py::object now = py::make_tuple(nt, nn, ix, jt, xyz, r);
        auto I = [&](const vector<int>& v) { if constexpr (plain) return std::span<const int>(v); else return kv(v); };
        auto D = [&](const vector<double>& v) { if constexpr (plain) return std::span<const double>(v); else return kv(v); };
        T& d = B.direct; py::object& p = B.py_; int N = g.N;
        if (s.chance(30) || (!plain && q == 0)) {
            d.compute_node_energies_forces(N, I(g.type), I(g.num), I(g.idx), I(g.ntype), D(g.xyz), D(g.r)); p.attr("compute_node_energies_forces")(N, nt, nn, ix, jt, xyz, r); B.compare("compute_node_energies_forces"); ctx.label("single call");
        } else {
            ctx.label("stages"); Bulk b(s.bulk_seed());
            bool z1 = s.boolean(), z2 = s.boolean(), z3 = s.boolean();
            auto maybe_set = [&](const char* f) { if (s.chance(12)) { if (B.set(f, b)) ctx.label("assigned"); } };
            if constexpr (plain) { d.node_energies.assign(N, 0.0); d.node_forces.assign(g.xyz.size(), 0.0); p.attr("node_energies") = vector<double>(N, 0.0); p.attr("node_forces") = vector<double>(g.xyz.size(), 0.0); }
            else { d.compute_node_energies_forces(N, I(g.type), I(g.num), I(g.idx), I(g.ntype), D(g.xyz), D(g.r)); p.attr("compute_node_energies_forces")(N, nt, nn, ix, jt, xyz, r); }
            d.compute_Y(D(g.xyz)); p.attr("compute_Y")(xyz);
            d.compute_R0(N, I(g.type), I(g.num), I(g.ntype), D(g.r)); p.attr("compute_R0")(N, nt, nn, jt, r); B.compare("compute_R0"); maybe_set("R0");
            d.compute_A0(N, I(g.type), I(g.num), I(g.ntype)); p.attr("compute_A0")(N, nt, nn, jt); B.compare("compute_A0"); maybe_set("A0");
            d.compute_A0_scaled(N, I(g.type), I(g.num), I(g.ntype), D(g.r)); p.attr("compute_A0_scaled")(N, nt, nn, jt, r); B.compare("compute_A0_scaled");
            d.compute_M0(N, I(g.type)); p.attr("compute_M0")(N, nt); B.compare("compute_M0"); maybe_set("M0");
            d.compute_H1(N); p.attr("compute_H1")(N); B.compare("compute_H1"); maybe_set("H1");
            d.compute_R1(N, I(g.type), I(g.num), I(g.ntype), D(g.r)); p.attr("compute_R1")(N, nt, nn, jt, r); B.compare("compute_R1"); maybe_set("R1");
            d.compute_Phi1(N, I(g.num), I(g.idx)); p.attr("compute_Phi1")(N, nn, ix); B.compare("compute_Phi1"); maybe_set("Phi1");
            d.compute_A1(N); p.attr("compute_A1")(N); B.compare("compute_A1"); maybe_set("A1");
            d.compute_A1_scaled(N, I(g.type), I(g.num), I(g.ntype), D(g.r)); p.attr("compute_A1_scaled")(N, nt, nn, jt, r); B.compare("compute_A1_scaled");
            d.compute_M1(N, I(g.type)); p.attr("compute_M1")(N, nt); B.compare("compute_M1"); maybe_set("M1");
            d.compute_H2(N, I(g.type)); p.attr("compute_H2")(N, nt); B.compare("compute_H2"); maybe_set("H2");
            maybe_set("node_energies");
            if constexpr (plain) { d.compute_readouts(N, I(g.type)); p.attr("compute_readouts")(N, nt); }
            else { double e = d.compute_readouts(N, I(g.type)); same(p.attr("compute_readouts")(N, nt).template cast<double>(), e, tol, "value of compute_readouts"); }
            B.compare("compute_readouts"); maybe_set("H2_adj"); maybe_set("H1_adj");
            d.reverse_H2(N, I(g.type), z1); p.attr("reverse_H2")(N, nt, z1); B.compare("reverse_H2"); maybe_set("M1_adj");
            d.reverse_M1(N, I(g.type)); p.attr("reverse_M1")(N, nt); B.compare("reverse_M1"); maybe_set("A1_adj");
            d.reverse_A1_scaled(N, I(g.type), I(g.num), I(g.ntype), D(g.xyz), D(g.r)); p.attr("reverse_A1_scaled")(N, nt, nn, jt, xyz, r); B.compare("reverse_A1_scaled");
            d.reverse_A1(N); p.attr("reverse_A1")(N); B.compare("reverse_A1"); maybe_set("Phi1_adj"); maybe_set("node_forces");
            d.reverse_Phi1(N, I(g.num), I(g.idx), D(g.xyz), D(g.r), z2, z3); p.attr("reverse_Phi1")(N, nn, ix, xyz, r, z2, z3); B.compare("reverse_Phi1"); maybe_set("H1_adj");
            d.reverse_H1(N); p.attr("reverse_H1")(N); B.compare("reverse_H1"); maybe_set("M0_adj");
            d.reverse_M0(N, I(g.type)); p.attr("reverse_M0")(N, nt); B.compare("reverse_M0"); maybe_set("A0_adj");
            d.reverse_A0_scaled(N, I(g.type), I(g.num), I(g.ntype), D(g.xyz), D(g.r)); p.attr("reverse_A0_scaled")(N, nt, nn, jt, xyz, r); B.compare("reverse_A0_scaled");
            d.reverse_A0(N, I(g.type), I(g.num), I(g.ntype), D(g.xyz), D(g.r)); p.attr("reverse_A0")(N, nt, nn, jt, xyz, r); B.compare("reverse_A0");
        }
        py::tuple t1 = before, t2 = now; for (int k = 0; k < 6; ++k) check(get().np.attr("array_equal")(t1[k], t2[k]).template cast<bool>(), "the arguments were modified");
        if (g.edges() > 1) ctx.nontrivial = true;
    }
}

PBT_PROPERTY(bind_evaluators, "generated models and graphs evaluated through the Python classes MACE, MACEKokkos and MACEKokkosFloat (single call, or every public stage in order, with lists and arrays of several types as arguments and intermediate quantities assigned from Python) and directly in C++: every exposed quantity agrees after every call, and arguments are unchanged; non-trivial: at least two edges") {
    Files fs; KokkosOn on; int k = s.integer(0, 2);
    if (k == 0) evaluator<MACE>(s, ctx, "MACE", 1e-13); else if (k == 1) evaluator<MACEKokkos<double>>(s, ctx, "MACEKokkos", 1e-11); else evaluator<MACEKokkos<float>>(s, ctx, "MACEKokkosFloat", 2e-5);
}

PBT_PROPERTY(bind_components, "splines, spline sets, networks, polynomials and ZBL (plain and Kokkos) built and evaluated through Python with generated data given as lists and arrays of several types, and directly in C++: values, gradients, output arrays and rejections agree; non-trivial: every accepted evaluation") {
    World& w = get(); KokkosOn on; py::module_& c = w.core; const double T = 1e-13;
    int kind = s.integer(0, 9); ctx.label(str("kind ", kind));
    auto pick_r = [&](const SplineData& D, bool* outside) { const char* k; if (s.chance(12)) { *outside = true; return s.boolean() ? -D.h * s.real(1, 4) : D.h * (D.n - 1) + D.h * s.real(1, 5); } *outside = false; return gen_r(s, D, &k); };
    if (kind == 0 || kind == 1) {
        auto D = gen_splines(s, ctx, 1); bool out; int nq = s.sized(1, 4);
        auto go = [&](auto& d, py::object p) {
            for (int q = 0; q < nq; ++q) {
                double r = pick_r(D, &out); ctx.describe("r=", r, " "); double a = 0, b1 = 0, b2 = 0, c1 = 0, c2 = 0; bool t = throws([&] { a = d.evaluate(r); auto x = d.evaluate_deriv(r); b1 = std::get<0>(x); b2 = std::get<1>(x); auto y = d.evaluate_deriv_divided(r); c1 = std::get<0>(y); c2 = std::get<1>(y); });
                if (t) { check(raises([&] { p.attr("evaluate")(r); }) && raises([&] { p.attr("evaluate_deriv")(r); }) && raises([&] { p.attr("evaluate_deriv_divided")(r); }), "a point rejected in C++ is accepted through Python"); ctx.label("rejected"); continue; }
                same(p.attr("evaluate")(r).template cast<double>(), a, T, "evaluate"); same(doubles(p.attr("evaluate_deriv")(r)), {b1, b2}, T, "evaluate_deriv"); same(doubles(p.attr("evaluate_deriv_divided")(r)), {c1, c2}, T, "evaluate_deriv_divided"); ctx.nontrivial = true;
            }
        };
        py::object f = as_input(s, D.f[0]), g = as_input(s, D.d[0]);
        if (kind == 0) { CubicSpline d(D.h, D.f[0], D.d[0]); go(d, c.attr("CubicSpline")(D.h, f, g)); } else { CubicSplineKokkos d(D.h, D.f[0], D.d[0]); go(d, c.attr("CubicSplineKokkos")(D.h, f, g)); }
    } else if (kind == 2 || kind == 3) {
        int ns = s.sized(1, 12); auto D = gen_splines(s, ctx, ns);
        auto go = [&](auto& d, py::object p) {
            int nq = s.sized(1, 4); for (int q = 0; q < nq; ++q) {
                const char* k; double r = gen_r(s, D, &k); vector<double> v(ns, 7), v2(ns, 8), g(ns, 9); py::object pv = array_of(v), pv2 = array_of(v2), pg = array_of(g);
                d.evaluate(r, std::span<double>(v)); d.evaluate_derivs(r, std::span<double>(v2), std::span<double>(g)); p.attr("evaluate")(r, pv); p.attr("evaluate_derivs")(r, pv2, pg);
                same(doubles(pv), v, T, "evaluate"); same(doubles(pv2), v2, T, "evaluate_derivs values"); same(doubles(pg), g, T, "evaluate_derivs derivatives"); ctx.nontrivial = true;
            }
        };
        py::object f = py::cast(D.f), g = s.boolean() ? py::cast(D.d) : w.np.attr("array")(D.d);
        if (kind == 2) { CubicSplineSet d(D.h, D.f, D.d); go(d, c.attr("CubicSplineSet")(D.h, f, g)); } else { CubicSplineSetKokkos d(D.h, D.f, D.d); go(d, c.attr("CubicSplineSetKokkos")(D.h, f, g)); }
    } else if (kind == 4 || kind == 5) {
        vector<int> shape; int nl = s.sized(2, 4); for (int i = 0; i < nl; ++i) shape.push_back(s.sized(1, 8)); if (kind == 5) shape.back() = 1;
        Bulk b(s.bulk_seed()); vector<vector<double>> W; for (int l = 0; l + 1 < nl; ++l) { vector<double> x(shape[l] * shape[l + 1]); for (auto& y : x) y = b.sym(); W.push_back(x); }
        double scale = s.real(0.5, 2); int bs = s.sized(1, 5), ni = shape[0], no = shape.back(); vector<double> x(bs * ni); for (auto& y : x) y = b.sym(2); ctx.describe("shape=", vec(shape), " batch=", bs, " scale=", scale);
        py::object psh = as_input(s, shape), pw = py::cast(W), px = as_input(s, x);
        if (kind == 4) {
            MultilayerPerceptron d(shape, W, scale); py::object p = c.attr("MultilayerPerceptron")(psh, pw, scale);
            vector<double> x1(x.begin(), x.begin() + ni); py::object px1 = as_input(s, x1);
            same(doubles(p.attr("evaluate")(px1)), d.evaluate(x1), T, "evaluate");
            { auto [v, g] = d.evaluate_gradient(x1); py::tuple t = p.attr("evaluate_gradient")(px1); same(doubles(t[0]), v, T, "evaluate_gradient value"); same(doubles(t[1]), g, T, "evaluate_gradient gradient"); }
            same(doubles(p.attr("evaluate_batch")(px, bs)), d.evaluate_batch(x, bs), T, "evaluate_batch");
            { auto [v, g] = d.evaluate_gradient_batch(x, bs); py::tuple t = p.attr("evaluate_gradient_batch")(px, bs); same(doubles(t[0]), v, T, "evaluate_gradient_batch value"); same(doubles(t[1]), g, T, "evaluate_gradient_batch gradient"); }
        } else {
            MultilayerPerceptronKokkos d(shape, W, scale); py::object p = c.attr("MultilayerPerceptronKokkos")(psh, pw, scale);
            Kokkos::View<double**, Kokkos::LayoutRight> vx("x", bs, ni), vg("g", bs, ni); Kokkos::View<double*> vf("f", bs), vf2("f2", bs); for (int i = 0; i < bs; ++i) for (int j = 0; j < ni; ++j) vx(i, j) = x[i * ni + j];
            d.evaluate(vx, vf); d.evaluate_gradient(vx, vf2, vg);
            py::object ax = array_of(x).attr("reshape")(bs, ni), af = w.np.attr("full")(bs, 3.0), af2 = w.np.attr("full")(bs, 4.0), ag = w.np.attr("full")(py::make_tuple(bs, ni), 5.0);
            p.attr("evaluate")(ax, af); p.attr("evaluate_gradient")(ax, af2, ag);
            same(doubles(af), flat(vf), T, "evaluate"); same(doubles(af2), flat(vf2), T, "evaluate_gradient value"); same(doubles(ag), flat(vg), T, "evaluate_gradient gradient"); same(doubles(ax), x, 0, "the input");
        }
        (void)no; ctx.nontrivial = true;
    } else if (kind == 6 || kind == 7) {
        int nv = s.sized(1, 6); std::set<vector<int>> seen; vector<vector<int>> mon; vector<double> co; int nt = s.sized(1, 10); Bulk b(s.bulk_seed());
        for (int t = 0; t < nt; ++t) { int dg = s.sized(1, 4); vector<int> e; for (int i = 0; i < dg; ++i) e.push_back(s.integer(0, nv - 1)); std::sort(e.begin(), e.end()); if (seen.insert(e).second) { mon.push_back(e); co.push_back(b.sym()); } }
        vector<double> x(nv); for (auto& y : x) y = b.sym(2); ctx.describe("variables=", nv, " terms=", mon.size()); py::object px = as_input(s, x), pc = as_input(s, co), pm = py::cast(mon);
        auto go = [&](auto& d, py::object p) {
            constexpr bool kk = std::is_same_v<std::decay_t<decltype(d)>, MultivariatePolynomialKokkos>;
            if constexpr (!kk) {
                same(p.attr("evaluate")(px).template cast<double>(), d.evaluate(x), T, "evaluate"); same(p.attr("evaluate_simple")(px).template cast<double>(), d.evaluate_simple(x), T, "evaluate_simple");
                auto [f, g] = d.evaluate_gradient(x); py::tuple t = p.attr("evaluate_gradient")(px); same(doubles(t[0])[0], f, T, "evaluate_gradient value"); same(doubles(t[1]), g, T, "evaluate_gradient gradient");
                auto [f2, g2] = d.evaluate_gradient_simple(x); t = p.attr("evaluate_gradient_simple")(px); same(doubles(t[0])[0], f2, T, "evaluate_gradient_simple value"); same(doubles(t[1]), g2, T, "evaluate_gradient_simple gradient");
                int bs = s.sized(1, 4); vector<double> xb(bs * nv); for (auto& y : xb) y = b.sym(2); auto [fb, gb] = d.evaluate_batch(xb, bs); t = p.attr("evaluate_batch")(as_input(s, xb), bs); same(doubles(t[0]), fb, T, "evaluate_batch values"); same(doubles(t[1]), gb, T, "evaluate_batch gradients");
            } else {
                auto vx = kv(x); Kokkos::View<double*> g("g", nv), g2("g2", nv); const double TK = 1e-11;
                same(p.attr("evaluate")(px).template cast<double>(), d.evaluate(vx), TK, "evaluate"); same(p.attr("evaluate_simple")(px).template cast<double>(), d.evaluate_simple(vx), TK, "evaluate_simple");
                py::object pg = w.np.attr("full")(nv, 3.0), pg2 = w.np.attr("full")(nv, 4.0);
                double f = d.evaluate_gradient(vx, g), f2 = d.evaluate_gradient_simple(vx, g2);
                same(p.attr("evaluate_gradient")(px, pg).template cast<double>(), f, TK, "evaluate_gradient value"); same(p.attr("evaluate_gradient_simple")(px, pg2).template cast<double>(), f2, TK, "evaluate_gradient_simple value");
                same(doubles(pg), flat(g), TK, "evaluate_gradient gradient"); same(doubles(pg2), flat(g2), TK, "evaluate_gradient_simple gradient");
            }
        };
        if (kind == 6) { MultivariatePolynomial d(nv, co, mon); go(d, c.attr("MultivariatePolynomial")(nv, pc, pm)); } else { MultivariatePolynomialKokkos d(nv, co, mon); go(d, c.attr("MultivariatePolynomialKokkos")(nv, pc, pm)); }
        ctx.nontrivial = true;
    } else {
        auto z = gen_zbl(s, ctx); int n = (int)z.cov.size();
        auto go = [&](auto& d, py::object p) {
            int nq = s.sized(1, 4); for (int q = 0; q < nq; ++q) {
                int a = s.integer(1, n - 1), b = s.integer(1, n - 1); const char* k; double rm = z.cov[a] + z.cov[b], r = gen_zbl_r(s, rm, &k); ctx.describe("Z=", a, ",", b, " r=", r, " ");
                same(p.attr("compute")(a, b, r).template cast<double>(), d.compute(a, b, r), T, "compute"); same(p.attr("compute_gradient")(a, b, r).template cast<double>(), d.compute_gradient(a, b, r), T, "compute_gradient");
                same(p.attr("compute_envelope")(r, rm, z.p).template cast<double>(), d.compute_envelope(r, rm, z.p), T, "compute_envelope"); same(p.attr("compute_envelope_gradient")(r, rm, z.p).template cast<double>(), d.compute_envelope_gradient(r, rm, z.p), T, "compute_envelope_gradient");
            }
        };
        py::object pc = as_input(s, z.c), pv = as_input(s, z.cov);
        if (kind == 8) { ZBL d(z.a_exp, z.a_pre, z.c, z.cov, z.p); go(d, c.attr("ZBL")(z.a_exp, z.a_pre, pc, pv, z.p)); } else { ZBLKokkos d(z.a_exp, z.a_pre, z.c, z.cov, z.p); go(d, c.attr("ZBLKokkos")(z.a_exp, z.a_pre, pc, pv, z.p)); }
        ctx.nontrivial = true;
    }
}

PBT_PROPERTY(bind_functions, "the module's free functions (combinatorial helpers and spherical harmonics) called through the package with generated arguments and directly in C++ agree, and the package re-exports every name of the compiled module; non-trivial: every case") {
    World& w = get(); py::module_& c = w.pkg; ctx.nontrivial = true;
    auto list = [&](int lo, int hi) { vector<int> v; int n = s.integer(lo, hi); for (int i = 0; i < n; ++i) v.push_back(s.integer(-3, 6)); return v; };
    auto eq = [&](const char* name, auto direct, auto... args) { py::object r = c.attr(name)(args...); check(r.cast<decltype(direct)>() == direct, str(name, " differs through Python")); ctx.describe(name, " "); };
    switch (s.integer(0, 9)) {
    case 0: { auto v = list(0, 8); eq("_sum", _sum(v), as_input(s, v)); break; }
    case 1: { int n = s.integer(0, 20), k = s.integer(0, n); eq("_binomial_coefficient", _binomial_coefficient(n, k), n, k); break; }
    case 2: { auto v = list(1, 5); eq("_partitions", _partitions(v), as_input(s, v)); break; }
    case 3: { auto v = list(2, 6); eq("_two_part_partitions", _two_part_partitions(v), as_input(s, v)); break; }
    case 4: { int n = s.integer(0, 6); eq("_permutations", _permutations(n), n); break; }
    case 5: { auto v = list(2, 7); eq("_combinations", _combinations(v, 2), as_input(s, v), 2); break; }
    case 6: { auto v = list(1, 4); int n = s.integer(1, 3); eq("_product_repeat", _product_repeat(v, n), as_input(s, v), n); break; }
    case 7: { int n = s.integer(1, 4), k = s.integer(1, 4); eq("_generate_indices", _generate_indices(n, k), n, k); break; }
    case 8: {
        int l = s.integer(0, 6), m = s.integer(-l, l); double x = s.sym(2), y = s.sym(2), z = s.sym(2), t = s.real(0, 3.14), p = s.real(-3.1, 6.2); if (x == 0) x = 0.3; if (y == 0) y = -0.2; ctx.describe("l=", l, " m=", m, " ", x, " ", y, " ", z, " ", t, " ", p);
        auto cx = [&](const char* n, std::complex<double> d, auto... a) { auto r = c.attr(n)(a...).template cast<std::complex<double>>(); check(std::abs(r - d) <= 1e-13 * (1 + std::abs(d)), str(n, " differs through Python")); };
        auto re = [&](const char* n, double d, auto... a) { same(c.attr(n)(a...).template cast<double>(), d, 1e-13, n); };
        cx("sph_harm", sph_harm(l, m, t, p), l, m, t, p); cx("sph_harm_xyz", sph_harm_xyz(l, m, x, y, z), l, m, x, y, z); re("real_sph_harm", real_sph_harm(l, m, t, p), l, m, t, p); re("real_sph_harm_xyz", real_sph_harm_xyz(l, m, x, y, z), l, m, x, y, z);
        cx("sphericart_sph_harm", sphericart_sph_harm(l, m, x, y, z), l, m, x, y, z); re("sphericart_real_sph_harm", sphericart_real_sph_harm(l, m, x, y, z), l, m, x, y, z);
        auto d = sphericart_complex(l, {x, y, z}); auto q = c.attr("sphericart_complex")(l, vector<double>{x, y, z}).cast<vector<std::complex<double>>>(); check(q.size() == d.size(), "sphericart_complex size"); for (size_t i = 0; i < d.size(); ++i) check(std::abs(q[i] - d[i]) <= 1e-13 * (1 + std::abs(d[i])), "sphericart_complex differs through Python");
        break; }
    default: {
        vector<std::string> names; for (auto kv : py::dict(w.core.attr("__dict__"))) { auto n = py::str(kv.first).cast<std::string>(); if (n.rfind("__", 0) != 0) names.push_back(n); }
        auto n = s.pick(names); ctx.describe(n); check(py::hasattr(c, n.c_str()) && c.attr(n.c_str()).is(w.core.attr(n.c_str())), "the package does not re-export " + n); }
    }
}

PBT_PROPERTY(bind_strided, "compute_node_energies_forces of the three classes with the pair vectors given as every second element of an array; non-trivial: at least one edge") {
    Files fs; KokkosOn on; World& w = get(); Model m = gen_model(s, {.max_K = 2, .max_E = 2}); Graph g = gen_free_graph(s, m); if (g.edges() == 0) throw Discard{};
    const char* cls = s.pick(vector<const char*>{"MACE", "MACEKokkos", "MACEKokkosFloat"}); auto path = mem_file(to_json(m)); py::object a = w.core.attr(cls)(path), b = w.core.attr(cls)(path);
    vector<double> wide; for (size_t i = 0; i < g.xyz.size(); ++i) { wide.push_back(g.xyz[i]); wide.push_back(0.5 + i % 3); }
    py::object strided = array_of(wide).attr("__getitem__")(py::slice(py::none(), py::none(), py::int_(2)));
    a.attr("compute_node_energies_forces")(g.N, g.type, g.num, g.idx, g.ntype, array_of(g.xyz), g.r); b.attr("compute_node_energies_forces")(g.N, g.type, g.num, g.idx, g.ntype, strided, g.r);
    auto x = doubles(a.attr("node_energies")), y = doubles(b.attr("node_energies")), fx = doubles(a.attr("node_forces")), fy = doubles(b.attr("node_forces")); ctx.nontrivial = true; ctx.describe(cls, " ", m.summary());
    auto near = [](const vector<double>& p, const vector<double>& q) { double sc = 1e-3; for (double v : p) sc = std::max(sc, std::fabs(v)); for (size_t i = 0; i < p.size(); ++i) if (!(std::fabs(p[i] - q[i]) <= 1e-4 * sc)) return false; return p.size() == q.size(); };
    check(near(x, y) && near(fx, fy), str(cls, ".compute_node_energies_forces reads a strided xyz array as if it were contiguous"));
}
