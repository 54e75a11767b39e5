// Properties of the Kokkos evaluator and its building blocks, run on the stand-in Kokkos in shim/kokkos:
// bounds-checked views, poisoned uninitialised storage, and seeded schedules (ordered, shuffled, or real threads).
#include <cmath>
#include <memory>
#include <numeric>
#include <span>
#include "gen_components.hpp"
#include "mace_model.hpp"
#include "cubic_spline_kokkos.hpp"
#include "cubic_spline_set_kokkos.hpp"
#include "mace_kokkos.hpp"
#include "multilayer_perceptron_kokkos.hpp"
#include "multivariate_polynomial_kokkos.hpp"
#include "radial_function_set_kokkos.hpp"
#include "tools_kokkos.hpp"
#include "zbl_kokkos.hpp"
using namespace mm;
using std::vector;
namespace ks = Kokkos::shim;

namespace {
struct Init { Init() { ks::config().initialized = true; } } init_;
struct Files { ~Files() { drop_mem_files(); } };
struct Out { DV e, f; };
template <class T> Kokkos::View<T*> view(const vector<T>& v) { Kokkos::View<T*> w("in", v.size()); for (size_t i = 0; i < v.size(); ++i) w(i) = v[i]; return w; }
template <class T> vector<T> host(Kokkos::View<T*> w) { vector<T> v(w.size()); for (size_t i = 0; i < v.size(); ++i) v[i] = w(i); return v; }

template <class P> Out run(MACEKokkos<P>& M, const Graph& g) {
    auto nt = view(g.type), nn = view(g.num), ix = view(g.idx), jt = view(g.ntype); auto xyz = view(g.xyz), r = view(g.r);
    M.compute_node_energies_forces(g.N, nt, nn, ix, jt, xyz, r);
    Out o; o.e = host(M.node_energies); o.f = host(M.node_forces);
    if ((int)o.e.size() < g.N) fail(str("evaluator reports ", o.e.size(), " node energies for ", g.N, " nodes"));
    if (o.f.size() < g.xyz.size()) fail(str("evaluator reports ", o.f.size(), " force components for ", g.xyz.size()));
    o.e.resize(g.N); o.f.resize(g.xyz.size());
    // inputs are not modified
    if (host(xyz) != g.xyz || host(r) != g.r || host(nt) != g.type || host(nn) != g.num || host(ix) != g.idx || host(jt) != g.ntype) fail("the evaluator changed its inputs");
    return o;
}
// type-erased evaluator of either precision
struct Eval {
    std::unique_ptr<MACEKokkos<double>> d; std::unique_ptr<MACEKokkos<float>> f;
    Eval(const std::string& path, bool single) { if (single) f = std::make_unique<MACEKokkos<float>>(path); else d = std::make_unique<MACEKokkos<double>>(path); }
    Out operator()(const Graph& g) { return d ? run(*d, g) : run(*f, g); }
    double unit() const { return d ? 2e-14 : 1.1e-5; }   // allowed error per unit of the running rounding-error bound: about 180 roundoffs
};
DV rand_dir(Bulk& b, size_t n) { DV d(n); for (auto& x : d) x = b.sym(); return d; }
double dot(const DV& a, const DV& b) { double t = 0; for (size_t i = 0; i < a.size(); ++i) t += a[i] * b[i]; return t; }
void labels(Ctx& ctx, const Model& m) {
    ctx.label(str("l_max=", m.l_max)); ctx.label(str("L_max=", m.L_max)); if (m.zbl) ctx.label("zbl"); if (m.A0s) ctx.label("A0 scaled"); if (m.A1s) ctx.label("A1 scaled");
    if (m.E > 1) ctx.label("several elements");
}
void describe(Ctx& ctx, const Model& m, const Graph& g) { ctx.describe(m.summary(), " nodes=", g.N, " types=", vec(g.type), " num_neigh=", vec(g.num), " idx=", vec(g.idx), " r=", vec(g.r, 12)); }
Graph any_graph(Src& s, Ctx& ctx, const Model& m, int max_atoms = 6) {
    int kind = s.integer(0, 2); Graph g;
    if (kind == 2) { g = gen_free_graph(s, m); ctx.label("free graph"); }
    else { System y = gen_system(s, m, {.max_atoms = max_atoms, .allow_pbc = kind == 1}); g = build_graph(y, m.r_cut, 120); ctx.label("structure"); }
    return g;
}
void schedule(Src& s, Ctx& ctx) {
    int k = s.integer(0, 3); uint64_t seed = s.raw(0xffffff);
    ks::config().max_team = s.integer(1, 4);
#ifdef __SANITIZE_THREAD__
    ks::config().workers = 2 + (int)(seed % 3); ks::reseed(ks::Threads, seed); ctx.label("threads"); ctx.describe("threads max_team=", ks::config().max_team, " "); (void)k; return;
#endif
    ks::reseed(k == 0 ? ks::Ordered : ks::Shuffled, seed);
    ctx.label(k == 0 ? "ordered" : "shuffled"); ctx.describe(k == 0 ? "ordered " : "shuffled ", "max_team=", ks::config().max_team, " ");
}
void compare_ref(const Model& m, const Graph& g, const Out& o, uint64_t seed, double C, const std::string& what) {
    Bulk b(seed);
    size_t n = g.xyz.size();
    vector<DV> dirs{rand_dir(b, n), DV(n, 0), rand_dir(b, n)};
    if (g.edges()) { int e = b.integer(0, g.edges() - 1); for (int d = 0; d < 3; ++d) dirs[1][3 * e + d] = b.sym(); }
    if (g.edges()) { int i = g.src[b.integer(0, g.edges() - 1)]; for (int e = 0; e < g.edges(); ++e) if (g.src[e] != i) for (int d = 0; d < 3; ++d) dirs[2][3 * e + d] = 0; }
    auto r = reference(m, g, dirs);
    for (int i = 0; i < g.N; ++i) check_close(o.e[i], r.e[i], 1e-13 + C * r.em[i], 0, what + str("energy of node ", i));
    for (size_t q = 0; q < n; ++q) check(pbt::finite(o.f[q]), what + str("force component ", q, " is not finite: ", o.f[q]));
    for (int k = 0; k < 3; ++k) check_close(-dot(o.f, dirs[k]), r.sum_d(k), 1e-13 + C * r.sum_dm(k), 0, what + str("derivative of the total energy along direction ", k));
}
}  // namespace

PBT_PROPERTY(kk_reference, "generated models (as for the plain evaluator) in double and single precision on clusters, periodic cells and arbitrary neighbour graphs, under ordered and shuffled schedules with teams of 1-4: node energies equal a direct evaluation of the model definition and pair forces minus its exact derivative, within the rounding of the precision; every view access in range, no result from uninitialised storage; non-trivial: at least three edges and two nodes") {
    Files fs; schedule(s, ctx);
    Model m = gen_model(s); labels(ctx, m);
    Graph g = any_graph(s, ctx, m);
    bool single = s.chance(35); ctx.label(single ? "single precision" : "double precision");
    describe(ctx, m, g);
    ctx.nontrivial = g.edges() >= 3 && g.N >= 2;
    uint64_t seed = s.bulk_seed();
    Eval M(mem_file(to_json(m)), single);
    compare_ref(m, g, M(g), seed, M.unit(), "");
}

PBT_PROPERTY(kk_file_equivalence, "for the Kokkos evaluator in both precisions: restyled model files and other element orders give the same energies and forces; non-trivial: at least two elements or a restyled file, with edges") {
    Files fs; ks::config().max_team = s.integer(1, 4); ks::reseed(ks::Ordered, 1);
    Model m = gen_model(s); labels(ctx, m);
    auto p = s.permutation(m.E); vector<int> invp(m.E); bool id = true; for (int a = 0; a < m.E; ++a) { invp[p[a]] = a; id &= p[a] == a; }
    std::string styled = to_json_styled(m, s); Graph g = any_graph(s, ctx, m, 5); bool single = s.chance(35); ctx.label(single ? "single precision" : "double precision");
    ctx.describe("element order ", vec(p), " file starts ", styled.substr(0, 60), " "); describe(ctx, m, g); ctx.nontrivial = g.edges() > 0 && (styled != to_json(m) || !id); uint64_t seed = s.bulk_seed();
    std::string path = mem_file(styled); if (s.boolean()) { rewrite_mem_file(path, to_json(permute_elements(m, p))); Eval O(path, single); rewrite_mem_file(path, styled); }   // the same file name, other content before
    Eval S(path, single), P(mem_file(to_json(permute_elements(m, p))), single);
    Graph h = g; for (auto& t : h.type) t = invp[t]; for (auto& t : h.ntype) t = invp[t];
    compare_ref(m, g, S(g), seed, S.unit(), "restyled file: "); compare_ref(m, g, P(h), seed, P.unit(), "reordered elements: ");
}

PBT_PROPERTY(kk_file_errors, "for the Kokkos evaluator in both precisions: damaged model files (cut, key removed also inside tables, value of another kind, empty, missing, not JSON) are refused with an exception; non-trivial: every case") {
    Files fs; std::string path = damaged_file(s, ctx); ctx.nontrivial = true; bool single = s.boolean(), threw = false;
    try { Eval M(path, single); } catch (const std::exception&) { threw = true; }
    check(threw, "a damaged model file was accepted");
}

PBT_PROPERTY(kk_history, "one Kokkos evaluator used for 2-5 systems of different sizes (no atoms, no edges, growing, shrinking, same number of atoms with other edges, the previous system with one detail changed), each call under its own schedule: every result equals the model definition; non-trivial: sizes both shrink and grow") {
    Files fs;
    Model m = gen_model(s); labels(ctx, m);
    bool single = s.chance(25); ctx.label(single ? "single precision" : "double precision");
    ctx.describe(m.summary());
    Eval M(mem_file(to_json(m)), single);
    Model m2; std::unique_ptr<Eval> M2; if (s.chance(40)) { m2 = s.boolean() ? sibling(m, s) : gen_model(s); M2 = std::make_unique<Eval>(mem_file(to_json(m2)), s.boolean()); ctx.label("second evaluator"); }
    int nc = s.sized(2, 5), prev = -1; bool shrink = false, grow = false; Graph g;
    for (int c = 0; c < nc; ++c) {
        if (M2 && s.boolean()) { Graph h = gen_free_graph(s, m2); schedule(s, ctx); ctx.describe(" | second evaluator: nodes=", h.N, " edges=", h.edges()); compare_ref(m2, h, (*M2)(h), s.bulk_seed(), M2->unit(), str("second evaluator before call ", c, ": ")); }
        int kind = s.integer(0, 6); if (kind >= 5 && g.edges() == 0) kind -= 4; if (kind < 5) g = Graph();
        schedule(s, ctx);
        if (kind >= 5) { std::string w = perturb(g, m, s); ctx.label(w); ctx.describe(" (", w, ")"); }
        else if (kind == 0) g = gen_free_graph(s, m);
        else if (kind == 1) { g.N = s.integer(0, 3); for (int i = 0; i < g.N; ++i) { g.type.push_back(s.integer(0, m.E - 1)); g.num.push_back(0); } ctx.label("no edges"); }
        else g = build_graph(gen_system(s, m, {.max_atoms = kind == 4 ? 7 : 5}), m.r_cut, 120);
        ctx.describe(" | call ", c, ": nodes=", g.N, " edges=", g.edges(), " types=", vec(g.type), " num=", vec(g.num));
        if (prev >= 0) { shrink |= g.edges() < prev; grow |= g.edges() > prev; }
        prev = g.edges();
        compare_ref(m, g, M(g), s.bulk_seed(), M.unit(), str("call ", c, ": "));
    }
    ctx.nontrivial = shrink && grow;
}

namespace {
template <class P> void stages(Src& s, Ctx& ctx, MACEKokkos<P>& M, const Graph& g, Out& o) {
    auto nt = view(g.type), nn = view(g.num), ix = view(g.idx), jt = view(g.ntype); auto xyz = view(g.xyz), r = view(g.r);
    bool zh2 = s.chance(40), zf = s.chance(40), zh = s.chance(40), early = s.boolean();
    ctx.describe(" zero flags ", zh2, zf, zh, early); if (zh2 || zf || zh) ctx.label("starts from zero");
    Kokkos::realloc(M.node_energies, g.N); Kokkos::realloc(M.node_forces, g.xyz.size());   // as the LAMMPS pair style does
    Kokkos::deep_copy(M.node_energies, 0.0); Kokkos::deep_copy(M.node_forces, 0.0);
    if (M.has_zbl) M.zbl.compute_ZBL(g.N, nt, nn, jt, M.atomic_numbers, r, xyz, M.node_energies, M.node_forces);
    M.compute_Y(xyz); M.compute_R0(g.N, nt, nn, jt, r); if (early) M.compute_R1(g.N, nt, nn, jt, r);
    M.compute_A0(g.N, nt, nn, jt); M.compute_A0_scaled(g.N, nt, nn, jt, r); M.compute_M0(g.N, nt); M.compute_H1(g.N);
    if (!early) M.compute_R1(g.N, nt, nn, jt, r);
    M.compute_Phi1(g.N, nn, ix); M.compute_A1(g.N); M.compute_A1_scaled(g.N, nt, nn, jt, r); M.compute_M1(g.N, nt); M.compute_H2(g.N, nt);
    M.compute_readouts(g.N, nt);
    // stages that either add to their outputs or start them from zero: in the second case the caller adds what was there before
    vector<double> kh, kf; const int K = (int)M.H1_adj.extent(2), LM = (int)M.H1_adj.extent(1);
    auto takeH = [&] { kh.clear(); for (int i = 0; i < g.N; ++i) for (int a = 0; a < LM; ++a) for (int k = 0; k < K; ++k) { kh.push_back(M.H1_adj(i, a, k)); M.H1_adj(i, a, k) = 1e3; } };
    auto giveH = [&] { size_t q = 0; for (int i = 0; i < g.N; ++i) for (int a = 0; a < LM; ++a) for (int k = 0; k < K; ++k) M.H1_adj(i, a, k) += kh[q++]; };
    if (zh2) takeH();
    M.reverse_H2(g.N, nt, zh2);
    if (zh2) giveH();
    M.reverse_M1(g.N, nt); M.reverse_A1_scaled(g.N, nt, nn, jt, xyz, r); M.reverse_A1(g.N);
    if (zh) takeH();
    if (zf) for (size_t i = 0; i < g.xyz.size(); ++i) { kf.push_back(M.node_forces(i)); M.node_forces(i) = 1e3; }
    M.reverse_Phi1(g.N, nn, ix, xyz, r, zf, zh);
    if (zh) giveH();
    if (zf) for (size_t i = 0; i < g.xyz.size(); ++i) M.node_forces(i) += kf[i];
    M.reverse_H1(g.N); M.reverse_M0(g.N, nt); M.reverse_A0_scaled(g.N, nt, nn, jt, xyz, r); M.reverse_A0(g.N, nt, nn, jt, xyz, r);
    o.e = host(M.node_energies); o.f = host(M.node_forces);
    if ((int)o.e.size() < g.N || o.f.size() < g.xyz.size()) fail("the stages left fewer energies or forces than nodes or edges");
    o.e.resize(g.N); o.f.resize(g.xyz.size());
}
}  // namespace

PBT_PROPERTY(kk_stepwise, "the individual stages of one Kokkos evaluator called in order for 1-3 systems (as a simulation code does, in double and single precision, buffers holding leftovers), some asked to start their outputs from zero instead of adding: energies equal the model definition and pair forces minus its derivative; non-trivial: two systems with edges") {
    Files fs;
    Model m = gen_model(s, {.zbl_percent = 20}); labels(ctx, m);
    bool single = s.chance(25); ctx.label(single ? "single precision" : "double precision");
    ctx.describe(m.summary());
    Eval M(mem_file(to_json(m)), single);
    int nc = s.sized(1, 3), withe = 0;
    for (int c = 0; c < nc; ++c) {
        schedule(s, ctx);
        Graph g = s.boolean() ? gen_free_graph(s, m) : build_graph(gen_system(s, m, {.max_atoms = 5}), m.r_cut, 120);
        ctx.describe(" | nodes=", g.N, " edges=", g.edges()); withe += g.edges() > 0;
        Out o; if (M.d) stages(s, ctx, *M.d, g, o); else stages(s, ctx, *M.f, g, o);
        compare_ref(m, g, o, s.bulk_seed(), M.unit(), str("stages, system ", c, ": "));
    }
    ctx.nontrivial = withe >= 2;
}

PBT_PROPERTY(kk_cutoff, "generated models with one neighbour at a distance from the last spline node up to the last representable number below the cutoff: results are finite and agree with the model definition there; non-trivial: the atom at the cutoff has other neighbours too") {
    Files fs; schedule(s, ctx);
    Model m = gen_model(s); labels(ctx, m);
    System A = gen_system(s, m, {.max_atoms = 3, .allow_pbc = false}); Graph g = build_graph(A, m.r_cut);
    int i = s.integer(0, (int)A.pos.size() - 1), t = s.integer(0, m.E - 1), ek = s.integer(0, 2); double r;
    if (ek == 0) { r = m.r_cut; int k = s.integer(1, 4); for (int q = 0; q < k; ++q) r = std::nextafter(r, 0.0); }
    else if (ek == 1) { r = m.h * (m.n - 1); int k = s.integer(0, 4); for (int q = 0; q < k; ++q) r = std::nextafter(r, s.boolean() ? 10.0 : 0.0); }
    else r = m.r_cut - std::pow(10.0, -s.real(3, 13));
    if (r >= m.r_cut) throw Discard{};
    double cz = s.real(-1, 1), ph = s.real(0, 6.28), sz = std::sqrt(1 - cz * cz), v[3] = {r * sz * std::cos(ph), r * sz * std::sin(ph), r * cz};
    Graph q; q.N = g.N + 1; q.type = g.type; q.type.push_back(t); int e = 0;
    auto add = [&](int a, int b, const double* x, double rr) { q.src.push_back(a); q.idx.push_back(b); q.ntype.push_back(q.type[b]); for (int d = 0; d < 3; ++d) q.xyz.push_back(x[d]); q.r.push_back(rr); q.shift.push_back({0, 0, 0}); };
    for (int a = 0; a < g.N; ++a) { q.num.push_back(g.num[a] + (a == i)); if (a == i) add(a, g.N, v, r); for (int j = 0; j < g.num[a]; ++j, ++e) add(a, g.idx[e], &g.xyz[3 * e], g.r[e]); }
    double w[3] = {-v[0], -v[1], -v[2]}; q.num.push_back(1); add(g.N, i, w, r);
    bool single = s.chance(30);
    ctx.describe(m.summary(), " ", A.text(), " atom ", i, " gets a neighbour of type ", t, " at r=", r, " (r_cut-r=", m.r_cut - r, ")");
    ctx.nontrivial = g.num[i] > 0;
    Eval M(mem_file(to_json(m)), single);
    compare_ref(m, q, M(q), s.bulk_seed(), 8 * M.unit(), "");
}

PBT_PROPERTY(kk_threads, "generated models and systems evaluated with leagues and teams run by real concurrent threads (thread-sanitizer build: any unsynchronised conflicting access aborts the run): results equal the model definition; non-trivial: at least two nodes and three edges") {
    Files fs;
    ks::config().max_team = s.integer(1, 3); ks::config().workers = s.integer(2, 4);
    Model m = gen_model(s, {.max_K = 3, .max_E = 3, .max_l = 2, .max_terms = 12, .big = false}); labels(ctx, m);
    Graph g = any_graph(s, ctx, m, 4);
    bool single = s.chance(30);
    describe(ctx, m, g); ctx.nontrivial = g.edges() >= 3 && g.N >= 2;
    std::string path = mem_file(to_json(m)); uint64_t seed = s.bulk_seed();
    ks::reseed(ks::Threads, seed);
    Eval M(path, single); Out o = M(g);
    ks::reseed(ks::Ordered, 1);
    compare_ref(m, g, o, seed, M.unit(), "");
}

PBT_PROPERTY(kk_spline, "random node tables through CubicSplineKokkos (both constructors), points at/near nodes, near both ends, inside, and out of range (rejected with an exception); non-trivial: a point outside the first interval") {
    schedule(s, ctx);
    auto D = gen_splines(s, ctx, 1);
    bool views = s.boolean();
    CubicSplineKokkos spl = views ? CubicSplineKokkos(D.h, view(D.f[0]), view(D.d[0])) : CubicSplineKokkos(D.h, D.f[0], D.d[0]);
    ctx.label(views ? "from views" : "from vectors");
    int np = s.sized(1, 6); double end = D.h * (D.n - 1);
    auto throws = [](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; };
    for (int i = 0; i < np; ++i) {
        if (s.chance(20)) {
            double r = s.boolean() ? end * (1 + std::pow(10.0, -s.integer(0, 11))) : s.boolean() ? end + D.h * s.real(0.01, 50) : -D.h * s.real(1.001, 20);
            ctx.label("out of range"); ctx.describe("out of range r=", r, " ");
            check(throws([&] { volatile double x = spl.evaluate(r); (void)x; }), str("evaluate accepted out-of-range r=", r));
            check(throws([&] { auto x = spl.evaluate_deriv(r); volatile double y = std::get<0>(x); (void)y; }), str("evaluate_deriv accepted out-of-range r=", r));
            check(throws([&] { auto x = spl.evaluate_deriv_divided(r); volatile double y = std::get<0>(x); (void)y; }), str("evaluate_deriv_divided accepted out-of-range r=", r));
            continue;
        }
        const char* kind; double r = gen_r(s, D, &kind); ctx.label(kind); ctx.describe("r=", r, " ");
        if (r > D.h) ctx.nontrivial = true;
        check_spline_point(D, 0, r, spl.evaluate(r), nullptr, "evaluate");
        auto [v, d] = spl.evaluate_deriv(r); check_spline_point(D, 0, r, v, &d, "evaluate_deriv");
        if (r > 0) { auto [v2, d2] = spl.evaluate_deriv_divided(r); double dd = d2 * r; check_spline_point(D, 0, r, v2, &dd, "evaluate_deriv_divided (times r)"); }
    }
}

PBT_PROPERTY(kk_spline_set, "sets of 1-60 (sometimes to 300) splines through CubicSplineSetKokkos (both constructors), all five evaluation forms with dirty output buffers and batches of 1-9 (sometimes to 80) points; non-trivial: two or more splines and a point outside the first interval") {
    schedule(s, ctx);
    int nspl = s.chance(15) ? (s.chance(15) ? s.integer(61, 300) : s.integer(25, 60)) : s.sized(1, 24);
    auto D = gen_splines(s, ctx, nspl);
    bool views = s.boolean(); ctx.label(views ? "from views" : "from vectors");
    Kokkos::View<double**> fv("f", nspl, D.n), dv("d", nspl, D.n);
    for (int k = 0; k < nspl; ++k) for (int i = 0; i < D.n; ++i) { fv(k, i) = D.f[k][i]; dv(k, i) = D.d[k][i]; }
    CubicSplineSetKokkos set = views ? CubicSplineSetKokkos(D.h, fv, dv) : CubicSplineSetKokkos(D.h, D.f, D.d);
    check(set.num_splines == nspl && set.num_nodes == D.n, "num_splines/num_nodes");
    int np = s.sized(1, 5);
    for (int i = 0; i < np; ++i) {
        const char* kind; double r = gen_r(s, D, &kind); ctx.label(kind);
        if (nspl >= 2 && r > D.h) ctx.nontrivial = true;
        int op = s.integer(0, 4); ctx.describe("op", op, " r=", r, " ");
        vector<double> v(nspl, 777.0), d(nspl, 777.0);
        Kokkos::View<double*> vv = view(v), vd = view(d);
        if (op == 0) { set.evaluate(r, vv); v = host(vv); }
        else if (op == 1) { set.evaluate_derivs(r, vv, vd); v = host(vv); d = host(vd); }
        else if (op == 2) set.evaluate(r, std::span<double>(v));
        else if (op == 3) set.evaluate_derivs(r, std::span<double>(v), std::span<double>(d));
        else {
            int n = s.chance(8) ? s.integer(10, 80) : s.sized(1, 9); vector<double> rs{r}; for (int q = 1; q < n; ++q) rs.push_back(gen_r(s, D, &kind));
            Kokkos::View<double**, Kokkos::LayoutRight> V("v", n, nspl), W("w", n, nspl);
            Kokkos::deep_copy(V, 777.0); Kokkos::deep_copy(W, 777.0);
            set.evaluate_derivs(view(rs), V, W); Kokkos::fence();
            for (int q = 0; q < n; ++q) for (int k = 0; k < nspl; ++k) { double dd = W(q, k); check_spline_point(D, k, rs[q], V(q, k), &dd, "batched evaluate_derivs"); }
            continue;
        }
        for (int k = 0; k < nspl; ++k) check_spline_point(D, k, r, v[k], op % 2 ? &d[k] : nullptr, "spline set");
    }
}

PBT_PROPERTY(kk_radial, "RadialFunctionSetKokkos in both precisions with 1-5 elements (one table per unordered pair), 1-90 functions, 0-6 nodes with random neighbour lists of 0-70 entries, output buffers larger than needed and dirty: row ij, column k holds function k of the pair's table at r and its derivative; non-trivial: at least two elements and a row of a pair given in descending element order") {
    schedule(s, ctx);
    bool many = s.chance(8); int E = s.integer(1, many ? 2 : 5), np = E * (E + 1) / 2, nf = many ? s.integer(13, 90) : s.sized(1, 12);
    auto D = gen_splines(s, ctx, np * nf);
    vector<vector<vector<double>>> f(np), d(np);
    for (int p = 0; p < np; ++p) for (int k = 0; k < nf; ++k) { f[p].push_back(D.f[p * nf + k]); d[p].push_back(D.d[p * nf + k]); }
    int N = s.sized(0, 6); vector<int> nt, num, jt, src; vector<double> r;
    for (int i = 0; i < N; ++i) { nt.push_back(s.integer(0, E - 1)); num.push_back(s.chance(5) ? s.integer(6, 70) : s.sized(0, 5)); for (int j = 0; j < num[i]; ++j) { jt.push_back(s.integer(0, E - 1)); src.push_back(i); const char* k; r.push_back(gen_r(s, D, &k)); if (nt[i] > jt.back()) ctx.nontrivial = true; } }
    int extra = s.sized(0, 3);
    ctx.describe("E=", E, " nf=", nf, " types=", vec(nt), " num=", vec(num), " jt=", vec(jt), " r=", vec(r));
    auto pair = [&](int a, int b) { if (a > b) std::swap(a, b); int c = 0; for (int i = 0; i < a; ++i) c += E - i; return c + b - a; };
    auto go = [&](auto tag, double unit) {
        using P = decltype(tag);
        RadialFunctionSetKokkos<P> R(D.h, f, d);
        Kokkos::View<P**, Kokkos::LayoutRight> V("v", r.size() + extra, nf), W("w", r.size() + extra, nf);
        Kokkos::deep_copy(V, (P)777); Kokkos::deep_copy(W, (P)777);
        R.evaluate(N, view(nt), view(num), view(jt), view(r), V, W);
        for (size_t e = 0; e < r.size(); ++e) for (int k = 0; k < nf; ++k) {
            int q = pair(nt[src[e]], jt[e]) * nf + k;
            ref::R rv, rd; ref::hermite(D.h, D.f[q], D.d[q], r[e], rv, rd);
            double sc = (double)ref::hermite_scale(D.h, D.f[q], D.d[q], r[e]), tol = sc * (unit * 100 + EPS * (100 + 20.0 * D.n));
            check_close((double)V((int)e, k), (double)rv, tol, 0, str("edge ", e, " function ", k));
            check_close((double)W((int)e, k), (double)rd, 8 * tol / D.h, 0, str("edge ", e, " derivative of function ", k));
        }
        for (size_t e = r.size(); e < r.size() + extra; ++e) for (int k = 0; k < nf; ++k) check(V((int)e, k) == (P)777 && W((int)e, k) == (P)777, "row beyond the edges was written");
    };
    if (s.chance(40)) { ctx.label("single"); go(float{}, 1.2e-7); } else { ctx.label("double"); go(double{}, EPS); }
}

PBT_PROPERTY(kk_mlp, "networks with 0-4 hidden layers (widths 1-18, sometimes to 140; single output) through MultilayerPerceptronKokkos, a history of 1-6 value or value+gradient calls with batch sizes 0-20 (sometimes to 200); non-trivial: at least one hidden layer and two calls") {
    ref::MLP M; bool wide = s.chance(8); int nl = wide ? s.integer(2, 4) : s.sized(2, 6);
    for (int i = 0; i < nl; ++i) M.shape.push_back(i == nl - 1 ? 1 : wide ? s.integer(19, 140) : s.sized(1, 18));
    M.scale = s.chance(20) ? 1.0 : s.real(0.2, 2.0);
    double wm = s.pick(vector<double>{1.0, 0.3, 3.0, 0.01});
    Bulk b(s.bulk_seed());
    for (int l = 0; l + 1 < nl; ++l) { vector<double> w(M.shape[l] * M.shape[l + 1]); for (auto& x : w) x = b.uni() < 0.1 ? 0 : b.sym(wm * 2 / std::sqrt(M.shape[l])); M.w.push_back(w); }
    ctx.describe("shape=", vec(M.shape), " scale=", M.scale, " calls:");
    MultilayerPerceptronKokkos net(M.shape, M.w, M.scale);
    int calls = s.sized(1, 6), nin = M.shape[0]; ctx.nontrivial = nl > 2 && calls > 1;
    for (int c = 0; c < calls; ++c) {
        schedule(s, ctx);
        bool grad = s.boolean(); int bs = !wide && s.chance(10) ? s.integer(21, 200) : s.sized(0, wide ? 8 : 20);
        double xm = s.pick(vector<double>{1.0, 0.01, 10.0, 40.0, 200.0, 3000.0});
        Bulk xb(s.bulk_seed()); vector<double> x(nin * bs); for (auto& v : x) v = xb.uni() < 0.1 ? 0.0 : xb.sym(xm);
        ctx.describe(grad ? " gradient(" : " value(", bs, ",", xm, ")"); ctx.label(grad ? "gradient" : "value");
        Kokkos::View<double**, Kokkos::LayoutRight> X("x", bs, nin), G("g", bs, nin); Kokkos::View<double*, Kokkos::LayoutRight> F("f", bs);
        for (int i = 0; i < bs; ++i) for (int j = 0; j < nin; ++j) { X(i, j) = x[i * nin + j]; G(i, j) = 777; }
        for (int i = 0; i < bs; ++i) F(i) = 777;
        if (grad) net.evaluate_gradient(X, F, G); else net.evaluate(X, F);
        for (int r = 0; r < bs; ++r) {
            vector<ref::R> rf, rj; M.maxpre = M.mag = 0; M.eval(x.data() + r * nin, rf, rj);
            if (M.maxpre > 700) ctx.label("saturated beyond the range of exp");
            ref::R gain = 1; for (int l = 0; l + 1 < nl; ++l) { ref::R m = 0; for (int i = 0; i < M.shape[l + 1]; ++i) { ref::R t = 0; for (int j = 0; j < M.shape[l]; ++j) t += std::fabs((ref::R)M.w[l][i * M.shape[l] + j]); m = std::max(m, t); } gain *= std::max((ref::R)1, m * (l + 2 < nl ? (ref::R)1.1 * std::max(M.scale, 1.0) : (ref::R)1)); }
            check_close(F(r), (double)rf[0], (double)(1e-12L * (M.mag + 1e-3L) + 1e-14L * gain * (1 + M.maxpre)), 1e-11, str("row ", r, " output"));
            if (grad) for (int o = 0; o < nin; ++o) check_close(G(r, o), (double)rj[o], (double)(1e-13L * gain * (1 + M.maxpre)), 1e-11, str("row ", r, " derivative with respect to input ", o));
        }
    }
}

static void poly_case(Src& s, Ctx& ctx, bool threads) {
    int nv = s.chance(12) ? s.integer(17, 49) : s.sized(1, 16), nm = s.chance(8) ? s.integer(41, 160) : s.sized(1, 40), maxdeg = s.integer(1, s.chance(10) ? 9 : 6);
    vector<vector<int>> mono; vector<double> c;
    for (int i = 0; i < nm; ++i) {
        vector<int> m; if (!mono.empty() && s.chance(35)) m = mono[s.raw(mono.size() - 1)];
        int extra = m.empty() ? s.integer(1, maxdeg) : s.integer(0, 2);
        for (int k = 0; k < extra && (int)m.size() < maxdeg; ++k) m.push_back(s.integer(0, nv - 1));
        if (std::find(mono.begin(), mono.end(), m) != mono.end()) continue;
        mono.push_back(m); c.push_back(s.sym(3));
    }
    ctx.describe("nvar=", nv, " mono=["); for (auto& m : mono) ctx.describe(vec(m)); ctx.describe("] calls:");
    if (threads) ks::reseed(ks::Ordered, 1);
    MultivariatePolynomialKokkos P(nv, c, mono);
    int calls = s.sized(1, 6);
    for (int k = 0; k < calls; ++k) {
        if (threads) { ks::config().workers = s.integer(2, 4); ks::reseed(ks::Threads, s.raw(0xffff)); } else schedule(s, ctx);
        int op = s.integer(0, 3); vector<double> x(nv); for (auto& v : x) v = s.chance(15) ? 0.0 : s.sym(2);
        static const char* names[4] = {"evaluate", "evaluate_gradient", "evaluate_simple", "evaluate_gradient_simple"};
        ctx.describe(" ", names[op]); ctx.label(names[op]); if (mono.size() > 1 && op % 2) ctx.nontrivial = true;
        Kokkos::View<const double*> X = view(x); Kokkos::View<double*> G = view(vector<double>(nv, 777.0)); double f;
        if (op == 0) f = P.evaluate(X); else if (op == 1) f = P.evaluate_gradient(X, G); else if (op == 2) f = P.evaluate_simple(X); else f = P.evaluate_gradient_simple(X, G);
        ref::R rf, fm; vector<ref::R> rg, gm; ref::poly(nv, c, mono, x.data(), rf, rg, fm, gm);
        check_close(f, (double)rf, 1e-13 * (double)fm + 1e-300, 0, str(names[op], " value"));
        if (op % 2) for (int v = 0; v < nv; ++v) check_close(G(v), (double)rg[v], 1e-13 * (double)gm[v] + 1e-300, 0, str(names[op], " d/dx", v));
    }
    if (threads) ks::reseed(ks::Ordered, 1);
}
PBT_PROPERTY(kk_poly, "polynomials (1-49 variables, 1-160 monomials of degree 1-9) through MultivariatePolynomialKokkos, a history of 1-6 calls of the four evaluation forms under shuffled schedules, compared with a long-double sum; non-trivial: a gradient call with two or more monomials") { poly_case(s, ctx, false); }
PBT_PROPERTY(kk_poly_threads, "the same with real threads under the thread sanitizer; non-trivial: a gradient call with two or more monomials") { poly_case(s, ctx, true); }

PBT_PROPERTY(kk_zbl, "ZBLKokkos: random parameter sets, pair value/gradient/envelope against the formula, and accumulation over random neighbour lists into non-zero energies and forces under shuffled schedules; non-trivial: a pair inside its cutoff") {
    schedule(s, ctx);
    auto z = gen_zbl(s, ctx); ZBLKokkos zbl(z.a_exp, z.a_pre, z.c, z.cov, z.p);
    int ne = s.integer(1, 4); vector<int> an; for (int i = 0; i < ne; ++i) an.push_back(s.integer(1, (int)z.cov.size() - 1));
    int nn = s.sized(0, 5); vector<int> nt, num, neight; vector<double> r, xyz;
    for (int i = 0; i < nn; ++i) {
        nt.push_back(s.integer(0, ne - 1)); num.push_back(s.sized(0, 6));
        for (int j = 0; j < num[i]; ++j) {
            int t = s.integer(0, ne - 1); neight.push_back(t); const char* k; double rr = gen_zbl_r(s, (double)z.rmax(an[nt[i]], an[t]), &k);
            double cz = s.real(-1, 1), ph = s.real(0, 6.283), sz = std::sqrt(1 - cz * cz), v[3] = {rr * sz * std::cos(ph), rr * sz * std::sin(ph), rr * cz};
            xyz.insert(xyz.end(), v, v + 3); r.push_back(std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]));
        }
    }
    ctx.describe("an=", vec(an), " types=", vec(nt), " num=", vec(num), " r=", vec(r));
    vector<double> e0(nn), f0(xyz.size()); for (auto& v : e0) v = s.sym(2); Bulk b(s.bulk_seed()); for (auto& v : f0) v = b.sym(2);
    auto E = view(e0), F = view(f0);
    zbl.compute_ZBL(nn, view(nt), view(num), view(neight), view(an), view(r), view(xyz), E, F);
    int ij = 0;
    for (int i = 0; i < nn; ++i) {
        ref::R ei = e0[i], em = std::fabs(e0[i]);
        for (int j = 0; j < num[i]; ++j, ++ij) {
            int zu = an[nt[i]], zv = an[neight[ij]];
            ref::R v, dv, bare, dbare; z.eval(zu, zv, r[ij], v, dv, bare, dbare);
            ei += v; em += std::fabs(bare); if (v != 0) ctx.nontrivial = true;
            double rm = (double)z.rmax(zu, zv), pp = 2 * (z.p + 2.0) * (z.p + 2.0), tg = 1e-13 * ((double)std::fabs(dbare) * pp + (double)bare * pp * (z.p + 2) / rm);
            check_close(zbl.compute(zu, zv, r[ij]), (double)v, 1e-13 * (double)bare * pp, 1e-12, "pair energy");
            check_close(zbl.compute_gradient(zu, zv, r[ij]), (double)dv, tg, 1e-12, "pair gradient");
            if (r[ij] >= rm * (1 + 1e-14)) check(zbl.compute(zu, zv, r[ij]) == 0 && zbl.compute_gradient(zu, zv, r[ij]) == 0, "non-zero pair term beyond the sum of covalent radii");
            for (int k = 0; k < 3; ++k) check_close(F(3 * ij + k), (double)((ref::R)f0[3 * ij + k] - (ref::R)xyz[3 * ij + k] / r[ij] * dv), 1e-14 + 1e-11 * (double)(std::fabs(dbare) + std::fabs(bare) * (z.p + 2) / rm), 1e-12, str("force of pair ", ij));
        }
        check_close(E(i), (double)ei, 1e-11 * (double)em, 0, str("energy of atom ", i));
    }
}
