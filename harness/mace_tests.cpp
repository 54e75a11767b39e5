// Properties of the reference (CPU) MACE evaluator.
#include <cmath>
#include <fstream>
#include <memory>
#include <unistd.h>
#include "mace.hpp"
#include "mace_model.hpp"
using namespace pbt;
using namespace mm;
using std::vector;

namespace {
struct Files { ~Files() { drop_mem_files(); } };
struct Out { DV e, f; };
Out run(MACE& M, const Graph& g) {
    M.compute_node_energies_forces(g.N, g.type, g.num, g.idx, g.ntype, g.xyz, g.r);
    Out o; o.e.assign(M.node_energies.begin(), M.node_energies.end()); o.f.assign(M.node_forces.begin(), M.node_forces.end());
    if ((int)o.e.size() < g.N) fail(str("evaluator reports ", o.e.size(), " node energies for ", g.N, " nodes"));
    if (o.f.size() < g.xyz.size()) fail(str("evaluator reports ", o.f.size(), " force components for ", g.xyz.size()));
    o.e.resize(g.N); o.f.resize(g.xyz.size());
    return o;
}
DV rand_dir(Bulk& b, size_t n) { DV d(n); for (auto& x : d) x = b.sym(); return d; }
double dot(const DV& a, const DV& b) { double t = 0; for (size_t i = 0; i < a.size(); ++i) t += a[i] * b[i]; return t; }
void describe(Ctx& ctx, const Model& m, const Graph& g) { ctx.describe(m.summary(), " nodes=", g.N, " types=", vec(g.type), " num_neigh=", vec(g.num), " idx=", vec(g.idx), " r=", vec(g.r, 12)); }
void labels(Ctx& ctx, const Model& m) {
    ctx.label(str("l_max=", m.l_max)); ctx.label(str("L_max=", m.L_max)); if (m.zbl) ctx.label("zbl"); if (m.A0s) ctx.label("A0 scaled"); if (m.A1s) ctx.label("A1 scaled");
    ctx.label(m.equivariant ? "equivariant" : "free polynomials"); if (m.E > 1) ctx.label("several elements");
}
const double CE = 2e-14, CF = 2e-14;   // allowed error per unit of the running rounding-error bound (about 180 roundoffs)

void compare_ref(const Model& m, const Graph& g, const Out& o, uint64_t seed, const std::string& what) {
    Bulk b(seed);
    size_t n = g.xyz.size();
    vector<DV> dirs{rand_dir(b, n), DV(n, 0), rand_dir(b, n)};
    if (g.edges()) { int e = b.integer(0, g.edges() - 1); for (int d = 0; d < 3; ++d) dirs[1][3 * e + d] = b.sym(); }
    if (g.edges()) { int i = g.src[b.integer(0, g.edges() - 1)]; for (int e = 0; e < g.edges(); ++e) if (g.src[e] != i) for (int d = 0; d < 3; ++d) dirs[2][3 * e + d] = 0; }
    auto r = reference(m, g, dirs);
    for (int i = 0; i < g.N; ++i) check_close(o.e[i], r.e[i], 1e-13 + CE * r.em[i], 0, what + str("energy of node ", i));
    for (size_t q = 0; q < n; ++q) check(pbt::finite(o.f[q]), what + str("force component ", q, " is not finite: ", o.f[q]));
    for (int k = 0; k < 3; ++k) check_close(-dot(o.f, dirs[k]), r.sum_d(k), 1e-13 + CF * r.sum_dm(k), 0, what + str("derivative of the total energy along direction ", k));
}
}  // namespace

PBT_PROPERTY(mace_reference, "generated models (1-4 elements, 1-4 channels, l_max 0-3, L_max 0-2, splines, couplings, polynomials, optional ZBL and density scaling) on clusters, periodic cells and arbitrary directed neighbour graphs: node energies equal a direct evaluation of the model definition and pair forces equal minus its exact derivative along a dense, a single-edge and a single-node random direction; non-trivial: at least three edges, two nodes and a non-linear polynomial") {
    Files fs;
    Model m = gen_model(s); labels(ctx, m);
    int kind = s.integer(0, 2); Graph g;
    if (kind == 2) { g = gen_free_graph(s, m); ctx.label("free graph"); }
    else { System y = gen_system(s, m, {.allow_pbc = kind == 1}); g = build_graph(y, m.r_cut); ctx.label(y.pbc[0] || y.pbc[1] || y.pbc[2] ? "periodic" : "cluster"); }
    describe(ctx, m, g);
    ctx.nontrivial = g.edges() >= 3 && g.N >= 2;
    uint64_t seed = s.bulk_seed();
    MACE M(mem_file(to_json(m)));
    check(M.r_cut == m.r_cut && M.atomic_numbers == m.Z && M.num_elements == m.E && M.num_channels == m.K && M.l_max == m.l_max && M.L_max == m.L_max, "basic model information differs from the file");
    compare_ref(m, g, run(M, g), seed, "");
}

PBT_PROPERTY(mace_gradient, "generated models and systems (clusters and periodic cells): the work done by the reported forces along a random small displacement of all atoms, integrated by Gauss quadrature, equals minus the change of the reported energy; likewise the virial for a random homogeneous strain; non-trivial: at least two atoms with edges and a displacement energy well above rounding") {
    Files fs;
    Model m = gen_model(s); labels(ctx, m);
    System y = gen_system(s, m, {.min_atoms = 2}); Graph g = build_graph(y, m.r_cut);
    bool strain = s.boolean(); ctx.label(strain ? "strain" : "displacement");
    ctx.describe(m.summary(), " ", y.text());
    Bulk b(s.bulk_seed());
    vector<V3> u(y.pos.size()); for (auto& p : u) for (auto& x : p) x = b.sym();
    double eps[3][3]; for (auto& r : eps) for (auto& x : r) x = b.sym();
    // edge direction for the deformation; the set of edges is kept (the model is smooth at the cutoff and deformations are tiny)
    DV dir(g.xyz.size());
    for (int e = 0; e < g.edges(); ++e) for (int d = 0; d < 3; ++d)
        dir[3 * e + d] = strain ? eps[d][0] * g.xyz[3 * e] + eps[d][1] * g.xyz[3 * e + 1] + eps[d][2] * g.xyz[3 * e + 2] : u[g.idx[e]][d] - u[g.src[e]][d];
    MACE M(mem_file(to_json(m)));
    // largest step for which no distance crosses a spline node or the end of the ZBL range
    double t = 1e-3, ls = m.h / 12, dmax = 0; bool smooth = true;   // ls: smallest scale length of the functions involved
    for (double r : g.r) ls = std::min(ls, r / 8);
    if (m.zbl) for (int Z : m.Z) ls = std::min(ls, m.zbl_a_pre * 0.529 / (2 * std::pow((double)Z, m.zbl_a_exp)) / 3.2 / 2);
    for (size_t q = 0; q < dir.size(); ++q) dmax = std::max(dmax, std::fabs(dir[q]));
    for (;; t /= 4) {
        smooth = 1.8 * t * dmax < 0.1 * ls;
        for (int e = 0; e < g.edges() && smooth; ++e) {
            double n2 = 0; for (int d = 0; d < 3; ++d) n2 += dir[3 * e + d] * dir[3 * e + d];
            double dr = 1.01 * t * std::sqrt(n2) + 1e-13, lo = g.r[e] - dr, hi = g.r[e] + dr;
            auto same = [&](double hh) { return std::floor(lo / hh) == std::floor(hi / hh); };
            smooth = same(m.h) && (!m.A0s || same(m.hA0)) && (!m.A1s || same(m.hA1));
            if (smooth && m.zbl) { double c = m.zbl_cov[m.Z[g.type[g.src[e]]]] + m.zbl_cov[m.Z[g.ntype[e]]]; smooth = !(lo <= c && hi >= c); }
        }
        if (smooth || t < 3e-6) break;
    }
    ctx.label(smooth ? "within smooth pieces" : "across a spline node");
    auto at = [&](double x) {
        Graph q = g; for (size_t i = 0; i < q.xyz.size(); ++i) q.xyz[i] += x * dir[i];
        for (int e = 0; e < q.edges(); ++e) { q.r[e] = std::sqrt(q.xyz[3 * e] * q.xyz[3 * e] + q.xyz[3 * e + 1] * q.xyz[3 * e + 1] + q.xyz[3 * e + 2] * q.xyz[3 * e + 2]); if (q.r[e] >= m.r_cut - 1e-9) throw Discard{}; }
        return run(M, q);
    };
    Out lo = at(-t), hi = at(t);
    double dE = 0, mag = 0; for (int i = 0; i < g.N; ++i) { dE += hi.e[i] - lo.e[i]; mag += std::fabs(hi.e[i]); }
    double W = 0; const double gx[3] = {-std::sqrt(0.6), 0, std::sqrt(0.6)}, gw[3] = {5.0 / 9, 8.0 / 9, 5.0 / 9};
    vector<DV> fs3;
    for (int k = 0; k < 3; ++k) { auto o = at(gx[k] * t); W += gw[k] * t * dot(o.f, dir); fs3.push_back(o.f); }
    auto ref = reference(m, g, {dir});
    double fm = ref.sum_dm(0), em = 0; for (double x : ref.em) em += x;
    // spline second derivatives jump at nodes: bounded by the slope scale over the node spacing
    double curv = smooth ? 0 : fm * 40 * m.n / m.r_cut;
    // quadrature error inside a smooth piece: scale length of the functions is no less than a fraction of the spacing
    double lr = 1.8 * t * dmax / ls, quad = fm * t * lr * lr * lr * lr * lr * lr;
    ctx.nontrivial = g.edges() >= 2 && std::fabs(W) > 100 * (1e-13 + 2 * CE * em);
    check_close(dE, -W, 1e-13 + 2 * CE * em + 4 * CF * fm * t + curv * t * t + quad, 0, strain ? "energy change under a strain against the virial" : "energy change under a displacement against the work of the forces");
}

PBT_PROPERTY(mace_symmetry, "equivariant generated models on clusters and periodic cells: a random proper or improper rotation plus translation, a relabelling of atoms and a reordering of each neighbour list leave every atom's energy unchanged and rotate/relabel the pair forces; the virial is symmetric (no net torque); non-trivial: l_max>=1, three or more edges, generic rotation") {
    Files fs;
    Model m = gen_model(s, {.force_equivariant = true}); labels(ctx, m);
    System y = gen_system(s, m, {.min_atoms = 2}); Graph g = build_graph(y, m.r_cut);
    ctx.describe(m.summary(), " ", y.text());
    double q[4]; { Bulk b(s.bulk_seed()); double n = 0; for (auto& x : q) { x = b.sym(); n += x * x; } n = std::sqrt(n); if (n < 0.1) throw Discard{}; for (auto& x : q) x /= n; }
    int special = s.integer(0, 3);
    double Q[3][3] = {{1 - 2 * (q[2] * q[2] + q[3] * q[3]), 2 * (q[1] * q[2] - q[0] * q[3]), 2 * (q[1] * q[3] + q[0] * q[2])},
                      {2 * (q[1] * q[2] + q[0] * q[3]), 1 - 2 * (q[1] * q[1] + q[3] * q[3]), 2 * (q[2] * q[3] - q[0] * q[1])},
                      {2 * (q[1] * q[3] - q[0] * q[2]), 2 * (q[2] * q[3] + q[0] * q[1]), 1 - 2 * (q[1] * q[1] + q[2] * q[2])}};
    if (special == 1) { auto p = s.permutation(3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) Q[i][j] = p[i] == j ? (s.boolean() ? -1 : 1) : 0; ctx.label("axis permutation/reflection"); }
    else if (special == 2) { for (auto& r : Q) for (auto& x : r) x = -x; ctx.label("improper"); }
    else ctx.label("rotation");
    double sh[3]; for (auto& x : sh) x = s.sym(10);
    auto perm = s.permutation((int)y.pos.size());   // new atom i = old atom perm[i]
    System z = y;
    for (size_t i = 0; i < y.pos.size(); ++i) { z.type[i] = y.type[perm[i]]; for (int d = 0; d < 3; ++d) z.pos[i][d] = Q[d][0] * y.pos[perm[i]][0] + Q[d][1] * y.pos[perm[i]][1] + Q[d][2] * y.pos[perm[i]][2] + sh[d]; }
    for (int c = 0; c < 3; ++c) for (int d = 0; d < 3; ++d) z.cell[c][d] = Q[d][0] * y.cell[c][0] + Q[d][1] * y.cell[c][1] + Q[d][2] * y.cell[c][2];
    Graph h0 = build_graph(z, m.r_cut), h = shuffle_edges(h0, s);
    check(h.edges() == g.edges(), "harness: edge counts differ");
    ctx.nontrivial = m.l_max >= 1 && g.edges() >= 3 && special != 1;
    MACE M(mem_file(to_json(m)));
    Out a = run(M, g), c = run(M, h);
    Bulk b(7); auto ref = reference(m, g, {rand_dir(b, g.xyz.size())}); double fm = ref.sum_dm(0);
    double S = 2 * (1 + (std::fabs(sh[0]) + std::fabs(sh[1]) + std::fabs(sh[2]) + 110) / (0.13 * m.r_cut));   // coordinates far from the origin are rounded more coarsely
    for (size_t i = 0; i < perm.size(); ++i) check_close(c.e[i], a.e[perm[i]], 1e-13 + S * CE * ref.em[perm[i]], 0, str("energy of atom ", perm[i], " after the transformation"));
    std::map<std::array<int, 5>, int> at; for (int e = 0; e < g.edges(); ++e) at[{g.src[e], g.idx[e], g.shift[e][0], g.shift[e][1], g.shift[e][2]}] = e;
    double tf = 1e-13 + S * CF * fm;
    for (int e = 0; e < h.edges(); ++e) {
        auto it = at.find({perm[h.src[e]], perm[h.idx[e]], h.shift[e][0], h.shift[e][1], h.shift[e][2]});
        check(it != at.end(), "harness: edge not found");
        const double* f = &a.f[3 * it->second];
        for (int d = 0; d < 3; ++d) check_close(c.f[3 * e + d], Q[d][0] * f[0] + Q[d][1] * f[1] + Q[d][2] * f[2], tf, 0, str("rotated force of the pair ", h.src[e], "->", h.idx[e]));
    }
    double W[3][3] = {}; for (int e = 0; e < g.edges(); ++e) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) W[i][j] += g.xyz[3 * e + i] * a.f[3 * e + j];
    for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) check_close(W[i][j], W[j][i], tf * m.r_cut * (1 + g.edges()), 0, "virial symmetry");
}

PBT_PROPERTY(mace_locality, "generated models: two clusters with no edges between them evaluated together and apart give the same per-atom energies and forces; atoms without neighbours have exactly their tabulated energy; atoms more than two hops away do not change an atom's energy; non-trivial: both parts have edges or an isolated atom sits next to a bonded part") {
    Files fs;
    Model m = gen_model(s); labels(ctx, m);
    System A = gen_system(s, m, {.max_atoms = 5, .allow_pbc = false}), B = gen_system(s, m, {.max_atoms = 4, .allow_pbc = false});
    if (s.boolean()) { B.pos.resize(1); B.type.resize(1); }
    double far = 0; for (auto& p : A.pos) far = std::max(far, p[0]); for (auto& p : B.pos) far = std::max(far, far - p[0]);
    for (auto& p : B.pos) p[0] += far + 3 * m.r_cut;
    System C; auto na = A.pos.size(), nb = B.pos.size();
    // interleave: a permutation of the union
    auto perm = s.permutation((int)(na + nb)); vector<int> where(na + nb);
    for (size_t i = 0; i < perm.size(); ++i) { size_t o = perm[i]; where[o] = (int)i; C.pos.push_back(o < na ? A.pos[o] : B.pos[o - na]); C.type.push_back(o < na ? A.type[o] : B.type[o - na]); }
    Graph ga = build_graph(A, m.r_cut), gb = build_graph(B, m.r_cut), gc = build_graph(C, m.r_cut);
    if (gc.edges() != ga.edges() + gb.edges()) throw Discard{};
    ctx.describe(m.summary(), " A:", A.text(), " B:", B.text());
    ctx.nontrivial = ga.edges() > 0;
    MACE M(mem_file(to_json(m)));
    Out a = run(M, ga), b = run(M, gb), c = run(M, gc);
    Bulk bk(3); auto ref = reference(m, gc, {rand_dir(bk, gc.xyz.size())});
    double tf = 1e-13 + 4 * CF * ref.sum_dm(0);
    for (size_t o = 0; o < na + nb; ++o) check_close(c.e[where[o]], o < na ? a.e[o] : b.e[o - na], 1e-13 + 2 * CE * ref.em[where[o]], 0, str("energy of atom ", o, " in the union"));
    for (size_t i = 0; i < na + nb; ++i) if (gc.num[i] == 0) { check_close(c.e[i], m.E0[gc.type[i]], 1e-14 * (1 + std::fabs(m.E0[gc.type[i]])), 0, str("energy of the isolated atom ", i)); ctx.label("isolated atom"); }
    std::map<std::pair<int, int>, int> at; for (int e = 0; e < gc.edges(); ++e) at[{gc.src[e], gc.idx[e]}] = e;
    auto cmp = [&](const Graph& g, const Out& o, int base) { for (int e = 0; e < g.edges(); ++e) { int q = at.at({where[g.src[e] + base], where[g.idx[e] + base]}); for (int d = 0; d < 3; ++d) check_close(c.f[3 * q + d], o.f[3 * e + d], tf, 0, "pair force in the union"); } };
    cmp(ga, a, 0); cmp(gb, b, (int)na);
    // two hops: remove an atom farther than two hops from atom 0 of A (through the union's graph)
    if (na >= 2) {
        vector<int> hop(na, 99); hop[0] = 0;
        for (int it = 0; it < 3; ++it) for (int e = 0; e < ga.edges(); ++e) if (hop[ga.src[e]] < 99) hop[ga.idx[e]] = std::min(hop[ga.idx[e]], hop[ga.src[e]] + 1);
        int rem = -1; for (size_t i = 0; i < na; ++i) if (hop[i] > 2) rem = (int)i;
        if (rem >= 0) {
            System D = A; D.pos.erase(D.pos.begin() + rem); D.type.erase(D.type.begin() + rem);
            Out d = run(M, build_graph(D, m.r_cut));
            check_close(d.e[0], a.e[0], 1e-13 + 2 * CE * std::fabs(ref.em[where[0]]), 0, "energy of atom 0 after removing an atom three or more hops away"); ctx.label("three hops");
        }
    }
}

PBT_PROPERTY(mace_cutoff, "generated models whose splines end at zero value and slope: moving one neighbour to a distance eps inside the cutoff (eps from 1e-3 down to the last representable distance below the cutoff) gives finite energies and forces which approach those without that neighbour like eps^2 and eps; distances down to the closest approach stay finite; a bisection for the largest unexplained change of energy or force on an interval ending at or near the cutoff finds no jump; non-trivial: the atom at the cutoff has other neighbours too") {
    Files fs;
    Model m = gen_model(s); labels(ctx, m);
    System A = gen_system(s, m, {.max_atoms = 4, .allow_pbc = false}); Graph g = build_graph(A, m.r_cut);
    int i = s.integer(0, (int)A.pos.size() - 1), t = s.integer(0, m.E - 1);
    int ek = s.integer(0, 3); double r;
    double hmin = std::min(m.h * (m.n - 1), std::min(m.hA0 * (m.nA0 - 1), m.hA1 * (m.nA1 - 1)));
    if (ek == 0) r = m.r_cut - std::pow(10.0, -s.real(3, 11));
    else if (ek == 1) { r = m.r_cut; int k = s.integer(1, 4); for (int q = 0; q < k; ++q) r = std::nextafter(r, 0.0); }
    else if (ek == 2) { r = m.h * (m.n - 1); int k = s.integer(0, 4); for (int q = 0; q < k; ++q) r = std::nextafter(r, s.boolean() ? 10.0 : 0.0); }
    else r = m.r_cut - 1e-12 * s.real(0.01, 3);
    if (r >= m.r_cut) throw Discard{};
    double last = std::min(m.h * (m.n - 1), std::min(m.A0s ? m.hA0 * (m.nA0 - 1) : 1e9, m.A1s ? m.hA1 * (m.nA1 - 1) : 1e9));
    (void)hmin;
    ctx.label(r < last ? "inside the last spline node" : "between the last spline node and the cutoff");
    // edge i -> new atom, and back
    double cz = s.real(-1, 1), ph = s.real(0, 6.28), sz = std::sqrt(1 - cz * cz), v[3] = {r * sz * std::cos(ph), r * sz * std::sin(ph), r * cz};
    Graph q; q.N = g.N + 1; q.type = g.type; q.type.push_back(t);
    int e = 0, me = -1;
    auto add = [&](int a, int b, const double* x, double rr) { q.src.push_back(a); q.idx.push_back(b); q.ntype.push_back(q.type[b]); for (int d = 0; d < 3; ++d) q.xyz.push_back(x[d]); q.r.push_back(rr); q.shift.push_back({0, 0, 0}); };
    vector<int> from;
    for (int a = 0; a < g.N; ++a) {
        q.num.push_back(g.num[a] + (a == i));
        if (a == i) { me = q.edges(); add(a, g.N, v, r); from.push_back(-1); }
        for (int j = 0; j < g.num[a]; ++j, ++e) { add(a, g.idx[e], &g.xyz[3 * e], g.r[e]); from.push_back(e); }
    }
    double w[3] = {-v[0], -v[1], -v[2]}; q.num.push_back(1); add(g.N, i, w, r); from.push_back(-1);
    ctx.describe(m.summary(), " ", A.text(), " atom ", i, " gets a neighbour of type ", t, " at r=", r, " (r_cut-r=", m.r_cut - r, ")");
    ctx.nontrivial = g.num[i] > 0;
    MACE M(mem_file(to_json(m)));
    Out a = run(M, g), b = run(M, q);
    Bulk bk(3); auto ref = reference(m, q, {rand_dir(bk, q.xyz.size())});
    double em = 0; for (double x : ref.em) em += x;
    double eps = std::max(0.0, m.r_cut - r), fm = ref.sum_dm(0), x = eps / m.h * 3;
    double te = 1e-13 * em + 50 * em * x * x, tf = 1e-12 * fm + 50 * fm * x + 50 * em / m.h * x;
    for (int k = 0; k < g.N; ++k) check_close(b.e[k], a.e[k], te, 0, str("energy of atom ", k, " with a neighbour just inside the cutoff"));
    check_close(b.e[g.N], m.E0[t], te, 0, "energy of the atom just inside the cutoff");
    for (int k = 0; k < q.edges(); ++k) for (int d = 0; d < 3; ++d) check_close(b.f[3 * k + d], from[k] < 0 ? 0.0 : a.f[3 * from[k] + d], tf, 0, str("force of pair ", k, k == me ? " (the one at the cutoff)" : ""));
    // search for a jump while the neighbour moves in or out
    int search = s.integer(0, 2); if (!search) return;
    double hi = s.chance(50) ? r : m.r_cut * (1 - std::pow(10.0, -s.real(1, 4))), lo = hi - m.r_cut * std::pow(10.0, -s.real(0.6, 5));
    int back = q.edges() - 1;
    struct At { double r, e; DV f; };
    auto at = [&](double x) {
        Graph p = q; p.r[me] = p.r[back] = x;
        for (int d = 0; d < 3; ++d) { p.xyz[3 * me + d] = v[d] / r * x; p.xyz[3 * back + d] = -v[d] / r * x; }
        Out o = run(M, p); double e = 0; for (double y : o.e) e += y;
        return At{x, e, o.f};
    };
    auto radial = [&](const At& y) { double t = 0; for (int d = 0; d < 3; ++d) t += (y.f[3 * me + d] - y.f[3 * back + d]) * v[d] / r; return t; };
    auto odd = [&](const At& x, const At& y) {
        if (search == 1) return std::fabs(y.e - x.e + (y.r - x.r) * (radial(x) + radial(y)) / 2);
        double t = 0; for (size_t k = 0; k < x.f.size(); ++k) t = std::max(t, std::fabs(y.f[k] - x.f[k])); return t;
    };
    At A1 = at(lo), B1 = at(hi); ctx.label(search == 1 ? "search for an energy jump" : "search for a force jump");
    const double stop = 2e-13 * m.r_cut;
    while (B1.r - A1.r > stop) { At C1 = at((A1.r + B1.r) / 2); (odd(A1, C1) > odd(C1, B1) ? B1 : A1) = C1; }
    Graph p = q; p.r[me] = p.r[back] = A1.r; for (int d = 0; d < 3; ++d) { p.xyz[3 * me + d] = v[d] / r * A1.r; p.xyz[3 * back + d] = -p.xyz[3 * me + d]; }
    auto rl = reference(m, p, {rand_dir(bk, q.xyz.size())});
    double el = 0; for (double y : rl.em) el += y;
    if (search == 1) check_close(B1.e, A1.e, 3e-13 * el + 20 * (el / m.h) * stop, 0, str("total energy on either side of a neighbour distance of ", A1.r, ", r_cut - r = ", m.r_cut - A1.r));
    else for (size_t k = 0; k < A1.f.size(); ++k) check_close(B1.f[k], A1.f[k], 1e-11 * rl.sum_dm(0) + 50 * el / (m.h * m.h) * stop, 0, str("force component ", k, " on either side of a neighbour distance of ", A1.r, ", r_cut - r = ", m.r_cut - A1.r));
}

PBT_PROPERTY(mace_history, "one evaluator object used for a random sequence of 2-6 calls with systems of different sizes (including no atoms, no edges, more and fewer edges, the previous system with one detail changed in place, another model in between): each result equals that of a freshly loaded evaluator; non-trivial: sizes both shrink and grow") {
    Files fs;
    Model m = gen_model(s), m2 = s.boolean() ? sibling(m, s) : gen_model(s); labels(ctx, m);
    std::string path = mem_file(to_json(m)), path2 = mem_file(to_json(m2));
    MACE M(path), M2(path2);
    int nc = s.sized(2, 6); bool shrink = false, grow = false; int prev = -1; Graph last[2];
    ctx.describe(m.summary());
    for (int c = 0; c < nc; ++c) {
        int kind = s.integer(0, 6); bool other = s.chance(20); MACE& T = other ? M2 : M; const Model& mm = other ? m2 : m; Graph& g = last[other]; if (kind >= 5 && g.edges() == 0) kind -= 4; if (kind < 5) g = Graph();
        if (kind >= 5) { std::string w = perturb(g, mm, s); ctx.label(w); ctx.describe(" (", w, ")"); }
        else if (kind == 0) g = gen_free_graph(s, mm);
        else if (kind == 1) { g.N = s.integer(0, 3); for (int i = 0; i < g.N; ++i) { g.type.push_back(s.integer(0, mm.E - 1)); g.num.push_back(0); } ctx.label("no edges"); }
        else g = build_graph(gen_system(s, mm, {.max_atoms = kind == 4 ? 8 : 5}), mm.r_cut);
        ctx.describe(" | call ", c, other ? " (other model)" : "", ": nodes=", g.N, " edges=", g.edges(), " types=", vec(g.type), " num=", vec(g.num));
        if (prev >= 0 && !other) { shrink |= g.edges() < prev; grow |= g.edges() > prev; }
        if (!other) prev = g.edges();
        Out o = run(T, g);
        MACE F(other ? path2 : path); Out f = run(F, g);
        for (int i = 0; i < g.N; ++i) check_close(o.e[i], f.e[i], 1e-14 + 1e-14 * std::fabs(f.e[i]), 0, str("call ", c, ": energy of node ", i, " against a fresh evaluator"));
        for (size_t i = 0; i < o.f.size(); ++i) check_close(o.f[i], f.f[i], 1e-13, 1e-13, str("call ", c, ": force component ", i, " against a fresh evaluator"));
        if (s.chance(25)) compare_ref(mm, g, o, s.bulk_seed(), str("call ", c, ", against the definition: "));
    }
    ctx.nontrivial = shrink && grow;
}

PBT_PROPERTY(mace_stepwise, "the individual stages called in order on one evaluator (as a simulation code does, with the edge forces zeroed by the caller and leftovers of earlier systems in every buffer) give the energies and forces of the single call; stages asked to start their outputs from zero instead of adding do so whatever the buffers held; non-trivial: two systems of different size in sequence with edges") {
    Files fs;
    Model m = gen_model(s, {.zbl_percent = 20}); labels(ctx, m);
    std::string path = mem_file(to_json(m)); MACE M(path), F(path);
    int nc = s.sized(1, 3); ctx.describe(m.summary()); int withe = 0;
    for (int c = 0; c < nc; ++c) {
        Graph g = s.boolean() ? gen_free_graph(s, m) : build_graph(gen_system(s, m, {.max_atoms = 5}), m.r_cut);
        ctx.describe(" | nodes=", g.N, " edges=", g.edges()); withe += g.edges() > 0;
        Out f = run(F, g);
        M.node_energies.assign(g.N, 0.0); M.node_forces.assign(g.xyz.size(), 0.0);
        if (M.has_zbl) M.zbl.compute_ZBL(g.N, g.type, g.num, g.ntype, M.atomic_numbers, g.r, g.xyz, M.node_energies, M.node_forces);
        M.compute_Y(g.xyz); M.compute_R0(g.N, g.type, g.num, g.ntype, g.r); M.compute_A0(g.N, g.type, g.num, g.ntype); M.compute_A0_scaled(g.N, g.type, g.num, g.ntype, g.r);
        M.compute_M0(g.N, g.type); M.compute_H1(g.N);
        M.compute_R1(g.N, g.type, g.num, g.ntype, g.r); M.compute_Phi1(g.N, g.num, g.idx); M.compute_A1(g.N); M.compute_A1_scaled(g.N, g.type, g.num, g.ntype, g.r);
        M.compute_M1(g.N, g.type); M.compute_H2(g.N, g.type); M.compute_readouts(g.N, g.type);
        // each of these stages either adds to its outputs or, on request, starts them from zero: then the caller adds what was there before
        bool zh2 = s.chance(30), za1 = s.chance(30), zf = s.chance(30), zh = s.chance(30);
        ctx.describe(" zero flags ", zh2, za1, zf, zh); if (zh2 || za1 || zf || zh) ctx.label("starts from zero");
        DV keep; double big = 0;
        auto take = [&](DV& v) { keep = v; for (auto& x : v) x = 1e3; };
        auto give = [&](DV& v) { if (v.size() < keep.size()) fail("a stage shrank its output"); for (size_t i = 0; i < keep.size(); ++i) v[i] += keep[i]; };
        if (zh2) take(M.H1_adj);
        M.reverse_H2(g.N, g.type, zh2);
        if (zh2) give(M.H1_adj);
        M.reverse_M1(g.N, g.type);
        if (za1 && M.A1_scaled) take(M.node_forces);
        M.reverse_A1_scaled(g.N, g.type, g.num, g.ntype, g.xyz, g.r, za1);
        if (za1 && M.A1_scaled) give(M.node_forces);
        M.reverse_A1(g.N);
        DV keepF, keepH;
        if (zf) { take(M.node_forces); keepF = keep; } if (zh) { take(M.H1_adj); keepH = keep; }
        M.reverse_Phi1(g.N, g.num, g.idx, g.xyz, g.r, zf, zh);
        if (zf) { keep = keepF; give(M.node_forces); } if (zh) { keep = keepH; give(M.H1_adj); }
        for (double x : f.f) big = std::max(big, std::fabs(x));
        double slack = zh2 || za1 || zf || zh ? 1e-12 : 1e-13;
        M.reverse_H1(g.N); M.reverse_M0(g.N, g.type); M.reverse_A0_scaled(g.N, g.type, g.num, g.ntype, g.xyz, g.r); M.reverse_A0(g.N, g.type, g.num, g.ntype, g.xyz, g.r);
        for (int i = 0; i < g.N; ++i) check_close(M.node_energies[i], f.e[i], 1e-14, 1e-14, str("energy of node ", i, " from the stages"));
        for (size_t i = 0; i < f.f.size(); ++i) check_close(M.node_forces[i], f.f[i], 1e-13 + (slack > 1e-13 ? 1e-11 * big : 0), slack, str("force component ", i, " from the stages"));
    }
    ctx.nontrivial = withe >= 2;
}

PBT_PROPERTY(mace_file_equivalence, "generated models written compactly and with random key order, whitespace, number spelling and unknown keys load to the same potential; listing the elements in another order (with all per-element data permuted) gives the same energies and forces; non-trivial: at least two elements or a restyled file, with edges") {
    Files fs;
    Model m = gen_model(s); labels(ctx, m);
    auto p = s.permutation(m.E); vector<int> invp(m.E); bool id = true; for (int a = 0; a < m.E; ++a) { invp[p[a]] = a; id &= p[a] == a; }
    std::string styled = to_json_styled(m, s);
    System y = gen_system(s, m, {.max_atoms = 5}); Graph g = build_graph(y, m.r_cut);
    ctx.describe(m.summary(), " element order ", vec(p), " ", y.text(), " file starts ", styled.substr(0, 60));
    ctx.nontrivial = g.edges() > 0 && (styled != to_json(m) || !id);
    std::string path = mem_file(styled); if (s.boolean()) { rewrite_mem_file(path, to_json(permute_elements(m, p))); MACE O(path); rewrite_mem_file(path, styled); }   // the same file name, other content before
    MACE M(mem_file(to_json(m))), S(path), P(mem_file(to_json(permute_elements(m, p))));
    Graph h = g; for (auto& t : h.type) t = invp[t]; for (auto& t : h.ntype) t = invp[t];
    Out a = run(M, g), b = run(S, g), c = run(P, h);
    for (int i = 0; i < g.N; ++i) { check_close(b.e[i], a.e[i], 0, 1e-15, "energy from the restyled file"); check_close(c.e[i], a.e[i], 1e-14, 1e-14, "energy with reordered elements"); }
    for (size_t i = 0; i < a.f.size(); ++i) { check_close(b.f[i], a.f[i], 1e-300, 1e-15, "force from the restyled file"); check_close(c.f[i], a.f[i], 1e-13, 1e-13, "force with reordered elements"); }
}

PBT_PROPERTY(mace_file_errors, "damaged model files: cut at a random byte, a required key removed (also inside the polynomial tables), a required value replaced by one of another kind, an empty file, a missing file, not JSON at all: construction throws and never returns an evaluator; non-trivial: every case") {
    Files fs;
    std::string path = damaged_file(s, ctx);
    ctx.nontrivial = true;
    bool threw = false;
    try { MACE M(path); } catch (const std::exception&) { threw = true; }
    check(threw, "a damaged model file was accepted");
}
