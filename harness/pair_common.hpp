// LAMMPS pair styles: generated runs (models, structures, decompositions, histories) checked against the model definition.
#pragma once
#include <cmath>
#include "lammps_world.hpp"
#include "mace_model.hpp"

namespace pc {
using namespace pbt;
using namespace mm;
using std::vector;
using lmpw::World;
struct Files { ~Files() { drop_mem_files(); } };

inline const vector<std::string>& symbols() {
    static const vector<std::string> t = [] {
        vector<std::string> v; std::istringstream in(
            "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe "
            "Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og");
        std::string w; while (in >> w) v.push_back(w); return v; }();
    return t;
}
struct Args { vector<std::string> s; vector<char*> p; explicit Args(vector<std::string> v) : s(std::move(v)) { for (auto& x : s) p.push_back(x.data()); p.push_back(nullptr); } int n() const { return (int)s.size(); } char** v() { return p.data(); } };

inline vector<std::string> coeff_args(const Model& m, const std::string& path, const vector<int>& elem) {
    vector<std::string> a{"*", "*", path}; for (int e : elem) a.push_back(symbols()[m.Z[e] - 1]); return a;
}
inline lmpw::Box make_box(const System& y) {
    lmpw::Box b; b.pbc = y.pbc;
    double scale = 1;
    for (int d = 0; d < 3; ++d) { b.cell[d] = y.cell[d]; if (b.cell[d][0] == 0 && b.cell[d][1] == 0 && b.cell[d][2] == 0) { b.cell[d] = {0, 0, 0}; b.cell[d][d] = scale; } }
    auto rows = lmpw::inverse_rows(b.cell);
    for (int d = 0; d < 3; ++d) if (!y.pbc[d]) {   // enclose the atoms
        double lo = 1e300, hi = -1e300; for (auto& p : y.pos) { double f = lmpw::dot3(rows[d], p); lo = std::min(lo, f); hi = std::max(hi, f); }
        if (y.pos.empty()) lo = hi = 0;
        double len = (hi - lo) * 1.02 + 0.3 / std::sqrt(lmpw::dot3(rows[d], rows[d])) * lmpw::dot3(rows[d], rows[d]), start = lo - 0.5 * (len - (hi - lo));
        for (int e = 0; e < 3; ++e) { b.origin[e] += start * b.cell[d][e]; }
        for (int e = 0; e < 3; ++e) b.cell[d][e] *= len;
    }
    return b;
}
struct Setup { int P[3]; std::string mode; double skin, cutuser; int map_style; vector<int> elem; };

inline Setup gen_setup(Src& s, Ctx& ctx, const Model& m, int max_types) {
    Setup u; int R = 1;
    for (int d = 0; d < 3; ++d) { u.P[d] = s.chance(45) ? s.integer(1, 3) : 1; if (R * u.P[d] > 6) u.P[d] = 1; R *= u.P[d]; }
    int k = s.integer(0, 3); u.mode = k == 0 ? "" : k == 1 ? "mpi_message_passing" : k == 2 ? "no_mpi_message_passing" : R == 1 ? "no_domain_decomposition" : "mpi_message_passing";
    u.skin = m.r_cut * s.real(0.02, 0.4); u.cutuser = s.chance(30) ? m.r_cut * s.real(0.1, 2.6) : 0;
    u.map_style = s.boolean() ? LAMMPS_NS::Atom::MAP_HASH : LAMMPS_NS::Atom::MAP_ARRAY;
    int nt = s.sized(1, max_types); for (int i = 0; i < nt; ++i) u.elem.push_back(s.integer(0, m.E - 1));
    ctx.label(u.mode.empty() ? R == 1 ? "no_domain_decomposition (default)" : "mpi_message_passing (default)" : u.mode); ctx.label(str("ranks=", R));
    ctx.describe("grid=", u.P[0], "x", u.P[1], "x", u.P[2], " mode='", u.mode, "' skin=", u.skin, " comm_cutoff=", u.cutuser, " types=", vec(u.elem), " ");
    return u;
}
inline void new_cuts(Src& s, World& w) {
    for (int d = 0; d < 3; ++d) {
        vector<double> c{0}; bool even = s.boolean(); double t = 0; vector<double> q;
        for (int i = 0; i < w.P[d]; ++i) { q.push_back(even ? 1 : s.real(0.3, 1.7)); t += q.back(); }
        double a = 0; for (int i = 0; i < w.P[d]; ++i) { a += q[i]; c.push_back(i + 1 == w.P[d] ? 1.0 : a / t); }
        w.cuts[d] = c;
    }
}

// One compute on the current configuration, compared with the model definition.
inline void compute_and_compare(Src& s, Ctx& ctx, World& w, const Model& m, const System& y, double unit, int max_edges = 160) {
    Graph g = build_graph(y, m.r_cut, max_edges);
    int eflag = s.chance(70) ? 3 : s.integer(0, 2), vflag = s.chance(70) ? s.integer(1, 2) : 0;
    int N = (int)y.pos.size(), R = w.R;
    Bulk b(s.bulk_seed());
    // forces accumulate onto what is there already
    vector<vector<double>> f0(R), x0(R);
    auto put = [&] { for (int r = 0; r < R; ++r) { auto& a = *w.ranks[r]->atom; for (int i = 0; i < a.nlocal + a.nghost; ++i) for (int d = 0; d < 3; ++d) a.f[i][d] = f0[r][3 * i + d]; } };
    auto owned = [&](int q) { vector<double> F(3 * N, std::nan("")); (void)q; for (int r = 0; r < R; ++r) { auto& a = *w.ranks[r]->atom; for (int i = 0; i < a.nlocal; ++i) for (int d = 0; d < 3; ++d) F[3 * w.index(a.tag[i]) + d] = a.f[i][d]; } return F; };
    bool dirty = s.chance(30);
    for (int r = 0; r < R; ++r) { auto& a = *w.ranks[r]->atom; for (int i = 0; i < a.nlocal + a.nghost; ++i) for (int d = 0; d < 3; ++d) { f0[r].push_back(dirty ? b.sym(0.01) : 0); x0[r].push_back(a.x[i][d]); } }
    put(); w.reverse_forces(); vector<double> base = owned(0); put();
    w.compute(eflag, vflag);
    if (!w.error.empty()) fail("compute() failed: " + w.error);
    for (int r = 0; r < R; ++r) { auto& a = *w.ranks[r]->atom; for (int i = 0; i < a.nlocal + a.nghost; ++i) for (int d = 0; d < 3; ++d) check(a.x[i][d] == x0[r][3 * i + d], "compute() changed atom positions"); }
    w.reverse_forces(); vector<double> F = owned(1); for (int i = 0; i < 3 * N; ++i) F[i] -= base[i];
    double E = 0, W[6] = {0}; vector<double> ea(N, std::nan(""));
    for (int r = 0; r < R; ++r) {
        auto& k = *w.ranks[r]; E += k.pair->eng_vdwl + k.pair->eng_coul; for (int q = 0; q < 6; ++q) W[q] += k.pair->virial[q];
        if (eflag & 2) for (int i = 0; i < k.atom->nlocal; ++i) ea[w.index(k.atom->tag[i])] = k.pair->eatom[i];
    }
    for (int i = 0; i < 3 * N; ++i) check(pbt::finite(F[i]), str("force component ", i, " is not finite"));
    // directions: all atoms, one atom, homogeneous strain
    vector<double> u1(3 * N), u2(3 * N, 0); for (auto& v : u1) v = b.sym(); if (N) { int i = b.integer(0, N - 1); for (int d = 0; d < 3; ++d) u2[3 * i + d] = b.sym(); }
    double e3[3][3]; for (int a = 0; a < 3; ++a) for (int c = a; c < 3; ++c) e3[a][c] = e3[c][a] = b.sym();
    vector<DV> dirs(3, DV(g.xyz.size()));
    for (int e = 0; e < g.edges(); ++e) for (int d = 0; d < 3; ++d) {
        dirs[0][3 * e + d] = u1[3 * g.idx[e] + d] - u1[3 * g.src[e] + d]; dirs[1][3 * e + d] = u2[3 * g.idx[e] + d] - u2[3 * g.src[e] + d];
        for (int c = 0; c < 3; ++c) dirs[2][3 * e + d] += e3[d][c] * g.xyz[3 * e + c];
    }
    auto ref = reference(m, g, dirs);
    double total = unit * std::max(1.0, g.edges() / 150.0);   // long sums, in any order
    double et = 0, em = 0; for (int i = 0; i < N; ++i) { et += ref.e[i]; em += ref.em[i]; }
    if (eflag & 1) check_close(E, et, 1e-13 + total * em, 0, "total energy");
    if (eflag & 2) for (int i = 0; i < N; ++i) check_close(ea[i], ref.e[i], 1e-13 + unit * ref.em[i], 0, str("per-atom energy of atom ", i + 1));
    double w1 = 0, w2 = 0, slack = (dirty ? 1e-16 * 50 * N : 0); for (int i = 0; i < 3 * N; ++i) { w1 += F[i] * u1[i]; w2 += F[i] * u2[i]; }
    check_close(-w1, ref.sum_d(0), 1e-13 + slack + total * ref.sum_dm(0), 0, "work of the forces along a random displacement of all atoms");
    check_close(-w2, ref.sum_d(1), 1e-13 + slack + total * ref.sum_dm(1), 0, "work of the forces along a displacement of one atom");
    if (vflag) { double v = W[0] * e3[0][0] + W[1] * e3[1][1] + W[2] * e3[2][2] + 2 * (W[3] * e3[0][1] + W[4] * e3[0][2] + W[5] * e3[1][2]); check_close(-v, ref.sum_d(2), 1e-13 + total * ref.sum_dm(2), 0, "virial along a random strain"); }
    int ghosts = 0; for (auto& k : w.ranks) ghosts += k->atom->nghost;
    if (g.edges() >= 3 && N >= 2 && ghosts > 0) ctx.nontrivial = true;
    if (ghosts) ctx.label("ghosts"); for (auto& k : w.ranks) if (k->atom->nlocal == 0) { ctx.label("rank without atoms"); break; }
    ctx.describe("[e", eflag, " v", vflag, dirty ? " +f" : "", "] ");
}

inline System gen_lammps_system(Src& s, const Model& m, const Setup& u, vector<int>& ltype, int max_atoms) {
    System y = gen_system(s, m, {.max_atoms = max_atoms});
    ltype.clear(); for (auto& t : y.type) { int l = s.integer(1, (int)u.elem.size()); ltype.push_back(l); t = u.elem[l - 1]; }
    for (int d = 0; d < 3; ++d) if (y.pbc[d]) {   // keep the number of images manageable
        double n = std::sqrt(y.cell[d][0] * y.cell[d][0] + y.cell[d][1] * y.cell[d][1] + y.cell[d][2] * y.cell[d][2]), want = (u.mode == "no_mpi_message_passing" ? 0.95 : 0.7) * m.r_cut;
        if (n < want) for (auto& c : y.cell[d]) c *= want / n;
    }
    return y;
}
inline void place(Src& s, World& w, const System& y, const vector<int>& ltype, int max_ghosts = 1500) {
    w.box = make_box(y); w.rng.s = s.raw(0xffffff) * 77 + 5;
    try { w.reneighbor({y.pos.begin(), y.pos.end()}, ltype); } catch (const std::length_error&) { throw Discard{}; }
    int n = 0; for (auto& k : w.ranks) n += k->atom->nghost; if (n > max_ghosts) throw Discard{};
}
inline void start(World& w, const Setup& u, const Model& m, const std::string& path) {
    w.ntypes = (int)u.elem.size(); w.create(u.skin, u.cutuser, u.map_style, 1);
    for (auto& k : w.ranks) { Args a(u.mode.empty() ? vector<std::string>{} : vector<std::string>{u.mode}); k->pair->settings(a.n(), a.v()); Args c(coeff_args(m, path, u.elem)); k->pair->coeff(c.n(), c.v()); }
    w.init();
}
// A history of computes of one pair style object.
template <class MakeWorld> void history(Src& s, Ctx& ctx, MakeWorld&& mk, const std::function<double()>& unit, const std::function<void()>& sched, int max_types_over, int max_steps, int max_atoms) {
    Model m = gen_model(s, {.max_K = 3, .max_E = 3});
    Setup u = gen_setup(s, ctx, m, m.E + max_types_over);
    std::unique_ptr<World> wp = mk(u.P[0], u.P[1], u.P[2]); World& w = *wp;
    ctx.describe(m.summary(), " ");
    if (s.chance(30)) { w.id_gap = s.chance(30) ? 5000 : 3; ctx.label("sparse ids"); ctx.describe("id gaps up to ", w.id_gap, " "); }
    std::string path = mem_file(to_json(m)); start(w, u, m, path);
    int steps = s.sized(1, max_steps); System y; vector<int> lt; vector<V3> built;   // built: positions when the lists were made; no atom strays further than half the skin from there
    for (int t = 0; t < steps; ++t) {
        int op = t == 0 ? 0 : s.integer(0, 5);
        sched();
        if (op == 5 && y.pos.empty()) op = 4;
        if (op == 1 || op == 2) {          // atoms move, lists kept
            ctx.label("lists kept"); ctx.describe("move ");
            vector<V3> p = y.pos; bool one = s.chance(25); size_t who = one && !p.empty() ? s.integer(0, (int)p.size() - 1) : 0; for (size_t q = 0; q < p.size(); ++q) { auto& x = p[q]; if (one && q != who) continue; x = built[q]; double a = 0.45 * u.skin / 1.7320508 * s.real(0, 1); for (auto& c : x) c += s.sym(1) * a; }
            y.pos = p; w.move({p.begin(), p.end()});
        } else if (op == 5) {              // types change, lists kept
            ctx.label("retyped"); ctx.describe("retype "); size_t i = s.integer(0, (int)lt.size() - 1), j = s.integer(0, (int)lt.size() - 1);
            if (s.boolean()) std::swap(lt[i], lt[j]); else lt[i] = s.integer(1, (int)u.elem.size());
            for (size_t q = 0; q < lt.size(); ++q) y.type[q] = u.elem[lt[q] - 1];
            w.retype(lt);
        } else if (op == 3) {              // same atoms, new decomposition and lists
            if (s.chance(25)) {            // pair_style again, with another mode; pair_coeff is not repeated
                static const vector<std::string> modes{"no_domain_decomposition", "mpi_message_passing", "no_mpi_message_passing"};
                u.mode = modes[s.integer(w.R > 1 ? 1 : 0, 2)]; ctx.label("mode changed"); ctx.describe("pair_style ", u.mode, " ");
                if (s.chance(40)) { u.skin = m.r_cut * s.real(0.02, 0.4); ctx.describe("skin ", u.skin, " "); for (auto& k : w.ranks) k->neighbor->skin = u.skin; }
                for (auto& k : w.ranks) { Args a({u.mode}); k->pair->settings(a.n(), a.v()); }
                w.init();
            }
            ctx.label("reneighbour"); ctx.describe("reneighbour "); new_cuts(s, w); place(s, w, y, lt); built = y.pos;
        } else {                           // different atoms
            if (op == 4 && s.chance(30)) { if (s.chance(40)) { std::string what; m = sibling(m, s, &what); ctx.label("model with one block changed"); ctx.describe("pair_coeff again: ", what, " "); } else { m = gen_model(s, {.max_K = 3, .max_E = 3}); ctx.describe("pair_coeff again: ", m.summary(), " "); } ctx.label("model reloaded"); for (auto& e : u.elem) e = s.integer(0, m.E - 1); if (s.boolean()) { rewrite_mem_file(path, to_json(m)); ctx.describe("(same file name) "); } else path = mem_file(to_json(m)); for (auto& k : w.ranks) { Args c(coeff_args(m, path, u.elem)); k->pair->coeff(c.n(), c.v()); } w.init(); }
            y = gen_lammps_system(s, m, u, lt, max_atoms); ctx.describe(y.text(), " "); new_cuts(s, w); w.ids.clear(); place(s, w, y, lt); built = y.pos;
        }
        compute_and_compare(s, ctx, w, m, y, unit());
    }
}

// Many atoms: a jittered lattice with vacancies, a small model.
template <class MakeWorld> void large(Src& s, Ctx& ctx, MakeWorld&& mk, const std::function<double()>& unit, const std::function<void()>& sched) {
    Model m = gen_model(s, {.max_K = 2, .max_E = 3, .max_l = 1, .max_terms = 8, .big = false});
    Setup u = gen_setup(s, ctx, m, m.E + 1);
    std::unique_ptr<World> wp = mk(u.P[0], u.P[1], u.P[2]); World& w = *wp; ctx.describe(m.summary(), " ");
    std::string path = mem_file(to_json(m)); start(w, u, m, path);
    int steps = s.integer(1, 3); System y; vector<int> lt; vector<V3> built;
    for (int t = 0; t < steps; ++t) {
        int op = t == 0 ? 0 : s.integer(0, 2); sched();
        if (op == 1) {
            ctx.label("lists kept"); ctx.describe("move "); Bulk b(s.bulk_seed()); double a = 0.45 * u.skin / 1.7320508;
            y.pos = built; for (auto& x : y.pos) for (auto& c : x) c += b.sym(a);
            w.move({y.pos.begin(), y.pos.end()});
        } else if (op == 2) { ctx.label("reneighbour"); ctx.describe("reneighbour "); new_cuts(s, w); place(s, w, y, lt, 30000); built = y.pos; }
        else {
            y = System(); lt.clear(); int n[3]; double a = m.r_cut * s.real(0.72, 0.97), hole = s.chance(30) ? s.real(0, 0.3) : 0;
            bool huge = s.chance(8); for (auto& q : n) q = huge ? s.integer(9, 12) : s.integer(3, 8);
            Bulk b(s.bulk_seed());
            for (int d = 0; d < 3; ++d) { y.pbc[d] = s.boolean(); y.cell[d] = {0, 0, 0}; y.cell[d][d] = a * n[d]; for (int e = 0; e < d; ++e) if (s.chance(20)) y.cell[d][e] = a * s.sym(1); }
            for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) {
                if (b.uni() < hole) continue;
                V3 p; for (int d = 0; d < 3; ++d) p[d] = (i + 0.5) / n[0] * y.cell[0][d] + (j + 0.5) / n[1] * y.cell[1][d] + (k + 0.5) / n[2] * y.cell[2][d] + b.sym(0.12 * a);
                y.pos.push_back(p); lt.push_back(b.integer(1, (int)u.elem.size())); y.type.push_back(u.elem[lt.back() - 1]);
            }
            ctx.describe(y.pos.size(), " atoms on a ", n[0], "x", n[1], "x", n[2], " lattice a=", a, " pbc=", y.pbc[0], y.pbc[1], y.pbc[2], " ");
            ctx.label(y.pos.size() > 512 ? "over 512 atoms" : y.pos.size() > 256 ? "over 256 atoms" : y.pos.size() > 100 ? "over 100 atoms" : "up to 100 atoms");
            new_cuts(s, w); w.ids.clear(); place(s, w, y, lt, 30000); built = y.pos;
        }
        compute_and_compare(s, ctx, w, m, y, unit(), 40000);
    }
}

// Commands: which inputs are accepted, how types map to elements, what is rejected with an error.
template <class MakeWorld> void commands(Src& s, Ctx& ctx, MakeWorld&& mk, const std::function<double()>& unit) {
    Model m = gen_model(s, {.max_K = 2, .max_E = 5, .max_l = 1, .max_terms = 12, .zbl_percent = 0});
    { Bulk b(s.bulk_seed()); std::set<int> z; vector<int> v; while ((int)v.size() < m.E) { int q = b.integer(1, 118); if (z.insert(q).second) v.push_back(q); } m.Z = v; }
    std::string path = mem_file(to_json(m));
    int R = s.chance(30) ? s.integer(2, 3) : 1; int nt = s.sized(1, m.E + 3);
    vector<int> elem; for (int i = 0; i < nt; ++i) elem.push_back(s.integer(0, m.E - 1));
    std::unique_ptr<World> wp = mk(R, 1, 1); World& w = *wp; w.ntypes = nt;
    double skin = m.r_cut * s.real(0.02, 0.6), user = s.chance(40) ? m.r_cut * s.real(0.1, 4) : 0;
    int map = s.chance(12) ? LAMMPS_NS::Atom::MAP_NONE : s.boolean() ? LAMMPS_NS::Atom::MAP_HASH : LAMMPS_NS::Atom::MAP_ARRAY, newton = s.chance(10) ? 0 : 1;
    w.create(skin, user, map, newton);
    auto rejected = [&](auto f) { int n = 0; for (auto& k : w.ranks) { try { f(*k); } catch (const std::exception&) { ++n; } } if (n && n != w.R) fail("an input is rejected by some ranks only"); return n > 0; };
    static const vector<std::string> modes{"no_domain_decomposition", "mpi_message_passing", "no_mpi_message_passing"};
    ctx.describe("ranks=", R, " types=", vec(elem), " Z=", vec(m.Z), " ");
    // pair_style
    vector<std::string> sa; int k = s.chance(12) ? s.integer(5, 6) : s.integer(0, 4);
    if (k >= 1 && k <= 4) sa = {s.pick(modes)};
    else if (k == 5) sa = {s.pick(vector<std::string>{"", "mpi", "no_domain_decompositio", "no_domain_decomposition ", "NO_MPI_MESSAGE_PASSING", "1", "mpi_message_passing2", "message_passing"})};
    else if (k == 6) { int n = s.integer(2, 3); for (int i = 0; i < n; ++i) sa.push_back(s.pick(modes)); }
    ctx.describe("pair_style"); for (auto& a : sa) ctx.describe(" '", a, "'");
    bool ok = k <= 4 && !(sa.size() == 1 && sa[0] == modes[0] && R > 1);
    bool rej = rejected([&](lmpw::Rank& q) { Args a(sa); q.pair->settings(a.n(), a.v()); });
    check(rej == !ok, ok ? "valid pair_style arguments were rejected" : "invalid pair_style arguments were accepted");
    if (!ok) { ctx.label("pair_style rejected"); ctx.nontrivial = true; return; }
    std::string mode = sa.empty() ? R == 1 ? modes[0] : modes[1] : sa[0];
    // pair_coeff
    if (s.chance(25)) {   // earlier commands that the last ones replace
        Model o = m; for (auto& z : o.Z) z = z % 118 + 1; vector<int> e; for (int i = 0; i < nt; ++i) e.push_back(s.integer(0, m.E - 1)); bool other = s.boolean();
        ctx.label("repeated commands"); ctx.describe(" after pair_coeff for ", other ? "another model " : "", vec(e));
        std::string first = other ? mem_file(to_json(o)) : path; for (auto& q : w.ranks) { Args a(coeff_args(other ? o : m, first, e)); q->pair->coeff(a.n(), a.v()); }
        if (s.boolean()) for (auto& q : w.ranks) { Args a(sa); q->pair->settings(a.n(), a.v()); }
    }
    auto ca = coeff_args(m, path, elem); int bad = s.integer(0, 13); ok = true;
    if (bad == 1) { ca[3 + s.integer(0, nt - 1)] = s.pick(vector<std::string>{"Xx", "h", "", "HE", "12", "NULL", "Hydrogen", "D", "*", "fe"}); ok = false; ctx.label("unknown element name"); }
    else if (bad == 2) { int z; do z = s.integer(1, 118); while (std::find(m.Z.begin(), m.Z.end(), z) != m.Z.end()); ca[3 + s.integer(0, nt - 1)] = symbols()[z - 1]; ok = false; ctx.label("element missing from the model"); }
    else if (bad == 3) { int q = s.integer(1, nt); ca.resize(ca.size() - q); ok = false; ctx.label("too few elements"); }
    else if (bad == 4) { int q = s.integer(1, 3); while (q--) ca.push_back(symbols()[m.Z[s.integer(0, m.E - 1)] - 1]); ok = false; ctx.label("too many elements"); }
    else if (bad == 5) { ca[2] = "/nonexistent/" + std::to_string(s.raw(99)) + ".json"; ok = false; ctx.label("missing file"); }
    ctx.describe(" pair_coeff"); for (size_t i = 3; i < ca.size(); ++i) ctx.describe(" '", ca[i], "'");
    rej = rejected([&](lmpw::Rank& q) { Args a(ca); q.pair->coeff(a.n(), a.v()); });
    check(rej == !ok, ok ? "valid pair_coeff arguments were rejected" : "invalid pair_coeff arguments were accepted");
    if (!ok) { ctx.nontrivial = true; return; }
    // run
    std::string why; int nerr = 0; ok = map != LAMMPS_NS::Atom::MAP_NONE && newton;
    ctx.describe(" map=", map, " newton=", newton, " skin=", skin, " comm cutoff=", user, " r_cut=", m.r_cut, " ");
    try { w.init(); } catch (const LAMMPS_NS::LAMMPSException& e) { ++nerr; }
    check((nerr > 0) == !ok, ok ? "a run with an atom map and newton on was rejected" : "a run without an atom map or with newton off was accepted");
    if (!ok) { ctx.label("init rejected"); ctx.nontrivial = true; return; }
    for (auto& q : w.ranks) {
        auto& p = *q->pair;
        check(p.cutforce == m.r_cut, "the style's cutoff is not the model's");
        check(p.one_coeff && p.manybody_flag && !p.single_enable && !p.restartinfo, "style flags");
        if (mode == modes[1]) check(p.comm_forward == m.nLM() * m.K && p.comm_reverse == m.nLM() * m.K, "message sizes do not match the model");
        double have = std::max(q->comm->cutghostuser, q->neighbor->cutneighmax);
        if (mode == modes[2]) check(have >= 2 * m.r_cut + skin - 1e-6 && have >= user, str("communication cutoff ", have, " is below twice the model cutoff plus the skin, or below the requested one"));
        else check(q->comm->cutghostuser >= user, "the requested communication cutoff was lowered");
    }
    Setup u; u.mode = mode; u.elem = elem; vector<int> lt;
    System y = gen_lammps_system(s, m, u, lt, 6); ctx.describe(y.text());
    new_cuts(s, w); place(s, w, y, lt);
    if (s.chance(12)) {
        Graph g = build_graph(y, m.r_cut, 160); ctx.label("atomic virial refused");
        w.compute(s.integer(0, 3), s.pick(vector<int>{4, 5, 6, 8}));
        check(!w.error.empty() && w.error_is_lammps, "per-atom virials were requested and not refused");
        ctx.nontrivial = true; return;
    }
    compute_and_compare(s, ctx, w, m, y, unit());
    bool id = true; for (int i = 0; i < nt; ++i) id = id && elem[i] == i;
    ctx.nontrivial = !id && (int)y.pos.size() > 1; ctx.label("evaluated");
}
}  // namespace pc
