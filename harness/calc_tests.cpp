// The ASE calculator (symmetrix.Symmetrix) against the model definition.
#include <set>
#include "py_common.hpp"
using namespace pyh;

namespace {
AtStart at_start;

struct Sys { System y; bool cell_given; };

int rank_of(const System& y) { int r = 0; for (auto& c : y.cell) r += c[0] != 0 || c[1] != 0 || c[2] != 0; return r; }
double volume(const System& y) { auto& c = y.cell; return std::fabs(c[0][0] * (c[1][1] * c[2][2] - c[1][2] * c[2][1]) - c[0][1] * (c[1][0] * c[2][2] - c[1][2] * c[2][0]) + c[0][2] * (c[1][0] * c[2][1] - c[1][1] * c[2][0])); }

py::object numbers(const Model& m, const System& y) { vector<int> z; for (int t : y.type) z.push_back(m.Z[t]); return world()->np.attr("array")(z, "dtype"_a = "int64"); }
py::object positions(const System& y) { vector<vector<double>> p; for (auto& x : y.pos) p.push_back({x[0], x[1], x[2]}); return world()->np.attr("array")(p, "dtype"_a = "float64").attr("reshape")(-1, 3); }
py::object cellof(const System& y) { vector<vector<double>> p; for (auto& x : y.cell) p.push_back({x[0], x[1], x[2]}); return py::cast(p); }
py::object atoms_of(const Model& m, const System& y) { return world()->Atoms("numbers"_a = numbers(m, y), "positions"_a = positions(y), "cell"_a = cellof(y), "pbc"_a = vector<bool>{y.pbc[0], y.pbc[1], y.pbc[2]}); }

System gen_ase_system(Src& s, Ctx& ctx, const Model& m) {
    System y = gen_system(s, m, {.max_atoms = 6});
    bool per = y.pbc[0] || y.pbc[1] || y.pbc[2];
    if (per && s.chance(35)) { for (int d = 0; d < 3; ++d) if (!y.pbc[d]) y.cell[d] = {0, 0, 0}; }
    if (!per && s.chance(35)) for (int d = 0; d < 3; ++d) { y.cell[d] = {0, 0, 0}; y.cell[d][d] = m.r_cut * s.real(0.4, 5); }
    if (s.chance(30)) {   // an atom out of reach of the others, at either end of the list
        double far = m.r_cut * s.real(2.5, 6); V3 p{}; for (auto& q : y.pos) for (int d = 0; d < 3; ++d) p[d] = std::max(p[d], q[d]);
        for (auto& x : p) x += far;
        int at = s.boolean() ? 0 : (int)y.pos.size(); y.pos.insert(y.pos.begin() + at, p); y.type.insert(y.type.begin() + at, s.integer(0, m.E - 1));
        ctx.label("far atom");
    }
    if (s.chance(30)) { int d = s.integer(0, 2), e = (d + 1) % 3; std::swap(y.cell[d], y.cell[e]); std::swap(y.pbc[d], y.pbc[e]); ctx.label("cell of the other handedness"); }
    if (s.chance(20)) { int d = s.integer(0, 2); for (auto& x : y.cell[d]) x = -x; ctx.label("cell of the other handedness"); }
    return y;
}
// missing cell vectors replaced by unit vectors orthogonal to the others (only the periodic ones matter)
System complete(System y) {
    for (int d = 0; d < 3; ++d) if (y.cell[d][0] == 0 && y.cell[d][1] == 0 && y.cell[d][2] == 0) {
        V3 best{}; double bn = 0;
        for (int e = 0; e < 3; ++e) {
            V3 v{}; v[e] = 1; vector<V3> q;
            for (int c = 0; c < 3; ++c) if (c != d) { V3 u = y.cell[c]; for (auto& o : q) { double t = o[0] * u[0] + o[1] * u[1] + o[2] * u[2]; for (int k = 0; k < 3; ++k) u[k] -= t * o[k]; } double n = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); if (n > 0) { for (auto& x : u) x /= n; q.push_back(u); } }
            for (auto& o : q) { double t = o[0] * v[0] + o[1] * v[1] + o[2] * v[2]; for (int k = 0; k < 3; ++k) v[k] -= t * o[k]; }
            double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (n > bn) { bn = n; for (int k = 0; k < 3; ++k) best[k] = v[k] / n; }
        }
        y.cell[d] = best;
    }
    return y;
}
// too close to the cutoff to tell, because of rounding, whether a pair is inside
bool ambiguous(const System& y, double rc) { return build_graph(y, rc * (1 - 1e-7), 400).edges() != build_graph(y, rc * (1 + 1e-7), 400).edges(); }

void compare(Src& s, Ctx& ctx, py::object atoms, py::object calc, const Model& m, const System& y, bool single) {
    System full = complete(y);
    if (ambiguous(full, m.r_cut)) throw Discard{};
    Graph g = build_graph(full, m.r_cut, 160); int N = g.N;
    Bulk b(s.bulk_seed());
    vector<double> u1(3 * N), u2(3 * N, 0); for (auto& v : u1) v = b.sym(); { int i = b.integer(0, N - 1); for (int d = 0; d < 3; ++d) u2[3 * i + d] = b.sym(); }
    double e3[3][3]; for (int a = 0; a < 3; ++a) for (int c = a; c < 3; ++c) e3[a][c] = e3[c][a] = b.sym();
    vector<DV> dirs(3, DV(g.xyz.size()));
    for (int e = 0; e < g.edges(); ++e) for (int d = 0; d < 3; ++d) {
        dirs[0][3 * e + d] = u1[3 * g.idx[e] + d] - u1[3 * g.src[e] + d]; dirs[1][3 * e + d] = u2[3 * g.idx[e] + d] - u2[3 * g.src[e] + d];
        for (int c = 0; c < 3; ++c) dirs[2][3 * e + d] += e3[d][c] * g.xyz[3 * e + c];
    }
    auto ref = reference(m, g, dirs);
    double et = 0, em = 0; for (int i = 0; i < N; ++i) { et += ref.e[i]; em += ref.em[i]; }
    // the vectors come from ASE, with rounding relative to the coordinates
    double unit = single ? 1.1e-5 : 1e-10, dm = std::fabs(ref.sum_dm(0));
    auto order = s.permutation(6); int want = s.sized(1, 6);
    bool vol = rank_of(y) == 3;   // ASE reads one triangle of the stress matrix, which only rotationally equivariant models make symmetric
    for (int q = 0; q < want; ++q) switch (order[q]) {
        case 0: check_close(atoms.attr("get_potential_energy")().cast<double>(), et, 1e-12 + unit * em + 1e-12 * dm, 0, "get_potential_energy"); break;
        case 1: check_close(atoms.attr("get_potential_energy")("force_consistent"_a = true).cast<double>(), et, 1e-12 + unit * em + 1e-12 * dm, 0, "free energy"); break;
        case 2: {
            auto e = doubles(atoms.attr("get_potential_energies")());
            check((int)e.size() == N, str("get_potential_energies returned ", e.size(), " values for ", N, " atoms"));
            for (int i = 0; i < N; ++i) check_close(e[i], ref.e[i], 1e-12 + unit * ref.em[i] + 1e-12 * dm, 0, str("energy of atom ", i)); break; }
        case 3: {
            py::object F = atoms.attr("get_forces")();
            check(F.attr("shape").attr("__getitem__")(0).cast<int>() == N && F.attr("ndim").cast<int>() == 2 && F.attr("shape").attr("__getitem__")(1).cast<int>() == 3, "shape of the forces");
            auto f = doubles(F); double w1 = 0, w2 = 0; for (int i = 0; i < 3 * N; ++i) { check(pbt::finite(f[i]), "a force is not finite"); w1 += f[i] * u1[i]; w2 += f[i] * u2[i]; }
            check_close(-w1, ref.sum_d(0), 1e-11 + unit * ref.sum_dm(0), 0, "work of the forces along a random displacement of all atoms");
            check_close(-w2, ref.sum_d(1), 1e-11 + unit * ref.sum_dm(1) + 1e-12 * dm, 0, "work of the forces along a displacement of one atom"); break; }
        case 4: {
            if (!vol) { check(raises([&] { atoms.attr("get_stress")(); }), "a stress was returned although the cell has no volume"); ctx.label("stress without volume"); break; }
            auto t = doubles(atoms.attr("get_stress")()); check(t.size() == 6, "shape of the stress"); if (!m.equivariant) break; double V = volume(y);
            double v = V * (t[0] * e3[0][0] + t[1] * e3[1][1] + t[2] * e3[2][2] + 2 * (t[3] * e3[1][2] + t[4] * e3[0][2] + t[5] * e3[0][1]));
            check_close(v, ref.sum_d(2), 1e-11 + unit * ref.sum_dm(2), 0, "stress times volume along a random strain"); ctx.label("stress"); break; }
        default: {
            auto t = atoms.attr("calc").attr("get_property")("energy", atoms); check_close(t.cast<double>(), et, 1e-12 + unit * em + 1e-12 * dm, 0, "get_property('energy')"); }
    }
    if (g.edges() >= 2 && N >= 2) ctx.nontrivial = true;
    for (int i = 0; i < N; ++i) if (!g.num[i]) { ctx.label("isolated atom"); break; }
    if (!g.edges()) ctx.label("no pairs"); if (y.pbc[0] || y.pbc[1] || y.pbc[2]) ctx.label("periodic");
}
}  // namespace

PBT_PROPERTY(calc_history, "one Symmetrix calculator (plain, Kokkos double, Kokkos single; from a symmetrix file or converted from another kind of file) attached to one or two Atoms objects which are replaced, moved, strained, re-typed, extended and shrunk over 1-5 steps, with isolated atoms, mixed periodicity, partial and missing cells: energy, free energy, per-atom energies, forces and stress, asked for in any order, equal the model definition; elements the model lacks are refused; non-trivial: at least two atoms and two pairs") {
    Files fs; World& w = get();
    Model m = gen_model(s, {.force_equivariant = s.chance(60), .max_K = 3, .max_E = 4}); { Bulk b(s.bulk_seed()); std::set<int> z; vector<int> v; while ((int)v.size() < m.E) { int q = b.integer(1, 118); if (z.insert(q).second) v.push_back(q); } if (!m.zbl) m.Z = v; }
    int kind = s.integer(0, 2); bool single = kind == 2, convert = s.chance(20);
    ctx.label(kind == 0 ? "plain" : kind == 1 ? "kokkos float64" : "kokkos float32"); ctx.describe(kind == 0 ? "plain " : kind == 1 ? "kokkos " : "kokkos-float ", m.summary(), " ");
    py::dict kw; std::string js = to_json(m), path;
    if (kind != 0 && s.chance(70)) kw["use_kokkos"] = true; if (kind == 0) kw["use_kokkos"] = false;
    if (kind == 2) kw["dtype"] = "float32"; else if (s.boolean()) kw["dtype"] = "float64";
    w.stub_ns["calls"].attr("clear")();
    py::dict expect;
    if (convert) {
        ctx.label("converted"); ctx.describe("converted "); std::string junk = s.pick(vector<std::string>{"PK\x03\x04 torch archive", "", "\x80\x02}q", "{\"num_channels\": 4", "[1, 2"});
        path = mem_file(junk); w.stub_ns["answer"].attr("__setitem__")(0, w.json.attr("loads")(js));
        auto both = [&](const char* k, py::object v) { expect[k] = v; kw[k] = v; };
        if (s.boolean()) both("species", py::cast(m.Z));
        if (s.chance(30)) both("head", py::cast("default"));
        if (s.chance(30)) both("num_spline_points", py::cast(s.integer(10, 500)));
    } else { path = mem_file(js); w.stub_ns["answer"].attr("__setitem__")(0, py::module_::import("builtins").attr("RuntimeError")("conversion of a valid file")); }
    py::object file = py::cast(path); if (s.chance(30)) file = py::module_::import("pathlib").attr("Path")(path);
    py::object calc = w.Symmetrix(file, **kw);
    check(py::len(w.stub_ns["calls"]) == (convert ? 1u : 0u), convert ? "the conversion was not called exactly once" : "a symmetrix file was converted");
    if (convert) { py::tuple c = w.stub_ns["calls"].attr("__getitem__")(0); py::tuple a = c[0]; check(py::len(a) == 1 && py::str(a[0]).cast<std::string>() == path, "the conversion got another file"); check(py::object(c[1]).equal(expect), "the conversion got other options: " + py::str(c[1]).cast<std::string>()); }
    check_close(calc.attr("cutoff").cast<double>(), m.r_cut, 0, single ? 1e-7 : 1e-15, "cutoff of the calculator");
    int steps = s.sized(1, 5); vector<System> ys; vector<py::object> as; size_t cur = 0;
    for (int t = 0; t < steps; ++t) {
        int op = t == 0 ? 0 : s.integer(0, 8);
        if (op == 0) { System y = gen_ase_system(s, ctx, m); py::object a = atoms_of(m, y); a.attr("calc") = calc; if (ys.size() < 2) { ys.push_back(y); as.push_back(a); cur = ys.size() - 1; } else { cur = s.integer(0, 1); ys[cur] = y; as[cur] = a; } ctx.describe(y.text(), " "); }
        else if (op == 1) { ctx.describe("move "); ctx.label("moved"); System& y = ys[cur]; double a = m.r_cut * s.real(0, 0.15); for (auto& p : y.pos) for (auto& x : p) x += s.sym(1) * a; if (s.boolean()) as[cur].attr("set_positions")(positions(y)); else { py::object p = as[cur].attr("positions"); p.attr("__setitem__")(py::slice(py::none(), py::none(), py::none()), positions(y)); } }
        else if (op == 2) { ctx.describe("strain "); ctx.label("strained"); System& y = ys[cur]; if (rank_of(y) == 3) { double f = s.real(0.9, 1.15); for (auto& c : y.cell) for (auto& x : c) x *= f; as[cur].attr("set_cell")(cellof(y)); } }
        else if (op == 3) { ctx.describe("retype "); ctx.label("retyped"); System& y = ys[cur]; int i = s.integer(0, (int)y.type.size() - 1); y.type[i] = s.integer(0, m.E - 1); as[cur].attr("numbers").attr("__setitem__")(i, m.Z[y.type[i]]); }
        else if (op == 4) { System& y = ys[cur]; if (y.pos.size() > 1) { ctx.describe("delete "); ctx.label("deleted"); int i = s.integer(0, (int)y.pos.size() - 1); y.pos.erase(y.pos.begin() + i); y.type.erase(y.type.begin() + i); as[cur].attr("__delitem__")(i); } }
        else if (op == 5) { ctx.describe("again "); ctx.label("repeated"); if (ys.size() == 2) cur = 1 - cur; }
        else if (op == 6) {   // an element the model does not have
            System y = gen_ase_system(s, ctx, m); int z; do z = s.integer(1, 118); while (std::find(m.Z.begin(), m.Z.end(), z) != m.Z.end());
            py::object a = atoms_of(m, y); a.attr("numbers").attr("__setitem__")(s.integer(0, (int)y.type.size() - 1), z); a.attr("calc") = calc; ctx.label("unknown element"); ctx.describe("unknown element ");
            check(raises([&] { a.attr(s.boolean() ? "get_forces" : "get_potential_energy")(); }), str("atoms with element ", z, " were evaluated although the model lacks it"));
        } else if (op == 7) { System& y = ys[cur]; int d = s.integer(0, 2); if (y.pbc[d] || rank_of(y) == 3) { ctx.describe("pbc "); ctx.label("periodicity changed"); y.pbc[d] = !y.pbc[d]; as[cur].attr("set_pbc")(vector<bool>{y.pbc[0], y.pbc[1], y.pbc[2]}); } }
        else { System& y = ys[cur]; ctx.describe("append "); ctx.label("appended"); V3 p{}; for (auto& q : y.pos) for (int d = 0; d < 3; ++d) p[d] = std::max(p[d], q[d]); p[s.integer(0, 2)] += m.r_cut * s.real(0.5, 1.4); y.pos.push_back(p); y.type.push_back(s.integer(0, m.E - 1)); py::object one = atoms_of(m, System{{y.type.back()}, {p}}); as[cur].attr("extend")(one); }
        compare(s, ctx, as[cur], calc, m, ys[cur], single);
    }
}

PBT_PROPERTY(calc_supercell, "a periodic structure evaluated as such and as a supercell of up to 5x5x5 repetitions along its periodic directions (up to 500 atoms and tens of thousands of pairs) by the same calculator, in either order: total energy times the number of repetitions, the same per-atom energies and forces in every copy, the same stress; non-trivial: at least two repetitions of a structure with pairs") {
    Files fs; World& w = get();
    Model m = gen_model(s, {.force_equivariant = true, .max_K = 2, .max_E = 3, .big = false});
    int kind = s.integer(0, 2); bool single = kind == 2; py::dict kw; kw["use_kokkos"] = kind != 0; if (single) kw["dtype"] = "float32"; ctx.label(kind == 0 ? "plain" : kind == 1 ? "kokkos float64" : "kokkos float32");
    py::object calc = w.Symmetrix(mem_file(to_json(m)), **kw);
    System y = gen_ase_system(s, ctx, m); if (!y.pbc[0] && !y.pbc[1] && !y.pbc[2]) throw Discard{};
    int rep[3], n = 1; for (int d = 0; d < 3; ++d) { rep[d] = y.pbc[d] ? s.integer(1, 5) : 1; n *= rep[d]; }
    ctx.describe(kind == 0 ? "plain " : kind == 1 ? "kokkos " : "kokkos-float ", m.summary(), " ", y.text(), " repeated ", rep[0], "x", rep[1], "x", rep[2]);
    const int N = (int)y.pos.size(); if (n < 2 || n * N > 500) throw Discard{};
    System full = complete(y); if (ambiguous(full, m.r_cut)) throw Discard{};
    Graph g = build_graph(full, m.r_cut, 160); if (g.edges() * n > 30000) throw Discard{};
    System big = y; big.pos.clear(); big.type.clear(); for (int d = 0; d < 3; ++d) for (auto& x : big.cell[d]) x *= rep[d];
    for (int a = 0; a < rep[0]; ++a) for (int b = 0; b < rep[1]; ++b) for (int c = 0; c < rep[2]; ++c) for (int i = 0; i < N; ++i) { V3 p = y.pos[i]; for (int d = 0; d < 3; ++d) p[d] += a * y.cell[0][d] + b * y.cell[1][d] + c * y.cell[2][d]; big.pos.push_back(p); big.type.push_back(y.type[i]); }
    py::object one = atoms_of(m, y), all = atoms_of(m, big); one.attr("calc") = calc; all.attr("calc") = calc;
    struct R { double e; DV ea, f, st; }; bool vol = rank_of(y) == 3;
    auto eval = [&](py::object a) { R r; r.e = a.attr("get_potential_energy")().cast<double>(); r.ea = doubles(a.attr("get_potential_energies")()); r.f = doubles(a.attr("get_forces")()); if (vol) r.st = doubles(a.attr("get_stress")()); return r; };
    R r1, r2; if (s.boolean()) { r2 = eval(all); r1 = eval(one); } else { r1 = eval(one); r2 = eval(all); }
    vector<DV> dirs{DV(g.xyz.size(), 1.0), DV(g.xyz)}; auto ref = reference(m, g, dirs); double em = 0; for (double x : ref.em) em += x;
    double unit = single ? 1.1e-5 : 1e-10, tf = 1e-10 + 20 * unit * ref.sum_dm(0), ts = 1e-10 + 20 * unit * (ref.sum_dm(0) * m.r_cut + ref.sum_dm(1));
    check((int)r2.ea.size() == n * N && (int)r2.f.size() == 3 * n * N, "number of per-atom results of the supercell");
    double et = 0; for (double x : ref.e) et += x;
    check_close(r1.e, et, 1e-11 + unit * em + 1e-12 * ref.sum_dm(0), 0, "energy of the structure");
    check_close(r2.e, n * et, n * (1e-11 + unit * em + 1e-12 * ref.sum_dm(0)), 0, "energy of the supercell");
    for (int i = 0; i < n * N; ++i) check_close(r2.ea[i], ref.e[i % N], 1e-11 + unit * ref.em[i % N] + 1e-12 * ref.sum_dm(0), 0, str("energy of atom ", i, " of the supercell"));
    for (int i = 0; i < 3 * n * N; ++i) check_close(r2.f[i], r1.f[i % (3 * N)], tf, 0, str("force component ", i, " of the supercell"));
    if (vol) { double V = volume(y); for (int q = 0; q < 6; ++q) check_close(r2.st[q] * V, r1.st[q] * V, ts, 0, str("stress component ", q)); ctx.label("stress"); }
    ctx.nontrivial = g.edges() > 0; if (g.edges() * n > 2000) ctx.label("over 2000 pairs"); if (n * N > 100) ctx.label("over 100 atoms");
}

PBT_PROPERTY(calc_options, "construction of the calculator with generated dtype, use_kokkos and files: unsupported types and combinations and unreadable files are refused with an error, supported ones give a working calculator of that precision; non-trivial: every case") {
    Files fs; World& w = get();
    Model m = gen_model(s, {.max_K = 2, .max_E = 2, .zbl_percent = 0});
    static const vector<std::string> dts{"float64", "float32", "float16", "double", "", "Float64", "float128", "int"};
    int di = s.chance(60) ? s.integer(0, 1) : s.integer(2, 7), kk = s.integer(0, 2), file = s.chance(70) ? 0 : s.integer(1, 2);
    bool kokkos = kk != 0; py::dict kw; if (kk == 1) kw["use_kokkos"] = true; if (kk == 0) kw["use_kokkos"] = false; if (di != 0 || s.boolean()) kw["dtype"] = dts[di];
    w.stub_ns["calls"].attr("clear")(); w.stub_ns["answer"].attr("__setitem__")(0, py::module_::import("builtins").attr("RuntimeError")("not a model"));
    std::string path = file == 0 ? mem_file(to_json(m)) : file == 1 ? "/nonexistent/model.json" : mem_file("no model at all");
    bool ok = di <= 1 && (di == 0 || kokkos) && file == 0;
    ctx.describe("dtype=", dts[di], " use_kokkos=", kk == 2 ? "default" : kk ? "True" : "False", " file ", file); ctx.nontrivial = true; ctx.label(ok ? "accepted" : "refused");
    py::object calc; bool r = raises([&] { calc = w.Symmetrix(path, **kw); });
    check(r == !ok, ok ? "a supported combination was refused" : "an unsupported combination was accepted");
    if (!ok) return;
    System y = gen_ase_system(s, ctx, m); py::object a = atoms_of(m, y); a.attr("calc") = calc; ctx.describe(" ", y.text());
    compare(s, ctx, a, calc, m, y, di == 1);
    ctx.nontrivial = true;
}
