// Conversion of torch MACE models (symmetrix.extract_mace_data and its command line), with stand-ins for torch, e3nn and mace.
#include <filesystem>
#include <set>
#include "py_common.hpp"
using namespace pyh;

namespace {
py::module_* ew = nullptr;
struct Setup {
    AtStart a;
    Setup() {
        before_import() = [] {
            auto sys = py::module_::import("sys"); std::string here = std::filesystem::path(__FILE__).parent_path();
            sys.attr("path").attr("append")(here); ew = new py::module_(py::module_::import("extract_world")); ew->attr("install")();
        };
    }
} setup;

struct Case { py::dict cfg; vector<int> Z; double r_cut; int K; bool f32; };
Case gen_case(Src& s, Ctx& ctx) {
    Case c; int nel = s.sized(1, 4); std::set<int> z; while ((int)z.size() < nel) z.insert(s.integer(1, 100)); c.Z.assign(z.begin(), z.end());
    if (s.chance(15)) { auto p = s.permutation(nel); auto q = c.Z; for (int i = 0; i < nel; ++i) c.Z[i] = q[p[i]]; }
    c.K = s.sized(1, 3); c.r_cut = s.real(2, 6); int L = s.integer(0, 2); if (L == 2 && !s.chance(40)) L = 1; c.f32 = s.chance(12);
    auto& d = c.cfg; d["Z"] = c.Z; d["K"] = c.K; d["L"] = L; d["r_cut"] = c.r_cut; d["seed"] = (long long)(s.bulk_seed() >> 20); d["f32"] = c.f32;
    for (auto [k, p] : {std::pair{"d0", 40}, {"d1", 40}, {"zbl", 40}, {"tuple", 30}, {"e2d", 50}, {"oldU", 30}, {"noattr", 30}, {"heads1", 30}}) d[k] = s.chance(p);
    d["avg"] = py::make_tuple(s.real(0.5, 20), s.real(0.5, 20)); d["eta"] = vector<int>{s.integer(1, 2), s.integer(1, 2), s.integer(1, 2), 1};
    int c0 = 3, c1 = 3; if (s.chance(15)) { c0 = s.integer(1, 3); c1 = s.chance(70) ? c0 : s.integer(1, 3); } else if (L == 0 && s.chance(6)) { (s.boolean() ? c1 : c0) = 4; }
    d["corr"] = py::make_tuple(c0, c1); if (c0 != 3 || c1 != 3) ctx.label(str("correlation ", c0, ",", c1));
    d["heads"] = false; d["head_last"] = false; d["keep"] = "fine";
    ctx.describe("Z=", vec(c.Z), " K=", c.K, " L_max=", L, " ", py::str(d).cast<std::string>());
    return c;
}
// what the user names, as numbers, numeric strings or symbols in any order; empty or None for all
py::object gen_species(Src& s, Ctx& ctx, const vector<int>& Z, vector<int>* chosen, bool* all, bool strings_only = false) {
    *chosen = Z; *all = false;
    if (s.chance(20)) { *all = true; std::sort(chosen->begin(), chosen->end()); ctx.label("all species"); if (strings_only || s.boolean()) return py::list(); return py::none(); }
    auto p = s.permutation((int)Z.size()); int n = s.integer(1, (int)Z.size()); py::list l; chosen->clear(); py::object sym = py::module_::import("ase.data").attr("chemical_symbols");
    if (n < (int)Z.size()) ctx.label("subset");
    for (int i = 0; i < n; ++i) { int z = Z[p[i]]; chosen->push_back(z); int k = s.integer(0, 2); if (k == 0 && !strings_only) l.append(z); else if (k == 1) l.append(py::str(std::to_string(z))); else l.append(sym.attr("__getitem__")(z)); }
    std::sort(chosen->begin(), chosen->end()); return l;
}
// energies of the converted model, evaluated by symmetrix, on generated graphs against the original
void compare(Src& s, Ctx& ctx, const Case& c, py::object model, py::object ev, const vector<int>& chosen) {
    check(ev.attr("atomic_numbers").cast<vector<int>>() == chosen, "the converted model has other elements: " + py::str(ev.attr("atomic_numbers")).cast<std::string>());
    check_close(ev.attr("r_cut").cast<double>(), c.r_cut, 0, 1e-12, "r_cut of the converted model");
    int ng = s.sized(1, 3);
    for (int q = 0; q < ng; ++q) {
        int N = s.sized(1, 5); Bulk b(s.bulk_seed()); vector<int> ty(N), full(N), num(N), idx, nt; vector<double> xyz, r;
        for (int i = 0; i < N; ++i) { ty[i] = b.integer(0, (int)chosen.size() - 1); full[i] = int(std::find(c.Z.begin(), c.Z.end(), chosen[ty[i]]) - c.Z.begin()); }
        for (int i = 0; i < N; ++i) { num[i] = s.sized(0, 5); for (int e = 0; e < num[i]; ++e) { int j = b.integer(0, N - 1); idx.push_back(j); nt.push_back(ty[j]); double v[3], n = 0; do { n = 0; for (auto& x : v) { x = b.sym(); n += x * x; } } while (n < 0.01 || n > 1); double R = c.r_cut * (0.12 + 0.87 * b.uni()); for (double x : v) xyz.push_back(x / std::sqrt(n) * R); double a = 0; for (int k = 0; k < 3; ++k) a += xyz[xyz.size() - 3 + k] * xyz[xyz.size() - 3 + k]; r.push_back(std::sqrt(a)); } }
        py::tuple ref = model.attr("energies")(full, num, idx, xyz); auto want = ref[0].cast<vector<double>>(), mag = ref[1].cast<vector<double>>();
        ev.attr("compute_node_energies_forces")(N, ty, num, idx, nt, xyz, r); auto got = doubles(ev.attr("node_energies"));
        double mm = 1; for (double m : mag) mm = std::max(mm, m);
        ctx.describe(" | nodes=", N, " edges=", idx.size()); check(got.size() == want.size(), "number of energies");
        for (int i = 0; i < N; ++i) check_close(got[i], want[i], (c.f32 ? 1e-4 : 1e-8) * mm, 0, str("energy of node ", i, " of graph ", q));
        if (idx.size() > 1) ctx.nontrivial = true;
    }
}
void compare(Src& s, Ctx& ctx, const Case& c, py::object model, const std::string& json, const vector<int>& chosen) { compare(s, ctx, c, model, get().core.attr("MACE")(mem_file(json)), chosen); }
std::string dumps(py::object o) { return get().json.attr("dumps")(o).cast<std::string>(); }
}  // namespace

PBT_PROPERTY(extract_energies, "synthetic two-layer models in the layout of mace (elements, channels, L_max, density normalisation, ZBL, multiple heads, library version differences) converted with generated species lists, heads and numbers of spline points: node energies of the converted model on generated graphs equal those of the original evaluated from the MACE definition; non-trivial: a graph with at least two edges") {
    Files fs; World& w = get(); Case c = gen_case(s, ctx);
    py::dict kw; bool heads = s.chance(25);
    if (heads) { ctx.label("heads"); c.cfg["heads"] = true; c.cfg["head_last"] = s.boolean(); int k = s.integer(0, 2); c.cfg["keep"] = k == 2 ? "pt_head" : "fine"; if (k > 0) kw["head"] = c.cfg["keep"]; else if (s.boolean()) kw["head"] = py::none(); }
    if (s.chance(70)) kw["num_spline_points"] = s.integer(6, 60);
    py::tuple m = ew->attr("make")(c.cfg); vector<int> chosen; bool all; py::object sp = gen_species(s, ctx, c.Z, &chosen, &all); ctx.describe(" species=", py::str(sp).cast<std::string>(), " ", py::str(kw).cast<std::string>());
    if (s.chance(25)) {   // by the calculator, from the file of the original
        ctx.label("by the calculator"); ctx.describe(" by the calculator"); if (!all || s.boolean()) kw["species"] = sp; kw["use_kokkos"] = false;
        py::object calc; try { calc = w.Symmetrix("model.pt", **kw); } catch (py::error_already_set& e) { fail(std::string("the calculator does not convert the model: ") + e.what()); }
        compare(s, ctx, c, m[0], calc.attr("evaluator"), chosen); return;
    }
    bool named = !all || s.boolean(); if (!named) ctx.label("species not given");
    auto extract = py::module_::import("symmetrix.extract_mace_data").attr("extract_mace_data");
    py::object out; try { out = named ? extract("model.pt", sp, **kw) : extract("model.pt", **kw); } catch (py::error_already_set& e) { fail(std::string("the conversion failed: ") + e.what()); }
    compare(s, ctx, c, m[0], dumps(out), chosen);
}

PBT_PROPERTY(extract_command, "the command-line conversion run with generated options in a scratch directory writes exactly one file, where asked, holding the converted model for exactly the named species; non-trivial: a graph with at least two edges") {
    Files fs; World& w = get(); Case c = gen_case(s, ctx); bool heads = s.chance(25);
    if (heads) { c.cfg["heads"] = true; c.cfg["head_last"] = s.boolean(); if (s.boolean()) c.cfg["keep"] = "pt_head"; }
    py::tuple m = ew->attr("make")(c.cfg); vector<int> chosen; bool all; py::list argv; argv.append("symmetrix_extract_mace");
    auto opt = [&](vector<const char*> names) { argv.append(s.pick(names)); };
    opt({"--model", "-m"}); argv.append("model.pt");
    if (s.chance(15)) { all = true; chosen = c.Z; std::sort(chosen.begin(), chosen.end()); }
    else { bool sym = s.boolean(); auto p = s.permutation((int)c.Z.size()); int n = s.integer(1, (int)c.Z.size()); if (sym) opt({"--chemical-symbols", "-s"}); else opt({"--atomic-numbers", "-Z", "-z"}); py::object table = py::module_::import("ase.data").attr("chemical_symbols");
        for (int i = 0; i < n; ++i) { int z = c.Z[p[i]]; chosen.push_back(z); argv.append(sym ? table.attr("__getitem__")(z) : py::object(py::str(std::to_string(z)))); } std::sort(chosen.begin(), chosen.end()); }
    if (heads && (c.cfg["keep"].cast<std::string>() == "pt_head" || s.boolean())) { opt({"--head", "-H"}); argv.append(c.cfg["keep"]); }
    bool named = s.chance(60); if (named) { opt({"--output", "-o"}); argv.append("out.json"); }
    ctx.describe(" argv=", py::str(argv).cast<std::string>());
    std::string dir = py::module_::import("tempfile").attr("mkdtemp")("prefix"_a = "verif_extract_").cast<std::string>(); auto old = std::filesystem::current_path();
    struct Clean { std::string d; std::filesystem::path o; ~Clean() { std::error_code e; std::filesystem::current_path(o, e); std::filesystem::remove_all(d, e); } } clean{dir, old};
    std::filesystem::current_path(dir);
    py::module_ sys = py::module_::import("sys"); py::object so = sys.attr("stdout"), oa = sys.attr("argv"); sys.attr("stdout") = py::module_::import("io").attr("StringIO")(); sys.attr("argv") = argv; std::string err; bool bad = false;
    try { py::module_::import("symmetrix.cli.extract_mace").attr("main")(); } catch (py::error_already_set& e) { bad = true; err = e.what(); }
    sys.attr("stdout") = so; sys.attr("argv") = oa; check(!bad, "the command failed: " + err);
    vector<std::string> files; for (auto& f : std::filesystem::directory_iterator(dir)) files.push_back(f.path().filename());
    check(files.size() == 1, str("the command wrote ", files.size(), " files")); if (named) check(files[0] == "out.json", "the command wrote " + files[0]); else check(files[0].rfind("model-", 0) == 0 && files[0].ends_with(".json"), "default output name " + files[0]);
    py::object text = py::module_::import("pathlib").attr("Path")(dir + "/" + files[0]).attr("read_text")(); (void)w;
    compare(s, ctx, c, m[0], text.cast<std::string>(), chosen);
}

PBT_PROPERTY(extract_refuses, "models or requests that cannot be converted (number of layers, kind of interaction, l_max, other pair repulsion, singular second-layer mixing, readout width, unknown or absent species, unknown head, missing file) raise instead of returning data; non-trivial: every case") {
    Files fs; get(); Case c = gen_case(s, ctx); int kind = s.integer(0, 10); ctx.label(str("kind ", kind)); ctx.describe(" kind=", kind); ctx.nontrivial = true;
    if (kind == 8) { c.cfg["heads"] = true; } if (kind == 4) c.cfg["zbl"] = true;
    py::tuple mt = ew->attr("make")(c.cfg); py::object m = mt[0]; py::list inter = m.attr("interactions"); py::object blocks = ew->attr("blocks"); py::object sp = py::cast(c.Z); std::string path = "model.pt"; py::dict kw; kw["num_spline_points"] = 8;
    auto other = [&](int i, vector<const char*> names) { py::object old = inter[i]; py::object o = blocks.attr(s.pick(names))(); o.attr("__dict__").attr("update")(old.attr("__dict__")); inter[i] = o; };
    switch (kind) {
    case 0: if (s.boolean()) inter.append(inter[1]); else inter.attr("pop")(); break;
    case 1: other(0, {"RealAgnosticResidualInteractionBlock", "RealAgnosticDensityResidualInteractionBlock", "RealAgnosticAttResidualInteractionBlock"}); break;
    case 2: other(1, {"RealAgnosticInteractionBlock", "RealAgnosticDensityInteractionBlock", "RealAgnosticAttResidualInteractionBlock", "RealAgnosticResidualNonLinearInteractionBlock"}); break;
    case 3: m.attr("spherical_harmonics").attr("_lmax") = s.pick(vector<int>{0, 1, 2, 4}); break;
    case 4: m.attr("pair_repulsion_fn") = py::module_::import("types").attr("SimpleNamespace")(**m.attr("pair_repulsion_fn").attr("__dict__")); break;
    case 5: { py::object wt = inter[1].attr("linear_up").attr("weight"); int K = c.K, row = s.integer(0, K - 1); 
        if (K >= 2 && s.boolean()) {   // one row a multiple of another, up to rounding, if that is safely below the rank threshold
            int from = (row + 1) % K; double f = s.real(0.3, 1.7); for (int k = 0; k < K; ++k) wt.attr("__setitem__")(row * K + k, f * wt.attr("__getitem__")(from * K + k).attr("item")().cast<double>());
            py::object np = py::module_::import("numpy"), sv = np.attr("linalg").attr("svd")(wt.attr("__getitem__")(py::slice(0, K * K, 1)).attr("numpy")("force"_a = true).attr("reshape")(K, K) / np.attr("sqrt")(py::float_((double)K)), "compute_uv"_a = false);
            double hi = sv.attr("__getitem__")(0).cast<double>(), lo = sv.attr("__getitem__")(K - 1).cast<double>(); ctx.describe(" dependent rows, ratio ", lo / hi); if (lo < 0.3 * K * 2.2e-16 * hi) { ctx.label("dependent rows"); break; }
        }
        for (int k = 0; k < K; ++k) wt.attr("__setitem__")(row * K + k, 0.0); break; }   // a zero row for l=0
    case 6: { int z; do z = s.integer(1, 100); while (std::find(c.Z.begin(), c.Z.end(), z) != c.Z.end()); py::list l = py::cast(c.Z); l.insert(s.integer(0, (int)c.Z.size()), z); sp = l; break; }
    case 7: { py::list l = py::cast(c.Z); l.append(s.pick(vector<const char*>{"Qq", "", "h", "carbon", "1.5", "H1"})); sp = l; break; }
    case 8: kw["head"] = "nothere"; break;
    case 10: { int h = s.pick(vector<int>{1, 8, 15, 17, 24, 32, 64}); py::object ro = m.attr("readouts")[py::int_(1)], np = py::module_::import("numpy"), T = ew->attr("T"); ro.attr("linear_1").attr("weight") = T(np.attr("ones")(c.K * h)); ro.attr("linear_2").attr("weight") = T(np.attr("ones")(h)); break; }   // a wider or narrower readout than the library holds
    default: path = "missing.pt";
    }
    check(raises([&] { py::module_::import("symmetrix.extract_mace_data").attr("extract_mace_data")(path, sp, **kw); }), "the conversion returned data");
}
