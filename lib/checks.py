"""What each property's check consists of: (target, variant, test, quick cases, thorough cases)."""
import glob, os, subprocess
import vbuild as vb

COMP = [f"{vb.SRC}/{x}.cpp" for x in "cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl".split()]
# sources a later change may add to the library
_known = {"mace", "spherical_harmonic"} | {os.path.basename(f)[:-4] for f in COMP} | {f"{x}_kokkos" for x in "cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl radial_function_set mace".split()}
_new = [f for f in sorted(glob.glob(f"{vb.SRC}/*.cpp")) if os.path.basename(f)[:-4] not in _known]
COMP += [f for f in _new if "kokkos" not in f]
H = f"{vb.VERIF}/harness"

FAST = ("-O2", "-fno-sanitize=all", "-U_GLIBCXX_ASSERTIONS", "-march=x86-64-v3")   # reference models: no instrumentation
MODEL = (f"{H}/mace_model.cpp", FAST)
MACE = COMP + [f"{vb.SRC}/mace.cpp"]

KK = COMP + [f"{vb.SRC}/{x}_kokkos.cpp" for x in "cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl radial_function_set mace".split()]
KK += [f for f in _new if "kokkos" in f]
KKINC = (f"-I{vb.VERIF}/shim/kokkos",)

LMPINC = (f"-I{vb.VERIF}/shim/lammps", f"-I{vb.PAIR}")

BINDINGS = [f"{vb.BIND}/{x}.cpp" for x in "symmetrix cubic_spline cubic_spline_set mace multilayer_perceptron multivariate_polynomial spherical_harmonic tools zbl "
            "cubic_spline_kokkos cubic_spline_set_kokkos mace_kokkos multilayer_perceptron_kokkos multivariate_polynomial_kokkos tools_kokkos zbl_kokkos".split()]
PYFLAGS = subprocess.run(["python3-config", "--includes"], capture_output=True, text=True).stdout.split()
BINDINGS += [f for f in sorted(glob.glob(f"{vb.BIND}/*.cpp")) if f not in BINDINGS]

PAIRS = [f"{vb.PAIR}/pair_symmetrix_mace.cpp", f"{vb.PAIR}/pair_symmetrix_mace_kokkos.cpp"]
PAIRS += [f for f in sorted(glob.glob(f"{vb.PAIR}/*.cpp")) if f not in PAIRS]
PYREPO = [f"{vb.SRC}/mace.cpp", f"{vb.SRC}/spherical_harmonic.cpp"] + KK + BINDINGS
PY = dict(inc=KKINC + tuple(PYFLAGS), defines=("-DSYMMETRIX_KOKKOS",), libs=("-lpython3.12", "-lopenblas"))

TARGETS = {
    "calc": dict(repo=PYREPO, own=[f"{H}/calc_tests.cpp", MODEL], **PY),
    "sh": dict(repo=[f"{vb.SRC}/spherical_harmonic.cpp"], own=[f"{H}/sh_tests.cpp"]),
    "extract": dict(repo=PYREPO, own=[f"{H}/extract_tests.cpp", MODEL], **PY),
    "bind": dict(repo=PYREPO, own=[f"{H}/bind_tests.cpp", MODEL], **PY),
    "pair": dict(repo=MACE + [f for f in PAIRS if "kokkos" not in os.path.basename(f)], own=[f"{H}/pair_tests.cpp", MODEL], inc=LMPINC),
    "pairkk": dict(repo=KK + [f for f in PAIRS if "kokkos" in os.path.basename(f)], own=[f"{H}/pairkk_tests.cpp", MODEL], inc=LMPINC + KKINC),
    "kokkos": dict(repo=KK, own=[f"{H}/kokkos_tests.cpp", MODEL], inc=KKINC),
    "mace": dict(repo=MACE, own=[f"{H}/mace_tests.cpp", MODEL]),
    "parallel": dict(repo=MACE + [f"{vb.SRC}/spherical_harmonic.cpp"], own=[f"{H}/parallel_tests.cpp", MODEL]),
    "install": dict(repo=[], own=[f"{H}/install_tests.cpp"]),
    "components": dict(repo=COMP, own=[f"{H}/components.cpp"]),
}


def build_target(name, variant):
    t = TARGETS[name]
    return vb.build(name, [f for f in t["repo"] if os.path.exists(f)], t["own"], variant, extra_inc=t.get("inc", ()), defines=t.get("defines", ()), libs=t.get("libs", ("-lopenblas",)), own_flags=t.get("own_flags", ()))


# property -> list of parts
CHECKS = {
    "C01": [("mace", "rel", "mace_symmetry", 20000, 1000000), ("mace", "san", "mace_symmetry", 600, 30000)],
    "C02": [("mace", "rel", "mace_gradient", 20000, 1000000), ("mace", "san", "mace_gradient", 600, 30000)],
    "C03": [("mace", "rel", "mace_reference", 30000, 1000000), ("mace", "san", "mace_reference", 1000, 60000)],
    "C04": [("mace", "rel", "mace_locality", 10000, 600000), ("mace", "san", "mace_cutoff", 600, 30000), ("mace", "rel", "mace_cutoff", 10000, 600000)],
    "C05": [("mace", "rel", "mace_history", 4000, 200000), ("mace", "san", "mace_history", 200, 20000), ("mace", "rel", "mace_stepwise", 6000, 300000), ("mace", "san", "mace_stepwise", 200, 15000)],
    "C18": [("mace", "rel", "mace_file_equivalence", 5000, 200000), ("mace", "san", "mace_file_errors", 5000, 100000), ("mace", "rel", "mace_file_errors", 30000, 1000000),
            ("kokkos", "rel", "kk_file_equivalence", 4000, 200000), ("kokkos", "rel", "kk_file_errors", 20000, 600000), ("kokkos", "san", "kk_file_errors", 2000, 60000)],
    "C06": [("kokkos", "rel", "kk_reference", 14000, 700000), ("kokkos", "rel", "kk_history", 5000, 250000), ("kokkos", "rel", "kk_cutoff", 6000, 300000), ("kokkos", "rel", "kk_stepwise", 4000, 250000),
            ("kokkos", "san", "kk_reference", 300, 15000), ("kokkos", "san", "kk_history", 120, 6000), ("kokkos", "san", "kk_stepwise", 120, 6000)],
    "C07": [("kokkos", "tsan", "kk_threads", 1200, 40000), ("kokkos", "tsan", "kk_poly_threads", 1500, 50000), ("kokkos", "tsan", "kk_spline_set", 600, 20000), ("kokkos", "tsan", "kk_radial", 600, 20000),
            ("kokkos", "tsan", "kk_mlp", 800, 25000), ("kokkos", "tsan", "kk_zbl", 600, 20000), ("kokkos", "tsan", "kk_history", 150, 6000), ("kokkos", "rel", "kk_reference", 8000, 400000)],
    "C22": [(("kokkos"), v, t, q if v == "rel" else q // 8, 40 * q if v == "rel" else 5 * q) for t, q in (("kk_spline", 60000), ("kk_spline_set", 40000), ("kk_radial", 40000), ("kk_mlp", 30000), ("kk_poly", 60000), ("kk_zbl", 60000)) for v in ("rel", "san")],
    "C08": [("pair", "rel", "pair_history", 6000, 300000), ("pair", "san", "pair_history", 500, 25000), ("pair", "rel", "pair_large", 1000, 60000), ("pair", "san", "pair_large", 100, 5000)],
    "C09": [("pairkk", "rel", "pairkk_history", 6000, 300000), ("pairkk", "san", "pairkk_history", 300, 15000), ("pairkk", "tsan", "pairkk_history", 300, 12000), ("pairkk", "rel", "pairkk_large", 500, 40000), ("pairkk", "san", "pairkk_large", 40, 2000), ("pairkk", "tsan", "pairkk_large", 40, 2000)],
    "C10": [("calc", "rel", "calc_history", 12000, 600000), ("calc", "rel", "calc_options", 6000, 300000), ("calc", "rel", "calc_supercell", 4000, 200000), ("calc", "san", "calc_history", 800, 30000), ("calc", "san", "calc_options", 500, 20000)],
    "C17": [("sh", "rel", "sh_angles", 800000, 8000000), ("sh", "rel", "sh_cartesian", 150000, 2000000), ("sh", "san", "sh_angles", 40000, 1000000), ("sh", "san", "sh_cartesian", 10000, 300000)],
    "C19": [("bind", "rel", "bind_components", 60000, 3000000), ("bind", "rel", "bind_functions", 20000, 500000), ("bind", "rel", "bind_evaluators", 2500, 200000),
            ("bind", "san", "bind_components", 8000, 300000), ("bind", "san", "bind_functions", 4000, 50000), ("bind", "san", "bind_evaluators", 500, 25000), ("bind", "rel", "bind_strided", 20, 20)],
    "C20": [("extract", "rel", "extract_energies", 900, 60000), ("extract", "rel", "extract_command", 250, 15000), ("extract", "rel", "extract_refuses", 1500, 60000), ("extract", "san", "extract_energies", 100, 5000)],
    "C21": [("pair", "rel", "pair_commands", 15000, 400000), ("pair", "san", "pair_commands", 1500, 60000), ("pairkk", "rel", "pairkk_commands", 12000, 400000), ("pairkk", "san", "pairkk_commands", 800, 30000)],
    "C23": [("parallel", "tsan", "par_components", 3000, 100000), ("parallel", "tsan", "par_evaluators", 800, 30000), ("parallel", "rel", "par_components", 20000, 1000000), ("parallel", "rel", "par_evaluators", 4000, 200000),
            ("parallel", "san", "par_components", 3000, 100000), ("parallel", "san", "par_evaluators", 400, 15000)],
    "C24": [("install", "rel", "install_histories", 300, 12000), ("install", "rel", "install_refuses", 1500, 20000)],
    "C11": [("components", "san", "spline_hermite", 200000, 2000000), ("components", "rel", "spline_hermite", 1500000, 12000000),
            ("components", "san", "spline_out_of_range", 60000, 500000), ("components", "rel", "spline_out_of_range", 300000, 2000000)],
    "C12": [("components", "san", "spline_set_matches_members", 60000, 600000), ("components", "rel", "spline_set_matches_members", 400000, 4000000)],
    "C13": [("components", "san", "mlp_histories", 8000, 250000), ("components", "rel", "mlp_histories", 40000, 1000000)],
    "C14": [("components", "san", "poly_histories", 12000, 300000), ("components", "rel", "poly_histories", 200000, 4000000)],
    "C15": [("components", "san", "zbl_pair", 150000, 2000000), ("components", "rel", "zbl_pair", 1500000, 10000000),
            ("components", "san", "zbl_accumulates", 100000, 1500000), ("components", "rel", "zbl_accumulates", 800000, 8000000)],
    "C16": [("components", "san", "tools_partitions", 1500, 30000), ("components", "rel", "tools_partitions", 12000, 200000),
            ("components", "san", "tools_enumerations", 40000, 1000000), ("components", "rel", "tools_enumerations", 300000, 3000000),
            ("components", "rel", "tools_binomial_large", 80, 600)],
}

COMMON_ASSUMPTIONS = [
    "g++ 13 builds of /repo's working tree: an -O1 address+undefined-behaviour-sanitizer build with a plain instrumented CBLAS, and an -O3 -ffast-math build (the project's flags, x86-64-v3) with OpenBLAS",
    "comparisons use stated floating-point tolerances; absence of violations outside the explored cases is not established",
]
ASSUMPTIONS = {}
