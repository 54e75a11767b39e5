"""Assembles self-contained demonstrations for planted bugs: copies of generator, model and stand-ins beside a demo.sh that builds them with /repo's sources."""
import os, shutil
V = "/verif"
SETS = {
    "mace": dict(own=["mace_tests.cpp", "mace_model.cpp"], hdr=["mace_model.hpp"], shim=["sphericart"], inc=[],
                 repo="cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl mace", pair=""),
    "pair": dict(own=["pair_tests.cpp", "mace_model.cpp"], hdr=["mace_model.hpp", "pair_common.hpp"], shim=["sphericart", "lammps"],
                 repo="cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl mace", pair="pair_symmetrix_mace"),
    "kokkos": dict(own=["kokkos_tests.cpp", "mace_model.cpp"], hdr=["mace_model.hpp", "gen_components.hpp", "ref_components.hpp"], shim=["sphericart", "kokkos"],
                 repo="cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl " + " ".join(x + "_kokkos" for x in "cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl radial_function_set mace".split()), pair=""),
    "pairkk": dict(own=["pairkk_tests.cpp", "mace_model.cpp"], hdr=["mace_model.hpp", "pair_common.hpp"], shim=["sphericart", "kokkos", "lammps"],
                 repo="cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl " + " ".join(x + "_kokkos" for x in "cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl radial_function_set mace".split()), pair="pair_symmetrix_mace_kokkos"),
    "bind": dict(own=["bind_tests.cpp", "mace_model.cpp"], hdr=["mace_model.hpp", "py_common.hpp", "gen_components.hpp", "ref_components.hpp"], shim=["sphericart", "kokkos"],
                 repo="mace spherical_harmonic cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl " + " ".join(x + "_kokkos" for x in "cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl radial_function_set mace".split()), pair="",
                 bind="symmetrix cubic_spline cubic_spline_set mace multilayer_perceptron multivariate_polynomial spherical_harmonic tools zbl cubic_spline_kokkos cubic_spline_set_kokkos mace_kokkos multilayer_perceptron_kokkos multivariate_polynomial_kokkos tools_kokkos zbl_kokkos",
                 flags=" -DSYMMETRIX_KOKKOS $(python3-config --includes)", libs="-lpython3.12 "),
    "parallel": dict(own=["parallel_tests.cpp", "mace_model.cpp"], hdr=["mace_model.hpp", "gen_components.hpp", "ref_components.hpp"], shim=["sphericart"],
                 repo="cubic_spline cubic_spline_set multilayer_perceptron multivariate_polynomial tools zbl mace spherical_harmonic", pair=""),
    "sh": dict(own=["sh_tests.cpp"], hdr=[], shim=["sphericart"], repo="spherical_harmonic", pair=""),
}
TEXT = r'''#!/bin/bash
# Builds @TARGET@ sources of the current tree with the stand-ins beside this file in a scratch directory and runs generated cases of @TEST@.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
root=$PWD
src="$root/libsymmetrix/source"
inc="-I$src -I$root/pair_symmetrix -I$here/h/cblas@INCS@ -I$here/h"
one() { g++ -std=gnu++20 -w $FLAGS $INC -c "$1" -o "$TMP/$2.o" || touch "$TMP/failed"; }
export -f one; export TMP="$tmp" INC="$inc" FLAGS="@FLAGS@"
{ for f in @REPO@; do echo "$src/$f.cpp lib_$f"; done
  for f in @PAIR@; do echo "$root/pair_symmetrix/$f.cpp pair_$f"; done
  for f in @BIND@; do echo "$root/symmetrix/source/cpp/$f.cpp bind_$f"; done
  for f in @OWN@ pbt_main.cpp@CBLAS@; do echo "$here/h/$f own_$f"; done; } | xargs -P 8 -L 1 bash -c 'one "$0" "$1"'
[ -e "$tmp/failed" ] && { echo "build failed"; exit 98; }
g++ $FLAGS "$tmp"/*.o -o "$tmp/run" @LIBS@ -lpthread || exit 97
mkdir "$tmp/work"; cd "$tmp/work"
export VERIF_REPO="$root" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
"$tmp/run" --prop @TEST@ --seed @SEED@ --cases @CASES@ --workers 4 --tmp "$tmp/work" --shrink 10
rc=$?
echo "demo: exit $rc"
exit $rc
'''
def put(id, target, test, cases, seed=3, flags="-O2 -march=x86-64-v3", tsan=False):
    t = SETS[target]; d = f"{V}/seeded/{id}"; h = f"{d}/h"
    shutil.rmtree(h, ignore_errors=True); os.makedirs(h)
    for f in t["own"] + t["hdr"]: shutil.copy(f"{V}/harness/{f}", h)
    for f in ("pbt.hpp", "pbt_main.cpp"): shutil.copy(f"{V}/engine/{f}", h)
    for s in t["shim"]: shutil.copytree(f"{V}/shim/{s}", f"{h}/{s}")
    shutil.copytree(f"{V}/shim/cblas/source", f"{h}/cblas"); 
    if os.path.exists(f"{V}/shim/cblas/external"): shutil.copytree(f"{V}/shim/cblas/external", f"{h}/external")
    cb = ""
    if tsan: flags = "-O1 -g1 -fsanitize=thread"; shutil.copy(f"{V}/shim/cblas/naive_cblas.cpp", h); cb = " naive_cblas.cpp"
    r = TEXT
    for k, v in dict(TARGET=target, TEST=test, SEED=seed, CASES=cases, FLAGS=flags + t.get("flags", ""), BIND=t.get("bind", ""), REPO=t["repo"], PAIR=t["pair"], OWN=" ".join(t["own"]), CBLAS=cb,
                     INCS="".join(f" -I$here/h/{s}" for s in t["shim"]), LIBS=t.get("libs", "") + ("" if tsan else "-lopenblas")).items(): r = r.replace(f"@{k}@", str(v))
    return r
