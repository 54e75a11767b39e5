#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; both outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "libsymmetrix/source/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


TECH, NA, LEVELNOTE = {}, {}, {}
GEN = "Counterexample search over generated inputs; a pass means no violation in the cases counted in the evidence. "

prop("C11", "A cubic spline is the C1 Hermite interpolant of its node data",
     "For every table of node values and derivatives on a uniform grid and every r inside the grid, evaluation returns the piecewise-cubic Hermite interpolant of that data and its exact derivative (also divided by r in the divided form), all evaluation forms agreeing with each other. Points at least one spacing below zero or beyond the last node are rejected with an error, and never change later results.",
     ["inputs"], "all grids (spacing, number of nodes), node data, evaluation points including nodes and interval ends, and orders of queries",
     "The tests use one 20-node table of one smooth function and a fixed list of points; the guarantee is over all tables, spacings and points, including node boundaries and rejected points.",
     [L + "cubic_spline.cpp", L + "cubic_spline.hpp", "symmetrix/source/cpp/cubic_spline.cpp"],
     [("coefficients built per interval from both ends' values and derivatives", "CubicSpline::generate_coefficients"), ("interval lookup and bounds check", "CubicSpline::evaluate, evaluate_deriv, evaluate_deriv_divided")],
     ["CubicSpline public methods"])
prop("C12", "A spline set equals the individual splines it was built from",
     "For every family of node tables on a common grid and every r inside the grid, evaluating the set writes, for each member in order, the value (and in the derivative form the exact derivative) of that member's own Hermite interpolant, overwriting whatever the output buffers held and touching nothing outside them.",
     ["inputs"], "all numbers of splines and nodes, spacings, data, evaluation points and prior buffer contents",
     "The tests use three smooth functions on one 20-node grid with zeroed buffers of exactly matching size.",
     [L + "cubic_spline_set.cpp", L + "cubic_spline_set.hpp", "symmetrix/source/cpp/cubic_spline_set.cpp"],
     [("interleaved coefficient layout [interval][power][spline]", "CubicSplineSet::CubicSplineSet"), ("evaluation loops", "CubicSplineSet::evaluate, evaluate_derivs")],
     ["CubicSplineSet public methods"])
prop("C13", "Network evaluation, Jacobian and batching agree for any call history",
     "For every layer shape, weights, activation scale and input, each evaluation form returns the value of the bias-free network with scaled SiLU hidden activations and a linear output layer, and its exact Jacobian in [row][output][input] order. The batched forms equal the row-by-row ones, and no result depends on which calls, with which batch sizes, were made before on the same object.",
     ["inputs", "histories"], "all shapes (including no hidden layer), weights, scales, inputs, batch sizes and sequences of calls on one object",
     "The tests sample three shapes with positive weights and inputs, a fresh object and one batch size; reuse of an object across calls of different forms and sizes is not exercised.",
     [L + "multilayer_perceptron.cpp", L + "multilayer_perceptron.hpp", "symmetrix/source/cpp/multilayer_perceptron.cpp"],
     [("layer buffers resized at each call", "MultilayerPerceptron::evaluate*"), ("back-propagation", "MultilayerPerceptron::evaluate_gradient, evaluate_gradient_batch")],
     ["MultilayerPerceptron public methods"],
     [("node_values, node_derivs, node_activation_derivs", "work arrays kept between calls", L + "multilayer_perceptron.hpp")])
prop("C14", "Graph evaluation of a polynomial equals the plain sum of its monomials",
     "For every polynomial given by distinct non-empty monomials (any number of variables, degrees, repeated variables, index order) and every point, the recursive, simple and batched evaluation forms all return the sum of coefficient times product of variables and its exact gradient. Results do not depend on earlier calls or batch sizes on the same object.",
     ["inputs", "histories"], "all monomial sets (hence all evaluation graphs and auxiliary nodes), coefficients, points including zeros and negatives, batch sizes, and call sequences",
     "The tests use three hand-written monomial lists at positive random points and one batch size; the shape of the evaluation graph, which is where errors hide, depends on the whole monomial set.",
     [L + "multivariate_polynomial.cpp", L + "multivariate_polynomial.hpp", "symmetrix/source/cpp/multivariate_polynomial.cpp"],
     [("node graph with auxiliary nodes so that every node is a product of two earlier ones", "MultivariatePolynomial constructor"), ("forward/backward passes", "forward_pass, backward_pass, batched_*")],
     ["MultivariatePolynomial public methods"],
     [("nodes, edges, node_coefficients", "evaluation graph", L + "multivariate_polynomial.hpp"), ("node_values, node_adjoints", "work arrays kept between calls", L + "multivariate_polynomial.hpp")])
prop("C15", "The ZBL repulsion follows its formula and vanishes at its cutoff",
     "For every parameter set, pair of elements and separation, the pair term is half the screened nuclear repulsion times the polynomial cutoff envelope, is the same with the two atoms exchanged, is exactly zero from the sum of the two covalent radii on, and its reported gradient is the exact derivative. Applied to a neighbour list it adds each pair term once to the owning atom's energy and minus its gradient along the pair vector to that pair's force, on top of what is already there.",
     ["inputs"], "all parameter sets, element pairs, separations on both sides of the cutoff, and neighbour lists (empty atoms, many elements, non-zero starting values)",
     "The tests evaluate one pair of elements at two distances with one exponent, and never the neighbour-list form.",
     [L + "zbl.cpp", L + "zbl.hpp", "symmetrix/source/cpp/zbl.cpp"],
     [("pair term and derivative", "ZBL::compute, compute_gradient"), ("cutoff envelope", "ZBL::compute_envelope, compute_envelope_gradient"), ("accumulation", "ZBL::compute_ZBL")],
     ["ZBL public methods"])
prop("C16", "Combinatorial helpers enumerate exactly the sets they name",
     "For every input, permutations, pair combinations, products, repeated products and index grids list each tuple exactly once in lexicographic (input) order; partitions and two-part partitions list every set partition (into any number of, respectively exactly two, non-empty blocks) of the positions exactly once; binomial coefficients and sums are exact.",
     ["inputs"], "all input lists (empty, duplicates, negatives), sizes and orders",
     "The tests compare only counts of partitions for lists 1..n and one instance each of the others.",
     [L + "tools.cpp", L + "tools.hpp", "symmetrix/source/cpp/tools.cpp"],
     [("enumeration loops", "tools.cpp")], ["free functions of tools.hpp / the Python module"])

exec(open(os.path.join(V, "lib", "props_more.py")).read()) if os.path.exists(os.path.join(V, "lib", "props_more.py")) else None

P.sort(key=lambda p: p["id"])
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "lib"))
import checks
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[], notes="Every check builds its own binaries from /repo's working tree under /verif/build; see DESIGN.md. No hooks in /repo are needed.")
for p in P:
    i = p["id"]
    if i in checks.CHECKS:
        man["checks"].append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json",
                                  technique=TECH.get(i, "property-based testing: generated inputs and call histories against a long-double reference model, with shrinking and replay"),
                                  level="exploration", level_note=LEVELNOTE.get(i, GEN + "Trusts the reference model and the stated tolerances.")))
    else:
        man["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not")
