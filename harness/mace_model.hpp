// Synthetic MACE models (in the JSON format the evaluators load), atomic configurations, and a plain
// reference evaluation written from the model definition (no code shared with /repo).
#pragma once
#include <array>
#include <map>
#include <string>
#include <vector>
#include "pbt.hpp"

namespace mm {
using V3 = std::array<double, 3>;
using pbt::Bulk;
using pbt::Src;
using DV = std::vector<double>;

struct Model {
    int E, K, l_max, L_max, n;         // elements, channels, spline nodes
    double r_cut, h;
    std::vector<int> Z;
    DV E0;
    bool zbl;
    double zbl_a_exp, zbl_a_pre; DV zbl_c, zbl_cov; int zbl_p;
    std::vector<std::vector<DV>> v0, d0, v1, d1;   // [pair][spline][node]
    DV H0;
    std::vector<std::vector<DV>> A0w;               // [a][l][k'*K+k]
    bool A0s, A1s; std::vector<DV> A0v, A0d, A1v, A1d;
    int nA0, nA1; double hA0, hA1;
    std::vector<std::vector<std::vector<int>>> M0mon;   // [LM][term][vars]
    std::vector<std::vector<std::vector<DV>>> M0w;      // [a][LM][k][term]
    DV H1w;
    std::vector<int> pl, pl1, pl2;                      // paths
    std::vector<int> lme, lelm1lm2; DV cg;
    std::vector<DV> A1w;                                // [l]
    std::vector<std::vector<int>> M1mon;
    std::vector<std::vector<DV>> M1w;                   // [a][k][term]
    std::vector<DV> H2H1; DV H2M1, ro1, ro21, ro22; double ro2s;
    bool equivariant;
    int nLM() const { return (L_max + 1) * (L_max + 1); }
    int nlm() const { return (l_max + 1) * (l_max + 1); }
    int pair(int a, int b) const { if (a > b) std::swap(a, b); int c = 0; for (int i = 0; i < a; ++i) c += E - i; return c + (b - a); }
    std::string summary() const;
};

struct GenOpt {
    bool force_equivariant = false;
    bool zbl_inside_cut = true;   // ZBL range shorter than r_cut, so that the total is smooth at r_cut
    int max_K = 4, max_E = 4, max_l = 3, max_terms = 40;
    int zbl_percent = 35;
    double fixed_rcut = 0;
    bool big = true;              // now and then many channels or many elements
};
Model gen_model(Src& s, const GenOpt& o = {});
Model sibling(const Model& m, Src& s, std::string* what = nullptr);   // the same model but for one block of numbers, scaled
std::string to_json(const Model& m);                          // compact
std::string to_json_styled(const Model& m, Src& s);           // random key order, whitespace, extra keys, number formats
Model permute_elements(const Model& m, const std::vector<int>& p);   // new element a = old element p[a]
std::map<std::string, std::string> json_parts(const Model& m);       // top-level key -> value text

struct Graph {
    int N = 0;                        // nodes
    std::vector<int> type, num, idx, ntype;
    DV xyz, r;
    std::vector<int> src;             // owner of each edge
    std::vector<std::array<int, 3>> shift;
    int edges() const { return (int)r.size(); }
};
struct System {
    std::vector<int> type;
    std::vector<V3> pos;
    std::array<bool, 3> pbc{false, false, false};
    std::array<V3, 3> cell{};
    std::string text() const;
};
struct SysOpt { int max_atoms = 7; bool allow_pbc = true; int min_atoms = 1; double crowd = 1.0; bool big = true; };
System gen_system(Src& s, const Model& m, const SysOpt& o = {});
Graph build_graph(const System& y, double r_cut, int max_edges = 220);
Graph gen_free_graph(Src& s, const Model& m);                 // arbitrary directed graph, vectors unrelated to positions
// one small change in place (types, one vector, one distance, order, target or owner of an edge), or none; returns what it did
std::string perturb(Graph& g, const Model& m, Src& s);
std::string damaged_file(Src& s, pbt::Ctx& ctx);               // path of a model file with one kind of damage, described in ctx
Graph shuffle_edges(const Graph& g, Src& s, std::vector<int>* map = nullptr);

// Reference. dirs: up to 3 direction vectors over xyz.  Results are per node.
struct RefOut {
    DV e, em;                                  // energies and the magnitude of the sums behind them
    std::vector<std::array<double, 3>> d, dm;  // derivative of each node energy along each direction, and magnitude
    double sum_d(int k) const { double t = 0; for (auto& x : d) t += x[k]; return t; }
    double sum_dm(int k) const { double t = 0; for (auto& x : dm) t += x[k]; return t; }
};
RefOut reference(const Model& m, const Graph& g, const std::vector<DV>& dirs);
// exact -dE/dxyz per edge (E = sum of node energies), by repeated directional evaluation
DV reference_forces(const Model& m, const Graph& g, DV* mag = nullptr);
void ref_Y(int l_max, const double* xyz, double* Y);

std::string mem_file(const std::string& content);    // path usable with ifstream in this process
void rewrite_mem_file(const std::string& path, const std::string& content);   // the same file, other content
void drop_mem_files();
}  // namespace mm
