#include "mace_model.hpp"
#include <cmath>
#include <cstdio>
#include <functional>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>

namespace mm {
using std::vector;

// ------------------------------------------------------------------ angular functions (e3nn convention)
template <class T> static void Yt(int lmax, const T& x, const T& y, const T& z, T* o) {   // x,y,z on the unit sphere
    o[0] = T(1.0);
    if (lmax >= 1) { const double c = std::sqrt(3.0); o[1] = c * x; o[2] = c * y; o[3] = c * z; }
    if (lmax >= 2) {
        const double c = std::sqrt(15.0), d = std::sqrt(5.0);
        o[4] = c * (x * z); o[5] = c * (x * y); o[6] = d * (y * y - 0.5 * (x * x + z * z)); o[7] = c * (y * z); o[8] = 0.5 * c * (z * z - x * x);
    }
    if (lmax >= 3) {
        const double a = std::sqrt(70.0) / 4, b = std::sqrt(105.0), c = std::sqrt(42.0) / 4, d = std::sqrt(7.0) / 2;
        o[9] = a * (x * (3.0 * (z * z) - x * x));
        o[10] = b * (x * y * z);
        o[11] = c * (x * (4.0 * (y * y) - x * x - z * z));
        o[12] = d * (y * (2.0 * (y * y) - 3.0 * (x * x) - 3.0 * (z * z)));
        o[13] = c * (z * (4.0 * (y * y) - x * x - z * z));
        o[14] = 0.5 * b * (y * (z * z - x * x));
        o[15] = a * (z * (z * z - 3.0 * (x * x)));
    }
}
void ref_Y(int l_max, const double* v, double* Y) {
    double r = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
    Yt<double>(l_max, v[0] / r, v[1] / r, v[2] / r, Y);
}

struct Gaunt {   // G[a][b][c] = mean over the sphere of Y_a Y_b Y_c, for l <= 3
    double g[16][16][16];
    Gaunt() {
        // Gauss-Legendre, 8 nodes (exact to degree 15), times 20 azimuths
        double xs[8], ws[8];
        for (int i = 0; i < 8; ++i) {
            double x = std::cos(M_PI * (i + 0.75) / 8.5);
            for (int it = 0; it < 100; ++it) {
                double p0 = 1, p1 = x;
                for (int k = 2; k <= 8; ++k) { double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
                double dp = 8 * (x * p1 - p0) / (x * x - 1);
                double dx = p1 / dp; x -= dx;
                ws[i] = 2 / ((1 - x * x) * dp * dp);
                if (std::fabs(dx) < 1e-16) break;
            }
            xs[i] = x;
        }
        for (auto& A : g) for (auto& B : A) for (auto& c : B) c = 0;
        for (int i = 0; i < 8; ++i)
            for (int j = 0; j < 20; ++j) {
                double ph = 2 * M_PI * (j + 0.3) / 20, st = std::sqrt(1 - xs[i] * xs[i]), Y[16];
                double v[3] = {st * std::cos(ph), xs[i], st * std::sin(ph)};
                ref_Y(3, v, Y);
                double w = ws[i] / 2 / 20;
                for (int a = 0; a < 16; ++a) for (int b = 0; b < 16; ++b) for (int c = 0; c < 16; ++c) g[a][b][c] += w * Y[a] * Y[b] * Y[c];
            }
        for (auto& A : g) for (auto& B : A) for (auto& c : B) if (std::fabs(c) < 1e-12) c = 0;
    }
};
static const Gaunt& gaunt() { static Gaunt g; return g; }
static bool couples(int a, int b, int c) { return (a + b + c) % 2 == 0 && c >= std::abs(a - b) && c <= a + b; }

// ------------------------------------------------------------------ generator
static void gen_spline(Bulk& b, int n, double h, DV& v, DV& d, double amp) {
    v.resize(n); d.resize(n);
    for (int i = 0; i < n; ++i) { v[i] = b.sym(amp); d[i] = b.sym(0.7 * amp / h); }
    v[n - 1] = 0; d[n - 1] = 0;
}
// mostly of order amp, sometimes much smaller or exactly zero: nothing may be dropped because it is small
static double scattered(Bulk& b, double amp) {
    double x = b.sym(amp), u = b.uni();
    return u < 0.02 ? 0 : u < 0.08 ? x * std::pow(10, -5 * b.uni()) : x;
}
static void gen_density(Bulk& b, int n, double h, DV& v, DV& d) {
    v.resize(n); d.resize(n);
    for (int i = 0; i < n; ++i) v[i] = 0.05 + 0.9 * b.uni();
    v[n - 1] = 0;
    for (int i = 0; i < n; ++i) { double m = v[i]; if (i) m = std::min(m, v[i - 1]); if (i + 1 < n) m = std::min(m, std::max(v[i + 1], 0.02)); d[i] = b.sym(m / h); }
    d[n - 1] = 0;
}

typedef std::map<vector<int>, double> Terms;   // sorted variables -> coefficient

// one equivariant path of given degree to (L): coefficient maps for each M
static vector<Terms> path_terms(int L, const vector<int>& ls, int l12) {
    const auto& G = gaunt().g;
    vector<Terms> out(2 * L + 1);
    auto rng = [](int l) { return std::make_pair(l * l, l * l + 2 * l + 1); };
    for (int M = 0; M < 2 * L + 1; ++M) {
        int LM = L * L + M;
        if (ls.size() == 1) out[M][{LM}] = 1.0;
        else if (ls.size() == 2) {
            for (int a = rng(ls[0]).first; a < rng(ls[0]).second; ++a) for (int b = rng(ls[1]).first; b < rng(ls[1]).second; ++b) {
                double c = G[a][b][LM]; if (c == 0) continue;
                out[M][{std::min(a, b), std::max(a, b)}] += c;
            }
        } else {
            for (int a = rng(ls[0]).first; a < rng(ls[0]).second; ++a) for (int b = rng(ls[1]).first; b < rng(ls[1]).second; ++b)
                for (int c = rng(ls[2]).first; c < rng(ls[2]).second; ++c) {
                    double t = 0;
                    for (int q = rng(l12).first; q < rng(l12).second; ++q) t += G[a][b][q] * G[q][c][LM];
                    if (std::fabs(t) < 1e-13) continue;
                    vector<int> k{a, b, c}; std::sort(k.begin(), k.end());
                    out[M][k] += t;
                }
        }
        for (auto it = out[M].begin(); it != out[M].end();) it = std::fabs(it->second) < 1e-12 ? out[M].erase(it) : std::next(it);
    }
    return out;
}
static void gen_equivariant_poly(Src& s, Bulk& b, int L, int l_max, int E, int K, int max_terms, vector<vector<vector<int>>>& mon /*[M]*/, vector<vector<vector<DV>>>& w /*[a][M][k]*/) {
    struct P { vector<int> ls; int l12; };
    vector<P> all1, all2, all3;
    if (L <= l_max) all1.push_back({{L}, 0});
    for (int a = 0; a <= l_max; ++a) for (int c = a; c <= l_max; ++c) {
        if (couples(a, c, L)) all2.push_back({{a, c}, 0});
        for (int q = 0; q <= 3; ++q) if (couples(a, c, q)) for (int d = c; d <= l_max; ++d) if (couples(q, d, L)) all3.push_back({{a, c, d}, q});
    }
    vector<P> use = all1;
    int n2 = all2.empty() ? 0 : s.integer(0, 2), n3 = all3.empty() ? 0 : s.integer(0, 2);
    for (int i = 0; i < n2; ++i) use.push_back(s.pick(all2));
    for (int i = 0; i < n3; ++i) use.push_back(s.pick(all3));
    if (use.empty()) use.push_back(!all2.empty() ? all2[0] : all3[0]);
    int nM = 2 * L + 1;
    mon.assign(nM, {}); w.assign(E, vector<vector<DV>>(nM, vector<DV>(K)));
    vector<std::map<vector<int>, vector<double>>> acc(nM);   // term -> coefficient per (a,k)
    for (auto& p : use) {
        auto t = path_terms(L, p.ls, p.l12);
        size_t tot = 0; for (auto& x : acc) tot = std::max(tot, x.size());
        if ((int)tot > max_terms) break;
        vector<double> pw(E * K); double amp = p.ls.size() == 1 ? 0.8 : p.ls.size() == 2 ? 0.4 : 0.25;
        for (auto& x : pw) x = scattered(b, amp);
        for (int M = 0; M < nM; ++M) for (auto& [k, c] : t[M]) { auto& v = acc[M][k]; v.resize(E * K); for (int q = 0; q < E * K; ++q) v[q] += c * pw[q]; }
    }
    for (int M = 0; M < nM; ++M) {
        vector<vector<int>> keys; for (auto& kv : acc[M]) keys.push_back(kv.first);
        // a random but deterministic order (files need not be sorted)
        for (int i = (int)keys.size() - 1; i > 0; --i) std::swap(keys[i], keys[b.integer(0, i)]);
        mon[M] = keys;
        for (int a = 0; a < E; ++a) for (int k = 0; k < K; ++k) for (auto& key : keys) w[a][M][k].push_back(acc[M][key][a * K + k]);
    }
}
static void gen_free_poly(Src& s, Bulk& b, int nvar, int E, int K, int max_terms, vector<vector<int>>& mon, vector<vector<DV>>& w /*[a][k]*/) {
    int nt = s.integer(1, std::min(max_terms, 14)), top = s.integer(0, 9) == 9 ? 5 : 3;
    std::set<vector<int>> seen; mon.clear();
    for (int i = 0; i < nt; ++i) {
        int deg = b.integer(1, top); vector<int> v;
        for (int j = 0; j < deg; ++j) v.push_back(b.integer(0, nvar - 1));
        std::sort(v.begin(), v.end());
        if (seen.insert(v).second) mon.push_back(v);
    }
    w.assign(E, vector<DV>(K));
    for (auto& a : w) for (auto& k : a) for (auto& t : mon) k.push_back(scattered(b, t.size() == 1 ? 0.8 : t.size() == 2 ? 0.4 : t.size() == 3 ? 0.25 : 0.1));
}

Model gen_model(Src& s, const GenOpt& o) {
    Model m;
    m.E = s.integer(1, o.max_E); m.K = s.integer(1, o.max_K);
    int top_l = o.max_l;
    if (o.big && o.max_K >= 4 && s.integer(0, 149) == 149) {   // the size of published models in one respect
        if (s.boolean()) { m.K = s.integer(71, 200); m.E = 1; } else { m.E = s.integer(13, 89); m.K = 1; }
        top_l = std::min(top_l, 1);
    } else if (o.big && o.max_K >= 3) {
        int u = s.integer(0, 59);
        if (u >= 58) { m.K = s.integer(20, 70); m.E = std::min(m.E, 2); } else if (u >= 55) { m.K = s.integer(5, 20); m.E = std::min(m.E, 3); }
        else if (u >= 53) { m.E = s.integer(5, 12); m.K = std::min(m.K, 2); }
    }
    m.l_max = s.chance(60) ? std::min(3, top_l) : s.integer(0, top_l);
    m.L_max = s.integer(0, std::min(2, m.l_max)); if (m.l_max == 3 && m.L_max == 2 && s.integer(0, 7) == 7) m.L_max = 3;
    m.n = s.sized(3, m.E > 12 ? 6 : 14); if (m.K <= 3 && m.E <= 3 && s.integer(0, 59) == 59) m.n = s.integer(15, 300);
    m.r_cut = o.fixed_rcut ? o.fixed_rcut : s.real(2.0, 6.0);
    m.h = (m.r_cut - 1e-12) / (m.n - 1);
    m.equivariant = o.force_equivariant || s.chance(40);
    m.zbl = s.chance(o.zbl_percent);
    m.A0s = s.chance(40); m.A1s = s.chance(40);
    m.nA0 = s.chance(70) ? m.n : s.sized(3, 14); m.hA0 = (m.r_cut - 1e-12) / (m.nA0 - 1);
    m.nA1 = s.chance(70) ? m.n : s.sized(3, 14); m.hA1 = (m.r_cut - 1e-12) / (m.nA1 - 1);
    Bulk b(s.bulk_seed());
    { std::set<int> z; while ((int)z.size() < m.E) z.insert(b.integer(1, 94)); m.Z.assign(z.begin(), z.end()); }
    if (s.chance(30)) for (int i = m.E - 1; i > 0; --i) std::swap(m.Z[i], m.Z[b.integer(0, i)]);
    for (int i = 0; i < m.E; ++i) m.E0.push_back(b.sym(5));
    m.zbl_a_exp = 0.2 + 0.15 * b.uni(); m.zbl_a_pre = 0.3 + b.uni(); m.zbl_p = b.integer(3, 7);
    for (double c : {0.18, 0.51, 0.28, 0.03}) m.zbl_c.push_back(c * (0.5 + b.uni()));
    double covmax = o.zbl_inside_cut ? 0.45 * m.r_cut : 0.7 * m.r_cut;
    for (int i = 0; i < 119; ++i) m.zbl_cov.push_back(covmax * (0.3 + 0.7 * b.uni()));
    const int NP = m.E * (m.E + 1) / 2, K = m.K;
    m.v0.resize(NP); m.d0.resize(NP); m.v1.resize(NP); m.d1.resize(NP); m.A0v.resize(NP); m.A0d.resize(NP); m.A1v.resize(NP); m.A1d.resize(NP);
    // paths, grouped by l
    for (int l = 0; l <= m.l_max; ++l) {
        struct Q { int l1, l2; }; vector<Q> cand;
        for (int l2 = 0; l2 <= m.L_max; ++l2) for (int l1 = 0; l1 <= m.l_max; ++l1) if (couples(l1, l2, l) || (!m.equivariant && l1 + l2 <= 4)) cand.push_back({l1, l2});
        int cnt = s.integer(1, 3); bool any = false;
        for (auto& c : cand) {
            bool base = c.l1 == l && c.l2 == 0;
            if ((base && !any) || b.uni() * cand.size() < cnt) { m.pl.push_back(l); m.pl1.push_back(c.l1); m.pl2.push_back(c.l2); any = true; }
        }
    }
    // coupling coefficients in the order of the extraction tool (by lm1, lm2), or shuffled
    vector<int> numE(m.l_max + 1, 0); for (int l : m.pl) numE[l]++;
    vector<int> off, epos; { int o2 = 0; vector<int> c(m.l_max + 1, 0); for (size_t p = 0; p < m.pl.size(); ++p) { off.push_back(o2); o2 += (2 * m.pl1[p] + 1) * (2 * m.pl2[p] + 1); epos.push_back(c[m.pl[p]]++); } }
    vector<int> loff(m.l_max + 1, 0); for (int l = 1; l <= m.l_max; ++l) loff[l] = loff[l - 1] + (2 * l - 1) * numE[l - 1];
    const auto& G = gaunt().g;
    struct C { int lme, q; double c; }; vector<C> cs;
    for (size_t p = 0; p < m.pl.size(); ++p) {
        const double scale = std::pow(10, b.uni() < 0.2 ? -3 * b.uni() : 0.6 * b.uni() - 0.5);
        for (int m1 = 0; m1 <= 2 * m.pl1[p]; ++m1) for (int m2 = 0; m2 <= 2 * m.pl2[p]; ++m2) for (int M = 0; M <= 2 * m.pl[p]; ++M) {
            double c;
            if (m.equivariant) c = scale * G[m.pl1[p] * m.pl1[p] + m1][m.pl2[p] * m.pl2[p] + m2][m.pl[p] * m.pl[p] + M];
            else c = b.uni() < 0.25 ? scattered(b, 0.6) : 0;
            if (c != 0) cs.push_back({loff[m.pl[p]] + M * numE[m.pl[p]] + epos[p], off[p] + m1 * (2 * m.pl2[p] + 1) + m2, c});
        }
    }
    if (cs.empty()) cs.push_back({0, 0, 0.5});
    for (int i = (int)cs.size() - 1; i > 0; --i) std::swap(cs[i], cs[b.integer(0, i)]);
    for (auto& c : cs) { m.lme.push_back(c.lme); m.lelm1lm2.push_back(c.q); m.cg.push_back(c.c); }
    for (int p = 0; p < NP; ++p) {
        for (int i = 0; i < (m.l_max + 1) * K; ++i) { m.v0[p].emplace_back(); m.d0[p].emplace_back(); gen_spline(b, m.n, m.h, m.v0[p].back(), m.d0[p].back(), 0.9); }
        for (size_t i = 0; i < m.pl.size() * K; ++i) { m.v1[p].emplace_back(); m.d1[p].emplace_back(); gen_spline(b, m.n, m.h, m.v1[p].back(), m.d1[p].back(), 0.9); }
        gen_density(b, m.nA0, m.hA0, m.A0v[p], m.A0d[p]); gen_density(b, m.nA1, m.hA1, m.A1v[p], m.A1d[p]);
    }
    double sk = 1 / std::sqrt((double)K);
    for (int i = 0; i < m.E * K; ++i) m.H0.push_back(scattered(b, 1.2));
    m.A0w.resize(m.E); for (auto& a : m.A0w) { a.resize(m.l_max + 1); for (auto& l : a) for (int i = 0; i < K * K; ++i) l.push_back(b.sym(0.8 * sk)); }
    m.M0mon.resize(m.nLM()); m.M0w.assign(m.E, vector<vector<DV>>(m.nLM(), vector<DV>(K)));
    for (int L = 0; L <= m.L_max; ++L) {
        if (m.equivariant) {
            vector<vector<vector<int>>> mon; vector<vector<vector<DV>>> w;
            gen_equivariant_poly(s, b, L, m.l_max, m.E, K, o.max_terms, mon, w);
            for (int M = 0; M <= 2 * L; ++M) { m.M0mon[L * L + M] = mon[M]; for (int a = 0; a < m.E; ++a) m.M0w[a][L * L + M] = w[a][M]; }
        } else
            for (int M = 0; M <= 2 * L; ++M) {
                vector<vector<DV>> w; gen_free_poly(s, b, m.nlm(), m.E, K, o.max_terms, m.M0mon[L * L + M], w);
                for (int a = 0; a < m.E; ++a) m.M0w[a][L * L + M] = w[a];
            }
    }
    for (int i = 0; i < (m.L_max + 1) * K * K; ++i) m.H1w.push_back(b.sym(sk));
    m.A1w.resize(m.l_max + 1); for (int l = 0; l <= m.l_max; ++l) for (int i = 0; i < numE[l] * K * K; ++i) m.A1w[l].push_back(b.sym(0.7 * sk));
    if (m.equivariant) {
        vector<vector<vector<int>>> mon; vector<vector<vector<DV>>> w;
        gen_equivariant_poly(s, b, 0, m.l_max, m.E, K, o.max_terms, mon, w);
        m.M1mon = mon[0]; m.M1w.assign(m.E, vector<DV>(K)); for (int a = 0; a < m.E; ++a) m.M1w[a] = w[a][0];
    } else gen_free_poly(s, b, m.nlm(), m.E, K, o.max_terms, m.M1mon, m.M1w);
    m.H2H1.resize(m.E); for (auto& a : m.H2H1) for (int i = 0; i < K * K; ++i) a.push_back(b.sym(sk));
    for (int i = 0; i < K * K; ++i) m.H2M1.push_back(b.sym(sk));
    for (int i = 0; i < K; ++i) m.ro1.push_back(b.sym(1));
    for (int i = 0; i < 16 * K; ++i) m.ro21.push_back(b.sym(1));
    for (int i = 0; i < 16; ++i) m.ro22.push_back(b.sym(0.7));
    m.ro2s = 0.5 + 1.5 * b.uni();
    return m;
}
std::string Model::summary() const {
    return pbt::str("model{E=", E, " K=", K, " l_max=", l_max, " L_max=", L_max, " nodes=", n, " r_cut=", r_cut, " zbl=", zbl, " A0_scaled=", A0s, " A1_scaled=", A1s, equivariant ? " equivariant" : " free", " paths=", pl.size(),
                    " terms=", M0mon[0].size(), "/", M1mon.size(), " Z=", pbt::vec(Z), "}");
}

// ------------------------------------------------------------------ JSON
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); std::string s = b; if (s.find_first_of(".eEn") == std::string::npos) s += ".0"; return s; }
static std::string js(int x) { return std::to_string(x); }
static std::string js(double x) { return num(x); }
static std::string js(bool x) { return x ? "true" : "false"; }
template <class T> static std::string js(const vector<T>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += js(v[i]); } return o + "]"; }
template <class T> static std::string jmap(const vector<T>& v, std::function<std::string(const T&)> f) { std::string o = "{"; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += "\"" + std::to_string(i) + "\":" + f(v[i]); } return o + "}"; }
std::map<std::string, std::string> json_parts(const Model& m) {
    std::map<std::string, std::string> p;
    p["num_elements"] = js(m.E); p["num_channels"] = js(m.K); p["r_cut"] = js(m.r_cut); p["l_max"] = js(m.l_max); p["L_max"] = js(m.L_max);
    p["atomic_numbers"] = js(m.Z); p["atomic_energies"] = js(m.E0); p["has_zbl"] = js(m.zbl);
    if (m.zbl) { p["zbl_a_exp"] = js(m.zbl_a_exp); p["zbl_a_prefactor"] = js(m.zbl_a_pre); p["zbl_c"] = js(m.zbl_c); p["zbl_covalent_radii"] = js(m.zbl_cov); p["zbl_p"] = js(m.zbl_p); }
    p["radial_spline_h"] = js(m.h);
    p["radial_spline_values_0"] = js(m.v0); p["radial_spline_derivs_0"] = js(m.d0); p["radial_spline_values_1"] = js(m.v1); p["radial_spline_derivs_1"] = js(m.d1);
    p["H0_weights"] = js(m.H0); p["A0_weights"] = js(m.A0w); p["A0_scaled"] = js(m.A0s);
    if (m.A0s) { p["A0_spline_h"] = js(m.hA0); p["A0_spline_values"] = js(m.A0v); p["A0_spline_derivs"] = js(m.A0d); }
    p["M0_weights"] = jmap<vector<vector<DV>>>(m.M0w, [](const vector<vector<DV>>& a) { return jmap<vector<DV>>(a, [](const vector<DV>& b) { return jmap<DV>(b, [](const DV& c) { return js(c); }); }); });
    p["M0_monomials"] = jmap<vector<vector<int>>>(m.M0mon, [](const vector<vector<int>>& a) { return js(a); });
    p["H1_weights"] = js(m.H1w);
    p["Phi1_l"] = js(m.pl); p["Phi1_l1"] = js(m.pl1); p["Phi1_l2"] = js(m.pl2); p["Phi1_lme"] = js(m.lme); p["Phi1_clebsch_gordan"] = js(m.cg); p["Phi1_lelm1lm2"] = js(m.lelm1lm2);
    p["A1_weights"] = js(m.A1w); p["A1_scaled"] = js(m.A1s);
    if (m.A1s) { p["A1_spline_h"] = js(m.hA1); p["A1_spline_values"] = js(m.A1v); p["A1_spline_derivs"] = js(m.A1d); }
    p["M1_weights"] = jmap<vector<DV>>(m.M1w, [](const vector<DV>& b) { return jmap<DV>(b, [](const DV& c) { return js(c); }); });
    p["M1_monomials"] = js(m.M1mon);
    p["H2_weights_for_H1"] = js(m.H2H1); p["H2_weights_for_M1"] = js(m.H2M1); p["readout_1_weights"] = js(m.ro1);
    p["readout_2_weights_1"] = js(m.ro21); p["readout_2_weights_2"] = js(m.ro22); p["readout_2_scale_factor"] = js(m.ro2s);
    return p;
}
std::string to_json(const Model& m) { std::string o = "{"; bool f = true; for (auto& [k, v] : json_parts(m)) { if (!f) o += ","; f = false; o += "\"" + k + "\":" + v; } return o + "}"; }
std::string to_json_styled(const Model& m, Src& s) {
    auto p = json_parts(m);
    vector<std::string> keys; for (auto& kv : p) keys.push_back(kv.first);
    auto perm = s.permutation((int)keys.size());
    int ws = s.integer(0, 3); bool extra = s.boolean(); bool expo = s.boolean();
    std::string nl = ws == 0 ? "" : ws == 1 ? " " : ws == 2 ? "\n    " : "\r\n\t";
    auto pretty = [&](const std::string& v) {
        std::string o;
        for (size_t i = 0; i < v.size(); ++i) {
            char c = v[i];
            if (expo && (isdigit(c) || c == '-') && (i == 0 || strchr("[,:", v[i - 1]))) {   // re-spell floating literals
                size_t j = i; while (j < v.size() && strchr("0123456789+-.eE", v[j])) ++j;
                std::string t = v.substr(i, j - i);
                if (t.find('.') != std::string::npos) { char b[48]; snprintf(b, sizeof b, "%.18e", atof(t.c_str())); t = b; }
                o += t; i = j - 1; continue;
            }
            o += c;
            if (ws && (c == ',' || c == ':' || c == '[' || c == '{')) o += ws == 3 && c == ',' ? nl : " ";
        }
        return o;
    };
    std::string o = (ws ? nl : "") + "{";
    if (extra) o += "\"_comment\":\"a } ] \\\" note\",";
    for (size_t i = 0; i < keys.size(); ++i) {
        if (i) o += ",";
        if (extra && i == keys.size() / 2) o += "\"unused\":{\"a\":[1,2,{}],\"b\":null},";
        o += nl + "\"" + keys[perm[i]] + "\"" + (ws ? " : " : ":") + pretty(p[keys[perm[i]]]);
    }
    return o + nl + "}" + (ws ? "\n" : "");
}
Model permute_elements(const Model& m, const vector<int>& p) {
    Model q = m;
    for (int a = 0; a < m.E; ++a) {
        q.Z[a] = m.Z[p[a]]; q.E0[a] = m.E0[p[a]]; q.A0w[a] = m.A0w[p[a]]; q.M0w[a] = m.M0w[p[a]]; q.M1w[a] = m.M1w[p[a]]; q.H2H1[a] = m.H2H1[p[a]];
        for (int k = 0; k < m.K; ++k) q.H0[a * m.K + k] = m.H0[p[a] * m.K + k];
        for (int b = a; b < m.E; ++b) {
            int n = q.pair(a, b), o = m.pair(p[a], p[b]);
            q.v0[n] = m.v0[o]; q.d0[n] = m.d0[o]; q.v1[n] = m.v1[o]; q.d1[n] = m.d1[o]; q.A0v[n] = m.A0v[o]; q.A0d[n] = m.A0d[o]; q.A1v[n] = m.A1v[o]; q.A1d[n] = m.A1d[o];
        }
    }
    return q;
}

// ------------------------------------------------------------------ configurations
System gen_system(Src& s, const Model& m, const SysOpt& o) {
    System y;
    int N = s.sized(o.min_atoms, o.max_atoms);
    if (o.big && o.max_atoms >= 5 && m.K <= 3 && s.integer(0, 59) == 59) N = s.integer(8, 20);
    bool sparse = o.big && o.max_atoms >= 5 && m.K <= 3 && s.integer(0, 119) == 119;   // many atoms with few neighbours each
    if (sparse) N = s.integer(25, 90);
    double g = m.r_cut * (sparse ? s.real(0.9, 1.25) : s.chance(75) ? s.real(0.35, 0.75) : s.real(0.5, 1.15)) / o.crowd;
    int span = sparse ? 4 : N <= 2 ? 1 : N <= 6 && s.chance(60) ? 1 : 2;
    double jit = s.chance(75) ? s.real(0, 0.32) : 0;
    bool per = o.allow_pbc && s.chance(45);
    if (per) {
        int k = s.integer(1, 7); for (int d = 0; d < 3; ++d) y.pbc[d] = k >> d & 1;
        for (int d = 0; d < 3; ++d) {
            double L = std::max(g, 0.45 * m.r_cut) * (sparse ? 5 : s.integer(1, 3));
            y.cell[d] = {0, 0, 0}; y.cell[d][d] = L;
            if (s.chance(40)) for (int e = 0; e < 3; ++e) if (e != d) y.cell[d][e] = L * s.sym(0.25);
        }
        g = std::max(g, 0.45 * m.r_cut);
    }
    std::set<std::array<int, 3>> used;
    for (int i = 0; i < N; ++i) {
        std::array<int, 3> c{};
        int tries = 0;
        do { for (int d = 0; d < 3; ++d) c[d] = (i == 0) ? 0 : s.integer(0, span); } while (used.count(c) && ++tries < 6);
        if (used.count(c)) continue;
        used.insert(c);
        V3 p; for (int d = 0; d < 3; ++d) p[d] = g * (c[d] + (jit ? s.sym(jit) : 0));
        y.pos.push_back(p); y.type.push_back(s.integer(0, m.E - 1));
    }
    if (s.chance(25)) {   // far from the origin
        double sh = s.sym(50); for (auto& p : y.pos) for (auto& x : p) x += sh;
    }
    return y;
}
std::string System::text() const {
    std::string o = "atoms[";
    for (size_t i = 0; i < pos.size(); ++i) o += pbt::str(i ? " " : "", type[i], ":(", pos[i][0], ",", pos[i][1], ",", pos[i][2], ")");
    o += "]";
    if (pbc[0] || pbc[1] || pbc[2]) { o += pbt::str(" pbc=", pbc[0], pbc[1], pbc[2], " cell="); for (auto& c : cell) o += pbt::str("(", c[0], ",", c[1], ",", c[2], ")"); }
    return o;
}
Graph build_graph(const System& y, double r_cut, int max_edges) {
    Graph g; g.N = (int)y.pos.size(); g.type = y.type;
    int R[3];
    for (int d = 0; d < 3; ++d) {
        R[d] = 0;
        if (y.pbc[d]) {   // images needed: r_cut over the height of the cell along d, plus the spread of the atoms
            const V3 &a = y.cell[(d + 1) % 3], &b = y.cell[(d + 2) % 3];
            V3 n{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
            double nn = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
            double ht = std::fabs(n[0] * y.cell[d][0] + n[1] * y.cell[d][1] + n[2] * y.cell[d][2]) / nn, lo = 1e300, hi = -1e300;
            for (auto& p : y.pos) { double t = (p[0] * n[0] + p[1] * n[1] + p[2] * n[2]) / nn; lo = std::min(lo, t); hi = std::max(hi, t); }
            if (ht < 0.2 * r_cut) throw pbt::Discard{};
            R[d] = (int)std::ceil((r_cut + (y.pos.empty() ? 0 : hi - lo)) / ht) + 1;
        }
    }
    for (int i = 0; i < g.N; ++i) {
        int c = 0;
        for (int j = 0; j < g.N; ++j)
            for (int a = -R[0]; a <= R[0]; ++a) for (int b = -R[1]; b <= R[1]; ++b) for (int k = -R[2]; k <= R[2]; ++k) {
                if (i == j && a == 0 && b == 0 && k == 0) continue;
                V3 v; double rr = 0;
                for (int d = 0; d < 3; ++d) { v[d] = y.pos[j][d] - y.pos[i][d] + a * y.cell[0][d] + b * y.cell[1][d] + k * y.cell[2][d]; rr += v[d] * v[d]; }
                rr = std::sqrt(rr);
                if (rr >= r_cut - 1e-9) { if (rr < r_cut + 1e-9) throw pbt::Discard{}; continue; }
                if (rr < 0.12 * r_cut) throw pbt::Discard{};
                for (int d = 0; d < 3; ++d) g.xyz.push_back(v[d]);
                g.r.push_back(rr); g.idx.push_back(j); g.ntype.push_back(y.type[j]); g.src.push_back(i); g.shift.push_back({a, b, k}); ++c;
            }
        g.num.push_back(c);
    }
    if (g.edges() > max_edges) throw pbt::Discard{};
    return g;
}
Graph gen_free_graph(Src& s, const Model& m) {
    Graph g; g.N = s.sized(1, 6);
    int big = m.K <= 4 ? s.integer(0, 119) : 0, hub = -1;   // now and then one atom with very many neighbours, or many atoms
    if (big == 118) hub = s.integer(0, g.N - 1); else if (big == 119) g.N = s.integer(20, 150); else if (big == 117 && m.K <= 2 && m.E <= 12) g.N = s.integer(120, 400);
    for (int i = 0; i < g.N; ++i) g.type.push_back(s.integer(0, m.E - 1));
    for (int i = 0; i < g.N; ++i) {
        g.num.push_back(i == hub ? s.integer(20, 150) : s.sized(0, big == 119 ? 3 : 7));
        for (int j = 0; j < g.num[i]; ++j) {
            int k = s.integer(0, g.N - 1); g.idx.push_back(k); g.ntype.push_back(g.type[k]); g.src.push_back(i); g.shift.push_back({0, 0, 0});
            double r = m.r_cut * s.real(0.13, 0.999), v[3];
            int special = s.integer(0, 15);   // close to the cutoff, or unusually short
            if (special == 15) r = m.r_cut * (1 - std::pow(10.0, -s.real(1, 8)));
            else if (special == 14) r = m.r_cut * std::pow(10.0, -s.real(0.7, 2));
            if (s.chance(20)) { int ax = s.integer(0, 2); bool ng = s.boolean(); for (int d = 0; d < 3; ++d) v[d] = d == ax ? (ng ? -r : r) : 0; }
            else { double cz = s.real(-1, 1), ph = s.real(0, 6.2831853), sz = std::sqrt(1 - cz * cz); v[0] = r * sz * std::cos(ph); v[1] = r * sz * std::sin(ph); v[2] = r * cz; }
            g.xyz.insert(g.xyz.end(), v, v + 3); g.r.push_back(std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]));
            if (g.r.back() >= m.r_cut - 1e-9) throw pbt::Discard{};
        }
    }
    return g;
}
Model sibling(const Model& m0, Src& s, std::string* what) {
    Model m = m0; double f = s.pick(std::vector<double>{0.5, 1.25, -1.0, 1.001}); int k = s.integer(0, 14); std::string w;
    auto mul = [&](auto& self, auto& v) -> void { if constexpr (std::is_arithmetic_v<std::decay_t<decltype(v)>>) v *= f; else for (auto& x : v) self(self, x); };
    auto all = [&](const char* n, auto&... v) { w = n; (mul(mul, v), ...); };
    switch (k) {
    case 0: all("reference energies", m.E0); break;
    case 1: all("first radial splines", m.v0, m.d0); break;
    case 2: all("second radial splines", m.v1, m.d1); break;
    case 3: all("H0", m.H0); break;
    case 4: all("A0", m.A0w); break;
    case 5: all("M0", m.M0w); break;
    case 6: all("H1", m.H1w); break;
    case 7: all("coupling coefficients", m.cg); break;
    case 8: all("A1", m.A1w); break;
    case 9: all("M1", m.M1w); break;
    case 10: all("H2 of H1", m.H2H1); break;
    case 11: all("H2 of M1", m.H2M1); break;
    case 12: all("first readout", m.ro1); break;
    case 13: all("second readout, output", m.ro22); break;
    default: all("second readout, input", m.ro21);
    }
    if (what) *what = pbt::str(w, " scaled by ", f);
    return m;
}
std::string perturb(Graph& g, const Model& m, Src& s) {
    int k = s.integer(0, 6), E = g.edges();
    if (k == 0 || E == 0) { if (!g.N || k > 3) return "unchanged"; int i = s.integer(0, g.N - 1); g.type[i] = s.integer(0, m.E - 1); for (int e = 0; e < E; ++e) if (g.idx[e] == i) g.ntype[e] = g.type[i]; return "retyped"; }
    int e = s.integer(0, E - 1);
    if (k == 1) { int d = s.integer(0, 2); g.xyz[3 * e + d] = -g.xyz[3 * e + d]; return "one vector reflected"; }
    if (k == 2) { double f = s.real(0.8, 1.0); g.r[e] *= f; for (int d = 0; d < 3; ++d) g.xyz[3 * e + d] *= f; return "one distance shortened"; }
    if (k == 3 && E > 1) { int h = e + 1 < E ? e + 1 : e - 1; if (g.src[h] == g.src[e]) { std::swap(g.r[e], g.r[h]); std::swap(g.idx[e], g.idx[h]); std::swap(g.ntype[e], g.ntype[h]); for (int d = 0; d < 3; ++d) std::swap(g.xyz[3 * e + d], g.xyz[3 * h + d]); if (g.shift.size() == g.r.size()) std::swap(g.shift[e], g.shift[h]); return "two neighbours exchanged"; } }
    if (k == 4) { int j = s.integer(0, g.N - 1); g.idx[e] = j; g.ntype[e] = g.type[j]; return "one neighbour replaced"; }
    if (k == 5 && g.N > 1) { int a = 0; for (int i = 0; i + 1 < g.N; ++i) { a += g.num[i]; if (g.num[i] > 0 && s.boolean()) { --g.num[i]; ++g.num[i + 1]; g.src[a - 1] = i + 1; return "one edge given to the next node"; } } }
    return "unchanged";
}
std::string damaged_file(Src& s, pbt::Ctx& ctx) {
    Model m = gen_model(s, {.max_K = 2, .max_E = 2}); auto parts = json_parts(m);
    std::string txt = to_json(m), path; int kind = s.integer(0, 5);
    if (kind == 0) { size_t cut = s.raw(txt.size() - 1); path = mem_file(txt.substr(0, cut)); ctx.describe("cut at byte ", cut, " of ", txt.size()); ctx.label("cut"); }
    else if (kind == 5) {   // an entry inside one of the tables of polynomials
        std::string k = s.pick(vector<std::string>{"M0_weights", "M0_monomials", "M1_weights"}), &t = parts[k]; vector<size_t> at;
        for (size_t q = 0; (q = t.find("\":", q)) != std::string::npos; ++q) at.push_back(t.rfind('"', q - 1));
        size_t q = at[s.integer(0, (int)at.size() - 1)]; ctx.describe("entry ", t.substr(q, 4), " of ", k, " at ", q, " removed"); ctx.label("inner key removed"); t.insert(q + 1, "not ");
        std::string o = "{"; bool f = true; for (auto& [a, b] : parts) { if (!f) o += ","; f = false; o += "\"" + a + "\":" + b; }
        path = mem_file(o + "}");
    } else if (kind == 1 || kind == 2) {
        vector<std::string> keys; for (auto& kv : parts) keys.push_back(kv.first);
        std::string k = s.pick(keys);
        if (kind == 1) { parts.erase(k); ctx.label("key removed"); }
        else { static const vector<std::string> junk{"\"text\"", "null", "{}"}; parts[k] = s.pick(junk); ctx.label("wrong kind"); }
        ctx.describe("key ", k, kind == 1 ? " removed" : " = ", kind == 1 ? "" : parts[k]);
        std::string o = "{"; bool f = true; for (auto& [a, b] : parts) { if (!f) o += ","; f = false; o += "\"" + a + "\":" + b; }
        path = mem_file(o + "}");
    } else if (kind == 3) { path = "/nonexistent/dir/model" + std::to_string(s.raw(9)) + ".json"; ctx.describe("missing file"); ctx.label("missing"); }
    else { Bulk b(s.bulk_seed()); std::string o; int n = s.integer(0, 40); for (int i = 0; i < n; ++i) o += (char)b.integer(0, 255); path = mem_file("\x80" + o); ctx.describe("binary file of ", n + 1, " bytes"); ctx.label("binary"); }
    return path;
}
Graph shuffle_edges(const Graph& g, Src& s, vector<int>* map) {
    Graph o = g; int base = 0; if (map) map->assign(g.edges(), 0);
    for (int i = 0; i < g.N; ++i) {
        auto p = s.permutation(g.num[i]);
        for (int j = 0; j < g.num[i]; ++j) {
            int a = base + j, b = base + p[j];
            o.idx[a] = g.idx[b]; o.ntype[a] = g.ntype[b]; o.r[a] = g.r[b]; o.shift[a] = g.shift[b];
            for (int d = 0; d < 3; ++d) o.xyz[3 * a + d] = g.xyz[3 * b + d];
            if (map) (*map)[a] = b;
        }
        base += g.num[i];
    }
    return o;
}

// ------------------------------------------------------------------ reference
// value and three directional derivatives, each with a running first-order rounding-error bound in units of the
// unit roundoff (m for the value, e[k] for the derivatives; m >= |v|, e >= |d|)
struct D {
    double v, m, d[3], e[3];
    D(double x = 0) : v(x), m(std::fabs(x)), d{0, 0, 0}, e{0, 0, 0} {}
};
using std::fabs;
static inline D operator+(const D& a, const D& b) { D o; o.v = a.v + b.v; o.m = a.m + b.m; for (int k = 0; k < 3; ++k) { o.d[k] = a.d[k] + b.d[k]; o.e[k] = a.e[k] + b.e[k]; } return o; }
static inline D operator-(const D& a, const D& b) { D o; o.v = a.v - b.v; o.m = a.m + b.m; for (int k = 0; k < 3; ++k) { o.d[k] = a.d[k] - b.d[k]; o.e[k] = a.e[k] + b.e[k]; } return o; }
static inline D operator*(const D& a, const D& b) {
    D o; o.v = a.v * b.v; o.m = fabs(a.v) * b.m + a.m * fabs(b.v);
    for (int k = 0; k < 3; ++k) { o.d[k] = a.d[k] * b.v + a.v * b.d[k]; o.e[k] = a.e[k] * fabs(b.v) + fabs(a.d[k]) * b.m + a.m * fabs(b.d[k]) + fabs(a.v) * b.e[k]; }
    return o;
}
static inline D operator*(double c, const D& b) { D o; double ac = fabs(c); o.v = c * b.v; o.m = ac * b.m; for (int k = 0; k < 3; ++k) { o.d[k] = c * b.d[k]; o.e[k] = ac * b.e[k]; } return o; }
static inline void fma(D& a, double c, const D& b) { double ac = fabs(c); a.v += c * b.v; a.m += ac * b.m; for (int k = 0; k < 3; ++k) { a.d[k] += c * b.d[k]; a.e[k] += ac * b.e[k]; } }
// f(x): fm, dfm rounding errors of f and f' themselves (units of roundoff), d2 a bound on |f''|
static inline D chain(const D& x, double f, double fm, double df, double dfm, double d2) {
    D o; o.v = f; o.m = fabs(f) + fm + fabs(df) * x.m;
    for (int k = 0; k < 3; ++k) { o.d[k] = df * x.d[k]; o.e[k] = fabs(df) * x.e[k] + fabs(x.d[k]) * (fabs(df) + dfm + d2 * x.m); }
    return o;
}
static inline D inv(const D& x) { double i = 1 / x.v; return chain(x, i, fabs(i), -i * i, i * i, 2 * fabs(i * i * i)); }

static D spline(double h, const DV& f, const DV& d, const D& r) {
    int n = (int)f.size(), i = (int)std::floor(r.v / h);
    if (i < 0) i = 0;
    if (i > n - 2) i = n - 2;
    double t = (r.v - h * i) / h;
    double h00 = (1 + 2 * t) * (1 - t) * (1 - t), h10 = t * (1 - t) * (1 - t), h01 = t * t * (3 - 2 * t), h11 = t * t * (t - 1);
    double g00 = 6 * t * t - 6 * t, g10 = 3 * t * t - 4 * t + 1, g11 = 3 * t * t - 2 * t;
    double mag = std::max(std::max(std::fabs(f[i]), std::fabs(f[i + 1])), h * std::max(std::fabs(d[i]), std::fabs(d[i + 1])));
    return chain(r, h00 * f[i] + h10 * h * d[i] + h01 * f[i + 1] + h11 * h * d[i + 1], 8 * mag,
                 g00 * (f[i] - f[i + 1]) / h + g10 * d[i] + g11 * d[i + 1], 24 * mag / h, 12 * mag / (h * h));
}
static D zbl_pair(const Model& m, int Za, int Zb, const D& r) {
    double rm = m.zbl_cov[Za] + m.zbl_cov[Zb];
    if (r.v >= rm) return D(0);
    double a = m.zbl_a_pre * 0.529 / (std::pow((double)Za, m.zbl_a_exp) + std::pow((double)Zb, m.zbl_a_exp));
    const double ex[4] = {-3.2, -0.9423, -0.4028, -0.2016};
    double phi = 0, dphi = 0;
    for (int k = 0; k < 4; ++k) { double e = m.zbl_c[k] * std::exp(ex[k] * r.v / a); phi += e; dphi += e * ex[k] / a; }
    double pre = 0.5 * 14.3996 * Za * Zb, bare = pre * phi / r.v, dbare = pre * (dphi / r.v - phi / (r.v * r.v));
    double p = m.zbl_p, x = r.v / rm;
    double env = 1 - (p + 1) * (p + 2) / 2 * std::pow(x, p) + p * (p + 2) * std::pow(x, p + 1) - p * (p + 1) / 2 * std::pow(x, p + 2);
    double denv = -p * (p + 1) * (p + 2) / 2 * std::pow(x, p - 1) * (1 - x) * (1 - x) / rm;
    double pp = 2 * (p + 2) * (p + 2);
    return chain(r, bare * env, 4 * bare * pp, dbare * env + bare * denv, 4 * pp * (fabs(dbare) + bare * (p + 2) / rm), pp * (fabs(dbare) + bare * (p + 2) / rm) * (p + 2) / r.v);
}

RefOut reference(const Model& m, const Graph& g, const vector<DV>& dirs) {
    const int K = m.K, nlm = m.nlm(), nLM = m.nLM(), NE = g.edges(), NP = (int)m.pl.size();
    vector<D> X(3 * NE), r(NE), Y(NE * nlm);
    for (int q = 0; q < 3 * NE; ++q) {
        X[q].v = g.xyz[q]; X[q].m = fabs(g.xyz[q]);
        for (size_t k = 0; k < dirs.size() && k < 3; ++k) { X[q].d[k] = dirs[k][q]; X[q].e[k] = std::fabs(dirs[k][q]); }
    }
    for (int e = 0; e < NE; ++e) {
        double rr = std::sqrt(g.xyz[3 * e] * g.xyz[3 * e] + g.xyz[3 * e + 1] * g.xyz[3 * e + 1] + g.xyz[3 * e + 2] * g.xyz[3 * e + 2]);
        r[e].v = rr; r[e].m = rr;
        D u[3];
        for (int k = 0; k < 3; ++k) {
            double t = 0, tm = 0;
            for (int d = 0; d < 3; ++d) { t += X[3 * e + d].v * X[3 * e + d].d[k]; tm += X[3 * e + d].e[k]; }
            r[e].d[k] = t / rr; r[e].e[k] = 3 * tm;
        }
        for (int d = 0; d < 3; ++d) {
            u[d].v = X[3 * e + d].v / rr; u[d].m = 3 * fabs(u[d].v);
            for (int k = 0; k < 3; ++k) { u[d].d[k] = X[3 * e + d].d[k] / rr - X[3 * e + d].v * r[e].d[k] / (rr * rr); u[d].e[k] = 3 * (X[3 * e + d].e[k] + r[e].e[k]) / rr; }
        }
        Yt<D>(m.l_max, u[0], u[1], u[2], &Y[e * nlm]);
    }
    vector<int> lof(nlm); for (int l = 0; l <= m.l_max; ++l) for (int q = l * l; q < (l + 1) * (l + 1); ++q) lof[q] = l;
    // first layer
    vector<D> A0(g.N * nlm * K), H1(g.N * nLM * K);
    { vector<D> Phi(g.N * nlm * K);
      for (int e = 0; e < NE; ++e) {
          int i = g.src[e], p = m.pair(g.type[i], g.ntype[e]);
          for (int l = 0; l <= m.l_max; ++l) for (int k = 0; k < K; ++k) {
              D R = m.H0[g.ntype[e] * K + k] * spline(m.h, m.v0[p][l * K + k], m.d0[p][l * K + k], r[e]);
              for (int q = l * l; q < (l + 1) * (l + 1); ++q) { D& o = Phi[(i * nlm + q) * K + k]; o = o + R * Y[e * nlm + q]; }
          }
      }
      for (int i = 0; i < g.N; ++i) {
          D sc(1);
          if (m.A0s) for (int e = 0; e < NE; ++e) if (g.src[e] == i) { int p = m.pair(g.type[i], g.ntype[e]); sc = sc + spline(m.hA0, m.A0v[p], m.A0d[p], r[e]); }
          D is = inv(sc);
          for (int q = 0; q < nlm; ++q) for (int k = 0; k < K; ++k) {
              D t; for (int kp = 0; kp < K; ++kp) fma(t, m.A0w[g.type[i]][lof[q]][kp * K + k], Phi[(i * nlm + q) * K + kp]);
              A0[(i * nlm + q) * K + k] = m.A0s ? t * is : t;
          }
      } }
    for (int i = 0; i < g.N; ++i)
        for (int l = 0; l <= m.L_max; ++l) for (int q = l * l; q < (l + 1) * (l + 1); ++q) {
            vector<D> M0(K);
            for (int k = 0; k < K; ++k) for (size_t t = 0; t < m.M0mon[q].size(); ++t) {
                D x = A0[(i * nlm + m.M0mon[q][t][0]) * K + k];
                for (size_t v = 1; v < m.M0mon[q][t].size(); ++v) x = x * A0[(i * nlm + m.M0mon[q][t][v]) * K + k];
                fma(M0[k], m.M0w[g.type[i]][q][k][t], x);
            }
            for (int k = 0; k < K; ++k) for (int kp = 0; kp < K; ++kp) fma(H1[(i * nLM + q) * K + k], m.H1w[(l * K + kp) * K + k], M0[kp]);
        }
    // second layer: Phi1[i][path][M][k]
    struct Ent { int M, m1, m2; double c; };
    vector<vector<Ent>> ent(NP);
    { vector<int> numE(m.l_max + 1, 0), ep(NP), off(NP), loff(m.l_max + 1, 0); int o = 0;
      for (int p = 0; p < NP; ++p) { ep[p] = numE[m.pl[p]]++; off[p] = o; o += (2 * m.pl1[p] + 1) * (2 * m.pl2[p] + 1); }
      for (int l = 1; l <= m.l_max; ++l) loff[l] = loff[l - 1] + (2 * l - 1) * numE[l - 1];
      for (size_t c = 0; c < m.cg.size(); ++c) {
          int p = NP - 1; while (off[p] > m.lelm1lm2[c]) --p;
          int q = m.lelm1lm2[c] - off[p], M = (m.lme[c] - loff[m.pl[p]] - ep[p]) / numE[m.pl[p]];
          ent[p].push_back({M, q / (2 * m.pl2[p] + 1), q % (2 * m.pl2[p] + 1), m.cg[c]});
      } }
    RefOut out; out.e.resize(g.N); out.em.resize(g.N); out.d.resize(g.N); out.dm.resize(g.N);
    for (int i = 0; i < g.N; ++i) {
        vector<D> A1(nlm * K);
        vector<int> cnt(m.l_max + 1, 0);
        for (int p = 0; p < NP; ++p) {
            int l = m.pl[p], e0 = cnt[l]++;
            vector<D> Phi((2 * l + 1) * K);
            for (int e = 0; e < NE; ++e) {
                if (g.src[e] != i) continue;
                int pr = m.pair(g.type[i], g.ntype[e]);
                vector<D> R(K); for (int k = 0; k < K; ++k) R[k] = spline(m.h, m.v1[pr][p * K + k], m.d1[pr][p * K + k], r[e]);
                for (auto& c : ent[p]) {
                    D y = c.c * Y[e * nlm + m.pl1[p] * m.pl1[p] + c.m1];
                    for (int k = 0; k < K; ++k) { D& o = Phi[c.M * K + k]; o = o + y * (R[k] * H1[(g.idx[e] * nLM + m.pl2[p] * m.pl2[p] + c.m2) * K + k]); }
                }
            }
            for (int M = 0; M <= 2 * l; ++M) for (int k = 0; k < K; ++k) for (int kp = 0; kp < K; ++kp) fma(A1[(l * l + M) * K + k], m.A1w[l][(e0 * K + kp) * K + k], Phi[M * K + kp]);
        }
        if (m.A1s) {
            D sc(1); for (int e = 0; e < NE; ++e) if (g.src[e] == i) { int p = m.pair(g.type[i], g.ntype[e]); sc = sc + spline(m.hA1, m.A1v[p], m.A1d[p], r[e]); }
            D is = inv(sc); for (auto& x : A1) x = x * is;
        }
        vector<D> H2(K);
        for (int kp = 0; kp < K; ++kp) {
            D M1; for (size_t t = 0; t < m.M1mon.size(); ++t) { D x = A1[m.M1mon[t][0] * K + kp]; for (size_t v = 1; v < m.M1mon[t].size(); ++v) x = x * A1[m.M1mon[t][v] * K + kp]; fma(M1, m.M1w[g.type[i]][kp][t], x); }
            for (int k = 0; k < K; ++k) { fma(H2[k], m.H2M1[kp * K + k], M1); fma(H2[k], m.H2H1[g.type[i]][kp * K + k], H1[i * nLM * K + kp]); }
        }
        D E(m.E0[g.type[i]]);
        for (int k = 0; k < K; ++k) fma(E, m.ro1[k], H1[i * nLM * K + k]);
        for (int h = 0; h < 16; ++h) {
            D z; for (int k = 0; k < K; ++k) fma(z, m.ro21[h * K + k], H2[k]);
            double sg = z.v > 0 ? 1 / (1 + std::exp(-z.v)) : std::exp(z.v) / (1 + std::exp(z.v));
            double df = sg + z.v * sg * (1 - sg);
            D a = chain(z, z.v * sg, 2 * fabs(z.v * sg), df, 2, 0.5);
            fma(E, m.ro22[h] * m.ro2s, a);
        }
        if (m.zbl) for (int e = 0; e < NE; ++e) if (g.src[e] == i) E = E + zbl_pair(m, m.Z[g.type[i]], m.Z[g.ntype[e]], r[e]);
        out.e[i] = E.v; out.em[i] = E.m;
        for (int k = 0; k < 3; ++k) { out.d[i][k] = E.d[k]; out.dm[i][k] = E.e[k]; }
    }
    return out;
}
DV reference_forces(const Model& m, const Graph& g, DV* mag) {
    DV f(g.xyz.size()); if (mag) mag->assign(g.xyz.size(), 0);
    for (int e = 0; e < g.edges(); ++e) {
        vector<DV> dirs(3, DV(g.xyz.size(), 0)); for (int d = 0; d < 3; ++d) dirs[d][3 * e + d] = 1;
        auto o = reference(m, g, dirs);
        for (int d = 0; d < 3; ++d) { f[3 * e + d] = -o.sum_d(d); if (mag) (*mag)[3 * e + d] = o.sum_dm(d); }
    }
    return f;
}

static vector<int> fds;
std::string mem_file(const std::string& c) {
    int fd = memfd_create("model", 0);
    if (fd < 0) { perror("memfd_create"); abort(); }
    size_t off = 0; while (off < c.size()) { ssize_t w = write(fd, c.data() + off, c.size() - off); if (w <= 0) { perror("write"); abort(); } off += w; }
    fds.push_back(fd);
    return "/proc/self/fd/" + std::to_string(fd);
}
void rewrite_mem_file(const std::string& path, const std::string& c) {
    int fd = std::atoi(path.c_str() + path.rfind('/') + 1);
    if (ftruncate(fd, 0)) { perror("ftruncate"); abort(); }
    size_t off = 0; while (off < c.size()) { ssize_t w = pwrite(fd, c.data() + off, c.size() - off, off); if (w <= 0) { perror("pwrite"); abort(); } off += w; }
}
void drop_mem_files() { for (int f : fds) close(f); fds.clear(); }
}  // namespace mm
