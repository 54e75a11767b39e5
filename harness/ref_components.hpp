// Reference implementations, written from the definitions in long double, independent of /repo's code.
#pragma once
#include <cmath>
#include <vector>
namespace ref {
using R = long double;

// cubic Hermite interpolant on nodes 0,h,2h,...: value and derivative at r in [0,(n-1)h]
inline void hermite(double h, const std::vector<double>& f, const std::vector<double>& d, double r, R& val, R& der) {
    int n = (int)f.size();
    int i = (int)std::floor((R)r / (R)h);
    if (i < 0) i = 0;
    if (i > n - 2) i = n - 2;
    R H = h, t = ((R)r - H * i) / H;
    R h00 = (1 + 2 * t) * (1 - t) * (1 - t), h10 = t * (1 - t) * (1 - t), h01 = t * t * (3 - 2 * t), h11 = t * t * (t - 1);
    val = h00 * f[i] + h10 * H * d[i] + h01 * f[i + 1] + h11 * H * d[i + 1];
    R g00 = 6 * t * t - 6 * t, g10 = 3 * t * t - 4 * t + 1, g01 = -6 * t * t + 6 * t, g11 = 3 * t * t - 2 * t;
    der = (g00 * f[i] + g01 * f[i + 1]) / H + g10 * d[i] + g11 * d[i + 1];
}
inline R hermite_scale(double h, const std::vector<double>& f, const std::vector<double>& d, double r) {
    int n = (int)f.size();
    int i = (int)std::floor(r / h);
    R m = 0;
    for (int k = i - 1; k <= i + 2; ++k)
        if (k >= 0 && k < n) m = std::max(m, std::max(std::fabs((R)f[k]), std::fabs((R)h * d[k])));
    return m;
}

inline R silu(R x) { return x / (1 + std::exp(-x)); }
inline R dsilu(R x) { R s = 1 / (1 + std::exp(-x)); return s + x * s * (1 - s); }

// fully connected network without biases; weights[l] row major [out][in]; activation scale*silu on hidden layers
struct MLP {
    std::vector<int> shape;
    std::vector<std::vector<double>> w;
    double scale;
    R maxpre = 0;   // largest |pre-activation| seen
    R mag = 0;      // magnitude of the sums, for tolerances
    void eval(const double* x, std::vector<R>& out, std::vector<R>& jac) {
        int L = (int)shape.size() - 1;
        std::vector<R> a(x, x + shape[0]);
        std::vector<std::vector<R>> J(shape[0], std::vector<R>(shape[0], 0));   // J[i][k] = d a_i / d x_k
        for (int i = 0; i < shape[0]; ++i) J[i][i] = 1;
        for (int l = 0; l < L; ++l) {
            std::vector<R> b(shape[l + 1], 0);
            std::vector<std::vector<R>> K(shape[l + 1], std::vector<R>(shape[0], 0));
            for (int i = 0; i < shape[l + 1]; ++i) {
                R m = 0;
                for (int j = 0; j < shape[l]; ++j) {
                    R ww = w[l][(size_t)i * shape[l] + j];
                    b[i] += ww * a[j]; m += std::fabs(ww * a[j]);
                    for (int k = 0; k < shape[0]; ++k) K[i][k] += ww * J[j][k];
                }
                mag = std::max(mag, m);
                if (l < L - 1) {
                    maxpre = std::max(maxpre, std::fabs(b[i]));
                    R g = scale * dsilu(b[i]);
                    b[i] = scale * silu(b[i]);
                    for (int k = 0; k < shape[0]; ++k) K[i][k] *= g;
                }
            }
            a = b; J = K;
        }
        out = a;
        jac.clear();
        for (auto& row : J) jac.insert(jac.end(), row.begin(), row.end());
    }
};

// polynomial value, gradient and the magnitude of the sums (for tolerances)
inline void poly(int nvar, const std::vector<double>& c, const std::vector<std::vector<int>>& mono, const double* x, R& f, std::vector<R>& g, R& fm, std::vector<R>& gm) {
    f = 0; fm = 0; g.assign(nvar, 0); gm.assign(nvar, 0);
    for (size_t i = 0; i < c.size(); ++i) {
        R t = c[i];
        for (int v : mono[i]) t *= x[v];
        f += t; fm += std::fabs(t);
        for (size_t j = 0; j < mono[i].size(); ++j) {
            R u = c[i];
            for (size_t k = 0; k < mono[i].size(); ++k) if (k != j) u *= x[mono[i][k]];
            g[mono[i][j]] += u; gm[mono[i][j]] += std::fabs(u);
        }
    }
}

struct ZBL {
    double a_exp, a_pre; std::vector<double> c, cov; int p;
    static R env(R r, R rm, int p) {
        if (r >= rm) return 0;
        R x = r / rm;
        return 1 - (p + 1.0L) * (p + 2) / 2 * std::pow(x, (R)p) + (R)p * (p + 2) * std::pow(x, (R)(p + 1)) - (R)p * (p + 1) / 2 * std::pow(x, (R)(p + 2));
    }
    static R denv(R r, R rm, int p) {
        if (r >= rm) return 0;
        R x = r / rm;
        // = -p(p+1)(p+2)/2 x^(p-1) (1-x)^2 / rm
        return -(R)p * (p + 1) * (p + 2) / 2 * std::pow(x, (R)(p - 1)) * (1 - x) * (1 - x) / rm;
    }
    R rmax(int zu, int zv) const { return (R)cov[zu] + (R)cov[zv]; }
    void eval(int zu, int zv, R r, R& v, R& dv, R& bare, R& dbare) const {
        const R ex[4] = {-3.2L, -0.9423L, -0.4028L, -0.2016L};
        R a = (R)a_pre * 0.529L / (std::pow((R)zu, (R)a_exp) + std::pow((R)zv, (R)a_exp));
        R phi = 0, dphi = 0;
        for (int k = 0; k < 4; ++k) { R e = c[k] * std::exp(ex[k] * r / a); phi += e; dphi += e * ex[k] / a; }
        R pre = 0.5L * 14.3996L * zu * zv;
        bare = pre * phi / r; dbare = pre * (dphi / r - phi / (r * r));
        R rm = rmax(zu, zv), e = env(r, rm, p), de = denv(r, rm, p);
        v = bare * e; dv = bare * de + dbare * e;
    }
};
}  // namespace ref
