// Stand-in for lab-cosmo/sphericart (an empty submodule here), with the interface symmetrix uses:
// sphericart::SphericalHarmonics<T>(l_max): real spherical harmonics of the direction of xyz
// (normalised=true behaviour), orthonormal on the sphere, no Condon-Shortley phase, index l*(l+1)+m,
// gradients laid out [sample][x|y|z][lm].
#pragma once
#include <cmath>
#include <cstddef>
#include <stdexcept>
#include <vector>

namespace sphericart {

template <class T>
class SphericalHarmonics {
public:
    explicit SphericalHarmonics(size_t l_max, bool /*normalized*/ = true) : l_max_(l_max) {
        if (l_max > 32) throw std::runtime_error("sphericart stand-in: l_max too large");
        const size_t L = l_max;
        F_.assign((L + 1) * (L + 2) / 2, 0.0);
        for (size_t l = 0; l <= L; ++l)
            for (size_t m = 0; m <= l; ++m) {
                double f = (2.0 * l + 1) / (4 * 3.14159265358979323846264338327950288);
                for (size_t k = l - m + 1; k <= l + m; ++k) f /= (double)k;
                if (m > 0) f *= 2;
                F_[l * (l + 1) / 2 + m] = std::sqrt(f);
            }
    }
    void compute(const std::vector<T>& xyz, std::vector<T>& sph) const {
        check(sph.size(), xyz.size() / 3 * nlm());
        run(xyz.data(), xyz.size() / 3, sph.data(), nullptr);
    }
    void compute_with_gradients(const std::vector<T>& xyz, std::vector<T>& sph, std::vector<T>& dsph) const {
        check(sph.size(), xyz.size() / 3 * nlm());
        check(dsph.size(), xyz.size() * nlm());
        run(xyz.data(), xyz.size() / 3, sph.data(), dsph.data());
    }
    void compute_array(const T* xyz, size_t xl, T* sph, size_t sl) const {
        check(sl, xl / 3 * nlm());
        run(xyz, xl / 3, sph, nullptr);
    }
    void compute_array_with_gradients(const T* xyz, size_t xl, T* sph, size_t sl, T* dsph, size_t dl) const {
        check(sl, xl / 3 * nlm());
        check(dl, xl * nlm());
        run(xyz, xl / 3, sph, dsph);
    }

private:
    size_t l_max_;
    std::vector<double> F_;
    size_t nlm() const { return (l_max_ + 1) * (l_max_ + 1); }
    static void check(size_t have, size_t need) { if (have < need) throw std::runtime_error("sphericart: array too small"); }

    // homogeneous (solid) harmonics of the unit vector u, as polynomials: Q_l^m(z), s_m, c_m
    void run(const T* xyz, size_t n, T* out, T* grad) const {
        const size_t L = l_max_, N = nlm();
        std::vector<double> Q((L + 2) * (L + 2)), dQ((L + 2) * (L + 2)), c(L + 1), s(L + 1);
        auto at = [&](std::vector<double>& v, size_t l, size_t m) -> double& { return v[l * (L + 2) + m]; };
        std::vector<double> Y(N), gx(N), gy(N), gz(N);
        for (size_t i = 0; i < n; ++i) {
            const double X = xyz[3 * i], Yc = xyz[3 * i + 1], Z = xyz[3 * i + 2];
            const double r = std::sqrt(X * X + Yc * Yc + Z * Z), ir = 1 / r;
            const double x = X * ir, y = Yc * ir, z = Z * ir;
            // P_l^m / sin^m (no Condon-Shortley), as functions of z
            double pmm = 1;
            for (size_t m = 0; m <= L; ++m) {
                if (m) pmm *= 2.0 * m - 1;
                at(Q, m, m) = pmm; at(dQ, m, m) = 0;
                for (size_t l = m + 1; l <= L; ++l) {
                    const double a = (2.0 * l - 1) / (l - m), b = l >= m + 2 ? (double)(l + m - 1) / (l - m) : 0;
                    at(Q, l, m) = a * z * at(Q, l - 1, m) - (l >= m + 2 ? b * at(Q, l - 2, m) : 0);
                    at(dQ, l, m) = a * (at(Q, l - 1, m) + z * at(dQ, l - 1, m)) - (l >= m + 2 ? b * at(dQ, l - 2, m) : 0);
                }
            }
            c[0] = 1; s[0] = 0;
            for (size_t m = 1; m <= L; ++m) { c[m] = x * c[m - 1] - y * s[m - 1]; s[m] = x * s[m - 1] + y * c[m - 1]; }
            for (size_t l = 0; l <= L; ++l)
                for (size_t m = 0; m <= l; ++m) {
                    const double f = F_[l * (l + 1) / 2 + m], q = at(Q, l, m), dq = at(dQ, l, m);
                    const double dcx = m ? m * c[m - 1] : 0, dcy = m ? -(double)m * s[m - 1] : 0;
                    const double dsx = m ? m * s[m - 1] : 0, dsy = m ? (double)m * c[m - 1] : 0;
                    size_t k = l * (l + 1) + m;
                    Y[k] = f * q * c[m]; gx[k] = f * q * dcx; gy[k] = f * q * dcy; gz[k] = f * dq * c[m];
                    if (m) {
                        k = l * (l + 1) - m;
                        Y[k] = f * q * s[m]; gx[k] = f * q * dsx; gy[k] = f * q * dsy; gz[k] = f * dq * s[m];
                    }
                }
            for (size_t k = 0; k < N; ++k) out[i * N + k] = (T)Y[k];
            if (grad)
                for (size_t k = 0; k < N; ++k) {
                    // chain rule through u = xyz/r
                    const double d = gx[k] * x + gy[k] * y + gz[k] * z;
                    grad[(3 * i + 0) * N + k] = (T)((gx[k] - d * x) * ir);
                    grad[(3 * i + 1) * N + k] = (T)((gy[k] - d * y) * ir);
                    grad[(3 * i + 2) * N + k] = (T)((gz[k] - d * z) * ir);
                }
        }
    }
};

}  // namespace sphericart
