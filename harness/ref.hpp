// Reference model: independent implementation of the documented physics,
// on frozen copies of the physical tables.
#ifndef REF_HPP
#define REF_HPP
#include <algorithm>
#include <cmath>
#include <functional>
#include <vector>
#include "frozen.hpp"

namespace ref {
const double pi = M_PI, u = 931.4940954, me = 0.510998928, alpha_inv = 137.035999139, alpha = 1 / 137.035999139;
const double NA = 6.022140857, K = 0.3070749187, c0 = 299.792458, hbarc_10 = 6.582119514;

struct Part { double A; int Z; double w; }; // w: weight fraction
typedef std::vector<Part> Mat;
struct Proj { double A, Z, Q; };
struct Cfg { int zeff = 1, corr = 0, calc = 1, low = 0, scat = 255; double fac = 1; };

inline double gamma(double T) { return 1 + T / u; }
inline double beta2(double T) { double x = T / u; return x * (x + 2) / ((x + 1) * (x + 1)); }
inline double beta(double T) { return std::sqrt(beta2(T)); }
inline double mom(double T, double A) { return A * std::sqrt(T * (T + 2 * u)); }

// ---- effective charge -------------------------------------------------------
inline double z_pierce(double z, double b) { return z * (1 - std::exp(-0.95 * alpha_inv * b * std::pow(z, -2.0 / 3))); }
inline double z_anthony(double z, double b, double t) {
    double B = 1.18 - 7.5e-3 * t + 4.53e-5 * t * t, A = 1.16 - 1.91e-3 * t + 1.26e-5 * t * t;
    return z - z * A * std::exp(-alpha_inv * B * b * std::pow(z, -2.0 / 3));
}
inline double z_hubert(double z, double E, double t) {
    if (E < 2.5) return 0;
    double L = std::log(t), x[4];
    if (t == 4) { x[0] = 2.045 + 2 * std::exp(-0.04369 * z); x[1] = 7; x[2] = 0.2643; x[3] = 0.4171; }
    else if (t == 6) { x[0] = 2.584 + 1.91 * std::exp(-0.03958 * z); x[1] = 6.933; x[2] = 0.2433; x[3] = 0.3969; }
    else {
        x[0] = 1.164 + 0.2319 * std::exp(-0.004302 * t) + 1.658 * std::exp(-0.0517 * z);
        x[1] = 8.144 + 0.09876 * L; x[2] = 0.314 + 0.01072 * L; x[3] = 0.5218 + 0.02521 * L;
    }
    return z - z * x[0] * std::exp(-x[1] * std::pow(E, x[2]) / std::pow(z, x[3]));
}
inline double z_winger(double z, double b, double t) {
    if (t == 1) t = 2.6; else if (t == 2) t = 2.8;
    double x = b / (0.012 * std::pow(z, 0.45)), l = std::log(z), m = std::log(t);
    double p = -0.4662;
    p -= 0.5491 * std::exp(0.7028 * l - 0.1089 * l * l + 0.001644 * l * l * l - 0.5155 * m + 0.05633 * m * m) * x;
    p += 0.005447 * std::exp(0.8795 * l - 1.091 * m) * x * x;
    p -= 0.0008261 * std::exp(2.848 * l - 0.2442 * l * l * l) * x * x * x;
    p -= 0.00009293 * x * x * x * x;
    return z * (1 - std::exp(p));
}
inline double z_schiwietz(double z, double b, double t) {
    double sv = b * c0 / 2.19 * std::pow(z, -0.543);
    double k1 = 1 - 0.26 * std::exp(-t / 11 - (t - z) * (t - z) / 9), k2 = 1 + 0.03 * sv * std::log(t);
    double x = k1 * std::pow(sv / (k2 * 1.54), 1 + 1.83 / z), x4 = std::pow(x, 4);
    return z * (8.29 * x + x4) / (0.06 / x + 4 + 7.4 * x + x4);
}
inline double z_eff(const Proj &p, double T, int t, int model) {
    switch (model) {
    case 0: return p.Q;
    case 1: return z_pierce(p.Z, beta(T));
    case 2: return z_anthony(p.Z, beta(T), t);
    case 3: return z_hubert(p.Z, T, t);
    case 4: return z_winger(p.Z, beta(T), t);
    case 5: return z_schiwietz(p.Z, beta(T), t);
    }
    return NAN;
}

// ---- Lindhard-Soerensen table --------------------------------------------------
inline double ls_energy(int i) { return std::pow(10.0, 7.0 * i / 199); }
inline double ls_interp(const double *y, double T) {
    if (T <= 1) return y[0];
    if (T >= ls_energy(199)) return y[199];
    int i = (int)std::floor(std::log10(T) * 199 / 7);
    i = std::max(0, std::min(198, i));
    while (i < 198 && T >= ls_energy(i + 1)) i++;
    while (i > 0 && T < ls_energy(i)) i--;
    double a = ls_energy(i), b = ls_energy(i + 1);
    return y[i] + (y[i + 1] - y[i]) * (T - a) / (b - a);
}
inline double ls(const Proj &p, double T) {
    int z = std::min(108, (int)p.Z);
    double a = ls_interp(frozen::ls[z - 1], T), b = ls_interp(frozen::ls_hi[z - 1], T);
    double d = p.A / frozen::weight[z] - 1;
    return a + (b - a) * d / 0.05;
}
inline double lsx(const Proj &p, double T) {
    if (T < 1) return 1;
    int z = std::min(108, (int)p.Z);
    double a = ls_interp(frozen::lsx[z - 1], T), b = ls_interp(frozen::lsx_hi[z - 1], T);
    double d = p.A / frozen::weight[z] - 1;
    return a + (b - a) * d / 0.05;
}

// ---- stopping power --------------------------------------------------------------
inline double nuclear(const Proj &p, double T, const Part &t) {
    double zp = std::pow(p.Z, 0.23) + std::pow(t.Z, 0.23);
    double eps = 32530 * t.A * T * p.A / (p.Z * t.Z * (p.A + t.A) * zp);
    if (eps <= 0) return 0;
    double s = eps <= 30 ? std::log(1 + 1.1383 * eps) / (2 * (eps + 0.01321 * std::pow(eps, 0.21226) + 0.19593 * std::sqrt(eps)))
                         : std::log(eps) / (2 * eps);
    return 846.21 * NA * p.Z * t.Z * p.A * s / ((p.A + t.A) * zp * t.A);
}
inline double barkas(double ze, double eta, int zt) {
    double v = eta * alpha_inv / std::sqrt((double)zt), f = 0;
    static const double J[4] = {0.33, 0.30, 0.26, 0.23};
    if (v >= 4) f = 0.45 / std::sqrt(v);
    else if (v >= 1) {
        int i = std::min(2, (int)std::ceil(v) - 2); // interval (i+1, i+2]
        if (i < 0) i = 0;
        f = J[i] + (v - (i + 1)) * (J[i + 1] - J[i]);
    }
    return 1 + 2 * ze * f / (v * v * std::sqrt((double)zt));
}
inline double density_effect(double T, int zt) {
    int i = std::min(zt, 97) - 1;
    double bg = std::sqrt(T * (T + 2 * u)) / u, x = std::log(bg) / 2.3025851;
    if (x < frozen::de_x0[i]) return frozen::de_d0[i] > 0 ? frozen::de_d0[i] * std::pow(10.0, 2 * (x - frozen::de_x0[i])) : 0;
    double d = 4.6052 * x - frozen::de_c[i];
    if (x <= frozen::de_x1[i]) d += frozen::de_a[i] * std::pow(frozen::de_x1[i] - x, frozen::de_m[i]);
    return d;
}
inline double pairs(const Proj &p, double T, const Part &t) {
    double g = gamma(T), l = -std::log(g), z = 183 * std::pow((double)t.Z, -1.0 / 3);
    double L0 = 19.0 / 9 * std::log(z / (1 + 25.018803808 * z / g)), lg = std::log(2 * g);
    double L1 = (4178 / (81 * pi * pi) - 21.0 / 27 - 248 * lg / (27 * pi * pi) + (28 * lg / 9 - 446.0 / 27) * l / (pi * pi) + 14 * l * l / (9 * pi * pi)) / std::sqrt(g);
    double s = 0.25 * K * alpha * alpha * p.Z * p.Z * t.Z * (t.Z + 1.0) * g * (L0 + L1) / t.A;
    return std::max(0.0, s);
}
inline double brems(const Proj &p, double T, const Part &t) {
    double g = gamma(T), R = 1.18 * (std::cbrt(p.A) + std::cbrt(t.A));
    double L = std::log(1 + 2 * g * 0.1 * hbarc_10 * c0 / (u * R * p.A));
    return 4 * K * alpha * (me / u) * g * std::pow(p.Z, 4) * t.Z * t.Z * L / (3 * pi * t.A * p.A);
}
inline double bethe(const Proj &p, double T, const Part &t, const Cfg &c, double I) {
    double b2 = beta2(T), g = gamma(T), eta2 = T * (T + 2 * u) / (u * u), ze = z_eff(p, T, t.Z, c.zeff);
    double ip = I > 0 ? I : frozen::ipot[t.Z];
    double L = std::log(2e6 * me * b2 / ip) + 2 * std::log(g) - b2;
    if (!(c.corr & 4) && std::sqrt(eta2) >= 0.13) {
        double e = 1 / eta2;
        double sc = (0.422377 * e + 0.0304043 * e * e - 0.00038106 * e * e * e) * 1e-6 * ip * ip +
                    (3.858019 * e - 0.1667989 * e * e + 0.00157955 * e * e * e) * 1e-9 * ip * ip * ip;
        L -= sc / t.Z;
    }
    if (!(c.corr & 1)) L *= barkas(ze, std::sqrt(eta2), t.Z);
    if (!(c.corr & 2)) L += ls(p, T);
    L -= 0.5 * density_effect(T, t.Z);
    double s = K * ze * ze * t.Z / (b2 * t.A) * L;
    if (T > 50000 && !(c.corr & 8)) s += pairs(p, T, t) + brems(p, T, t);
    return s;
}
inline double proton_se(int tz, double T, bool new95) {
    const double *k = new95 ? frozen::se95[std::min(tz, 92) - 1] : frozen::se85[std::min(tz, 92) - 1];
    double e = std::max(25.0, 1000 * T);
    double lo = k[0] * std::pow(e, k[1]) + k[2] * std::pow(e, k[3]);
    double hi = k[4] * std::pow(e, -k[5]) * std::log(k[6] / e + k[7] * e);
    double s = 1 / (1 / lo + 1 / hi);
    if (1000 * T <= 25) s *= std::pow(40 * T, tz > 6 ? 0.45 : 0.25);
    return s;
}
inline double srim(int zp, int zt, double T, bool n95) {
    double e = 1000 * T;
    if (zp == 1) return proton_se(zt, T, n95);
    if (zp == 2) {
        double l = std::log(std::max(1.0, e));
        double a = 0.2865 + 0.1266 * l - 0.001429 * l * l + 0.02402 * std::pow(l, 3) - 0.01135 * std::pow(l, 4) + 0.001475 * std::pow(l, 5);
        double h = 1 - std::exp(-std::min(30.0, a)), d = 7.6 - std::max(0.0, l);
        double f = 1 + (0.007 + 0.00005 * zt) * std::exp(-d * d);
        return 4 * proton_se(zt, T, n95) * h * f * f;
    }
    double vf = frozen::vfermi[std::min(zt, 92) - 1], v = std::sqrt(e / 25) / vf, v2 = v * v;
    double vr = v >= 1 ? v * vf * (1 + 0.2 / v2) : 0.75 * vf * (1 + 2 * v2 / 3 - v2 * v2 / 15);
    double z13 = std::cbrt((double)zp), z23 = z13 * z13, ymin = std::max(0.13, 1 / z23), y = std::max(ymin, vr / z23);
    bool slow = !(vr / z23 > ymin);
    double a = -0.803 * std::pow(y, 0.3) + 1.3167 * std::pow(y, 0.6) + 0.38157 * y + 0.008983 * y * y;
    double q = std::min(1.0, std::max(0.0, 1 - std::exp(-std::min(a, 50.0))));
    double b = std::min(0.43, std::max(0.32, 0.12 + 0.025 * zp)) / z13;
    double l0 = (0.8 - q * std::min(1.2, 0.6 + zp / 30.0)) / z13, l1;
    double q1 = std::max(0.0, 0.9 - 0.025 * zp), q2 = std::max(0.0, 1 - 0.025 * std::min(16, zp));
    if (q < 0.2) l1 = 0;
    else if (q < q1) l1 = b * (q - 0.2) / std::fabs(q1 - 0.2000001);
    else if (q < q2) l1 = b;
    else l1 = b * (1 - q) / (0.025 * std::min(16, zp));
    double l = std::max(l1, l0 * frozen::screening[std::min(zp, 92) - 1]);
    double h = 4 * l * vf / 1.919;
    double zeta = q + (1 - q) / (2 * vf * vf) * std::log(1 + h * h);
    double d = 7.6 - std::max(0.0, std::log(e));
    zeta *= 1 + (0.18 + 0.0015 * zt) * std::exp(-d * d) / ((double)zp * zp);
    double zz = zeta * zp;
    if (slow) {
        double vm = std::max(1.0, 0.13 * z23);
        vm = 0.5 * (vm + std::sqrt(std::max(0.0, vm * vm - 0.8 * vf * vf)));
        double e0 = 25 * vm * vm;
        double pw = (zt == 6 || ((zt == 14 || zt == 32) && zp <= 19)) ? 0.35 : 0.5;
        return proton_se(zt, e0 / 1000, n95) * zz * zz * std::pow(e / e0, pw);
    }
    return proton_se(zt, T, n95) * zz * zz;
}
inline double dedx(const Proj &p, double T, const Mat &m, const Cfg &c, double I = 0) {
    if (T <= 0) return 0;
    double s = 0;
    for (auto &t : m) {
        double lo = T < 30 ? 100 * NA * srim((int)p.Z, t.Z, T, c.low == 1) / t.A : 0;
        double hi = T > 10 ? bethe(p, T, t, c, I) : 0;
        double f = T <= 10 ? 0 : T < 30 ? (T - 10) / 20 : 1;
        s += t.w * (nuclear(p, T, t) + (f < 1 ? (1 - f) * lo : 0) + (f > 0 ? f * hi : 0));
    }
    return s;
}

// ---- straggling, scattering ------------------------------------------------------
inline double domega2dx(const Proj &p, double T, const Mat &m, const Cfg &c) {
    double s = 0, b2 = beta2(T), g = gamma(T);
    for (auto &t : m) {
        double ze = z_eff(p, T, t.Z, c.zeff), x = lsx(p, T) * g * g;
        if (c.calc == 0) x += std::max(0.0, 24.89 * std::pow(t.Z, 1.2324) / (me * 1e6 * b2) * std::log(2e6 * me * b2 / (33.05 * std::pow(t.Z, 1.6364))));
        double v = K * me * ze * ze * t.Z / t.A * x;
        if (T < 30) v = std::min(v, 4.8184e-3 * std::pow(p.Z + t.Z, 8.0 / 3) / t.A * b2 * alpha_inv * alpha_inv);
        s += t.w * v;
    }
    return s;
}
inline double rad_length(int z, double A) {
    static const double tab[][2] = {{1, 63.04}, {2, 94.32}, {3, 82.78}, {4, 65.19}, {6, 42.7}, {7, 37.99}, {8, 34.24}, {9, 32.93}, {10, 28.94}, {13, 24.01}, {14, 21.82}, {17, 19.28}, {18, 19.55}, {22, 16.16}, {26, 13.84}, {29, 12.86}, {32, 12.25}, {50, 8.82}, {54, 8.48}, {74, 6.76}, {78, 6.54}, {79, 6.46}, {82, 6.37}, {92, 6.00}};
    for (auto &r : tab) if (r[0] == z) return r[1];
    double a2 = alpha * alpha * z * z;
    double d = std::log(184.15 / std::cbrt((double)z)) + std::log(1194 / std::pow(std::cbrt((double)z), 2)) / z - 1.202 * a2 + 1.0369 * a2 * a2 - 1.008 * a2 * a2 * a2 / (1 + a2);
    return 716.405 * A / (z * z * d);
}
inline double rad_length(const Mat &m) {
    double s = 0;
    for (auto &t : m) s += t.w / rad_length(t.Z, t.A);
    return 1 / s;
}
inline double es2(int scat) { return (scat == 0 || scat == 1) ? 2 * pi * alpha_inv * me * me : 198.81; }
inline double pv(const Proj &p, double T) { double q = mom(T, p.A); return q * q / ((T + u) * p.A); }
inline double da2dx(const Proj &p, double T, const Mat &m, const Cfg &c) {
    if (T <= 0) return 0;
    double k = pv(p, T);
    return c.fac * es2(c.scat) * p.Z * p.Z / (rad_length(m) * k * k);
}
inline double scat_length(const Mat &m) {
    double s = 0;
    for (auto &t : m) {
        s += t.w * 0.00034896 * t.Z * t.Z * (2 * std::log(33219 / std::cbrt(t.A * t.Z)) - 1) / t.A;
    }
    return 1 / s;
}

// ---- adaptive Gauss-Kronrod-free reference integral: composite Gauss-Legendre 10 --
inline double gl10(const std::function<double(double)> &f, double a, double b, int n = 1) {
    static const double x[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
    static const double w[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159821, 0.1494513491505806, 0.0666713443086881};
    double s = 0, h = (b - a) / n;
    for (int i = 0; i < n; i++) {
        double m = a + (i + 0.5) * h, r = 0.5 * h, t = 0;
        for (int k = 0; k < 5; k++) t += w[k] * (f(m - r * x[k]) + f(m + r * x[k]));
        s += r * t;
    }
    return s;
}

// ---- reactions ----------------------------------------------------------------------
inline double kox(int Ap, int Zp, double E, int At, int Zt) {
    double p3 = std::cbrt((double)Ap), t3 = std::cbrt((double)At), lE = std::log10(E);
    double c = lE < 1.5 ? (2 - 10 / std::pow(1.5, 5)) * std::pow(lE / 1.5, 3) : 2 - 10 / std::pow(lE, 5);
    double D = 5.0 * (At - 2 * Zt) * Zp / ((double)Ap * At);
    double R = 1.1 * (p3 + t3 + 1.85 * p3 * t3 / (p3 + t3) - c) + D;
    double Bc = 1.44 * Zp * Zt / (1.3 * (p3 + t3));
    return 10 * pi * R * R * (1 - Bc * (Ap + At) / (E * Ap * At));
}
} // namespace ref
#endif
