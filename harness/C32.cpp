// C32: the published contributions
#include "common.hpp"
#include "catima/calculations.h"
#include "catima/srim.h"
#include <complex>
typedef std::complex<double> C;
typedef std::complex<long double> L;
// log of the gamma function for any complex argument: recurrence up to |z| > 30, Stirling series (imaginary part modulo 2 pi)
static L lgam(L z) {
    const long double pi = 3.14159265358979323846264338327950288L;
    if (z.real() < 0.5L) return std::log(L(pi)) - std::log(std::sin(pi * z)) - lgam(L(1) - z);
    L s = 0;
    while (std::abs(z) < 30) {
        s -= std::log(z);
        z += 1;
    }
    L i = L(1) / z, j = i * i;
    return s + (z - L(0.5L)) * std::log(z) - z + L(0.5L * std::log(2 * pi)) + i * (L(1 / 12.0L) - j * (L(1 / 360.0L) - j * (L(1 / 1260.0L) - j * L(1 / 1680.0L))));
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    auto energies = [=](unsigned n) {
        std::vector<double> Ts(E_BRANCH, E_BRANCH + NEB);
        for (double T : spread(n, o.thorough ? 8 : 40)) Ts.push_back(T);
        return Ts;
    };
#ifdef NO_INTERNALS
    // the contributions are not available under their names: only their sum
    for (int z = 1; z <= 108; z++)
        jobs.push_back({mc::fmt("sum/Zp%d", z), [=](mc::Ctx &c) {
            for (int t = 1; t <= 98; t++)
                for (double T : energies(z * 98 + t)) {
                    Projectile p = proj(z, 1.08, T);
                    Material m = elem(t);
                    c.t(2);
                    c.trace();
                    c.eq(dedx(p, m), ref::dedx(rproj(p), T, {{nat(t), t, 1.0}}, rcfg(Config())), 1e-7, 0, "stopping power of Z=%d in Z=%d at %g", z, t, T);
                    c.state(mc::hd(z * 200 + t, T));
                }
        }});
#else
    for (int z = 1; z <= 108; z++)
        jobs.push_back({mc::fmt("Zp%d", z), [=](mc::Ctx &c) {
            for (int t = 1; t <= 98; t++) {
                Target g;
                const double ta = tmass(t, z);
                g.A = ta;
                g.Z = t;
                Material m(ta, t, frozen::density[t]);
                ref::Part rp = {ta, t, 1.0};
                std::string w = mc::fmt("Z=%d in Z=%d", z, t);
                for (double T : energies(z * 98 + t))
                    for (double sc : {1.0, 1.08}) {
                        Projectile p = proj(z, sc, T);
                        ref::Proj rq = rproj(p);
                        double n = dedx_n(p, g);
                        c.eq(n, ref::nuclear(rq, T, rp), 1e-9, 0, "nuclear stopping of %s at %g", w.c_str(), T);
                        c.eq(dedx_n(p, m), n, 1e-12, 0, "nuclear stopping of %s at %g in the material", w.c_str(), T);
                        c.eq(reduced_energy_loss_unit(p, g), 32530 * ta * T * p.A / ((double)z * t * (p.A + ta) * (pow(z, 0.23) + pow(t, 0.23))), 1e-9, 0, "reduced energy of %s at %g", w.c_str(), T);
                        c.eq(pair_production(p, g), ref::pairs(rq, T, rp), 1e-8, 1e-12, "pair production of %s at %g", w.c_str(), T);
                        c.eq(bremsstrahlung(p, g), ref::brems(rq, T, rp), 1e-8, 0, "bremsstrahlung of %s at %g", w.c_str(), T);
                        c.eq(energy_straggling_firsov(z, T, t, ta), 4.8184e-3 * pow(z + t, 8.0 / 3) / ta * ref::beta2(T) * ref::alpha_inv * ref::alpha_inv, 1e-7, 0, "Firsov straggling of %s at %g", w.c_str(), T);
                        c.eq(angular_scattering_power(p, g, 225.0), 225.0 * z * z / (ref::rad_length(t, ta) * pow(ref::pv(rq, T), 2)), 1e-9, 0, "scattering power of %s at %g", w.c_str(), T);
                        c.eq(angular_scattering_power(p, m, 225.0), angular_scattering_power(p, g, 225.0), 1e-12, 0, "scattering power of %s at %g in the material", w.c_str(), T);
                        if (T > 0.0011) {
                            double p1 = ref::mom(1.7 * T, p.A), b1 = p1 / ((1.7 * T + ref::u) * p.A), pv = ref::pv(rq, T);
                            double l1 = log10(1 - pow(pv / (p1 * b1), 2)), l2 = log10(pv), f = 0.5244 + 0.1975 * l1 + 0.2320 * l2 - 0.0098 * l1 * l2;
                            c.eq(angular_scattering_power_xs(p, m, p1, b1), f * 225 * z * z / (scattering_length(m) * pv * pv), 1e-8, 1e-12, "modified scattering power of %s at %g", w.c_str(), T);
                        }
                        for (int low = 0; low < 2; low++) {
                            double s = srim_dedx_e(z, t, T, low);
                            c.eq(s, ref::srim(z, t, T, low), 1e-8, 0, "low-energy stopping of %s at %g version %d", w.c_str(), T, low);
                            c.eq(sezi_dedx_e(p, m, cfg(1, 0, 1, low)), 100 * ref::NA * s / ta, 1e-8, 0, "low-energy stopping of %s at %g version %d in the material", w.c_str(), T, low);
                        }
                        if (z == 1) {
                            c.eq(p_se(t, T), ref::proton_se(t, T, true), 1e-9, 0, "proton stopping in Z=%d at %g", t, T);
                        }
                        double eta = sqrt(T * (T + 2 * ref::u)) / ref::u;
                        c.eq(bethek_density_effect(ref::beta(T), t), ref::density_effect(T, t), 1e-6, 1e-6, "density effect in Z=%d at %g", t, T);
                        for (double ze : {1.0, 0.5 * z, (double)z}) c.eq(bethek_barkas(ze, eta, t), ref::barkas(ze, eta, t), 1e-9, 0, "Barkas factor of charge %g in Z=%d at %g", ze, t, T);
                        if (T > 1)
                            for (int corr : {0, 1, 2, 4, 8, 15})
                                for (double I : {0.0, 123.0}) {
                                    Config k = cfg(1, corr);
                                    double b = bethek_dedx_e(p, g, k, I), r = ref::bethe(rq, T, rp, rcfg(k), I);
                                    c.eq(b, r, 1e-7, 1e-7 * z * z, "Bethe stopping of %s at %g corrections %d I %g", w.c_str(), T, corr, I);
                                    c.t();
                                    m.I(I);
                                    c.eq(bethek_dedx_e(p, m, k), b, 1e-12, 0, "Bethe stopping of %s at %g in the material", w.c_str(), T);
                                    m.I(0);
                                }
                        c.t(18);
                        c.trace();
                        c.state(mc::hd(mc::hd(z * 200 + t, n), T));
                        // the contributions add up
                        double e = T <= 10 ? sezi_dedx_e(p, m) : T >= 30 ? bethek_dedx_e(p, m) : (1.5 - T / 20) * sezi_dedx_e(p, m) + (T / 20 - 0.5) * bethek_dedx_e(p, m);
                        c.eq(dedx(p, m), n + e, 1e-9, 0, "sum of the contributions to the stopping power of %s at %g", w.c_str(), T);
                        c.eq(domega2dx(p, m), dedx_variance(p, g), 1e-12, 0, "energy-loss variance of %s at %g", w.c_str(), T);
                    }
            }
        }});
    // weights of the constituents
    for (int b = 0; b < NCOMP; b += 10)
        jobs.push_back({mc::fmt("compounds/%d", b), [=](mc::Ctx &c) {
            for (int k = b; k < b + 10 && k < NCOMP; k++) {
                Material m = comp(k);
                ref::Mat rm = rmat(m);
                double mol = 0, cnt = 0;
                for (auto &t : rm) cnt += t.w / t.A;
                for (size_t i = 0; i < rm.size(); i++) mol += m.molar_fraction(i);
                for (size_t i = 0; i < rm.size(); i++) {
                    c.eq(m.weight_fraction(i), rm[i].w, 1e-9, 0, "weight fraction %zu of compound %d", i, frozen::comp[k].id);
                    c.eq(m.molar_fraction(i) / mol, rm[i].w / rm[i].A / cnt, 1e-9, 0, "molar fraction %zu of compound %d", i, frozen::comp[k].id);
                    c.t(2);
                }
                for (int z : PZ)
                    for (double T : energies(z * 17 + k)) {
                        Projectile p = proj(z, 1, T);
                        double n = 0, s = 0, h = 0, v = 0;
                        for (size_t i = 0; i < rm.size(); i++) {
                            Target g = m.get_element(i);
                            n += rm[i].w * dedx_n(p, g);
                            s += rm[i].w * 100 * ref::NA * srim_dedx_e(z, g.Z, T, false) / g.A;
                            if (T > 1) h += rm[i].w * bethek_dedx_e(p, g);
                            v += rm[i].w * dedx_variance(p, g);
                        }
                        c.t(5);
                        c.trace();
                        c.eq(dedx_n(p, m), n, 1e-9, 0, "nuclear stopping of Z=%d in compound %d at %g", z, frozen::comp[k].id, T);
                        c.eq(sezi_dedx_e(p, m), s, 1e-8, 0, "low-energy stopping of Z=%d in compound %d at %g", z, frozen::comp[k].id, T);
                        if (T > 1) c.eq(bethek_dedx_e(p, m), h, 1e-9, 0, "Bethe stopping of Z=%d in compound %d at %g", z, frozen::comp[k].id, T);
                        c.eq(domega2dx(p, m), v, 1e-9, 0, "energy-loss variance of Z=%d in compound %d at %g", z, frozen::comp[k].id, T);
                        c.state(mc::hd(mc::hd(z * 1000 + k, n), v));
                    }
            }
        }});
    // complex gamma function and confluent hypergeometric function
    for (int b = -24; b <= 24; b++)
        jobs.push_back({mc::fmt("functions/%d", b), [=](mc::Ctx &c) {
            for (double y : {0.0, 1e-3, 0.1, 0.5, 1.0, 2.0, 5.0, 10.0, 40.0, -0.3, -3.0, -25.0})
                for (double f : {0.03, 0.25, 0.5, 0.77, 0.999}) {
                    C z(b + f, y);
                    // beyond, the sine of the reflection formula overflows
                    if (z.real() < 0 && fabs(y) > 40) continue;
                    C v = lngamma(z);
                    L r = lgam(L(z.real(), z.imag()));
                    c.t();
                    c.trace();
                    c.eq(v.real(), r.real(), 1e-8, 2e-8, "log gamma of %g%+gi, real part", z.real(), z.imag());
                    double d = v.imag() - (double)r.imag();
                    d -= 2 * M_PI * std::round(d / (2 * M_PI));
                    c.eq(d, 0, 0, 2e-8 * (1 + std::abs(z)), "log gamma of %g%+gi, imaginary part", z.real(), z.imag());
                    if (y == 0 && z.real() > 0) c.eq(v.real(), std::lgamma(z.real()), 1e-8, 2e-8, "log gamma of %g", z.real());
                    c.state(mc::hd(mc::hd(b, v.real()), v.imag()));
                    for (double q : {0.37, 1.0, 2.5, 7.25, 31.0})
                        for (C x : {C(0, 0), C(0, 1e-4), C(0, 0.03), C(0, 0.6), C(0, 4), C(0.4, 0), C(-1.5, 0), C(0.7, -0.9)}) {
                            if (std::abs(z) > 15) continue; // of the order of the parameters which occur together with large arguments
                            C h = hyperg(z, C(q, 0), x);
                            L s = 1, t = 1, X(x.real(), x.imag()), Z(z.real(), z.imag());
                            long double big = 1;
                            for (int n = 0; n < 400; n++) {
                                t *= (Z + L(n)) / L(q + n) * X / L(n + 1);
                                s += t;
                                big = std::max(big, std::abs(t));
                            }
                            C e(s.real(), s.imag());
                            c.t();
                            c.trace();
                            double err = std::abs(h - e), tol = 1e-5 + 1e-5 * std::abs(e) + 1e-12 * (double)big;
                            if (!(err <= tol)) c.fail(mc::fmt("hypergeometric function of %g%+gi, %g, %g%+gi: %g%+gi instead of %g%+gi", z.real(), z.imag(), q, x.real(), x.imag(), h.real(), h.imag(), e.real(), e.imag()));
                            c.state(mc::hd(mc::hd(q, h.real()), h.imag()));
                        }
                }
        }});
#endif
    return mc::run(o, jobs);
}
