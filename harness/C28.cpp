// C28: moments of the scattering power
#include "common.hpp"
#include "catima/calculations.h"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    auto visit = [=](mc::Ctx &c, const Projectile &p0, Material m, const Config &k, const std::string &w0, bool fine, unsigned n0) {
        ref::Mat rm = rmat(m);
        ref::Proj rp = rproj(p0);
        double X0 = ref::rad_length(rm), XS = ref::scat_length(rm), es2 = ref::es2(k.scattering), rho = m.density();
        std::vector<double> Ts = {0.02, 0.6, 1.5, 6, 12, 50, 200, 900, 2e4, 6e5};
        for (double T : spread(n0, 1280))
            if (T > 0.02 && T < 4.4e4) Ts.push_back(T);
        for (double T : Ts) {
            bool lim = k.scattering == 1 || k.scattering == 2;
            if (lim && T < 1) continue;
            if (k.z_effective == 3 && T < 7) continue;
            if (!fine && (T == 0.02 || T == 0.6 || T == 6 || T == 12 || T == 200 || T == 2e4 || T == 6e5)) continue;
            Projectile p = p0;
            p.T = T;
            double R = range(p, m, k);
            double pv1 = ref::pv(rp, T);
            double stop[3];
            m.thickness(k.scattering == 2 ? 1.25 * R : R);
            for (int n = 0; n < 3; n++) stop[n] = angular_variance(p, m, k, n);
            for (double f : {1e-4, 0.015, 0.1, 0.4, 0.7, 0.9, 1.0, 1.5, 10.0}) {
                if (lim && f < 0.01) continue;
                double th = f * R, L = std::min(f, 1.0) * R / rho;
                m.thickness(th);
                std::string w = mc::fmt("%s at %g MeV/u, %g of the range", w0.c_str(), T, f);
                const double eth = 1e-5 / th / fabs(f < 1 ? 1 - f : 1); // exit energies are found to 1e-5 g/cm2
                double v[3];
                for (int n = 0; n < 3; n++) v[n] = angular_variance(p, m, k, n);
                c.t(3);
                c.trace();
                c.state(mc::hd(mc::hd((int)p.Z, v[0]), v[2]));
                if (f > 1)
                    for (int n = 0; n < 3; n++) c.eq(v[n], stop[n], 1e-9, 0, "%s: moment %d beyond the stopping point", w.c_str(), n);
                if (k.scattering == 2 && f >= 1) continue; // the logarithms of the model make the rest meaningless at the stopping point
                for (int n = 0; n < 3; n++)
                    if (!(v[n] >= 0) || std::isinf(v[n])) c.fail(mc::fmt("%s: moment %d is %g", w.c_str(), n, v[n]));
                if (v[1] * v[1] > v[0] * v[2] * (1 + 1e-9)) c.fail(mc::fmt("%s: covariance %g exceeds the variances %g, %g", w.c_str(), v[1], v[0], v[2]));
                if (!(v[1] <= v[0] * L * (1 + 1e-9) && v[2] <= v[1] * L * (1 + 1e-9))) c.fail(mc::fmt("%s: lever arm beyond the layer", w.c_str()));
                // own integral
                if (f <= 0.7) {
                    auto E = [&](double x) { m.thickness(x * rho); return energy_out(p, m, k); };
                    auto S = [&](double x) {
                        double e = E(x), pv = ref::pv(rp, e);
                        if (k.scattering == 2) {
                            double c1 = log10(1 - pv / pv1 * pv / pv1), c2 = log10(pv), g = 0.5244 + 0.1975 * c1 + 0.2320 * c2 - 0.0098 * c2 * c1;
                            return g * 225.0 * p.Z * p.Z / (XS * pv * pv);
                        }
                        double ff = 1;
                        if (k.scattering == 1) {
                            double l = log(x * rho / X0);
                            ff = 0.97 * (1 + l / 20.7) * (1 + l / 22.7);
                        }
                        return ff * es2 * p.Z * p.Z / (X0 * pv * pv);
                    };
                    // quadratic substitution: the logarithms are singular at the entrance
                    for (int n = 0; n < 3; n++) {
                        double e = k.scattering_factor * rho * ref::gl10([&](double s) { double x = L * s * s; return 2 * s * L * pow(L - x, n) * S(x); }, 0, 1, f > 0.2 ? 3 : 1);
                        double tol = lim ? 0.01 : 5e-4;
                        if (eth < 1e-4) c.maxi(lim ? "deviation of moments, models with logarithms" : "deviation of moments", fabs(v[n] / e - 1));
                        c.eq(v[n], e, tol + 3 * eth, 0, "%s: moment %d", w.c_str(), n);
                    }
                    m.thickness(th);
                }
                if (f < 1) {
                    c.eq(angular_straggling(p, m, k), sqrt(v[0]), 1e-12, 0, "%s: angular straggling", w.c_str());
                    double Eo = energy_out(p, m, k);
                    c.eq(angular_straggling_from_E(p, Eo, m, k), sqrt(v[0]), (f < 0.8 ? 1e-4 : 1e-2) + 2 * eth, 0, "%s: angular straggling from energies", w.c_str());
                    c.t(2);
                }
                Result r = calculate(p, m, k);
                c.t();
                c.eq(r.sigma_x, sqrt(v[2]), 1e-9, 0, "%s: position straggling", w.c_str());
                c.eq(r.cov, v[1], 1e-9, 0, "%s: covariance", w.c_str());
                if (f < 0.75) {
                    c.eq(r.sigma_a, sqrt(v[0]), k.scattering == 255 ? 5e-4 + 3 * eth: 1e-9, 0, "%s: angular straggling of the full result", w.c_str());
                    if (eth < 1e-4) c.maxi("full result against moment", fabs(r.sigma_a / sqrt(v[0]) - 1));
                    if (Result q = r; q.Eout < 0.999 * T) c.eq(energy_straggling_from_E(p, T, q.Eout, m, k), q.sigma_E, 1e-9, 0, "%s: energy straggling from energies", w.c_str());
                }
                // density
                for (double s : {0.2, 5.0}) {
                    Material d = m;
                    d.density(rho * s).thickness(th);
                    Result q = calculate(p, d, k);
                    c.t();
                    c.eq(q.sigma_x * s, r.sigma_x, 1e-9, 0, "%s: position straggling at %g of the density", w.c_str(), s);
                    c.eq(q.cov * s, r.cov, 1e-9, 0, "%s: covariance at %g of the density", w.c_str(), s);
                    c.eq(q.sigma_a, r.sigma_a, 1e-9, 0, "%s: angular straggling at %g of the density", w.c_str(), s);
                }
                // the factor multiplies the variances
                Config k2 = k;
                k2.scattering_factor *= 2.25;
                for (int n = 0; n < 3; n++) c.eq(angular_variance(p, m, k2, n), 2.25 * v[n], 1e-9, 0, "%s: moment %d with another factor", w.c_str(), n);
                Result q = calculate(p, m, k2);
                c.eq(q.sigma_a, 1.5 * r.sigma_a, 1e-5, 0, "%s: angular straggling with another factor", w.c_str());
                c.eq(q.sigma_x, 1.5 * r.sigma_x, 1e-9, 0, "%s: position straggling with another factor", w.c_str());
                c.t(4);
            }
        }
    };
    for (int sc : {255, 0, 1, 2})
        pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) {
            if (!o.thorough && (z + k + sc) % 4) return;
            visit(c, proj(z), target(k), cfg(1, 0, 1, 0, sc), mc::fmt("Z=%d in %s, scattering model %d", z, tname(k).c_str(), sc), (z + k) % 8 == 0, k == 84 || k == 86 ? ~0u : z * 3 + k / 4 + 320 * sc); // astatine and francium: see the known findings of C29
        }, mc::fmt("scattering%d", sc).c_str());
    std::vector<Config> cf = one_field_configs();
    for (size_t j = 0; j < cf.size(); j++)
        jobs.push_back({mc::fmt("config/%zu", j), [=](mc::Ctx &c) {
            for (int i = 0; i < 12; i++) visit(c, proj(PZ[i], 1.03), target(TK[(i + 5 * j) % 12]), cf[j], mc::fmt("Z=%d in %s {%s}", PZ[i], tname(TK[(i + 5 * j) % 12]).c_str(), cname(cf[j]).c_str()), true, j * 12 + i);
        }});
    // local scattering power
    for (int t = 0; t < NTARGET; t += 10)
        jobs.push_back({mc::fmt("power/%d", t), [=](mc::Ctx &c) {
            for (int k = t; k < t + 10 && k < NTARGET; k++) {
                Material m = target(k);
                ref::Mat rm = rmat(m);
                c.eq(radiation_length(m), ref::rad_length(rm), 1e-9, 0, "radiation length of %s", tname(k).c_str());
                c.eq(scattering_length(m), ref::scat_length(rm), 1e-9, 0, "scattering length of %s", tname(k).c_str());
                for (int z = 1; z <= 108; z++)
                    for (double T : {1e-3, 0.5, 20.0, 700.0, 1e6})
                        for (int sc : {255, 0, 1, 2})
                            for (double fac : {1.0, 0.7}) {
                                Projectile p = proj(z, 1, T);
                                Config f = cfg(1, 0, 1, 0, sc, fac);
                                double v = da2dx(p, m, f);
                                c.t();
                                c.trace();
                                c.eq(v, fac * ref::es2(sc) * z * z / (ref::rad_length(rm) * pow(ref::pv(rproj(p), T), 2)), 1e-8, 0, "scattering power of Z=%d in %s at %g, model %d, factor %g", z, tname(k).c_str(), T, sc, fac);
                                c.state(mc::hd(z, v));
                            }
            }
        }});
    return mc::run(o, jobs);
}
