// C27: time of flight, kinematics, magnification
#define REACTIONS_H // another definition of the momentum is in that header; here the library's own counts
#include "common.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    const double cl = 29.9792458; // cm/ns
    auto visit = [=](mc::Ctx &c, const Projectile &p0, Material m, const Config &k, const std::string &w0, unsigned n) {
        std::vector<double> Ts = {0.05, 0.8, 6.0, 12.0, 50.0, 200.0, 900.0, 2e4, 6e5};
        for (double T : spread(n, 640)) // astatine and francium: see the known findings of C29
            if (T > 0.02 && T < 4.4e4) Ts.push_back(T); // above, the onset of pair production is smoothed by the tables
        for (double T : Ts) {
            if (k.z_effective == 3 && T < 7) continue;
            Projectile p = p0;
            p.T = T;
            const double rho = m.density();
            double R = range(p, m, k), prev = 0, pth = 0;
            auto tof = [&](double T0, double th) { m.thickness(th); return calculate(p(T0), m, k).tof; };
            for (double f : {1e-5, 1e-3, 0.03, 0.2, 0.5, 0.8, 0.95}) {
                double th = f * R, L = th / rho;
                p.T = T;
                m.thickness(th);
                Result r = calculate(p, m, k);
                std::string w = mc::fmt("%s at %g MeV/u, %g of the range", w0.c_str(), T, f);
                c.t(2);
                c.trace();
                c.state(mc::hd((int)p.Z, r.tof));
                const double eth = 1e-5 / th / (1 - f); // exit energies are found to 1e-5 g/cm2
                double lo = L / (cl * ref::beta(T)), hi = L / (cl * ref::beta(r.Eout));
                if (!(r.tof >= lo * (1 - 2e-3 - 2 * eth) && r.tof <= hi * (1 + 2e-3 + 2 * eth))) c.fail(mc::fmt("%s: time of flight %.10g not between %.10g and %.10g", w.c_str(), r.tof, lo, hi));
                if (th - pth > 3e-5 && !(r.tof > prev)) c.fail(mc::fmt("%s: time of flight does not grow with thickness: %.10g after %.10g", w.c_str(), r.tof, prev));
                prev = r.tof;
                pth = th;
                // integral along the path
                auto iv = [&](double x) { m.thickness(x); return 1 / (cl * ref::beta(energy_out(p, m, k))); };
                const double lim = f < 0.3 ? 5e-4 : f < 0.6 ? 1e-3 : f < 0.9 ? 6e-3 : 0.2;
                double e = ref::gl10(iv, 0, th, f > 0.4 ? 4 : 1) / rho;
                if (eth < 1e-4) c.maxi(mc::fmt("relative deviation from the path integral, %g", f).c_str(), fabs(r.tof / e - 1));
                c.eq(r.tof, e, lim + 4 * eth, 0, "%s: time of flight against path integral", w.c_str());
                c.eq(calculate_tof_from_E(p(T), r.Eout, m, k), r.tof, 1e-9, 0, "%s: time of flight from energies", w.c_str());
                p.T = T;
                for (double s : {0.1, 3.0}) { // fixed mass thickness
                    Material d = m;
                    d.density(rho * s).thickness(th);
                    c.t();
                    c.eq(calculate(p, d, k).tof * s, r.tof, 1e-9, 0, "%s: time of flight at %g of the density", w.c_str(), s);
                    c.eq(calculate(p, d, k).Eout, r.Eout, 1e-9, 0, "%s: energy at %g of the density", w.c_str(), s);
                }
                // pieces
                for (double g : {0.25, 0.7}) {
                    double t1 = tof(T, g * th);
                    m.thickness(g * th);
                    double em = energy_out(p(T), m, k);
                    double t2 = tof(em, (1 - g) * th);
                    c.t(2);
                    c.eq(t1 + t2, r.tof, lim + 4 * eth, 0, "%s: time of flight of pieces", w.c_str());
                    if (eth < 1e-4) c.maxi(mc::fmt("relative deviation of the sum of pieces, %g", f).c_str(), fabs((t1 + t2) / r.tof - 1));
                }
                p.T = T;
                m.thickness(th);
                // magnification: derivative of the exit with respect to the incident energy
                auto g = w_magnification(p, T, m, k);
                c.t();
                p.T = 1.2345; // only the given energy counts
                auto g2 = w_magnification(p, T, m, k);
                c.eq(g2.first, g.first, 1e-9, 0, "%s: magnification depends on the projectile energy", w.c_str());
                p.T = T;
                if (f <= 0.8) {
                    auto P = [&](double E) { return ref::mom(E, p.A); };
                    double e0 = r.Eout, de = dedx_from_range(p(e0), m, k) / dedx_from_range(p(T), m, k);
                    p.T = T;
                    double e1 = de * T / e0, e2 = de * ref::beta(T) / ref::beta(e0) * P(T) / P(e0), eR = 2e-3 / R, tol = f < 0.6 ? 3e-3 : 1e-2; // a difference over a finite step near the end of the range
                    if (eR < 1e-2) c.maxi(mc::fmt("deviation of magnification, %g", f).c_str(), fabs(g.first / e1 - 1));
                    c.eq(g.first, e1, tol + eR, 0, "%s: energy magnification", w.c_str());
                    c.eq(g.second, e2, tol + eR, 0, "%s: momentum magnification", w.c_str());
                }
            }
            m.thickness(1.02 * R);
            p.T = T;
            auto g = w_magnification(p, T, m, k);
            c.eq(g.first, 0, 0, 0, "%s at %g MeV/u: magnification of a stopping layer", w0.c_str(), T);
            c.eq(g.second, 0, 0, 0, "%s at %g MeV/u: magnification of a stopping layer", w0.c_str(), T);
            c.eq(calculate(p, m, k).tof, 0, 0, 0, "%s at %g MeV/u: time of flight of a stopping layer", w0.c_str(), T);
            m.thickness(0);
            g = w_magnification(p, T, m, k);
            c.eq(g.first, 1, 0, 0, "%s at %g MeV/u: magnification of nothing", w0.c_str(), T);
            c.eq(g.second, 1, 0, 0, "%s at %g MeV/u: magnification of nothing", w0.c_str(), T);
        }
    };
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) { if (o.thorough || (z + k) % 3 == 0) visit(c, proj(z), target(k), Config(), mc::fmt("Z=%d in %s", z, tname(k).c_str()), k == 84 || k == 86 ? ~0u : z * 12 + k / 3); });
    std::vector<Config> cf = one_field_configs();
    for (size_t j = 0; j < cf.size(); j++)
        jobs.push_back({mc::fmt("config/%zu", j), [=](mc::Ctx &c) {
            for (int i = 0; i < 12; i++)
                if (cf[j].scattering != 2 && cf[j].scattering != 1) visit(c, proj(PZ[i], 1.03), target(TK[(i + 5 * j) % 12]), cf[j], mc::fmt("Z=%d in %s {%s}", PZ[i], tname(TK[(i + 5 * j) % 12]).c_str(), cname(cf[j]).c_str()), j * 12 + i);
        }});
    jobs.push_back({"kinematics", [=](mc::Ctx &c) {
        const int N = o.thorough ? 20000 : 6000;
        for (int i = 0; i <= N; i++) {
            double T = pow(10, -6 + 14.0 * i / N), x = T / ref::u;
            double g = gamma_from_T(T), b = beta_from_T(T);
            c.t(4);
            c.trace();
            c.eq(g, 1 + x, 1e-9, 0, "Lorentz factor at %g", T);
            c.eq(b, ref::beta(T), 1e-7, 0, "velocity at %g", T);
            if (!(b >= 0 && b <= 1)) c.fail(mc::fmt("velocity %g at %g", b, T));
            for (double A : {1.0, 12.0, 238.03}) {
                double q = p_from_T(T, A);
                c.eq(q, A * sqrt(T * (T + 2 * ref::u)), 1e-7, 0, "momentum of mass %g at %g", A, T);
                c.eq(q * q, A * A * ((T + ref::u) * (T + ref::u) - ref::u * ref::u), 1e-4, 0, "energy-momentum relation at %g", T);
                c.eq(q / (A * (T + ref::u)), b, 1e-6, 0, "velocity from momentum at %g", T);
            }
            c.state(mc::hd(mc::hd(1, g), b));
        }
        c.eq(gamma_from_T(0), 1, 0, 0, "Lorentz factor at rest");
        c.eq(beta_from_T(0), 0, 0, 0, "velocity at rest");
        c.eq(p_from_T(0, 5), 0, 0, 0, "momentum at rest");
    }});
    return mc::run(o, jobs);
}
