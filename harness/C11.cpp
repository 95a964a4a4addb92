// C11: effective charges
#include "common.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    for (int z = 1; z <= 108; z++)
        jobs.push_back({mc::fmt("Zp%d", z), [=](mc::Ctx &c) {
            Projectile p = proj(z);
            const int N = o.thorough ? 400 : 100;
            for (int t = 1; t <= 98; t++) {
                Target tg;
                tg.A = nat(t);
                tg.Z = t;
                std::vector<double> fine = spread(z * 98 + t, 32);
                for (int i = 0; i < NEB + N + (int)fine.size(); i++) {
                    double T = i < NEB ? E_BRANCH[i] : i < NEB + N ? pow(10, -3 + 10.0 * (i - NEB) / (N - 1)) : fine[i - NEB - N];
                    double b = ref::beta(T);
                    p.T = T;
                    for (int ze = 1; ze <= 5; ze++) {
                        double v = z_effective(p, tg, cfg(ze)), r = ref::z_eff(rproj(p), T, t, ze);
                        c.t();
                        c.trace();
                        c.eq(v, r, 1e-8, 1e-9 * z, "model %d, Z=%d in Z=%d at %.10g MeV/u", ze, z, t, T);
                        c.state(mc::hd(mc::mix(ze, z), v));
                    }
                    if (i < NEB) {
                        c.t(5);
#ifndef NO_INTERNALS
                        c.eq(z_eff_Anthony_Landford(z, b, t), ref::z_anthony(z, b, t), 1e-9, 1e-9 * z, "Anthony-Landford z=%d t=%d T=%g", z, t, T);
#endif
                        c.eq(z_eff_Hubert(z, T, t), ref::z_hubert(z, T, t), 1e-9, 1e-9 * z, "Hubert z=%d t=%d T=%g", z, t, T);
                        c.eq(z_eff_Winger(z, b, t), ref::z_winger(z, b, t), 1e-9, 1e-9 * z, "Winger z=%d t=%d T=%g", z, t, T);
                        c.eq(z_eff_Schiwietz(z, b, t), ref::z_schiwietz(z, b, t), 1e-9, 1e-9 * z, "Schiwietz z=%d t=%d T=%g", z, t, T);
                        c.eq(z_eff_Pierce_Blann(z, b), ref::z_pierce(z, b), 1e-9, 1e-9 * z, "Pierce-Blann z=%d T=%g", z, T);
                        for (int q = 1; q <= z; q++) {
                            Projectile pq(nat(z), z, q, T);
                            c.t();
                            c.trace();
                            c.eq(z_effective(pq, tg, cfg(0)), q, 0, 0, "charge state %d of Z=%d in Z=%d at %g MeV/u", q, z, t, T);
                        }
                        Projectile pf(nat(z), z, z - 0.37, T);
                        c.eq(z_effective(pf, tg, cfg(0)), z - 0.37, 0, 0, "fractional charge state of Z=%d", z);
                    }
                }
            }
            // default model: bounded and growing
            Target tg;
            tg.A = 12.011;
            tg.Z = 6;
            double last = -1;
            const int M = 4000;
            for (int i = 0; i <= M; i++) {
                double T = pow(10, -3 + 10.0 * i / M);
                double v = z_effective(p(T), tg, Config());
                c.t();
                if (!(v >= 0 && v <= z)) c.fail(mc::fmt("default charge of Z=%d at %g MeV/u is %g", z, T, v));
                if (!(v > last || (v >= last * (1 - 1e-12) && (T > 1e5 || v >= z * (1 - 1e-9))))) c.fail(mc::fmt("default charge of Z=%d does not grow at %g MeV/u: %.15g after %.15g", z, T, v, last));
                last = v;
            }
            Projectile d(nat(z), z);
            c.eq(d.Q, z, 0, 0, "charge state of a projectile without one");
            c.sample(mc::fmt("Z=%d at 10 MeV/u: %.8g", z, z_effective(p(10), tg, Config())));
        }});
    return mc::run(o, jobs);
}
