// C11: the effective-charge models which need the GLOBAL code (built with a stand-in for it)
#include "common.hpp"
#include "globallib.h"
static double rglobal(double z, double T, double t) { return T > 2000 ? z : T < 30 || z < 29 ? ref::z_pierce(z, ref::beta(T)) : global_qmean(z, t, T); }
static double ratima14(double z, double T, double t) {
    double b = ref::beta(T), g = ref::gamma(T), pb = ref::z_pierce(z, b), w = ref::z_winger(z, b, t);
    double hi = z * (1 - exp(-180 * b * pow(g, 0.18) * pow(z, -0.82) * pow(t, 0.1)));
    double q = (rglobal(z, T, t) - pb) * 1.4 / pow(t + 1, 0.28) * (1 - exp(-0.04 * T)) + pb, lo;
    if (T > 1500) return hi;
    if (z <= 28 || T < 30) lo = w;
    else if (T >= 70) lo = q;
    else lo = T == 30 ? w : ((70 - T) * w + (T - 30) * q) / 40;
    return T < 1000 ? lo : T == 1500 ? hi : ((1500 - T) * lo + (T - 1000) * hi) / 500;
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    jobs.push_back({"default", [=](mc::Ctx &c) {
        c.t(2);
        c.trace(2);
        c.eq(Config().z_effective, 7, 0, 0, "model of a default configuration");
        c.eq(default_config.z_effective, 7, 0, 0, "model of the process-wide configuration");
    }});
    for (int z = 1; z <= 108; z++)
        jobs.push_back({mc::fmt("Zp%d", z), [=](mc::Ctx &c) {
            Projectile p = proj(z);
            const int N = o.thorough ? 400 : 100;
            std::vector<double> Ts(E_BRANCH, E_BRANCH + NEB);
            for (double e : {30.0, 70.0, 1000.0, 1500.0, 2000.0}) for (double s : {1 - 1e-9, 1.0, 1 + 1e-9}) Ts.push_back(e * s);
            for (int i = 0; i < N; i++) Ts.push_back(pow(10, -3 + 10.0 * i / (N - 1)));
            for (int t = 1; t <= 98; t++) {
                Target tg;
                tg.A = nat(t);
                tg.Z = t;
                for (double T : Ts) {
                    p.T = T;
                    double a = z_effective(p, tg, cfg(6)), b = z_effective(p, tg, cfg(7));
                    c.t(2);
                    c.trace(2);
                    c.eq(a, rglobal(z, T, t), 1e-8, 1e-9 * z, "GLOBAL charge of Z=%d in Z=%d at %.10g MeV/u", z, t, T);
                    // the pieces meet with a step only where the models differ
                    c.eq(b, ratima14(z, T, t), 1e-7, 1e-9 * z, "ATIMA 1.4 charge of Z=%d in Z=%d at %.10g MeV/u", z, t, T);
                    c.state(mc::hd(mc::hd(z, a), b));
                }
            }
            for (int k = 0; k < NTARGET; k += 6)
                for (double T : {20.0, 55.0, 400.0, 1200.0, 3000.0}) {
                    Material m = target(k);
                    p.T = T;
                    // the charge governs the stopping power through its square
                    Config c6 = cfg(6);
                    c6.corrections = 15;
                    Config c0 = cfg(0);
                    c0.corrections = 15;
                    if (m.ncomponents() != 1) continue;
                    Projectile q = p;
                    q.Q = z_effective(p, m.get_element(0), c6);
                    c.t(2);
                    c.trace();
                    c.eq(dedx(p, m, c6), dedx(q, m, c0), 1e-9, 0, "stopping power of Z=%d in %s at %g with the GLOBAL charge", z, tname(k).c_str(), T);
                }
        }});
    return mc::run(o, jobs);
}
