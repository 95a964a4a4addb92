// C06: all results finite and non-negative
#include "common.hpp"
static void one(mc::Ctx &c, Projectile p, Material m, double T, double f, const Config &k, const std::string &w) {
    p.T = T;
    double R = range(p, m, k), th = f * R;
    if (!(th > 0)) th = f * 1e-6; // at the lowest energy the range is zero
    m.thickness(th);
    Result r = calculate(p, m, k);
    RV v = rv(r);
    c.t(2);
    c.trace();
    for (int i = 0; i < NRES - 1; i++)
        if (!(std::isfinite(v.v[i]) && v.v[i] >= 0)) c.fail(mc::fmt("%s at %g MeV/u, thickness %g of the range: %s = %g", w.c_str(), T, f, RES_NAME[i], v.v[i]));
#ifdef REACTIONS
    if (!((r.sp >= 0 && r.sp <= 1) || r.sp == -1)) c.fail(mc::fmt("%s at %g MeV/u, thickness %g of the range: survival probability %g", w.c_str(), T, f, r.sp));
#endif
    if (th >= R * (1 + 1e-9)) {
        if (r.Eout != 0 || r.dEdxo != 0 || r.sigma_E != 0 || r.sigma_a != 0 || r.tof != 0) c.fail(mc::fmt("%s at %g MeV/u stopped: Eout=%g dEdxo=%g sigma_E=%g sigma_a=%g tof=%g", w.c_str(), T, r.Eout, r.dEdxo, r.sigma_E, r.sigma_a, r.tof));
    }
    c.state(hrv(mc::mix((int)p.Z, m.ncomponents()), v));
}
static const double FR[] = {1e-7, 1e-4, 0.0005, 0.0012, 0.01, 0.1, 0.5, 0.9, 0.99, 0.9999, 0.999999, 1.0, 1.001, 3};
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    const int nf = sizeof(FR) / sizeof(double);
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) {
        std::string w = mc::fmt("Z=%d in %s", z, tname(k).c_str());
        for (int e = 0; e < NEB; e++)
            for (int f = 0; f < nf; f++) one(c, proj(z), target(k), E_BRANCH[e], FR[f], Config(), w);
        Material m = target(k);
        m.thickness(0.1);
        for (double T : {0.0, 1e-9, 5e-4, 0.0009999, -1.0}) {
            RV v = rv(calculate(proj(z, 1, T), m)), zero = {};
            zero.v[NRES - 1] = v.v[NRES - 1]; // survival probability is not an energy quantity
            c.t();
            c.trace();
            same(c, v, zero, 0, 0, w + mc::fmt(" at %g MeV/u", T));
        }
    });
    std::vector<Config> cf = all_configs();
    for (size_t j = 0; j < cf.size(); j++)
        jobs.push_back({mc::fmt("config/%zu", j), [=](mc::Ctx &c) {
            for (int i = 0; i < 12; i++)
                for (int t = 0; t < 12; t++) {
                    // each configuration meets every projectile and every target of the menu
                    if (!o.thorough && (i + t + j) % 12 > 1) continue;
                    std::string w = mc::fmt("Z=%d in %s {%s}", PZ[i], tname(TK[t]).c_str(), cname(cf[j]).c_str());
                    bool lim = cf[j].scattering == 1 || cf[j].scattering == 2;
                    for (double T : {0.001, 0.0015, 0.02, 0.3, 1.0, 2.4, 9.0, 25.0, 31.0, 400.0, 2e4, 3e5, 1e7})
                        for (double f : {1e-5, 0.0011, 0.011, 0.3, 0.9, 0.999, 1.01}) {
                            if (lim && (T < 1 || f < 0.01)) continue;
                            one(c, proj(PZ[i]), target(TK[t]), T, f, cf[j], w);
                        }
                }
        }});
    return mc::run(o, jobs);
}
