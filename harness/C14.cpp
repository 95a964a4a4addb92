// C14: the C interface gives the numbers of the C++ interface
#include "common.hpp"
#define z_eff_type c_z_eff_type
#define none c_none
#define pierce_blann c_pierce_blann
#define anthony_landorf c_anthony_landorf
#define hubert c_hubert
#define winger c_winger
#define schiwietz c_schiwietz
#define global c_global
#define atima14 c_atima14
#include "catima/cwrapper.h"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    auto visit = [=](mc::Ctx &c, double pa, int pz, double ta, double tz, int ze, bool full) {
        catima_defaults.z_effective = ze;
        Config k = cfg(ze);
        auto mat = [&](double th, double rho) {
            Material m;
            if (tz > 200) m = get_material((int)tz);
            else m.add_element(ta > 0 ? ta : nat((int)tz), (int)tz, 1);
            m.density(rho > 0 ? rho : (tz > 200 ? frozen::comp[(int)tz - 201].density : frozen::density[(int)tz]));
            m.thickness(th);
            return m;
        };
        std::string w = mc::fmt("Z=%d A=%g in (%g,%g) model %d", pz, pa, ta, tz, ze);
        static const double Ts[] = {0.5, 8, 25, 95, 700, 7e4};
        for (int iT = 0; iT < 6; iT++) {
            double T = Ts[iT];
            if (!full && iT != 1 && iT != 3 && iT != 4) continue;
            Projectile p(pa, pz, 0, T);
            Material m0 = mat(0, -1);
            double R = range(p, m0, k);
            c.t(8);
            c.trace();
            c.eq(catima_range(pa, pz, T, ta, tz), R, 1e-9, 0, "%s at %g: range", w.c_str(), T);
            c.eq(catima_range_straggling(pa, pz, T, ta, tz), range_straggling(p, T, m0, k), 1e-9, 0, "%s at %g: range straggling", w.c_str(), T);
            for (double fo : {0.3, 0.9}) {
                c.eq(catima_angular_straggling_from_E(pa, pz, T, fo * T, ta, tz), angular_straggling_from_E(p, fo * T, m0, k), 1e-9, 0, "%s at %g to %g: angular straggling", w.c_str(), T, fo * T);
                c.eq(catima_energy_straggling_from_E(pa, pz, T, fo * T, ta, tz), energy_straggling_from_E(p, T, fo * T, m0, k), 1e-9, 0, "%s at %g to %g: energy straggling", w.c_str(), T, fo * T);
            }
            for (double f : {0.0, 3e-4, 0.3, 0.9, 1.5})
                for (double rho : {-1.0, 0.0, 0.7, 12.0}) {
                    if (!full && rho != -1 && rho != 0.7) continue;
                    double th = f * R;
                    Material m = mat(th, rho);
                    c.t(2);
                    c.trace();
                    Result r = calculate(p, m, k);
                    CatimaResult s = catima_calculate(pa, pz, T, ta, tz, th, rho);
                    double a[10] = {s.Ein, s.Eout, s.Eloss, s.range, s.dEdxi, s.dEdxo, s.sigma_E, s.sigma_a, s.sigma_r, s.tof};
                    double b[10] = {r.Ein, r.Eout, r.Eloss, r.range, r.dEdxi, r.dEdxo, r.sigma_E, r.sigma_a, r.sigma_r, r.tof};
                    static const char *n[10] = {"Ein", "Eout", "Eloss", "range", "dEdxi", "dEdxo", "sigma_E", "sigma_a", "sigma_r", "tof"};
                    uint64_t h = mc::mix(pz, (int)tz);
                    for (int i = 0; i < 10; i++) {
                        c.eq(a[i], b[i], 1e-9, 0, "%s at %g thickness %g density %g: %s", w.c_str(), T, th, rho, n[i]);
                        h = mc::hd(h, a[i]);
                    }
                    c.state(h);
                    c.eq(catima_Eout(pa, pz, T, ta, tz, th, rho), energy_out(p, m, k), 1e-9, 0, "%s at %g thickness %g density %g: exit energy", w.c_str(), T, th, rho);
                    if (rho == -1) c.eq(catima_nonreaction_rate(pa, pz, T, ta, tz, th), nonreaction_rate(p, m, k), 1e-9, 0, "%s at %g thickness %g: survival", w.c_str(), T, th);
                }
        }
    };
    for (int z = 1; z <= 108; z++)
        jobs.push_back({mc::fmt("elements/Zp%d", z), [=](mc::Ctx &c) {
            for (int t = 1; t <= 98; t++) {
                if (!o.thorough && (t + z) % 9 && !in(PZ, 12, z)) continue;
                visit(c, nat(z), z, 0, t, 1, o.thorough);
                if ((t + z) % 5 == 0) visit(c, 2.1 * z, z, nat(t) * 1.02, t, 1 + z % 5, o.thorough);
                if ((t + z) % 13 == 0) visit(c, nat(z), z, 0, t, 0, true);
            }
            c.sample(mc::fmt("range of Z=%d in Cu at 100: %.8g", z, catima_range(nat(z), z, 100, 0, 29)));
        }});
    for (int k = 0; k < NCOMP; k++)
        jobs.push_back({mc::fmt("compound/id%d", frozen::comp[k].id), [=](mc::Ctx &c) {
            for (int i = 0; i < 12; i++) {
                if (!o.thorough && (i + k) % 3) continue;
                visit(c, nat(PZ[i]), PZ[i], 0, frozen::comp[k].id, (i + k) % 6, true);
                if (i == k % 12) visit(c, nat(PZ[i]), PZ[i], 55, frozen::comp[k].id, 1, false);
            }
        }});
    jobs.push_back({"weights", [=](mc::Ctx &c) {
        for (int z = -5; z <= 130; z++) {
            c.t();
            c.trace();
            c.eq(atomic_weight(z), z >= 1 && z <= 109 ? frozen::weight[z] : 0, 1e-12, 0, "atomic weight of %d", z);
            c.state(mc::hd(z, atomic_weight(z)));
        }
    }});
    return mc::run(o, jobs);
}
