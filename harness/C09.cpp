// C09: stopping power against the reference model
#include "common.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    // all projectiles x all elements x energies x all switches
    for (int z = 1; z <= 108; z++)
        jobs.push_back({mc::fmt("elements/Zp%d", z), [=](mc::Ctx &c) {
            for (int t = 1; t <= 98; t++) {
                Material m = elem(t);
                ref::Mat rm = {{nat(t), t, 1.0}};
                for (int ie = 0; ie < NEB; ie++) {
                    double T = E_BRANCH[ie];
                    for (double sc : {1.0, 0.93}) {
                        Projectile p = proj(z, sc, T);
                        p.Q = z > 1 ? z - 1 : 1;
                        int nc = 0;
                        for (int low = 0; low < 2; low++)
                            for (int corr = 0; corr < 16; corr++)
                                for (int ze = 0; ze <= 5; ze++) {
                                    // branch relevance: below 10 MeV/u only the SRIM version matters; all switch
                                    // combinations are still executed for the natural mass
                                    if (sc != 1.0 && (low || ze > 1)) continue;
                                    if (!o.thorough && T <= 9.999 && (corr & (corr - 1)) && corr != 15) continue;
                                    Config k = cfg(ze, corr, 1, low);
                                    double v = dedx(p, m, k), r = ref::dedx(rproj(p), T, rm, rcfg(k));
                                    c.t();
                                    nc++;
                                    if (!c.eq(v, r, 1e-7, 0, "dE/dx of Z=%d A=%.6g Q=%g in Z=%d at %.10g MeV/u %s", z, p.A, p.Q, t, T, cname(k).c_str())) continue;
                                    if (!(v > 0)) c.fail(mc::fmt("dE/dx of Z=%d in Z=%d at %g is %g, not positive", z, t, T, v));
                                    c.state(mc::hd(mc::mix(z, t), v));
                                }
                        c.trace(nc);
                    }
                }
                // fine energy grid, the switches rotate
                {
                    unsigned n = z * 98 + t;
                    double ta = tmass(t, z);
                    Material mi(ta, t, 1.0);
                    ref::Mat ri = {{ta, t, 1.0}};
                    for (double T : spread(n, 64)) {
                        for (int low = 0; low < 2; low++) {
                            Config k = cfg(n % 6, (n / 6) % 16, 1, low);
                            Projectile p = proj(z, 1 + 0.01 * (int(n % 5) - 2), T);
                            double v = dedx(p, mi, k), r = ref::dedx(rproj(p), T, ri, rcfg(k));
                            c.t();
                            c.eq(v, r, 1e-7, 0, "dE/dx of Z=%d A=%.6g in Z=%d A=%.6g at %.10g MeV/u %s", z, p.A, t, ta, T, cname(k).c_str());
                            c.state(mc::hd(mc::mix(z, t), v));
                            n += 7;
                        }
                        c.trace(2);
                    }
                }
                // continuity at the region boundaries, zero at non-positive energy
                for (double e : {10.0, 30.0})
                    for (int low = 0; low < 2; low++) {
                        Config k = cfg(1, 0, 1, low);
                        Projectile p = proj(z);
                        double a = dedx(p(e * (1 - 1e-9)), m, k), b = dedx(p(e), m, k), d = dedx(p(e * (1 + 1e-9)), m, k);
                        c.t(3);
                        c.trace();
                        c.eq(a, b, 1e-6, 0, "dE/dx of Z=%d in Z=%d just below %g", z, t, e);
                        c.eq(d, b, 1e-6, 0, "dE/dx of Z=%d in Z=%d just above %g", z, t, e);
                    }
                for (double e : {0.0, -1.0}) {
                    c.t();
                    c.trace();
                    c.eq(dedx(proj(z, 1, e), m), 0, 0, 0, "dE/dx of Z=%d in Z=%d at %g", z, t, e);
                }
            }
            c.sample(mc::fmt("Z=%d in C at 100 MeV/u: %.8g", z, dedx(proj(z, 1, 100), elem(6))));
        }});
    // compounds: Bragg sum, ionisation potential, density and thickness independence
    static const int zs[] = {1, 2, 3, 6, 18, 36, 54, 79, 92, 108};
    for (int k = 0; k < NCOMP; k++)
        jobs.push_back({mc::fmt("compound/id%d", frozen::comp[k].id), [=](mc::Ctx &c) {
            Material m = comp(k);
            ref::Mat rm = rmat(m);
            for (int z = 1; z <= 108; z++) {
                bool sel = o.thorough;
                for (int s : zs) sel = sel || s == z;
                if (!sel) continue;
                for (int ie = 0; ie < NEB; ie++)
                    for (double I : {0.0, 75.0, 600.0})
                        for (int low = 0; low < 2; low++)
                            for (int ze = 0; ze <= 5; ze++) {
                                Config q = cfg(ze, 0, 1, low);
                                double T = E_BRANCH[ie];
                                m.I(I);
                                Projectile p = proj(z, 1, T);
                                double v = dedx(p, m, q), r = ref::dedx(rproj(p), T, rm, rcfg(q), I);
                                c.t();
                                c.trace();
                                c.eq(v, r, 1e-7, 0, "dE/dx of Z=%d in compound %d at %g I=%g %s", z, frozen::comp[k].id, T, I, cname(q).c_str());
                                c.state(mc::hd(mc::mix(z, k + 1000), v));
                            }
                m.I(0);
                for (double T : {0.5, 15.0, 300.0}) {
                    Projectile p = proj(z, 1, T);
                    double v = dedx(p, m);
                    Material n = m;
                    n.density(3.21).thickness(0.77);
                    c.t(2);
                    c.trace();
                    c.eq(dedx(p, n), v, 1e-12, 0, "dE/dx of Z=%d in compound %d at %g depends on density or thickness", z, frozen::comp[k].id, T);
                }
            }
            m.I(0);
            c.sample(mc::fmt("Ar in id%d at 200 MeV/u: %.8g", frozen::comp[k].id, dedx(proj(18, 1, 200), m)));
        }});
    return mc::run(o, jobs);
}
