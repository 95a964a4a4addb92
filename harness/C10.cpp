// C10: energy-loss variance and scattering power against the reference model
#include "common.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    auto visit = [=](mc::Ctx &c, const Projectile &p0, const Material &m, const ref::Mat &rm, double T, const Config &k, const std::string &w) {
        Projectile p = p0;
        p.T = T;
        double v = domega2dx(p, m, k), r = ref::domega2dx(rproj(p), T, rm, rcfg(k));
        c.t();
        c.trace();
        // where the effective charge crosses zero its absolute error counts
        if (fabs(sqrt(v) - sqrt(r)) > 1e-9 * p.Z * 0.4 * ref::gamma(T)) c.eq(v, r, 1e-7, 0, "energy-loss variance of %s at %.10g MeV/u {%s}", w.c_str(), T, cname(k).c_str());
        c.state(mc::hd(mc::mix((int)p.Z, rm[0].Z), v));
    };
    auto angle = [=](mc::Ctx &c, const Projectile &p0, const Material &m, const ref::Mat &rm, double T, const std::string &w) {
        Projectile p = p0;
        p.T = T;
        for (int s : {255, 0, 1, 2})
            for (double f : {1.0, 1.5, 0.0}) {
                Config k = cfg(1, 0, 1, 0, s, f);
                double v = da2dx(p, m, k), r = ref::da2dx(rproj(p), T, rm, rcfg(k));
                c.t();
                c.trace();
                c.eq(v, r, 1e-7, 0, "scattering power of %s at %.10g MeV/u {%s}", w.c_str(), T, cname(k).c_str());
                c.state(mc::hd(mc::mix((int)p.Z, rm[0].Z + 1000), v));
            }
    };
    for (int z = 1; z <= 108; z++)
        jobs.push_back({mc::fmt("elements/Zp%d", z), [=](mc::Ctx &c) {
            for (int t = 1; t <= 98; t++) {
                Material m = elem(t);
                ref::Mat rm = {{nat(t), t, 1.0}};
                std::string w = mc::fmt("Z=%d in Z=%d", z, t);
                for (int ie = 0; ie < NEB; ie++)
                    for (double sc : {1.0, 1.04}) {
                        Projectile p = proj(z, sc);
                        p.Q = 0.9 * z;
                        for (int ze = 0; ze <= 5; ze++)
                            for (int ca = 0; ca < 2; ca++) visit(c, p, m, rm, E_BRANCH[ie], cfg(ze, 0, ca), w);
                        angle(c, p, m, rm, E_BRANCH[ie], w);
                    }
                unsigned n = z * 98 + t;
                double ta = tmass(t, z);
                Material mi(ta, t, 1.0);
                ref::Mat ri = {{ta, t, 1.0}};
                std::string wi = w + mc::fmt(" A=%.6g", ta);
                for (double T : spread(n, 64)) {
                    Projectile p = proj(z, 1 + 0.01 * (int(n % 5) - 2));
                    visit(c, p, mi, ri, T, cfg(n % 6, 0, (n / 6) % 2), wi);
                    if (n % 4 == 0) angle(c, p, mi, ri, T, wi);
                    n += 7;
                }
                for (double T : {0.0, -2.0}) {
                    c.t();
                    c.eq(da2dx(proj(z, 1, T), m), 0, 0, 0, "scattering power of %s at %g", w.c_str(), T);
                }
                // the other switches do not enter
                for (double T : {3.0, 50.0, 70000.0}) {
                    double v = domega2dx(proj(z, 1, T), m, cfg(1)), a = da2dx(proj(z, 1, T), m, cfg(1));
                    for (int co : {1, 2, 4, 8, 15}) {
                        c.t(2);
                        c.eq(domega2dx(proj(z, 1, T), m, cfg(1, co, 1, co & 1)), v, 1e-9, 0, "energy-loss variance of %s depends on stopping-power corrections", w.c_str());
                        c.eq(da2dx(proj(z, 1, T), m, cfg(co % 6, co, co & 1, 1)), a, 1e-9, 0, "scattering power of %s depends on other switches", w.c_str());
                    }
                }
            }
            c.sample(mc::fmt("Z=%d in C at 100: %.8g, %.8g", z, domega2dx(proj(z, 1, 100), elem(6)), da2dx(proj(z, 1, 100), elem(6))));
        }});
    for (int k = 0; k < NCOMP; k++)
        jobs.push_back({mc::fmt("compound/id%d", frozen::comp[k].id), [=](mc::Ctx &c) {
            Material m = comp(k);
            ref::Mat rm = rmat(m);
            c.eq(radiation_length(m), ref::rad_length(rm), 1e-9, 0, "radiation length of compound %d", frozen::comp[k].id);
            c.eq(scattering_length(m), ref::scat_length(rm), 1e-9, 0, "scattering length of compound %d", frozen::comp[k].id);
            std::string w = mc::fmt("compound %d", frozen::comp[k].id);
            for (int z = 1; z <= 108; z++) {
                if (!o.thorough && !in(PZ, 12, z)) continue;
                for (int ie = 0; ie < NEB; ie++) {
                    for (int ze = 0; ze <= 5; ze++)
                        for (int ca = 0; ca < 2; ca++) visit(c, proj(z), m, rm, E_BRANCH[ie], cfg(ze, 0, ca), w);
                    angle(c, proj(z), m, rm, E_BRANCH[ie], w);
                }
            }
            Material n = m;
            n.density(3.3).thickness(1.7).I(99);
            c.eq(domega2dx(proj(18, 1, 80), n), domega2dx(proj(18, 1, 80), m), 1e-12, 0, "energy-loss variance in compound %d depends on density", frozen::comp[k].id);
            c.eq(da2dx(proj(18, 1, 80), n), da2dx(proj(18, 1, 80), m), 1e-12, 0, "scattering power in compound %d depends on density", frozen::comp[k].id);
        }});
    jobs.push_back({"radiation-length", [=](mc::Ctx &c) {
        for (int z = 1; z <= 120; z++)
            for (double a : {nat(z <= 109 ? z : 109), 2.5 * z, 2.0 * z, 1.7 * z, 2.9 * z, 1.0 * z}) {
                c.t();
                c.trace();
                double v = radiation_length(z, a);
                c.eq(v, ref::rad_length(z, a), 1e-9, 0, "radiation length of Z=%d A=%g", z, a);
                ref::Mat rm = {{a, z, 1.0}};
                c.eq(scattering_length(Material(a, z)), ref::scat_length(rm), 1e-9, 0, "scattering length of a material of Z=%d A=%g", z, a);
                c.eq(radiation_length(Material(a, z)), v, 1e-9, 0, "radiation length of a material of Z=%d A=%g", z, a);
                c.state(mc::hd(z, v));
            }
    }});
    // published values: Particle Data Group radiation lengths in g/cm2, scattering length of water
    jobs.push_back({"published", [=](mc::Ctx &c) {
        static const double pdg[][2] = {{1, 63.04}, {2, 94.32}, {3, 82.78}, {4, 65.19}, {5, 52.69}, {6, 42.70}, {7, 37.99}, {8, 34.24}, {9, 32.93}, {10, 28.93}, {11, 27.74}, {12, 25.03}, {13, 24.01}, {14, 21.82}, {15, 21.21}, {16, 19.50}, {17, 19.28}, {18, 19.55}, {19, 17.32}, {20, 16.14}, {22, 16.16}, {24, 14.94}, {25, 14.64}, {26, 13.84}, {27, 13.62}, {28, 12.68}, {29, 12.86}, {30, 12.43}, {32, 12.25}, {36, 11.37}, {42, 9.80}, {47, 8.97}, {50, 8.82}, {53, 8.48}, {54, 8.48}, {55, 8.31}, {73, 6.82}, {74, 6.76}, {78, 6.54}, {79, 6.46}, {80, 6.44}, {82, 6.37}, {83, 6.29}, {90, 6.07}, {92, 6.00}};
        for (auto &r : pdg) {
            c.t();
            c.trace();
            c.eq(radiation_length((int)r[0], nat(r[0])), r[1], 0.015, 0, "published radiation length of Z=%g", r[0]);
        }
        // radiation length times Z(Z+1)/A varies slowly from element to element
        for (int z = 5; z < 98; z++) {
            auto f = [](int z) { return radiation_length(z, nat(z)) * z * (z + 1) / nat(z); };
            c.t(2);
            c.trace();
            c.eq(f(z + 1), f(z), 0.03, 0, "reduced radiation length of Z=%d and its neighbour", z + 1);
        }
        Material w({{1.00794, 1, 2}, {15.9994, 8, 1}}, 1.0);
        c.t();
        c.trace();
        c.eq(scattering_length(w), 46.88, 1e-3, 0, "published scattering length of water");
    }});
    return mc::run(o, jobs);
}
