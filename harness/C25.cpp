// C25: precalculated Lindhard-Soerensen values
#include "common.hpp"
#include "catima/calculations.h"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    for (int z = 1; z <= 108; z++)
        jobs.push_back({mc::fmt("Z%d", z), [=](mc::Ctx &c) {
            auto near = [&](double T, double s, const char *what) {
                Projectile p = proj(z, s, T);
                ref::Proj r = rproj(p);
                double a = precalculated_lindhard(p), b = precalculated_lindhard_X(p);
                c.t(2);
                c.trace();
                c.eq(a, ref::ls(r, T), 1e-7, 1e-9, "stopping correction of Z=%d, %g of the natural mass, at %.12g MeV/u (%s)", z, s, T, what);
                c.eq(b, ref::lsx(r, T), 1e-7, 1e-9, "straggling correction of Z=%d, %g of the natural mass, at %.12g MeV/u (%s)", z, s, T, what);
                c.state(mc::hd(mc::hd(z, a), b));
            };
            for (int i = 0; i < 200; i++) {
                double T = ref::ls_energy(i);
                for (double s : {1.0, 1.05}) {
                    if (!o.thorough && (i + z) % 5 && i > 2 && i < 197) continue;
                    Projectile p = proj(z, s, T);
                    double a = precalculated_lindhard(p), b = precalculated_lindhard_X(p), da = bethek_lindhard(p), db = bethek_lindhard_X(p);
                    c.t(4);
                    c.trace();
                    c.maxi("direct, stopping", fabs(a - da) / (fabs(da) + 0.1));
                    c.eq(a, da, 1e-5, 1e-6, "stopping correction of Z=%d, %g of the natural mass, at %.12g MeV/u against the series", z, s, T);
                    if (T > 7e5) continue; // the straggling series loses its digits to cancellation
                    c.maxi("direct, straggling", fabs(b - db) / (fabs(db) + 0.1));
                    c.eq(b, db, 1e-5, 1e-6, "straggling correction of Z=%d, %g of the natural mass, at %.12g MeV/u against the series", z, s, T);
                }
                for (double s : {0.8, 1.0, 1.02, 1.05, 1.1, 1.4})
                    for (double f : {1.0, 1 - 1e-9, 1 + 1e-9, 1.01, 1.04, 1.07}) near(T * f, s, "table");
            }
            for (double T : {1e-3, 0.01, 0.5, 0.999999, 1.0, 1.000001, 9.99e6, 1e7, 1.0001e7, 1e8}) for (double s : {0.9, 1.0, 1.1}) near(T, s, "edge");
            c.sample(mc::fmt("Z=%d at 100 MeV/u: %.8g, %.8g", z, precalculated_lindhard(proj(z, 1, 100)), precalculated_lindhard_X(proj(z, 1, 100))));
        }});
    jobs.push_back({"beyond", [=](mc::Ctx &c) {
        for (double z : {108.0, 108.5, 109.0, 110.0, 111.0, 118.0, 120.0, 150.0, 1000.0})
            for (double A : {frozen::weight[108], 270.0, 300.0})
                for (double T : {0.1, 1.0, 1.5, 30.0, 500.0, 1e5, 1e7, 1e8}) {
                    Projectile p(A, z, 0, T), q(A, 108, 0, T);
                    c.t(2);
                    c.trace();
                    c.eq(precalculated_lindhard(p), precalculated_lindhard(q), 1e-12, 0, "stopping correction of Z=%g at %g MeV/u against Z=108", z, T);
                    c.eq(precalculated_lindhard_X(p), precalculated_lindhard_X(q), 1e-12, 0, "straggling correction of Z=%g at %g MeV/u against Z=108", z, T);
                    c.state(mc::hd((int)z, precalculated_lindhard(p)));
                }
    }});
    return mc::run(o, jobs);
}
