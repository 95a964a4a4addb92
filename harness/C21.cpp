// C21: survival probability follows the reaction cross sections
#include "common.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    auto visit = [=](mc::Ctx &c, const Projectile &p0, Material m, const Config &k, const std::string &w0, unsigned n) {
        struct A { double n; int z, a; };
        std::vector<A> at; // atoms per mass, 1e23/g
        for (auto &t : rmat(m)) at.push_back({6.022140857 * t.w / t.A, t.Z, frozen::iso[t.Z].a[0]});
        int ap = lround(p0.A), zp = lround(p0.Z);
        auto mu = [&](double E) {
            double s = 0;
            for (auto &a : at) s += a.n * ref::kox(ap, zp, E, a.a, a.z);
            return s * 1e-4;
        };
        std::vector<double> Ts = {5, 29.99, 30.0001, 31, 45, 100, 300, 1000, 2e4};
        for (double T : spread(n, 320))
            if (T > 20 && T < 5e4) Ts.push_back(T);
        for (double T : Ts) {
            Projectile p = p0;
            p.T = T;
            double R = range(p, m, k), prev = 1;
            auto E = [&](double x) { m.thickness(x); return energy_out(p, m, k); };
            bool gone = false;
            for (double f : {0.0, 1e-5, 1e-3, 0.02, 0.1, 0.3, 0.6, 0.85, 0.97, 1.1}) {
                m.thickness(f * R);
                p.T = T;
                double s = nonreaction_rate(p, m, k);
                c.t();
                c.trace();
                c.state(mc::hd(zp * 1000 + m.get_element(0).Z, s));
                if (p.T != T) c.fail(w0 + ": projectile energy changed");
                std::string w = mc::fmt("%s at %g MeV/u, %g of the range", w0.c_str(), T, f);
                double Eo = f > 0 ? energy_out(p, m, k) : T;
                if (T < 30 || Eo < 30) {
                    c.eq(s, -1, 0, 0, "%s: survival below the energy limit", w.c_str());
                    gone = true;
                    continue;
                }
                if (f == 0) { c.eq(s, 1, 0, 0, "%s: survival without material", w.c_str()); continue; }
                if (!(s >= 0 && s <= 1)) c.fail(mc::fmt("%s: survival %g", w.c_str(), s));
                if (s > prev + 1e-12 || gone) c.fail(mc::fmt("%s: survival grows with thickness: %.10g after %.10g", w.c_str(), s, prev));
                prev = s;
                double th = f * R, lo = std::min(mu(T), mu(Eo)), hi = std::max(mu(T), mu(Eo));
                double tau = ref::gl10([&](double x) { double y = mu(E(x)); lo = std::min(lo, y), hi = std::max(hi, y); return y; }, 0, th, f < 0.2 ? 1 : o.thorough ? 6 : 3);
                double tol = std::min(0.03, hi / lo - 1 + 1e-6); // any mean lies between the extremes
                m.thickness(th);
                if (tau < 600) c.eq(-log(s), tau, tol, 1e-9, "%s: exponent of survival", w.c_str());
                if (tau < 600) c.maxi("relative deviation of the exponent", fabs(-log(s) / tau - 1) * (tau > 1e-6));
                if (p.Q == p.Z) {
                    Result r = calculate(p, m, k);
                    c.eq(r.sp, s, 1e-12, 0, "%s: survival in the full result", w.c_str());
                }
            }
        }
    };
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) { visit(c, proj(z), target(k), Config(), mc::fmt("Z=%d in %s", z, tname(k).c_str()), z * 12 + k); });
    std::vector<Config> cf = one_field_configs();
    for (size_t j = 0; j < cf.size(); j++)
        jobs.push_back({mc::fmt("config/%zu", j), [=](mc::Ctx &c) {
            for (int i = 0; i < 12; i++)
                for (int t : {TK[i], TK[(i + 5) % 12]}) {
                    Projectile p = proj(PZ[i], PZ[i] > 2 ? 1.07 : 1);
                    visit(c, p, target(t), cf[j], mc::fmt("Z=%d A=%g in %s {%s}", PZ[i], p.A, tname(t).c_str(), cname(cf[j]).c_str()), j * 12 + i);
                }
        }});
    // cross section over every pair of charges and isotopes
#ifndef NO_INTERNALS
    for (int zp = 1; zp <= 108; zp++)
        jobs.push_back({mc::fmt("sigma/Zp%d", zp), [=](mc::Ctx &c) {
            for (int ap : {(int)lround(1.9 * zp), (int)lround(nat(zp)), (int)lround(nat(zp) * 1.1)})
                for (int zt = 1; zt <= 98; zt++)
                    for (int i = 0; i < frozen::iso[zt].n; i++) {
                        int at = frozen::iso[zt].a[i];
                        for (double E : {30.0, 31.6, 31.63, 40.0, 100.0, 700.0, 5000.0, 1e6}) {
                            double s = SigmaR_Kox(ap, zp, E, at, zt), e = ref::kox(ap, zp, E, at, zt);
                            c.t();
                            c.trace();
                            c.eq(s, e, 1e-9, 0, "cross section of (%d,%d) on (%d,%d) at %g", ap, zp, at, zt, E);
                            c.state(mc::hd(mc::mix(zp, zt), s));
                        }
                        c.eq(Ecm_from_T(123, ap, at), 123.0 * ap * at / (ap + at), 1e-12, 0, "centre of mass energy");
                    }
        }});
#endif
    jobs.push_back({"rates", [=](mc::Ctx &c) {
        for (double s : {0.0, 1e-3, 1.0, 100.0, 1500.0, 5000.0, 1e5})
            for (double t : {0.0, 1e-6, 1e-2, 0.5, 1.0, 10.0, 300.0}) {
                c.t(3);
                c.trace();
                double n = s * t * 1e-4;
                c.eq(nonreaction_rate(s, t), exp(-n), 1e-12, 0, "survival for %g mb, %g", s, t);
                c.eq(reaction_rate(s, t), 1 - exp(-n), 1e-12, 1e-15, "reaction for %g mb, %g", s, t);
                auto f = [&](double) { return s; };
                c.eq(reaction_rate(f, t), 1 - exp(-n), 1e-12, 1e-15, "reaction for constant function %g mb, %g", s, t);
                auto g = [&](double x) { return s * (1 + x + x * x * x); };
                c.eq(reaction_rate(g, t), 1 - exp(-s * 1e-4 * (t + t * t / 2 + t * t * t * t / 4)), 1e-10, 1e-15, "reaction for function %g mb, %g", s, t);
                c.state(mc::hd(1, reaction_rate(g, t)));
            }
        for (int k : {0, 5, 28, 81, 98 + 5, 98 + 13, 98 + 1})
            for (double th : {0.0, 1e-4, 0.1, 2.0, 30.0}) {
                Material m = target(k);
                m.thickness(th);
                // the layer in molecules as the library reports it, checked against the composition in C16
                double t = m.number_density_cm2();
                for (double cs : {0.0, 1e-6, 0.02, 1.0, 40.0, 900.0, 3000.0, 2e4})
                    for (double r1 : {0.0, 3.0, 10.0, 250.0, 1000.0, 2500.0, 7000.0})
                        for (double d : {0.0, 1e-6, 0.1, 2.0, 4.99, 5.0, 5.01, 40.0, 700.0})
                            for (int sg : {1, -1}) {
                                double r2 = r1 + sg * d;
                                if (r2 < 0) continue;
                                double x = (r2 - r1) * t * 1e-4;
                                double e = cs * t * 1e-4 * exp(-1e-4 * r2 * t) * (fabs(x) < 1e-9 ? 1 : expm1(x) / x);
                                double v = production_rate(cs, r1, r2, m);
                                c.t();
                                c.trace();
                                c.state(mc::hd(k, v));
                                if (v < 0) c.fail("negative production rate");
                                // below 5 mb the difference may be neglected; that costs at most half the exponent
                                double tol = d < 5 ? 0.6 * fabs(x) * exp(fabs(x)) + 1e-9 : 1e-9;
                                c.eq(v, e, tol, 1e-13 * cs * (1 + 1 / std::max(d, 1.0)), "production rate for %g, %g, %g mb in %s of %g g/cm2", cs, r1, r2, tname(k).c_str(), th);
                            }
            }
        c.sample("production rates 0 mb to 900 mb");
    }});
    return mc::run(o, jobs);
}
