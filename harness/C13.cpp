// C13: all entry points agree
#include "queries.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    auto visit = [=](mc::Ctx &c, const Projectile &p0, Material m, const Config &k, const std::string &w0, bool dflt, unsigned n) {
        Projectile p = p0;
        std::vector<double> Ts = {0.002, 0.3, 5.0, 12.0, 29.0, 31.0, 90.0, 400.0, 4000.0, 6e4, 2e6};
        for (double T : spread(n, 640)) Ts.push_back(T);
        for (double T : Ts) {
            double R = range(p(T), m, k);
            for (double f : {0.0, 2e-4, 0.05, 0.5, 0.95, 1.2}) {
                bool lim = k.scattering == 1 || k.scattering == 2;
                if (lim && (T < 1 || (f < 0.01 && f > 0))) continue;
                m.thickness(f * R);
                p.T = T;
                std::string w = mc::fmt("%s at %g MeV/u, %g of the range", w0.c_str(), T, f);
                Result r = calculate(p, m, k);
                RV v = rv(r);
                c.trace();
                c.t(14);
                c.state(hrv((int)p.Z, v));
                Projectile q = p;
                q.T = 0.123;
                same(c, rv(calculate(q, m, T, k)), v, 1e-9, 0, w + ": energy overload");
                Layers L;
                L.add(m);
                MultiResult mr = calculate(p, L, k);
                if (mr.results.size() != 1) c.fail(w + ": one-layer stack without one result");
                else same(c, rv(mr.results[0]), v, 1e-9, 0, w + ": one-layer stack");
                MultiResult mt = calculate(q, T, L, k);
                if (mt.results.size() == 1) same(c, rv(mt.results[0]), v, 1e-9, 0, w + ": one-layer stack, energy overload");
                if (dflt && m.ncomponents() == 1 && p.Q == p.Z) same(c, rv(calculate(p.A, (int)p.Z, T, m.get_element(0).A, m.get_element(0).Z, m.thickness(), m.density())), v, 1e-9, 0, w + ": simplified call");
                c.eq(range(p, m, k), r.range, 1e-9, 0, "%s: range", w.c_str());
                c.eq(dedx_from_range(p, m, k), r.dEdxi, 1e-9, 0, "%s: stopping power from range", w.c_str());
                c.eq(range_straggling(p, T, m, k), r.sigma_r, 1e-9, 0, "%s: range straggling", w.c_str());
                double var = range_variance(p, T, m, k);
                c.eq(sqrt(std::max(0.0, var)), r.sigma_r, 1e-9, 0, "%s: range variance", w.c_str());
                c.eq(energy_out(p, m, k), f == 0 ? energy_out(p, m, k) : r.Eout, 1e-9, 0, "%s: exit energy", w.c_str());
                {
                    std::vector<double> e = energy_out(p, std::vector<double>{T}, m, k), s = dedx_from_range(p, std::vector<double>{T}, m, k);
                    if (e.size() != 1 || s.size() != 1) c.fail(w + ": list of one gives not one value");
                    else {
                        c.eq(e[0], energy_out(p, m, k), 1e-9, 0, "%s: exit energy of list", w.c_str());
                        c.eq(s[0], r.dEdxi, 1e-9, 0, "%s: stopping power of list", w.c_str());
                    }
                }
                // the energy in the projectile plays no role where the energy is an argument
                c.eq(range_straggling(q, T, m, k), r.sigma_r, 1e-9, 0, "%s: range straggling depends on projectile energy", w.c_str());
                c.eq(domega2de(q, T, m, k), domega2de(p, T, m, k), 1e-9, 0, "%s: variance slope depends on projectile energy", w.c_str());
                if (f > 0 && r.Eout > 0) {
                    c.eq(dedx_from_range(q(r.Eout), m, k), r.dEdxo, 1e-9, 0, "%s: exit stopping power", w.c_str());
                    double es = energy_straggling_from_E(p, T, r.Eout, m, k);
                    {
                        double vo = range_variance(q, r.Eout, m, k), so = dedx_from_range(q(r.Eout), m, k) / p.A;
                        c.eq(es * es, so * so * std::max(0.0, var - vo), 1e-8, 1e-13 * so * so * fabs(var), "%s: squared energy straggling from the range variances", w.c_str());
                    }
                    if (r.Eout < 0.999 * T) c.eq(es, r.sigma_E, 1e-9, 0, "%s: energy straggling", w.c_str());
                    c.eq(energy_straggling_from_E(q, T, r.Eout, m, k), es, 1e-9, 0, "%s: energy straggling depends on projectile energy", w.c_str());
                    c.eq(calculate_tof_from_E(p, r.Eout, m, k), r.tof, 1e-9, 0, "%s: time of flight", w.c_str());
                    if (k.scattering != 255) {
                        c.eq(angular_straggling(p, m, k), r.sigma_a, 1e-9, 0, "%s: angular straggling", w.c_str());
                        c.eq(sqrt(angular_variance(p, m, k)), r.sigma_a, 1e-9, 0, "%s: angular variance", w.c_str());
                    }
                    c.eq(angular_straggling(p, m, k), sqrt(angular_variance(p, m, k)), 1e-12, 0, "%s: angular straggling is not the root of the variance", w.c_str());
                }
                if (f > 0) {
                    c.eq(sqrt(angular_variance(p, m, k, 2)), r.sigma_x, 1e-9, 0, "%s: position straggling", w.c_str());
                    c.eq(angular_variance(p, m, k, 1), r.cov, 1e-9, 0, "%s: covariance", w.c_str());
                    c.eq(nonreaction_rate(p, m, k), r.sp, 1e-9, 0, "%s: survival", w.c_str());
                }
            }
        }
    };
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) { visit(c, proj(z), target(k), Config(), mc::fmt("Z=%d in %s", z, tname(k).c_str()), true, z * 12 + k); });
    std::vector<Config> cf = all_configs();
    for (size_t j = 0; j < cf.size(); j++)
        jobs.push_back({mc::fmt("config/%zu", j), [=](mc::Ctx &c) {
            for (int i = 0; i < 12; i++) {
                if ((i + j) % (o.thorough ? 2 : 12)) continue;
                int t = TK[(i * 5 + j / 12) % 12];
                Projectile p = proj(PZ[i]);
                p.Q = std::max(1.0, p.Z - 1);
                visit(c, p, target(t), cf[j], mc::fmt("Z=%d in %s {%s}", PZ[i], tname(t).c_str(), cname(cf[j]).c_str()), false, j);
            }
        }});
    // lists: every list up to length 3 over the menu
    static const double E[] = {-1, 0, 5e-4, 1e-3, 0.01, 15, 95, 20000, 1e7};
    for (int z : {1, 18, 92})
        for (int k : {5, 78, 98 + 5})
            jobs.push_back({mc::fmt("lists/Z%d/%s", z, tname(k).c_str()), [=](mc::Ctx &c) {
                Material m = target(k);
                m.thickness(0.02);
                for (double pT : {0.0, 33.0}) {
                    Projectile p = proj(z, 1, pT);
                    for (int n = 0; n <= (o.thorough ? 4 : 3); n++) {
                        int tot = 1;
                        for (int i = 0; i < n; i++) tot *= 9;
                        for (int x = 0; x < tot; x++) {
                            std::vector<double> l;
                            for (int i = 0, y = x; i < n; i++, y /= 9) l.push_back(E[y % 9]);
                            auto s = dedx_from_range(p, l, m), e = energy_out(p, l, m);
                            c.t(2);
                            c.trace();
                            if (s.size() != l.size() || e.size() != l.size()) {
                                c.fail(mc::fmt("list of %zu energies gave %zu and %zu values", l.size(), s.size(), e.size()));
                                continue;
                            }
                            for (size_t i = 0; i < l.size(); i++) {
                                Projectile q = proj(z, 1, l[i]);
                                c.eq(s[i], l[i] < 1e-3 ? 0 : dedx_from_range(q, m), 1e-9, 0, "Z=%d in %s: stopping power list element %zu of %zu (%g MeV/u)", z, tname(k).c_str(), i, l.size(), l[i]);
                                c.eq(e[i], l[i] < 1e-3 ? 0 : energy_out(q, m), 1e-9, 0, "Z=%d in %s: exit energy list element %zu of %zu (%g MeV/u)", z, tname(k).c_str(), i, l.size(), l[i]);
                            }
                            c.state(hv(hv(n, s), e));
                        }
                    }
                }
            }});
    // long lists: every length up to 64 and a few longer ones in 5 orders, with and without repeated and out-of-range energies
    for (int z : {1, 18, 92})
        for (int ord = 0; ord < 5; ord++)
            jobs.push_back({mc::fmt("longlists/Z%d/%d", z, ord), [=](mc::Ctx &c) {
                Material m = comp(75);
                m.thickness(0.02);
                std::vector<int> ns;
                for (int n = 1; n <= 64; n++) ns.push_back(n);
                for (int n : {99, 100, 101, 127, 128, 129, 255, 256, 257, 599, 600, 601, 1000, 1024, 2000, 5000}) ns.push_back(n);
                for (int n : ns) {
                    std::vector<double> l;
                    for (int i = 0; i < n; i++) {
                        int j = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (int)((i * 7919LL) % n) : ord == 3 ? i / 2 : (i % 2 ? i : n - i);
                        l.push_back(ord == 3 && i % 5 == 4 ? 0 : pow(10, -4 + 11.0 * j / std::max(1, n)));
                    }
                    Projectile p = proj(z, 1, 50);
                    auto s = dedx_from_range(p, l, m), e = energy_out(p, l, m);
                    c.t(2);
                    c.trace();
                    if (s.size() != l.size() || e.size() != l.size()) {
                        c.fail(mc::fmt("list of %zu energies gave %zu and %zu values", l.size(), s.size(), e.size()));
                        continue;
                    }
                    for (size_t i = 0; i < l.size(); i++) {
                        Projectile q = proj(z, 1, l[i]);
                        c.eq(s[i], l[i] < 1e-3 ? 0 : dedx_from_range(q, m), 1e-9, 0, "Z=%d: stopping power element %zu of %zu in order %d (%g MeV/u)", z, i, l.size(), ord, l[i]);
                        c.eq(e[i], l[i] < 1e-3 ? 0 : energy_out(q, m), 1e-9, 0, "Z=%d: exit energy element %zu of %zu in order %d (%g MeV/u)", z, i, l.size(), ord, l[i]);
                    }
                    c.state(hv(hv(n, s), e));
                }
            }});
    return mc::run(o, jobs);
}
