// C30: a quantity depends only on what it is documented to depend on
#include "common.hpp"
#include <algorithm>
static const double FR[] = {1e-3, 0.03, 0.4, 0.93, 1.3};
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    // density: lengths only
    auto density = [=](mc::Ctx &c, Projectile p, const Material &m0, const Config &k, const std::string &w, const std::vector<double> &Ts) {
        for (double T : Ts) {
            p.T = T;
            Material m = m0;
            double R = range(p, m, k), rho = m.density();
            for (double f : FR) {
                if ((k.scattering == 0 || k.scattering == 2) && f < 0.01) continue;
                m.density(rho).thickness(f * R);
                RV a = rv(calculate(p, m, k));
                c.t();
                for (double s : f < 0.1 ? std::vector<double>{1e-5, 2} : std::vector<double>{0.37, 40}) {
                    m.density(rho * s).thickness(f * R);
                    RV b = rv(calculate(p, m, k)), e = a;
                    c.t();
                    c.trace();
                    e.v[9] /= s;  // position spread
                    e.v[10] /= s; // covariance
                    e.v[11] /= s; // time of flight
                    same(c, b, e, 1e-9, 0, w + mc::fmt(" at %g MeV/u through %g ranges, density times %g", T, f, s));
                    c.eq(range(p, m, k), R, 1e-12, 0, "%s: range with density times %g", w.c_str(), s);
                }
                c.state(hrv(1, a));
            }
        }
    };
    // charge state: only when it is the effective charge
    auto charge = [=](mc::Ctx &c, int z, const Material &m0, const Config &k, const std::string &w) {
        for (double T : {0.7, 20.0, 400.0}) {
            Projectile p = proj(z, 1, T);
            Material m = m0;
            m.thickness(0.3 * range(p, m, k));
            RV a = rv(calculate(p, m, k));
            double d = dedx(p, m, k), om = domega2dx(p, m, k);
            c.t(3);
            for (double q : {1.0, z / 2.0, z - 1.0, z + 0.0}) {
                if (q <= 0) continue;
                p.Q = q;
                same(c, rv(calculate(p, m, k)), a, 1e-9, 0, w + mc::fmt(" at %g MeV/u with charge state %g", T, q));
                c.eq(dedx(p, m, k), d, 1e-12, 0, "%s at %g with charge state %g: stopping power", w.c_str(), T, q);
                c.eq(domega2dx(p, m, k), om, 1e-12, 0, "%s at %g with charge state %g: straggling", w.c_str(), T, q);
                c.t(3);
                c.trace();
            }
        }
    };
    // energy kept in the projectile when the energy is an argument; thickness when only the material matters
    auto unused = [=](mc::Ctx &c, Projectile p, Material m, const Config &k, const std::string &w) {
        for (double T : {0.5, 33.0, 900.0}) {
            p.T = T;
            double R = range(p, m, k), th = 0.3 * R;
            auto ask = [&](double pT, double thick) {
                Projectile q = p;
                q.T = pT;
                Material n = m;
                n.thickness(th);
                std::vector<double> v = {range_straggling(q, T, n, k), range_variance(q, T, n, k), domega2de(q, T, n, k), energy_straggling_from_E(q, T, 0.6 * T, n, k)};
                for (double x : dedx_from_range(q, std::vector<double>{T, T / 2}, n, k)) v.push_back(x);
                for (double x : energy_out(q, std::vector<double>{T, T / 2}, n, k)) v.push_back(x);
                auto g = w_magnification(q, T, n, k);
                v.push_back(g.first);
                v.push_back(g.second);
                RV r = rv(calculate(q, n, T, k));
                v.insert(v.end(), r.v, r.v + NRES);
                Layers l;
                l.add(n);
                r = rv(calculate(q, T, l, k).total_result);
                v.insert(v.end(), r.v, r.v + NRES);
                // thickness-independent quantities
                n.thickness(thick);
                q.T = T;
                for (double x : {range(q, n, k), dedx(q, n, k), domega2dx(q, n, k), da2dx(q, n, k), dedx_from_range(q, n, k), range_straggling(q, T, n, k), range_variance(q, T, n, k), domega2de(q, T, n, k)}) v.push_back(x);
                RV s = rv(calculate(q, n, k));
                for (int i : {0, 3, 4, 8}) v.push_back(s.v[i]);
                c.t(20);
                return v;
            };
            std::vector<double> a = ask(T, th);
            for (double pT : {0.0, 1e-4, 77.0, 2e4})
                for (double t : {1e-6 * R, 0.5 * R, 3 * R}) {
                    std::vector<double> b = ask(pT, t);
                    c.trace();
                    for (size_t i = 0; i < a.size(); i++) c.eq(b[i], a[i], 1e-10, 0, "%s at %g MeV/u: value %zu with projectile energy %g and thickness %g", w.c_str(), T, i, pT, t);
                }
            for (double x : a) c.state(mc::hd(2, x));
        }
    };
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) {
        std::string w = mc::fmt("Z=%d in %s", z, tname(k).c_str());
        density(c, proj(z), target(k), Config(), w, {3.0, 80.0, 2500.0});
        if ((z + k) % 4 == 0 || o.thorough) charge(c, z, target(k), cfg(1 + (z + k) / 4 % 5), w + mc::fmt(" model %d", 1 + (z + k) / 4 % 5));
        if ((z + k) % 6 == 0 || o.thorough) unused(c, proj(z), target(k), Config(), w);
    });
    std::vector<Config> cf = all_configs();
    for (size_t j = 0; j < cf.size(); j++)
        jobs.push_back({mc::fmt("config/%zu", j), [=](mc::Ctx &c) {
            for (int i = 0; i < 12; i++) {
                if ((i + j) % (o.thorough ? 2 : 12)) continue;
                int t = TK[(i * 5 + j / 12) % 12];
                std::string w = mc::fmt("Z=%d in %s {%s}", PZ[i], tname(t).c_str(), cname(cf[j]).c_str());
                density(c, proj(PZ[i]), target(t), cf[j], w, {40.0, 1000.0});
                if (cf[j].z_effective) charge(c, PZ[i], target(t), cf[j], w);
                unused(c, proj(PZ[i]), target(t), cf[j], w);
            }
        }});
    // the same substance written differently: order of the constituents, a constituent given in two parts, all amounts times a number
    for (int b = 0; b < NCOMP; b += 5)
        jobs.push_back({mc::fmt("written/%d", b), [=](mc::Ctx &c) {
            for (int k = b; k < b + 5 && k < NCOMP; k++) {
                auto &fc = frozen::comp[k];
                bool count = true;
                for (int i = 0; i < fc.n; i++) count = count && fc.part[i].stn >= 1;
                std::vector<Material> ways;
                std::vector<const char *> name;
                auto put = [&](const char *n, std::function<void(Material &)> f) {
                    Material m;
                    f(m);
                    m.density(fc.density);
                    ways.push_back(m);
                    name.push_back(n);
                };
                auto add = [&](Material &m, int i, double s) { m.add_element(fc.part[i].A, fc.part[i].Z, fc.part[i].stn * s); };
                put("as listed", [&](Material &m) { for (int i = 0; i < fc.n; i++) add(m, i, 1); });
                put("backwards", [&](Material &m) { for (int i = fc.n - 1; i >= 0; i--) add(m, i, 1); });
                put("rotated", [&](Material &m) { for (int i = 0; i < fc.n; i++) add(m, (i + 1) % fc.n, 1); });
                if (count) {
                    for (double s : {2.0, 3.0, 10.0, 1.5}) put("all amounts multiplied", [&](Material &m) { for (int i = 0; i < fc.n; i++) add(m, i, s); });
                    for (int j = 0; j < fc.n; j++) {
                        if (fc.part[j].stn < 2) continue;
                        put("one constituent in two parts", [&](Material &m) {
                            for (int i = 0; i < fc.n; i++) add(m, i, i == j ? 0.5 : 1);
                            add(m, j, 0.5);
                        });
                    }
                } else
                    for (int j = 0; j < fc.n; j++)
                        put("one constituent in two parts", [&](Material &m) {
                            for (int i = 0; i < fc.n; i++) add(m, i, i == j ? 0.3 : 1);
                            add(m, j, 0.7);
                        });
                for (int z : {1, 6, 36, 92})
                    for (double T : {0.8, 15.0, 300.0}) {
                        RV ref;
                        for (size_t i = 0; i < ways.size(); i++) {
                            Projectile p = proj(z, 1, T);
                            double R = range(p, ways[i]);
                            ways[i].thickness(0.3 * R);
                            RV r = rv(calculate(p, ways[i]));
                            c.t(2);
                            c.trace();
                            if (i == 0) ref = r;
                            else same(c, r, ref, 1e-8, 0, mc::fmt("Z=%d at %g MeV/u in id%d %s", z, T, fc.id, name[i]));
                            c.state(hrv(3, r));
                        }
                    }
            }
        }});
    // every order of up to three constituents, amounts below and above one alike
    static const double AM[] = {0.05, 0.4, 1, 2.5};
    for (int a = 0; a < 64; a++)
        jobs.push_back({mc::fmt("orders/%d", a), [=](mc::Ctx &c) {
            static const int ZZ[][3] = {{1, 6, 8}, {6, 29, 82}, {1, 7, 92}, {13, 13, 26}};
            double am[3] = {AM[a % 4], AM[a / 4 % 4], AM[a / 16]};
            for (auto &zz : ZZ)
                for (int n = 2; n <= 3; n++) {
                    int o3[] = {0, 1, 2};
                    std::vector<RV> ref;
                    std::string w;
                    do {
                        Material m;
                        std::string s;
                        for (int i = 0; i < n; i++) {
                            m.add_element(nat(zz[o3[i]]) * (o3[i] == 1 ? 1.02 : 1), zz[o3[i]], am[o3[i]]);
                            s += mc::fmt(" Z%dx%g", zz[o3[i]], am[o3[i]]);
                        }
                        m.density(3.1);
                        if (ref.empty()) w = s;
                        std::vector<RV> v;
                        for (int z : {2, 54})
                            for (double T : {0.8, 15.0, 300.0}) {
                                Projectile p = proj(z, 1, T);
                                m.thickness(0.3 * range(p, m));
                                v.push_back(rv(calculate(p, m)));
                                c.t(2);
                                c.state(hrv(4, v.back()));
                            }
                        c.trace();
                        if (ref.empty()) ref = v;
                        else
                            for (size_t i = 0; i < v.size(); i++) same(c, v[i], ref[i], 1e-8, 0, "material" + s + " instead of" + w);
                    } while (std::next_permutation(o3, o3 + n));
                }
        }});
    return mc::run(o, jobs);
}
