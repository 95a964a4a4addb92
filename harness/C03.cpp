// C03: an explicit configuration governs everything, the default one only calls without
#include "queries.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    std::vector<Config> cf = one_field_configs();
    struct S { int z; double A; double q; int k; double T, th; };
    std::vector<S> sys = {{18, 39.948, 17, 5, 95, 0.1}, {6, 12.011, 5, 98 + 75, 400, 5}, {92, 238.03, 90, 81, 60000, 1}, {1, 1.008, 1, 12, 8, 0.01}, {36, 84, 30, 28, 20, 0.05}};
    if (o.thorough)
        for (int z = 2; z <= 108; z += 7) sys.push_back({z, nat(z), z * 0.9, (z * 5) % NTARGET, 31.0 + z, 0.02});
    for (size_t i = 0; i < sys.size(); i++)
        for (size_t a = 0; a < cf.size(); a++)
            jobs.push_back({mc::fmt("sys%zu/config%zu", i, a), [=](mc::Ctx &c) {
                Projectile p(sys[i].A, sys[i].z, sys[i].q);
                Material m = target(sys[i].k);
                m.thickness(sys[i].th);
                double T = sys[i].T;
                V ref[NQ];
                for (int q = 0; q < NQ; q++) ref[q] = query(q, p, m, T, cf[a]), c.t();
                for (size_t b = 0; b < cf.size(); b++) {
                    default_config = cf[b];
                    for (int cl = 0; cl < 2; cl++) {
                        if (cl) _storage.Reset();
                        for (int q = 0; q < NQ; q++) {
                            V v = query(q, p, m, T, cf[a]);
                            c.t();
                            c.state(hv(q, v));
                            same(c, v, ref[q], 1e-9, mc::fmt("%s Z=%d in %s at %g MeV/u with {%s} while the default is {%s}", Q_NAME[q], sys[i].z, tname(sys[i].k).c_str(), T, cname(cf[a]).c_str(), cname(cf[b]).c_str()));
                        }
                        for (int t = 0; t < m.ncomponents(); t++) {
                            double z1 = z_effective(p(T), m.get_element(t), cf[a]);
                            c.t();
                            c.eq(z1, ref::z_eff(rproj(p), T, m.get_element(t).Z, cf[a].z_effective), 1e-9, 1e-12, "effective charge with explicit configuration");
                        }
                        c.trace();
                    }
                    if (default_config.z_effective != cf[b].z_effective || default_config.corrections != cf[b].corrections || default_config.scattering != cf[b].scattering || default_config.scattering_factor != cf[b].scattering_factor || default_config.calculation != cf[b].calculation || default_config.low_energy != cf[b].low_energy)
                        c.fail("a query changed the default configuration");
                }
                // calls without configuration use the current default
                for (size_t b = 0; b < cf.size(); b++) {
                    default_config = cf[b]; // something else in between
                    query((int)b % NQ, p, m, T, cf[a], false);
                    default_config = cf[a];
                    for (int q = 0; q < NQ; q++) {
                        V v = query(q, p, m, T, cf[b], false), r = ref[q];
                        if (q == 12) r.resize(2);
                        c.t();
                        same(c, v, r, 1e-9, mc::fmt("%s without configuration while the default is {%s}", Q_NAME[q], cname(cf[a]).c_str()));
                    }
                    c.trace();
                }
                Result r = calculate(p.A, (int)p.Z, T, m.get_element(0).A, m.get_element(0).Z, m.thickness(), m.density());
                Material e(m.get_element(0).A, m.get_element(0).Z, m.density(), m.thickness());
                same(c, rv(r), rv(calculate(Projectile(p.A, p.Z, 0, T), e, cf[a])), 1e-9, 0, "simplified call");
                c.sample(mc::fmt("%s: Eloss %.8g", cname(cf[a]).c_str(), calculate(p(T), m, cf[a]).Eloss));
            }});
    return mc::run(o, jobs);
}
