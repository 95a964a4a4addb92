// C05: range and exit energy are monotone
#include "common.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    auto visit = [=](mc::Ctx &c, int z, Material m, const Config &k, const std::string &w) {
        Projectile p = proj(z);
        // range on a grid eight times finer than the table, and at every table point
        double last = range(p(1e-3), m, k), le = 1e-3;
        c.t();
        c.eq(last, 0, 0, 1e-12, "%s: range at 0.001 MeV/u", w.c_str());
        const int N = 599 * (o.thorough ? 16 : 8);
        for (int i = 1; i <= N; i++) {
            double e = i == N ? 1e7 : pow(10, -3 + 10.0 * i / N);
            double r = range(p(e), m, k);
            c.t();
            if (!(r > last)) c.fail(mc::fmt("%s: range %.12g at %.10g MeV/u is not above %.12g at %.10g", w.c_str(), r, e, last, le));
            if (i % 40 == 0) c.state(mc::hd(z, r));
            last = r, le = e;
        }
        c.trace();
        // all ordered energy and thickness pairs
        static const int NE = 14, NT = 16;
        double E[NE], R[NE], th[NT], ro[NE][NT];
        for (int i = 0; i < NE; i++) {
            E[i] = pow(10, -2.5 + i * 0.7);
            R[i] = range(p(E[i]), m, k);
        }
        for (int set = 0; set < NE; set += 2) { // thicknesses as fractions of each range
            for (int j = 0; j < NT; j++) th[j] = R[set] * (j < 12 ? (j + 1) / 12.5 : 1 - pow(10, -(j - 9.0)));
            std::sort(th, th + NT);
            double eo[NE][NT];
            for (int i = 0; i < NE; i++)
                for (int j = 0; j < NT; j++) {
                    Material n = m;
                    n.thickness(th[j]);
                    eo[i][j] = energy_out(p(E[i]), n, k);
                    ro[i][j] = eo[i][j] > 0 ? range(p(eo[i][j]), n, k) : 0;
                    c.t(2);
                    c.state(mc::hd(mc::mix(z, i * 100 + j), eo[i][j]));
                }
            for (int i = 0; i < NE; i++)
                for (int j = 0; j < NT; j++) {
                    for (int j2 = j + 1; j2 < NT; j2++)
                        if (!(ro[i][j2] <= ro[i][j] + 2.1e-5)) c.fail(mc::fmt("%s at %g MeV/u: thicker layer %.10g exits with %.10g, %.10g with %.10g", w.c_str(), E[i], th[j2], eo[i][j2], th[j], eo[i][j]));
                    for (int i2 = i + 1; i2 < NE; i2++)
                        if (!(ro[i2][j] >= ro[i][j] - 2.1e-5)) c.fail(mc::fmt("%s thickness %.10g: exit %.10g at %g but %.10g at %g MeV/u", w.c_str(), th[j], eo[i2][j], E[i2], eo[i][j], E[i]));
                    c.trace();
                }
        }
    };
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) { visit(c, z, target(k), Config(), mc::fmt("Z=%d in %s", z, tname(k).c_str())); });
    std::vector<Config> cf = all_configs();
    for (int i = 0; i < 12; i++)
        jobs.push_back({mc::fmt("configs/%d", i), [=](mc::Ctx &c) {
            for (size_t j = 0; j < cf.size(); j += 4) {
                if (!o.thorough && (j / 4) % 12 != i) continue;
                visit(c, PZ[i], target(TK[(i + j / 16) % 12]), cf[j], mc::fmt("Z=%d in target %d {%s}", PZ[i], TK[(i + j / 16) % 12], cname(cf[j]).c_str()));
            }
        }});
    return mc::run(o, jobs);
}
