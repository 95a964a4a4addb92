// C12: tables are the integrals of the local quantities
#include "common.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    auto visit = [=](mc::Ctx &c, int z, const Material &m, const Config &k, const std::string &w) {
        Projectile p = proj(z);
        // placeholder density-effect data (known findings of C29): the stopping power jumps
        bool jump = m.ncomponents() == 1 && (m.get_element(0).Z == 85 || m.get_element(0).Z == 87);
        p.Q = std::max(1, z - 1);
        auto f1 = [&](double e) { return 1 / dedx(p(e), m, k); };
        auto f2 = [&](double e) { double s = dedx(p(e), m, k); return domega2dx(p(e), m, k) / (s * s * s); };
        double R = 0, V = 0, e0 = 1e-3;
        // local stopping power on a grid twice as fine as the table
        std::vector<double> loc(1199);
        for (int i = 0; i < 1199; i++) loc[i] = dedx(p(pow(10, -3 + 10.0 * i / 1198)), m, k);
        for (int i = 0; i <= 599; i++) {
            double e = pow(10, -3 + 10.0 * i / 599);
            if (i == 599) e = 1e7;
            for (int h = 0; h < 2 && i > 0; h++) { // mid point, then table point
                double mid = sqrt(e0 * e), e1 = h ? e : mid, from = h ? mid : e0;
                R += p.A * ref::gl10(f1, from, e1);
                V += p.A * ref::gl10(f2, from, e1);
                c.t(3);
                c.trace();
                if (e1 < 0.002) continue;
                double r = range(p(e1), m, k), v = range_variance(p, e1, m, k), s = dedx_from_range(p(e1), m, k);
                c.maxi("range", fabs(r / R - 1));
                c.eq(r, R, jump && e1 > 1700 ? 5e-3 : 1e-3, 0, "range of %s at %.8g MeV/u", w.c_str(), e1);
                if (k.z_effective != 3 || e1 > 7) { // the Hubert charge jumps from zero at 2.5 MeV/u
                    c.maxi("variance", fabs(v / V - 1));
                    c.eq(v, V, 8e-3, 0, "range variance of %s at %.8g MeV/u", w.c_str(), e1);
                }
                // the slope stays within the local stopping power of the neighbourhood (kinks of the model are smoothed)
                int j = 2 * i - 1 + h;
                double lo = loc[j], hi = loc[j];
                for (int q = std::max(0, j - 8); q <= std::min(1198, j + 8); q++) lo = std::min(lo, loc[q]), hi = std::max(hi, loc[q]);
                double st = loc[j], tol = (e1 > 9e6 ? 0.02 : 3e-3) + 0.15 * (hi / lo - 1);
                double dev = s < lo ? lo / s - 1 : s > hi ? s / hi - 1 : 0;
                c.maxi("slope band", dev / tol);
                if (!(dev <= tol)) c.fail(mc::fmt("stopping power from range of %s at %.8g MeV/u is %.10g, local values are %.10g to %.10g", w.c_str(), e1, s, lo, hi));
                // away from kinks they agree
                if (j > 8 && j < 1190) {
                    bool smooth = true;
                    for (int q = j - 7; q <= j + 7; q++) smooth = smooth && fabs(loc[q - 1] * loc[q + 1] / (loc[q] * loc[q]) - 1) < 1.5e-3;
                    if (smooth) {
                        c.count("smooth points");
                        c.maxi("slope", fabs(s / st - 1));
                        c.eq(s, st, 1e-3, 0, "stopping power from range of %s at %.8g MeV/u", w.c_str(), e1);
                    }
                }
                if (h && (k.z_effective != 3 || e0 > 7)) { // the slope is that of the variance, by Simpson's rule on each half interval
                    auto g = [&](double x) { return domega2de(p, x, m, k); };
                    double ga = g(e0), gb = g(mid), gc = g(e);
                    double dv = (mid - e0) / 6 * (ga + 4 * g((e0 + mid) / 2) + gb) + (e - mid) / 6 * (gb + 4 * g((mid + e) / 2) + gc);
                    double v0 = range_variance(p, e0, m, k);
                    c.t(5);
                    c.eq(v - v0, dv, 5e-4, 1e-9 * v, "change of the range variance of %s up to %.8g MeV/u by its slope", w.c_str(), e);
                }
                c.eq(range_straggling(p, e1, m, k), sqrt(std::max(0.0, v)), 1e-9, 0, "range straggling of %s at %.8g MeV/u", w.c_str(), e1);
                if (h && i % 7 == 0) c.state(mc::hd(mc::hd(z, r), v));
            }
            // no jumps at table points
            if (i > 0 && i < 599) {
                double d = 1e-9, lo = e * (1 - d), hi = e * (1 + d);
                double s1 = dedx_from_range(p(lo), m, k), s2 = dedx_from_range(p(hi), m, k);
                double g1 = domega2de(p, lo, m, k), g2 = domega2de(p, hi, m, k);
                double gs = std::max(fabs(g1), p.A * f2(e));
                c.t(8);
                c.eq(s1, s2, 1e-5, 0, "slope of the range of %s jumps at %.8g MeV/u", w.c_str(), e);
                c.eq(g1, g2, 0, 1e-5 * gs, "slope of the range variance of %s jumps at %.8g MeV/u", w.c_str(), e);
                double r1 = range(p(lo), m, k), r2 = range(p(hi), m, k);
                c.eq(r2 - r1, p.A / s1 * (hi - lo), 1e-2, 1e-12 * r1, "range of %s jumps at %.8g MeV/u", w.c_str(), e);
                double v1 = range_variance(p, lo, m, k), v2 = range_variance(p, hi, m, k);
                c.eq(v2 - v1, g1 * (hi - lo), 1e-2, 1e-12 * v1, "range variance of %s jumps at %.8g MeV/u", w.c_str(), e);
                c.trace();
            }
            e0 = e;
        }
    };
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) { visit(c, z, target(k), Config(), mc::fmt("Z=%d in %s", z, tname(k).c_str())); });
    std::vector<Config> cf = all_configs();
    for (size_t j = 0; j < cf.size(); j += 4)
        jobs.push_back({mc::fmt("config/%zu", j), [=](mc::Ctx &c) {
            for (int i = 0; i < 12; i++) {
                if (!o.thorough && (i + j / 4) % 12) continue;
                int t = TK[(i * 5 + j / 4) % 12];
                visit(c, PZ[i], target(t), cf[j], mc::fmt("Z=%d in %s {%s}", PZ[i], tname(t).c_str(), cname(cf[j]).c_str()));
            }
        }});
    return mc::run(o, jobs);
}
