// C08: cutting a layer into pieces changes nothing
#include "common.hpp"
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    // all compositions of 8 eighths into 1..4 pieces, and all with zero layers in between
    std::vector<std::vector<int>> parts;
    for (int a = 1; a <= 8; a++) {
        if (a == 8) parts.push_back({8});
        for (int b = 1; a + b <= 8; b++) {
            if (a + b == 8) parts.push_back({a, b});
            for (int d = 1; a + b + d <= 8; d++) {
                if (a + b + d == 8) parts.push_back({a, b, d});
                int e = 8 - a - b - d;
                if (e >= 1) parts.push_back({a, b, d, e});
            }
        }
    }
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) {
        if (!o.thorough && !(in(PZ, 12, z) && k % 3 == z % 3) && !(in(TK, 12, k))) return;
        Material m = target(k);
        Projectile p = proj(z);
        for (double T : {2.0, 28.0, 60.0, 400.0, 3000.0, 80000.0})
            for (double f : {0.08, 0.4, 0.9, 1.1}) {
                p.T = T;
                double R = range(p, m);
                if (f * R < 2e-3) continue; // below the search accuracy
                m.thickness(f * R);
                Result w = calculate(p, m);
                c.t(2);
                std::string wh = mc::fmt("Z=%d in %s at %g MeV/u, %g of the range", z, tname(k).c_str(), T, f);
                for (size_t ip = 0; ip < parts.size(); ip++) {
                    auto &pt = parts[ip];
                    if (!o.thorough && ip % 7 != (size_t)(z + k) % 7 && pt.size() > 2) continue;
                    for (int zero = 0; zero < 2; zero++) {
                        if (zero && pt.size() != 2) continue;
                        Layers L;
                        double used = 0;
                        for (size_t i = 0; i < pt.size(); i++) {
                            Material q = m;
                            double th = f * R * pt[i] / 8;
                            if (zero) { q.thickness(0); L.add(q); }
                            q.thickness(th);
                            used += th;
                            L.add(q);
                        }
                        if (zero) { Material q = m; q.thickness(0); L.add(q); }
                        Result t = calculate(p, L).total_result;
                        c.t();
                        c.trace();
                        double n = pt.size();
                        // exit energy in units of remaining range
                        double r1 = w.Eout > 0 ? range(p(w.Eout), m) : 0, r2 = t.Eout > 0 ? range(p(t.Eout), m) : 0;
                        p.T = T;
                        double acc = 2e-5 * n;
                        if (!(fabs(r1 - r2) <= acc)) c.fail(wh + mc::fmt(" in %g pieces%s: remaining range %.8g instead of %.8g", n, zero ? " with empty layers" : "", r2, r1));
                        double de = fabs(w.Eout - t.Eout) * p.A;
                        c.eq(t.Eloss, w.Eloss, 1e-9, de + 1e-9 * w.Eloss, "%s in %g pieces: energy loss does not follow exit energy", wh.c_str(), n);
                        if (w.Eout > 0 && t.Eout > 0) {
                            // accuracy of the internal quadrature; elements 85-88 have a kink in their density effect
                            double rel = T < 10 ? (f > 0.5 ? 0.15 : 0.03) : T < 50 ? 0.012 : T < 100 ? 0.006 : T < 1000 ? 5e-4 : 2e-3;
                            if (k >= 84 && k <= 87) rel += 0.03;
                            auto cmp = [&](const char *nm, double a, double b, double rel) {
                                if (b > 0) c.maxi(nm, fabs(a / b - 1) / rel);
                                c.eq(a, b, rel, 1e-15, "%s in %g pieces%s: %s", wh.c_str(), n, zero ? " with empty layers" : "", nm);
                            };
                            cmp("tof", t.tof, w.tof, rel);
                            cmp("sigma_a", t.sigma_a, w.sigma_a, rel);
                            cmp("sigma_x", t.sigma_x, w.sigma_x, rel);
                            if (w.sp > 0 && t.sp > 0) cmp("log sp", -log(t.sp) , -log(w.sp), 0.02);
                            else if ((w.sp < 0) != (t.sp < 0) && fabs(w.Eout - 30) > 0.5) c.fail(wh + mc::fmt(" in %g pieces: survival %g instead of %g", n, t.sp, w.sp));
                        }
                        c.state(mc::hd(mc::hd(mc::mix(z, ip), t.Eout), t.sigma_x));
                    }
                }
            }
    });
    // slices in each of which less than a thousandth of the energy is lost
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) {
        if (!o.thorough && (z + k) % 4) return;
        Material m = target(k);
        Projectile p = proj(z);
        int iT = 0;
        for (double T : {60.0, 400.0, 3000.0, 80000.0}) {
            if (!o.thorough && iT++ % 2 != z / 2 % 2) continue;
            for (double f : {0.005, 0.02})
                for (int n : {20, 50}) {
                    p.T = T;
                    m.thickness(0);
                    double th = f * range(p, m);
                    if (th / n < 1e-3) continue;
                    m.thickness(th);
                    Result w = calculate(p, m);
                    Material q = m;
                    q.thickness(th / n);
                    Layers L;
                    for (int i = 0; i < n; i++) L.add(q);
                    Result t = calculate(p, L).total_result;
                    c.t(2);
                    c.trace();
                    std::string wh = mc::fmt("Z=%d in %s at %g MeV/u, %g of the range in %d slices", z, tname(k).c_str(), T, f, n);
                    double tol = 1e-3 + 2e-5 * n / th;
                    auto cmp = [&](const char *nm, double a, double b, double tol) {
                        if (b > 0 && tol < 2e-3) c.maxi((std::string("slices ") + nm).c_str(), fabs(a / b - 1));
                        c.eq(a, b, tol, 1e-15, "%s: %s", wh.c_str(), nm);
                    };
                    cmp("energy loss", t.Eloss, w.Eloss, tol);
                    cmp("time of flight", t.tof, w.tof, tol);
                    cmp("angular straggling", t.sigma_a, w.sigma_a, tol);
                    cmp("position straggling", t.sigma_x, w.sigma_x, tol);
                    if (w.sp > 0 && t.sp > 0) cmp("survival", -log(t.sp), -log(w.sp), 0.02);
                    c.state(mc::hd(mc::hd(mc::mix(z, n), t.Eout), t.sigma_a));
                }
        }
    }, "slices");
    return mc::run(o, jobs);
}
