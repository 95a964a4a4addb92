// C04: energy balance of a layer and range difference
#include "common.hpp"
static const double FR[] = {0, 1e-9, 1e-4, 0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 0.999, 0.99999, 0.9999999, 1 - 1e-10, 1, 1 + 1e-10, 1.001, 1.5, 10};
static const double EN[] = {1e-3, 1.0001e-3, 0.0012, 0.002, 0.01, 0.1, 0.7, 3, 10, 20, 30, 77, 250, 1000, 9000, 6e4, 1e6, 9.9e6, 1e7};

static void one(mc::Ctx &c, const Projectile &p, Material m, double T, const Config &k, const std::string &w, const double *fr, int nfr, bool full) {
    Projectile q = p;
    q.T = T;
    double R = range(q, m, k);
    c.t();
    for (int i = 0; i < nfr; i++) {
        double f = fr[i], th = f * R;
        m.thickness(th);
        double eo;
        c.t();
        c.trace();
        if (full) {
            Result r = calculate(q, m, k);
            eo = r.Eout;
            c.eq(r.Ein, T, 1e-12, 0, "%s T=%g fraction %g: Ein", w.c_str(), T, f);
            c.eq(r.range, R, 1e-9, 0, "%s T=%g fraction %g: range", w.c_str(), T, f);
            if (th > 0 || R > 0) c.eq(r.Eloss, (T - r.Eout) * p.A, 1e-9, 1e-12 * T * p.A, "%s T=%g fraction %g: energy loss is not (Ein-Eout)*A", w.c_str(), T, f);
            if (th == 0) {
                c.eq(r.Eout, T, 0, 0, "%s T=%g zero thickness: Eout", w.c_str(), T);
                c.eq(r.Eloss, 0, 0, 0, "%s T=%g zero thickness: Eloss", w.c_str(), T);
                c.eq(r.dEdxo, r.dEdxi, 0, 0, "%s T=%g zero thickness: exit stopping power", w.c_str(), T);
                continue;
            }
            c.state(mc::hd(mc::hd(mc::mix((int)p.Z, i), r.Eout), r.Eloss));
            if (th > 0 && th == r.range && r.Eout != 0) c.fail(mc::fmt("%s T=%g: exit energy %g after a layer of exactly the reported range", w.c_str(), T, r.Eout));
            if (th > 0 || R > 0) c.eq(r.dEdxi, dedx_from_range(q, m, k), 1e-9, 0, "%s T=%g fraction %g: stopping power at the entrance", w.c_str(), T, f);
            if (r.Eout >= 1e-3) {
                Projectile out = q;
                out.T = r.Eout;
                c.eq(r.dEdxo, dedx_from_range(out, m, k), 1e-9, 0, "%s T=%g fraction %g: stopping power at the exit energy %g", w.c_str(), T, f, r.Eout);
            }
            c.t(2);
            double e2 = energy_out(q, m, k);
            c.eq(e2, r.Eout, 1e-12, 0, "%s T=%g fraction %g: energy_out and calculate", w.c_str(), T, f);
        } else {
            if (th == 0) continue;
            eo = energy_out(q, m, k);
            c.state(mc::hd(mc::mix((int)p.Z, i), eo));
        }
        if (!(eo >= 0 && eo <= T)) c.fail(mc::fmt("%s T=%g fraction %g: exit energy %.12g outside [0, T]", w.c_str(), T, f, eo));
        if (fabs(th - R) <= 1e-11 * R) continue; // at the range itself rounding decides
        if (th >= R) {
            if (eo != 0) c.fail(mc::fmt("%s T=%g fraction %g: exit energy %g although stopped", w.c_str(), T, f, eo));
        } else {
            if (!(eo > 0)) c.fail(mc::fmt("%s T=%g fraction %.12g: exit energy %g although range is %g above thickness", w.c_str(), T, f, eo, R - th));
            else {
                q.T = eo;
                double Ro = range(q, m, k);
                q.T = T;
                c.t();
                double d = fabs(Ro - (R - th));
                if (!(d <= 1e-5 * (1 + 1e-6) + 1e-12 * R)) c.fail(mc::fmt("%s T=%g fraction %g: remaining range %.10g, expected %.10g", w.c_str(), T, f, Ro, R - th));
            }
        }
    }
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    const int nf = sizeof(FR) / sizeof(double), ne = sizeof(EN) / sizeof(double);
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) {
        Material m = target(k);
        Projectile p = proj(z);
        std::string w = mc::fmt("Z=%d in %s", z, tname(k).c_str());
        for (int e = 0; e < ne; e++) one(c, p, m, EN[e], Config(), w, FR, nf, true);
        for (double T : spread(z * 12 + k, 320)) one(c, p, m, T, Config(), w, FR, nf, true);
        // exit-energy search on a dense energy x fraction grid
        double fr[40];
        for (int i = 0; i < 39; i++) fr[i] = (i + 1) / 40.0;
        for (int e = 3; e <= 97; e++) one(c, p, m, pow(10, -3 + e / 10.0), Config(), w, fr, 39, false);
    });
    std::vector<Config> cf = all_configs();
    for (int i = 0; i < 12; i++)
        jobs.push_back({mc::fmt("configs/%d", i), [=](mc::Ctx &c) {
            for (size_t j = 0; j < cf.size(); j++) {
                if (!o.thorough && j % 4) continue; // scattering models do not enter in the quick tier
                Projectile p = proj(PZ[i]);
                Material m = target(TK[(i + j / 64) % 12]);
                std::string w = mc::fmt("Z=%d in target %d {%s}", PZ[i], TK[(i + j / 64) % 12], cname(cf[j]).c_str());
                for (double T : {0.5, 12.0, 29.0, 100.0, 70000.0}) one(c, p, m, T, cf[j], w, FR, nf, o.thorough);
            }
        }});
    return mc::run(o, jobs);
}
