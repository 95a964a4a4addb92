// C29: neighbouring inputs give neighbouring results
// Along a line of inputs a step which sticks out from the steps before and after it is bisected down to an interval of
// 1e-7 (relative); what is then left of the change is a jump. Steep slopes and kinks are not jumps.
#include "common.hpp"
static const bool CAL = getenv("C29_CAL") != nullptr; // report every jump above 1e-6
typedef std::vector<double> V;
typedef std::function<V(double)> Fn;
struct Axis {
    const char *name;
    const char *const *q;
    double from, to, ratio;
    std::function<double(int, double, const V &)> lim; // admitted jump of a quantity at x with these values
};
static double ln(double a) { return a > 0 && std::isfinite(a) ? log(a) : NAN; }
static void line(mc::Ctx &c, const Axis &a, const Fn &f, const std::string &w) {
    std::vector<double> x;
    std::vector<V> r;
    for (double y = a.from; y <= a.to * (1 + 1e-12); y *= a.ratio) {
        V v = f(y);
        c.t();
        if (v.empty()) continue;
        x.push_back(y);
        r.push_back(v);
    }
    int n = x.size();
    for (int q = 0; n && q < (int)r[0].size(); q++) {
        for (int i = 2; i + 1 < n; i++) {
            double d0 = fabs(ln(r[i - 1][q]) - ln(r[i - 2][q])), d1 = fabs(ln(r[i][q]) - ln(r[i - 1][q])), d2 = fabs(ln(r[i + 1][q]) - ln(r[i][q]));
            if (!(d0 + d1 + d2 >= 0)) continue;
            c.trace();
            if (d1 < 1.5 * std::max(d0, d2) + 1e-5) continue;
            double lo = x[i - 1], hi = x[i], vl = ln(r[i - 1][q]), vh = ln(r[i][q]);
            V at = r[i];
            while (hi / lo > 1 + 1e-7 && fabs(vh - vl) > 1e-6) {
                double mid = sqrt(lo * hi);
                V v = f(mid);
                c.t();
                double vm = v.empty() ? NAN : ln(v[q]);
                if (!(vm == vm)) break;
                if (fabs(vm - vl) > fabs(vh - vm)) hi = mid, vh = vm, at = v;
                else lo = mid, vl = vm;
            }
            c.count("steps refined");
            double j = fabs(vh - vl);
            if (!(hi / lo <= 1 + 1e-7) || j <= 1e-6) continue;
            c.maxi(mc::fmt("%s %s", a.name, a.q[q]).c_str(), j);
            if (j > (CAL ? 1e-6 : a.lim(q, hi, at)))
                c.fail(mc::fmt("%s: %s jumps by %.3g at %s %.10g", w.c_str(), a.q[q], j, a.name, hi));
        }
        c.state(mc::hd(mc::hd(q, r[n / 2][q]), x[n / 2]));
    }
}
static V vec(const Result &r) {
    RV x = rv(r);
    return V(x.v, x.v + NRES);
}
static const char *const LOCAL[] = {"dedx", "domega2dx", "da2dx", "range", "range straggling", "dedx from range", "range variance", "effective charge"};
static void thickness_axis(mc::Ctx &c, Projectile p, Material m, const Config &k, const std::string &w, const V &Ts) {
    for (double T : Ts) {
        double R = range(p(T), m, k);
        if (R < 0.01) continue; // exit energies are promised to an absolute accuracy of 1e-5 g/cm2
        Axis a = {"thickness", RES_NAME, (k.scattering == 0 || k.scattering == 2 ? 0.011 : 1e-4), 0.97, 1.09, [](int, double, const V &) { return 1e-3; }};
        line(c, a, [&](double f) { m.thickness(f * R); return vec(calculate(p(T), m, k)); }, w + mc::fmt(" at %g MeV/u, thickness in ranges", T));
    }
}
static void energy_axis(mc::Ctx &c, Projectile p, Material m, const Config &k, const std::string &w, double f) {
    Axis a = {"energy", RES_NAME, 0.01, 4e5, 1.1, [&](int q, double, const V &) { return q == 11 ? 1e-2 : 1.5e-3; }};
    line(c, a, [&](double T) {
        double R = range(p(T), m, k);
        if (R < 0.01) return V();
        m.thickness(f * R);
        return vec(calculate(p(T), m, k)); }, w + mc::fmt(" through %g ranges", f));
}
// skip: energy around which jumps are not judged, from..to: energies
static void local_axis(mc::Ctx &c, Projectile p, Material m, const Config &k, const std::string &w, double skip = 0, double from = 1.1e-3, double to = 4e5) {
    Axis a = {"local energy", LOCAL, from, to, 1.05, [&](int q, double T, const V &) {
        if (skip > 0 && q == 0 && fabs(T / skip - 1) < 1e-3) return 0.3; 
        // switches of the model: high-energy contributions at 50 GeV/u, velocity-proportional stopping at a few keV/u, end of the
        // tabulated Barkas function (beta gamma of 4 sqrt(Z) / 137), Lindhard-Soerensen table from 1 MeV/u
        if (q == 0) {
            for (int i = 0; i < m.ncomponents(); i++) {
                double bg = 4 * sqrt((double)m.get_element(i).Z) * fine_structure;
                if (fabs(T / (atomic_mass_unit * (sqrt(1 + bg * bg) - 1)) - 1) < 1e-4) return 0.02;
            }
            return fabs(T / 5e4 - 1) < 1e-5 ? 0.1 : T < 0.01 ? 0.1 : T < 0.03 ? 0.01 : 2e-3;
        }
        if (q == 1) return fabs(T - 1) < 1e-5 ? 0.05 : 2e-3;
        return 2e-3; }};
    line(c, a, [&](double T) {
        p.T = T;
        return V{dedx(p, m, k), domega2dx(p, m, k), da2dx(p, m, k), range(p, m, k), range_straggling(p, T, m, k), dedx_from_range(p, m, k), range_variance(p, T, m, k), z_effective(p, m.get_element(0), k)}; }, w);
}
// an isolated point: a round energy or thickness at which a value lies off both neighbours
static const double ROUND[] = {0.002, 0.005, 0.01, 0.02, 0.025, 0.03, 0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 0.8, 1, 1.5, 2, 2.5, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 20, 22, 25, 28, 29, 30, 31, 32, 35, 40, 45, 50, 60, 64, 70, 75, 80, 85, 90, 95, 100, 120, 128, 150, 180, 200, 250, 256, 300, 350, 400, 450, 500, 512, 550, 600, 650, 700, 750, 800, 850, 900, 950, 1000, 1024, 1200, 1500, 2000, 2500, 3000, 4000, 5000, 6000, 8000, 10000, 15000, 20000, 30000, 40000, 50000, 60000, 80000, 1e5, 2e5, 3e5, 4e5};
static void points(mc::Ctx &c, const char *const *name, const Fn &f, double tol, const std::string &w, const double *x, int n) {
    for (int i = 0; i < n; i++) {
        V v = f(x[i]), l = f(x[i] * (1 - 1e-9)), h = f(x[i] * (1 + 1e-9));
        c.t(3);
        for (size_t q = 0; q < v.size() && q < l.size() && q < h.size(); q++) {
            c.trace();
            if (!mc::close(v[q], l[q], tol) && !mc::close(v[q], h[q], tol) && (v[q] - l[q]) * (v[q] - h[q]) > 0) c.fail(mc::fmt("%s: %s at exactly %g is %.10g, next to it %.10g and %.10g", w.c_str(), name[q], x[i], v[q], l[q], h[q]));
        }
    }
}
static void exact(mc::Ctx &c, Projectile p, Material m, const Config &k, const std::string &w, int sel) {
    points(c, LOCAL, [&](double T) {
        p.T = T;
        return V{dedx(p, m, k), domega2dx(p, m, k), da2dx(p, m, k), range(p, m, k), range_straggling(p, T, m, k), dedx_from_range(p, m, k), range_variance(p, T, m, k), z_effective(p, m.get_element(0), k)}; }, 1e-6, w, ROUND, sizeof(ROUND) / sizeof(*ROUND));
    // whole results: a part of the energies and thicknesses
    for (int i = sel % 4; i < (int)(sizeof(ROUND) / sizeof(*ROUND)); i += 4) {
        double T = ROUND[i], R = range(p(T), m, k);
        if (R < 0.1) continue;
        m.thickness(0.3 * R);
        points(c, RES_NAME, [&](double e) { return vec(calculate(p(e), m, k)); }, 2e-3, w + mc::fmt(" through %g g/cm2, energy", 0.3 * R), &T, 1);
        static const double TH[] = {0.01, 0.02, 0.05, 0.1, 0.2, 0.25, 0.5, 1, 2, 5, 10, 20, 50, 100};
        for (double t : TH)
            if (t > 0.02 * R && t < 0.9 * R && (i / 4 + (int)(t * 100)) % 3 == 0) points(c, RES_NAME, [&](double y) { m.thickness(y); return vec(calculate(p(T), m, k)); }, 2e-3, w + mc::fmt(" at %g MeV/u, thickness", T), &t, 1);
    }
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    // targets whose density-effect parameters are placeholders: energy at which the effect sets in; own jobs below
    auto onset = [](int k) { return k == 84 ? 1743.104 : k == 86 ? 2892.052 : 0; };
    pair_jobs(jobs, o.thorough, [=](mc::Ctx &c, int z, int k) {
        std::string w = mc::fmt("Z=%d in %s", z, tname(k).c_str());
        thickness_axis(c, proj(z), target(k), Config(), w, {0.5, 8.0, 95.0, 1000.0, 30000.0});
        for (double f : {0.002, 0.3}) energy_axis(c, proj(z), target(k), Config(), w, f);
        local_axis(c, proj(z), target(k), Config(), w, onset(k));
        exact(c, proj(z), target(k), Config(), w, z + k);
    });
    std::vector<Config> cf = all_configs();
    for (size_t j = 0; j < cf.size(); j++)
        jobs.push_back({mc::fmt("config/%zu", j), [=](mc::Ctx &c) {
            for (int i = 0; i < 12; i++) {
                if ((i + j) % (o.thorough ? 1 : 6)) continue;
                int t = TK[(i * 5 + j / 12) % 12];
                Projectile p = proj(PZ[i]);
                p.Q = std::max(1.0, p.Z - 1);
                std::string w = mc::fmt("Z=%d in %s {%s}", PZ[i], tname(t).c_str(), cname(cf[j]).c_str());
                thickness_axis(c, p, target(t), cf[j], w, {8.0, 95.0, 1000.0});
                energy_axis(c, p, target(t), cf[j], w, 0.3);
                local_axis(c, p, target(t), cf[j], w);
                exact(c, p, target(t), cf[j], w, i + j);
            }
        }});
    for (int k : {84, 86})
        jobs.push_back({mc::fmt("density-effect/%s", tname(k).c_str()), [=](mc::Ctx &c) {
            for (int z : PZ) local_axis(c, proj(z), target(k), Config(), mc::fmt("Z=%d in %s", z, tname(k).c_str()), 0, onset(k) / 1.2, onset(k) * 1.2);
        }});
    // mass of the projectile and ionisation potential of the target
    for (int z : PZ)
        jobs.push_back({mc::fmt("mass/Z%d", z), [=](mc::Ctx &c) {
            for (int t : TK)
                for (double T : {8.0, 300.0}) {
                    Axis a = {"mass", RES_NAME, 0.7, 1.5, 1.04, [](int, double, const V &) { return 3e-3; }};
                    line(c, a, [&](double s) {
                        Projectile p = proj(z, s, T);
                        Material m = target(t);
                        m.thickness(0.2 * range(p, m));
                        V v = vec(calculate(p, m));
                        v[12] = 1; // cross sections are those of whole nucleon numbers
                        return v; }, mc::fmt("Z=%d in %s at %g MeV/u, mass in units of the natural one", z, tname(t).c_str(), T));
                    if (t >= 98) continue;
                    Axis b = {"potential", RES_NAME, 0.6 * frozen::ipot[t + 1], 1.6 * frozen::ipot[t + 1], 1.06, [](int, double, const V &) { return 2e-3; }};
                    line(c, b, [&](double I) {
                        Material q = target(t);
                        q.I(I).thickness(0.2 * range(proj(z, 1, T), q));
                        return vec(calculate(proj(z, 1, T), q)); }, mc::fmt("Z=%d in %s at %g MeV/u, ionisation potential in eV", z, tname(t).c_str(), T));
                }
        }});
    return mc::run(o, jobs);
}
