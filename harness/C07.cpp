// C07: a layer stack is the chain of its single layers
#include "common.hpp"
// compares a stack result with the chain of single layers
static void judge(mc::Ctx &c, Projectile p, const std::vector<Material> &w, const Config &k, const Phasespace &ph, const MultiResult &m, const std::string &wh) {
    c.t();
    c.trace();
    if (m.results.size() != w.size()) {
        c.fail(wh + mc::fmt(": %zu results for %zu layers", m.results.size(), w.size()));
        return;
    }
    double T = p.T, e = T, a2 = ph.sigma_a * ph.sigma_a, x2 = ph.sigma_x * ph.sigma_x, cov = ph.cov_x, E2 = 0, loss = 0, tof = 0, sp = 1;
    for (size_t i = 0; i < w.size(); i++) {
        Result r = calculate(p, w[i], e, k);
        c.t();
        same(c, rv(m.results[i]), rv(r), 1e-9, 0, wh + mc::fmt(": layer %zu", i));
        double l = w[i].thickness() / w[i].density();
        x2 += 2 * l * cov + l * l * a2 + r.sigma_x * r.sigma_x;
        cov += a2 * l + r.cov;
        a2 += r.sigma_a * r.sigma_a;
        E2 += r.sigma_E * r.sigma_E;
        loss += r.Eloss;
        tof += r.tof;
        sp = sp < 0 || rv(r).v[12] < 0 ? -1 : sp * rv(r).v[12];
        e = r.Eout;
    }
    const Result &t = m.total_result;
    bool stop = !(e > 1e-3);
    RV ex = {{T, e, loss, t.range, t.dEdxi, t.dEdxo, stop ? 0 : sqrt(E2), stop ? 0 : sqrt(a2), t.sigma_r, sqrt(fabs(x2)), cov, tof, sp}};
    same(c, rv(t), ex, 1e-9, 1e-14, wh + ": total");
    c.state(hrv(w.size(), rv(t)));
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    struct P { double A; int Z; int Q; double T; };
    static const P ps[] = {{39.948, 18, 17, 95}, {12.011, 6, 6, 1000}, {238.05, 92, 88, 32}, {1.008, 1, 1, 20}, {84, 36, 36, 500}};
    static const Phasespace ph[] = {{0, 0, 0}, {0.2, 0.003, 1e-4}, {0.5, 0, 0}, {0, 0.01, -2e-3}, {1e-4, 2e-3, -1e-7}};
    std::vector<Config> cf = {cfg(1), cfg(4, 3, 0, 1, 0, 1.2), cfg(2, 0, 1, 0, 2, 0.7)};
    const int L = 4;
    for (int ip = 0; ip < 5; ip++)
        for (int ic = 0; ic < 3; ic++)
            for (int first = -1; first < 7; first++) // -1: the empty stack
                jobs.push_back({mc::fmt("stack/p%d/c%d/first%d", ip, ic, first), [=](mc::Ctx &c) {
                    Projectile p(ps[ip].A, ps[ip].Z, ps[ip].Q);
                    double T = ps[ip].T;
                    p.T = T;
                    const Config &k = cf[ic];
                    Material menu[7] = {elem(6), get_material(276), elem(79), get_material(301), elem(6), elem(13), elem(6)};
                    double R = range(p, menu[0], k);
                    menu[0].thickness(0.15 * R);
                    menu[1].thickness(0.3 * range(p, menu[1], k));
                    menu[2].thickness((k.scattering == 2 ? 0.02 : 2e-4) * range(p, menu[2], k));
                    menu[3].thickness(0.02 * range(p, menu[3], k));
                    menu[4].thickness(0);
                    menu[5].thickness(1.4 * range(p, menu[5], k)); // stops
                    menu[6].density(1.1).thickness(0.4 * R);
                    int n[L];
                    long total = 1;
                    if (first >= 0)
                        for (int i = 1; i < L; i++) total *= 8; // letter 7: end
                    for (long x = 0; x < total; x++) {
                        std::vector<int> w;
                        if (first >= 0) w.push_back(first);
                        long y = x;
                        bool skip = false;
                        if (first >= 0)
                            for (int i = 1; i < L; i++) {
                                int d = y % 8;
                                y /= 8;
                                if (d == 7) { // the rest has to be empty too, so that every word occurs once
                                    skip = y != (i + 1 < L ? (i + 2 < L ? 7 * 8 + 7 : 7) : 0);
                                    break;
                                }
                                w.push_back(d);
                            }
                        if (skip) continue;
                        Layers ls;
                        std::string name = "stack";
                        for (int i : w) ls.add(menu[i]), name += mc::fmt(" %d", i);
                        for (int s = 0; s < 5; s++) {
                            if (!o.thorough && s >= 2 && w.size() > 3) continue;
                            MultiResult m = s == 0 ? calculate(p, ls, k) : calculate(p, ph[s], ls, k);
                            std::string wh = mc::fmt("Z=%d at %g, %s, phase space %d, {%s}", ps[ip].Z, T, name.c_str(), s, cname(k).c_str());
                            std::vector<Material> ms;
                            for (int i : w) ms.push_back(menu[i]);
                            judge(c, p(T), ms, k, ph[s], m, wh);
                        }
                    }
                    // the same stack again by the energy overload
                    Layers ls;
                    ls.add(menu[0]);
                    ls.add(menu[3]);
                    MultiResult a = calculate(p, ls, k), b = calculate(p(T * 0.5), T, ls, k);
                    for (int i = 0; i < 2; i++) same(c, rv(a.results[i]), rv(b.results[i]), 1e-9, 0, "energy overload");
                    same(c, rv(a.total_result), rv(b.total_result), 1e-9, 0, "energy overload, total");
                    c.sample(mc::fmt("total loss of C,Al foil stack %.8g MeV", a.total_result.Eloss));
                }});
    // layers so thick that (next to) nothing survives, alone and around thin and empty ones
    for (int ip = 0; ip < 4; ip++)
        jobs.push_back({mc::fmt("thick/%d", ip), [=](mc::Ctx &c) {
            static const P hs[] = {{238.05, 92, 92, 9e6}, {4.0026, 2, 2, 9.9e6}, {84, 36, 36, 3e6}, {12, 6, 6, 8e6}};
            Projectile p(hs[ip].A, hs[ip].Z, hs[ip].Q, hs[ip].T);
            const Config &k = cf[0];
            int none = 0;
            for (int z : {1, 6, 29, 82})
                for (double f : {0.05, 0.2, 0.4, 0.6, 0.8, 0.9, 0.97}) {
                    Material t = elem(z), u = elem(13), e = elem(6);
                    p.T = hs[ip].T;
                    t.thickness(f * range(p, t, k));
                    u.thickness(1.0);
                    e.thickness(0);
                    const std::vector<std::vector<Material>> ws = {{t}, {t, u}, {u, t}, {e, t, e}, {u, t, u}, {t, e, t}, {t, u, u, e}};
                    for (size_t i = 0; i < ws.size(); i++) {
                        Layers ls;
                        for (auto &m : ws[i]) ls.add(m);
                        MultiResult m = calculate(p, ls, k);
                        if (rv(m.results[0]).v[12] == 0) none++;
                        judge(c, p, ws[i], k, ph[0], m, mc::fmt("Z=%d at %g, %g of the range in Z=%d, order %zu", hs[ip].Z, p.T, f, z, i));
                    }
                }
            c.maxi("stacks without survivors", none);
        }});
    // long stacks: every length up to 130 and some longer ones; pattern of thin foils, gas, empty layers; some stop at the last layers
    for (int ip = 0; ip < 5; ip++)
        for (int pat = 0; pat < 4; pat++)
            jobs.push_back({mc::fmt("long/p%d/%d", ip, pat), [=](mc::Ctx &c) {
                Projectile p(ps[ip].A, ps[ip].Z, ps[ip].Q, ps[ip].T);
                const double T = ps[ip].T;
                const Config &k = cf[pat % 2];
                std::vector<int> ns;
                for (int n = 5; n <= (o.thorough ? 130 : 34); n++) ns.push_back(n);
                for (int n : {59, 60, 61, 62, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 400}) ns.push_back(n);
                for (int n : ns) {
                    static const int kind[4][4] = {{6, 6, 6, 6}, {6, 79, 6, 13}, {6, 0, 13, 0}, {13, 29, 47, 79}};
                    std::vector<Material> ms;
                    Layers ls;
                    for (int i = 0; i < n; i++) {
                        int z = kind[pat][i % 4];
                        Material m = z ? elem(z) : get_material(301);
                        double f = pat == 3 ? 1.3 : 0.7; // pattern 3 stops before the end
                        m.thickness(z == 0 && i % 8 == 1 ? 0 : f * range(p(T), m, k) / n * (1 + 0.3 * (i % 3 - 1)));
                        ms.push_back(m);
                        ls.add(m);
                    }
                    for (int s : {0, 1}) {
                        MultiResult m = s == 0 ? calculate(p(T), ls, k) : calculate(p(T), ph[s], ls, k);
                        std::string wh = mc::fmt("Z=%d at %g, %d layers of pattern %d, phase space %d", ps[ip].Z, T, n, pat, s);
                        judge(c, p(T), ms, k, ph[s], m, wh);
                    }
                }
            }});
    return mc::run(o, jobs);
}
