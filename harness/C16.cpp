// C16: a material means the same however it was built
#include "common.hpp"
#include <algorithm>
static Material ctor(const std::vector<std::array<double, 3>> &l, double rho, double I = 0, double M = 0) {
    switch (l.size()) {
    case 1: return Material({l[0]}, rho, I, M);
    case 2: return Material({l[0], l[1]}, rho, I, M);
    case 3: return Material({l[0], l[1], l[2]}, rho, I, M);
    case 4: return Material({l[0], l[1], l[2], l[3]}, rho, I, M);
    case 5: return Material({l[0], l[1], l[2], l[3], l[4]}, rho, I, M);
    case 6: return Material({l[0], l[1], l[2], l[3], l[4], l[5]}, rho, I, M);
    case 7: return Material({l[0], l[1], l[2], l[3], l[4], l[5], l[6]}, rho, I, M);
    case 8: return Material({l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7]}, rho, I, M);
    case 9: return Material({l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8]}, rho, I, M);
    case 10: return Material({l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9]}, rho, I, M);
    case 11: return Material({l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10]}, rho, I, M);
    case 12: return Material({l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11]}, rho, I, M);
    default: abort();
    }
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    static const int Z[] = {1, 6, 8, 13, 29, 82};
    const int NZ = 6;
    // expected weight fraction and atoms per mass from atom counts
    struct Exp { std::vector<double> w, n; double M; };
    auto expect = [](const std::vector<std::array<double, 3>> &l) {
        Exp e;
        e.M = 0;
        for (auto &x : l) e.M += x[0] * x[2];
        for (auto &x : l) e.w.push_back(x[0] * x[2] / e.M), e.n.push_back(6.022140857 * x[2] / e.M);
        return e;
    };
    auto verify = [=](mc::Ctx &c, const Material &m, const std::vector<std::array<double, 3>> &l, const Exp &e, double rho, double th, const std::string &w, bool physics, const std::vector<double> *ref, std::vector<double> *out) {
        c.t();
        c.trace();
        if (m.ncomponents() != (int)l.size()) { c.fail(w + ": number of components"); return; }
        double sum = 0;
        for (size_t i = 0; i < l.size(); i++) {
            Target t = m.get_element(i);
            c.eq(t.A, l[i][0], 1e-12, 0, "%s: mass of component %zu", w.c_str(), i);
            if (t.Z != (int)l[i][1]) c.fail(w + ": charge of component");
            c.eq(m.weight_fraction(i), e.w[i], 1e-9, 0, "%s: weight fraction %zu", w.c_str(), i);
            c.eq(m.number_density(i), e.n[i] * rho, 1e-9, 0, "%s: number density %zu", w.c_str(), i);
            c.eq(m.number_density_cm2(i), e.n[i] * th, 1e-9, 0, "%s: areal density %zu", w.c_str(), i);
            sum += m.weight_fraction(i);
        }
        c.eq(sum, 1, 1e-9, 0, "%s: sum of weight fractions", w.c_str());
        c.eq(m.number_density(l.size()), 0, 0, 0, "%s: number density beyond the last", w.c_str());
        c.eq(m.density(), rho, 1e-12, 0, "%s: density", w.c_str());
        c.eq(m.thickness(), th, 1e-12, 0, "%s: thickness", w.c_str());
        c.eq(m.thickness_cm(), th / rho, 1e-12, 0, "%s: length", w.c_str());
        c.state(mc::hd(mc::hd((int)l[0][1], m.weight_fraction(0)), m.number_density(0)));
        std::vector<double> v;
        for (double T : {3.0, 20.0, 200.0}) v.push_back(dedx(proj(18, 1, T), m)), v.push_back(domega2dx(proj(18, 1, T), m)), v.push_back(da2dx(proj(18, 1, T), m));
        if (physics) {
            Projectile p = proj(18, 1, 200);
            v.push_back(range(p, m));
            v.push_back(range_straggling(p, 200, m));
            if (th > 0) {
                double s = nonreaction_rate(p, m);
                v.push_back(s);
                v.push_back(energy_out(p, m));
                // against the definition: all atoms, thin layer
                if (s > 0 && th < 0.2) {
                    double mu = 0;
                    for (size_t i = 0; i < l.size(); i++) mu += e.n[i] * th * ref::kox(40, 18, 200, frozen::iso[(int)l[i][1]].a[0], (int)l[i][1]);
                    c.eq(-log(s), mu * 1e-4, 0.03, 0, "%s: reaction probability", w.c_str());
                }
            }
        }
        c.t(v.size());
        if (ref && !ref->empty())
            for (size_t i = 0; i < std::min(v.size(), ref->size()); i++) c.eq(v[i], (*ref)[i], 1e-7, 0, "%s: physical quantity %zu", w.c_str(), i);
        if (out) *out = v;
    };
    auto family = [=](mc::Ctx &c, std::vector<std::array<double, 3>> l, bool physics) {
        Exp e = expect(l);
        std::string w = "composition";
        for (auto &x : l) w += mc::fmt(" (%g,%g)x%g", x[0], x[1], x[2]);
        const double rho = 1.7, th = 0.1;
        std::vector<double> ref;
        bool natural = true;
        for (auto &x : l) natural = natural && fabs(x[0] - nat((int)x[1])) < 1e-12;
        Material a = ctor(l, rho);
        a.thickness(th);
        verify(c, a, l, e, rho, th, w + " constructor", physics, nullptr, &ref);
        c.eq(a.M(), e.M, 1e-9, 0, "%s: molar mass", w.c_str());
        c.eq(a.number_density(), 6.022140857 * rho / e.M, 1e-9, 0, "%s: molecules per volume", w.c_str());
        c.eq(a.number_density_cm2(), 6.022140857 * th / e.M, 1e-9, 0, "%s: molecules per area", w.c_str());
        Material b;
        for (auto &x : l) b.add_element(x[0], (int)x[1], x[2]);
        b.density(rho).thickness(th);
        verify(c, b, l, e, rho, th, w + " element by element", physics, &ref, nullptr);
        if (!(a == b) || !(b == a)) c.fail(w + ": constructed and assembled materials differ");
        // setters in other orders, by length
        Material d;
        d.density(rho).thickness_cm(th / rho);
        for (auto &x : l) d.add_element(x[0], (int)x[1], x[2]);
        verify(c, d, l, e, rho, th, w + " setters first", false, &ref, nullptr);
        if (!(a == d)) c.fail(w + ": order of setters matters");
        Material g = a;
        g.thickness(5 * th).density(2 * rho).thickness_cm(th / rho).density(rho);
        g.thickness_cm(th / rho);
        verify(c, g, l, e, rho, th, w + " changed copy", false, &ref, nullptr);
        if (natural) {
            auto l0 = l;
            for (auto &x : l0) x[0] = 0;
            Material n = ctor(l0, rho);
            n.thickness(th);
            verify(c, n, l, e, rho, th, w + " natural masses", physics, &ref, nullptr);
            if (!(n == a)) c.fail(w + ": natural masses differ from explicit ones");
            Material n2;
            for (auto &x : l0) n2.add_element(0, (int)x[1], x[2]);
            n2.density(rho).thickness(th);
            if (!(n2 == a)) c.fail(w + ": natural masses differ from explicit ones, element by element");
        }
        // scaled counts: same physics
        for (double s : {2.0, 3.0, 1.5}) {
            auto ls = l;
            for (auto &x : ls) x[2] *= s;
            Material q = ctor(ls, rho);
            q.thickness(th);
            verify(c, q, l, e, rho, th, w + mc::fmt(" scaled by %g", s), physics, &ref, nullptr);
        }
        // weight fractions
        if (l.size() > 1) {
            auto lw = l;
            for (size_t i = 0; i < l.size(); i++) lw[i][2] = e.w[i];
            Material q = ctor(lw, rho);
            q.thickness(th);
            verify(c, q, l, e, rho, th, w + " by weight", physics, &ref, nullptr);
            Material r;
            r.thickness(th).density(rho);
            for (auto &x : lw) r.add_element(x[0], (int)x[1], x[2]);
            verify(c, r, l, e, rho, th, w + " by weight, element by element", physics, &ref, nullptr);
            if (!(q == r)) c.fail(w + ": constructed and assembled by weight differ");
            double nsum = 0, mf = 0; // mean molar mass: as many atoms as all constituents together
            for (size_t i = 0; i < l.size(); i++) nsum += e.w[i] / l[i][0];
            for (const Material *y : {&q, &r}) {
                mf = 0;
                for (size_t i = 0; i < l.size(); i++) mf += y->molar_fraction(i);
                c.eq(y->M(), 1 / nsum, 1e-9, 0, "%s by weight: mean molar mass", w.c_str());
                c.eq(mf, 1, 1e-9, 0, "%s by weight: sum of molar fractions", w.c_str());
                c.eq(y->number_density(), 6.022140857 * rho * nsum, 1e-9, 0, "%s by weight: number density", w.c_str());
                c.eq(y->number_density_cm2(), 6.022140857 * th * nsum, 1e-9, 0, "%s by weight: areal number density", w.c_str());
            }
        }
        // explicit molar mass and potential stay as given
        Material x = ctor(l, rho, 88.0, 77.0);
        c.eq(x.M(), 77, 1e-12, 0, "%s: given molar mass", w.c_str());
        c.eq(x.I(), 88, 1e-12, 0, "%s: given potential", w.c_str());
        c.eq(a.I(), 0, 0, 0, "%s: default potential", w.c_str());
        // copies
        Material y = a, z = a;
        y.density(9).thickness(9).I(9).M(9);
        y.add_element(12, 6, 1);
        if (!(z == a) || a.ncomponents() != (int)l.size() || a.density() != rho || a.thickness() != th || a.I() != 0) c.fail(w + ": changing a copy changed the original");
        if (y == a) c.fail(w + ": changed copy still equal");
    };
    for (int i = 0; i < NZ; i++)
        jobs.push_back({mc::fmt("first/Z%d", Z[i]), [=](mc::Ctx &c) {
            for (double ai : {1.0, 2.0, 3.0}) {
                family(c, {{nat(Z[i]), (double)Z[i], ai}}, true);
                family(c, {{nat(Z[i]) * 1.01, (double)Z[i], ai}}, true);
                for (int j = 0; j < NZ; j++)
                    for (double aj : {1.0, 2.0, 3.0}) {
                        family(c, {{nat(Z[i]), (double)Z[i], ai}, {nat(Z[j]), (double)Z[j], aj}}, o.thorough || (i + j + (int)(ai + aj)) % 3 == 0);
                        for (int k = 0; k < NZ; k++)
                            for (double ak : {1.0, 2.0, 3.0}) family(c, {{nat(Z[i]), (double)Z[i], ai}, {nat(Z[j]) * (k == j ? 1.02 : 1), (double)Z[j], aj}, {nat(Z[k]), (double)Z[k], ak}}, (i * 3 + j * 5 + k * 7 + (int)(ai * 2 + aj * 3 + ak)) % (o.thorough ? 4 : 40) == 0);
                    }
            }
            c.sample(mc::fmt("compositions starting with Z=%d", Z[i]));
        }});
    // long lists of constituents
    for (int n = 4; n <= 12; n++)
        jobs.push_back({mc::fmt("long/%d", n), [=](mc::Ctx &c) {
            for (int first = 1; first <= 20; first++)
                for (int step : {1, 5, 7})
                    for (int pattern = 0; pattern < 4; pattern++) {
                        std::vector<std::array<double, 3>> l;
                        for (int i = 0; i < n; i++) {
                            int z = 1 + (first + i * step - 1) % 92;
                            l.push_back({nat(z), (double)z, pattern == 0 ? 1.0 : pattern == 1 ? 1.0 + i : pattern == 2 ? 1.0 + (n - i) * 2 : i == n / 2 ? 40.0 : 1.5});
                        }
                        family(c, l, first == 1 && step == 5);
                    }
            c.sample(mc::fmt("compositions of %d constituents", n));
        }});
    // weight fractions close to zero and to one
    static const double W[] = {1e-4, 0.004, 0.05, 0.099, 0.101, 0.3, 0.5};
    for (int i = 0; i < NZ; i++)
        jobs.push_back({mc::fmt("fractions/Z%d", Z[i]), [=](mc::Ctx &c) {
            for (int j = 0; j < NZ; j++)
                for (double w : W)
                    for (int k = -1; k < NZ; k += o.thorough ? 1 : 3)
                        for (int wk = 0; wk < (k < 0 ? 1 : 3); wk++) {
                            double w2 = k < 0 ? 0 : w * (wk == 0 ? 0.01 : wk == 1 ? 0.4 : 1);
                            if (w + w2 >= 1) continue;
                            std::vector<std::array<double, 3>> l = {{nat(Z[i]), (double)Z[i], 1 - w - w2}, {nat(Z[j]) * (i == j ? 1.02 : 1), (double)Z[j], w}};
                            if (k >= 0) l.push_back({nat(Z[k]) * 1.05, (double)Z[k], w2});
                            for (int rot = 0; rot < (int)l.size(); rot++) {
                                std::rotate(l.begin(), l.begin() + 1, l.end());
                                auto n = l; // atom counts of the same composition
                                for (auto &x : n) x[2] /= x[0];
                                Exp e = expect(n);
                                std::string s = "by weight";
                                for (auto &x : l) s += mc::fmt(" (%g,%g)x%g", x[0], x[1], x[2]);
                                Material a = ctor(l, 1.7), b;
                                a.thickness(0.1);
                                verify(c, a, n, e, 1.7, 0.1, s, false, nullptr, nullptr);
                                double M = 0;
                                for (auto &x : l) M += x[2] / x[0];
                                c.eq(a.M(), 1 / M, 1e-9, 0, "%s: molar mass", s.c_str());
                                for (auto &x : l) b.add_element(x[0], (int)x[1], x[2]);
                                b.density(1.7).thickness(0.1);
                                verify(c, b, n, e, 1.7, 0.1, s + " element by element", false, nullptr, nullptr);
                                if (!(a == b)) c.fail(s + ": constructed and assembled differ");
                                // rounded fractions: their sum is not quite one
                                for (double f : {0.998, 1.002}) {
                                    auto q = l;
                                    bool small = true;
                                    for (auto &x : q) x[2] *= f, small = small && x[2] < 1;
                                    if (!small) continue;
                                    Material r = ctor(q, 1.7), t;
                                    for (auto &x : q) t.add_element(x[0], (int)x[1], x[2]);
                                    t.density(1.7);
                                    c.t();
                                    for (const Material *y : {&r, &t}) {
                                        c.eq(y->M(), 1 / M, 5e-3, 0, "%s rounded by %g: molar mass", s.c_str(), f);
                                        for (size_t i = 0; i < q.size(); i++) {
                                            c.eq(y->weight_fraction(i), e.w[i], 5e-3, 0, "%s rounded by %g: weight fraction %zu", s.c_str(), f, i);
                                            c.eq(y->number_density(i), e.n[i] * 1.7, 5e-3, 0, "%s rounded by %g: number density %zu", s.c_str(), f, i);
                                        }
                                    }
                                }
                            }
                        }
        }});
    // every element: single-element constructor
    jobs.push_back({"single", [=](mc::Ctx &c) {
        for (int z = 1; z <= 109; z++)
            for (double A : {0.0, nat(z), 1.03 * nat(z)}) {
                double rho = 2.2, th = 0.3, a = A > 0 ? A : nat(z);
                Material m(A, z, rho, th), n;
                n.add_element(A, z, 1);
                n.density(rho).thickness(th);
                std::vector<std::array<double, 3>> l = {{a, (double)z, 1}};
                if (z <= 98) verify(c, m, l, expect(l), rho, th, mc::fmt("element %d", z), false, nullptr, nullptr);
                if (!(m == n)) c.fail(mc::fmt("element %d: constructed and assembled differ", z));
                Material k(A, z, rho, th, 55);
                c.eq(k.I(), 55, 0, 0, "potential of element %d", z);
                c.eq(m.M(), a, 1e-12, 0, "molar mass of element %d", z);
            }
    }});
    // predefined compounds: equivalent descriptions
    for (int k = 0; k < NCOMP; k++)
        jobs.push_back({mc::fmt("compound/id%d", frozen::comp[k].id), [=](mc::Ctx &c) {
            const auto &f = frozen::comp[k];
            Material m = get_material(f.id), r = comp(k), w;
            m.thickness(0.05);
            r.thickness(0.05);
            ref::Mat rm = rmat(r);
            if (!(m == r)) c.fail(mc::fmt("compound %d differs from the same assembled by hand", f.id));
            std::vector<std::array<double, 3>> l;
            double M = 0;
            for (auto &t : rm) M += t.w / t.A;
            bool frac = true;
            for (auto &t : rm) frac = frac && t.w < 1;
            for (auto &t : rm) w.add_element(t.A, t.Z, frac ? t.w : 1.0);
            w.density(f.density).thickness(0.05);
            Material a; // atom counts scaled so that the rarest has two
            double mn = 1e99;
            for (auto &t : rm) mn = std::min(mn, t.w / t.A);
            for (auto &t : rm) a.add_element(t.A, t.Z, 2 * t.w / t.A / mn);
            a.density(f.density).thickness(0.05);
            double sum = 0;
            for (int i = 0; i < m.ncomponents(); i++) sum += m.weight_fraction(i);
            c.eq(sum, 1, 2e-5, 0, "weight fractions of compound %d", f.id);
            for (const Material *x : {&w, &a}) {
                for (int i = 0; i < m.ncomponents(); i++) {
                    c.eq(x->weight_fraction(i), m.weight_fraction(i), 1e-4, 0, "compound %d rewritten: weight fraction %d", f.id, i);
                    c.eq(x->number_density(i), m.number_density(i), 1e-4, 0, "compound %d rewritten: number density %d", f.id, i);
                }
                for (double T : {5.0, 150.0}) {
                    c.eq(dedx(proj(18, 1, T), *x), dedx(proj(18, 1, T), m), 1e-4, 0, "compound %d rewritten: stopping power", f.id);
                    c.eq(range(proj(18, 1, T), *x), range(proj(18, 1, T), m), 1e-4, 0, "compound %d rewritten: range", f.id);
                }
                Projectile p = proj(18, 1, 150);
                double s1 = nonreaction_rate(p, *x), s2 = nonreaction_rate(p, m);
                c.eq(-log(s1), -log(s2), 1e-3, 0, "compound %d rewritten: reaction probability", f.id);
                c.t(6);
                c.trace();
                c.state(mc::hd(k, s1));
            }
        }});
    return mc::run(o, jobs);
}
