// C36: equality of projectiles, materials and configurations
#include "common.hpp"
#include <algorithm>
#ifndef NO_INTERNALS
#include "catima/storage.h"
#endif
struct PF { double A, Z, Q; bool operator==(const PF &o) const { return A == o.A && Z == o.Z && Q == o.Q; } };
struct MF {
    std::vector<std::array<double, 3>> e;
    double rho, I, M;
    bool operator==(const MF &o) const { return e == o.e && rho == o.rho && I == o.I && M == o.M; }
    // the same substance listed in another order: nothing is promised
    bool reordered(const MF &o) const { return e != o.e && rho == o.rho && I == o.I && M == o.M && e.size() == o.e.size() && std::is_permutation(e.begin(), e.end(), o.e.begin()); }
};
struct CF { int f[5]; double s; bool operator==(const CF &o) const { return std::equal(f, f + 5, o.f) && s == o.s; } };
static Config mk(const CF &x) { return cfg(x.f[0], x.f[1], x.f[2], x.f[3], x.f[4], x.s); }
static Material mk(const MF &x, int route) {
    Material m;
    if (route == 1) m.density(9).thickness(1).I(3);
    for (auto &e : x.e) m.add_element(e[0], (int)e[1], e[2]);
    m.density(x.rho);
    m.I(x.I);
    if (x.M > 0) m.M(x.M);
    if (route == 1) m.thickness(0.37);
    if (route == 2) m.thickness_cm(4);
    if (route == 3) m.thickness(2.5);
    return m;
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    jobs.push_back({"projectiles", [=](mc::Ctx &c) {
        std::vector<PF> f;
        std::vector<Projectile> p;
        for (double A : {1.008, 12.0, 12.0001, 13.0, 238.05})
            for (double Z : {1.0, 6.0, 7.0, 92.0})
                for (double Q : {0.0, 1.0, 5.0, 5.9, 6.0, 92.0})
                    for (double T : {0.0, 1.0, 300.0}) {
                        f.push_back({A, Z, Q == 0 ? Z : Q});
                        p.push_back(Projectile(A, Z, Q, T));
                    }
        for (size_t i = 0; i < p.size(); i++)
            for (size_t j = 0; j < p.size(); j++) {
                c.t();
                if ((p[i] == p[j]) != (f[i] == f[j])) c.fail(mc::fmt("projectiles A=%g Z=%g Q=%g T=%g and A=%g Z=%g Q=%g T=%g: equality", p[i].A, p[i].Z, p[i].Q, p[i].T, p[j].A, p[j].Z, p[j].Q, p[j].T));
                Projectile q = p[j];
                q(77);
                if ((p[i] == q) != (f[i] == f[j])) c.fail(mc::fmt("projectiles A=%g Z=%g Q=%g and A=%g Z=%g Q=%g: equality after setting the energy", p[i].A, p[i].Z, p[i].Q, q.A, q.Z, q.Q));
            }
        for (size_t i = 0; i < p.size(); i++) c.state(mc::hd(mc::hd(mc::hd(1, f[i].A), f[i].Z), f[i].Q)), c.trace();
        // equal ones give the same results, different charge states do if they are used
        for (int model : {0, 1, 5})
            for (size_t i = 0; i < p.size(); i += 3) {
                Projectile q(p[i].A, p[i].Z, p[i].Q == p[i].Z ? 0 : p[i].Q);
                if (!(q == p[i])) c.fail("default charge state is not the full charge");
                c.eq(dedx(q(40), elem(13), cfg(model)), dedx(p[i](40), elem(13), cfg(model)), 1e-12, 0, "stopping power of equal projectiles");
                c.t();
            }
    }});
    // densities which differ little: told apart from two millionths of a g/cm3 on, however dense the material
    jobs.push_back({"densities", [=](mc::Ctx &c) {
        for (int z : {1, 6, 29, 79})
            for (double rho : {1e-5, 9e-5, 1.2e-4, 1e-3, 0.07, 0.5, 0.999, 1.0, 1.5, 2.0, 2.33, 7.87, 11.35, 19.3, 22.6, 100.0, 1000.0})
                for (double d : {2e-6, 3e-6, 5e-6, 1e-5, 2e-5, 5e-5, 1e-4, 1e-3, 0.01, 0.1, 1.0, 10.0})
                    for (double sign : {1.0, -1.0}) {
                        double r2 = rho + sign * d;
                        if (r2 <= 0) continue;
                        Material a(0, z, rho), b(0, z, r2), e(0, z, rho, 2.0);
                        c.t(3);
                        c.trace();
                        c.state(mc::hd(mc::hd(z, rho), r2));
                        if (a == b || b == a) c.fail(mc::fmt("Z=%d with densities %.9g and %.9g are equal", z, rho, r2));
                        if (!(a == e) || !(e == a)) c.fail(mc::fmt("Z=%d with density %.9g is not equal to itself with another thickness", z, rho));
                    }
    }});
    // materials of 0..3 constituents
    static std::vector<MF> mf;
    {
        std::vector<std::array<double, 3>> a;
        for (double z : {6.0, 8.0})
            for (double A : {16.0, 16.001})
                for (double s : {1.0, 0.4}) a.push_back({A, z, s});
        std::vector<std::vector<std::array<double, 3>>> l = {{}};
        for (auto &x : a) l.push_back({x});
        for (auto &x : a) for (auto &y : a) l.push_back({x, y});
        for (auto &x : a) for (auto &y : a) for (auto &z : a) l.push_back({x, y, z});
        for (auto &e : l)
            for (double rho : {1.2e-4, 1.3e-4, 1.0, 1.001})
                for (double I : {0.0, 75.0})
                    for (double M : {0.0, 30.0}) mf.push_back({e, rho, I, M});
    }
    const int NM = mf.size(), step = 64;
    for (int b = 0; b < NM; b += step)
        jobs.push_back({mc::fmt("materials/%d", b), [=](mc::Ctx &c) {
            static std::vector<Material> ms; // built once per process
            if (ms.empty()) for (auto &x : mf) ms.push_back(mk(x, 3));
            for (int i = b; i < std::min(b + step, NM); i++) {
                Material r[3] = {mk(mf[i], 0), mk(mf[i], 1), mk(mf[i], 2)};
                for (auto &m : r)
                    for (int j = 0; j < NM; j++) {
                        if (mf[i].reordered(mf[j])) continue;
                        bool e = mf[i] == mf[j];
                        c.t();
                        if ((m == ms[j]) != e || (ms[j] == m) != e) c.fail(mc::fmt("materials %d and %d of the list (%zu and %zu constituents, density %g and %g, I %g and %g, M %g and %g): equality is not %d", i, j, mf[i].e.size(), mf[j].e.size(), mf[i].rho, mf[j].rho, mf[i].I, mf[j].I, mf[i].M, mf[j].M, e));
                    }
                c.trace();
                c.state(mc::mix(2, i));
            }
        }});
    // configurations: every pair
    static std::vector<CF> cf;
    for (int z = 0; z < 8; z++)
        for (int k = 0; k < 16; k++)
            for (int a = 0; a < 2; a++)
                for (int l = 0; l < 2; l++)
                    for (int s : {0, 1, 2, 255})
                        for (double f : {1.0, 1.0001, 0.0}) cf.push_back({{z, k, a, l, s}, f});
    const int NC = cf.size();
    for (int b = 0; b < NC; b += 96)
        jobs.push_back({mc::fmt("configurations/%d", b), [=](mc::Ctx &c) {
            static std::vector<Config> cs;
            if (cs.empty()) for (auto &x : cf) cs.push_back(mk(x));
            for (int i = b; i < b + 96 && i < NC; i++) {
                Config k = mk(cf[i]);
                for (int j = 0; j < NC; j++) {
                    c.t();
                    if ((k == cs[j]) != (i == j) || (cs[j] == k) != (i == j)) c.fail("configurations {" + cname(k) + "} and {" + cname(cs[j]) + "}: equality is wrong");
                }
                c.trace();
                c.state(mc::mix(3, i));
            }
        }});
    // single fields over all their values
    jobs.push_back({"fields", [=](mc::Ctx &c) {
        for (int f = 0; f < 5; f++)
            for (int x = 0; x < 256; x++)
                for (int y = 0; y < 256; y++) {
                    CF a = {{1, 0, 1, 0, 255}, 1}, b = a;
                    a.f[f] = x;
                    b.f[f] = y;
                    c.t();
                    if ((mk(a) == mk(b)) != (x == y)) c.fail(mc::fmt("configurations with field %d being %d and %d: equality", f, x, y));
                }
        for (int n = 1; n <= 12; n++) // long materials differing in one place
            for (int i = 0; i < n; i++)
                for (int f = 0; f < 3; f++) {
                    MF a = {{}, 1, 0, 50}, b;
                    for (int k = 0; k < n; k++) a.e.push_back({12.0 + k, 6.0 + k, 1.0 + k});
                    b = a;
                    b.e[i][f] += 1;
                    c.t();
                    c.trace();
                    if (mk(a, 0) == mk(b, 1)) c.fail(mc::fmt("materials of %d constituents which differ in value %d of constituent %d are equal", n, f, i));
                    if (!(mk(a, 0) == mk(a, 1))) c.fail(mc::fmt("equal materials of %d constituents are not equal", n));
                    MF d = a;
                    d.e.erase(d.e.begin() + i);
                    if (mk(a, 0) == mk(d, 0) || mk(d, 0) == mk(a, 0)) c.fail(mc::fmt("a material of %d constituents equals itself without constituent %d", n, i));
                }
        for (int i = 0; i < NCOMP; i++) // predefined ones
            for (int j = 0; j < NCOMP; j++) {
                const auto &x = frozen::comp[i], &y = frozen::comp[j];
                bool e = x.n == y.n && x.density == y.density;
                for (int k = 0; k < x.n && e; k++) e = x.part[k].Z == y.part[k].Z && x.part[k].A == y.part[k].A && x.part[k].stn == y.part[k].stn;
                if (!e && fabs(x.density - y.density) < 1e-5) {
                    bool same = x.n == y.n;
                    for (int k = 0; k < x.n && same; k++) same = x.part[k].Z == y.part[k].Z && fabs(x.part[k].stn - y.part[k].stn) < 1e-9;
                    if (same) continue; // densities closer than can be told apart
                }
                c.t();
                if ((comp(i) == comp(j)) != e) c.fail(mc::fmt("predefined materials %d and %d: equality", x.id, y.id));
            }
    }});
#ifndef NO_INTERNALS
    // cached entries: equal if projectile, material and configuration are
    jobs.push_back({"entries", [=](mc::Ctx &c) {
        std::vector<Projectile> p = {Projectile(12, 6, 6, 0), Projectile(12, 6, 6, 50), Projectile(13, 6), Projectile(12, 6, 5)};
        std::vector<Material> m = {Material(12, 6, 2.0), Material(12, 6, 2.0, 0.5), Material(12, 6, 2.1), Material(14, 7, 2.0), Material(12, 6, 2.0, 0, 80)};
        std::vector<Config> k = {cfg(1), cfg(1), cfg(2), cfg(1, 1), cfg(1, 0, 1, 0, 255, 1.1)};
        static const int PC[] = {0, 0, 1, 2}, MC[] = {0, 0, 1, 2, 3}, KC[] = {0, 0, 1, 2, 3};
        for (int a = 0; a < 100; a++)
            for (int b = 0; b < 100; b++) {
                int pa = a % 4, ma = a / 4 % 5, ka = a / 20, pb = b % 4, mb = b / 4 % 5, kb = b / 20;
                DataPoint x(p[pa], m[ma], k[ka]), y(p[pb], m[mb], k[kb]);
                bool e = PC[pa] == PC[pb] && MC[ma] == MC[mb] && KC[ka] == KC[kb];
                c.t();
                c.trace();
                if ((x == y) != e) c.fail(mc::fmt("entries %d %d %d and %d %d %d: equality", pa, ma, ka, pb, mb, kb));
            }
    }});
#endif
    return mc::run(o, jobs);
}
