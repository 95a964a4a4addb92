// every public query as one operation giving a vector of numbers
#ifndef QUERIES_HPP
#define QUERIES_HPP
#include "common.hpp"

static const int NQ = 17;
static const char *const Q_NAME[NQ] = {"calculate", "calculate(T)", "layers", "layers+phasespace", "range", "dedx", "dedx_from_range", "dedx_from_range(list)", "range_straggling",
                                       "range_variance+slope", "energy_out", "energy_out(list)", "angular_straggling", "from_E", "tof", "magnification", "survival"};
typedef std::vector<double> V;
inline void push(V &v, const Result &r) {
    RV x = rv(r);
    v.insert(v.end(), x.v, x.v + NRES);
}
inline void push(V &v, const MultiResult &r) {
    for (auto &e : r.results) push(v, e);
    push(v, r.total_result);
}
// m carries the thickness; T is the incident energy. pass: use the configuration argument, otherwise the default one
inline V query(int q, Projectile p, const Material &m, double T, const Config &c, bool pass = true) {
    V v;
    p.T = T;
    Material m2 = m;
    m2.thickness(0.3 * m.thickness());
    Layers L;
    if (q == 2 || q == 3) {
        L.add(m2);
        L.add(m);
        L.add(m2);
    }
    std::vector<double> E = {T, 0.5 * T, 1e-4, 2 * T};
    Phasespace ps;
    ps.sigma_x = 0.1;
    ps.sigma_a = 0.002;
    ps.cov_x = 1e-5;
#define CALL(f, ...) (pass ? f(__VA_ARGS__, c) : f(__VA_ARGS__))
    switch (q) {
    case 0: push(v, CALL(calculate, p, m)); break;
    case 1: push(v, CALL(calculate, p, m, T)); break;
    case 2: push(v, CALL(calculate, p, L)); push(v, CALL(calculate, p, T, L)); break;
    case 3: push(v, CALL(calculate, p, ps, L)); break;
    case 4: v.push_back(CALL(range, p, m)); break;
    case 5: v.push_back(CALL(dedx, p, m)); v.push_back(CALL(domega2dx, p, m)); v.push_back(CALL(da2dx, p, m)); break;
    case 6: v.push_back(CALL(dedx_from_range, p, m)); break;
    case 7: v = CALL(dedx_from_range, p, E, m); break;
    case 8: v.push_back(CALL(range_straggling, p, T, m)); break;
    case 9: v.push_back(CALL(range_variance, p, T, m)); v.push_back(CALL(domega2de, p, T, m)); break;
    case 10: v.push_back(CALL(energy_out, p, m)); break;
    case 11: v = CALL(energy_out, p, E, m); break;
    case 12: v.push_back(CALL(angular_straggling, p, m)); v.push_back(CALL(angular_variance, p, m)); if (pass) v.push_back(angular_variance(p, m, c, 1)); break;
    case 13: v.push_back(CALL(angular_straggling_from_E, p, 0.7 * T, m)); v.push_back(CALL(energy_straggling_from_E, p, T, 0.7 * T, m)); break;
    case 14: v.push_back(CALL(calculate_tof_from_E, p, 0.7 * T, m)); break;
    case 15: { auto w = CALL(w_magnification, p, T, m); v.push_back(w.first); v.push_back(w.second); break; }
    case 16:
#ifdef REACTIONS
        v.push_back(CALL(nonreaction_rate, p, m));
#endif
        break;
    }
#undef CALL
    return v;
}
inline bool same(mc::Ctx &c, const V &a, const V &b, double rel, const std::string &what, double abs = 0) {
    if (a.size() != b.size()) {
        c.fail(mc::fmt("%s: %zu values instead of %zu", what.c_str(), a.size(), b.size()));
        return false;
    }
    for (size_t i = 0; i < a.size(); i++)
        if (!(mc::close(a[i], b[i], rel, abs) || (a[i] != a[i] && b[i] != b[i]))) {
            c.fail(mc::fmt("%s: value %zu is %.15g, expected %.15g", what.c_str(), i, a[i], b[i]));
            return false;
        }
    return true;
}
inline uint64_t hv(uint64_t h, const V &v) {
    for (double d : v) h = mc::hd(h, d);
    return h;
}
// fill the stack below the caller with a pattern, so that a later call finds leftovers there
__attribute__((noinline)) inline void dirty(int pat) {
    volatile unsigned char b[65536];
    for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)pat;
}

// combinations differing from the first one in exactly one identity field
struct Combo { std::string name; Projectile p; Material m; Config c; };
inline std::vector<Combo> combos() {
    std::vector<Combo> v;
    Projectile p(39.948, 18, 17);
    auto water = [](double a1 = 1.00794, int z1 = 1, double n1 = 2, double a2 = 15.9994, int z2 = 8, double n2 = 1) {
        Material m;
        m.add_element(a1, z1, n1);
        m.add_element(a2, z2, n2);
        m.density(1.0).thickness(0.05);
        return m;
    };
    auto add = [&](const char *n, Projectile q, Material m, Config c) { v.push_back({n, q, m, c}); };
    Config d0 = cfg(0), d1 = cfg(1);
    add("base", p, water(), d0);
    add("A+1e-4", Projectile(39.9481, 18, 17), water(), d0);
    add("A=40", Projectile(40, 18, 17), water(), d0);
    add("A=39.5", Projectile(39.5, 18, 17), water(), d0);
    add("Z=19", Projectile(39.948, 19, 17), water(), d0);
    add("Q=18", Projectile(39.948, 18, 18), water(), d0);
    add("Q=16.99", Projectile(39.948, 18, 16.99), water(), d0);
    add("a1", p, water(1.00795), d0);
    add("z1", p, water(1.00794, 2), d0);
    add("n1", p, water(1.00794, 1, 2.001), d0);
    add("n1=3", p, water(1.00794, 1, 3), d0);
    add("a2", p, water(1.00794, 1, 2, 16), d0);
    add("z2", p, water(1.00794, 1, 2, 15.9994, 7), d0);
    add("n2", p, water(1.00794, 1, 2, 15.9994, 8, 1.0005), d0);
    {
        Material m = water();
        m.add_element(12.011, 6, 1);
        add("3 elements", p, m, d0);
        Material n;
        n.add_element(1.00794, 1, 2);
        n.density(1.0).thickness(0.05);
        add("1 element", p, n, d0);
        add("order", p, water(15.9994, 8, 1, 1.00794, 1, 2), d0);
        Material o = water();
        o.M(18.1);
        add("molar mass", p, o, d0);
        Material q = water();
        q.density(1.001);
        add("density", p, q, d0);
        Material i = water();
        i.I(75.0);
        add("I=75", p, i, d0);
        Material j = water();
        j.I(75.01);
        add("I=75.01", p, j, d0);
    }
    add("zeff=1", p, water(), d1);
    add("zeff=4", p, water(), cfg(4));
    for (int co : {1, 2, 4, 8, 3}) add(mc::fmt("corr=%d", co).c_str(), p, water(), cfg(0, co));
    add("calc=0", p, water(), cfg(0, 0, 0));
    add("low=1", p, water(), cfg(0, 0, 1, 1));
    for (int s : {0, 1, 2}) add(mc::fmt("scat=%d", s).c_str(), p, water(), cfg(0, 0, 1, 0, s));
    add("factor=1.2", p, water(), cfg(0, 0, 1, 0, 255, 1.2));
    add("factor=1.0001", p, water(), cfg(0, 0, 1, 0, 255, 1.0001));
    return v;
}
#endif
