#ifndef COMMON_HPP
#define COMMON_HPP
#include "mc.hpp"
#include "ref.hpp"
#include "catima/catima.h"
#include "catima/nucdata.h"
#include "catima/material_database.h"
#include "catima/reactions.h"

using namespace catima;

static const int NCOMP = sizeof(frozen::comp) / sizeof(frozen::comp[0]);

inline double nat(int z) { return frozen::weight[z]; }
inline Projectile proj(int z, double scale = 1.0, double T = 0) { return Projectile(nat(z) * scale, z, 0, T); }
inline ref::Proj rproj(const Projectile &p) { return {p.A, p.Z, p.Q}; }
// pure element with explicit natural mass and tabulated density
inline Material elem(int z) { return Material(nat(z), z, frozen::density[z]); }
// target isotopes: natural, light, heavy
inline double tmass(int z, int i) { return nat(z) * (i % 4 == 0 ? 1 : i % 4 == 1 ? 0.95 : i % 4 == 2 ? 1.06 : z == 1 ? 2 : 1.02); }
// predefined compound, put together from the frozen list
inline Material comp(int k) {
    Material m;
    for (int i = 0; i < frozen::comp[k].n; i++) m.add_element(frozen::comp[k].part[i].A, frozen::comp[k].part[i].Z, frozen::comp[k].part[i].stn);
    m.density(frozen::comp[k].density);
    return m;
}
inline int comp_by_id(int id) { return id - 201; }
// targets 0..97: elements 1..98; 98..: compounds
static const int NTARGET = 98 + NCOMP;
// NTARGET..: materials of one's own, with ionisation potentials, isotopes, weight fractions, many components, gases
static const int NOWN = 12;
inline Material own(int i) {
    switch (i) {
    case 0: return Material({{1.00794, 1, 2}, {15.9994, 8, 1}}, 1.0, 78.0);
    case 1: return Material(12.011, 6, 3.5, 0, 81.0);
    case 2: return Material(26, 13, 2.6);
    case 3: return Material({{55.845, 26, 0.70}, {51.996, 24, 0.18}, {58.693, 28, 0.12}}, 7.9);
    case 4: return Material({{2.014, 1, 0.2}, {13.003, 6, 0.8}}, 1.1, 60.0);
    case 5: return Material({{1.00794, 1, 7}, {12.011, 6, 3}, {14.0067, 7, 2}, {15.9994, 8, 5}, {22.99, 11, 1}, {30.974, 15, 2}, {32.066, 16, 1}, {40.078, 20, 3}}, 1.9);
    case 6: return Material(14.0067, 7);
    case 7: return Material(190.23, 76, 22.6, 0, 746.0);
    case 8: return Material({{238.03, 92, 3}, {15.9994, 8, 8}}, 8.3, 0);
    case 9: return Material({{12.0, 6, 3}}, 2.0);
    case 10: return Material(207.98, 82, 11.4);
    default: return Material({{3.016, 2, 0.5}, {131.29, 54, 0.5}}, 3e-3, 300.0);
    }
}
inline Material target(int k) { return k < 98 ? elem(k + 1) : k < NTARGET ? comp(k - 98) : own(k - NTARGET); }
inline std::string tname(int k) { return k < 98 ? mc::fmt("Z%d", k + 1) : k < NTARGET ? mc::fmt("id%d", frozen::comp[k - 98].id) : mc::fmt("own%d", k - NTARGET); }

// weight fractions computed from the atoms: amounts below one mean weight fractions
inline ref::Mat rmat(const Material &m) {
    ref::Mat r;
    double M = 0;
    bool frac = true;
    for (int i = 0; i < m.ncomponents(); i++) frac = frac && m.get_element(i).stn < 1.0;
    for (int i = 0; i < m.ncomponents(); i++) M += m.get_element(i).stn * m.get_element(i).A;
    for (int i = 0; i < m.ncomponents(); i++) {
        Target t = m.get_element(i);
        r.push_back({t.A, t.Z, frac ? t.stn : t.stn * t.A / M});
    }
    return r;
}
inline ref::Cfg rcfg(const Config &c) { return {c.z_effective, c.corrections, c.calculation, c.low_energy, c.scattering, c.scattering_factor}; }
inline Config cfg(int zeff, int corr = 0, int calc = 1, int low = 0, int scat = 255, double fac = 1.0) {
    Config c;
    c.z_effective = zeff;
    c.corrections = corr;
    c.calculation = calc;
    c.low_energy = low;
    c.scattering = scat;
    c.scattering_factor = fac;
    return c;
}
inline std::string cname(const Config &c) {
    return mc::fmt("zeff=%d corr=%d calc=%d low=%d scat=%d fac=%g", c.z_effective, c.corrections, c.calculation, c.low_energy, c.scattering, c.scattering_factor);
}

// result as a flat vector
static const int NRES = 13;
static const char *const RES_NAME[NRES] = {"Ein", "Eout", "Eloss", "range", "dEdxi", "dEdxo", "sigma_E", "sigma_a", "sigma_r", "sigma_x", "cov", "tof", "sp"};
struct RV { double v[NRES]; };
inline RV rv(const Result &r) {
    RV x = {{r.Ein, r.Eout, r.Eloss, r.range, r.dEdxi, r.dEdxo, r.sigma_E, r.sigma_a, r.sigma_r, r.sigma_x, r.cov, r.tof,
#ifdef REACTIONS
             r.sp
#else
             1.0
#endif
            }};
    return x;
}
inline uint64_t hrv(uint64_t h, const RV &x) {
    for (int i = 0; i < NRES; i++) h = mc::hd(h, x.v[i]);
    return h;
}
inline bool same(mc::Ctx &c, const RV &a, const RV &b, double rel, double abs, const std::string &what) {
    for (int i = 0; i < NRES; i++)
        if (!mc::close(a.v[i], b.v[i], rel, abs) && !(a.v[i] != a.v[i] && b.v[i] != b.v[i])) {
            c.fail(mc::fmt("%s: %s = %.15g, expected %.15g", what.c_str(), RES_NAME[i], a.v[i], b.v[i]));
            return false;
        }
    return true;
}

// energies touching every branch of the physics
static const double E_BRANCH[] = {1e-3, 1.5e-3, 4e-3, 0.01, 0.0249, 0.025, 0.0251, 0.05, 0.1, 0.2, 0.4, 0.7, 1.0, 1.0001, 1.7, 2.4999, 2.5, 3.3, 5, 7.7, 7.88, 9.999, 10, 10.0001, 12, 15, 20, 25, 29.999, 30, 30.001, 45, 70, 100, 200, 333, 600, 1000, 1800, 3000, 7000, 15000, 30000, 49999, 50000, 50001, 8e4, 2e5, 7e5, 2e6, 5e6, 9.9e6, 1e7};
static const int NEB = sizeof(E_BRANCH) / sizeof(double);
// a fine grid (2560 energies, steps of 0.9 %) spread over the visited pairs: visit number i takes every
// stride-th point, so that stride consecutive visits meet every energy
inline std::vector<double> spread(unsigned i, unsigned stride) {
    std::vector<double> v;
    if (i == ~0u) return v; // no visit
    for (unsigned j = i % stride; j < 2560; j += stride) v.push_back(pow(10, -3 + 10.0 * (j + 0.37) / 2560));
    return v;
}

// pair selection: thorough takes every pair, quick every projectile and every target at least
// with a dozen partners
static const int PZ[] = {1, 2, 3, 6, 8, 18, 26, 36, 54, 79, 92, 108};
static const int TK[] = {0, 1, 3, 5, 12, 28, 49, 81, 97, 98, 98 + 25, 98 + 148};
inline bool in(const int *a, int n, int v) {
    for (int i = 0; i < n; i++)
        if (a[i] == v) return true;
    return false;
}
inline bool sel_pair(int z, int k, bool thorough) { return thorough || in(PZ, 12, z) || in(TK, 12, k); }

// a job per projectile which visits the selected targets
inline void pair_jobs(std::vector<mc::Job> &jobs, bool thorough, std::function<void(mc::Ctx &, int, int)> f, const char *name = "pairs") {
    for (int z = 1; z <= 108; z++)
        jobs.push_back({mc::fmt("%s/Zp%d", name, z), [=](mc::Ctx &c) {
            for (int k = 0; k < NTARGET + NOWN; k++)
                if (sel_pair(z, k, thorough)) f(c, z, k);
        }});
}
// all configurations (768 without the scattering factor)
inline std::vector<Config> all_configs() {
    std::vector<Config> v;
    for (int ze = 0; ze <= 5; ze++)
        for (int corr = 0; corr < 16; corr++)
            for (int calc = 0; calc < 2; calc++)
                for (int low = 0; low < 2; low++)
                    for (int sc : {255, 0, 1, 2}) v.push_back(cfg(ze, corr, calc, low, sc));
    return v;
}
// the default and every configuration that differs from it in one field
inline std::vector<Config> one_field_configs() {
    std::vector<Config> v = {cfg(1)};
    for (int ze : {0, 2, 3, 4, 5}) v.push_back(cfg(ze));
    for (int co : {1, 2, 4, 8, 15}) v.push_back(cfg(1, co));
    v.push_back(cfg(1, 0, 0));
    v.push_back(cfg(1, 0, 1, 1));
    for (int s : {0, 1, 2}) v.push_back(cfg(1, 0, 1, 0, s));
    v.push_back(cfg(1, 0, 1, 0, 255, 1.3));
    v.push_back(cfg(1, 0, 1, 0, 2, 0.8));
    return v;
}
#endif
