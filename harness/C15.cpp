// C15: C calls do not influence each other
#include "common.hpp"
#define z_eff_type c_z_eff_type
#define none c_none
#define pierce_blann c_pierce_blann
#define anthony_landorf c_anthony_landorf
#define hubert c_hubert
#define winger c_winger
#define schiwietz c_schiwietz
#define global c_global
#define atima14 c_atima14
#include "catima/cwrapper.h"
typedef std::vector<double> V;
static const int NCALL = 12;
static V call(int i) {
    V v;
    auto res = [&](CatimaResult s) { v = {s.Ein, s.Eout, s.Eloss, s.range, s.dEdxi, s.dEdxo, s.sigma_E, s.sigma_a, s.sigma_r, s.tof}; };
    switch (i) {
    case 0: res(catima_calculate(39.948, 18, 95, 0, 6, 0.1, 2.0)); break;
    case 1: res(catima_calculate(39.948, 18, 40, 0, 206, 0.05, -1)); break;
    case 2: v = {catima_Eout(39.948, 18, 95, 0, 6, 0.3, 2.0)}; break;
    case 3: v = {catima_range(39.948, 18, 95, 0, 6)}; break;
    case 4: v = {catima_range(39.948, 18, 12, 0, 206)}; break;
    case 5: v = {catima_range_straggling(39.948, 18, 95, 0, 6)}; break;
    case 6: v = {catima_angular_straggling_from_E(39.948, 18, 95, 60, 0, 6)}; break;
    case 7: v = {catima_energy_straggling_from_E(39.948, 18, 95, 60, 0, 6)}; break;
    case 8: v = {catima_nonreaction_rate(39.948, 18, 95, 0, 6, 0.2)}; break;
    case 9: v = {catima_nonreaction_rate(39.948, 18, 300, 0, 206, 2.2)}; break;
    case 10: v = {catima_range(12.0, 6, 95, 12.5, 6)}; break;
    case 11: v = {atomic_weight(18)}; break;
    }
    return v;
}
// calls which differ from one another in one argument
struct Arg { double pa, pz, T, To, ta, tz, th, rho; };
static const int NFN = 7;
static std::vector<Arg> args(int fn) {
    const Arg b = {39.948, 18, 95, 60, 0, 6, 0.1, 2.0};
    std::vector<Arg> r = {b};
    auto var = [&](double Arg::*f, std::initializer_list<double> l) {
        for (double x : l) { r.push_back(b); r.back().*f = x; }
    };
    var(&Arg::pa, {40.0});
    var(&Arg::pz, {17.0});
    var(&Arg::T, {95.5, 300.0});
    var(&Arg::ta, {13.0});
    var(&Arg::tz, {7.0, 206.0});
    if (fn == 4 || fn == 5) var(&Arg::To, {61.0});
    if (fn == 0 || fn == 1 || fn == 6) var(&Arg::th, {0.11, 0.0, 50.0});
    if (fn == 0 || fn == 1) var(&Arg::rho, {2.2, 0.2, -1.0});
    return r;
}
static V call2(int fn, const Arg &a) {
    V v;
    switch (fn) {
    case 0: { CatimaResult s = catima_calculate(a.pa, a.pz, a.T, a.ta, a.tz, a.th, a.rho); v = {s.Ein, s.Eout, s.Eloss, s.range, s.dEdxi, s.dEdxo, s.sigma_E, s.sigma_a, s.sigma_r, s.tof}; break; }
    case 1: v = {catima_Eout(a.pa, a.pz, a.T, a.ta, a.tz, a.th, a.rho)}; break;
    case 2: v = {catima_range(a.pa, a.pz, a.T, a.ta, a.tz)}; break;
    case 3: v = {catima_range_straggling(a.pa, a.pz, a.T, a.ta, a.tz)}; break;
    case 4: v = {catima_angular_straggling_from_E(a.pa, a.pz, a.T, a.To, a.ta, a.tz)}; break;
    case 5: v = {catima_energy_straggling_from_E(a.pa, a.pz, a.T, a.To, a.ta, a.tz)}; break;
    case 6: v = {catima_nonreaction_rate(a.pa, a.pz, a.T, a.ta, a.tz, a.th)}; break;
    }
    return v;
}
static const int ZE[3] = {1, 0, 4};
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    struct Ref { int n; double v[10]; };
    Ref *ref = mc::shared<Ref>(NCALL * 3);
    for (int i = 0; i < NCALL; i++)
        for (int z = 0; z < 3; z++)
            jobs.push_back({mc::fmt("reference/%d/%d", i, z), [=](mc::Ctx &c) {
                catima_defaults.z_effective = ZE[z];
                V v = call(i);
                c.t();
                ref[i * 3 + z].n = v.size();
                for (size_t k = 0; k < v.size(); k++) ref[i * 3 + z].v[k] = v[k];
            }, 0});
    // operations: calls, three C settings, C++ default effective charge (2), C++ default scattering (2)
    const int K = NCALL + 3 + 4, n = o.thorough ? 5 : 4;
    for (int a = 0; a < K; a++)
        for (int b = 0; b < K; b++)
            jobs.push_back({mc::fmt("word/%d,%d", a, b), [=](mc::Ctx &c) {
                long N = 1;
                for (int i = 2; i < n; i++) N *= K;
                for (long x = 0; x < N; x++) {
                    long y = x;
                    catima_defaults.z_effective = 1;
                    default_config = Config();
                    int z = 0;
                    std::string h;
                    for (int i = 0; i < n; i++) {
                        int w = i == 0 ? a : i == 1 ? b : (int)(y % K);
                        if (i >= 2) y /= K;
                        h += mc::fmt(" %d", w);
                        c.t();
                        if (w < NCALL) {
                            V v = call(w);
                            Ref &r = ref[w * 3 + z];
                            uint64_t hs = mc::mix(w, z);
                            for (int k = 0; k < r.n; k++) {
                                hs = mc::hd(hs, v[k]);
                                if (!mc::close(v[k], r.v[k], 1e-9)) {
                                    c.fail(mc::fmt("history%s: value %d is %.12g, as first call it is %.12g (C setting %d)", h.c_str(), k, v[k], r.v[k], ZE[z]));
                                    break;
                                }
                            }
                            c.state(hs);
                        } else if (w < NCALL + 3) {
                            z = w - NCALL;
                            catima_defaults.z_effective = ZE[z];
                        } else if (w < NCALL + 5) default_config.z_effective = w - NCALL - 3 ? 5 : 2;
                        else default_config.scattering = w - NCALL - 5 ? 0 : 2;
                    }
                    c.trace();
                }
            }, 1});
    // all ordered triples of the calls which differ in one argument
    struct C2 { int fn; Arg a; };
    static std::vector<C2> all;
    for (int f = 0; f < NFN; f++)
        for (auto &a : args(f)) all.push_back({f, a});
    const int NA = all.size();
    Ref *ref2 = mc::shared<Ref>(NA);
    for (int i = 0; i < NA; i++)
        jobs.push_back({mc::fmt("reference2/%d", i), [=](mc::Ctx &c) {
            V v = call2(all[i].fn, all[i].a);
            c.t();
            ref2[i].n = v.size();
            for (size_t k = 0; k < v.size(); k++) ref2[i].v[k] = v[k];
        }, 0});
    for (int i = 0; i < NA; i++)
        jobs.push_back({mc::fmt("neighbours/%d", i), [=](mc::Ctx &c) {
            auto one = [&](int k, const char *h, int i, int j) {
                V v = call2(all[k].fn, all[k].a);
                c.t();
                uint64_t hs = mc::mix(1000, k);
                for (int x = 0; x < ref2[k].n; x++) {
                    hs = mc::hd(hs, v[x]);
                    if (!mc::close(v[x], ref2[k].v[x], 1e-9)) {
                        const Arg &a = all[k].a;
                        c.fail(mc::fmt("%s %d, %d: value %d of C function %d (%g %g %g %g %g %g %g %g) is %.12g, as first call it is %.12g", h, i, j, x, all[k].fn, a.pa, a.pz, a.T, a.To, a.ta, a.tz, a.th, a.rho, v[x], ref2[k].v[x]));
                        break;
                    }
                }
                c.state(hs);
            };
            for (int j = 0; j < NA; j++)
                for (int k = 0; k < NA; k++) {
                    call2(all[i].fn, all[i].a);
                    one(j, "after call", i, i);
                    one(k, "after calls", i, j);
                    c.trace();
                }
        }, 1});
    return mc::run(o, jobs);
}
