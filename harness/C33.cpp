// C33: unreasonable arguments do no harm
#include "common.hpp"
#include "queries.hpp"
#include "catima/cwrapper.h"
#include "catima/reactions.h"
#include "catima/abundance_database.h"
static const double NAN_ = std::nan(""), INF = INFINITY;
struct Arg {
    double T = 120, th = 0.4, rho = 2.0, A = 40, Z = 18, Q = 17, ta = 12, stn = 1, I = 0;
    int tz = 6, n = 1, ze = 1, corr = 0, calc = 1, low = 0, scat = 255;
    double fac = 1;
};
struct Dev {
    std::string name;
    std::function<void(Arg &)> f;
    int field;
};
static std::vector<Dev> devs() {
    std::vector<Dev> d;
    int field = 0;
    auto num = [&](const char *n, double Arg::*m, std::vector<double> v) {
        for (double x : v) d.push_back({mc::fmt("%s=%g", n, x), [=](Arg &a) { a.*m = x; }, field});
        field++;
    };
    auto whole = [&](const char *n, int Arg::*m, std::vector<int> v) {
        for (int x : v) d.push_back({mc::fmt("%s=%d", n, x), [=](Arg &a) { a.*m = x; }, field});
        field++;
    };
    num("energy", &Arg::T, {NAN_, INF, -INF, -1, 0, 1e-320, 9.99e-4, 1e7, 1.01e7, 1e300});
    num("thickness", &Arg::th, {NAN_, INF, -INF, -1, 0, 1e-300, 1e300});
    num("density", &Arg::rho, {NAN_, INF, -1, 0, 1e-300, 1e300});
    num("projectile mass", &Arg::A, {NAN_, INF, -1, 0, 1e-300, 1e300});
    num("projectile charge", &Arg::Z, {NAN_, INF, -INF, -1, 0, 0.5, 17.5, 108, 109, 110, 120, 200, 1e9, 1e300});
    num("charge state", &Arg::Q, {NAN_, INF, -1, 1e-300, 400});
    num("target mass", &Arg::ta, {NAN_, INF, -1, 0, 1e-300, 1e300});
    whole("target charge", &Arg::tz, {0, -1, -1000000, 92, 93, 97, 98, 99, 108, 109, 110, 120, 121, 130, 200, 1000, 2000000, 2147483647});
    num("amount", &Arg::stn, {NAN_, INF, -1, 0, 0.5, 1e-300, 1e300});
    num("ionisation potential", &Arg::I, {NAN_, INF, -1, 1e-300, 1e300});
    whole("constituents", &Arg::n, {0, 2, 40});
    whole("charge model", &Arg::ze, {0, 2, 3, 4, 5, 6, 7, 8, 255});
    whole("corrections", &Arg::corr, {15, 255});
    whole("straggling", &Arg::calc, {0, 2, 255});
    whole("low energy", &Arg::low, {1, 2, 255});
    whole("scattering", &Arg::scat, {0, 1, 2, 3, 254});
    num("scattering factor", &Arg::fac, {NAN_, INF, -1, 0, 1e300});
    return d;
}
static volatile double sink;
static std::string show(const Arg &a) {
    return mc::fmt("T=%g thickness=%g density=%g A=%g Z=%g Q=%g target A=%g Z=%d amount=%g I=%g n=%d models %d/%d/%d/%d/%d factor %g", a.T, a.th, a.rho, a.A, a.Z, a.Q, a.ta, a.tz, a.stn, a.I, a.n, a.ze, a.corr, a.calc, a.low, a.scat, a.fac);
}
static Config conf(const Arg &a) {
    Config k;
    k.z_effective = a.ze;
    k.corrections = a.corr;
    k.calculation = a.calc;
    k.low_energy = a.low;
    k.scattering = a.scat;
    k.scattering_factor = a.fac;
    return k;
}
static std::vector<double> good() {
    std::vector<double> v;
    for (int q = 0; q < NQ; q++)
        for (double x : query(q, Projectile(12, 6), Material(28.0855, 14, 2.33, 0.2), 55, Config())) v.push_back(x);
    for (double x : query(0, Projectile(40, 18, 17), Material(12, 6, 2.0, 0.4), 120, Config())) v.push_back(x);
    v.push_back(catima_Eout(238, 92, 300, 12, 6, 0.3, 2.0));
    return v;
}
static void ask(mc::Ctx &c, const Arg &a) {
    Projectile p(a.A, a.Z, a.Q, a.T);
    Material m(a.ta, a.tz, a.rho, a.th, a.I);
    if (a.n == 0) m = Material();
    for (int i = 1; i < a.n; i++) m.add_element(a.ta, a.tz, a.stn);
    if (a.stn != 1 && a.n == 1) {
        m = Material({{a.ta, (double)(a.tz > 1000000 || a.tz < -100000 ? 6 : a.tz), a.stn}}, a.rho, a.I);
    }
    m.density(a.rho).thickness(a.th);
    Config k = conf(a);
    for (int q = 0; q < NQ; q++) {
        for (double x : query(q, p, m, a.T, k)) sink = x;
        c.t();
    }
    Material n = m;
    n.thickness_cm(a.th);
    sink = n.M() + n.number_density() + n.number_density_cm2() + n.thickness_cm();
    for (int i = 0; i < n.ncomponents(); i++) sink = n.weight_fraction(i) + n.molar_fraction(i);
    for (int i : {-2147483647 - 1, -1000000, -2, -1, n.ncomponents(), n.ncomponents() + 1, 1000000, 2147483647})
        if (n.number_density(i) != 0 || n.number_density_cm2(i) != 0) c.fail(mc::fmt("number density of constituent %d of %d is not zero", i, n.ncomponents()));
    sink = radiation_length(m) + scattering_length(m);
    sink = production_rate(a.A, a.Z, a.T, m, k);
    // C interface
    sink = catima_Eout(a.A, a.Z, a.T, a.ta, a.tz, a.th, a.rho);
    sink = catima_range(a.A, a.Z, a.T, a.ta, a.tz);
    CatimaResult r = catima_calculate(a.A, a.Z, a.T, a.ta, a.tz, a.th, a.rho);
    sink = r.Eout;
    // lookups
    sink = element_atomic_weight(a.tz) + element_density(a.tz) + abundance::get_isotopes_num(a.tz);
    for (int i : {-1, 0, 5, 100}) sink = abundance::get_isotope_a(a.tz, i) + abundance::get_abundance(a.tz, i);
    Material g = get_material(a.tz);
    sink = g.density();
    for (double v : {a.T, a.th, a.A}) {
        sink = energy_table.index(v);
        sink = gamma_from_T(v) + beta_from_T(v) + p_from_T(v, a.A);
    }
    c.t(20);
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    std::vector<Dev> D = devs();
    for (size_t i = 0; i < D.size(); i++)
        jobs.push_back({mc::fmt("%s", D[i].name.c_str()), [=](mc::Ctx &c) {
            std::vector<double> want = good();
            for (size_t j = i; j < D.size(); j++) {
                if (j != i && D[j].field == D[i].field) continue;
                if (!o.thorough && j != i && (i * 7 + j) % 2) continue;
                for (double T : {120.0, 3.0, 2e4}) {
                    if (T != 120 && (!o.thorough || D[i].field == 0)) continue;
                    Arg a;
                    a.T = T;
                    D[i].f(a);
                    D[j].f(a);
                    if (getenv("C33_SHOW")) fprintf(stderr, "%s\n", show(a).c_str());
                    try {
                        ask(c, a);
                    } catch (const std::exception &) { // refusing is fine
                    }
                    std::vector<double> got = good();
                    c.t(19);
                    c.trace();
                    for (size_t n = 0; n < want.size(); n++) c.eq(got[n], want[n], 0, 0, "value %zu of a valid query after %s", n, show(a).c_str());
                    c.state(mc::hd(mc::mix(i, j), a.T));
                }
            }
        }});
    return mc::run(o, jobs);
}
