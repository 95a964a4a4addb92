// C19: table lookup and interpolation around every table point
#include "mc.hpp"
#include "catima/catima.h"
#include "catima/storage.h"
#include <cfloat>
#include <memory>
using namespace catima;
static double step(double x, int n) { // n floating-point steps away
    for (; n > 0; n--) x = nextafter(x, INFINITY);
    for (; n < 0; n++) x = nextafter(x, -INFINITY);
    return x;
}
static const double SLACK = 3e-15; // "up to rounding": this plus 100 rounding units (the lookup goes through a logarithm)
template <class T> void lookup(mc::Ctx &c, const T &t, int N, const std::string &w, int nb, bool lin) {
    double scale = std::max(fabs(t[0]), fabs(t[N - 1]));
    auto chk = [&](double v) {
        int i = t.index(v);
        c.t();
        c.trace();
        double tol = SLACK + 100 * DBL_EPSILON * (lin ? scale : fabs(v));
        bool ok;
        if (i < -1 || i > N - 1) ok = false;
        else if (i == -1) ok = v < t[0] + tol;
        else if (i == N - 1) ok = v >= t[N - 1] - tol;
        else ok = v >= t[i] - tol && v < t[i + 1] + tol;
        if (v < t[0] - tol && i != -1) ok = false;
        if (v >= t[N - 1] + tol && i != N - 1) ok = false;
        if (!ok) c.fail(mc::fmt("%s: index of %.17g is %d (first %.17g, last %.17g)", w.c_str(), v, i, t[0], t[N - 1]));
        c.state(mc::mix(mc::mix(N, i + 2), (v > t[std::max(0, i)]) + 2 * (v < t[std::max(0, i)])));
        return i;
    };
    for (int i = 0; i < N; i++) {
        for (int k = -nb; k <= nb; k++) chk(step(t[i], k));
        for (double q : {1e-14, 1e-13, 1e-11, 1e-9, 1e-6, 1e-3}) chk(t[i] + q * (lin ? scale : fabs(t[i]))), chk(t[i] - q * (lin ? scale : fabs(t[i])));
        if (i + 1 < N)
            for (double f : {0.01, 0.25, 0.5, 0.75, 0.99}) {
                double v = t[i] + f * (t[i + 1] - t[i]);
                if (chk(v) != i) c.fail(mc::fmt("%s: %.17g inside interval %d found in %d", w.c_str(), v, i, t.index(v)));
            }
    }
    for (double v : {-(double)INFINITY, -DBL_MAX, -1e300, -1.0 - 2 * scale}) if (t.index(v) != -1) c.fail(mc::fmt("%s: index of %g is %d", w.c_str(), v, t.index(v)));
    for (double v : {(double)INFINITY, DBL_MAX, 1e300, 3 * scale + 1}) if (t.index(v) != N - 1) c.fail(mc::fmt("%s: index of %g is %d", w.c_str(), v, t.index(v)));
    if (!lin)
        for (double v : {0.0, -0.0, DBL_MIN, -DBL_MIN, 4.9e-324, t[0] / 2, -t[0]}) if (t.index(v) != -1) c.fail(mc::fmt("%s: index of %g is %d", w.c_str(), v, t.index(v)));
}
#ifndef NO_INTERNALS
template <int N> void interp(mc::Ctx &c, const EnergyTable<N> &t, std::vector<double> y, const std::string &w, int nb, bool islin) {
    double ys = 0;
    for (double v : y) ys = std::max(ys, fabs(v));
    if (ys == 0) ys = 1;
    auto L = [&](double x) { return EnergyTable_interpolate(t, x, y.data()); };
    auto S = std::make_unique<cspline_special<EnergyTable<N>>>(t, y, true);
    double tol = 1e-10 * ys;
    // with points decades apart the cubic coefficients cancel; only node values are then meaningful
    bool fine = t[1] / t[0] < 1.7 || N < 8 && t[N - 1] / t[0] < 150;
    for (int i = 0; i < N; i++) {
        c.t(2 + 2 * (2 * nb + 1));
        c.trace();
        if (fabs(L(t[i]) - y[i]) > tol) c.fail(mc::fmt("%s: linear interpolation gives %.15g at point %d, table %.15g", w.c_str(), L(t[i]), i, y[i]));
        if (fabs((*S)(t[i]) - y[i]) > tol) c.fail(mc::fmt("%s: spline gives %.15g at point %d, table %.15g", w.c_str(), (*S)(t[i]), i, y[i]));
        double d0 = S->deriv(t[i]);
        double ds = fabs(d0) + 1e-3 * ys / t[i];
        for (int k = -nb; k <= nb; k++) {
            double x = step(t[i], k);
            bool in = x >= t[0] && x <= t[N - 1];
            if (in && fabs(L(x) - y[i]) > 1e-9 * ys) c.fail(mc::fmt("%s: linear interpolation jumps at point %d (%d steps): %.15g, %.15g", w.c_str(), i, k, L(x), y[i]));
            if (!in && L(x) != 0) c.fail(mc::fmt("%s: linear interpolation outside the table gives %g", w.c_str(), L(x)));
            if (!fine) continue;
            if (fabs((*S)(x) - y[i]) > 1e-9 * ys) c.fail(mc::fmt("%s: spline jumps at point %d (%d steps): %.15g, %.15g", w.c_str(), i, k, (*S)(x), y[i]));
            if (fabs(S->deriv(x) - d0) > 1e-6 * ds) c.fail(mc::fmt("%s: spline slope jumps at point %d (%d steps): %.15g, %.15g", w.c_str(), i, k, S->deriv(x), d0));
        }
        if (i + 1 < N)
            for (double f : {1e-6, 0.1, 0.5, 0.9, 1 - 1e-6}) {
                if (std::min(f, 1 - f) * (t[i + 1] - t[i]) < 10 * SLACK) continue;
                double x = t[i] + f * (t[i + 1] - t[i]), v = L(x), e = y[i] + f * (y[i + 1] - y[i]);
                if (fabs(v - e) > 1e-9 * ys || v > std::max(y[i], y[i + 1]) + tol || v < std::min(y[i], y[i + 1]) - tol) c.fail(mc::fmt("%s: linear interpolation in interval %d gives %.15g expected %.15g", w.c_str(), i, v, e));
                double h = 1e-4 * (t[i + 1] - t[i]) * std::min(f, 1 - f), sl = ((*S)(x + h) - (*S)(x - h)) / (2 * h);
                if (fine && f > 0.01 && f < 0.99 && fabs(sl - S->deriv(x)) > 1e-5 * fabs(sl) + 1e-9 * ys / h) c.fail(mc::fmt("%s: spline slope in interval %d is %.10g, difference quotient %.10g", w.c_str(), i, S->deriv(x), sl));
                if (islin && fabs((*S)(x) - e) > 1e-9 * ys) c.fail(mc::fmt("%s: spline of a straight line gives %.15g expected %.15g", w.c_str(), (*S)(x), e));
                c.state(mc::hd(mc::hd(i, v), (*S)(x)));
                c.t(5);
            }
    }
    for (double x : {-(double)INFINITY, -1.0, 0.0, 0.5 * t[0], 1.5 * t[N - 1], (double)INFINITY}) if (L(x) != 0) c.fail(mc::fmt("%s: linear interpolation outside the table gives %g at %g", w.c_str(), L(x), x));
}
#endif
static const double LIM[][2] = {{-3, 7}, {0, 7}, {-3, 3}, {-6, -1}, {2, 2.5}, {-1, 1}, {0, 1}, {-8, 8}};
template <int N> void jobs_for(std::vector<mc::Job> &jobs, bool th) {
    int nb = th ? 512 : 64;
    for (auto &l : LIM) {
        double a = l[0], b = l[1];
        jobs.push_back({mc::fmt("log/%d/%g,%g", N, a, b), [=](mc::Ctx &c) {
            auto e = std::make_unique<EnergyTable<N>>(a, b);
            lookup(c, *e, N, mc::fmt("energy table of %d points 10^%g..10^%g", N, a, b), nb, false);
#ifndef NO_INTERNALS
            LogVArray<N> v(a, b);
            lookup(c, v, N, mc::fmt("logarithmic array of %d points 10^%g..10^%g", N, a, b), nb, false);
            for (int i = 0; i < N; i++) {
                double x = pow(10.0, a + (b - a) * i / (N - 1.0));
                c.eq((*e)[i], x, 1e-12, 0, "energy table point %d of %d", i, N);
                c.eq((*e)(i), x, 1e-12, 0, "energy table point %d of %d", i, N);
            }
            for (int i = 0; i < N; i++) c.eq(v[i], pow(10.0, a + (b - a) * i / (N - 1.0)), 1e-12, 0, "logarithmic array point %d of %d", i, N);
#endif
            if (e->index((*e)[0]) != 0 || e->index((*e)[N - 1]) != N - 1) c.fail(mc::fmt("energy table of %d points 10^%g..10^%g: its ends are at %d and %d", N, a, b, e->index((*e)[0]), e->index((*e)[N - 1])));
            c.sample(mc::fmt("index of the point below 10^%g in %d points: %d", b, N, e->index(step((*e)[N - 1], -1))));
        }});
#ifndef NO_INTERNALS
        jobs.push_back({mc::fmt("lin/%d/%g,%g", N, a, b), [=](mc::Ctx &c) {
            LinearVArray<N> v(a, b);
            lookup(c, v, N, mc::fmt("linear array of %d points %g..%g", N, a, b), nb, true);
            for (int i = 0; i < N; i++) c.eq(v[i], a + (b - a) * i / (N - 1.0), 1e-12, 1e-13, "linear array point %d of %d", i, N);
            if (v.index(a) != 0 || v.index(b) != N - 1) c.fail(mc::fmt("linear array of %d points %g..%g: its ends are at %d and %d", N, a, b, v.index(a), v.index(b)));
        }});
        jobs.push_back({mc::fmt("interp/%d/%g,%g", N, a, b), [=](mc::Ctx &c) {
            auto e = std::make_unique<EnergyTable<N>>(a, b);
            std::vector<double> y(N);
            for (int k = 0; k < 7; k++) {
                for (int i = 0; i < N; i++) {
                    double x = (*e)[i];
                    y[i] = k == 0 ? x : k == 1 ? 1 : k == 2 ? log(x) : k == 3 ? sqrt(x) : k == 4 ? sin(i * 0.1) : k == 5 ? (i % 2 ? 1 : -1) : 1 / x;
                }
                interp<N>(c, *e, y, mc::fmt("function %d on %d points 10^%g..10^%g", k, N, a, b), 32, k < 2);
            }
        }});
#endif
    }
}
#ifndef NO_INTERNALS
template <int N> void patterns(std::vector<mc::Job> &jobs) { // every y over {0,1,-2}
    jobs.push_back({mc::fmt("pattern/%d", N), [=](mc::Ctx &c) {
        auto e = std::make_unique<EnergyTable<N>>(-1, 1);
        int tot = 1;
        for (int i = 0; i < N; i++) tot *= 3;
        for (int x = 0; x < tot; x++) {
            std::vector<double> y;
            for (int i = 0, z = x; i < N; i++, z /= 3) y.push_back(z % 3 == 0 ? 0 : z % 3 == 1 ? 1 : -2);
            interp<N>(c, *e, y, mc::fmt("pattern %d of %d points", x, N), 4, false);
        }
    }});
}
#endif
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    jobs_for<3>(jobs, o.thorough);
    jobs_for<4>(jobs, o.thorough);
    jobs_for<7>(jobs, o.thorough);
    jobs_for<50>(jobs, o.thorough);
    jobs_for<100>(jobs, o.thorough);
    jobs_for<200>(jobs, o.thorough);
    jobs_for<600>(jobs, o.thorough);
    jobs_for<1001>(jobs, o.thorough);
#ifndef NO_INTERNALS
    patterns<3>(jobs);
    patterns<4>(jobs);
    patterns<5>(jobs);
    patterns<6>(jobs);
    patterns<7>(jobs);
#endif
    // the library's own table and interpolator
    jobs.push_back({"own", [=](mc::Ctx &c) {
        const int N = max_datapoints;
        lookup(c, energy_table, N, "the library's energy table", o.thorough ? 4096 : 256, false);
        c.eq(energy_table[0], 1e-3, 1e-9, 0, "first point of the library's table");
        c.eq(energy_table[N - 1], 1e7, 1e-9, 0, "last point of the library's table");
        std::vector<double> y(N);
        for (int i = 0; i < N; i++) y[i] = pow(energy_table[i], 1.7);
#ifndef NO_INTERNALS
        Interpolator s(energy_table, y);
        c.eq(s.get_min(), energy_table[0], 0, 0, "lower limit of the interpolator");
        c.eq(s.get_max(), energy_table[N - 1], 0, 0, "upper limit of the interpolator");
        for (int i = 0; i < N; i++) {
            c.eq(s(energy_table[i]), y[i], 1e-10, 0, "interpolator at point %d", i);
            c.t();
            if (i + 1 < N && i > 9 && i < N - 11) {
                double x = sqrt(energy_table[i] * energy_table[i + 1]);
                c.eq(s(x), pow(x, 1.7), 1e-6, 0, "interpolator between points %d and %d", i, i + 1);
                c.eq(s.derivative(x), 1.7 * pow(x, 0.7), 1e-4, 0, "slope between points %d and %d", i, i + 1);
            }
        }
#endif
    }});
    return mc::run(o, jobs);
}
