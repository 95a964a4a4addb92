// C31: interpolated tables
#include "common.hpp"
#include "catima/storage.h"
#include "catima/spline.h"
// natural cubic spline in long double: second derivatives M at the points
struct Natural {
    std::vector<long double> x, y, M;
    Natural(const std::vector<long double> &x, const std::vector<long double> &y) : x(x), y(y), M(x.size(), 0) {
        int n = x.size();
        std::vector<long double> d(n, 0), r(n, 0);
        for (int i = 1; i < n - 1; i++) {
            long double a = x[i] - x[i - 1], c = x[i + 1] - x[i], w = 6 * ((y[i + 1] - y[i]) / c - (y[i] - y[i - 1]) / a);
            d[i] = 2 * (a + c) - (i > 1 ? a * a / d[i - 1] : 0);
            r[i] = w - (i > 1 ? a * r[i - 1] / d[i - 1] : 0);
        }
        for (int i = n - 2; i > 0; i--) M[i] = (r[i] - (x[i + 1] - x[i]) * M[i + 1]) / d[i];
    }
    long double slope(int i, long double t) const {
        long double h = x[i + 1] - x[i], u = t - x[i], v = x[i + 1] - t;
        return (-M[i] * v * v + M[i + 1] * u * u) / (2 * h) + (y[i + 1] - y[i]) / h - (M[i + 1] - M[i]) * h / 6;
    }
    long double value(int i, long double t) const {
        long double h = x[i + 1] - x[i], u = t - x[i], v = x[i + 1] - t;
        return (M[i] * v * v * v + M[i + 1] * u * u * u) / (6 * h) + (y[i] / h - M[i] * h / 6) * v + (y[i + 1] / h - M[i + 1] * h / 6) * u;
    }
    // value and slope anywhere, continued straight outside
    std::pair<double, double> at(double t) const {
        int n = x.size();
        if (t < x[0]) return {y[0] + slope(0, x[0]) * (t - x[0]), slope(0, x[0])};
        if (t > x[n - 1]) return {y[n - 1] + slope(n - 2, x[n - 1]) * (t - x[n - 1]), slope(n - 2, x[n - 1])};
        int i = std::upper_bound(x.begin(), x.end(), (long double)t) - x.begin() - 1;
        if (i > n - 2) i = n - 2;
        return {value(i, t), slope(i, t)};
    }
};
static const double U[] = {0, 1e-9, 0.1, 0.5, 0.75, 1 - 1e-9};
#ifndef NO_INTERNALS
// judge one table of values: k0..k1 intervals looked at
template <typename S>
static void judge(mc::Ctx &c, const S &s, const std::vector<long double> &x, const std::vector<double> &y, int k0, int k1, const std::string &w) {
    std::vector<long double> yl(y.begin(), y.end());
    Natural r(x, yl);
    int n = x.size();
    auto one = [&](double t, int k) {
        auto e = r.at(t);
        // scale: the largest contribution of a point (falls by 0.27 per point)
        double h = k + 1 < n ? x[k + 1] - x[k] : x[k] - x[k - 1], sy = 0;
        for (int j = std::max(0, k - 60); j < std::min(n, k + 62); j++) sy = std::max(sy, fabs(y[j]) * pow(0.4, j > k ? j - k - 1 : k - j));
        double v = s(t), d = s.derivative(t);
        c.t(2);
        c.trace();
        c.eq(v, e.first, 1e-9, 1e-9 * sy + 1e-25, "%s: value at %.15g (interval %d)", w.c_str(), t, k);
        c.eq(d, e.second, 1e-7, 1e-7 * sy / h + 1e-25, "%s: slope at %.15g (interval %d)", w.c_str(), t, k);
        c.state(mc::hd(mc::hd(k, v), d));
    };
    for (int k = k0; k < k1; k++)
        for (double u : U) one(x[k] + u * (x[k + 1] - x[k]), k);
    one(x[n - 1], n - 1);
    if (k0 == 0) for (double t : {0.999 * x[0], 0.5 * x[0]}) one(t, 0);
    if (k1 == n - 1) for (double t : {1.001 * x[n - 1], 2.0 * x[n - 1]}) one(t, n - 1);
}
#endif
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
#ifndef NO_INTERNALS
    const int N = max_datapoints;
    std::vector<long double> X;
    for (int i = 0; i < N; i++) X.push_back(energy_table[i]);
    // the interpolation is linear in the tabulated values: unit tables are a basis of all tables
    for (int b = 0; b < N; b += 10)
        jobs.push_back({mc::fmt("unit/%d", b), [=](mc::Ctx &c) {
            for (int i = b; i < b + 10 && i < N; i++) {
                std::vector<double> y(N, 0);
                y[i] = 1;
                Interpolator s(energy_table, y);
                judge(c, s, X, y, o.thorough ? 0 : std::max(0, i - 40), o.thorough ? N - 1 : std::min(N - 1, i + 40), mc::fmt("unit table %d", i));
                // neighbours scaled and added
                if (i + 1 < N) {
                    std::vector<double> z(N, 0);
                    z[i] = -3;
                    z[i + 1] = 7;
                    Interpolator t(energy_table, z);
                    judge(c, t, X, z, std::max(0, i - 5), std::min(N - 1, i + 6), mc::fmt("two points %d", i));
                }
            }
        }});
    jobs.push_back({"functions", [=](mc::Ctx &c) {
        auto fun = [&](const char *n, std::function<double(double)> f) {
            std::vector<double> y;
            for (int i = 0; i < N; i++) y.push_back(f(X[i]));
            Interpolator s(energy_table, y);
            judge(c, s, X, y, 0, N - 1, n);
            // copies and assignments keep working
            Interpolator a(s), b;
            b = s;
            for (int k = 0; k < N; k++) {
                c.eq(a(X[k] * 1.01), s(X[k] * 1.01), 0, 0, "%s: copied interpolator at point %d", n, k);
                c.eq(b(X[k] * 1.01), s(X[k] * 1.01), 0, 0, "%s: assigned interpolator at point %d", n, k);
                c.t(2);
            }
            c.eq(s.get_min(), X[0], 1e-12, 0, "smallest energy");
            c.eq(s.get_max(), X[N - 1], 1e-12, 0, "largest energy");
        };
        fun("zero", [](double) { return 0.0; });
        fun("constant", [](double) { return 4.5; });
        fun("proportional", [](double x) { return x; });
        fun("linear", [](double x) { return 3 - 2 * x; });
        fun("root", [](double x) { return sqrt(x); });
        fun("square", [](double x) { return x * x; });
        fun("range-like", [](double x) { return pow(x, 1.77); });
        fun("logarithm", [](double x) { return log(x); });
        fun("reciprocal", [](double x) { return 1 / x; });
        fun("step", [](double x) { return x > 10 ? 1.0 : 0.0; });
        fun("alternating", [](double x) { return (long long)(log(x) * 100) % 2 ? 1.0 : -1.0; });
    }});
    // the same in small tables of both spacings
    jobs.push_back({"small tables", [=](mc::Ctx &c) {
        auto all = [&](const auto &table, const char *name) {
            using T = std::decay_t<decltype(table)>;
            const int n = T::size();
            std::vector<long double> x;
            for (int i = 0; i < n; i++) x.push_back(table[i]);
            long words = 1;
            for (int i = 0; i < n; i++) words *= 3;
            for (long wd = 0; wd < words; wd++) { // every table over {-1,0,2}
                std::vector<double> y;
                long q = wd;
                for (int i = 0; i < n; i++, q /= 3) y.push_back(q % 3 == 0 ? 0 : q % 3 == 1 ? -1 : 2);
                cspline_special<T> s(table, y);
                struct A {
                    const cspline_special<T> &s;
                    double operator()(double x) const { return s(x); }
                    double derivative(double x) const { return s.deriv(x); }
                } a = {s};
                judge(c, a, x, y, 0, n - 1, mc::fmt("%s word %ld", name, wd));
            }
        };
        all(LinearVArray<3>(0.5, 2), "linear 3");
        all(LinearVArray<4>(0.5, 2), "linear 4");
        all(LinearVArray<6>(0.5, 4), "linear 6");
        all(LinearVArray<8>(1, 100), "linear 8");
        all(LogVArray<3>(-1, 1), "log 3");
        all(LogVArray<5>(-1, 1), "log 5");
        all(LogVArray<7>(0, 3), "log 7");
        all(EnergyTable<4>(-1, 2), "energy 4");
        all(EnergyTable<8>(-1, 2), "energy 8");
    }});
#endif
    // through the queries: ranges between two table energies follow the interpolation of ranges at the table energies
    for (int z : {1, 6, 26, 92})
        jobs.push_back({mc::fmt("ranges/Z%d", z), [=](mc::Ctx &c) {
            for (int k = 0; k < NTARGET; k += o.thorough ? 1 : 7) {
                Material m = target(k);
                std::vector<long double> x, y;
                for (int i = 0; i < 600; i++) {
                    double T = pow(10, -3 + 10.0 * i / 599);
                    x.push_back(T);
                    y.push_back(range(proj(z, 1, T), m));
                }
                Natural r(x, y);
                for (int i = 0; i < 599; i++)
                    for (double u : {0.2, 0.5, 0.9}) {
                        double T = x[i] + u * (x[i + 1] - x[i]);
                        auto e = r.at(T);
                        c.t();
                        c.trace();
                        double v = range(proj(z, 1, T), m);
                        c.eq(v, e.first, 1e-6, 0, "range of Z=%d in %s at %.10g MeV/u", z, tname(k).c_str(), T);
                        c.state(mc::hd(z, v));
                    }
            }
        }});
    return mc::run(o, jobs);
}
