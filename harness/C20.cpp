// C20: quadrature rules
#include "mc.hpp"
#include <algorithm>
#include "catima/glq_integrator.h"
#include "catima/gkq_integrator.h"
using namespace integrators;
static const double IV[][2] = {{-1, 1}, {0, 1}, {-3, 2}, {1, 4}, {1e-3, 1e-2}, {100, 101}, {0, 500}, {2, -1}, {1, 1}, {-5, -4}};
// all monomials are taken in a shifted variable as well, so that degrees matter on every interval
struct Poly {
    double m, s;
    int k;
    std::vector<double> *pts = nullptr;
    double operator()(double x) {
        if (pts) pts->push_back(x);
        return pow((x - m) / s, k);
    }
    double integral(double a, double b) const { return s * (pow((b - m) / s, k + 1) - pow((a - m) / s, k + 1)) / (k + 1); }
    double size(double a, double b) const { return std::max(1.0, std::max(pow(fabs((a - m) / s), k), pow(fabs((b - m) / s), k))) * fabs(b - a); }
};
static std::vector<Poly> polys(double a, double b, int k) {
    double h = std::max(fabs(b - a), 1e-3) / 2, q = (a + b) / 2;
    return {{0, std::max(fabs(a), fabs(b)), k}, {q, h, k}, {a, 2 * h, k}, {b + h, 2 * h, k}, {q + 0.3 * h, h, k}};
}
template <class A> void points(mc::Ctx &c, const A &p, std::vector<double> e, double a, double b, const std::string &w) {
    c.t();
    if (p.size() != e.size()) { c.fail(mc::fmt("%s: %zu points reported, %zu used", w.c_str(), p.size(), e.size())); return; }
    for (size_t i = 1; i < p.size(); i++)
        if (b > a ? p[i] <= p[i - 1] : b < a ? p[i] >= p[i - 1] : false) c.fail(w + ": points not in order");
    std::sort(e.begin(), e.end());
    std::vector<double> s(p.begin(), p.end());
    if (b < a) std::sort(s.begin(), s.end());
    for (size_t i = 0; i < s.size(); i++) c.eq(s[i], e[i], 1e-14, 1e-14 * fabs(b - a), "%s: point %zu", w.c_str(), i);
    for (double x : s)
        if (x < std::min(a, b) || x > std::max(a, b)) c.fail(w + ": point outside the interval");
}
template <int N> void gl(std::vector<mc::Job> &jobs) {
    jobs.push_back({mc::fmt("GL/%d", N), [](mc::Ctx &c) {
        GaussLegendreIntegration<N> g;
        if (g.n() != N) c.fail(mc::fmt("order %d reports %d points", N, g.n()));
        for (auto &iv : IV) {
            double a = iv[0], b = iv[1];
            for (int k = 0; k <= 2 * N - 1; k++)
                for (Poly p : polys(a, b, k)) {
                    c.t();
                    c.trace();
                    double v = g.integrate(p, a, b);
                    c.state(mc::hd(mc::mix(N, k), v));
                    c.eq(v, p.integral(a, b), 1e-12 * (1 + k), 1e-13 * (1 + k) * p.size(a, b), "order %d degree %d on [%g,%g]", N, k, a, b);
                    c.eq(g(p, a, b), v, 0, 0, "order %d call operator", N);
                }
            std::vector<double> e;
            Poly p = polys(a, b, 1)[0];
            p.pts = &e;
            g.integrate(p, a, b);
#ifndef NO_INTERNALS
            if (a != b) points(c, g.get_points(a, b), e, a, b, mc::fmt("order %d on [%g,%g]", N, a, b));
#endif
        }
        // one degree higher is not exact: the rule has the order it claims (and the check is not vacuous)
        if (N <= 16) {
            Poly p{0, 1, 2 * N};
            if (fabs(g.integrate(p, -1, 1) - p.integral(-1, 1)) > 1e-12) c.count("degree 2n seen to be inexact");
        }
        std::vector<double> e;
        Poly p{0, 1, 1, &e};
        g.integrate(p, -1, 1);
#ifndef NO_INTERNALS
        points(c, g.get_points(), e, -1, 1, mc::fmt("order %d default interval", N));
#endif
        c.sample(mc::fmt("order %d: integral of x^%d over [0,500]", N, 2 * N - 1));
    }});
#ifndef NO_INTERNALS
    jobs.push_back({mc::fmt("GL2D/%d", N), [](mc::Ctx &c) {
        GaussLegendreIntegration2D<N> g;
        GaussLegendreIntegration2DA<N> h;
        GaussLegendreIntegration2DA<N, 4> h4;
        GaussLegendreIntegration2DA<3, N> h3;
        static const double R[][4] = {{-1, 1, -1, 1}, {0, 1, 2, 5}, {-3, 2, 10, 11}, {1, 4, -2, 0}};
        for (auto &r : R)
            for (int i = 0; i < 2 * N; i++)
                for (int j = 0; j < 2 * N; j++) {
                    auto edge = [](int d) { return d < 2 || d > 2 * N - 3 || d == N; };
                    if (N > 20 && !(edge(i) && edge(j))) continue; // high orders: the degrees at the edges
                    Poly p = polys(r[0], r[1], i)[2], q = polys(r[2], r[3], j)[3];
                    auto f = [&](double x, double y) { return p(x) * q(y); };
                    double e = p.integral(r[0], r[1]) * q.integral(r[2], r[3]), s = 1e-12 * (1 + i + j) * p.size(r[0], r[1]) * q.size(r[2], r[3]);
                    c.t(4);
                    c.trace();
                    double v = g.integrate(f, r[0], r[1], r[2], r[3]);
                    c.state(mc::hd(mc::mix(mc::mix(N, i), j), v));
                    c.eq(v, e, 1e-11, s, "2D order %d degrees %d,%d on [%g,%g]x[%g,%g]", N, i, j, r[0], r[1], r[2], r[3]);
                    c.eq(g(f, r[0], r[1], r[2], r[3]), v, 0, 0, "2D order %d call operator", N);
                    c.eq(h.integrate(f, r[0], r[1], r[2], r[3]), e, 1e-11, s, "2D order %d,%d degrees %d,%d", N, N, i, j);
                    if (j < 8) c.eq(h4.integrate(f, r[0], r[1], r[2], r[3]), e, 1e-11, s, "2D order %d,4 degrees %d,%d", N, i, j), c.eq(h4(f, r[0], r[1], r[2], r[3]), e, 1e-11, s, "2D order %d,4 call", N);
                    if (i < 6) c.eq(h3.integrate(f, r[0], r[1], r[2], r[3]), e, 1e-11, s, "2D order 3,%d degrees %d,%d", N, i, j);
                }
    }});
#endif
}
#ifndef NO_INTERNALS
template <int N> void gk(std::vector<mc::Job> &jobs) {
    jobs.push_back({mc::fmt("GK/%d", N), [](mc::Ctx &c) {
        typedef GaussKronrodIntegration<N> G;
        const int m = (N - 1) / 2, deg = 3 * m + 1 + (m % 2), gdeg = 2 * m - 1;
        if (G::n() != N) c.fail(mc::fmt("order %d reports %d points", N, G::n()));
        for (auto &iv : IV) {
            double a = iv[0], b = iv[1];
            for (int k = 0; k <= deg; k++)
                for (Poly p : polys(a, b, k)) {
                    auto r = G::integrate_nonadaptive(p, a, b);
                    c.t();
                    c.trace();
                    c.state(mc::hd(mc::mix(N, k), r.first));
                    double tol = 1e-13 * (1 + k) * p.size(a, b);
                    c.eq(r.first, p.integral(a, b), 1e-12 * (1 + k), tol, "Kronrod %d degree %d on [%g,%g]", N, k, a, b);
                    if (k <= gdeg && fabs(r.second) > 3 * tol) c.fail(mc::fmt("Kronrod %d degree %d on [%g,%g]: error estimate %g", N, k, a, b, r.second));
                    if (a < b) {
                        double v = G::integrate(p, a, b, 1e-12, 1e-10);
                        c.eq(v, p.integral(a, b), 1e-9, tol + 1e-12, "adaptive Kronrod %d degree %d on [%g,%g]", N, k, a, b);
                        for (int n : {2, 3, 7}) c.eq(G::integrate(p, a, b, 1e-12, 1e-10, n), p.integral(a, b), 1e-9, tol + 1e-12, "adaptive Kronrod %d degree %d on [%g,%g] in %d pieces", N, k, a, b, n);
                        double q = a + 0.3 * (b - a), s = a + 0.8 * (b - a);
                        c.eq(G::integrate_intervals(p, {{a, q}, {q, s}, {s, b}}, 1e-12, 1e-10), p.integral(a, b), 1e-9, tol + 1e-12, "Kronrod %d degree %d on intervals of [%g,%g]", N, k, a, b);
                        // lists of one to nine intervals: adjacent, in reverse order, with gaps, overlapping, repeated
                        for (int n = 1; n <= 9; n++) {
                            std::vector<std::pair<double, double>> v, back, gaps, over;
                            double eg = 0, eo = 0;
                            for (int i = 0; i < n; i++) {
                                double x = a + (b - a) * i / n, y = i == n - 1 ? b : a + (b - a) * (i + 1) / n, g = y - 0.4 * (y - x);
                                v.push_back({x, y});
                                back.insert(back.begin(), {x, y});
                                gaps.push_back({x, g});
                                over.push_back({a, y});
                                eg += p.integral(x, g);
                                eo += p.integral(a, y);
                            }
                            c.t(4);
                            double t = n * (tol + 1e-12);
                            c.eq(G::integrate_intervals(p, v, 1e-12, 1e-10), p.integral(a, b), 1e-9, t, "Kronrod %d degree %d on %d intervals of [%g,%g]", N, k, n, a, b);
                            c.eq(G::integrate_intervals(p, back, 1e-12, 1e-10), p.integral(a, b), 1e-9, t, "Kronrod %d degree %d on %d intervals of [%g,%g], last first", N, k, n, a, b);
                            c.eq(G::integrate_intervals(p, gaps, 1e-12, 1e-10), eg, 1e-9, t, "Kronrod %d degree %d on %d separate intervals of [%g,%g]", N, k, n, a, b);
                            c.eq(G::integrate_intervals(p, over, 1e-12, 1e-10), eo, 1e-9, t, "Kronrod %d degree %d on %d overlapping intervals of [%g,%g]", N, k, n, a, b);
                        }
                    }
                    else for (int n : {1, 2, 3, 7}) {
                        c.t();
                        c.eq(G::integrate(p, a, b, 1e-12, 1e-10, n), p.integral(a, b), 1e-9, tol + 1e-12, "adaptive Kronrod %d degree %d from %g to %g in %d pieces", N, k, a, b, n);
                    }
                }
            std::vector<double> e;
            Poly p = polys(a, b, 1)[0];
            p.pts = &e;
            G::integrate_nonadaptive(p, a, b);
            if (a != b) points(c, G::get_points(a, b), e, a, b, mc::fmt("Kronrod %d on [%g,%g]", N, a, b));
        }
        c.eq(([] { Poly p{0, 1, 2}; return G::integrate_intervals(p, {}); })(), 0, 0, 0, "no intervals");
        // adaptive form on a menu of integrands with known integrals
        struct M { const char *n; double (*f)(double); double a, b, v; };
        static const M menu[] = {
            {"exp", [](double x) { return exp(x); }, 0, 3, exp(3.0) - 1},
            {"1/(1+25x2)", [](double x) { return 1 / (1 + 25 * x * x); }, -1, 1, 2 * atan(5.0) / 5},
            {"1/x", [](double x) { return 1 / x; }, 0.01, 10, log(1000.0)},
            {"sqrt", [](double x) { return sqrt(x); }, 0, 1, 2.0 / 3},
            {"sin20x", [](double x) { return 1 + sin(20 * x); }, 0, 3, 3 + (1 - cos(60.0)) / 20},
            {"abs", [](double x) { return fabs(x - 0.3); }, 0, 1, 0.29},
            {"step", [](double x) { return x < 0.37 ? 1.0 : 2.0; }, 0, 1, 1.63},
            {"peak", [](double x) { return 1e-2 / ((x - 0.4) * (x - 0.4) + 1e-4); }, 0, 1, atan(60.0) + atan(40.0)},
            {"log", [](double x) { return -log(x); }, 1e-6, 1, 1 - 1e-6 + 1e-6 * log(1e-6)},
            {"1e4*x5", [](double x) { return 1e4 * pow(x, 5); }, 0, 2, 1e4 * 64 / 6}};
        for (auto &f : menu)
            for (double eps : {1e-3, 1e-5, 1e-8})
                for (double reps : {1e-3, 1e-6, 1e-9}) {
                    double (*g)(double) = f.f;
                    c.t();
                    c.trace();
                    double tol = std::max(eps, reps * fabs(f.v)), v = G::integrate(g, f.a, f.b, eps, reps);
                    c.maxi("error in units of tolerance", fabs(v - f.v) / tol);
                    c.state(mc::hd(N, v));
                    if (!(fabs(v - f.v) <= tol + 1e-13 * fabs(f.v))) c.fail(mc::fmt("adaptive Kronrod %d of %s: %.12g, exact %.12g, tolerance %g", N, f.n, v, f.v, tol));
                    double w = G::integrate(g, f.a, f.b, eps, reps, 4);
                    if (!(fabs(w - f.v) <= tol + 1e-13 * fabs(f.v))) c.fail(mc::fmt("adaptive Kronrod %d of %s in 4 pieces: %.12g, exact %.12g, tolerance %g", N, f.n, w, f.v, tol));
                }
    }});
}
#endif
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
#define ORD(n) gl<n>(jobs);
    ORD(3) ORD(4) ORD(5) ORD(6) ORD(7) ORD(8) ORD(10) ORD(12) ORD(14) ORD(16) ORD(20) ORD(32) ORD(64) ORD(128)
#undef ORD
#ifndef NO_INTERNALS
#define ORD(n) gk<n>(jobs);
    ORD(7) ORD(15) ORD(21) ORD(31) ORD(61)
#endif
    return mc::run(o, jobs);
}
