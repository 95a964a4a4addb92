// C01: results do not depend on the history of queries
#include "queries.hpp"
#include "catima/storage.h"

static const double ET[][2] = {{95.0, 0.05}, {7.0, 0.004}, {60000.0, 1.0}};
static const int NET = 3;
static const int MAXV = 128;
struct Ref { int n; double v[MAXV]; };

int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<Combo> cs = combos();
    const int NC = cs.size();
    // further distinct combinations to overrun the shipped capacity
    std::vector<Combo> many = cs;
    for (int z = 1; z <= 108 && (int)many.size() < 140; z++)
        many.push_back({mc::fmt("many Z%d", z), proj(z), elem(1 + (z * 7) % 92).thickness(0.05), cfg(1 + z % 2)});
    const int NM = many.size();
    Ref *refs = mc::shared<Ref>((size_t)NM * NET * NQ);
    auto R = [=](int i, int e, int q) -> Ref & { return refs[((size_t)i * NET + e) * NQ + q]; };
    auto ask = [=](const Combo &k, int e, int q) {
        Material m = k.m;
        m.thickness(ET[e][1]);
        return query(q, k.p, m, ET[e][0], k.c);
    };
    std::vector<mc::Job> jobs;
    // reference values: each query of each combination as the first query of its process
#ifndef PAIRS
    static const int pick[] = {0, 5, 24, 19, 9, 2, 12}; // base, charge, correction, potential, amount, mass, constituent
#endif
    for (int i = 0; i < NM; i++) {
#ifndef PAIRS
        bool used = false;
        for (int x : pick) used = used || x == i;
        if (!used) continue;
#endif
        jobs.push_back({mc::fmt("reference/%d", i), [=](mc::Ctx &c) {
            for (int e = 0; e < (i < NC ? NET : 1); e++)
                for (int q = 0; q < NQ; q++) {
                    if (i >= NC && q != 0 && q != 4 && q != 8) continue;
                    pid_t pid = fork();
                    if (pid == 0) {
                        V v = ask(many[i], e, q);
                        if ((int)v.size() > MAXV) _exit(97);
                        R(i, e, q).n = v.size();
                        for (size_t k = 0; k < v.size(); k++) R(i, e, q).v[k] = v[k];
                        _exit(0);
                    }
                    int st = 0;
                    waitpid(pid, &st, 0);
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) _exit(97);
                    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail(mc::fmt("%s of %s as first query crashed", Q_NAME[q], many[i].name.c_str()));
                    c.t();
                }
        }, 0});
    }
    auto cmp = [=](mc::Ctx &c, int i, int e, int q, const std::string &hist) {
        V v = ask(many[i], e, q);
        Ref &r = R(i, e, q);
        c.t();
        c.state(hv(mc::mix(q, 77), v));
        return same(c, v, V(r.v, r.v + r.n), 1e-9, hist + mc::fmt(" then %s of %s at %g MeV/u", Q_NAME[q], many[i].name.c_str(), ET[e][0]));
    };
#if defined(PAIRS)
    // every ordered pair of combinations, with a clear cache first; every query of the second
    for (int i = 0; i < NC; i++)
        jobs.push_back({mc::fmt("pair/%d", i), [=](mc::Ctx &c) {
            for (int j = 0; j < NC; j++) {
                if (j == i) continue;
                _storage.Reset();
                cmp(c, i, 0, 0, "clear");
                for (int e = 0; e < NET; e++)
                    for (int q = 0; q < NQ; q++) cmp(c, j, e, q, "clear, " + cs[i].name);
                cmp(c, i, 0, 0, "clear, " + cs[i].name + ", " + cs[j].name);
                cmp(c, i, 1, 9, "clear, " + cs[i].name + ", " + cs[j].name);
                c.trace();
            }
        }, 1});
    // every ordered triple of (query, combination, energy) over two combinations: all windows of length 3
    // of a de Bruijn sequence over the operations, stack filled with leftovers before each call
    {
        const int K = NQ * 4;
        // de Bruijn sequence of order n split by its first symbol: for each a, a sequence containing all a b c
        for (int a = 0; a < K; a++)
            jobs.push_back({mc::fmt("interleave/%d", a), [=](mc::Ctx &c) {
                int pat = 0;
                auto op = [&](int s, const char *h) {
                    static const int pick[2] = {0, 5};
                    dirty("\x00\xff\x7f\x40"[pat++ & 3]);
                    cmp(c, pick[(s / NQ) & 1], s / NQ / 2, s % NQ, h);
                };
                for (int b = 0; b < K; b++)
                    for (int d = 0; d < K; d += 1) {
                        if (!o.thorough && (a % NQ) != 0 && d % NQ != b % NQ && d % NQ != a % NQ && d % NQ != 0 && d % NQ != 10) continue;
                        if (o.thorough || d == 0) op(a, "interleaved queries");
                        op(b, "interleaved queries");
                        op(d, "interleaved queries");
                        c.trace();
                    }
            }, 1});
    }
    // overrun of the shipped capacity: insert n combinations for every n, then ask again for earlier ones
    for (int start = 0; start < 8; start++)
        jobs.push_back({mc::fmt("overrun/%d", start), [=](mc::Ctx &c) {
            int perm[200];
            for (int i = 0; i < NM; i++) perm[i] = (start * 17 + i * (start & 1 ? NM - 1 : 1)) % NM;
            _storage.Reset();
            for (int round = 0; round < 2; round++)
                for (int i = 0; i < NM; i++) {
                    cmp(c, perm[i], 0, 0, mc::fmt("overrun history %d:%d", round, i));
                    if (i % 20 == start)
                        for (int b : {1, 30, 58, 59, 60, 61, 62})
                            if (b <= i) cmp(c, perm[i - b], 0, b & 1 ? 4 : 8, mc::fmt("overrun history %d:%d back %d", round, i, b));
                    c.trace();
                }
        }, 1});
    // requests growing one by one: after n insertions all of the last n are asked again
    for (int n = 50; n <= 70; n += 5)
        jobs.push_back({mc::fmt("refill/%d", n), [=](mc::Ctx &c) {
            _storage.Reset();
            for (int i = 0; i < n; i++) cmp(c, i, 0, 4, mc::fmt("fill %d", i));
            for (int i = 0; i < n; i++) cmp(c, i, 0, 0, mc::fmt("%d combinations", n));
            for (int i = n - 1; i >= 0; i--) cmp(c, i, 0, 8, mc::fmt("%d combinations, backwards", n));
            c.trace();
        }, 1});
    // neighbours: groups of combinations that all fit into the cache at once and differ little, asked forwards and
    // backwards and compared with the values obtained from an empty cache
    auto group = [=](mc::Ctx &c, const std::vector<Combo> &g, const std::string &what) {
        std::vector<V> ref;
        auto ask2 = [&](const Combo &k) {
            V v = query(0, k.p, k.m, 95, k.c), w = query(8, k.p, k.m, 20, k.c);
            v.insert(v.end(), w.begin(), w.end());
            c.t(2);
            return v;
        };
        for (auto &k : g) {
            _storage.Reset();
            ref.push_back(ask2(k));
            c.state(hv(5, ref.back()));
        }
        _storage.Reset();
        int n = g.size();
        for (int round = 0; round < 4; round++)
            for (int i = 0; i < n; i++) {
                int j = round & 1 ? n - 1 - i : i;
                if (round == 3) j = (j * 2) % n + (n % 2 == 0 && j * 2 >= n);
                same(c, ask2(g[j]), ref[j], 1e-9, what + mc::fmt(", round %d, %s", round, g[j].name.c_str()));
                c.trace();
            }
    };
    {
        // all configurations, with another field varying fastest in every order
        std::vector<Config> all = all_configs();
        for (int sys = 0; sys < 2; sys++)
            for (int ord = 0; ord < 6; ord++)
                for (int part = 0; part < 4; part++)
                    jobs.push_back({mc::fmt("configs/%d/%d/%d", sys, ord, part), [=](mc::Ctx &c) {
                        // fields: effective charge 6, corrections 16, calculation 2, low energy 2, scattering 4, factor 2
                        static const int dim[6] = {6, 16, 2, 2, 4, 2};
                        std::vector<Combo> g;
                        for (int x = 0; x < 1536; x++) {
                            int f[6], y = x;
                            for (int i = 0; i < 6; i++) {
                                int d = (i + ord) % 6;
                                f[d] = y % dim[d];
                                y /= dim[d];
                            }
                            static const int sc[4] = {255, 0, 1, 2};
                            if (x / 48 % 4 != part && !o.thorough) continue;
                            if (!o.thorough && (x / 48 + ord) % 2) continue;
                            Config k = cfg(f[0], f[1], f[2], f[3], sc[f[4]], f[5] ? 1.3 : 1.0);
                            g.push_back({cname(k), sys ? Projectile(238, 92, 80) : Projectile(12, 6, 5), sys ? elem(6).thickness(0.01) : comp(75).thickness(0.05), k});
                            if (g.size() == 48) {
                                group(c, g, mc::fmt("configurations in order %d", ord));
                                g.clear();
                            }
                        }
                        if (g.size()) group(c, g, mc::fmt("configurations in order %d", ord));
                    }, 1});
        // materials of 1..8 constituents: every single change and every exchange of two amounts, masses or places
        for (int n = 1; n <= 8; n++)
            for (int model = 0; model < 2; model++)
                jobs.push_back({mc::fmt("constituents/%d/%d", n, model), [=](mc::Ctx &c) {
                    struct T { double A; int Z; double s; };
                    std::vector<T> base;
                    for (int i = 0; i < n; i++) base.push_back({(double)(12 + 4 * i), 6 + 2 * i, 1.0 + i});
                    std::vector<Combo> g;
                    auto put = [&](const std::string &name, const std::vector<T> &t, double I = 0, double M = 0) {
                        Material m;
                        for (auto &e : t) m.add_element(e.A, e.Z, e.s);
                        m.density(1).thickness(0.02).I(I);
                        if (M > 0) m.M(M);
                        g.push_back({name, Projectile(40, 18, 16), m, cfg(model)});
                        if (g.size() == 55) {
                            group(c, g, mc::fmt("%d constituents", n));
                            g.resize(1); // the base stays
                        }
                    };
                    put("base", base);
                    for (int i = 0; i < n; i++) {
                        auto t = base;
                        t[i].A += 1; put(mc::fmt("mass of %d", i), t); t = base;
                        t[i].A -= 0.5; put(mc::fmt("mass of %d", i), t); t = base;
                        t[i].A += 0.03; put(mc::fmt("mass of %d", i), t); t = base;
                        t[i].A += 0.001; put(mc::fmt("mass of %d", i), t); t = base;
                        t[i].Z += 1; put(mc::fmt("charge of %d", i), t); t = base;
                        if (n > 1) {
                            t[i].s += 0.02; put(mc::fmt("amount of %d", i), t); t = base;
                            t[i].s += 0.001; put(mc::fmt("amount of %d", i), t); t = base;
                        }
                        t[i].s += 1; put(mc::fmt("amount of %d", i), t); t = base;
                        t[i].s += 0.25; put(mc::fmt("amount of %d", i), t); t = base;
                        t.erase(t.begin() + i);
                        if (n > 1) put(mc::fmt("without %d", i), t);
                        t = base;
                        t.push_back(base[i]);
                        put(mc::fmt("with %d twice", i), t);
                        for (int j = i + 1; j < n; j++) {
                            t = base; std::swap(t[i].s, t[j].s); put(mc::fmt("amounts of %d and %d exchanged", i, j), t);
                            t = base; std::swap(t[i].Z, t[j].Z); put(mc::fmt("charges of %d and %d exchanged", i, j), t);
                            t = base; std::swap(t[i].A, t[j].A); put(mc::fmt("masses of %d and %d exchanged", i, j), t);
                            t = base; t[i].A += 2; t[j].A -= 2; put(mc::fmt("mass moved from %d to %d", j, i), t);
                            t = base; t[i].Z += 1; t[j].Z -= 1; put(mc::fmt("charge moved from %d to %d", j, i), t);
                            t = base; t[i].s += 0.5; t[j].s -= 0.5; put(mc::fmt("amount moved from %d to %d", j, i), t);
                        }
                    }
                    for (double I : {50.0, 75.0, 75.01, 75.1, 75.5, 400.0}) put(mc::fmt("I=%g", I), base, I);
                    for (double M : {20.0, 20.01, 20.3, 200.0}) put(mc::fmt("M=%g", M), base, 0, M);
                    // small changes which the mean molar mass does not show
                    for (int i = 0; i < n; i++) {
                        auto t = base;
                        t[i].A += 0.004; put(mc::fmt("mass of %d, given M", i), t, 0, 20); t = base;
                        t[i].s += 0.002; put(mc::fmt("amount of %d, given M", i), t, 0, 20); t = base;
                        for (int j = i + 1; j < n; j++) {
                            t = base; t[i].A += 0.0625; t[j].A -= 0.0625; put(mc::fmt("little mass moved from %d to %d, given M", j, i), t, 0, 20);
                            t = base; t[i].s += 0.03125; t[j].s -= 0.03125; put(mc::fmt("little amount moved from %d to %d, given M", j, i), t, 0, 20);
                        }
                    }
                    if (g.size() > 1) group(c, g, mc::fmt("%d constituents", n));
                }, 1});
        // projectiles: all combinations of three masses, charges and charge states
        for (int model = 0; model < 6; model++)
            jobs.push_back({mc::fmt("projectiles/%d", model), [=](mc::Ctx &c) {
                std::vector<Combo> g;
                for (double A : {16.0, 18.0, 20.0})
                    for (double Z : {16.0, 18.0, 20.0})
                        for (double Q : {14.0, 16.0, 18.0}) g.push_back({mc::fmt("A=%g Z=%g Q=%g", A, Z, Q), Projectile(A, Z, Q), elem(18).thickness(0.02), cfg(model)});
                for (double A : {15.999, 16.001, 16.00001, 17.5}) g.push_back({mc::fmt("A=%g", A), Projectile(A, 16, 16), elem(18).thickness(0.02), cfg(model)});
                for (double Q : {15.5, 15.99, 16.001, 16.5}) g.push_back({mc::fmt("Q=%g", Q), Projectile(16, 18, Q), elem(18).thickness(0.02), cfg(model)});
                g.push_back({"target mass", Projectile(16, 18, 18), Material(40.5, 18, 1, 0.02), cfg(model)});
                for (double f : {0.999, 1.0001, 1.02, 0.0}) g.push_back({mc::fmt("scattering factor %g", f), Projectile(16, 18, 18), elem(18).thickness(0.02), cfg(model, 0, 1, 0, 255, f)});
                group(c, g, mc::fmt("projectiles, model %d", model));
            }, 1});
    }
#else
    // small cache: all windows of given length over k combinations and "clear"
    const int cap = CATIMA_MC_STORAGE;
    const int k = cap + 2, n = cap == 2 ? (o.thorough ? 6 : 5) : (o.thorough ? 5 : 4);
    const int K = k + 1;
    // all words of length n with given first two letters, one history per job
    for (int a = 0; a < K; a++)
        for (int b = 0; b < K; b++)
            jobs.push_back({mc::fmt("word/%d%d", a, b), [=](mc::Ctx &c) {
                int w[8] = {a, b};
                long N = 1;
                for (int i = 2; i < n; i++) N *= K;
                auto op = [&](int s, const std::string &h, int q) {
                    if (s == k) { _storage.Reset(); c.t(); }
                    else cmp(c, pick[s], (s + q) % NET, q, h);
                };
                // Gray-like order: consecutive words share nothing on purpose, every word starts in the state left by the one before
                for (long x = 0; x < N; x++) {
                    long y = x;
                    std::string h = "history";
                    for (int i = 0; i < n; i++) {
                        if (i >= 2) { w[i] = y % K; y /= K; }
                        op(w[i], h, (x + i) % 2 ? 0 : (int)((x + i) % NQ));
                        h += mc::fmt(" %d", w[i]);
                    }
                    c.trace();
                }
            }, 1});
#endif
    return mc::run(o, jobs);
}
