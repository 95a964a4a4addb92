// C02: the cache is bounded and returns the right, stable entry (any replacement order)
#include "queries.hpp"
#include "catima/storage.h"

static bool key_eq(const DataPoint &d, const Combo &k) { // identity without density
    if (d.p.A != k.p.A || d.p.Z != k.p.Z || d.p.Q != k.p.Q) return false;
    if (d.m.ncomponents() != k.m.ncomponents() || d.m.I() != k.m.I() || d.m.M() != k.m.M()) return false;
    for (int i = 0; i < k.m.ncomponents(); i++) {
        Target a = d.m.get_element(i), b = k.m.get_element(i);
        if (a.A != b.A || a.Z != b.Z || a.stn != b.stn) return false;
    }
    const Config &a = d.config, &b = k.c;
    return a.z_effective == b.z_effective && a.corrections == b.corrections && a.calculation == b.calculation && a.low_energy == b.low_energy && a.scattering == b.scattering && a.scattering_factor == b.scattering_factor;
}
static uint64_t tables(const DataPoint &d) { // bit-exact content
    uint64_t h = mc::mix(d.range.size(), d.angular_variance.size());
    auto f = [&](const std::vector<double> &v) {
        for (double x : v) {
            uint64_t u;
            memcpy(&u, &x, 8);
            h = mc::mix(h, u);
        }
    };
    f(d.range);
    f(d.range_straggling);
    f(d.angular_variance);
    return h;
}

struct Sys {
    mc::Ctx &c;
    const std::vector<Combo> &k;
    const uint64_t *ref;
    int cap;
    std::string hist;
    // model: for every stored combination where it is and how many insertions happened after it
    struct E { const DataPoint *at; const double *mem; int age; };
    std::map<int, E> live;
    Sys(mc::Ctx &c, const std::vector<Combo> &k, const uint64_t *r) : c(c), k(k), ref(r), cap(max_storage_data) {}
    void fail(const std::string &s) { c.fail("[" + hist + "] " + s); }
    int slot_of(int i) {
        int at = -1;
        for (int s = 0; s < _storage.GetN(); s++)
            if (key_eq(_storage.Get((unsigned)s), k[i])) {
                if (at >= 0) fail(mc::fmt("%s is stored twice", k[i].name.c_str()));
                at = s;
            }
        return at;
    }
    void ready(const DataPoint &d, int i) {
        if (!key_eq(d, k[i])) fail("entry of another combination returned for " + k[i].name);
        if ((int)d.range.size() != energy_table.size() || (int)d.range_straggling.size() != energy_table.size() || (int)d.angular_variance.size() != energy_table.size()) {
            fail("incomplete tables for " + k[i].name);
            return;
        }
        if (tables(d) != ref[i]) fail("tables of " + k[i].name + " differ from freshly calculated ones");
#ifndef NO_INTERNALS
        spline_type r = get_range_spline(d);
        spline_type s = get_range_straggling_spline(d);
        spline_type a = get_angular_variance_spline(d);
        for (int n : {0, 1, 77, 300, 598, 599}) {
            double e = energy_table(n);
            if (!mc::close(r(e), d.range[n], 1e-12) || !mc::close(s(e), d.range_straggling[n], 1e-12) || !mc::close(a(e), d.angular_variance[n], 1e-12))
                fail("interpolator of " + k[i].name + " does not belong to its table");
        }
        // between the table points, where a stale interpolation over the right table would show
        const Interpolator R(energy_table, d.range), S(energy_table, d.range_straggling), A(energy_table, d.angular_variance);
        for (int n : {0, 1, 77, 300, 450, 598}) {
            double e = 0.5 * (energy_table(n) + energy_table(n + 1));
            if (!mc::close(r(e), R(e), 1e-9) || !mc::close(s(e), S(e), 1e-9) || !mc::close(a(e), A(e), 1e-9) || !mc::close(r.derivative(e), R.derivative(e), 1e-9) || !mc::close(s.derivative(e), S.derivative(e), 1e-9) || !mc::close(a.derivative(e), A.derivative(e), 1e-9))
                fail("interpolator of " + k[i].name + " is not that of its table");
        }
#endif
    }
    // observe everything which must not have moved
    void settle(int inserted, const DataPoint *d) {
        if (_storage.GetN() > cap) fail(mc::fmt("cache holds %d entries, capacity is %d", _storage.GetN(), cap));
        if (inserted >= 0) {
            for (auto &e : live) e.second.age++;
            live[inserted] = {d, d ? d->range.data() : nullptr, 0};
        }
        for (auto it = live.begin(); it != live.end();) {
            int s = slot_of(it->first);
            if (s < 0) {
                if (it->second.age < cap) fail(mc::fmt("%s was dropped after %d insertions", k[it->first].name.c_str(), it->second.age));
                it = live.erase(it);
                continue;
            }
            const DataPoint &e = _storage.Get((unsigned)s);
            if (!it->second.at) it->second.at = &e, it->second.mem = e.range.data();
            if (&e != it->second.at || e.range.data() != it->second.mem) fail(k[it->first].name + " moved or was stored again");
            if (tables(e) != ref[it->first]) fail("stored tables of " + k[it->first].name + " changed");
            ++it;
        }
        uint64_t h = mc::mix(live.size(), 5);
        for (auto &e : live) h = mc::mix(mc::mix(h, e.first), e.second.age);
        c.state(h);
        c.t();
    }
    void get(int i, bool viaAdd) {
        hist += mc::fmt(" %s%d", viaAdd ? "add" : "get", i);
        bool had = slot_of(i) >= 0;
        if (!had && live.count(i)) fail("lost " + k[i].name);
        if (viaAdd) {
            _storage.Add(k[i].p, k[i].m, k[i].c);
            if (slot_of(i) < 0) fail("insertion of " + k[i].name + " stored nothing");
            settle(had ? -1 : i, nullptr);
            int s = slot_of(i);
            if (s >= 0) ready(_storage.Get((unsigned)s), i);
            return;
        }
        DataPoint &d = _storage.Get(k[i].p, k[i].m, k[i].c);
        ready(d, i);
        if (had && live.count(i) && (&d != live[i].at)) fail("repeated request of " + k[i].name + " gave another entry");
        settle(had ? -1 : i, &d);
        const DataPoint &e = get_data(k[i].p, k[i].m, k[i].c);
        if (&e != &d) fail("second request of " + k[i].name + " gave another entry");
        if (slot_of(i) < 0) fail(k[i].name + " is not in the cache after the request");
    }
    void reset() {
        hist += " clear";
        _storage.Reset();
        live.clear();
        for (size_t i = 0; i < k.size(); i++)
            if (slot_of(i) >= 0) fail(k[i].name + " survived clearing");
        if (_storage.GetN() > cap) fail("capacity grew by clearing");
        c.state(1);
        c.t();
    }
};

int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<Combo> all = combos(), ks;
    const int cap = max_storage_data;
    std::vector<mc::Job> jobs;
    auto addref = [&](std::vector<Combo> ks, uint64_t *ref) {
        for (size_t i = 0; i < ks.size(); i++)
            jobs.push_back({mc::fmt("reference/%zu", i), [=](mc::Ctx &c) {
#ifndef NO_INTERNALS
                ref[i] = tables(calculate_DataPoint(ks[i].p, ks[i].m, ks[i].c));
#else
                ref[i] = tables(get_data(ks[i].p, ks[i].m, ks[i].c));
#endif
                c.t();
            }, 0});
    };
#ifdef CATIMA_MC_STORAGE
    // all words of length n over get_i, add_i (first two combinations), clear
    for (int i : {0, 21, 5, 19, 9, 12})
        if ((int)ks.size() < cap + 2) ks.push_back(all[i]);
    uint64_t *ref = mc::shared<uint64_t>(16);
    addref(ks, ref);
    const int k = ks.size(), K = k + 2 + 1, n = o.thorough && cap <= 2 ? 5 : 4;
    for (int a = 0; a < K; a++)
        for (int b = 0; b < K; b++)
            jobs.push_back({mc::fmt("word/%d,%d", a, b), [=](mc::Ctx &c) {
                long N = 1;
                for (int i = 2; i < n; i++) N *= K;
                for (long x = 0; x < N; x++) {
                    for (int full = 0; full < 2; full++) { // from the empty cache and from a full one
                        if (full && (!o.thorough || cap <= 2) && x % 3) continue;
                        Sys s(c, ks, ref);
                        s.reset();
                        s.hist = "";
                        if (full)
                            for (int i = 0; i < cap + 1; i++) s.get((i + 1) % k, false);
                        long y = x;
                        for (int i = 0; i < n; i++) {
                            int w = i == 0 ? a : i == 1 ? b : y % K;
                            if (i >= 2) y /= K;
                            if (w < k) s.get(w, false);
                            else if (w < k + 2) s.get(w - k, true);
                            else s.reset();
                        }
                        c.trace();
                    }
                }
                c.sample(mc::fmt("all words starting with %d,%d", a, b));
            }, 1});
#else
    // shipped capacity: every prefix of long insertion histories, with repeated requests of earlier ones
    for (auto &x : all)
        if (x.name != "density") ks.push_back(x);
    for (int z = 1; z <= 108 && (int)ks.size() < 2 * cap + 10; z++) ks.push_back({mc::fmt("Z%d", z), proj(z), elem(1 + (z * 7) % 92).thickness(0.05), cfg(1 + z % 2)});
    uint64_t *ref = mc::shared<uint64_t>(400);
    addref(ks, ref);
    const int k = ks.size();
    for (int h = 0; h < 8; h++)
        jobs.push_back({mc::fmt("long/%d", h), [=](mc::Ctx &c) {
            Sys s(c, ks, ref);
            s.reset();
            for (int i = 0; i < 2 * cap + 6; i++) {
                s.hist = mc::fmt("long history %d, step %d", h, i);
                s.get((i * (h & 1 ? k - 1 : 1) + h * 11 + k) % k, false);
                if (h >= 2) // touch an older one: h further back
                    for (int b : {1, h * 7, cap - 2, cap - 1})
                        if (b <= i) s.get(((i - b) * (h & 1 ? k - 1 : 1) + h * 11 + k) % k, h == 5);
                if (h == 7 && i == cap + 3) s.reset();
                c.trace();
            }
        }, 1});
#endif
    return mc::run(o, jobs);
}
