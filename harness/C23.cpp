#include <algorithm>
// C23: MOCADI export
#include "common.hpp"
#include "catima/convert.h"
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
static std::string slurp(const std::string &f) {
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
struct Mat { double a, z, rho, len; };
struct Back { double T, A, Z, sx, ax, sy, ay; std::vector<Mat> m; bool ok; std::string why; };
// numbers separated by commas, blanks and newlines
static bool nums(const char *&s, double *v, int n) {
    for (int i = 0; i < n; i++) {
        while (*s == ' ' || *s == ',' || *s == '\n' || *s == '\t' || *s == '\r') s++;
        char *e;
        v[i] = strtod(s, &e);
        if (e == s) return false;
        s = e;
    }
    return true;
}
static Back parse_back(const std::string &t) {
    Back b;
    b.ok = false;
    size_t p = t.find("BEAM");
    if (p == std::string::npos) { b.why = "no beam"; return b; }
    const char *s = t.c_str() + p + 4;
    double v[32];
    // particles; energy, 0, mass, charge; shape; x, a, 0, 0, 0; shape; y, b, 0, 0, 0; shape; 5 numbers
    if (!nums(s, v, 1 + 4 + 1 + 5 + 1 + 5 + 1 + 5)) { b.why = "beam data"; return b; }
    b.T = v[1];
    b.A = v[3];
    b.Z = v[4];
    b.sx = v[6];
    b.ax = v[7];
    b.sy = v[12];
    b.ay = v[13];
    size_t last = p;
    for (p = t.find("MATTER", p); p != std::string::npos; p = t.find("MATTER", p + 1)) {
        const char *q = t.c_str() + p + 6;
        if (!nums(q, v, 5)) { b.why = "matter data"; return b; }
        b.m.push_back({v[0], v[1], v[2], v[4]});
        last = p;
    }
    if (t.find("END", last) == std::string::npos) { b.why = "no end"; return b; }
    b.ok = true;
    return b;
}
static bool equivalent(const Material &a, const Material &b) {
    if (a.ncomponents() != b.ncomponents()) return false;
    std::map<std::pair<int, long>, double> x, y;
    for (int i = 0; i < a.ncomponents(); i++) x[{a.get_element(i).Z, lround(1e4 * a.get_element(i).A)}] += a.weight_fraction(i);
    for (int i = 0; i < b.ncomponents(); i++) y[{b.get_element(i).Z, lround(1e4 * b.get_element(i).A)}] += b.weight_fraction(i);
    if (x.size() != y.size()) return false;
    for (auto &e : x)
        if (!y.count(e.first) || fabs(y[e.first] - e.second) > 1e-6) return false;
    return true;
}
static bool predefined(const Material &m) {
    for (int k = 0; k < NCOMP; k++)
        if (equivalent(comp(k), m) && fabs(frozen::comp[k].density - m.density()) < 1e-9) return true;
    return false;
}
static void check(mc::Ctx &c, const Projectile &p, const Layers &L, const Phasespace &x, const Phasespace &y, const std::string &w) {
    std::string f = mc::fmt("export-%d", getpid());
    bool r = save_mocadi(f.c_str(), p, L, x, y);
    c.t();
    c.trace();
    if (!r) { c.fail(w + ": export reports failure"); return; }
    std::string t = slurp(f);
    unlink(f.c_str());
    Back b = parse_back(t);
    if (!b.ok) { c.fail(w + ": cannot be read back: " + b.why); return; }
    c.state(std::hash<std::string>()(t));
    const double A = 1e-6;
    c.eq(b.T, p.T, 1e-9, A, "%s: energy", w.c_str());
    c.eq(b.A, p.A, 1e-9, A, "%s: mass", w.c_str());
    c.eq(b.Z, p.Z, 1e-9, A, "%s: charge", w.c_str());
    c.eq(b.sx, x.sigma_x, 1e-9, A, "%s: beam size x", w.c_str());
    c.eq(b.ax, 1000 * x.sigma_a, 1e-9, A, "%s: beam angle x", w.c_str());
    c.eq(b.sy, y.sigma_x, 1e-9, A, "%s: beam size y", w.c_str());
    c.eq(b.ay, 1000 * y.sigma_a, 1e-9, A, "%s: beam angle y", w.c_str());
    if ((int)b.m.size() != L.num()) { c.fail(mc::fmt("%s: %zu matter blocks for %d layers", w.c_str(), b.m.size(), L.num())); return; }
    for (int i = 0; i < L.num(); i++) {
        const Material &m = L.get_materials()[i];
        c.eq(b.m[i].rho, 1000 * m.density(), 1e-9, A, "%s: density of layer %d", w.c_str(), i);
        c.eq(b.m[i].len, m.thickness() / m.density(), 1e-9, A, "%s: length of layer %d", w.c_str(), i);
        int z = lround(b.m[i].z);
        if (m.ncomponents() == 1 && z < 200) {
            c.eq(b.m[i].a, m.get_element(0).A, 1e-9, A, "%s: mass of layer %d", w.c_str(), i);
            if (z != m.get_element(0).Z) c.fail(mc::fmt("%s: layer %d exported as element %d", w.c_str(), i, z));
        } else if (z == 0) {
            if (predefined(m)) c.fail(mc::fmt("%s: predefined compound in layer %d not recognised", w.c_str(), i));
        } else if (z < 201 || z >= 201 + NCOMP || !equivalent(comp(z - 201), m)) c.fail(mc::fmt("%s: layer %d exported as id %d, another material", w.c_str(), i, z));
    }
}
static const int NM = 9;
static Material menu(int i) {
    Material m;
    switch (i) {
    case 0: m = elem(6); m.thickness(0.5); break;
    case 1: m = Material(12.5, 6, 1.7, 0.03); break;
    case 2: m = Material(0, 82, 11.35, 2.5); break;
    case 3: m = get_material(206); m.thickness(1.25); break;
    case 4: m = get_material(213); m.thickness_cm(0.0123); break;
    case 5: m = get_material(205); m.thickness(0.2); break;
    case 6: m = Material({{0, 1, 3}, {0, 6, 2}, {0, 17, 5}}, 1.9); m.thickness(0.4); break; // custom
    case 7: m = get_material(202); m.thickness_cm(100); break;
    default: m = get_material(349); m.thickness(3); break;
    }
    return m;
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    Phasespace X, Y;
    X.sigma_x = 0.25;
    X.sigma_a = 0.0035;
    Y.sigma_x = 1.5;
    Y.sigma_a = 0.00725;
    const int n = o.thorough ? 5 : 4;
    jobs.push_back({"stack/empty", [=](mc::Ctx &c) { check(c, proj(18, 1, 300), Layers(), X, Y, "no layers"); }});
    for (int a = 0; a < NM; a++)
        jobs.push_back({mc::fmt("stack/%d", a), [=](mc::Ctx &c) {
            for (int len = 1; len <= n; len++) {
                int tot = 1;
                for (int i = 1; i < len; i++) tot *= NM;
                for (int x = 0; x < tot; x++) {
                    Layers L;
                    L.add(menu(a));
                    std::string w = mc::fmt("layers %d", a);
                    for (int i = 1, y = x; i < len; i++, y /= NM) L.add(menu(y % NM)), w += mc::fmt(" %d", y % NM);
                    check(c, proj(18, 1.01, 300.125), L, X, Y, w);
                }
            }
            c.sample(mc::fmt("layer sequences starting with menu entry %d", a));
        }});
    jobs.push_back({"beams", [=](mc::Ctx &c) {
        Layers L;
        L.add(menu(3));
        for (int z = 1; z <= 108; z++)
            for (double T : {0.001, 0.5, 95.25, 1000.0, 123456.75})
                for (int ps = 0; ps < 4; ps++) {
                    Phasespace x, y;
                    if (ps & 1) x = X;
                    if (ps & 2) y = Y;
                    check(c, proj(z, 1, T), L, x, y, mc::fmt("beam Z=%d at %g, phase space %d", z, T, ps));
                }
        Projectile q(238.05, 92, 80, 500);
        check(c, q, L, X, Y, "beam with charge state");
    }});
    for (int k = 0; k < NCOMP; k++)
        jobs.push_back({mc::fmt("compound/id%d", frozen::comp[k].id), [=](mc::Ctx &c) {
            for (double th : {0.01, 0.7, 12.0})
                for (int way = 0; way < 3; way++) {
                    Layers L;
                    Material m = way == 0 ? get_material(frozen::comp[k].id) : way == 1 ? comp(k) : get_compound((material)frozen::comp[k].id);
                    m.thickness(th);
                    L.add(m);
                    check(c, proj(6, 1, 100), L, X, Y, mc::fmt("compound id %d", frozen::comp[k].id));
                    // another density: the id of the same composition or none
                    m.density(m.density() * 1.1);
                    Layers M;
                    M.add(m);
                    check(c, proj(6, 1, 100), M, X, Y, mc::fmt("compound id %d with another density", frozen::comp[k].id));
                    // one component changed: must not be exported as any predefined compound
                    if (m.ncomponents() > 1) {
                        m.density(frozen::comp[k].density);
                        Material q;
                        for (int i = 0; i < m.ncomponents(); i++) q.add_element(m.get_element(i).A * (i == 0 && way == 1 ? 1.01 : 1), m.get_element(i).Z + (i == 1 && way == 2), m.get_element(i).stn * (i == 0 && way == 0 ? 1.05 : 1));
                        q.density(m.density()).thickness(th);
                        Layers Q;
                        Q.add(q);
                        check(c, proj(6, 1, 100), Q, X, Y, mc::fmt("variation of compound id %d", frozen::comp[k].id));
                        q.M(m.M()); // same molar mass set by hand
                        Layers Q2;
                        Q2.add(q);
                        check(c, proj(6, 1, 100), Q2, X, Y, mc::fmt("variation of compound id %d with its molar mass", frozen::comp[k].id));
                        // constituents dropped from or added at the end, with and without the molar mass set by hand
                        for (int change : {-1, 1, 2})
                            for (bool given : {false, true}) {
                                Material e;
                                for (int i = 0; i < m.ncomponents() + std::min(change, 0); i++) e.add_element(m.get_element(i).A, m.get_element(i).Z, m.get_element(i).stn);
                                for (int i = 0; i < change; i++) e.add_element(i ? 0 : m.get_element(0).A, i ? 79 : m.get_element(0).Z, way == 0 ? 1 : way == 1 ? 0.25 : 7);
                                e.density(m.density()).thickness(th);
                                if (given) e.M(m.M());
                                Layers E;
                                E.add(e);
                                check(c, proj(6, 1, 100), E, X, Y, mc::fmt("compound id %d with %d constituents more%s", frozen::comp[k].id, change, given ? " and its molar mass" : ""));
                            }
                    }
#ifndef NO_INTERNALS
                    int id = materialdb_id(way == 1 ? comp(k) : get_material(frozen::comp[k].id));
                    if (id < 201 || !equivalent(comp(id - 201), comp(k))) c.fail(mc::fmt("compound %d found as %d", frozen::comp[k].id, id));
#endif
                }
        }});
    for (int z = 1; z <= 98; z += 7)
        jobs.push_back({mc::fmt("element/%d", z), [=](mc::Ctx &c) {
            for (int y = z; y < z + 7 && y <= 98; y++)
                for (double rho : {frozen::density[y], 1e-4, 19.0}) {
                    Layers L;
                    L.add(Material(0, y, rho, 0.1));
                    check(c, proj(6, 1, 100), L, X, Y, mc::fmt("element %d of density %g", y, rho));
                    Material m(0, y, rho, 0.1);
#ifndef NO_INTERNALS
                    if (materialdb_id(m) && !equivalent(comp(materialdb_id(m) - 201), m)) c.fail(mc::fmt("element %d found as compound", y));
#endif
                }
        }});
    // faults: open
    jobs.push_back({"fault/open", [=](mc::Ctx &c) {
        Layers L;
        L.add(menu(0));
        mkdir("adir", 0700);
        for (const char *f : {"nodir/file", "adir", "", "adir/x/y"}) {
            c.t();
            c.trace();
            if (save_mocadi(f, proj(6, 1, 100), L, X, Y)) c.fail(mc::fmt("export to unusable path '%s' reports success", f));
            c.state(std::hash<std::string>()(f));
        }
        rmdir("adir");
        // overwriting a longer file leaves nothing behind
        { std::ofstream g("old"); for (int i = 0; i < 50000; i++) g << "MATTER\n1,1,1\n2,1\n"; }
        bool r = save_mocadi("old", proj(6, 1, 100), L, X, Y);
        Back b = parse_back(slurp("old"));
        if (!r || !b.ok || b.m.size() != 1) c.fail("export over an existing file leaves old content");
        unlink("old");
    }});
    // faults: the device accepts only the first n bytes, for every n
    for (int nl : {0, 1, 2, 3, 60, 90, 200})
        for (int part = 0; part < 8; part++)
        jobs.push_back({mc::fmt("fault/write/%d/%d", nl, part), [=](mc::Ctx &c) {
            Layers L;
            for (int i = 0; i < nl; i++) L.add(menu(i % NM));
            std::string f = mc::fmt("full-%d", getpid());
            if (!save_mocadi(f.c_str(), proj(6, 1, 100), L, X, Y)) { c.fail("export fails without fault"); return; }
            std::string all = slurp(f);
            unlink(f.c_str());
            signal(SIGXFSZ, SIG_IGN);
            long N = all.size();
            for (long k = part; k <= N + 8; k += 8) {
                if (!o.thorough && N > 3000 && k > 64 && k < N - 64 && k % 8192 > 64 && k % 8192 < 8128 && k % 4096 > 32 && (k / 8) % 16) continue;
                rlimit l = {(rlim_t)k, RLIM_INFINITY};
                setrlimit(RLIMIT_FSIZE, &l);
                bool r = save_mocadi(f.c_str(), proj(6, 1, 100), L, X, Y);
                rlimit u = {RLIM_INFINITY, RLIM_INFINITY};
                setrlimit(RLIMIT_FSIZE, &u);
                c.t();
                c.trace();
                std::string t = slurp(f);
                unlink(f.c_str());
                bool whole = t == all;
                if (r != whole) c.fail(mc::fmt("%d layers, %ld of %ld bytes accepted: reports %s, file %s", nl, k, N, r ? "success" : "failure", whole ? "complete" : "incomplete"));
                c.state(mc::mix(mc::mix(nl, k), r));
            }
        }});
    jobs.push_back({"fault/full", [=](mc::Ctx &c) {
        if (access("/dev/full", W_OK)) return;
        for (int nl : {0, 1, 5, 90, 500}) {
            Layers L;
            for (int i = 0; i < nl; i++) L.add(menu(i % NM));
            c.t();
            c.trace();
            if (save_mocadi("/dev/full", proj(6, 1, 100), L, X, Y)) c.fail(mc::fmt("export of %d layers to a full device reports success", nl));
            c.state(nl);
        }
    }});
#ifdef COMPOUNDS
    jobs.erase(std::remove_if(jobs.begin(), jobs.end(), [](const mc::Job &j) { return j.id.rfind("compound/", 0) != 0; }), jobs.end());
#endif
    return mc::run(o, jobs);
}
