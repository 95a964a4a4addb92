// C24: the command-line calculator, driven with every input file of a bounded grammar
#include "common.hpp"
#include <fstream>
struct Run { int status; std::string out; };
static Run cli(const std::string &exe, const std::string &arg) {
    Run r;
    FILE *p = popen(("timeout 60 " + exe + " " + arg + " 2>&1").c_str(), "r");
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, p)) > 0) r.out.append(b, n);
    r.status = pclose(p);
    return r;
}
static Run cli_file(const std::string &exe, const std::string &text) {
    std::string f = mc::fmt("in-%d.json", getpid());
    { std::ofstream o(f); o << text; }
    Run r = cli(exe, f);
    unlink(f.c_str());
    return r;
}
// "name = number" pairs in order of appearance, starting at the first energy
typedef std::vector<std::pair<std::string, double>> KV;
static KV pairs(const std::string &s) {
    KV r;
    size_t p = s.find("T = ");
    while (p != std::string::npos && (p = s.find(" = ", p)) != std::string::npos) {
        size_t a = p;
        while (a > 0 && !isspace((unsigned char)s[a - 1])) a--;
        char *e;
        double v = strtod(s.c_str() + p + 3, &e);
        if (e != s.c_str() + p + 3) r.push_back({s.substr(a, p - a), v});
        p += 3;
    }
    return r;
}
struct EForm { std::string json; std::vector<double> e; };
struct MForm { std::string json; std::vector<Material> m; };
static Material el(double a, int z, double rho, double th, double I = 0) {
    Material m(a > 0 ? a : nat(z), z, rho > 0 ? rho : frozen::density[z], th);
    if (I > 0) m.I(I);
    return m;
}
static Material cp(int id, double rho, double th) {
    Material m = comp(id - 201);
    if (rho > 0) m.density(rho);
    m.thickness(th);
    return m;
}
static void valid(mc::Ctx &c, const std::string &exe, double A, double Z, const EForm &e, const MForm &m, const std::string &extra = "") {
    std::string js = mc::fmt("{\"projectile\":[%.10g,%.10g],\n \"energy\":%s,\n \"material\":%s%s}", A, Z, e.json.c_str(), m.json.c_str(), extra.c_str());
    Run r = cli_file(exe, js);
    c.t();
    c.trace();
    if (WIFSIGNALED(r.status) || WEXITSTATUS(r.status) > 123) { c.fail(js + ": crashed"); return; }
    KV k = pairs(r.out);
    size_t i = 0;
    bool bad = false;
    uint64_t h = 1;
    auto want = [&](const char *n, double v) {
        if (bad) return;
        if (i >= k.size()) { c.fail(mc::fmt("%s: output ends before %s", js.c_str(), n)); bad = true; return; }
        if (k[i].first != n || !mc::close(k[i].second, v, 2e-5, 1e-30)) {
            c.fail(mc::fmt("%s: printed %s = %g, expected %s = %g", js.c_str(), k[i].first.c_str(), k[i].second, n, v));
            bad = true;
        }
        h = mc::hd(h, k[i].second);
        i++;
    };
    Layers L;
    for (auto &x : m.m) L.add(x);
    for (double T : e.e) {
        Projectile p(A, Z, 0, T);
        MultiResult res = calculate(p, L);
        want("T", T);
        for (auto &x : res.results) {
            want("Ein", x.Ein);
            want("Eout", x.Eout);
            want("sigma_E", x.sigma_E);
            want("Eloss", x.Eloss);
            want("range", x.range);
            want("sigma_r", x.sigma_r);
            want("sigma_a", x.sigma_a);
            want("dEdx(Ein)", x.dEdxi);
            want("TOF", x.tof);
        }
        const Result &t = res.total_result;
        want("Eout", t.Eout);
        want("Beta", ref::beta(t.Eout));
        want("Gamma", ref::gamma(t.Eout));
        want("P", ref::mom(t.Eout, A));
        want("Eloss", t.Eloss);
        want("sigma_E", t.sigma_E);
        want("sigma_a", t.sigma_a);
        want("TOF", t.tof);
    }
    if (!bad && i != k.size()) c.fail(mc::fmt("%s: %zu more values printed", js.c_str(), k.size() - i));
    c.state(h);
}
static void invalid(mc::Ctx &c, const std::string &exe, const std::string &js) {
    Run r = cli_file(exe, js);
    c.t();
    c.trace();
    if (WIFSIGNALED(r.status) || WEXITSTATUS(r.status) > 123) c.fail("'" + js + "': crashed");
    if (r.out.find("Eout") != std::string::npos) c.fail("'" + js + "': malformed, but results are printed");
    if (r.out.empty()) c.fail("'" + js + "': malformed, but no message");
    c.state(std::hash<std::string>()(js));
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::string exe = o.arg;
    std::vector<mc::Job> jobs;
    static const double PR[][2] = {{12, 6}, {11.99671, 6}, {238.05, 92}, {1.00794, 1}, {39.96, 18}};
    std::vector<EForm> E = {
        {"300", {300}}, {"300.5", {300.5}}, {"\"500.0\"", {500}}, {"\"95\"", {95}}, {"\"100.75\"", {100.75}}, {"\"0.5\"", {0.5}}, {"\"1.5e3\"", {1500}}, {"1e3", {1000}}, {"[100]", {100}}, {"[100,200,500,1000]", {100, 200, 500, 1000}}, {"[500,20.5,500]", {500, 20.5, 500}},
        {"{\"min\":100,\"max\":1000,\"step\":100}", {100, 200, 300, 400, 500, 600, 700, 800, 900, 1000}},
        {"{\"min\":100,\"max\":200,\"step\":30}", {100, 130, 160, 190}},
        {"{\"min\":10,\"max\":11,\"step\":0.1}", {10, 10.1, 10.2, 10.3, 10.4, 10.5, 10.6, 10.7, 10.8, 10.9, 11}},
        {"{\"min\":0.1,\"max\":0.7,\"step\":0.1}", {0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7}},
        {"{\"min\":100,\"max\":1000,\"num\":2}", {100, 1000}}, {"{\"min\":100,\"max\":1000,\"num\":10}", {100, 200, 300, 400, 500, 600, 700, 800, 900, 1000}}, {"{\"max\":400,\"num\":4,\"min\":100}", {100, 200, 300, 400}}, {"{\"min\":50.5,\"max\":51.5,\"num\":3}", {50.5, 51, 51.5}}};
    std::vector<std::pair<std::string, Material>> M; // single layers
    // element: A x density x thickness keys
    for (int a = 0; a < 3; a++)
        for (int d = 0; d < 3; d++)
            for (int I = 0; I < 2; I++) {
                std::string s = "{\"Z\":6";
                if (a == 1) s += ",\"A\":0";
                if (a == 2) s += ",\"A\":12.5";
                if (d == 1) s += ",\"density\":0";
                if (d == 2) s += ",\"density\":1.8";
                if (I) s += ",\"Ipot\":95.5";
                s += ",\"thickness\":0.7}";
                M.push_back({s, el(a == 2 ? 12.5 : 0, 6, d == 2 ? 1.8 : 0, 0.7, I ? 95.5 : 0)});
            }
    M.push_back({"{\"thickness\":0.05,\"density\":7.8,\"Z\":26,\"A\":55.845}", el(55.845, 26, 7.8, 0.05)});
    M.push_back({"{\"A\":208,\"Z\":82,\"thickness\":2}", el(208, 82, 0, 2)});
    M.push_back({"{\"Z\":4}", el(0, 4, 0, 0)});
    M.push_back({"{\"Z\":206,\"thickness\":1.5}", cp(206, 0, 1.5)});
    M.push_back({"{\"Z\":206,\"thickness\":1.5,\"density\":0}", cp(206, 0, 1.5)});
    M.push_back({"{\"Z\":206,\"thickness\":1.5,\"density\":0.9}", cp(206, 0.9, 1.5)});
    M.push_back({"{\"Z\":213,\"density\":1.3,\"thickness\":0.02}", cp(213, 1.3, 0.02)});
    M.push_back({"{\"Z\":202,\"thickness\":0.1,\"A\":0}", cp(202, 0, 0.1)});
    std::vector<MForm> S;
    for (auto &m : M) S.push_back({m.first, {m.second}});
    for (size_t i = 0; i < M.size(); i += 3) S.push_back({"[" + M[i].first + "]", {M[i].second}});
    // stacks of two and three
    std::vector<int> pick = {0, 5, 17, 18, 19, 21, 23, 25};
    for (int i : pick)
        for (int j : pick) S.push_back({"[" + M[i].first + "," + M[j].first + "]", {M[i].second, M[j].second}});
    for (int i : {17, 18, 23})
        for (int j : {5, 24, 25})
            for (int l : {0, 19, 21}) S.push_back({"[" + M[i].first + "," + M[j].first + ",\n" + M[l].first + "]", {M[i].second, M[j].second, M[l].second}});
    for (size_t e = 0; e < E.size(); e++)
        for (int p = 0; p < 5; p++)
            jobs.push_back({mc::fmt("valid/%zu/%d", e, p), [=](mc::Ctx &c) {
                for (size_t s = 0; s < S.size(); s++) {
                    if (!o.thorough && (s + e + p) % 5) continue;
                    valid(c, exe, PR[p][0], PR[p][1], E[e], S[s], (s + e) % 4 == 0 ? ",\n\"comment\":\"x\"" : "");
                }
                c.sample(E[e].json);
            }});
    for (int b = 0; b < 8; b++)
        jobs.push_back({mc::fmt("targets/%d", b), [=](mc::Ctx &c) {
            for (int k = b; k < NTARGET; k += 8) {
                int id = k < 98 ? k + 1 : frozen::comp[k - 98].id;
                Material m = target(k);
                m.thickness(0.05);
                valid(c, exe, 39.96, 18, E[10], {mc::fmt("{\"Z\":%d,\"thickness\":0.05}", id), {m}});
                m.density(0.5);
                m.thickness(0.05);
                valid(c, exe, 39.96, 18, E[0], {mc::fmt("[{\"Z\":%d,\"thickness\":0.05,\"density\":0.5}]", id), {m}});
            }
            for (int z = 1 + b; z <= 108; z += 8) {
                Material m = el(0, 6, 0, 0.1);
                valid(c, exe, nat(z), z, E[10], {"{\"Z\":6,\"thickness\":0.1}", {m}});
            }
        }});
    jobs.push_back({"malformed", [=](mc::Ctx &c) {
        const std::string P = "\"projectile\":[12,6]", EN = "\"energy\":300", MA = "\"material\":{\"Z\":6,\"thickness\":0.1}";
        auto doc = [](const std::string &a, const std::string &b, const std::string &d) {
            std::string s = "{";
            for (auto &x : {a, b, d})
                if (!x.empty()) s += (s.size() > 1 ? "," : "") + x;
            return s + "}";
        };
        for (const char *p : {"", "\"projectile\":12", "\"projectile\":\"12C\"", "\"projectile\":[]", "\"projectile\":[12]", "\"projectile\":[\"12\",\"6\"]", "\"projectile\":[12,\"6\"]", "\"projectile\":{\"A\":12,\"Z\":6}", "\"projectile\":null", "\"projectile\":[null,6]", "\"projectile\":[[12],6]", "\"Projectile\":[12,6]"}) invalid(c, exe, doc(p, EN, MA));
        for (const char *e : {"", "\"energy\":\"abc\"", "\"energy\":\"\"", "\"energy\":[]", "\"energy\":{}", "\"energy\":null", "\"energy\":true", "\"energy\":{\"min\":100}", "\"energy\":{\"min\":100,\"max\":200}", "\"energy\":{\"max\":200,\"step\":10}", "\"energy\":{\"min\":100,\"step\":10}", "\"energy\":{\"min\":\"a\",\"max\":200,\"step\":10}", "\"energy\":{\"min\":100,\"max\":\"b\",\"num\":10}", "\"energy\":{\"min\":100,\"max\":200,\"num\":\"c\"}", "\"energy\":{\"min\":100,\"max\":200,\"step\":\"c\"}", "\"energy\":{\"min\":100,\"max\":200,\"num\":0}", "\"energy\":{\"min\":100,\"max\":200,\"step\":0}", "\"energy\":{\"min\":100,\"max\":200,\"step\":-5}", "\"energy\":{\"min\":200,\"max\":100,\"step\":10}", "\"energy\":{\"min\":200,\"max\":100,\"num\":5}", "\"energy\":{\"min\":100,\"max\":200,\"num\":-3}"}) invalid(c, exe, doc(P, e, MA));
        for (const char *m : {"", "\"material\":[]", "\"material\":6", "\"material\":\"C\"", "\"material\":null", "\"material\":{}", "\"material\":{\"A\":12,\"thickness\":1}", "\"material\":{\"Z\":0,\"thickness\":1}", "\"material\":{\"Z\":-6,\"thickness\":1}", "\"material\":{\"Z\":\"6\",\"thickness\":1}", "\"material\":{\"Z\":6,\"thickness\":\"1\"}", "\"material\":{\"Z\":6,\"density\":\"1\",\"thickness\":1}", "\"material\":{\"Z\":6,\"A\":\"12\",\"thickness\":1}", "\"material\":{\"Z\":null,\"thickness\":1}", "\"material\":[6]", "\"material\":[{\"Z\":6,\"thickness\":0.1},7]", "\"material\":[{\"Z\":6,\"thickness\":0.1},{\"A\":7}]", "\"material\":[{\"Z\":6,\"thickness\":0.1},{\"Z\":-1}]", "\"material\":[[{\"Z\":6,\"thickness\":0.1}]]", "\"material\":{\"Z\":[6],\"thickness\":0.1}", "\"material\":{\"Z\":6,\"thickness\":{}}"}) invalid(c, exe, doc(P, EN, m));
        std::string good = doc(P, EN, MA);
        for (size_t i = 0; i < good.size(); i++) invalid(c, exe, good.substr(0, i)); // every truncation
        for (const char *t : {"[]", "null", "12", "\"text\"", "{}", "not json", "{,}", "[1,2,3]", "{\"projectile\"}"}) invalid(c, exe, t);
        Run r = cli(exe, "no-such-file.json");
        c.t();
        if (WIFSIGNALED(r.status) || r.out.find("Eout") != std::string::npos || r.out.empty()) c.fail("missing input file not reported");
        r = cli(exe, "");
        if (WIFSIGNALED(r.status) || r.out.find("Eout") != std::string::npos || r.out.empty()) c.fail("no usage message without arguments");
        r = cli(exe, ".");
        if (WIFSIGNALED(r.status) || WEXITSTATUS(r.status) > 123 || r.out.find("Eout") != std::string::npos) c.fail("directory as input file");
        c.sample(good);
    }});
    return mc::run(o, jobs);
}
