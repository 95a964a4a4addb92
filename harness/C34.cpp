// C34: headers can be used alone, together, in any order, in several files and from C
#include "common.hpp"
#include "catima/cwrapper.h"
#include <unistd.h>
#include <dirent.h>
static const char *const HEADERS[] = {"abundance_database", "calculations", "catima", "config", "constants", "convert", "cwrapper", "gkq_integrator", "glq_integrator", "integrator", "material_database", "nucdata", "reactions", "spline", "srim", "storage", "structures"};
static const std::string INC = std::string(" -I ") + BUILD_INC + " -I " + REPO_INC + " ";
static uint64_t hs(uint64_t h, const char *s) {
    while (*s) h = mc::mix(h, *s++);
    return h;
}
static bool exists(const char *h) { return access((std::string(REPO_INC) + "/catima/" + h + ".h").c_str(), R_OK) == 0; }
// scratch directory which removes what was put into it
struct Dir {
    char path[64] = "/tmp/verif-c34-XXXXXX";
    std::vector<std::string> files;
    Dir() { if (!mkdtemp(path)) { perror("mkdtemp"); exit(3); } }
    ~Dir() {
        for (auto &f : files) unlink(f.c_str());
        rmdir(path);
    }
    std::string name(const std::string &n) {
        files.push_back(std::string(path) + "/" + n);
        return files.back();
    }
    std::string put(const std::string &n, const std::string &text) {
        std::string f = name(n);
        FILE *o = fopen(f.c_str(), "w");
        if (!o || fputs(text.c_str(), o) < 0 || fclose(o)) { perror("write"); exit(3); }
        return f;
    }
};
static int sh(const std::string &cmd, std::string *out = nullptr) {
    FILE *f = popen((cmd + " 2>&1").c_str(), "r");
    std::string s;
    char b[4096];
    while (fgets(b, sizeof b, f)) s += b;
    int rc = pclose(f);
    if (out) *out = s;
    return rc;
}
static std::string first_error(const std::string &s) {
    size_t i = s.find("multiple definition");
    if (i == std::string::npos) i = s.find("undefined reference");
    if (i == std::string::npos) i = s.find("error:");
    return i == std::string::npos ? s.substr(0, 200) : s.substr(i, s.find('\n', i) - i);
}
static std::string objects() {
    std::string dir = std::string(BUILD_INC) + "/..", r;
    DIR *d = opendir(dir.c_str());
    while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() > 2 && n.substr(n.size() - 2) == ".o") r += " " + dir + "/" + n;
    }
    closedir(d);
    return r;
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    for (const char *a : HEADERS) {
        if (!exists(a)) continue;
        jobs.push_back({mc::fmt("first/%s", a), [=](mc::Ctx &c) {
            Dir d;
            for (const char *b : HEADERS) {
                if (!exists(b)) continue;
                std::string f = d.put(mc::fmt("%s-%s.cpp", a, b), mc::fmt("#include \"catima/%s.h\"\n#include \"catima/%s.h\"\n#include \"catima/%s.h\"\nint f() { return 0; }\n", a, b, a)), out;
                for (int std_ : {17, 20}) {
                    if (std_ == 20 && !o.thorough && a != b) continue;
                    c.t();
                    c.trace();
                    if (sh(mc::fmt("g++ -std=c++%d -w -fsyntax-only", std_) + INC + f, &out)) c.fail(mc::fmt("%s.h, %s.h and %s.h again do not compile as C++%d: %s", a, b, a, std_, first_error(out).c_str()));
                    c.state(hs(hs(std_, a), b));
                }
            }
        }});
    }
    jobs.push_back({"several files", [=](mc::Ctx &c) {
        Dir d;
        std::string objs, all, out;
        for (const char *h : HEADERS) {
            if (!exists(h)) continue;
            std::string n = h, f = d.put(n + ".cpp", "#include \"catima/" + n + ".h\"\nint f_" + n + "() { return 1; }\n"), ob = d.name(n + ".o");
            c.t();
            if (sh("g++ -std=c++17 -w -c" + INC + f + " -o " + ob, &out)) c.fail(mc::fmt("%s.h alone does not compile: %s", h, first_error(out).c_str()));
            objs += " " + ob;
            all += "#include \"catima/" + n + ".h\"\n";
        }
        std::string m = d.put("main.cpp", all + "#include <cstdio>\nint main() { catima::Projectile p(12, 6, 6, 100); catima::Material m(12, 6, 2.0, 0.3); printf(\"%.17g\\n\", catima::calculate(p, m).Eout); }\n"), x = d.name("x");
        c.t();
        c.trace();
        if (sh("g++ -std=c++17 -w" + INC + m + objs + objects() + " -o " + x, &out)) {
            c.fail("files which include the headers do not link into one program: " + first_error(out));
            return;
        }
        sh(x, &out);
        c.eq(atof(out.c_str()), calculate(Projectile(12, 6, 6, 100), Material(12, 6, 2.0, 0.3)).Eout, 1e-12, 0, "exit energy calculated by this program");
        c.state(hs(1, out.c_str()));
    }});
    jobs.push_back({"C", [=](mc::Ctx &c) {
        Dir d;
        std::string text = R"(#include "catima/cwrapper.h"
#include <stdio.h>
int main(void) {
    int i;
    for (i = 0; i <= 5; i++) {
        CatimaResult r;
        catima_defaults.z_effective = (char)i;
        r = catima_calculate(39.948, 18, 95, 12.0107, 6, 0.2, 2.0);
        printf("%.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g\n", r.Ein, r.Eout, r.Eloss, r.range, r.dEdxi, r.dEdxo, r.sigma_E, r.sigma_a, r.sigma_r, r.tof);
        printf("%.17g %.17g %.17g %.17g %.17g %.17g %.17g\n", catima_Eout(39.948, 18, 95, 12.0107, 6, 0.2, 2.0), catima_range(39.948, 18, 95, 12.0107, 6), catima_range_straggling(39.948, 18, 95, 12.0107, 6),
            catima_angular_straggling_from_E(39.948, 18, 95, 70, 12.0107, 6), catima_energy_straggling_from_E(39.948, 18, 95, 70, 12.0107, 6), catima_nonreaction_rate(39.948, 18, 95, 12.0107, 6, 0.2), atomic_weight(i + 1));
    }
    return 0;
}
)", out;
        std::string f = d.put("c.c", text), ob = d.name("c.o"), x = d.name("c");
        for (const char *s : {"c99", "c11", "gnu17"}) {
            c.t();
            c.trace();
            if (sh(mc::fmt("gcc -std=%s -w -c", s) + INC + f + " -o " + ob, &out)) c.fail(mc::fmt("the C interface does not compile as %s: %s", s, first_error(out).c_str()));
        }
        if (sh("g++ " + ob + objects() + " -o " + x, &out)) {
            c.fail("a C program does not link: " + first_error(out));
            return;
        }
        c.t();
        sh(x, &out);
        const char *s = out.c_str();
        for (int i = 0; i <= 5; i++) {
            catima_defaults.z_effective = i;
            CatimaResult r = catima_calculate(39.948, 18, 95, 12.0107, 6, 0.2, 2.0);
            for (double e : {r.Ein, r.Eout, r.Eloss, r.range, r.dEdxi, r.dEdxo, r.sigma_E, r.sigma_a, r.sigma_r, r.tof, catima_Eout(39.948, 18, 95, 12.0107, 6, 0.2, 2.0), catima_range(39.948, 18, 95, 12.0107, 6), catima_range_straggling(39.948, 18, 95, 12.0107, 6), catima_angular_straggling_from_E(39.948, 18, 95, 70, 12.0107, 6), catima_energy_straggling_from_E(39.948, 18, 95, 70, 12.0107, 6), catima_nonreaction_rate(39.948, 18, 95, 12.0107, 6, 0.2), atomic_weight(i + 1)}) {
                char *end;
                double v = strtod(s, &end);
                c.t();
                c.trace();
                if (end == s) c.fail("the C program printed too few numbers");
                s = end;
                c.eq(v, e, 1e-12, 0, "number printed by the C program with model %d", i);
                c.state(mc::hd(i, v));
            }
        }
    }});
    return mc::run(o, jobs);
}
