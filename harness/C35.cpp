// C35: the generator of the precalculated table writes a table the library can use
// The series is replaced by marker functions (linear in the mass), the generator run in a scratch directory, the library
// rebuilt with the header it wrote, and every tabulated value read back through the library.
#include "common.hpp"
#include <unistd.h>
#include <dirent.h>
#include <glob.h>
#include <sys/stat.h>
static const std::string REPO_DIR = std::string(REPO_INC) + "/..";
struct Dir { // scratch directory which removes what was put into it
    char path[64] = "/tmp/verif-c35-XXXXXX";
    std::vector<std::string> files;
    Dir() { if (!mkdtemp(path)) { perror("mkdtemp"); exit(3); } }
    ~Dir() {
        for (auto i = files.rbegin(); i != files.rend(); ++i) remove(i->c_str());
        rmdir(path);
    }
    std::string name(const std::string &n) {
        files.push_back(std::string(path) + "/" + n);
        return files.back();
    }
    std::string put(const std::string &n, const std::string &text) {
        std::string f = name(n);
        FILE *o = fopen(f.c_str(), "w");
        if (!o || fputs(text.c_str(), o) < 0 || fclose(o)) { perror("write"); exit(3); }
        return f;
    }
};
static int sh(const std::string &cmd, std::string *out = nullptr) {
    FILE *f = popen((cmd + " 2>&1").c_str(), "r");
    std::string s;
    char b[4096];
    while (fgets(b, sizeof b, f)) s += b;
    int rc = pclose(f);
    if (out) *out = s;
    return rc;
}
static std::string first_error(const std::string &s) {
    size_t i = s.find("error:");
    return i == std::string::npos ? s.substr(0, 300) : s.substr(i, s.find('\n', i) - i);
}
static std::vector<std::string> list(const std::string &pattern) {
    std::vector<std::string> r;
    glob_t g;
    if (!glob(pattern.c_str(), 0, nullptr, &g)) for (size_t i = 0; i < g.gl_pathc; i++) r.push_back(g.gl_pathv[i]);
    globfree(&g);
    return r;
}
// markers: stopping and straggling
static const char *const MARK[][2] = {
    {"0.3*p.Z + 0.002*p.A - 0.1*std::log(p.T)", "5 + 0.01*p.Z + 0.004*p.A + 0.2*std::log(p.T)"},
    {"-9 + 1e-3*p.A*std::log(p.T)", "2 + 1e-4*p.A*p.Z"},
    {"1e-4*(p.Z + 0.01*p.A)", "1 + 1e4*(p.A/(p.Z+1))*(1 + std::log(p.T))"},
};
static double mark(int n, int x, const Projectile &p) {
    switch (2 * n + x) {
    case 0: return 0.3 * p.Z + 0.002 * p.A - 0.1 * std::log(p.T);
    case 1: return 5 + 0.01 * p.Z + 0.004 * p.A + 0.2 * std::log(p.T);
    case 2: return -9 + 1e-3 * p.A * std::log(p.T);
    case 3: return 2 + 1e-4 * p.A * p.Z;
    case 4: return 1e-4 * (p.Z + 0.01 * p.A);
    default: return 1 + 1e4 * (p.A / (p.Z + 1)) * (1 + std::log(p.T));
    }
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    const std::string gen = REPO_DIR + "/utils/generator.cpp";
    for (int n = 0; n < 3 && access(gen.c_str(), R_OK) == 0; n++)
        jobs.push_back({mc::fmt("marker/%d", n), [=](mc::Ctx &c) {
            Dir d;
            std::string out, inc = std::string(" -I ") + BUILD_INC + " -I " + REPO_INC + " ";
            std::string objs;
            for (auto &f : list(std::string(BUILD_INC) + "/../*.o")) objs += " " + f;
            std::string m = d.put("mark.cpp", std::string("#include \"catima/catima.h\"\n#include <cmath>\nusing catima::Projectile;\n") +
                "extern \"C\" double __wrap__ZN6catima15bethek_lindhardERKNS_10ProjectileE(const Projectile &p) { return " + MARK[n][0] + "; }\n" +
                "extern \"C\" double __wrap__ZN6catima17bethek_lindhard_XERKNS_10ProjectileE(const Projectile &p) { return " + MARK[n][1] + "; }\n");
            std::string x = d.name("generator");
            const char *wrap = " -Wl,--wrap=_ZN6catima15bethek_lindhardERKNS_10ProjectileE -Wl,--wrap=_ZN6catima17bethek_lindhard_XERKNS_10ProjectileE ";
            std::string go = d.name("generator.o");
            c.t();
            int rc = sh("g++ -std=c++17 -O1 -w -c" + inc + gen + " -o " + go, &out);
            if (rc == 0) {
                sh("nm -u " + go, &out);
                if (out.find("bethek_lindhardERKNS_10ProjectileE") == std::string::npos || out.find("bethek_lindhard_XERKNS_10ProjectileE") == std::string::npos) return; // the series have other names: nothing to replace
                rc = sh("g++ -std=c++17 -O1 -w" + inc + go + " " + m + objs + wrap + "-o " + x, &out);
            }
            if (rc) {
                c.fail("the generator does not build: " + first_error(out));
                return;
            }
            d.name("catima");
            std::string cat = std::string(d.path) + "/catima";
            mkdir(cat.c_str(), 0700);
            std::string h = d.name("catima/generated_LS_coeff.h");
            c.t();
            if (sh("cd " + cat + " && timeout 100 " + x + " > /dev/null", &out) || access(h.c_str(), R_OK)) {
                c.fail("the generator wrote no table: " + out.substr(0, 200));
                return;
            }
            // library with this table
            std::string all, cmd;
            for (auto &s : list(REPO_DIR + "/src/*.cpp")) {
                std::string b = s.substr(s.rfind('/') + 1);
                std::string ob = d.name(b + ".o");
                cmd += "(g++ -std=c++17 -O0 -w -DNDEBUG -I " + std::string(d.path) + inc + "-c " + s + " -o " + ob + ") & ";
                all += " " + ob;
            }
            c.t();
            sh(cmd + "wait", &out);
            std::string q = d.put("ask.cpp", R"(#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/nucdata.h"
#include <cstdio>
#include <cmath>
int main() {
    for (int z = 1; z <= 108; z++)
        for (int i = 0; i < 200; i++)
            for (double f : {1.0, 1.05, 0.93}) {
                catima::Projectile p(f * catima::element_atomic_weight(z), z, z, std::exp(std::log(10.0) * (i * 7.0 / 199)));
                printf("%.17g %.17g\n", catima::precalculated_lindhard(p), catima::precalculated_lindhard_X(p));
            }
}
)"), y = d.name("ask");
            if (sh("g++ -std=c++17 -O1 -w" + inc + q + all + " -o " + y, &out)) {
                if (sh("g++ -std=c++17 -O1 -w" + inc + q + objs + " -o " + y)) return; // the coefficients have other names
                c.fail("the library does not build with the generated table: " + first_error(out));
                return;
            }
            FILE *f = popen(y.c_str(), "r");
            for (int z = 1; z <= 108; z++)
                for (int i = 0; i < 200; i++)
                    for (double k : {1.0, 1.05, 0.93}) {
                        double v, w;
                        if (fscanf(f, "%lf %lf", &v, &w) != 2) {
                            c.fail("the library with the generated table gives too few numbers");
                            pclose(f);
                            return;
                        }
                        Projectile p(k * element_atomic_weight(z), z, z, std::exp(std::log(10.0) * (i * 7.0 / 199)));
                        c.t(2);
                        c.trace(2);
                        c.eq(v, mark(n, 0, p), 5e-5, 0, "stopping value of Z=%d at %g MeV/u, mass factor %g", z, p.T, k);
                        if (i) c.eq(w, mark(n, 1, p), 5e-5, 0, "straggling value of Z=%d at %g MeV/u, mass factor %g", z, p.T, k);
                        c.state(mc::hd(mc::hd(mc::mix(z, i), v), w));
                    }
            pclose(f);
        }});
    if (jobs.empty()) jobs.push_back({"no generator", [](mc::Ctx &c) { c.t(); }});
    return mc::run(o, jobs);
}
