// C22: results do not depend on the build options
#include "mc.hpp"
#include <fstream>
#include <sstream>
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<std::string> bins;
    {
        std::stringstream s(o.arg);
        std::string b;
        while (std::getline(s, b, ':')) bins.push_back(b);
    }
    const int NS = o.thorough ? 8 : 4;
    std::vector<mc::Job> jobs;
    auto name = [](int b, int s) { return mc::fmt("dump-%d-%d", b, s); };
    // bit 1: splines not stored, 2: searched index, 4: no thin target approximation, 8: no reactions
    auto opt = [](int b) { return mc::fmt("splines %s, index %s, thin target %s, reactions %s", b & 1 ? "off" : "on", b & 2 ? "searched" : "calculated", b & 4 ? "off" : "on", b & 8 ? "off" : "on"); };
    for (int b = 0; b < (int)bins.size(); b++)
        for (int s = 0; s < NS; s++)
            jobs.push_back({"run/" + name(b, s), [=](mc::Ctx &c) {
                int rc = system(mc::fmt("%s %d %d %d %s %s", bins[b].c_str(), o.thorough, s, NS, name(b, s).c_str(), b ? "-" : mc::fmt("labels-%d", s).c_str()).c_str());
                if (rc) c.fail(mc::fmt("build with %s ended with status %d", opt(b).c_str(), rc));
            }, 0});
    for (int b = 1; b < (int)bins.size(); b++)
        for (int s = 0; s < NS; s++)
            jobs.push_back({"compare/" + name(b, s), [=](mc::Ctx &c) {
                FILE *f = fopen(name(0, s).c_str(), "rb"), *g = fopen(name(b, s).c_str(), "rb");
                std::ifstream l(mc::fmt("labels-%d", s));
                if (!f || !g) { c.fail("no output"); return; }
                uint32_t n, k;
                std::string w;
                while (fread(&n, 4, 1, f) == 1) {
                    std::getline(l, w);
                    std::vector<double> x(n), y(n);
                    if (fread(&k, 4, 1, g) != 1 || k != n || fread(x.data(), 8, n, f) != n || fread(y.data(), 8, n, g) != n) { c.fail(w + ": different number of values"); return; }
                    bool result = w.find("calculate") != std::string::npos || w.find("stack") != std::string::npos;
                    bool total = w.find("total") != std::string::npos;
                    uint64_t h = mc::mix(b, 0);
                    c.t();
                    c.trace();
                    for (uint32_t i = 0; i < n; i++) {
                        h = mc::hd(h, y[i]);
                        double tol = 1e-9;
                        if (result) {
                            if ((b & 8) && i == 12) continue; // no survival probability in this build
                            bool thin = x[1] > 0.99899 * x[0] || total;
                            if ((b & 4) && thin && (i == 6 || i == 7 || (total && (i == 9 || i == 10)))) {
                                // sigma_E and sigma_a of layers in which less than a thousandth is lost; extremely thin ones drown in rounding without the approximation
                                if (x[0] - x[1] < 1e-5 * x[0] || x[0] > 1e5) continue;
                                tol = 0.02;
                                if (fabs(x[i]) > 0) c.maxi(i == 6 ? "thin sigma_E" : "thin sigma_a", fabs(y[i] / x[i] - 1));
                            }
                        }
                        if (!mc::close(x[i], y[i], tol, 1e-30) && !(x[i] != x[i] && y[i] != y[i])) {
                            c.fail(mc::fmt("%s, value %u: default build %.12g, build with %s %.12g", w.c_str(), i, x[i], opt(b).c_str(), y[i]));
                            break;
                        }
                    }
                    c.state(h);
                }
                fclose(f);
                fclose(g);
                c.sample(opt(b) + ": " + w);
            }, 1});
    return mc::run(o, jobs);
}
