// C01: leftovers on stack and heap never reach a result: the same queries in builds whose uninitialised
// variables start as zero and as a pattern, with different heap and stack fillings, give the same numbers
#include "mc.hpp"
#include <fstream>
#include <sstream>
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<std::string> bins;
    {
        std::stringstream s(o.arg);
        std::string b;
        while (std::getline(s, b, ':')) bins.push_back(b);
    }
    struct Fill { int bin, heap, stack; };
    std::vector<Fill> fills;
    for (int b = 0; b < (int)bins.size(); b++)
        for (int h : {0, 85, 255})
            for (int s : {0, 255, 127}) fills.push_back({b, h, s});
    auto out = [=](const Fill &f) { return mc::fmt("dump-%d-%d-%d", f.bin, f.heap, f.stack); };
    std::vector<mc::Job> jobs;
    for (auto &f : fills)
        jobs.push_back({mc::fmt("run/%s", out(f).c_str()), [=](mc::Ctx &c) {
            int rc = system(mc::fmt("MALLOC_PERTURB_=%d %s %d > %s", f.heap, bins[f.bin].c_str(), f.stack, out(f).c_str()).c_str());
            if (rc) c.fail(mc::fmt("queries with heap filling %d and stack filling %d ended with status %d", f.heap, f.stack, rc));
        }, 0});
    for (size_t i = 1; i < fills.size(); i++)
        jobs.push_back({mc::fmt("compare/%s", out(fills[i]).c_str()), [=](mc::Ctx &c) {
            std::ifstream a(out(fills[0])), b(out(fills[i]));
            std::string x, y;
            while (std::getline(a, x)) {
                if (!std::getline(b, y)) { c.fail("output shorter"); return; }
                std::stringstream sx(x), sy(y);
                std::string n, u, v;
                std::getline(sx, n, '\t');
                std::getline(sy, u, '\t');
                uint64_t h = std::hash<std::string>()(n);
                while (std::getline(sx, u, '\t')) {
                    std::getline(sy, v, '\t');
                    double p = strtod(u.c_str(), 0), q = strtod(v.c_str(), 0);
                    h = mc::hd(h, q);
                    if (!mc::close(p, q, 1e-9) && !(p != p && q != q)) c.fail(mc::fmt("%s: %s with one filling of unused memory, %s with another", n.c_str(), u.c_str(), v.c_str()));
                }
                c.state(h);
                c.t();
                c.trace();
            }
        }, 1});
    return mc::run(o, jobs);
}
