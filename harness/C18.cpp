// C18: element and isotope lookups
#include "common.hpp"
#include "catima/abundance_database.h"
#include "catima/cwrapper.h"
#include <climits>
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    std::vector<int> zs = {INT_MIN, INT_MIN + 1, -100000, -1000, 1000, 65536, 65537, 100000, INT_MAX - 1, INT_MAX};
    int lim = o.thorough ? 70000 : 2000;
    for (int z = -lim; z <= lim; z++) zs.push_back(z);
    const int NJ = 16;
    for (int j = 0; j < NJ; j++)
        jobs.push_back({mc::fmt("z/%d", j), [=](mc::Ctx &c) {
            for (size_t k = j; k < zs.size(); k += NJ) {
                int z = zs[k];
                c.t(4);
                c.trace();
                double w = element_atomic_weight(z), d = element_density(z), w2 = atomic_weight(z);
                c.eq(w, z >= 1 && z <= 109 ? frozen::weight[z] : 0, 1e-12, 0, "atomic weight of Z=%d", z);
                c.eq(w2, w, 0, 0, "atomic weight of Z=%d in the C interface", z);
                c.eq(d, z >= 1 && z <= 98 ? frozen::density[z] : 0, 1e-12, 0, "density of Z=%d", z);
                int n = abundance::get_isotopes_num(z);
                int en = z >= 1 && z <= 109 ? frozen::iso[z].n : 0;
                if (n != en) c.fail(mc::fmt("Z=%d has %d isotopes, expected %d", z, n, en));
                c.state(mc::hd(mc::hd(mc::mix(z >= 1 && z <= 109 ? z : 0, n), w), d));
                double sum = 0, prev = 2;
                std::vector<int> is = {INT_MIN, INT_MIN + 1, -1000, INT_MAX - 1, INT_MAX, 65535, 65536, 1000};
                for (int i = -20; i <= 330; i++) is.push_back(i);
                bool inside = z >= -5 && z <= 200;
                for (int i : is) {
                    if (!inside && i > 20 && i < 1000) continue;
                    bool ok = i >= 0 && i < en;
                    int a = abundance::get_isotope_a(z, i);
                    float b = abundance::get_abundance(z, i);
                    auto pr = abundance::get_isotope(z, i);
                    c.t(3);
                    if (a != (ok ? frozen::iso[z].a[i] : 0) || pr.first != a) c.fail(mc::fmt("isotope %d of Z=%d has mass number %d / %d", i, z, a, pr.first));
                    if (fabs(b - (ok ? frozen::iso[z].ab[i] : 0)) > 1e-9 || pr.second != b) c.fail(mc::fmt("isotope %d of Z=%d has abundance %.9g / %.9g", i, z, b, pr.second));
                    if (ok) {
                        sum += b;
                        if (b > prev + 1e-9) c.fail(mc::fmt("abundances of Z=%d not descending", z));
                        prev = b;
                        c.state(mc::hd(mc::mix(mc::mix(z, i), a), b));
                        if (a < z || a > 3 * z + 1) c.fail(mc::fmt("Z=%d has an isotope of mass %d", z, a));
                    }
                }
                // elements without natural isotopes list zero or unit abundance
                if (en && !(fabs(sum - 1) < 2e-3 || sum == 0)) c.fail(mc::fmt("abundances of Z=%d sum to %.9g", z, sum));
                // the mean of the isotopes is the natural weight
                if (en > 1 && sum > 0) {
                    double mean = 0;
                    for (int i = 0; i < en; i++) mean += abundance::get_abundance(z, i) * abundance::get_isotope_a(z, i);
                    c.eq(mean / sum, w, 2.5e-3, 0.02, "mean isotope mass of Z=%d", z);
                }
            }
            c.sample(mc::fmt("%zu proton numbers", zs.size() / NJ));
        }});
    return mc::run(o, jobs);
}
