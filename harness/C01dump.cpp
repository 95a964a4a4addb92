// companion of C01init: prints every query of every combination
#include "queries.hpp"
int main(int argc, char **argv) {
    int pat = argc > 1 ? atoi(argv[1]) : 0;
    static const double ET[][2] = {{95.0, 0.05}, {7.0, 0.004}, {60000.0, 1.0}, {0.0015, 1e-5}, {31, 0.01}, {200, 50}};
    std::vector<Combo> cs = combos();
    for (int z = 1; z <= 108; z += 1) cs.push_back({mc::fmt("Z%d", z), proj(z), target((z * 37) % NTARGET), cfg(1)});
    for (size_t i = 0; i < cs.size(); i++)
        for (auto &e : ET)
            for (int q = 0; q < NQ; q++) {
                Material m = cs[i].m;
                m.thickness(e[1]);
                dirty(pat);
                V v = query(q, cs[i].p, m, e[0], cs[i].c);
                printf("%s/%s/%g", cs[i].name.c_str(), Q_NAME[q], e[0]);
                for (double d : v) printf("\t%.17g", d);
                printf("\n");
            }
}
