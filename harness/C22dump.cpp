// companion of C22: evaluates a fixed list of calls, writes all numbers to a file
// usage: C22dump thorough shard nshards out labels|-
#include "common.hpp"
int main(int argc, char **argv) {
    bool th = atoi(argv[1]);
    int shard = atoi(argv[2]), ns = atoi(argv[3]), job = 0;
    FILE *f = fopen(argv[4], "wb"), *l = strcmp(argv[5], "-") ? fopen(argv[5], "w") : nullptr;
    if (!f) return 3;
    auto put = [&](const std::string &s, const std::vector<double> &v) {
        uint32_t n = v.size();
        fwrite(&n, 4, 1, f);
        fwrite(v.data(), 8, n, f);
        if (l) fprintf(l, "%s\n", s.c_str());
    };
    auto res = [&](const Result &r) { RV x = rv(r); return std::vector<double>(x.v, x.v + NRES); };
    std::vector<Config> cf = one_field_configs();
    for (int i = 0; i < 108; i++)
        for (int j = 0; j < (th ? 8 : 2); j++) {
            if (!th && (i + j) % 2) continue;
            if (job++ % ns != shard) continue;
            int z = i + 1, t = j == 0 ? TK[i % 12] : (z * 41 + j * 53) % NTARGET;
            const Config &k = cf[j == 0 ? 0 : (i + j * 7) % cf.size()];
            Projectile p = proj(z, 1 + 0.01 * (j % 3));
            if (k.z_effective == 0 && z > 3) p.Q = z - 2;
            Material m = target(t);
            std::string w = mc::fmt("Z=%d in %s {%s}", z, tname(t).c_str(), cname(k).c_str());
            bool lim = k.scattering == 1 || k.scattering == 2;
            int iT = 0;
            for (double T : {k.z_effective == 3 ? 8.0 : 1.2e-3, k.z_effective == 3 ? 9.0 : 0.02, k.z_effective == 3 ? 20.0 : 0.4, k.z_effective == 3 ? 45.0 : 1.5, k.z_effective == 3 ? 70.0 : 6.0, 11.0, 29.0, 33.0, 120.0, 500.0, 6e3, 9e4, 5e6}) {
                if (!th && (iT++ + i / 2) % 3) continue;
                if (lim && T < 1) continue;
                p.T = T;
                double R = range(p, m, k);
                for (double fr : {0.0, 3e-5, 3e-4, 0.05, 0.5, 0.97, 1.3}) {
                    if (lim && fr > 0 && fr < 0.01) continue;
                    m.thickness(fr * R);
                    put(mc::fmt("%s at %g MeV/u, %g of the range: calculate", w.c_str(), T, fr), res(calculate(p, m, k)));
                    if (fr == 0.05 || fr == 0.97) {
                        Layers L;
                        Material a = m, b = target((t + 31) % NTARGET);
                        a.thickness(0.3 * fr * R);
                        b.thickness(0.1 * fr * R);
                        L.add(a);
                        L.add(b);
                        L.add(a);
                        MultiResult mr = calculate(p, L, k);
                        put(mc::fmt("%s at %g MeV/u, %g of the range: stack total", w.c_str(), T, fr), res(mr.total_result));
                        for (auto &r : mr.results) put(mc::fmt("%s at %g MeV/u, %g of the range: stack", w.c_str(), T, fr), res(r));
                    }
                    if (fr > 0) {
                        double Eo = energy_out(p, m, k);
                        std::vector<double> v = {Eo, range(p, m, k), dedx_from_range(p, m, k), range_straggling(p, T, m, k), range_variance(p, T, m, k), domega2de(p, T, m, k), angular_straggling(p, m, k), angular_variance(p, m, k), dedx(p, m, k), domega2dx(p, m, k)};
                        for (double d : energy_out(p, {0.5 * T, T, 2 * T}, m, k)) v.push_back(d);
                        for (double d : dedx_from_range(p, {0.5 * T, T, 2 * T}, m, k)) v.push_back(d);
                        if (Eo > 0.01) {
                            v.push_back(calculate_tof_from_E(p, Eo, m, k));
                            v.push_back(energy_straggling_from_E(p, T, Eo, m, k));
                            auto g = w_magnification(p, T, m, k);
                            v.push_back(g.first);
                            v.push_back(g.second);
                        }
                        put(mc::fmt("%s at %g MeV/u, %g of the range: single functions", w.c_str(), T, fr), v);
                    }
                }
            }
            // around table points
            for (int e = th ? i % 5 : i % 29; e < 600; e += th ? 5 : 29) {
                double x = pow(10.0, -3 + 10.0 * e / 599);
                for (int s = -3; s <= 3; s++) {
                    double T = x;
                    for (int q = 0; q < abs(s); q++) T = nextafter(T, s < 0 ? 0.0 : 1e9);
                    p.T = T;
                    m.thickness(0);
                    put(mc::fmt("%s %d floating-point steps from %g MeV/u", w.c_str(), s, x), k.z_effective == 3 && T < 7 ? std::vector<double>{range(p, m, k), dedx_from_range(p, m, k)} : std::vector<double>{range(p, m, k), dedx_from_range(p, m, k), range_straggling(p, T, m, k), domega2de(p, T, m, k)});
                }
            }
            if (j == 0 && i % 4 == 0) put(w + ": tof table", calculate_tof(p, m, k));
        }
    if (l) fclose(l);
    return fclose(f) != 0;
}
