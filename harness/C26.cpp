// C26: layer stacks against a list model
#include "common.hpp"
struct LM { int n; double rho, th, I; double A[4]; int Z[4]; };
static LM model(const Material &m) {
    LM x;
    x.n = m.ncomponents();
    x.rho = m.density();
    x.th = m.thickness();
    x.I = m.I();
    for (int i = 0; i < 4; i++) x.A[i] = i < x.n ? m.get_element(i).A : 0, x.Z[i] = i < x.n ? m.get_element(i).Z : 0;
    return x;
}
static bool eqv(const LM &a, const LM &b) {
    if (a.n != b.n || a.rho != b.rho || a.th != b.th || a.I != b.I) return false;
    for (int i = 0; i < 4; i++)
        if (a.A[i] != b.A[i] || a.Z[i] != b.Z[i]) return false;
    return true;
}
typedef std::vector<LM> MS;
static const char *OP[] = {"A.add(m)", "A.add(n)", "B.add(m)", "B.add(n)", "A.add(B)", "B.add(A)", "A.add(A)", "A=A+B", "B=A+B", "B=A+m", "A=B+n", "A=A+A", "A=B", "B=copy(A)", "A[last].thickness", "A[0].density", "B[0].add_element", "m.thickness", "n.density", "n.add_element", "B[mid].I", "m=A[0]", "m.thickness(0)", "n=empty"};
static const int NOP = sizeof(OP) / sizeof(OP[0]);
struct World {
    Layers A, B;
    Material m, n;
    MS a, b;
    LM mm, nn;
    double v = 0.1; // fresh values
    World() : m(Material(0, 6, 2.0, 0.5)), n(get_material(206)) {
        n.thickness(0.25);
        mm = model(m);
        nn = model(n);
    }
    double fresh() { return v *= 1.25; }
    // returns false if the operation does not apply
    bool apply(int op) {
        switch (op) {
        case 0: A.add(m); a.push_back(mm); break;
        case 1: A.add(n); a.push_back(nn); break;
        case 2: B.add(m); b.push_back(mm); break;
        case 3: B.add(n); b.push_back(nn); break;
        case 4: A.add(B); a.insert(a.end(), b.begin(), b.end()); break;
        case 5: B.add(A); b.insert(b.end(), a.begin(), a.end()); break;
        case 6: { A.add(A); MS t = a; a.insert(a.end(), t.begin(), t.end()); break; }
        case 7: A = A + B; a.insert(a.end(), b.begin(), b.end()); break;
        case 8: { B = A + B; MS t = a; t.insert(t.end(), b.begin(), b.end()); b = t; break; }
        case 9: B = A + m; b = a; b.push_back(mm); break;
        case 10: A = B + n; a = b; a.push_back(nn); break;
        case 11: { A = A + A; MS t = a; a.insert(a.end(), t.begin(), t.end()); break; }
        case 12: A = B; a = b; break;
        case 13: { Layers t(A); B = t; b = a; break; }
        case 14: if (a.empty()) return false; { double x = fresh(); A[A.num() - 1].thickness(x); a.back().th = x; } break;
        case 15: if (a.empty()) return false; { double x = fresh(); A[0].density(x); a[0].rho = x; } break;
        case 16: if (b.empty() || b[0].n > 3) return false; B[0].add_element(12, 6, 1); b[0].A[b[0].n] = 12; b[0].Z[b[0].n++] = 6; break;
        case 17: { double x = fresh(); m.thickness(x); mm.th = x; } break;
        case 18: { double x = fresh(); n.density(x); nn.rho = x; } break;
        case 19: if (nn.n > 3) return false; n.add_element(16, 8, 1); nn.A[nn.n] = 16; nn.Z[nn.n++] = 8; break;
        case 20: if (b.empty()) return false; { double x = fresh(); B[b.size() / 2].I(x); b[b.size() / 2].I = x; } break;
        case 21: if (a.empty()) return false; m = A[0]; mm = a[0]; break;
        case 22: m.thickness(0); mm.th = 0; break;
        case 23: n = Material(); n.thickness(0.125); nn = LM(); nn.rho = n.density(); nn.th = 0.125; break;
        }
        return true;
    }
    std::string compare() {
        auto one = [](Layers &L, const MS &s, const char *n) -> std::string {
            if (L.num() != (int)s.size() || L.get_materials().size() != s.size()) return mc::fmt("%s has %d layers, expected %zu", n, L.num(), s.size());
            double t = 0, cm = 0;
            for (size_t i = 0; i < s.size(); i++) {
                if (!eqv(model(L.get_materials()[i]), s[i])) return mc::fmt("layer %zu of %s differs", i, n);
                if (&L[i] != &L.get_materials()[i]) return mc::fmt("index %zu of %s is not that layer", i, n);
                t += s[i].th;
                cm += s[i].th / s[i].rho;
            }
            // layers of no density have no length
            if (!mc::close(L.thickness(), t, 1e-12) || (std::isfinite(cm) && !mc::close(L.thickness_cm(), cm, 1e-12))) return mc::fmt("thickness of %s is %.15g, %.15g cm, expected %.15g, %.15g cm", n, L.thickness(), L.thickness_cm(), t, cm);
            return "";
        };
        std::string e = one(A, a, "A");
        if (e.empty()) e = one(B, b, "B");
        if (e.empty() && !eqv(model(m), mm)) e = "material m changed";
        if (e.empty() && !eqv(model(n), nn)) e = "material n changed";
        return e;
    }
    uint64_t hash() const {
        uint64_t h = 7;
        for (auto *s : {&a, &b}) {
            h = mc::mix(h, s->size());
            for (auto &x : *s) h = mc::hd(mc::hd(mc::hd(mc::mix(h, x.n), x.rho), x.th), x.I);
        }
        return h;
    }
};
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    const int n = o.thorough ? 5 : 4;
    for (int x = 0; x < NOP * NOP; x++)
        jobs.push_back({mc::fmt("word/%d,%d", x / NOP, x % NOP), [=](mc::Ctx &c) {
            long N = 1;
            for (int i = 2; i < n; i++) N *= NOP;
            for (long k = 0; k < N; k++) {
                World w;
                long y = k;
                std::string h;
                bool ok = true;
                for (int i = 0; i < n && ok; i++) {
                    int op = i == 0 ? x / NOP : i == 1 ? x % NOP : (int)(y % NOP);
                    if (i >= 2) y /= NOP;
                    ok = w.apply(op);
                    if (!ok) break;
                    h += std::string(" ") + OP[op];
                    c.t();
                    std::string e = w.compare();
                    if (!e.empty()) {
                        c.fail("after" + h + ": " + e);
                        break;
                    }
                    c.state(w.hash());
                }
                c.trace();
                if (k == N / 2) c.sample(h);
            }
        }});
    // long stacks, self-addition across reallocation
    jobs.push_back({"grow", [=](mc::Ctx &c) {
        for (int start = 1; start <= 9; start++) {
            World w;
            for (int i = 0; i < start; i++) w.apply(i % 2), w.apply(17);
            for (int i = 0; i < 7; i++) {
                w.apply(i % 2 ? 6 : 11);
                c.t();
                std::string e = w.compare();
                if (!e.empty()) c.fail(mc::fmt("doubling a stack of %d layers %d times: %s", start, i + 1, e.c_str()));
                c.state(w.hash());
            }
            c.trace();
        }
    }});
    return mc::run(o, jobs);
}
