// C17: every predefined material is what its name says
#include "common.hpp"
#include <map>
static const char *SYM[] = {"", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U", "Np", "Pu", "Am", "Cm"};
struct F { int id; const char *formula; double tol; };
// compounds whose name fixes the formula (ratio matters); tolerance for those the table gives by weight
static const F FORM[] = {
    {201, "C9H10", 1e-6}, {203, "CH2", 1e-6}, {204, "H", 1e-6}, {206, "H2O", 1e-6}, {207, "C", 1e-6}, {211, "CF4", 1e-6}, {212, "C4H10", 1e-6}, {213, "C22H10N2O5", 1e-3}, {214, "C10H8O4", 1e-6}, {215, "NaF", 1e-6}, {216, "Ar9CH4", 1e-6}, {217, "CH2", 1e-6}, {218, "CmO2", 1e-6},
    {222, "CO2", 1e-6}, {223, "CH4", 1e-6}, {224, "CH4O", 1e-6}, {225, "C3H6O", 1e-6}, {226, "C2H2", 1e-6}, {227, "C5H5N5", 1e-6}, {229, "C3H7NO2", 1e-6}, {231, "AgBr", 1e-6}, {232, "AgCl", 1e-6}, {233, "AgI", 1e-6}, {234, "Al2O3", 1e-6}, {236, "NH3", 1e-6}, {237, "C6H7N", 1e-6}, {238, "C14H10", 1e-6},
    {241, "BaF2", 1e-6}, {242, "BaSO4", 1e-6}, {243, "C6H6", 1e-6}, {244, "BeO", 1e-6}, {245, "Bi4Ge3O12", 1e-6}, {250, "B4C", 1e-6}, {251, "C9H10", 1e-6}, {252, "C4H10O", 1e-6}, {254, "CdTe", 1e-6}, {255, "CdWO4", 1e-6}, {256, "CaCO3", 1e-6}, {257, "CaF2", 1e-6}, {258, "CaO", 1e-6}, {259, "CaWO4", 1e-6}, {260, "CsF", 1e-6}, {261, "CsI", 1e-6}, {262, "CCl4", 1e-6}, {263, "C2Cl4", 1e-6}, {264, "C6H10O5", 1e-3}, {265, "C6H5Cl", 1e-6}, {266, "CHCl3", 1e-6}, {267, "C6H12", 1e-6},
    {269, "C4H10O", 1e-6}, {270, "C2H6", 1e-6}, {271, "C2H6O", 1e-6}, {272, "C2H4", 1e-6}, {274, "Fe2O3", 1e-6}, {275, "FeO", 1e-6}, {276, "CF2Cl2", 1e-6}, {277, "CF2Br2", 1e-6}, {278, "CF3Cl", 1e-6}, {279, "CF3Br", 1e-6}, {280, "CF3I", 1e-6}, {281, "Gd2O2S", 1e-6}, {282, "GaAs", 1e-6}, {286, "C6H12O6", 1e-6}, {287, "C5H10N2O3", 1e-6}, {288, "C3H8O3", 1e-6}, {289, "C5H5N5O", 1e-6}, {290, "CaSO6H4", 1e-3},
    {291, "C7H16", 1e-6}, {292, "C6H14", 1e-6}, {293, "KI", 1e-6}, {294, "K2O", 1e-6}, {295, "LaBr3", 1e-6}, {296, "LaOBr", 1e-6}, {297, "La2O2S", 1e-6}, {299, "MgCO3", 1e-6}, {300, "MgF2", 1e-6}, {301, "MgO", 1e-6}, {307, "Na2CO3", 1e-6}, {308, "NaI", 1e-6}, {309, "NaCl", 1e-6}, {310, "Na2O", 1e-6}, {311, "NaNO3", 1e-6}, {312, "C10H8", 1e-6}, {313, "C6H5NO2", 1e-6}, {314, "N2O", 1e-6}, {315, "C8H18", 1e-6}, {317, "C5H12", 1e-6}, {319, "PuO2", 1e-6},
    {320, "C3H3N", 1e-6}, {321, "C16H14O3", 1e-3}, {322, "C5H8O2", 1e-6}, {323, "CH2O", 1e-6}, {324, "C3H6", 1e-6}, {325, "CH", 1e-6}, {326, "C3H8", 1e-6}, {327, "C3H8O", 1e-6}, {328, "C2H3Cl", 1e-6}, {329, "C5H5N", 1e-6}, {330, "SiO2", 1e-6}, {332, "C12H22O11", 1e-6}, {333, "C2F4", 1e-6}, {334, "TlCl", 1e-6}, {335, "C7H8", 1e-6}, {336, "C2HCl3", 1e-6}, {337, "WF6", 1e-6}, {338, "UC2", 1e-6}, {339, "UC", 1e-6}, {340, "UO2", 1e-6}, {341, "CH4N2O", 1e-3}, {342, "C5H11NO2", 1e-6}, {343, "C10H7I", 1e-6}, {344, "C21H24O4", 1e-6}, {346, "Li7La3Zr2O12", 1e-6}, {347, "C6H11NO", 1e-6}};
static std::map<int, double> formula(const char *s) { // weight fractions
    std::map<int, double> r;
    while (*s) {
        std::string e(1, *s++);
        if (*s >= 'a' && *s <= 'z') e += *s++;
        int n = 0;
        while (*s >= '0' && *s <= '9') n = n * 10 + *s++ - '0';
        int z = 0;
        for (int i = 1; i < 97; i++)
            if (e == SYM[i]) z = i;
        r[z] += (n ? n : 1) * nat(z);
    }
    double t = 0;
    for (auto &x : r) t += x.second;
    for (auto &x : r) x.second /= t;
    return r;
}
int main(int argc, char **argv) {
    mc::Opt o = mc::parse(argc, argv);
    std::vector<mc::Job> jobs;
    for (int b = -10; b < 400; b += 10)
        jobs.push_back({mc::fmt("ids/%d", b), [=](mc::Ctx &c) {
            for (int id = b; id < b + 10; id++)
                for (int way = 0; way < 3; way++) {
                    if (way && id > 0 && id < 201) continue; // compound lookup: compounds only
                    Material m = way == 0 ? get_material(id) : way == 1 ? get_compound((material)id) : get_material((material)id);
                    c.t();
                    c.trace();
                    std::map<int, double> w, e;
                    double sum = 0;
                    for (int i = 0; i < m.ncomponents(); i++) {
                        Target t = m.get_element(i);
                        if (w.count(t.Z)) c.fail(mc::fmt("id %d lists Z=%d twice", id, t.Z));
                        w[t.Z] = m.weight_fraction(i);
                        sum += w[t.Z];
                        if (t.Z < 1 || t.Z > 109) { c.fail(mc::fmt("id %d contains Z=%d", id, t.Z)); continue; }
                        c.eq(t.A, id == 205 ? 2.0141 : nat(t.Z), 1e-9, 0, "id %d: mass of Z=%d", id, t.Z);
                    }
                    uint64_t h = mc::mix(id, m.ncomponents());
                    for (auto &x : w) h = mc::hd(mc::mix(h, x.first), x.second);
                    c.state(mc::hd(h, m.density()));
                    double rho = 0;
                    if (id >= 1 && id <= 98) e[id] = 1, rho = frozen::density[id];
                    else if (id >= 201 && id < 201 + NCOMP) {
                        for (auto &x : rmat(comp(id - 201))) e[x.Z] += x.w;
                        rho = frozen::comp[id - 201].density;
                    }
                    if (e.empty()) {
                        if (m.ncomponents()) c.fail(mc::fmt("id %d is not defined but gives %d components", id, m.ncomponents()));
                        continue;
                    }
                    c.eq(sum, 1, 1e-5, 0, "id %d: sum of weight fractions", id);
                    c.eq(m.density(), rho, 1e-9, 0, "id %d: density", id);
                    c.eq(m.thickness(), 0, 0, 0, "id %d: thickness", id);
                    if (w.size() != e.size()) c.fail(mc::fmt("id %d has %zu elements, expected %zu", id, w.size(), e.size()));
                    for (auto &x : e) c.eq(w.count(x.first) ? w[x.first] : 0, x.second, 1e-6, 0, "id %d: weight fraction of Z=%d", id, x.first);
                }
        }});
    jobs.push_back({"formulas", [=](mc::Ctx &c) {
        for (auto &f : FORM) {
            Material m = get_material(f.id);
            auto e = formula(f.formula);
            if (m.ncomponents() != (int)e.size()) c.fail(mc::fmt("id %d is not %s", f.id, f.formula));
            for (int i = 0; i < m.ncomponents(); i++) {
                int z = m.get_element(i).Z;
                c.eq(m.weight_fraction(i), e.count(z) ? e[z] : 0, f.tol, f.tol, "id %d as %s: weight fraction of Z=%d", f.id, f.formula, z);
                c.state(mc::hd(mc::mix(f.id, z), m.weight_fraction(i)));
            }
            c.t();
            c.trace();
            c.sample(mc::fmt("id %d is %s", f.id, f.formula));
        }
    }});
    return mc::run(o, jobs);
}
