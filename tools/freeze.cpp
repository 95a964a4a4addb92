// Writes data/frozen.hpp, the reference model's copy of the physical data tables.
// Run once: g++ -Wl,--allow-multiple-definition ... freeze.cpp /repo/src/*.cpp; the checks never run it.
#include <cstdio>
#include "catima/catima.h"
#include "catima/nucdata.h"
#include "catima/data_ionisation_potential.h"
#include "catima/data_atima.h"
#include "catima/generated_LS_coeff.h"
#include "catima/srim.h"
#include "catima/abundance_database.h"
#include "catima/material_database.h"
using namespace catima;
template<class A> void tab(const char* n, const A* t, int num){
    printf("static const double %s[%d] = {", n, num);
    for(int i=0;i<num;i++)printf("%s%s%.17g", i?",":"", i%8?"":"\n", (double)t[i]);
    printf("};\n");
}
template<class A> void tab2(const char* n, A t, int num, int m){
    printf("static const double %s[%d][%d] = {", n, num, m);
    for(int i=0;i<num;i++){ printf("%s\n{", i?",":""); for(int j=0;j<m;j++)printf("%s%.9g", j?",":"", t[i][j]); printf("}"); }
    printf("};\n");
}
int main(){
    printf("// frozen physical data of the reference model\n#ifndef FROZEN_HPP\n#define FROZEN_HPP\nnamespace frozen {\n");
    tab("weight", element_atomic_weights, 110);
    tab("density", element_densities, 99);
    double ip[121]={0}; for(int z=1;z<=120;z++)ip[z]=ipot(z);
    tab("ipot", ip, 121);
    tab("de_x0", density_effect::x0, 97); tab("de_x1", density_effect::x1, 97); tab("de_c", density_effect::c, 97);
    tab("de_a", density_effect::a, 97); tab("de_m", density_effect::m, 97); tab("de_d0", density_effect::del_0, 97);
    tab2("se95", pse_95, 92, 8); tab2("se85", proton_stopping_coef, 92, 8);
    tab("vfermi", atima_vfermi, 92); tab("screening", atima_lambda_screening, 92);
    tab2("ls", ls_coefficients::ls_coefficients_a, 108, 200); tab2("ls_hi", ls_coefficients::ls_coefficients_ahi, 108, 200);
    tab2("lsx", ls_coefficients::ls_X_coefficients_a, 108, 200); tab2("lsx_hi", ls_coefficients::ls_X_coefficients_ahi, 108, 200);
    printf("struct Part{double A; int Z; double stn;};\nstruct Comp{int id; double density; int n; Part part[24];};\nstatic const Comp comp[] = {\n");
    for(int id=201;id<=349;id++){ auto m=get_material(id); printf("{%d,%.17g,%d,{",id,m.density(),m.ncomponents());
        for(int i=0;i<m.ncomponents();i++){auto t=m.get_element(i); printf("%s{%.17g,%d,%.17g}",i?",":"",t.A,t.Z,t.stn);} printf("}},\n"); }
    printf("};\nstruct Iso{int n; int a[12]; float ab[12];};\nstatic const Iso iso[110] = {{0,{0},{0}}");
    for(int z=1;z<=109;z++){ int n=abundance::get_isotopes_num(z); printf(",\n{%d,{",n); for(int i=0;i<n;i++)printf("%s%d",i?",":"",abundance::get_isotope_a(z,i));
        if(!n)printf("0"); printf("},{"); for(int i=0;i<n;i++)printf("%s%.9g",i?",":"",abundance::get_abundance(z,i)); if(!n)printf("0"); printf("}}"); }
    printf("};\n}\n#endif\n");
}
