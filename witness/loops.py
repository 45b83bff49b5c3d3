"""Witness programs for C07: (id, declarations at file scope, illegal body, legal body)."""
PRE = '''#include "hila.h"
%(decl)s
%(tmpl)svoid wit_%(id)s(Field<%(T)s> &a, Field<%(T)s> &b, Field<%(T)s> &c, double ext, Direction d) {
%(body)s
}
'''
W = [
    # id, file-scope declarations, illegal, legal
    ("assign_external", "", "double s = 0; onsites(ALL) { s = a[X]; a[X] = s; }",
     "onsites(ALL) { double s; s = a[X]; a[X] = s; }"),
    ("assign_external_nested", "", "double s = 0; onsites(ALL) { if (a[X] > 0) { s = 1; } a[X] = 1; }",
     "onsites(ALL) { double s = 0; if (a[X] > 0) { s = 1; } a[X] = s; }"),
    ("incr_external", "", "int n = 0; onsites(ALL) { n++; a[X] = 1; }", "int n = 0; onsites(ALL) { n += 1; a[X] = 1; }"),
    ("minus_external", "", "double s = 0; onsites(ALL) { s -= a[X]; a[X] = 1; }",
     "double s = 0; onsites(ALL) { s += -a[X]; a[X] = 1; }"),
    ("assign_array_elem", "", "double s[3] = {0,0,0}; onsites(ALL) { s[1] = a[X]; a[X] = s[0]; }",
     "double s[3] = {0,0,0}; onsites(ALL) { a[X] = s[1]; }"),
    ("assign_global", "double gwit = 0;", "onsites(ALL) { gwit = a[X]; a[X] = 1; }", "onsites(ALL) { a[X] = gwit; }"),
    ("reduction_type_outside_lhs", "", "Reduction<double> r; onsites(ALL) { a[X] = r.value(); }",
     "Reduction<double> r; onsites(ALL) { r += a[X]; }"),
    ("product_of_matrix", "", "Matrix<2,2,double> m; m = 1; onsites(ALL) { m *= Matrix<2,2,double>(a[X]); }",
     "double m = 1; onsites(ALL) { m *= a[X]; }"),
    ("nb_all_alias", "", "onsites(ALL) { a[X] = a[X + e_x]; }", "onsites(EVEN) { a[X] = a[X + e_x]; }"),
    ("nb_all_alias_single", "", "a[ALL] = a[X + e_x] + b[X];", "a[EVEN] = a[X + e_x] + b[X];"),
    ("nb_all_alias_var_dir", "", "foralldir(dd) { onsites(ALL) { a[X] += a[X - dd]; } }",
     "foralldir(dd) { onsites(ODD) { a[X] += a[X - dd]; } }"),
    ("nb_all_alias_later", "", "onsites(ALL) { double t = b[X + d]; if (t > 0) { b[X] = t; } a[X] = t; }",
     "onsites(ALL) { double t = b[X + d]; if (t > 0) { c[X] = t; } a[X] = t; }"),
    ("write_neighbour", "", "onsites(ALL) { a[X + e_x] = b[X]; }", "onsites(ALL) { a[X] = b[X + e_x]; }"),
    ("write_neighbour_compound", "", "onsites(EVEN) { a[X - d] += b[X]; }", "onsites(EVEN) { a[X] += b[X - d]; }"),
    ("nested_loops", "", "onsites(ALL) { onsites(EVEN) { a[X] = 1; } }", "onsites(ALL) { a[X] = 1; } onsites(EVEN) { b[X] = 1; }"),
    ("field_parity_in_loop", "", "onsites(ALL) { a[ALL] = 1; }", "onsites(ALL) { a[X] = 1; }"),
    ("field_outside_loop", "", "double t = a[X];", "double t = 0; onsites(ALL) { t += a[X]; }"),
    ("field_parity_rhs", "", "a[ALL] = b[EVEN];", "a[ALL] = b[X];"),
    ("field_without_X", "", "onsites(ALL) { a[X] = a.sum(); }", "double t = a.sum(); onsites(ALL) { a[X] = t; }"),
    ("static_local", "", "onsites(ALL) { static double t = 0; a[X] = t; }", "onsites(ALL) { double t = 0; a[X] = t; }"),
    ("field_local", "", "onsites(ALL) { Field<double> t; a[X] = 1; }", "Field<double> t; onsites(ALL) { t[X] = 1; a[X] = 1; }"),
    ("vector_local", "", "onsites(ALL) { std::vector<double> t(3); a[X] = t[0]; }",
     "std::vector<double> t(3); onsites(ALL) { a[X] = t[0]; }"),
    ("reduction_local", "", "onsites(ALL) { Reduction<double> t; a[X] = 1; }", "Reduction<double> t; onsites(ALL) { t += a[X]; }"),
    ("vector_elem_assign_varying", "", "std::vector<double> v(10); onsites(ALL) { v[X.coordinate(e_x)] += a[X]; }",
     "ReductionVector<double> v(10); onsites(ALL) { v[X.coordinate(e_x)] += a[X]; }"),
    ("rv_read_and_write", "", "ReductionVector<double> v(10); onsites(ALL) { v[0] += v[1]; a[X] = 1; }",
     "ReductionVector<double> v(10); onsites(ALL) { v[0] += a[X]; }"),
    ("rv_sum_and_product", "", "ReductionVector<double> v(10); onsites(ALL) { v[0] += a[X]; v[1] *= a[X]; }",
     "ReductionVector<double> v(10); onsites(ALL) { v[0] += a[X]; v[1] += a[X]; }"),
    ("addr_external", "", "onsites(ALL) { const double *p = &ext; a[X] = *p; }", "onsites(ALL) { double e = ext; a[X] = e; }"),
    ("addr_field", "", "onsites(ALL) { const auto *p = &a[X]; b[X] = *p; }", "onsites(ALL) { const auto &p = a[X]; b[X] = p; }"),
    ("ref_external_nonconst", "", "double s = 0; onsites(ALL) { double &r = s; r = a[X]; }",
     "double s = 0; onsites(ALL) { const double &r = s; a[X] = r; }"),
    ("ref_neighbour_nonconst", "", "onsites(ALL) { auto &r = a[X + e_x]; r = 1; }", "onsites(ALL) { const auto &r = a[X + e_x]; b[X] = r; }"),
    ("pass_neighbour_nonconst", "inline void wmod(double &x) { x = 1; }", "onsites(ALL) { wmod(a[X + e_x]); }",
     "onsites(ALL) { wmod(a[X]); }"),
    ("pass_external_nonconst", "inline void wmod(double &x) { x = 1; }", "double s = 0; onsites(ALL) { wmod(s); a[X] = s; }",
     "onsites(ALL) { double s = 0; wmod(s); a[X] = s; }"),
    ("parity_not_parity", "", "onsites(e_x) { a[X] = 1; }", "Parity p = EVEN; onsites(p) { a[X] = 1; }"),
    ("single_bad_operator", "", "a[ALL] == b[X];", "a[ALL] -= b[X];"),
    ("offset_depends_on_local", "", "onsites(ALL) { CoordinateVector v = X.coordinates(); a[X] = b[X + v]; }",
     "CoordinateVector v = 0; onsites(ALL) { a[X] = b[X + v]; }"),
    ("fieldref_depends_on_local", "", "Field<double> f[3]; onsites(ALL) { int i = a[X]; b[X] = f[i][X]; }",
     "Field<double> f[3]; int i = 2; onsites(ALL) { b[X] = f[i][X]; }"),
    ("const_field_write", "", "const Field<double> &ca = a; onsites(ALL) { ca[X] = 1; }",
     "const Field<double> &ca = a; onsites(ALL) { b[X] = ca[X]; }"),
    ("lattice_method", "", "onsites(ALL) { lattice.switch_to_base(); a[X] = 1; }", "onsites(ALL) { a[X] = lattice.volume(); }"),
    ("func_modifies_global", "double gw2 = 0; inline double wfg(double x) { gw2 = x; return x; } inline double wfok(double x) { return x; }",
     "onsites(ALL) { a[X] = wfg(a[X]); }", "onsites(ALL) { a[X] = wfok(a[X]); }"),
    ("func_static", "inline double wfs(double x) { static double q = 0; return x + q; } inline double wfok(double x) { double q = 0; return x + q; }",
     "onsites(ALL) { a[X] = wfs(a[X]); }", "onsites(ALL) { a[X] = wfok(a[X]); }"),
    ("select_outside_method", "", "SiteSelect s; onsites(ALL) { s.clear(); a[X] = 1; }", "SiteSelect s; onsites(ALL) { s.select(X); a[X] = 1; }"),
    ("random_in_fieldref", "", "Field<double> f[3]; onsites(ALL) { b[X] = f[(int)(3 * hila::random())][X]; }",
     "onsites(ALL) { b[X] = hila::random(); }"),
    ("elem_to_nonelem", "", "std::string s; onsites(ALL) { s = a[X]; }", "onsites(ALL) { double s = a[X]; b[X] = s; }"),
    ("field_coordinate_in_loop", "", "CoordinateVector cv = 0; onsites(ALL) { a[X] = b[cv]; }",
     "CoordinateVector cv = 0; double t = b[cv]; onsites(ALL) { a[X] = t; }"),
    ("func_field_ref", "extern Field<double> gf; inline double wff(double x, Parity p) { x += gf.sum(p); return x; } inline double wfok(double x, Parity p) { return x; }",
     "Parity p = EVEN; onsites(ALL) { a[X] = wff(a[X], p); }", "Parity p = EVEN; onsites(ALL) { a[X] = wfok(a[X], p); }"),
    ("func_nested_static", "inline double wfs0(double x) { static double q = 0; return x + q; } inline double wfs(double x) { return wfs0(x); } inline double wfok0(double x) { return x; } inline double wfok(double x) { return wfok0(x); }",
     "onsites(ALL) { a[X] = wfs(a[X]); }", "onsites(ALL) { a[X] = wfok(a[X]); }"),
    ("func_reads_global", "double gw3 = 0; inline double wfg(double x) { return x + gw3; } constexpr double gwc = 1; inline double wfok(double x) { return x + gwc; }",
     "onsites(ALL) { a[X] = wfg(a[X]); }", "onsites(ALL) { a[X] = wfok(a[X]); }"),
    ("func_lattice_method", "inline double wfl(double x) { lattice.switch_to_base(); return x; } inline double wfok(double x) { return x + lattice.volume(); }",
     "onsites(ALL) { a[X] = wfl(a[X]); }", "onsites(ALL) { a[X] = wfok(a[X]); }"),
    ("rv_minus", "", "ReductionVector<double> v(10); onsites(ALL) { v[0] -= a[X]; }", "ReductionVector<double> v(10); onsites(ALL) { v[0] += -a[X]; }"),
    ("rv_assign", "", "ReductionVector<double> v(10); onsites(ALL) { v[0] = a[X]; }", "ReductionVector<double> v(10); onsites(ALL) { v[0] += a[X]; }"),
    ("rv_div", "", "ReductionVector<double> v(10); onsites(ALL) { v[0] /= a[X]; }", "ReductionVector<double> v(10); onsites(ALL) { v[0] *= a[X]; }"),
    ("reduction_type_minus", "", "Reduction<double> v; onsites(ALL) { v -= a[X]; }", "Reduction<double> v; onsites(ALL) { v += -a[X]; }"),
    ("reduction_type_assign", "", "Reduction<double> v; onsites(ALL) { v = a[X]; }", "Reduction<double> v; onsites(ALL) { v += a[X]; }"),
    ("div_external", "", "double s = 1; onsites(ALL) { s /= a[X]; a[X] = 1; }", "double s = 1; onsites(ALL) { s *= 1 / a[X]; }"),
    ("member_assign", "struct wst { double x; };", "wst s; s.x = 0; onsites(ALL) { s.x = a[X]; }", "wst s; s.x = 0; onsites(ALL) { s.x += a[X]; }"),
    ("std_array_assign", "", "std::array<double,3> s; onsites(ALL) { s[X.coordinate(e_x)] = a[X]; }", "std::array<double,3> s; onsites(ALL) { a[X] = s[X.coordinate(e_x)]; }"),
    ("std_array_local", "", "onsites(ALL) { std::array<double,3> s; s[0] = a[X]; b[X] = s[0]; }", "onsites(ALL) { double s[3]; s[0] = a[X]; b[X] = s[0]; }"),
    ("array_unknown_size", "", "double *s = &ext; onsites(ALL) { a[X] = s[(int)b[X]]; }", "double s[3] = {1,2,3}; onsites(ALL) { a[X] = s[(int)b[X]]; }"),
    ("unknown_X_method", "", "onsites(ALL) { a[X] = X.nonexistent(); }", "onsites(ALL) { a[X] = X.coordinate(e_x); }"),
    ("parity_none", "", "a[Parity::none] = 1;", "a[ODD] = 1;"),
    ("extern_local", "", "onsites(ALL) { extern double gzz; a[X] = 1; }", "onsites(ALL) { double gzz = 1; a[X] = gzz; }"),
    ("select_varying", "", "SiteSelect s[2]; onsites(ALL) { s[(int)a[X]].select(X); }", "SiteSelect s[2]; onsites(ALL) { if (a[X] > 0) s[1].select(X); }"),
    ("global_decl_in_function", "", "hila::global<double> g; onsites(ALL) { a[X] = g(); }", "onsites(ALL) { a[X] = ext; }"),
]
