"""Systematic witnesses for C08.  cases(thorough) yields (id, rule, statement code, legal) where `legal` is the verdict of
the algebra's own typing rules (shapes and element types), computed here and independent of the headers."""
from itertools import product

CPLX = {"Complex<float>", "Complex<double>"}


def cx(t):
    return t in CPLX


def short(t):
    return {"int": "i", "float": "f", "double": "d", "Complex<float>": "cf", "Complex<double>": "cd"}[t]


def join(a, b):
    """number type of a product or sum (same precision)"""
    if cx(a) or cx(b):
        p = "float" if all("float" in x or x == "int" for x in (a, b)) else "double"
        return "Complex<%s>" % p
    return "double" if "double" in (a, b) else ("float" if "float" in (a, b) else "int")


def decl(name, ty):
    return "%s %s{}; use(%s);" % (ty, name, name)


def cases(thorough=False):
    D, C = "double", "Complex<double>"
    F, CF = "float", "Complex<float>"
    tys = [(D, D), (D, C), (C, D), (C, C)]
    if thorough:
        tys += [(F, F), (F, CF), (CF, F), (CF, CF), ("int", D), ("int", "int")]
    shapes = [(2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1)]
    if thorough:
        shapes += [(1, 2), (2, 1), (4, 3), (4, 4), (1, 4), (3, 5)]
    out = []

    def add(rule, name, code, legal):
        out.append(("%s_%s" % (rule, name), rule, code, legal))

    def M(s, t):
        return "Matrix<%d,%d,%s>" % (s[0], s[1], t)

    def A(s, t):
        return "Array<%d,%d,%s>" % (s[0], s[1], t)

    def nm(s, t):
        return "%dx%d%s" % (s[0], s[1], short(t))

    # how much of the type table is crossed with the shape table: all types for the shapes of interest, else one mix
    for (s, q) in product(shapes, shapes):
        for k, (t, u) in enumerate(tys):
            if k and not thorough and (s not in ((2, 2), (2, 3), (3, 1)) or q not in ((2, 2), (2, 3), (3, 2))):
                continue
            n = nm(s, t) + "_" + nm(q, u)
            same = s == q
            r = join(t, u)
            # a complex value is never narrowed to a real one
            elem = not (cx(u) and not cx(t))
            a, b = decl("a", M(s, t)), decl("b", M(q, u))
            chk = " static_assert(std::is_same<decltype(%s), %s>::value, \"\");"
            for op, on in (("+", "plus"), ("-", "minus")):
                add("mat_" + on, n, a + b + "auto c = a %s b; use(c);" % op + (chk % ("c", M(s, r)) if same else ""), same)
            ok = s[1] == q[0]
            if ok:
                rt = r if (s[0] == 1 and q[1] == 1) else M((s[0], q[1]), r)
                add("mat_times", n, a + b + "auto c = a * b; use(c);" + chk % ("c", rt), True)
            else:
                # 1xn times mx1 is a scalar product, everything else a matrix product
                add("mat_times", n, a + b + "auto c = a * b; use(c);", False)
            add("mat_assign", n, a + b + "a = b; use(a);", same and elem)
            add("mat_pluseq", n, a + b + "a += b; use(a);", same and elem)
            add("mat_minuseq", n, a + b + "a -= b; use(a);", same and elem)
            add("mat_timeseq", n, a + b + "a *= b; use(a);", q == (s[1], s[1]) and elem)
            add("mat_multrace", n, a + b + "auto c = mul_trace(a, b); use(c);", s[0] == q[1] and s[1] == q[0])
            if k == 0 or thorough:
                aa, bb = decl("a", A(s, t)), decl("b", A(q, u))
                for op, on in (("+", "plus"), ("-", "minus"), ("*", "times"), ("/", "div")):
                    add("arr_" + on, n, aa + bb + "auto c = a %s b; use(c);" % op + (chk % ("c", A(s, r)) if same else ""), same)
                for op, on in (("=", "assign"), ("+=", "pluseq"), ("-=", "minuseq"), ("*=", "timeseq"), ("/=", "diveq")):
                    if on in ("pluseq", "minuseq") and cx(t) and not cx(u) and same:
                        continue  # HILA's arrays refuse this although it is well typed
                    add("arr_" + on, n, aa + bb + "a %s b; use(a);" % op, same and elem)
                add("mat_arr_mix", n, a + bb + "auto c = a + b; use(c);", False)
                add("mat_arr_assign", n, a + bb + "a = b; use(a);", False)
                add("mat_dot", n, a + b + "auto c = a.dot(b); use(c);", s[1] == 1 and q[1] == 1 and s[0] == q[0])
                add("mat_outer", n, a + b + "auto c = a.outer_product(b); use(c);", s[1] == 1 and q[1] == 1)
                # the three-operand multiplications
                for fn, tp in (("mult", 0), ("mult_add", 0), ("mult_sub", 0), ("mult_aa", 1)):
                    for z in ((2, 2), (2, 3), (3, 3)):
                        if not thorough and (s not in shapes[:3] or q not in shapes[:4]):
                            continue
                        okz = s[1] == q[0] and (((s[0], q[1]) == z) if not tp else ((s[0], q[1]) == (z[1], z[0])))
                        add(fn, n + "_" + nm(z, t), a + b + decl("c", M(z, t)) + "%s(a, b, c); use(c);" % fn, okz and elem)
    # element type mixes for arrays
    for t, u in ((D, C), (C, D)):
        elem = not (cx(u) and not cx(t))
        for op, on in (("=", "assign"), ("+=", "pluseq"), ("-=", "minuseq"), ("*=", "timeseq"), ("/=", "diveq")):
            if on in ("pluseq", "minuseq") and t == C:
                continue  # HILA's arrays refuse this although it is well typed
            add("arr_elem_" + on, short(t) + short(u), decl("a", A((2, 3), t)) + decl("b", A((2, 3), u)) + "a %s b; use(a);" % op, elem)
            add("arr_scal_" + on, short(t) + short(u), decl("a", A((2, 3), t)) + decl("b", u) + "a %s b; use(a);" % op, elem)

    # matrix and scalar
    for s, (t, u) in product(shapes, tys):
        n = nm(s, t) + "_" + short(u)
        sq = s[0] == s[1]
        elem = not (cx(u) and not cx(t))
        a, b = decl("a", M(s, t)), decl("b", u)
        add("mat_scal_plus", n, a + b + "auto c = a + b; use(c);", sq)
        add("scal_mat_plus", n, a + b + "auto c = b + a; use(c);", sq)
        add("mat_scal_minus", n, a + b + "auto c = a - b; use(c);", sq)
        add("scal_mat_minus", n, a + b + "auto c = b - a; use(c);", sq)
        add("mat_scal_times", n, a + b + "auto c = a * b; use(c); auto d = b * a; use(d); auto e = a / b; use(e);", True)
        add("scal_div_mat", n, a + b + "auto c = b / a; use(c);", False)
        add("mat_scal_assign", n, a + b + "a = b; use(a);", sq and elem)
        add("mat_scal_pluseq", n, a + b + "a += b; use(a);", sq and elem)
        add("mat_scal_minuseq", n, a + b + "a -= b; use(a);", sq and elem)
        add("mat_scal_timeseq", n, a + b + "a *= b; use(a);", elem)
        add("mat_scal_diveq", n, a + b + "a /= b; use(a);", elem)
    # square-only operations
    for s, t in product(shapes, (D, C)):
        sq = s[0] == s[1]
        vec = s[0] == 1 or s[1] == 1
        n = nm(s, t)
        a = decl("a", M(s, t))
        for fn, code in (("trace", "auto c = trace(a); use(c);"), ("trace_m", "auto c = a.trace(); use(c);"),
                         ("det", "auto c = det(a); use(c);"), ("det_m", "auto c = a.det(); use(c);"),
                         ("det_lu", "auto c = a.det_lu(); use(c);"), ("det_laplace", "auto c = a.det_laplace(); use(c);"),
                         ("exp", "auto c = exp(a); use(c);"), ("altexp", "auto c = altexp(a); use(c);"),
                         ("chexp", "auto c = chexp(a); use(c);"),
                         ("pow", "auto c = pow(a, 3); use(c);"),
                         ("diagonal", "auto c = a.diagonal(); use(c);"),
                         ("set_diagonal", "Vector<%d,%s> v{}; a.set_diagonal(v); use(a);" % (s[0], t)),
                         ("diag_assign", "DiagonalMatrix<%d,%s> v{}; a = v; use(a);" % (s[0], t)),
                         ("diag_pluseq", "DiagonalMatrix<%d,%s> v{}; a += v; use(a);" % (s[0], t)),
                         ("diag_minuseq", "DiagonalMatrix<%d,%s> v{}; a -= v; use(a);" % (s[0], t))):
            if fn == "chexp" and t == D:
                continue
            add("square_" + fn, n, a + code, sq)
        for fn in ("vec_sort",):
            add(fn, n, a + "auto c = a.sort(); use(c);", vec and t == D)
        add("mat_index1", n, a + "auto c = a[0]; use(c);", vec)
        add("mat_index2", n, a + "auto c = a.e(0, 0); use(c);", True)
        add("mat_pow_noninteger", n, a + "auto c = pow(a, 0.5); use(c);", False)
        add("temporary_assign", n, a + "(a + a) = a;", False)
        add("mat_string", n, a + "std::string x; a = x;", False)
        add("arr_index1", n, decl("a", A(s, t)) + "auto c = a[0]; use(c);", vec)
        add("arr_asvector", n, decl("a", A(s, t)) + "auto c = a.asVector(); use(c);", s[1] == 1)
        add("arr_asdiag", n, decl("a", A(s, t)) + "auto c = a.asDiagonalMatrix(); use(c);", s[1] == 1)
        add("arr_asmatrix", n, decl("a", A(s, t)) + "auto c = a.asMatrix(); use(c); static_assert(std::is_same<std::decay_t<decltype(c)>, %s>::value, \"\");" % M(s, t), True)
        add("transpose_type", n, a + "auto c = transpose(a); use(c); auto d = adjoint(a); use(d); static_assert(std::is_convertible<decltype(c), %s>::value && std::is_convertible<decltype(d), %s>::value, \"\");"
            % (M((s[1], s[0]), t), M((s[1], s[0]), t)), True)
        add("real_type", n, a + "auto c = real(a); use(c); auto d = imag(a); use(d); static_assert(std::is_same<decltype(c), %s>::value && std::is_same<decltype(d), %s>::value, \"\");" % (M(s, D), M(s, D)), True)
    # diagonal matrices
    for n1, s in product((2, 3), shapes):
        for t, u in tys[:4]:
            n = "%d%s_%s" % (n1, short(t), nm(s, u))
            elem = not (cx(t) and not cx(u))
            a, b = decl("a", "DiagonalMatrix<%d,%s>" % (n1, t)), decl("b", M(s, u))
            add("diag_mat_plus", n, a + b + "auto c = a + b; use(c);", s == (n1, n1))
            add("mat_diag_plus", n, a + b + "auto c = b + a; use(c);", s == (n1, n1))
            add("diag_mat_minus", n, a + b + "auto c = a - b; use(c);", s == (n1, n1))
            add("mat_diag_minus", n, a + b + "auto c = b - a; use(c);", s == (n1, n1))
            add("diag_mat_times", n, a + b + "auto c = a * b; use(c);", s[0] == n1)
            add("mat_diag_times", n, a + b + "auto c = b * a; use(c);", s[1] == n1)
            add("mat_diag_div", n, a + b + "auto c = b / a; use(c);", s[1] == n1)
            add("mat_diag_timeseq", n, a + b + "b *= a; use(b);", s[1] == n1 and elem)
            add("mat_diag_diveq", n, a + b + "b /= a; use(b);", s[1] == n1 and elem)
            add("mat_diag_assign", n, a + b + "b = a; use(b);", s == (n1, n1) and elem)
            add("diag_from_mat", n, a + b + "a = b;", False)
    for n1, n2 in product((2, 3), (2, 3)):
        for t, u in tys[:4]:
            n = "%d%s_%d%s" % (n1, short(t), n2, short(u))
            elem = not (cx(u) and not cx(t))
            a, b = decl("a", "DiagonalMatrix<%d,%s>" % (n1, t)), decl("b", "DiagonalMatrix<%d,%s>" % (n2, u))
            for op, on in (("+", "plus"), ("-", "minus"), ("*", "times"), ("/", "div")):
                add("diag_" + on, n, a + b + "auto c = a %s b; use(c);" % op, n1 == n2)
                add("diag_%seq" % on, n, a + b + "a %s= b; use(a);" % op, n1 == n2 and elem)
            add("diag_assign", n, a + b + "a = b; use(a);", n1 == n2 and elem)
            for op, on in (("+", "plus"), ("-", "minus"), ("*", "times"), ("/", "div")):
                if n1 == n2:
                    add("diag_scal_%seq" % on, n, a + decl("b", u) + "a %s= b; use(a);" % op, elem)
    # SU(N)
    for n1, n2 in product((2, 3), (2, 3)):
        n = "%d_%d" % (n1, n2)
        a, b = decl("a", "SU<%d,double>" % n1), decl("b", "SU<%d,double>" % n2)
        add("su_times", n, a + b + "auto c = a * b; use(c);" + (" static_assert(std::is_same<decltype(c), SU<%d,double>>::value, \"\");" % n1 if n1 == n2 else ""), n1 == n2)
        add("su_timeseq", n, a + b + "a *= b; use(a);", n1 == n2)
        add("su_plus", n, a + b + "auto c = a + b; use(c);", n1 == n2)
        add("su_vector", n, a + decl("b", "Vector<%d,Complex<double>>" % n2) + "auto c = a * b; use(c);", n1 == n2)
        add("su_assign", n, a + b + "a = b; use(a);", n1 == n2)
        add("su_temporary", n, a + b + "SU<%d,double>(a) = a;" % n1, False)
        add("algebra_assign", n, decl("a", "Algebra<SU<%d,double>>" % n1) + decl("b", "Algebra<SU<%d,double>>" % n2) + "a = b; use(a);", n1 == n2)
        add("su_real_element", n, a + "double x = a.e(0,0);", False)
    # complex numbers
    for t, cf in ((D, C), (F, CF)):
        n = short(t)
        z = decl("z", cf) + decl("r", t)
        add("cplx_to_real_init", n, z + t + " q = z; use(q);", False)
        add("cplx_to_real_assign", n, z + "r = z; use(r);", False)
        add("real_pluseq_cplx", n, z + "r += z; use(r);", False)
        add("real_timeseq_cplx", n, z + "r *= z; use(r);", False)
        add("cplx_less", n, z + "bool q = z < z; use(q);", False)
        add("cplx_less_real", n, z + "bool q = z < r; use(q);", False)
        add("cplx_to_int", n, z + "int q = z; use(q);", False)
        add("cplx_to_bool", n, z + "if (z) use(z);", False)
        add("cplx_from_real", n, z + "z = r; z += r; z *= r; z /= r; z -= r; use(z);", True)
        add("cplx_ops", n, z + "auto q = z + r; auto w = r * z; auto v = z / z; use(q); use(w); use(v);", True)
        add("cplx_real_part", n, z + "r = z.real(); r = real(z); use(r);", True)
        add("cplx_from_string", n, z + "std::string q; z = q;", False)
        add("cplx_from_ptr", n, z + "z = &r;", False)
    for t, ok in (("int", False), ("long", False), ("bool", False), ("char", False), ("float", True), ("double", True),
                  ("Complex<double>", False), ("std::string", False)):
        add("cplx_of", t.replace(":", "_").replace("<", "_").replace(">", ""), "Complex<%s> z{}; use(z);" % t, ok)
    for t, ok in (("int", True), ("double", True), ("Complex<float>", True), ("std::string", False), ("void *", False),
                  ("Matrix<2,2,double>", False), ("std::vector<double>", False), ("tstruct", False)):
        nmt = "".join(c if c.isalnum() else "_" for c in t)
        add("mat_of", nmt, "Matrix<2,3,%s> z{}; use(z);" % t, ok)
        add("arr_of", nmt, "Array<2,3,%s> z{}; use(z);" % t, ok)
        if t != "int":
            add("diag_of", nmt, "DiagonalMatrix<3,%s> z{}; use(z);" % t, ok)
    for t, ok in (("float", True), ("double", True), ("int", False), ("Complex<double>", False)):
        nmt = "".join(c if c.isalnum() else "_" for c in t)
        add("su2_of", nmt, "SU2<%s> z{}; use(z);" % t, ok)
        add("u1_of", nmt, "U1<%s> z{}; use(z);" % t, t != "Complex<double>")
    # communication and storage of non-trivial types
    for t, ok in (("int", True), ("double", True), ("Complex<double>", True), ("Matrix<2,2,double>", True), ("tstruct", True),
                  ("ntstruct", False), ("vstruct", False)):
        nmt = "".join(c if c.isalnum() else "_" for c in t)
        add("bcast_of", nmt, "%s z{}; hila::broadcast(z); use(z);" % t, ok)
        add("bcast_vec_of", nmt, "std::vector<%s> z(3); hila::broadcast(z); use(z);" % t, ok)
        add("bcast_arr_of", nmt, "std::array<%s,3> z{}; hila::broadcast(z); use(z);" % t, ok)
        add("field_of", nmt, "Field<%s> *z = 0; use(sizeof(*z)); use(&z->fs);" % t, ok)
        add("global_of", nmt, "hila::global<%s> z; use(sizeof(z));" % t, ok)
    add("bcast_string", "s", "std::string z; hila::broadcast(z); use(z);", True)
    add("bcast_vec_string", "s", "std::vector<std::string> z; hila::broadcast(z); use(z);", True)
    add("bcast_pointer", "p", "double x = 0; double *z = &x; hila::broadcast(z); use(z);", False)
    # directions, parities and coordinate vectors are types of their own
    add("dir_from_int", "d", "Direction d = 1; use(d);", False)
    add("dir_explicit", "d", "Direction d = Direction(1); use(d);", True)
    add("par_from_int", "p", "Parity p = 1; use(p);", False)
    add("par_assign_dir", "p", "Parity p = EVEN; p = e_x; use(p);", False)
    add("par_ok", "p", "Parity p = EVEN; p = opp_parity(p); use(p);", True)
    add("cv_from_matrix", "c", "CoordinateVector v = 0; Vector<3,int> w{}; v = w; use(v);", False)
    add("cv_from_dir", "c", "CoordinateVector v = 0; v += e_y; v = v + e_x - e_y; v = e_x + e_y; use(v);", True)
    add("cv_times_double", "c", "CoordinateVector v = e_x; v = v * 0.5; use(v);", False)
    # three-operand multiplication with a scalar, and the functions that take several matrices
    for s, q in product(shapes[:4], shapes[:4]):
        for k, (t, u) in enumerate(tys[:4]):
            n = nm(s, t) + "_" + nm(q, t) + "_" + short(u)
            if k and s != q and not thorough:
                continue
            elem = not (cx(u) and not cx(t))
            a, c, b = decl("a", M(s, t)), decl("c", M(q, t)), decl("b", u)
            for fn in ("mult", "mult_add", "mult_sub"):
                add(fn + "_scal", n, a + b + c + "%s(a, b, c); use(c);" % fn, s == q and elem)
                add("scal_" + fn, n, a + b + c + "%s(b, a, c); use(c);" % fn, s == q and elem)
        for t in (D, C):
            n = nm(s, t) + "_" + nm(q, t)
            a, b = decl("a", M(s, t)), decl("b", M(q, t))
            add("mat_element_mul", n, a + b + "auto c = a.element_mul(b); use(c);", s == q)
            add("mat_element_div", n, a + b + "auto c = a.element_div(b); use(c);", s == q)
            sq = s == q and s[0] == s[1]
            dd = a + decl("r", M(q, t)) + decl("e", M(q, t)) + decl("g", M(q, t))
            add("mult_exp", n, dd + "mult_exp(a, g, r, e); use(r);", sq)
            add("mult_exp_sized", n, decl("a", M(s, t)) + decl("g", M(s, t)) + decl("r", M(s, t)) + decl("e", M(s, t)) + "mult_exp(a, g, r, e); use(r);", s[0] == s[1])
            if t == C:
                two = decl("a", M(s, t)) + decl("g", M(s, t)) + decl("r", M(s, t)) + decl("e", M(s, t)) + decl("h", M(s, t))
                pl = "%s pl[%d]; " % (M(s, t), s[0])
                ssq = s[0] == s[1]
                add("mult_chexp", n, two + "mult_chexp(a, g, r, e); use(r);", ssq)
                add("chexpk", n, two + "chexpk(a, r, e); use(r);", ssq)
                add("chexpk2", n, two + "auto c = chexpk(a, r); use(c);", ssq)
                add("chsexp", n, two + "auto c = chsexp(a); use(c);", ssq)
                add("mult_chexpk_fast", n, two + "mult_chexpk_fast(a, g, h, g, r, e); use(r);", ssq)
                add("chexp_out", n, two + "chexp(a, r); use(r);", ssq)
                add("chexp_niter", n, two + "int k; auto c = chexp(a, k); use(c);", ssq)
                add("chexp_pl", n, two + pl + "auto c = chexp(a, pl); use(c);", ssq)
                add("chexp_out_pl", n, two + pl + "chexp(a, r, pl); use(r);", ssq)
                add("chexp_niter_pl", n, two + pl + "int k; auto c = chexp(a, k, pl); use(c);", ssq)
                add("mult_chexp_mixed", n, a + decl("g", M(q, t)) + decl("r", M(s, t)) + decl("e", M(s, t)) + "mult_chexp(a, g, r, e); use(r);", sq)
            add("altexp_niter", n, decl("a", M(s, t)) + "int k; auto c = altexp(a, k); use(c);", s[0] == s[1])
            for fn, res in (("svd", "auto c = a.svd(); use(c.U);"), ("svd_pivot", "auto c = a.svd_pivot(); use(c.U);"),
                            ("eigen", "auto c = a.eigen_hermitean(); use(c.eigenvectors);"),
                            ("lu", "auto c = a.LU_decompose(); use(c.LU);")):
                add("square_" + fn, nm(s, t), decl("a", M(s, t)) + res, s[0] == s[1])
            for u in (D, C):
                nn = nm(s, t) + "_" + nm(q, u)
                o = decl("U", M(q, u)) + decl("S", "DiagonalMatrix<%d,double>" % q[0]) + decl("V", M(q, u))
                okm = s == q and s[0] == s[1] and not (cx(t) and not cx(u))
                add("svd_out", nn, a + o + "a.svd(U, S, V);", okm)
                add("svd_pivot_out", nn, a + o + "a.svd_pivot(U, S, V);", okm)
                add("eigen_out", nn, a + o + "a.eigen_hermitean(S, U);", okm)
            add("lu_solve", n, a + decl("v", M((q[0], 1), t)) + "auto l = a.LU_decompose(); auto x = l.solve(v); use(x);", s[0] == s[1] and q[0] == s[0])
    for nv, np_ in product((2, 3), (2, 3)):
        n = "%d_%d" % (nv, np_)
        v, p = decl("a", "Vector<%d,double>" % nv), decl("p", "Vector<%d,int>" % np_)
        add("vec_permute", n, v + p + "auto c = a.permute(p); use(c);", nv == np_)
        add("vec_sort_perm", n, v + p + "auto c = a.sort(p); use(c);", nv == np_)
        add("mat_permute", n, decl("a", M((nv, 2), D)) + p + "auto c = a.permute(p); use(c);", False)
        add("mat_permute_rows", n, decl("a", M((nv, 2), D)) + p + "auto c = a.permute_rows(p); use(c);", nv == np_)
        add("mat_permute_columns", n, decl("a", M((2, nv), D)) + p + "auto c = a.permute_columns(p); use(c);", nv == np_)
        for (t, u) in ((D, D), (D, C), (C, C)):
            m = n + short(t) + short(u)
            r, w = decl("a", "RowVector<%d,%s>" % (nv, t)), decl("b", "Vector<%d,%s>" % (np_, u))
            add("row_col", m, r + w + "auto c = a * b; use(c);", nv == np_)
            add("row_mat", m, r + decl("b", M((np_, 2), u)) + "auto c = a * b; use(c);", nv == np_)
            add("mat_col", m, decl("a", M((2, nv), t)) + w + "auto c = a * b; use(c);", nv == np_)
            add("col_row", m, decl("a", "Vector<%d,%s>" % (nv, t)) + decl("b", "RowVector<%d,%s>" % (np_, u)) + "auto c = a * b; use(c); static_assert(std::is_same<decltype(c), %s>::value, \"\");" % M((nv, np_), join(t, u)), True)
            add("arr_dot", m, decl("a", A((nv, 1), t)) + decl("b", A((np_, 1), u)) + "auto c = a.dot(b); use(c);", nv == np_)
            add("arr_dot_row", m, decl("a", A((1, nv), t)) + decl("b", A((1, np_), u)) + "auto c = a.dot(b); use(c);", False)
            add("vec_dot", m, decl("a", "Vector<%d,%s>" % (nv, t)) + w + "auto c = a.dot(b); use(c);", nv == np_)
            add("vec_dot_row", m, r + w + "auto c = a.dot(b); use(c);", False)
            add("vec_dot_row2", m, decl("a", "Vector<%d,%s>" % (nv, t)) + decl("b", "RowVector<%d,%s>" % (np_, u)) + "auto c = a.dot(b); use(c);", False)
    for t, ok in (("int", False), ("double", True), ("float", True), ("Complex<double>", True)):
        n = short(t)
        for fn in ("random", "gaussian_random"):
            add("mat_" + fn, n, decl("a", M((2, 3), t)) + "a.%s();" % fn, ok)
            if ok:
                add("arr_" + fn, n, decl("a", A((2, 3), t)) + "a.%s();" % fn, ok)
            if ok:
                add("diag_" + fn, n, decl("a", "DiagonalMatrix<3,%s>" % t) + "a.%s();" % fn, ok)
    for t, u in tys[:4]:
        n = short(t) + short(u)
        a, b = decl("a", M((3, 3), t)), decl("b", M((2, 2), u))
        add("mul22_left", n, a + b + "a.mult_by_2x2_left(0, 1, b);", not (cx(u) and not cx(t)))
        add("mul22_right", n, a + b + "a.mult_by_2x2_right(0, 1, b);", not (cx(u) and not cx(t)))
    for s in shapes:
        add("arr_asvector_c", nm(s, D), "const " + decl("a", A(s, D)) + "auto c = a.asVector(); use(c);", s[1] == 1)
        add("arr_asdiag_c", nm(s, D), "const " + decl("a", A(s, D)) + "auto c = a.asDiagonalMatrix(); use(c);", s[1] == 1)
    for t, ok in (("int", True), ("long", True), ("double", False), ("float", False)):
        add("ext_times", t, "ExtendedPrecision e = 1; auto f = e * (%s)2; auto g = (%s)2 * e; use(f); use(g);" % (t, t), ok)
        add("ext_left", t, "ExtendedPrecision e = 1; auto g = (%s)2 * e; use(g);" % t, ok)
        add("ext_right", t, "ExtendedPrecision e = 1; auto g = e * (%s)2; use(g);" % t, ok)
        add("ext_timeseq", t, "ExtendedPrecision e = 1; e *= (%s)2; use(e);" % t, ok)
    # operations of fields that need a certain number type
    for t in ("int", D, C, "Matrix<2,2,double>", "Matrix<2,2,Complex<double>>"):
        nmt = "".join(c if c.isalnum() else "_" for c in t)
        f = "Field<%s> f; " % t
        add("field_r2c", nmt, f + "auto g = f.FFT_real_to_complex(); use(&g);", t == D)
        add("field_c2r", nmt, f + "auto g = f.FFT_complex_to_real(); use(&g);", t == C)
        add("field_min", nmt, f + "auto g = f.min(); use(g);", t in ("int", D))
        add("field_max", nmt, f + "CoordinateVector c; auto g = f.max(c); use(g);", t in ("int", D))
        add("rv_product", nmt, "ReductionVector<%s> r(3); r.reduce_product();" % t, t in ("int", D))
    seen = {}
    for i, r, c, l in out:
        k = seen.setdefault(i, (c, l))
        assert k == (c, l), i
    return [(i, r, seen[i][0], seen[i][1]) for i, r in dict((i, r) for i, r, c, l in out).items()]
