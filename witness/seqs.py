"""Systematic witnesses for C07: sequences of operations on one variable, operators x targets, and the base witnesses
of loops.py in other surroundings.  gen(tier) yields (id, declarations, illegal body or None, legal body or None)."""
import itertools, re
from loops import W

RV = {'S': 'v[0] += a[X];', 's': 'v[X.coordinate(e_x)] += a[X];', 't': '{ int k = 1 + (a[X] > 0); v[k] += b[X]; }',
      'P': 'v[1] *= a[X];', 'p': 'v[X.coordinate(e_x)] *= b[X];', 'E': 'v[0] = a[X];', 'M': 'v[1] -= a[X];',
      'R': 'c[X] = v[0];', 'r': 'c[X] += v[X.coordinate(e_x)];'}
SC = {'S': 's += a[X];', 'P': 's *= a[X];', 'E': 's = a[X];', 'M': 's -= a[X];', 'I': 's++;', 'D': 's /= b[X];'}
RT = {'S': 's += a[X];', 'E': 's = a[X];', 'M': 's -= a[X];', 'R': 'b[X] = s.value();'}
FL = {'r': 'b[X] = a[X];', 'w': 'a[X] = c[X];', 'n': 'b[X] = a[X + e_x];', 'm': 'c[X] = a[X - d];',
      'u': 'a[X] += 1;', 'o': 'c[X] = b[X + e_x];', 'v': '{ double t = a[X + v]; if (t > 0) c[X] = t; }'}
ASG = ['=', '-=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']
TGT = [  # name, declarations, setup, lvalue, integer?
    ("local", "", "double s = 0;", "s"), ("localint", "", "int s = 0;", "s"), ("localfloat", "", "float s = 0;", "s"),
    ("member", "struct wst%s { double x; int i; };", "wst%s s; s.x = 0; s.i = 0;", "s.x"),
    ("memberint", "struct wst%s { double x; int i; };", "wst%s s; s.x = 0; s.i = 0;", "s.i"),
    ("global", "double gs%s = 0;", "", "gs%s"), ("globalint", "int gs%s = 0;", "", "gs%s"),
    ("array", "", "double s[3] = {0,0,0};", "s[1]"), ("arrayint", "", "int s[3] = {0,0,0};", "s[1]"),
    ("stdvec", "", "std::vector<double> s(3);", "s[1]"), ("stdarr", "", "std::array<int,3> s = {0,0,0};", "s[2]"),
    ("param", "", "", "ext"), ("ref", "", "double q = 0; double &s = q;", "s"),
    ("cmplx", "", "Complex<double> s = 0;", "s"), ("cmplxre", "", "Complex<double> s = 0;", "s.re"),
]


def mixed(t, classes):
    return len(set(classes[x] for x in t)) > 1


def rv_legal(t):
    return all(x in 'Sst' for x in t) or all(x in 'Pp' for x in t) or all(x in 'Rr' for x in t)


def fl_legal(t):
    written = {'a': any(x in 'wu' for x in t), 'b': any(x in 'rn' for x in t)}
    nb = {'a': any(x in 'nm' for x in t), 'b': 'o' in t}
    return not any(written[f] and nb[f] for f in 'ab')


def seqs(maxlen):
    for L in range(1, maxlen + 1):
        for t in itertools.product(RV if L < 3 else 'SsPER', repeat=L):
            n = ''.join(t)
            if L == 1 and n in 'rR':
                yield "seq_rv_" + n, "ReductionVector<double> v(10);", [RV[x] for x in t], "ALL", True
                continue
            yield "seq_rv_" + n, "ReductionVector<double> v(10);", [RV[x] for x in t], "ALL", rv_legal(t)
        for t in itertools.product(SC if L < 3 else 'SPEM', repeat=L):
            ok = set(t) in ({'S'}, {'P'})
            if t == ('I',):
                ok = False
            yield "seq_sc_" + ''.join(t), "double s = 0;", [SC[x] for x in t], "ALL", ok
        for t in itertools.product(RT if L < 3 else 'SEMR', repeat=L):
            rest = set(t) - {'R'}
            if 'R' in t and rest in ({'S'}, {'P'}):
                continue        # neither promised
            yield "seq_rt_" + ''.join(t), "Reduction<double> s;", [RT[x] for x in t], "ALL", set(t) in ({'S'}, {'P'})
        for t in itertools.product(FL if L < 3 else 'rwnuv', repeat=L):
            ok = fl_legal(t)
            yield "seq_fl_" + ''.join(t), "CoordinateVector v = 0;", [FL[x] for x in t], "ALL", ok
            if L < 3 and not ok:
                yield "seq_fe_" + ''.join(t), "CoordinateVector v = 0;", [FL[x] for x in t], "EVEN", True
                yield "seq_fo_" + ''.join(t), "CoordinateVector v = 0;", [FL[x] for x in t], "ODD", True


def ops():
    k = 0
    for name, decl, setup, lv in TGT:
        isint = "int" in name or name == "stdarr"
        for op in ASG + ['++', '--', 'pre++', 'pre--']:
            if not isint and op in ASG[3:]:
                continue
            if name.startswith("cmplx") and op.endswith(('++', '--')) and name == "cmplx":
                continue
            k += 1
            i = "op_%s_%d" % (name, k)
            f = lambda x: x.replace("%s", "_" + str(k))
            if op.startswith("pre"):
                st = op[3:] + f(lv) + ";"
            elif op in ('++', '--'):
                st = f(lv) + op + ";"
            elif isint:
                st = f(lv) + " " + op + " (int)a[X];"
            else:
                st = f(lv) + " " + op + " a[X];"
            yield i, f(decl), "%s onsites(ALL) { %s c[X] = 1; }" % (f(setup), st)
            k += 1
            yield i + "c", f(decl).replace("_%d" % (k - 1), "_%d" % k), ("%s onsites(EVEN) { if (b[X] > 0) { c[X] = 2; } else { %s } c[X] = 1; }" % (f(setup), st)).replace("_%d" % (k - 1), "_%d" % k)
    # writes at a neighbour site
    for op in ['=', '+=', '-=', '*=', '/=']:
        for off in ['X + e_x', 'X - e_y', 'X + d', 'X - d', 'X + v', 'X + e_x + e_y']:
            k += 1
            yield "nbw_%d" % k, "", "CoordinateVector v = 0; onsites(EVEN) { a[%s] %s b[X]; }" % (off, op)
    # (X + v with a coordinate vector is fetched into a temporary: not an alias)
    for off in ['X + e_x', 'X - e_y', 'X + d', 'X - d']:
        for op in ['=', '+=', '-=', '*=']:
            k += 1
            yield "nbr_%d" % k, "", "CoordinateVector v = 0; a[ALL] %s a[%s];" % (op, off)
            k += 1
            yield "nbr_%d" % k, "", "CoordinateVector v = 0; onsites(ALL) { double t = 2 * a[%s]; if (t > c[X]) { b[X] = 1; } a[X] %s t; }" % (off, op)


# other ways to name a field: declarations, setup, expression
FEXP = [("arr", "", "Field<double> u[3]; u[1] = a;", "u[1]"), ("arrd", "", "Field<double> u[3]; u[1] = a;", "u[e_y]"),
        ("vec", "", "std::vector<Field<double>> u(3);", "u[1]"),
        ("member", "struct wsf { Field<double> f; int k; };", "wsf u;", "u.f"),
        ("memberarr", "struct wsg { Field<double> f[3]; int k; };", "wsg u;", "u.f[2]"),
        ("gauge", "", "GaugeField<double> u;", "u[e_x]"), ("ref", "", "Field<double> &u = a;", "u"),
        ("global", "Field<double> gfw;", "", "gfw"), ("deref", "", "Field<double> *u = &a;", "(*u)")]


def fields():
    for n, decl, setup, e in FEXP:
        for j, (st, ok) in enumerate([("%(e)s[ALL] = %(e)s[X + e_x];", 0), ("%(e)s[ALL] = b[X + e_x] + %(e)s[X];", 1),
                                      ("onsites(ALL) { c[X] = %(e)s[X - d]; %(e)s[X] = b[X]; }", 0),
                                      ("onsites(ALL) { %(e)s[X] *= 2; if (c[X] > 0) c[X] = %(e)s[X + d]; }", 0),
                                      ("onsites(ODD) { %(e)s[X] *= 2; if (c[X] > 0) c[X] = %(e)s[X + d]; }", 1),
                                      ("onsites(EVEN) { %(e)s[X + e_x] = c[X]; }", 0),
                                      ("onsites(EVEN) { %(e)s[X] = c[X + e_x]; }", 1),
                                      ("double q = 0; onsites(ALL) { q += %(e)s[X + d] * %(e)s[X]; }", 1),
                                      ("double q = 0; onsites(ALL) { q -= %(e)s[X]; c[X] = 1; }", 0),
                                      ("onsites(ALL) { %(e)s[EVEN] = 2; c[X] = 1; }", 0),
                                      ("onsites(ALL) { c[X] = %(e)s; }", 0)]):
            b = setup + " " + st % {"e": e}
            yield "fe_%s_%d" % (n, j), decl.replace("wsf", "wsf%d" % j).replace("wsg", "wsg%d" % j), \
                b.replace("wsf", "wsf%d" % j).replace("wsg", "wsg%d" % j), ok


OUTER = [("if", "if (ext > 0) { %s }"), ("else", "if (ext > 0) { ext = 1; } else { %s }"),
         ("for", "for (int ii = 0; ii < 3; ii++) { %s }"), ("while", "while (ext > 0) { %s ext -= 1; }"),
         ("after", "onsites(ALL) { a[X] = 1; b[X] = 2; c[X] = 3; } { %s }"), ("before", "{ %s } onsites(ALL) { a[X] = 1; }"),
         ("foralldir", "foralldir(zz) { %s }"), ("switch", "switch ((int)ext) { case 1: { %s } break; default: break; }"),
         ("do", "do { %s } while (ext > 1);"), ("nested", "{ { { %s } } }")]
INNER = [("iif", "if (c[X] > 0) { %s }"), ("ielse", "if (c[X] > 0) { c[X] = 1; } else { %s }"),
         ("ifor", "for (int jj = 0; jj < 2; jj++) { %s }"), ("iblock", "{ { %s } }"),
         ("iafter", "double zz = c[X] + 1; if (zz > 0) { zz = 2; } { %s }"), ("ibefore", "{ %s } double zz = 1; zz += ext;")]
# a static local or an array sized declaration inside loops etc. keep their meaning everywhere


def wrap_inner(body, tpl):
    """wraps the body of the last site loop of the text"""
    ms = list(re.finditer(r"onsites\((?:[^()]|\([^()]*\))*\) *\{", body))
    if not ms:
        return None
    m = ms[-1]
    lvl, i = 1, m.end()
    while i < len(body) and lvl:
        lvl += {'{': 1, '}': -1}.get(body[i], 0)
        i += 1
    return body[:m.end()] + " " + tpl % body[m.end():i - 1] + " " + body[i - 1:]


def gen(maxlen=3):
    for i, setup, st, par, ok in seqs(maxlen):
        b = "%s onsites(%s) { %s }" % (setup, par, ' '.join(st))
        yield i, "", None if ok else b, b if ok else None
        if len(st) == 2 and par == "ALL":
            # the same accesses, in two branches of one conditional, and in two loops (the latter always legal on its own)
            b2 = "%s onsites(%s) { if (c[X] > 0) { %s } else { %s } }" % (setup, par, st[0], st[1])
            yield i + "_br", "", None if ok else b2, b2 if ok else None
    for i, decl, b, ok in fields():
        yield i, decl, None if ok else b, b if ok else None
    for i, decl, bad in ops():
        yield i, decl, bad, None
    for i, decl, bad, ok in W:
        if i == 'unknown_X_method':     # an error of the C++ front end, not a loop rule
            continue
        for n, tpl in OUTER:
            yield "ctx_%s_%s" % (i, n), re.sub(r"\b(gwit|wmod|gw\d|wf\w+|gf|gwc|wst)\b", r"\1_o" + n, decl), \
                tpl % re.sub(r"\b(gwit|wmod|gw\d|wf\w+|gf|gwc|wst)\b", r"\1_o" + n, bad), \
                tpl % re.sub(r"\b(gwit|wmod|gw\d|wf\w+|gf|gwc|wst)\b", r"\1_o" + n, ok)
        for n, tpl in INNER:
            x, y = wrap_inner(bad, tpl), wrap_inner(ok, tpl)
            yield "ctx_%s_%s" % (i, n), decl, x, y
