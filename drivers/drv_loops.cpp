// Site loops of many shapes, so that the analyses see the code hilapp generates for them. Never run.
#include "hila.h"

template <typename T>
void loop_reads(Field<T> &a, Field<T> &b, Field<T> &c, Direction d, Parity p, const CoordinateVector &v) {
    onsites (ALL)
        a[X] = b[X + e_x];
    onsites (EVEN)
        a[X] += b[X - d];
    onsites (p) {
        if (X.coordinate(e_x) > 2)
            a[X] = b[X + d] + b[X - d] + c[X + e_y];
        else
            a[X] = c[X - e_y];
    }
    foralldir (d1)
        foralldir (d2)
            if (d1 != d2) {
                onsites (ODD)
                    c[X] += a[X + d1] + b[X - d2] + a[X + v];
            }
    a[ALL] = b[X + e_x] + b[X + d + e_y];
    a[p] -= c[X - d];
    Field<T> arr[NDIM];
    foralldir (d1) {
        arr[d1][ALL] = a[X + d1];
        onsites (p)
            arr[d1][X] = arr[(int)d][X + e_x];
    }
    onsites (opp_parity(p))
        a[X] = b[X - d] + a[X + e_x];
    // fields which are both written and read at neighbours, after other fields
    onsites (EVEN) {
        T t = b[X + e_x];
        a[X] = t + a[X - e_y] + a[X + d];
    }
    onsites (p) {
        T t = c[X - d] + b[X + e_y];
        if (X.coordinate(e_y) == 3)
            a[X] += t + a[X + d] - a[X - d] + a[X + e_x];
        c[X] = c[X + e_x] + t;
    }
    foralldir (d1) {
        onsites (ODD) {
            T t = b[X - d1];
            for (Direction dd = e_x; dd < NDIRS; ++dd)
                t += c[X + dd];
            for (int i = 0; i < NDIRS; i++)
                t += a[X + (Direction)i];
            a[X] = t;
            c[X] = t + a[X + d1];
        }
    }
    onsites (ODD)
        a[X] = b[X + e_x] + b[X - e_x] + c[X + e_y] + a[X + e_x] + a[X - e_x];
    for (Direction dd : {e_x, -e_x, e_y}) {
        onsites (ALL) {
            T t = b[X + dd];
            for (int i = 0; i < 3; i++) {
                t += c[X + dd];
                if (i == 1)
                    t += c[X - e_x];
            }
            a[X] = t;
        }
    }
}

template <typename T, typename R>
void loop_sums(Field<T> &a, Field<R> &b, Direction d, Parity p) {
    T s = 0, s2;
    s2 = a.get_element(CoordinateVector(e_x));
    R q = 1;
    double n = 0;
    long cnt = 0;
    onsites (ALL)
        s += a[X];
    onsites (p) {
        s += a[X + d];
        s2 += a[X] - a[X - d];
        cnt += 1;
    }
    onsites (EVEN) {
        if (b[X] > 0) {
            n += b[X];
            q *= b[X + e_x];
        } else
            n += 2;
    }
    Reduction<T> r;
    r.allreduce(false).delayed(true);
    foralldir (dd) {
        onsites (ALL)
            r += a[X + dd];
    }
    s = r.value();
    Reduction<R> r2;
    r2.nonblocking(true);
    r2 = 1;
    onsites (p) {
        r2 += b[X - d];
        n += b[X];
        b[X] = 1;
    }
    n += r2.value();
    R av[3] = {0, 0, 0};
    onsites (ALL) {
        av[1] += b[X];
        av[2] += 2 * b[X];
    }
    std::vector<R> bv(4);
    onsites (ODD)
        bv[2] += b[X + d];
    ReductionVector<R> rv(5);
    rv = 0;
    onsites (ALL) {
        rv[X.coordinate(e_x) % 5] += b[X];
        n += b[X + d];
    }
    rv.nonblocking(true).allreduce(false);
    onsites (p)
        rv[0] *= b[X];
    if (n > 0) {
        onsites (ALL)
            if (b[X] > 0)
                cnt += 1;
    } else {
        onsites (ALL)
            s2 += s;
    }
    hila::set_allreduce(false);
    onsites (ALL)
        q *= b[X];
    hila::out0 << s << s2 << n << cnt << q << rv[1] << av[1] << bv[2];
}

#define LOOPS_OF(T)                                                                                                    \
    void loops_##T(Field<T> &a, Field<T> &b, Field<T> &c, Field<double> &w, Direction d, Parity p,                      \
                   const CoordinateVector &v) {                                                                        \
        loop_reads(a, b, c, d, p, v);                                                                                   \
        loop_sums(a, w, d, p);                                                                                          \
    }
typedef Complex<double> cmpl;
typedef Matrix<2, 3, Complex<float>> mat23;
typedef SU<3, double> su3;
typedef Vector<4, double> vec4;
LOOPS_OF(double)
LOOPS_OF(float)
LOOPS_OF(cmpl)
LOOPS_OF(mat23)
LOOPS_OF(vec4)

void loop_random(Field<double> &a, Field<double> &b, Parity p, Direction d) {
    double s = 0;
    onsites (ALL)
        a[X] = hila::random();
    onsites (p) {
        a[X] = hila::gaussrand() + b[X + d];
        s += a[X];
    }
    onsites (EVEN) {
        if (hila::random() < 0.5)
            s += 1;
    }
    b.random();
    b.gaussian_random();
    Field<cmpl> z;
    onsites (ALL)
        z[X].gaussian_random();
    hila::out0 << s;
}

void loop_select(Field<double> &a, Field<double> &b, Parity p, Direction d) {
    SiteSelect s;
    SiteValueSelect<double> sv;
    onsites (ALL)
        if (a[X] > 1)
            s.select(X);
    onsites (p)
        if (a[X] > b[X + d])
            sv.select(X, a[X]);
    hila::out0 << s.size() << sv.size();
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    CoordinateVector sz;
    sz.fill(16);
    lattice.setup(sz);
    hila::finishrun();
}
