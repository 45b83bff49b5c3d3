// random numbers in site loops, reached in every way a program can (C17)
#include "hila.h"
static_assert(NDIM >= 2, "");

#pragma hila loop_function contains_rng
double rng_elsewhere();

inline double rng_plain(double a) {
    return a * a;
}
inline double rng_function(double a) {
    return a * hila::random();
}
inline double rng_nested(double a) {
    return rng_function(a) + 1;
}
template <typename T>
T rng_template(T a) {
    return a * (T)hila::gaussrand();
}
inline void rng_out(out_only double &a) {
    a = hila::gaussrand();
}
struct rng_member {
    double v;
    double draw() const {
        return v * hila::random();
    }
    rng_member operator+(const rng_member &o) const {
        rng_member r;
        r.v = v + o.v * hila::random();
        return r;
    }
};

void rng_direct(Field<double> &a, Parity p) {
    onsites(p) a[X] = hila::random();
}
void rng_simple_assign(Field<double> &a, Parity p) {
    a[p] = hila::random();
}
void rng_through_function(Field<double> &a, Parity p) {
    onsites(p) a[X] = rng_function(a[X]);
}
void rng_through_nested(Field<double> &a, Parity p) {
    onsites(p) { a[X] = rng_nested(2); }
}
void rng_through_template(Field<double> &a, Field<float> &f) {
    onsites(ALL) { a[X] = rng_template(a[X]); }
    onsites(ALL) { f[X] = rng_template(f[X]); }
}
void rng_through_output(Field<double> &a) {
    onsites(ALL) {
        double t;
        rng_out(t);
        a[X] = t;
    }
}
void rng_through_member(Field<double> &a, Field<Complex<double>> &c, Field<SU<3, double>> &u, Field<Vector<3, Complex<double>>> &v) {
    onsites(ALL) {
        rng_member m;
        m.v = a[X];
        a[X] = m.draw();
    }
    onsites(ALL) c[X].gaussian_random();
    onsites(ODD) u[X].random();
    onsites(ALL) v[X].gaussian_random();
}
void rng_through_operator(Field<double> &a) {
    onsites(ALL) {
        rng_member m, n;
        m.v = a[X];
        n.v = 1;
        a[X] = (m + n).v;
    }
}
void rng_elsewhere_used(Field<double> &a) {
    onsites(ALL) a[X] = rng_elsewhere();
}
void rng_condition(Field<int> &a, double q) {
    onsites(EVEN) {
        if (hila::random() < q)
            a[X] = -a[X];
    }
}
double rng_reduction(Field<double> &a) {
    double s = 0;
    onsites(ALL) {
        s += a[X] * hila::random();
    }
    return s;
}
template <typename T>
void rng_in_template(Field<T> &a, Parity p) {
    onsites(p) {
        for (int i = 0; i < 2; i++)
            a[X] += (T)hila::random();
    }
}
void rng_instances(Field<float> &f, Field<double> &d) {
    rng_in_template(f, ALL);
    rng_in_template(d, EVEN);
}
struct rng_heatbath {
    Field<double> s;
    double beta;
    void update(Parity p) {
        onsites(p) {
            double r = hila::random();
            while (r > 0.5)
                r = hila::random() * beta;
            s[X] = r;
        }
    }
};
void rng_heatbath_run(rng_heatbath &h) {
    h.update(EVEN);
    h.update(ODD);
}
struct rng_ctor {
    double v;
    rng_ctor(double a) {
        v = a * hila::random();
    }
};
struct rng_ctor_init {
    double v;
    rng_ctor_init(double a) : v(a * hila::random()) {}
};
inline double rng_ctor_function(double a) {
    rng_ctor r(a);
    return r.v;
}
inline double rng_init_function(double a) {
    rng_ctor_init r(a);
    return r.v;
}
void rng_through_ctor(Field<double> &a) {
    onsites(ALL) {
        rng_ctor r(a[X]);
        a[X] = r.v;
    }
}
void rng_through_ctor_init(Field<double> &a) {
    onsites(ALL) {
        rng_ctor_init r(a[X]);
        a[X] = r.v;
    }
}
void rng_through_ctor_function(Field<double> &a) {
    onsites(ALL) a[X] = rng_ctor_function(a[X]);
}
void rng_through_init_function(Field<double> &a) {
    onsites(ALL) a[X] = rng_init_function(a[X]);
}

// several levels deep
inline double rng_level1(double a) {
    return rng_nested(a) + 1;
}
inline double rng_level2(double a) {
    return rng_level1(a) + 1;
}
inline double rng_level3(double a) {
    return rng_level2(a) + 1;
}
inline double rng_elsewhere_level(double a) {
    return a + rng_elsewhere();
}
inline double rng_operator_level(double a) {
    rng_member m, n;
    m.v = a;
    n.v = 1;
    return (m + n).v;
}
inline double rng_member_level(double a) {
    rng_member m;
    m.v = a;
    return m.draw();
}
template <typename T>
T rng_template_level(T a) {
    return rng_template(a) + rng_level3(2);
}
inline double rng_condition_level(double a) {
    if (a > 0) {
        for (int i = 0; i < 3; i++)
            a += rng_function(a);
    }
    return a;
}
inline double rng_after_shared(double a) {
    return rng_plain(a) + rng_level3(a);
}
void rng_levels(Field<double> &a, Field<float> &f) {
    onsites(ALL) a[X] = rng_level3(1);
    onsites(ALL) a[X] = rng_elsewhere_level(1);
    onsites(ALL) a[X] = rng_operator_level(a[X]);
    onsites(ALL) a[X] = rng_member_level(a[X]);
    onsites(ALL) f[X] = rng_template_level(f[X]);
    onsites(EVEN) a[X] += rng_condition_level(a[X]);
    onsites(ODD) a[X] = rng_after_shared(rng_plain(a[X]));
    // the function was looked at before, in another loop
    onsites(ALL) a[X] = rng_plain(a[X]);
    onsites(ALL) a[X] = rng_plain(a[X]) * rng_level3(1);
}
