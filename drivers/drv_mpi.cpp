// One small function per value type and transfer operation: the analyses judge the MPI calls it makes. Never run.
#include "hila.h"

enum Base { INT_ = 1, UINT_, LONG_, ULONG_, FLOAT_, DOUBLE_, LDOUBLE_ };
typedef Complex<float> cf;
typedef Complex<double> cd;
typedef Matrix<2, 3, double> m23d;
typedef Vector<3, float> v3f;
typedef Matrix<2, 2, Complex<float>> m22cf;
typedef SquareMatrix<3, Complex<double>> m33cd;
typedef Array<2, 2, double> a22d;
typedef Vector<4, int> v4i;
typedef DiagonalMatrix<3, double> d3d;
typedef SU<3, double> su3d;
typedef SU<2, float> su2f;
typedef CoordinateVector cvec;
typedef unsigned uint_t;
typedef long double ldouble;
typedef Array<3, 1, Complex<float>> a3cf;
typedef Matrix<3, 1, long> v3l;

#define TYPES(X) \
    X(int, int, INT_) X(uint_t, unsigned, UINT_) X(long, long, LONG_) X(int64_t, int64_t, LONG_) X(uint64_t, uint64_t, ULONG_) \
    X(float, float, FLOAT_) X(double, double, DOUBLE_) X(ldouble, long double, LDOUBLE_) X(cf, float, FLOAT_) X(cd, double, DOUBLE_) \
    X(m23d, double, DOUBLE_) X(v3f, float, FLOAT_) X(m22cf, float, FLOAT_) X(m33cd, double, DOUBLE_) X(a22d, double, DOUBLE_) \
    X(v4i, int, INT_) X(su3d, double, DOUBLE_) X(su2f, float, FLOAT_) X(d3d, double, DOUBLE_) \
    X(a3cf, float, FLOAT_) X(v3l, long, LONG_)
#define SCALARS(X) \
    X(int, int, INT_) X(uint_t, unsigned, UINT_) X(long, long, LONG_) X(uint64_t, uint64_t, ULONG_) \
    X(float, float, FLOAT_) X(double, double, DOUBLE_) X(ldouble, long double, LDOUBLE_)
#define REDTYPES(X) \
    X(int, int, INT_) X(long, long, LONG_) X(float, float, FLOAT_) X(double, double, DOUBLE_) X(ldouble, long double, LDOUBLE_) \
    X(cf, float, FLOAT_) X(cd, double, DOUBLE_) X(m23d, double, DOUBLE_) X(v3f, float, FLOAT_) X(m22cf, float, FLOAT_) \
    X(m33cd, double, DOUBLE_) X(a22d, double, DOUBLE_) X(a3cf, float, FLOAT_)

extern "C" {
#define META(T, B, C) extern const long c06m__##T[3] = {sizeof(T), sizeof(B), C};
TYPES(META)
META(cvec, int, INT_)

// name: c06__<kind>__<type>__<count>__<operation>; count: a1 = the value of argument 1, v0 = length of the vector argument 0
#define SUMS(T, B, C) \
    void c06__reduce__##T##__a1__sum(T *p, int n, bool all) { hila::reduce_node_sum(p, n, all); } \
    void c06__reduce__##T##__1__sum(T &p, bool all) { hila::reduce_node_sum(p, all); } \
    void c06__setup__##T##__1__sum(T *p) { hila_reduce_sum_setup(p); } \
    void c06__bcast__##T##__1__none(T &p, int rank) { hila::broadcast(p, rank); } \
    void c06__bcast__##T##__a1__none(T *p, int n, int rank) { hila::broadcast_array(p, n, rank); } \
    void c06__bcast__##T##__v0__none(std::vector<T> &p, int rank) { hila::broadcast(p, rank); } \
    void c06__send__##T##__1__none(T &p, int rank) { hila::send_to(rank, p); } \
    void c06__recv__##T##__1__none(T &p, int rank) { hila::receive_from(rank, p); } \
    void c06__send__##T##__v0__none(std::vector<T> &p, int rank) { hila::send_to(rank, p); } \
    void c06__recv__##T##__v0__none(std::vector<T> &p, int rank) { hila::receive_from(rank, p); }
TYPES(SUMS)
void c06__bcast__cvec__1__none(cvec &p, int rank) { hila::broadcast(p, rank); }
void c06__bcast__cvec__v0__none(std::vector<cvec> &p, int rank) { hila::broadcast(p, rank); }
void c06__send__cvec__1__none(cvec &p, int rank) { hila::send_to(rank, p); }
void c06__recv__cvec__1__none(cvec &p, int rank) { hila::receive_from(rank, p); }

#define PRODS(T, B, C) \
    void c06__reduce__##T##__a1__prod(T *p, int n, bool all) { hila::reduce_node_product(p, n, all); } \
    void c06__reduce__##T##__1__prod(T &p, bool all) { hila::reduce_node_product(p, all); }
SCALARS(PRODS)

#define REDS(T, B, C) \
    void c06__reduce__##T##__R1__sum(Reduction<T> &r, const T &v) { r.reduce_sum_node(v); } \
    void c06__reduce__##T##__r0__sum(ReductionVector<T> &r) { r.delayed(false); r.reduce_sum(); }
REDTYPES(REDS)
#define REDP(T) void c06__reduce__##T##__r0__prod(ReductionVector<T> &r) { r.delayed(false); r.reduce_product(); }
REDP(int) REDP(long) REDP(float) REDP(double) REDP(ldouble)
#define MINMAX(T) T c06__minmax__##T##__1__none(Field<T> &f, bool mn, Parity par, CoordinateVector &loc) { return mn ? f.min(par, loc) : f.max(par, loc); }
MINMAX(int) MINMAX(long) MINMAX(float) MINMAX(double)
void c06__sums() { hila_reduce_sums(); }
void c06__bcaststring__s0(std::string &s, int rank) { hila::broadcast(s, rank); }

#define FIELDS(T, B, C) \
    void c06__field__##T##__getel(Field<T> &f, const std::vector<CoordinateVector> &l, std::vector<T> &r) { r = f.get_elements(l); } \
    void c06__field__##T##__gather(Field<T> &f, Direction d, Parity p) { f.gather(d, p); } \
    void c06__field__##T##__setel(Field<T> &f, const std::vector<CoordinateVector> &l, std::vector<T> &r) { f.set_elements(r, l); } \
    void c06__field__##T##__write(Field<T> &f, std::ofstream &o) { f.write(o); } \
    void c06__field__##T##__read(Field<T> &f, std::ifstream &o) { f.read(o); } \
    T c06__field__##T##__elem(Field<T> &f, const CoordinateVector &c) { return f.get_element(c); }
FIELDS(int, int, INT_) FIELDS(float, float, FLOAT_) FIELDS(double, double, DOUBLE_) FIELDS(cf, float, FLOAT_) FIELDS(cd, double, DOUBLE_)
FIELDS(m33cd, double, DOUBLE_) FIELDS(su3d, double, DOUBLE_) FIELDS(v3f, float, FLOAT_)
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    hila::finishrun();
}
