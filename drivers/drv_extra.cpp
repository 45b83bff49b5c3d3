// Instantiates the less used parts of the library for the analyses.  Never run.
#include "hila.h"
#include "checkpoint.h"
#include "plumbing/plaquettefield.h"
#include "plumbing/clusters.h"

void plaquette_ops(const std::string &fn) {
    PlaquetteField<double> P;
    PlaquetteField<Complex<float>> Q;
    P.config_write(fn);
    P.config_read(fn);
    P.write(fn);
    P.read(fn);
    Q.config_write(fn);
    Q.config_read(fn);
    P = 0;
}

void field_lists(const std::string &fn, Field<double> &a, Field<float> &f, Field<Complex<double>> &c) {
    write_fields(fn, a, f, c);
    read_fields(fn, a, f, c);
    write_fields(fn, f, a);
    read_fields(fn, f, a);
}

void cluster_ops(const Field<double> &a) {
#ifdef AVX
    Field<int> f;
#else
    Field<uint8_t> f;
#endif
    onsites (ALL) {
        if (a[X] > 0)
            f[X] = 1;
        else
            f[X] = hila::Clusters::background;
    }
    hila::Clusters cl(f);
    cl.find(f);
    for (size_t i = 0; i < cl.number(); i++) {
        auto s = cl[i].sites();
        hila::out0 << cl[i].size() << cl[i].type() << cl[i].area() << s.size();
    }
}

template <typename G>
void gauge_more(GaugeField<G> &U, const std::string &fn) {
    GaugeField<G> V;
    V.block_gauge(U);
    V.block_gauge_to_current_lattice();
    V.unblock_gauge(U);
    V.config_write(fn);
    V.config_read(fn);
    VectorField<G> W;
    hila::swap(U, V);
    U.clear();
    int nt = 1, tr = 2;
    checkpoint(U, fn, nt, tr);
    hila::out0 << restore_checkpoint(U, fn, nt, tr);
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    Field<double> a;
    plaquette_ops("p");
    Field<float> lf;
    Field<Complex<double>> lc;
    field_lists("l", a, lf, lc);
    cluster_ops(a);
    GaugeField<SU<2, double>> U2;
    GaugeField<SU<3, float>> U3;
    gauge_more(U2, "x");
    gauge_more(U3, "x");
    auto p = hila::shuffle_directions();
    auto q = hila::shuffle_parities();
    hila::out0 << (int)p[0] << (int)q[0];
    hila::finishrun();
}
