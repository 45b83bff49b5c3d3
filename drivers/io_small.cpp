// File input and output with a small write buffer, so that a few sites make several pieces.  Never run.
#include "hila.h"

template <typename T>
void io_ops(Field<T> &f, std::ofstream &o, std::ifstream &i, const CoordinateVector &v, const CoordinateVector &w) {
    f.write(o);
    f.read(i);
    f.read(i, v);
    f.write_subvolume(o, v, w);
    f.write_subvolume_binary(o, v, w);
}

int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    CoordinateVector v, w;
    v = 0;
    w = v;
    lattice.setup(v);
    std::ofstream o;
    std::ifstream i;
    Field<double> f;
    Field<Complex<double>> c;
    Field<Vector<3, double>> g;
    io_ops(f, o, i, v, w);
    io_ops(c, o, i, v, w);
    io_ops(g, o, i, v, w);
    hila::finishrun();
}
