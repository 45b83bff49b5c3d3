S = []
P = "libraries/plumbing/"
def seed(id, prop, needs, breaks, edits, files, run): S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, files=files, run=run))
HEAD = '#include "hila.h"\n#include <cstdio>\n#include <cstdlib>\n'

seed("c06-broadcast-array", "C06", "broadcast_array of a composite element type on more than one rank",
     "hila::broadcast_array sends only one number per element",
     [(P + "com_mpi.h", "MPI_Bcast((void *)var, sizeof(T) * n, MPI_BYTE, rank,", "MPI_Bcast((void *)var, sizeof(hila::arithmetic_type<T>) * n, MPI_BYTE, rank,")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    Complex<double> a[5];
    for (int i = 0; i < 5; i++) a[i] = Complex<double>(i + 1, hila::myrank() * 100 + i);
    hila::broadcast_array(a, 5, 0);
    int bad = 0;
    for (int i = 0; i < 5; i++) if (a[i].re != i + 1 || a[i].im != i) bad = 1;
    bad = hila::reduce_node_sum(bad, true) > 0;
    hila::out0 << (bad ? "DEMO wrong\n" : "DEMO right\n");
    hila::finishrun();
}
'''}, 'build_demo 3 demo.cpp\nrun_demo 2 | tee "$W/out" | grep DEMO\ngrep -q "DEMO right" "$W/out"')

seed("c06-vector-count", "C06", "a non-blocking reduction vector of complex numbers on more than one rank",
     "the non-blocking all-reduce of a ReductionVector combines one number per element",
     [(P + "reductionvector.h", """                MPI_Iallreduce(MPI_IN_PLACE, (void *)val.data(),
                               sizeof(T) * val.size() / sizeof(hila::arithmetic_type<T>), dtype,""",
       """                MPI_Iallreduce(MPI_IN_PLACE, (void *)val.data(), static_cast<int>(val.size()), dtype,""")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    ReductionVector<Complex<double>> r(4);
    r.nonblocking(true);
    r = 0;
    onsites(ALL) {
        r[X.coordinate(e_x) % 4] += Complex<double>(1, 2);
    }
    r.reduce();
    int bad = 0;
    for (int i = 0; i < 4; i++) if (r[i].re != 128 || r[i].im != 256) bad = 1;
    hila::out0 << (bad ? "DEMO wrong\n" : "DEMO right\n");
    hila::finishrun();
}
'''}, 'build_demo 3 demo.cpp\nrun_demo 2 | tee "$W/out" | grep DEMO\ngrep -q "DEMO right" "$W/out"')

seed("c13-ireduce-world", "C13", "partitions, and a non-blocking reduction to rank 0 only",
     "the non-blocking reduce to rank 0 combines the values of all partitions",
     [(P + "reduction.h", """                    MPI_Ireduce(MPI_IN_PLACE, ptr, sizeof(T) / sizeof(hila::arithmetic_type<T>),
                                dtype, operation, 0, lattice->mpi_comm_lat, &request);""",
       """                    MPI_Ireduce(MPI_IN_PLACE, ptr, sizeof(T) / sizeof(hila::arithmetic_type<T>),
                                dtype, operation, 0, MPI_COMM_WORLD, &request);"""),
      (P + "reduction.h", """                    MPI_Ireduce(ptr, ptr, sizeof(T) / sizeof(hila::arithmetic_type<T>), dtype,
                                operation, 0, lattice->mpi_comm_lat, &request);""",
       """                    MPI_Ireduce(ptr, ptr, sizeof(T) / sizeof(hila::arithmetic_type<T>), dtype,
                                operation, 0, MPI_COMM_WORLD, &request);""")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    Reduction<double> r;
    r.allreduce(false).nonblocking(true);
    onsites(ALL) r += 1.0 + hila::partitions.mylattice();
    double v = r.value();
    if (hila::myrank() == 0) {
        FILE *f = fopen("value", "w");
        fprintf(f, "%g\n", v);
        fclose(f);
    }
    hila::finishrun();
}
'''}, 'build_demo 3 demo.cpp\nrun_demo 4 -partitions 2 > "$W/out" 2>&1\nhead "$W"/partition*/value\n[ "$(cat "$W/partition0/value")" = 512 ] && [ "$(cat "$W/partition1/value")" = 1024 ]')

seed("c13-sendvec-world", "C13", "partitions, and a point-to-point transfer of a list",
     "send_to and receive_from of lists address ranks of the whole job",
     [(P + "com_mpi.h", "        MPI_Send(data.data(), sizeof(T) * s, MPI_BYTE, to_rank, hila::myrank(),\n                 lattice->mpi_comm_lat);",
       "        MPI_Send(data.data(), sizeof(T) * s, MPI_BYTE, to_rank, hila::myrank(), MPI_COMM_WORLD);"),
      (P + "com_mpi.h", "        MPI_Recv(data.data(), sizeof(T) * s, MPI_BYTE, from_rank, from_rank, lattice->mpi_comm_lat,\n                 MPI_STATUS_IGNORE);",
       "        MPI_Recv(data.data(), sizeof(T) * s, MPI_BYTE, from_rank, from_rank, MPI_COMM_WORLD,\n                 MPI_STATUS_IGNORE);")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    std::vector<double> d;
    double sum = -1;
    if (hila::myrank() == 1) {
        d = {1.0, 2.0 + hila::partitions.mylattice()};
        hila::send_to(0, d);
    }
    if (hila::myrank() == 0) {
        hila::receive_from(1, d);
        sum = d[0] + d[1];
        FILE *f = fopen("value", "w");
        fprintf(f, "%g\n", sum);
        fclose(f);
    }
    hila::finishrun();
}
'''}, 'build_demo 3 demo.cpp\nrun_demo 4 -partitions 2 > "$W/out" 2>&1\nhead "$W"/partition*/value\n[ "$(cat "$W/partition0/value")" = 3 ] && [ "$(cat "$W/partition1/value")" = 4 ]')

seed("c12-empty-list", "C12", "a broadcast of an empty list",
     "the broadcast timer is left running when the list is empty",
     [(P + "com_mpi.h", "    if (size > 0) {\n        // move vectors directly to the storage\n", "    if (size == 0)\n        return list;\n    {\n        // move vectors directly to the storage\n")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    std::vector<double> v;
    hila::broadcast(v);
    hila::broadcast(v);
    hila::finishrun();
}
'''}, 'build_demo 3 demo.cpp\nrun_demo 2 > "$W/out" 2>&1\ngrep -i "unbalanced" "$W/out"\ngrep -q "Finishing" "$W/out" && ! grep -q "unbalanced" "$W/out"')

seed("c12-write-buffer", "C12", "writing a field to a stream that has failed",
     "the output buffer is not released when the stream is in a failed state",
     [(P + "field_io.h", "    if (hila::myrank() == 0)\n        std::free(buffer);\n}\n\n\n/// Write the Field to a named", "    if (hila::myrank() == 0 && outputfile.good())\n        std::free(buffer);\n}\n\n\n/// Write the Field to a named")],
     {"demo.cpp": HEAD + r'''
#include <malloc.h>
#include <fstream>
static size_t used() { auto m = mallinfo2(); return m.uordblks + m.hblkhd; }
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    Field<double> f = 1;
    std::ofstream bad("/dev/full", std::ios::binary);
    f.write(bad);
    bad.flush();
    f.write(bad);
    size_t a = used();
    for (int i = 0; i < 20; i++) f.write(bad);
    size_t b = used();
    printf("DEMO grown by %ld\n", (long)(b - a));
    hila::out0 << ((long)(b - a) > 1000000 ? "DEMO wrong\n" : "DEMO right\n");
    hila::finishrun();
}
'''}, 'build_demo 3 demo.cpp\nrun_demo 1 > "$W/out" 2>&1\ngrep DEMO "$W/out"\ngrep -q "DEMO right" "$W/out"')

seed("c14-unblock-early", "C14", "a blocked lattice which has no sites on some rank, and another current lattice",
     "unblock_to leaves the blocked lattice current on ranks that hold none of its sites",
     [(P + "field_comm.h", """    // If no sites on this node there's nothing to do
    if (blocklat->mynode.volume == 0)
        return;

    // alloc temp array, size of the blocked lattice
    size_t bufsize = blocklat->mynode.volume;
    T *buf = (T *)d_malloc(bufsize * sizeof(T));

    CoordinateVector blockfactor = parentlat->l_size.element_div(blocklat->l_size);
    CoordinateVector cvmin = blocklat->mynode.min;
    auto size_factor = blocklat->mynode.size_factor;

    lattice.switch_to(blocklat);

#pragma hila direct_access(buf)
    onsites (ALL) {
        // get blocked coords logically on this node""", """    lattice.switch_to(blocklat);

    // If no sites on this node there's nothing to do
    if (lattice->mynode.volume == 0)
        return;

    // alloc temp array, size of the blocked lattice
    size_t bufsize = blocklat->mynode.volume;
    T *buf = (T *)d_malloc(bufsize * sizeof(T));

    CoordinateVector blockfactor = parentlat->l_size.element_div(blocklat->l_size);
    CoordinateVector cvmin = blocklat->mynode.min;
    auto size_factor = blocklat->mynode.size_factor;

#pragma hila direct_access(buf)
    onsites (ALL) {
        // get blocked coords logically on this node""")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    lattice_struct *base = lattice.ptr();
    Field<double> f = 1, g = 2;
    lattice.block({8, 4, 4});
    Field<double> b;
    b.block_from(f);
    lattice.switch_to(base);
    b.unblock_to(g);
    int bad = lattice.ptr() != base;
    int has0 = b.fs->mylattice->mynode.volume == 0;
    lattice.switch_to(base);
    bad = hila::reduce_node_sum(bad, true);
    has0 = hila::reduce_node_sum(has0, true);
    hila::out0 << "DEMO ranks without sites " << has0 << '\n';
    hila::out0 << (bad ? "DEMO wrong\n" : "DEMO right\n");
    hila::finishrun();
}
'''}, 'build_demo 3 demo.cpp\nrun_demo 8 > "$W/out" 2>&1\ngrep DEMO "$W/out"\ngrep -q "DEMO right" "$W/out"')

seed("c14-copy-case", "C14", "block_from between two fields of the same lattice while another lattice is current",
     "block_from leaves the fields' lattice current when no blocking is needed",
     [(P + "field_comm.h", "        lattice.switch_to(blocklat);\n        (*this) = orig;\n        lattice.switch_to(currentlat);\n        return;", "        lattice.switch_to(blocklat);\n        (*this) = orig;\n        return;")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    Field<double> f = 1, g = 2;
    lattice.block({2, 2, 2});
    lattice_struct *cur = lattice.ptr();
    g.block_from(f);
    hila::out0 << (lattice.ptr() != cur ? "DEMO wrong\n" : "DEMO right\n");
    lattice.switch_to_base();
    hila::finishrun();
}
'''}, 'build_demo 3 demo.cpp\nrun_demo 1 > "$W/out" 2>&1\ngrep DEMO "$W/out"\ngrep -q "DEMO right" "$W/out"')

HP = 'hp() { "$REPO/hilapp/bin/hilapp" -std=c++17 -DNDIM=3 -I"$REPO/libraries" -I"$REPO/libraries/plumbing" "$here/$1" -o "$W/out.cpt" > "$W/log" 2>&1; }\n'
LOOP = '#include "hila.h"\nvoid k(Field<double> &f, Field<double> &g, ReductionVector<double> &r) {\n    onsites(ALL) {\n        %s\n    }\n}\nint main(int argc, char **argv) { hila::initialize(argc, argv); }\n'
seed("c07-read-and-write", "C07", "a loop over all sites that assigns a field it reads both at the site and at a neighbour",
     "hilapp accepts loops whose result depends on the order in which sites are visited",
     [("hilapp/src/toplevelvisitor.cpp", "        if (l.is_written && l.dir_list.size() > 0) {\n\n            // There may be error, find culprits", "        if (l.is_written && !l.is_read_atX && l.dir_list.size() > 0) {\n\n            // There may be error, find culprits")],
     {"bad.cpp": LOOP % "f[X] = f[X] + f[X + e_x];", "good.cpp": LOOP % "f[X] = g[X] + g[X + e_x];"},
     HP + 'hp good.cpp || { tail "$W/log"; exit 2; }\nhp bad.cpp && { echo "the illegal loop is accepted"; exit 1; }\nexit 0')
seed("c07-mixed-vector", "C07", "three uses of a reduction vector in one loop of which the last is a product",
     "hilapp accepts sums and products of one reduction vector in one loop",
     [("hilapp/src/toplevelvisitor.cpp", "            if (ar.type == array_ref::REDUCTION && ar.reduction_type != reduction_type) {", "            if (ar.type == array_ref::REDUCTION && ar.refs.size() == 1 &&\n                ar.reduction_type != reduction_type) {")],
     {"bad.cpp": LOOP % "r[0] += f[X]; r[1] += g[X]; r[2] *= g[X];", "good.cpp": LOOP % "r[0] += f[X]; r[1] += g[X]; r[2] += g[X];"},
     HP + 'hp good.cpp || { tail "$W/log"; exit 2; }\nhp bad.cpp && { echo "the illegal loop is accepted"; exit 1; }\nexit 0')

CC = 'cc() { g++ -DHILAPP -std=c++17 -DNDIM=3 -I"$REPO/libraries" -I"$REPO/libraries/plumbing" -fsyntax-only $(OMPI_CXX=g++ mpic++ --showme:compile) "$here/$1" > "$W/log" 2>&1; }\n'
ALG = '#include "hila.h"\nvoid k() {\n    %s\n}\n'
seed("c08-inner-product", "C08", "an inner product of a shorter row vector with a longer vector",
     "inner products of vectors of different length compile",
     [("libraries/datatypes/matrix.h", '    static_assert(m == n, "Vector lengths do not match");', '    static_assert(m <= n, "Vector lengths do not match");')],
     {"bad.cpp": ALG % "RowVector<3, double> a; Vector<4, double> b; a.fill(1); b.fill(1); double c = a * b;", "good.cpp": ALG % "RowVector<4, double> a; Vector<4, double> b; a.fill(1); b.fill(1); double c = a * b;"},
     CC + 'cc good.cpp || { tail "$W/log"; exit 2; }\ncc bad.cpp && { echo "the ill-typed program compiles"; exit 1; }\nexit 0')
seed("c08-scalar-mult", "C08", "mult(scalar, matrix, result) with a result of another number of rows",
     "mult(scalar, matrix, result) accepts results of the wrong shape",
     [("libraries/datatypes/matrix.h", "inline void mult(const S &a, const Mt1 &b, out_only Mt2 &res) {\n    static_assert(Mt1::columns() == Mt2::columns() && Mt1::rows() == Mt2::rows(),", "inline void mult(const S &a, const Mt1 &b, out_only Mt2 &res) {\n    static_assert(Mt1::columns() == Mt2::columns() && Mt1::rows() <= Mt2::rows(),")],
     {"bad.cpp": ALG % "Matrix<2, 3, double> a; Matrix<3, 3, double> b; a = 1.0; mult(2.0, a, b);".replace("a = 1.0; ", ""), "good.cpp": ALG % "Matrix<3, 3, double> a, b; a = 1.0; mult(2.0, a, b);"},
     CC + 'cc good.cpp || { tail "$W/log"; exit 2; }\ncc bad.cpp && { echo "the ill-typed program compiles"; exit 1; }\nexit 0')

RUN2 = 'build_demo 3 demo.cpp\n(cd "$W"; true)\nrun_demo 2 | tee "$W/out" | grep DEMO\ngrep -q "DEMO right" "$W/out"'
seed("c18-tile-step", "C18", "a configuration of a smaller lattice read on a lattice it fits more than once, with unequal numbers of repetitions and sizes",
     "reading a smaller configuration puts its copies to wrong places",
     [(P + "field_io.h", "(coord_list[j][dir] + tsf * insize[dir]) % lsize[dir]", "(coord_list[j][dir] + tsf * scalef[dir]) % lsize[dir]")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    Field<double> f = 0;
    CoordinateVector small = {4, 8, 2};
    if (hila::myrank() == 0) {
        std::ofstream o("small.dat", std::ios::binary);
        for (int z = 0; z < 2; z++) for (int y = 0; y < 8; y++) for (int x = 0; x < 4; x++) {
            double d = x + 10 * y + 100 * z;
            o.write((char *)&d, sizeof(double));
        }
    }
    std::ifstream in;
    hila::open_input_file("small.dat", in);
    f.read(in, small);
    hila::close_file("small.dat", in);
    double bad = 0;
    onsites(ALL) {
        auto c = X.coordinates();
        double want = c[0] % 4 + 10 * (c[1] % 8) + 100 * (c[2] % 2);
        if (f[X] != want)
            bad += 1;
    }
    hila::out0 << (bad ? "DEMO wrong\n" : "DEMO right\n");
    hila::finishrun();
}
'''}, RUN2)
seed("c10-close-flag", "C10", "a write error that shows only when the file is closed (a full disk, data still in the buffer)",
     "an error at closing an output file is not seen and the run goes on as if the data had been written",
     [(P + "field_io.h", "        fstream.close();\n        if (fstream.fail()) {", "        const bool failed = fstream.fail();\n        fstream.close();\n        if (failed) {")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({4, 4, 4});
    Field<double> f = 1;
    f.write("/dev/full");
    hila::out0 << "DEMO wrong, went on\n";
    hila::finishrun();
}
'''}, 'build_demo 3 demo.cpp\nrun_demo 2 > "$W/out" 2>&1\nrc=$?\necho "status $rc"\n[ $rc != 0 ] && ! grep -q "DEMO wrong" "$W/out" && grep -q -i "dev/full" "$W/out"')
seed("c02-read-size", "C02", "a field read from a file after its neighbour values had been fetched, on more than one rank",
     "reading a field with a given lattice size leaves old neighbour values in use",
     [(P + "field_io.h", "void Field<T>::read(std::ifstream &inputfile, const CoordinateVector &insize) {\n    constexpr size_t sites_per_read = WRITE_BUFFER_SIZE / sizeof(T);\n    constexpr size_t read_size = sites_per_read * sizeof(T);\n\n    if (!this->is_allocated())\n        this->allocate();\n\n    assert_all_ranks_present();\n    will_change();\n    mark_changed(ALL);\n",
       "void Field<T>::read(std::ifstream &inputfile, const CoordinateVector &insize) {\n    constexpr size_t sites_per_read = WRITE_BUFFER_SIZE / sizeof(T);\n    constexpr size_t read_size = sites_per_read * sizeof(T);\n\n    assert_all_ranks_present();\n    if (!this->is_allocated()) {\n        this->allocate();\n        mark_changed(ALL);\n    }\n    will_change();\n")],
     {"demo.cpp": HEAD + r'''
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    lattice.setup({8, 8, 8});
    Field<double> f = 0, g = 0;
    onsites(ALL) f[X] = X.coordinate(e_x) + 10 * X.coordinate(e_y) + 100 * X.coordinate(e_z);
    f.write("f.dat");
    f = -1;
    foralldir(d) onsites(ALL) g[X] += f[X + d] + f[X - d];
    std::ifstream in;
    hila::open_input_file("f.dat", in);
    f.read(in, lattice.size());
    hila::close_file("f.dat", in);
    double bad = 0;
    foralldir(d) onsites(ALL) {
        auto c = X.coordinates();
        c[d] = (c[d] + 1) % 8;
        if (f[X + d] != c[0] + 10 * c[1] + 100 * c[2])
            bad += 1;
    }
    hila::out0 << (bad ? "DEMO wrong\n" : "DEMO right\n");
    hila::finishrun();
}
'''}, RUN2)
