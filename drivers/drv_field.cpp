// Instantiates the field interface for many element types, so that the analyses see it. Never run.
#include "hila.h"
#include "checkpoint.h"

template <typename T>
void common_ops(Field<T> &a, Field<T> &b, const CoordinateVector &cv, const std::string &fn) {
    a.set_boundary_condition(e_x, hila::bc::PERIODIC);
    a.copy_boundary_condition(b);
    a.check_alloc();
    b = a;
    Field<T> c(a);
    Field<T> e;
    e = std::move(c);
    hila::swap(a, b);
    a = 0;
    a += b;
    a -= b;
    foralldir (d) {
        onsites (EVEN)
            a[X] = b[X + d] + b[X - d];
        onsites (ODD)
            a[X] += b[X + d] - b[X - d];
        onsites (ALL)
            a[X] = a[X] + b[X + d];
    }
    for (Parity par : {EVEN, ODD}) {
        onsites (par) {
            T v = b[X + e_x];
            a[X] = v + b[X + e_y] + a[X];
            v = 0;
        }
        b[par] = a[X - e_y];
    }
    b[ALL] = a[X + e_x + e_y] - a[X + cv];
    b = a.shift(cv);
    a.shift(cv, b);
    a.shift(cv, b, EVEN);
    a.gather(e_x);
    a.gather(-e_y, ODD);
    a.start_gather(e_x, EVEN);
    b[EVEN] = a[X + e_x];
    a.set_element(cv, b.get_element(cv));
    a[cv] = b.get_element(cv);
    a[cv] += b.get_element(cv);
    a[cv] -= b.get_element(cv);
    T el = a[cv];
    std::vector<CoordinateVector> cl = {cv, cv};
    std::vector<T> ev = a.get_elements(cl);
    ev = a.get_elements(cl, true);
    b.set_elements(ev, cl);
    a.copy_from(b);
    ev = a.get_subvolume(cv, cv);
    ev = a.get_slice(cv);
    ev = a.get_slice(cv, true);
    a.copy_local_data(ev);
    a.copy_local_data_with_halo(ev);
    double n = a.squarenorm() + a.norm() + squarenorm_relative(a, b);
#ifndef AVX
    if (a == b || a != b)
#endif
        hila::out0 << n;

    a.write(fn);
    a.write(fn, false);
    a.read(fn);
    std::ofstream of;
    hila::open_output_file(fn, of);
    a.write(of);
    a.write(of, false, 3);
    hila::close_file(fn, of);
    std::ifstream in;
    hila::open_input_file(fn, in);
    a.read(in);
    a.read(in, cv);
    hila::close_file(fn, in);
    a.write_subvolume(fn, cv, cv);
    a.write_subvolume_binary(fn, cv, cv);
    a.write_slice(fn, cv);
    a.write_slice_binary(fn, cv);

    a.clear_buffered_shifts();
    a.clear();
}

template <typename T>
void reduction_ops(Field<T> &a, const CoordinateVector &cv) {
    T s = 0;
    onsites (ALL)
        s += a[X];
    onsites (EVEN) {
        s += a[X + e_x];
    }
    hila::set_allreduce(false);
    onsites (ODD)
        s += a[X];
    Reduction<T> r;
    r.allreduce(false).nonblocking().delayed();
    onsites (ALL)
        r += a[X];
    onsites (ALL)
        r += a[X];
    r.reduce();
    hila::out0 << r.value();
    r = s;
    r.set(s);
    r.start_reduce();
    r += s;
    ReductionVector<T> rv(10);
    rv.allreduce(false).nonblocking(true).delayed(true);
    rv = 0;
    onsites (ALL)
        rv[X.coordinate(e_x)] += a[X];
    onsites (ALL) {
        rv[X.coordinate(e_x)] += a[X];
        s += a[X];
    }
    rv.start_reduce();
    rv.wait();
    rv.reduce();
    rv.push_back(s);
    rv.pop_back();
    rv.resize(5);
    rv.resize(7, s);
    rv.vector();
    rv.clear();
    rv = nullptr;
    rv.init_sum();
    hila::out0 << a.sum() << a.sum(EVEN, false) << s;
    hila::reduce_node_sum(s);
    hila::reduce_node_sum(s, false);
    std::vector<T> vv(4);
    hila::reduce_node_sum(vv.data(), 4);
    hila::broadcast(s);
    hila::broadcast(s, 1);
    hila::broadcast(vv);
    std::array<T, 3> ar;
    hila::broadcast(ar);
    hila::broadcast_array(vv.data(), 3);
    T *arr = vv.data();
    hila::broadcast_array(arr, 3, 1);
    hila::send_to(1, s);
    hila::receive_from(0, s);
    hila::send_to(1, vv);
    hila::receive_from(0, vv);
}

template <typename T>
void real_ops(Field<T> &a, const CoordinateVector &cv) {
    CoordinateVector loc;
    hila::out0 << a.min() << a.max() << a.min(EVEN) << a.max(loc) << a.min(ODD, loc) << a.max(ODD, loc) << a.min(loc);
    T s = 1;
    onsites (ALL)
        s *= a[X];
    hila::reduce_node_product(s);
    hila::reduce_node_product(s, false);
    a[cv] *= s;
    a[cv] /= s;
    ReductionVector<T> rv(10);
    onsites (ALL)
        rv[0] *= a[X];
    rv.init_product();
    rv.reduce_product();
}

template <typename T>
void block_ops(Field<T> &a, Field<T> &b, const CoordinateVector &f) {
    Lattice base = lattice;
    if (lattice.can_block(f)) {
        lattice.block(f);
        Field<T> c;
        c.block_from(a);
        c.unblock_to(b);
        a.block_to_current_lattice();
        lattice.unblock();
    }
    lattice.switch_to(base);
    lattice.switch_to_base();
}

template <typename T>
void fft_ops(Field<T> &a, const CoordinateVector &cv) {
    Field<T> b = a.FFT();
    b = a.FFT(fft_direction::back);
    b = a.FFT(cv, fft_direction::forward);
    FFT_field(a, b);
    FFT_field(a, b, cv, fft_direction::back);
}

template <typename T>
void reflect_ops(Field<T> &a, const CoordinateVector &cv) {
    Field<T> b = a.reflect();
    b = a.reflect(cv);
    b = a.reflect(e_x);
}

template <typename T>
void rng_ops(Field<T> &a) {
    a.random();
    a.gaussian_random();
    onsites (ALL) {
        a[X] = hila::random();
    }
    onsites (EVEN) {
        T t;
        hila::gaussian_random(t);
        a[X] += t;
    }
}

void selections(Field<double> &a) {
    SiteSelect ss;
    SiteValueSelect<double> sv;
    ss.max_size(10).no_join();
    
    onsites (ALL) {
        if (a[X] > 0)
            ss.select(X);
        if (a[X] > 1)
            sv.select(X, a[X]);
    }
    hila::out0 << ss.size() << sv.size() << ss.coordinates(0) << sv.value(0);
    for (auto &s : ss.move_sites())
        hila::out0 << s.coordinates();
}

void input_ops(const std::string &fn) {
    hila::input p(fn);
    int i = p.get("i");
    long l = p.get("l");
    unsigned u = p.get("u");
    float f = p.get("f");
    double d = p.get("d");
    std::string s = p.get("s");
    Complex<double> c = p.get("c");
    Complex<float> cf = p.get("cf");
    CoordinateVector cv = p.get("cv");
    Vector<3, double> v = p.get("v");
    std::vector<int> iv = p.get("iv");
    std::vector<double> dv = p.get("dv");
    std::vector<std::string> sv = p.get("sv");
    int k = p.get_item("item", {"a", "b", "%f"});
    int k2 = p.get_item("item", {"a", "b"}, false);
    p.close();
    hila::out0 << i << l << u << f << d << s << c << cf << cv << v << k << k2 << iv.size() << dv.size() << sv.size();
}

template <typename G>
void gauge_ops(GaugeField<G> &U, const std::string &fn) {
    U.config_write(fn);
    U.config_read(fn);
    U.write(fn);
    U.read(fn);
    U.reunitarize_gauge();
    hila::out0 << U.measure_plaq();
    GaugeField<G> V;
    V = U;
    lattice.block({2, 2});
    V.block_gauge(U);
    U.block_gauge_to_current_lattice();
    hila::input p(fn);
    int nt = 1;
    double st = 0;
    int tr = 2;
    checkpoint(U, fn, nt, tr);
    checkpoint(U, fn, nt, tr, false);
    if (restore_checkpoint(U, fn, nt, tr))
        hila::out0 << st;
}

#include "plumbing/spectraldensity.h"
#include "plumbing/shuffle.h"

int main(int argc, char **argv) {
    hila::cmdline.add_flag("-x", "help");
    hila::initialize(argc, argv);
    CoordinateVector cv(0);
    lattice.setup(cv);
    hila::seed_random(1);
    hila::seed_random(0, false);

    Field<double> fd, fd2;
    Field<float> ff, ff2;
    Field<int> fi, fi2;
    Field<Complex<double>> fc, fc2;
    Field<Complex<float>> fcf, fcf2;
    Field<SU<3, double>> fu, fu2;
    Field<SU<2, float>> fs, fs2;
    Field<Vector<3, Complex<double>>> fv, fv2;
    Field<Matrix<2, 2, double>> fm, fm2;
    Field<Algebra<SU<3, double>>> fal, fal2;
    common_ops(fd, fd2, cv, "a");
    common_ops(ff, ff2, cv, "a");
    common_ops(fi, fi2, cv, "a");
    common_ops(fc, fc2, cv, "a");
    common_ops(fcf, fcf2, cv, "a");
    common_ops(fv, fv2, cv, "a");
    common_ops(fm, fm2, cv, "a");
    reduction_ops(fd, cv);
    reduction_ops(ff, cv);
    reduction_ops(fi, cv);
    reduction_ops(fc, cv);
    reduction_ops(fcf, cv);
    reduction_ops(fv, cv);
    reduction_ops(fm, cv);
    real_ops(fd, cv);
    real_ops(ff, cv);
    real_ops(fi, cv);
    block_ops(fd, fd2, cv);
    block_ops(fc, fc2, cv);
    block_ops(fv, fv2, cv);
    fft_ops(fc, cv);
    fft_ops(fcf, cv);
    fft_ops(fv, cv);
    reflect_ops(fc, cv);
    reflect_ops(fcf, cv);
    fc = fd.FFT_real_to_complex();
    fd = fc.FFT_complex_to_real();
    rng_ops(fd);
    rng_ops(fc);
    rng_ops(fm);
    fu.random();
    fu.gaussian_random();
    selections(fd);
    input_ops("f");
    std::string st = "x";
    hila::broadcast(st);
    std::vector<std::string> sl;
    hila::broadcast(sl);
    int ii;
    double dd;
    hila::broadcast2(ii, dd);
    hila::k_binning kb;
    kb.bins(10).k_max(3).power(1).exact_bins(2);
    auto b = kb.bin_k_field(fd);
    auto b2 = kb.bin_k_field_squarenorm(fc);
    auto b3 = kb.spectraldensity(fc);
    auto b4 = kb.spectraldensity(fd);
    hila::out0 << kb.k(1) << kb.count(1) << kb.bin_min(0);
    for (auto &x : hila::shuffle_directions_and_parities())
        hila::out0 << (int)x.parity;
    GaugeField<SU<3, double>> U;
    gauge_ops(U, "u");
    ExtendedPrecision ep;
    onsites (ALL)
        ep += fd[X];
    Reduction<ExtendedPrecision> rep;
    onsites (ALL)
        rep += fd[X];
    hila::out0 << ep.to_double() << rep.value().to_double();
    if (hila::time_to_finish())
        hila::synchronize_partitions();
    hila::synchronize();
    hila::finishrun();
}
