M = []
def bug(id, checks, *edits): M.append(dict(id=id, checks=checks.split(), edits=edits, bug=True))
def ok(id, checks, *edits): M.append(dict(id=id, checks=checks.split(), edits=edits, bug=False))
P = "libraries/plumbing/"
# ---- C12
bug("c12-bcast-early", "C12", (P + "com_mpi.h", "    if (size > 0) {\n        // move vectors directly to the storage", "    if (size == 0)\n        return list;\n    {\n        // move vectors directly to the storage"))
bug("c12-fft-plan", "C12", (P + "fft_fftw_transform.h", "        fftw_destroy_plan(fftwplan);\n        fftw_free(fftwbuf);\n    } else {", "        fftw_free(fftwbuf);\n    } else {"))
bug("c12-reflect", "C12", (P + "fft_fftw_transform.h", "    const int length = lattice.size(dir);\n\n    cmplx_t *buf = (cmplx_t *)memalloc(sizeof(cmplx_t) * length);\n", "    const int length = lattice.size(dir);\n\n    cmplx_t *buf = (cmplx_t *)memalloc(sizeof(cmplx_t) * length);\n    if (ncols == 0)\n        return;\n"))
bug("c12-write", "C12", (P + "field_io.h", "    if (hila::myrank() == 0)\n        std::free(buffer);\n}\n\n\n/// Write the Field to a named", "    if (hila::myrank() == 0 && outputfile.good())\n        std::free(buffer);\n}\n\n\n/// Write the Field to a named"))
bug("c12-drop", "C12", (P + "field.h", "drop_comms_timer.stop();", ";"))
bug("c12-wait", "C12", (P + "reduction.h", "            reduction_wait_timer.stop();\n            comm_is_on = false;", "            comm_is_on = false;"))
ok("c12-helper", "C12", (P + "com_mpi.h", "template <typename T>\nT broadcast(T &var, int rank = 0) {", "inline void bt_on() {\n    broadcast_timer.start();\n}\ninline void bt_off() {\n    broadcast_timer.stop();\n}\ntemplate <typename T>\nT broadcast(T &var, int rank = 0) {"),
   (P + "com_mpi.h", "    broadcast_timer.start();\n    MPI_Bcast(&var, sizeof(T), MPI_BYTE, rank, lattice->mpi_comm_lat);\n    broadcast_timer.stop();", "    bt_on();\n    MPI_Bcast(&var, sizeof(T), MPI_BYTE, rank, lattice->mpi_comm_lat);\n    bt_off();"))
ok("c12-raii", "C12", (P + "com_mpi.h", "template <typename T>\nT broadcast(T &var, int rank = 0) {", "struct bt_t {\n    hila::timer &t;\n    bt_t(hila::timer &a) : t(a) {\n        t.start();\n    }\n    ~bt_t() {\n        t.stop();\n    }\n};\ntemplate <typename T>\nT broadcast(T &var, int rank = 0) {"),
   (P + "com_mpi.h", "    broadcast_timer.start();\n    MPI_Bcast(&var, sizeof(T), MPI_BYTE, rank, lattice->mpi_comm_lat);\n    broadcast_timer.stop();", "    bt_t x(broadcast_timer);\n    MPI_Bcast(&var, sizeof(T), MPI_BYTE, rank, lattice->mpi_comm_lat);"))
ok("c12-writeflag", "C12", (P + "field_io.h", "        buffer = (T *)memalloc(write_size);", "        const size_t bytes = write_size;\n        buffer = static_cast<T *>(memalloc(bytes));"))
# ---- C14
bug("c14-early", "C14", (P + "field_comm.h", "    lattice.switch_to(parentlat);\n\n    CoordinateVector blockfactor = parentlat->l_size", "    lattice.switch_to(parentlat);\n    if (orig.fs->mylattice->mynode.volume == 0) {\n        d_free(buf);\n        return;\n    }\n\n    CoordinateVector blockfactor = parentlat->l_size"))
bug("c14-wrong", "C14", (P + "gaugefield.h", "        lattice.switch_to(currentlat);\n\n        d_free(buf);", "        if (blocklat != currentlat)\n            lattice.switch_to(parentlat);\n\n        d_free(buf);"))
bug("c14-late-save", "C14", (P + "field_comm.h", "    lattice_struct *currentlat = lattice.ptr();\n    lattice_struct *parentlat = blocklat->parent;", "    lattice_struct *parentlat = blocklat->parent;\n    lattice.switch_to(blocklat);\n    lattice_struct *currentlat = lattice.ptr();"))
ok("c14-raii", "C14", (P + "field_comm.h", "template <typename T>\nvoid Field<T>::block_from(", "struct lat_guard {\n    lattice_struct *l;\n    lat_guard() : l(lattice.ptr()) {}\n    ~lat_guard() {\n        lattice.switch_to(l);\n    }\n};\ntemplate <typename T>\nvoid Field<T>::block_from("),
   (P + "field_comm.h", "    lattice_struct *currentlat = lattice.ptr();\n\n    if (blocklat == parentlat) {\n        // No blocking, just copy\n        lattice.switch_to(blocklat);\n        (*this) = orig;\n        lattice.switch_to(currentlat);\n        return;", "    lat_guard lg;\n\n    if (blocklat == parentlat) {\n        // No blocking, just copy\n        lattice.switch_to(blocklat);\n        (*this) = orig;\n        return;"),
   (P + "field_comm.h", "        (*this)[X] = buf[cv.dot(size_factor)];\n    }\n\n    lattice.switch_to(currentlat);\n\n    d_free(buf);", "        (*this)[X] = buf[cv.dot(size_factor)];\n    }\n\n    d_free(buf);"))
ok("c14-lattobj", "C14", (P + "field_comm.h", "    lattice_struct *currentlat = lattice.ptr();\n    lattice_struct *parentlat = blocklat->parent;", "    Lattice currentlat = lattice;\n    lattice_struct *parentlat = blocklat->parent;"))
bug("c14-new", "C14", (P + "field_io.h", "    constexpr size_t sites_per_write = WRITE_BUFFER_SIZE / sizeof(T);\n    constexpr size_t write_size = sites_per_write * sizeof(T);\n\n    assert_all_ranks_present();\n\n    if (!binary)", "    constexpr size_t sites_per_write = WRITE_BUFFER_SIZE / sizeof(T);\n    constexpr size_t write_size = sites_per_write * sizeof(T);\n\n    assert_all_ranks_present();\n    if (fs->mylattice.ptr() != lattice.ptr())\n        lattice.switch_to(fs->mylattice.ptr());\n\n    if (!binary)"))
# ---- C05 / C02
F = P + "field.h"; FC = P + "field_comm.h"; FF = P + "fft_fftw_transform.h"; RD = P + "reduction.h"; RV = P + "reductionvector.h"
bug("c05-drop-odd", "C05", (F, "            if (is_gather_started(d, ODD)) {\n                drop_comms_timer.start();\n                wait_gather(d, ODD);\n                drop_comms_timer.stop();\n            }\n", ""))
bug("c05-drop-all", "C05 C02", (F, "        if (is_gather_started(d, ALL)) {\n            drop_comms_timer.start();\n            wait_gather(d, ALL);\n            drop_comms_timer.stop();\n        }\n        if (p != ALL) {", "        if (p == ALL && is_gather_started(d, ALL)) {\n            drop_comms_timer.start();\n            wait_gather(d, ALL);\n            drop_comms_timer.stop();\n        }\n        if (p != ALL) {"))
bug("c05-clear", "C05", (F, "            for (Direction d = (Direction)0; d < NDIRS; ++d)\n                drop_comms(d, ALL);", "            for (Direction d = (Direction)0; d < NDIRECTIONS; ++d)\n                drop_comms(d, ALL);") if False else (F, "            for (Direction d = (Direction)0; d < NDIRS; ++d)\n                drop_comms(d, ALL);", "            for (Direction d = (Direction)0; d < NDIM; ++d)\n                drop_comms(d, ALL);"))
bug("c05-send", "C05", (FC, "        // then wait for the sends\n        if (to_node.rank != hila::myrank() && boundary_need_to_communicate(-d)) {", "        // then wait for the sends\n        if (to_node.rank != hila::myrank() && to_node.rank != from_node.rank &&\n            boundary_need_to_communicate(-d)) {"))
bug("c05-gather-n1", "C05", (FC, "        if (nreqs > 0) {\n            std::vector<MPI_Status> stat_arr(nreqs);\n            MPI_Waitall(nreqs, mpi_req.data(), stat_arr.data());\n        }\n\n        // copy the data", "        if (nreqs > 1) {\n            std::vector<MPI_Status> stat_arr(nreqs);\n            MPI_Waitall(nreqs, mpi_req.data(), stat_arr.data());\n        }\n\n        // copy the data"))
bug("c05-scatter-n", "C05", (FC, "            MPI_Waitall(nreqs, mpi_req.data(), stat_arr.data());\n        }\n    }\n    // MPI_Barrier", "            MPI_Waitall(nreqs - 1, mpi_req.data(), stat_arr.data());\n        }\n    }\n    // MPI_Barrier"))
bug("c05-fft-send", "C05", (FF, "        MPI_Waitall(n_comms, recreq.data(), stat.data());\n        MPI_Waitall(n_comms, sendreq.data(), stat.data());\n    }\n\n    pencil_MPI_timer.stop();\n}\n\n//////////////////////////////////////////////////////////////////////////////////////\n/// inverse", "        MPI_Waitall(n_comms, recreq.data(), stat.data());\n    }\n\n    pencil_MPI_timer.stop();\n}\n\n//////////////////////////////////////////////////////////////////////////////////////\n/// inverse"))
bug("c05-fft-early", "C05", (FF, "    if (n_comms > 0) {\n        MPI_Waitall(n_comms, recreq.data(), stat.data());", "    if (n_comms > 1) {\n        MPI_Waitall(n_comms, recreq.data(), stat.data());"))
bug("c05-wait-flag", "C05", (RD, "            comm_is_on = false;\n        }\n    }\n\n  public:", "        }\n        comm_is_on = false;\n    }\n\n  public:") if False else (RD, "        if (comm_is_on) {\n            reduction_wait_timer.start();", "        if (comm_is_on && is_nonblocking()) {\n            reduction_wait_timer.start();"))
ok("c05-raii", "C05 C02", (FC, "template <typename T>\nvoid Field<T>::field_struct::gather_elements(", "struct req_list {\n    std::vector<MPI_Request> r;\n    int n = 0;\n    req_list(int k) : r(k) {}\n    MPI_Request *next() {\n        return &r[n++];\n    }\n    ~req_list() {\n        if (n > 0) {\n            std::vector<MPI_Status> st(n);\n            MPI_Waitall(n, r.data(), st.data());\n        }\n    }\n};\ntemplate <typename T>\nvoid Field<T>::field_struct::gather_elements("),
   (FC, "        std::vector<MPI_Request> mpi_req(nranks);\n        int nreqs = 0;\n        for (int n = 0; n < sites_on_rank.size(); n++) {\n            if (sites_on_rank[n] > 0) {\n                if (n != root) {\n                    MPI_Isend(", "        req_list rl(nranks);\n        for (int n = 0; n < sites_on_rank.size(); n++) {\n            if (sites_on_rank[n] > 0) {\n                if (n != root) {\n                    MPI_Isend("),
   (FC, "                              n, lattice->mpi_comm_lat, &mpi_req[nreqs++]);\n                }", "                              n, lattice->mpi_comm_lat, rl.next());\n                }"),
   (FC, "        if (nreqs > 0) {\n            std::vector<MPI_Status> stat_arr(nreqs);\n            MPI_Waitall(nreqs, mpi_req.data(), stat_arr.data());\n        }\n    }\n    // MPI_Barrier", "    }\n    // MPI_Barrier"))
ok("c05-drop-loop", "C05 C02", (F, "            if (is_gather_started(d, EVEN)) {\n                drop_comms_timer.start();\n                wait_gather(d, EVEN);\n                drop_comms_timer.stop();\n            }\n            if (is_gather_started(d, ODD)) {\n                drop_comms_timer.start();\n                wait_gather(d, ODD);\n                drop_comms_timer.stop();\n            }\n", "            for (Parity q : {EVEN, ODD}) {\n                if (!is_gather_started(d, q))\n                    continue;\n                drop_comms_timer.start();\n                wait_gather(d, q);\n                drop_comms_timer.stop();\n            }\n"))
ok("c05-fft-helper", "C05", (FF, "template <typename cmplx_t>\nvoid hila_fft<cmplx_t>::gather_data() {", "inline void wait_both(int n, std::vector<MPI_Request> &a, std::vector<MPI_Request> &b) {\n    std::vector<MPI_Status> st(n);\n    MPI_Waitall(n, a.data(), st.data());\n    MPI_Waitall(n, b.data(), st.data());\n}\ntemplate <typename cmplx_t>\nvoid hila_fft<cmplx_t>::gather_data() {"),
   (FF, "    if (n_comms > 0) {\n        MPI_Waitall(n_comms, recreq.data(), stat.data());\n        MPI_Waitall(n_comms, sendreq.data(), stat.data());\n    }\n\n    pencil_MPI_timer.stop();\n}\n\n//////////////////////////////////////////////////////////////////////////////////////\n/// inverse", "    if (n_comms > 0)\n        wait_both(n_comms, recreq, sendreq);\n\n    pencil_MPI_timer.stop();\n}\n\n//////////////////////////////////////////////////////////////////////////////////////\n/// inverse"))
ok("c05-fft-waitloop", "C05", (FF, "        MPI_Waitall(n_comms, recreq.data(), stat.data());\n        MPI_Waitall(n_comms, sendreq.data(), stat.data());", "        for (int k = 0; k < n_comms; k++) {\n            MPI_Wait(&recreq[k], &stat[k]);\n            MPI_Wait(&sendreq[k], &stat[k]);\n        }"))
bug("c02-copy", "C02", (F, "        fs->payload.copy_field(lattice, f.fs->payload);\n        mark_changed(ALL);", "        fs->payload.copy_field(lattice, f.fs->payload);"))
bug("c02-bc", "C02", (F, "        // Make sure boundaries get refreshed\n        mark_changed(ALL);", "        // Make sure boundaries get refreshed"))
ok("c02-fft", "C02", ("libraries/plumbing/fft.h", "        save_result(result);\n\n        result.mark_changed(ALL);", "        result.mark_changed(ALL);\n\n        save_result(result);"))
ok("c02-fft-none", "C02", ("libraries/plumbing/fft.h", "        result.mark_changed(ALL);", ""))
bug("c02-setel", "C02", (F, "            set_value_at(element, fs->mylattice->site_index(coord));\n        }\n        mark_changed(coord.parity());", "            set_value_at(element, fs->mylattice->site_index(coord));\n        }\n        mark_changed(opp_parity(coord.parity()));"))
bug("c02-setels", "C02", (FC, "my_indexes.size(), lattice);\n    mark_changed(ALL);", "my_indexes.size(), lattice);\n    mark_changed(coord_list.size() > 1 ? ALL : EVEN);"))
bug("c02-notall", "C02", (F, "            if (p != ALL) {\n                set_gather_status(ALL, i, gather_status_t::NOT_DONE);\n            } else {", "            if (p == ALL) {"))
bug("c02-shiftbuf", "C02", (F, "        fs->shift_buffer.clear();\n#endif\n    }", "        if (p == ALL)\n            fs->shift_buffer.clear();\n#endif\n    }"))
bug("c02-half", "C02", (F, "        for (Direction i = (Direction)0; i < NDIRS; ++i) {\n            // check if", "        for (Direction i = (Direction)0; i < NDIRS; ++i) {\n            if (lattice->nodes.number == 1 && is_up_dir(i)) continue;\n            // check if"))
ok("c02-markfirst", "C02", (F, "        fs->payload.copy_field(lattice, f.fs->payload);\n        mark_changed(ALL);", "        mark_changed(ALL);\n        fs->payload.copy_field(lattice, f.fs->payload);"))
ok("c02-helper", "C02 C05", (F, "    void mark_changed(const Parity p) const {\n", "    void forget(Direction i, Parity q) const {\n        set_gather_status(q, i, gather_status_t::NOT_DONE);\n    }\n    void mark_changed(const Parity p) const {\n"),
   (F, "            set_gather_status(opp_parity(p), i, gather_status_t::NOT_DONE);\n            if (p != ALL) {\n                set_gather_status(ALL, i, gather_status_t::NOT_DONE);\n            } else {\n                set_gather_status(EVEN, i, gather_status_t::NOT_DONE);\n                set_gather_status(ODD, i, gather_status_t::NOT_DONE);\n            }", "            forget(i, ALL);\n            if (p != ODD)\n                forget(i, ODD);\n            if (p != EVEN)\n                forget(i, EVEN);"))
G = "hilapp/src/codegen_cpu.cpp"
GG = "hilapp/src/codegen.cpp"
bug("c03-mask-overwrite", "C03", (G, 'code << "_dir_mask_ |= " << l.new_name << ".start_gather(" << d.direxpr_s', 'code << (l.is_written ? "_dir_mask_ = " : "_dir_mask_ |= ") << l.new_name << ".start_gather(" << d.direxpr_s'))
bug("c03-local-dirs-up", "C03", (G, '''code << "for (Direction HILA_dir_ = (Direction)0; HILA_dir_ < NDIRS; "
                        "++HILA_dir_) {\\n"
                     << "_dir_mask_ |= "''', '''code << "for (Direction HILA_dir_ = (Direction)0; HILA_dir_ < NDIM; "
                        "++HILA_dir_) {\\n"
                     << "_dir_mask_ |= "'''))
bug("c03-wait-first", "C03", (G, '''                        code << l.new_name << ".wait_gather(" << d.direxpr_s << ", "
                             << loop_info.parity_str << ");\\n";
                    }''', '''                        code << l.new_name << ".wait_gather(" << d.direxpr_s << ", "
                             << loop_info.parity_str << ");\\n";
                        if (l.is_written) break;
                    }'''))
bug("c03-wait-local", "C03", (G, '''            } else {
                code << "for (Direction HILA_dir_ = (Direction)0; HILA_dir_ < NDIRS; "
                        "++HILA_dir_) {\\n"
                     << "  " << l.new_name << ".wait_gather(''', '''            } else if (!l.is_written) {
                code << "for (Direction HILA_dir_ = (Direction)0; HILA_dir_ < NDIRS; "
                        "++HILA_dir_) {\\n"
                     << "  " << l.new_name << ".wait_gather('''))
bug("c03-mark-even", "C03", (GG, 'code << l.new_name << ".mark_changed(" << loop_info.parity_str << ");\\n";', 'code << l.new_name << ".mark_changed(" << (loop_info.parity_value == Parity::all && l.is_read_nb ? std::string("EVEN") : loop_info.parity_str) << ");\\n";'))
bug("c03-mark-cond", "C03", (GG, '''        if (l.is_written) {
            code << l.new_name << ".mark_changed(''', '''        if (l.is_written && !(l.is_read_atX && loop_info.has_conditional)) {
            code << l.new_name << ".mark_changed('''))
bug("c03-alloc", "C03", (GG, '''        if (l.is_written) {
            code << l.new_name << ".check_alloc();''', '''        if (l.is_written && !l.is_read_atX) {
            code << l.new_name << ".check_alloc();'''))
bug("c03-parity-all", "C03", (G, '''.start_gather(" << d.direxpr_s
                             << ", " << loop_info.parity_str << ");\\n";''', '''.start_gather(" << d.direxpr_s
                             << ", " << (l.is_written ? "opp_parity(" + loop_info.parity_str + ")" : loop_info.parity_str) << ");\\n";'''))
bug("c03-break", "C03", (G, '"}\\nif (_dir_mask_ == 0 || _hila_wait_i > 0) break;', '"}\\nif ((_dir_mask_ & (_dir_mask_ - 1)) == 0 || _hila_wait_i > 0) break;'))
bug("c03-loop-end", "C03", (G, 'hila_loop_lattice.loop_end(" << paritystr', 'hila_loop_lattice.loop_end(" << (reduction_list.empty() ? paritystr : "ALL")'))
bug("c03-dircount", "C03", (G, '''                    if (d.count > 0) {
                        code << l.new_name << ".wait_gather("''', '''                    if (d.count > 1 || l.dir_list.size() == 1) {
                        code << l.new_name << ".wait_gather("'''))
ok("c03-ok-order", "C03 C04", (G, '''        code << "const int _hila_loop_begin = hila_loop_lattice.loop_begin(" << paritystr << ");\\n";
        code << "const int _hila_loop_end   = hila_loop_lattice.loop_end(" << paritystr << ");\\n";
''', '''        code << "const int _hila_loop_end   = hila_loop_lattice.loop_end(" << paritystr << ");\\n";
        code << "const int _hila_loop_begin = hila_loop_lattice.loop_begin(" << paritystr << ");\\n";
'''))
ok("c03-ok-test", "C03 C04", (G, '''code << "if (((hila_loop_lattice.wait_arr_[" << looping_var
             << "] & _dir_mask_) != 0) == _hila_wait_i) {\\n";''', '''code << "const bool HILA_remote_ = (hila_loop_lattice.wait_arr_[" << looping_var
             << "] & _dir_mask_) != 0;\\nif (HILA_remote_ == (_hila_wait_i > 0)) {\\n";'''))
ok("c03-ok-break", "C03 C04", (G, 'if (_dir_mask_ == 0 || _hila_wait_i > 0) break;', 'if (_hila_wait_i == 1 || !_dir_mask_) break;'))
ok("c03-ok-nobreak", "C03 C04", (G, 'if (_dir_mask_ == 0 || _hila_wait_i > 0) break;', 'if (_hila_wait_i > 0) break;'))
ok("c03-ok-while", "C03 C04", (G, 'code << "for(int " << looping_var << " = _hila_loop_begin; " << looping_var\n         << " < _hila_loop_end; ++" << looping_var << ") {\\n";', 'code << "for(int " << looping_var << " = _hila_loop_begin; " << looping_var\n         << " != _hila_loop_end; " << looping_var << " += 1) {\\n";'))
bug("c04-old-value", "C04", (GG, '''                code << "if (hila::myrank() == 0) {\\n";
                sum_reductions = true;''', '''                code << "if (hila::myrank() >= 0) {\\n";
                sum_reductions = true;'''))
bug("c04-prod-init", "C04", (GG, 'code << r.reduction_name << " = 1;\\n";', 'code << r.reduction_name << " = " << (r.is_special_reduction ? "1" : r.name) << ";\\n";'))
bug("c04-setup-first", "C04", (GG, '''            if (v.reduction_type == reduction::SUM && !v.is_special_reduction) {
                code << "hila_reduce_sum_setup( &" << v.reduction_name << ");\\n";''', '''            if (v.reduction_type == reduction::SUM && !v.is_special_reduction && (!loop_info.has_conditional || &v == &reduction_list.front())) {
                code << "hila_reduce_sum_setup( &" << v.reduction_name << ");\\n";'''))
bug("c04-rv-init", "C04", (GG, '''            if (ar.reduction_type == reduction::SUM)
                code << ".init_sum();\\n";
            else
                code << ".init_product();\\n";''', '''            if (ar.reduction_type == reduction::SUM || reduction_list.size())
                code << ".init_sum();\\n";
            else
                code << ".init_sum();\\n";'''))
bug("c04-rv-first", "C04", (GG, '''                code << ar.name << ".reduce_sum();\\n";''', '''                { code << ar.name << ".reduce_sum();\\n"; if (reduction_list.size()) code << ar.name << ".reduce_sum();\\n"; }'''))
bug("c04-special", "C04", (GG, 'code << r.reduction_name << " = 0;\\n";', 'code << r.reduction_name << " = " << (r.is_special_reduction ? r.name + ".value()" : std::string("0")) << ";\\n";'))
bug("c04-prod-old", "C04", (GG, 'code << "if (hila::myrank() == 0) { " << v.reduction_name << " *= " << v.name\n                 << "; }\\n";', 'code << v.reduction_name << " *= " << v.name\n                 << ";\\n";'))
bug("c04-result", "C04", (GG, '''            if (v.reduction_type == reduction::SUM && !v.is_special_reduction) {
                code << v.name << " = " << v.reduction_name << ";\\n";''', '''            if (v.reduction_type == reduction::SUM && !v.is_special_reduction) {
                code << v.name << (field_info_list.size() > 1 ? " += " : " = ") << v.reduction_name << ";\\n";'''))
ok("c04-ok-order", "C04", (GG, '''                code << "if (hila::myrank() == 0) {\\n";
                sum_reductions = true;''', '''                code << "if (!hila::myrank()) {\\n";
                sum_reductions = true;'''))
ok("c04-ok-init", "C04", (GG, '''        code << r.type << " " << r.reduction_name << ";\\n";
        if (r.reduction_type == reduction::SUM) {
            code << r.reduction_name << " = 0;\\n";''', '''        if (r.reduction_type != reduction::SUM) code << r.type << " " << r.reduction_name << ";\\n";
        if (r.reduction_type == reduction::SUM) {
            code << r.type << " " << r.reduction_name << "(0);\\n";'''))
CPU = "hilapp/src/codegen_cpu.cpp"
bug("c11-random", "C11", (CPU, "target.openmp && !loop_info.contains_random", "target.openmp && !(loop_info.contains_random && loop_info.has_conditional)"))
bug("c11-rv", "C11", (CPU, "if (!has_reductionvector && selection_info_list.size() == 0) {", "if ((!has_reductionvector || reduction_list.size()) && selection_info_list.size() == 0) {"))
bug("c11-select", "C11", (CPU, "if (!has_reductionvector && selection_info_list.size() == 0) {", "if (!has_reductionvector && selection_info_list.size() <= 1) {"))
bug("c11-clause", "C11", (CPU, '''                if (r.reduction_type != reduction::NONE) {
                    code << " reduction(";''', '''                if (r.reduction_type != reduction::NONE && (!r.is_special_reduction || sums)) {
                    code << " reduction(";'''))
bug("c11-minmax", "C11", ("libraries/plumbing/reduction.h", "        #pragma omp critical\n", ""))
bug("c04-omp-sum", "C04", (CPU, "code << (r.reduction_type == reduction::PRODUCT ? '*' : '+');", "code << (r.reduction_type == reduction::PRODUCT && !loop_info.has_conditional ? '*' : '+');"))
ok("c11-ok-crit", "C11", ("libraries/plumbing/reduction.h", "        #pragma omp critical\n", "        #pragma omp critical(hila_minmax)\n"))
ok("c11-ok-two", "C11 C04", (CPU, "target.openmp && !loop_info.contains_random) {", "target.openmp) { if (!loop_info.contains_random) {"), (CPU, '''                code << '\\n';
        }
    }

    // keep track''' if 0 else '''            code << '\\n';
        }
    }

    // keep track''', '''            code << '\\n';
        }
    } }

    // keep track'''))
ok("c11-ok-collapse", "C11", (CPU, 'code << "#pragma omp parallel for";', 'code << "#pragma omp parallel for schedule(static)";'))
# ---- C01
bug("c01-open-in", "C01", (P + "field_io.h", "            hila::out0 << \"ERROR in opening file \" << filename << '\\n';\n            ok = false;\n        }\n    }\n    hila::broadcast(ok);\n    if (!ok)\n        hila::terminate(5);", "            hila::out0 << \"ERROR in opening file \" << filename << '\\n';\n            ok = false;\n        }\n    }\n    if (!ok) {\n        hila::broadcast(ok);\n        hila::terminate(5);\n    }"))
bug("c01-tag-late", "C01", (P + "field_comm.h", "    int tag = get_next_msg_tag();\n\n    const lattice_struct::nn_comminfo_struct &ci = lattice->nn_comminfo[d];\n    const lattice_struct::comm_node_struct &from_node = ci.from_node;\n    const lattice_struct::comm_node_struct &to_node = ci.to_node;\n", "    const lattice_struct::nn_comminfo_struct &ci = lattice->nn_comminfo[d];\n    const lattice_struct::comm_node_struct &from_node = ci.from_node;\n    const lattice_struct::comm_node_struct &to_node = ci.to_node;\n\n    if (from_node.rank == hila::myrank() && to_node.rank == hila::myrank())\n        return 0;\n    int tag = get_next_msg_tag();\n"))
bug("c01-timelimit", "C01", (P + "timing.cpp", "    hila::broadcast(finish);\n    return finish;", "    if (timelimit > 0 || signal != 0)\n        hila::broadcast(finish);\n    return finish;"))
bug("c01-ckpt", "C01", ("libraries/tools/checkpoint.h", "        hila::broadcast(exists);\n", ""))
bug("c01-input-value", "C01", (P + "input.h", "            if constexpr (std::is_same<T, std::string>::value) {\n                hila::broadcast(val);\n                hila::broadcast(no_error);", "            if constexpr (std::is_same<T, std::string>::value) {\n                if (no_error)\n                    hila::broadcast(val);\n                hila::broadcast(no_error);"))
bug("c01-input-open", "C01", (P + "input.cpp", "    hila::broadcast(got_error);\n", ""))
bug("c01-seed", "C01", (P + "random.cpp", "            hila::out0 << \"Random seed from time: \" << seed << '\\n';\n        }\n        hila::broadcast(seed);", "            hila::out0 << \"Random seed from time: \" << seed << '\\n';\n            hila::broadcast(seed);\n        }"))
bug("c01-elements", "C01", (P + "field_comm.h", "    fs->gather_elements(res.data(), coord_list);\n    if (bcast)\n        hila::broadcast(res);", "    fs->gather_elements(res.data(), coord_list);\n    if (bcast && res.size() > 0)\n        hila::broadcast(res);"))
bug("c01-element-root", "C01", (P + "field.h", "        hila::broadcast(element, owner);\n", "        hila::broadcast(element, hila::myrank() == owner ? hila::myrank() : 0);\n"))
bug("c01-sum-skip", "C01", (P + "com_mpi.h", "        hila_reduce_double_setup((double *)value, sizeof(T) / sizeof(double));", "        if (lattice->mynode.volume > 0)\n            hila_reduce_double_setup((double *)value, sizeof(T) / sizeof(double));"))
bug("c01-clusters", "C01", (P + "clusters.h", "        hila::barrier();\n\n        // deliver clist to all ranks after all\n        hila::broadcast(clist);", "        // deliver clist to all ranks after all\n        if (clist.size() > 0)\n            hila::broadcast(clist);"))
bug("c01-muca", "C01", ("libraries/tools/multicanonical.cpp", "    // Broadcast the update status to other processes along with the\n    // weight iteration parameter\n    hila::broadcast(flags);", "    // Broadcast the update status to other processes along with the\n    // weight iteration parameter\n    hila::broadcast(flags[update]);"))
bug("c01-vecbcast", "C01", (P + "com_mpi.h", "    if (size > 0) {\n        // move vectors directly to the storage", "    if (list.capacity() > 0) {\n        // move vectors directly to the storage"))
bug("c01-signal", "C01", (P + "timing.cpp", "    if_rank0() {\n        if (signal != 0) {\n            finish = true;", "    if (signal != 0 && hila::myrank() > 0)\n        return true;\n    if_rank0() {\n        if (signal != 0) {\n            finish = true;"))
ok("c01-ok-early", "C01", (P + "field_io.h", "    hila::broadcast(error);\n", "    bool failed = hila::broadcast(error);\n    error = failed;\n"))
ok("c01-ok-rank", "C01", (P + "field.h", "        hila::broadcast(element, owner);\n", "        const int src = owner;\n        if (hila::myrank() != owner)\n            hila::broadcast(element, src);\n        else\n            hila::broadcast(element, src);\n"))
ok("c01-ok-helper", "C01", (P + "timing.cpp", "    hila::broadcast(finish);\n    return finish;", "    auto deliver = [&]() { return hila::broadcast(finish); };\n    return deliver();"))
ok("c01-ok-tag", "C01", (P + "field_comm.h", "    int tag = get_next_msg_tag();\n\n    const lattice_struct::nn_comminfo_struct &ci = lattice->nn_comminfo[d];", "    const lattice_struct::nn_comminfo_struct &ci = lattice->nn_comminfo[d];\n    const int tag = get_next_msg_tag();\n"))
CB = P + "backend_cpu/field_storage_backend.h"; VB = P + "backend_vector/field_storage_backend.h"; VL = P + "backend_vector/lattice_vector.h"; LA = P + "lattice.cpp"
bug("c15-send-edge", "C15", (FC, "hila::bc::ANTIPERIODIC && lattice->mynode.is_on_edge(-d))\n        antiperiodic = true;", "hila::bc::ANTIPERIODIC && lattice->mynode.is_on_edge(d))\n        antiperiodic = true;"))
bug("c15-vec-send-edge", "C15", (FC, "hila::bc::ANTIPERIODIC && lattice->mynode.is_on_edge(-d)) {\n        antiperiodic = true;", "hila::bc::ANTIPERIODIC && lattice->mynode.is_on_edge(d)) {\n        antiperiodic = true;"))
bug("c15-local-noedge", "C15", (FC, "(boundary_condition[dir] == hila::bc::ANTIPERIODIC && lattice->mynode.is_on_edge(dir));", "(boundary_condition[dir] == hila::bc::ANTIPERIODIC);"))
bug("c15-abs", "C15", (FC, "(boundary_condition[dir] == hila::bc::ANTIPERIODIC && lattice->mynode.is_on_edge(dir));", "(boundary_condition[abs(dir)] == hila::bc::ANTIPERIODIC && lattice->mynode.is_on_edge(abs(dir)));"))
bug("c15-edge-def", "C15", (P + "lattice.h", "(!is_up_dir(d) && min[-d] == 0);", "(!is_up_dir(d) && min[-d] <= size[-d]);"))
bug("c15-perm-sign", "C15", (VB, "t[e + i] = leaves[i] ? -s[e + perm[i]] : s[e + perm[i]];", "t[e + i] = -s[e + perm[i]];"))
bug("c15-perm-lost", "C15", (VB, "t[e + i] = leaves[i] ? -s[e + perm[i]] : s[e + perm[i]];", "t[e + i] = leaves[i] ? -s[e + perm[i]] : s[e + i];"))
bug("c15-vec-start", "C15", (VB, "            if (par == EVEN)\n                end = vector_lattice->n_halo_vectors[dir] / 2;", "            if (par == EVEN)\n                end = (vector_lattice->n_halo_vectors[dir] + 1) / 4;"))
bug("c15-copy-elems", "C15", (VB, "                        for (unsigned e = 0; e < elements * vector_size; e++)\n                            t[e] = -s[e];\n                    }\n#endif\n                }\n            }\n        }", "                        for (unsigned e = 0; e < vector_size; e++)\n                            t[e] = -s[e];\n                    }\n#endif\n                }\n            }\n        }"))
bug("c15-vec-send", "C15", (VB, "    if (!antiperiodic) {\n        for (unsigned i = 0; i < n; i += vector_size) {", "    if (!antiperiodic || elements > 4) {\n        for (unsigned i = 0; i < n; i += vector_size) {"))
bug("c15-place-odd", "C15", (VB, "    if (par == ODD)\n        start = vlat->recv_list_size[d] / 2;", "    if (par != EVEN)\n        start = vlat->recv_list_size[d] / 2;"))
bug("c15-odd-start", "C15", (CB, "lattice->special_boundaries[dir].move_index + start, n, lattice);", "lattice->special_boundaries[dir].move_index, n, lattice);"))
bug("c15-memo", "C15", (LA, "    if (special_boundaries[d].is_needed == false || bc == hila::bc::PERIODIC)\n        return neighb[d];\n", "    if (special_boundaries[d].is_needed == false ||\n        (bc == hila::bc::PERIODIC && special_boundaries[d].neighbours == nullptr))\n        return neighb[d];\n"))
bug("c15-setnb", "C15", (F, "fs->neighbours[-dir] = mylat->get_neighbour_array(-dir, bc);", "fs->neighbours[-dir] = mylat->get_neighbour_array(-dir, fs->boundary_condition[-dir] == bc ? hila::bc::PERIODIC : bc);"))
bug("c15-copybc", "C15", (F, "            set_boundary_condition(dir, rhs.get_boundary_condition(dir));", "            if (rhs.get_boundary_condition(dir) != hila::bc::PERIODIC)\n                set_boundary_condition(dir, rhs.get_boundary_condition(dir));"))
bug("c15-table", "C15", (LA, "            special_boundaries[d].move_index[k++] = neighb[d][i];", "            special_boundaries[d].move_index[k++] = neighb[-d][i];"))
bug("c15-overlap", "C15", (LA, "                mynode.field_alloc_size += special_boundaries[d].n_total;", "                mynode.field_alloc_size += special_boundaries[d].n_even;"))
bug("c15-nolocal", "C15", (FC, "#ifndef MPI_BENCHMARK_TEST\n    fs->set_local_boundary_elements(d, par);", "#ifndef MPI_BENCHMARK_TEST\n    if (from_node.rank == hila::myrank())\n        fs->set_local_boundary_elements(d, p);"))
ok("c15-ok-edge", "C15", (FC, "    if (boundary_condition[d] == hila::bc::ANTIPERIODIC && lattice->mynode.is_on_edge(-d))\n        antiperiodic = true;", "    switch (boundary_condition[d]) {\n    case hila::bc::ANTIPERIODIC:\n        antiperiodic = lattice->mynode.min[abs(d)] == 0;\n        if (!is_up_dir(d))\n            antiperiodic = lattice->mynode.min[abs(d)] + lattice->mynode.size[abs(d)] ==\n                           lattice->l_size[abs(d)];\n        break;\n    default:\n        break;\n    }"))
ok("c15-ok-neg", "C15", (CB, "            buffer[j] = -get(index, lattice->mynode.field_alloc_size); /// requires unary - !!", "            T value = get(index, lattice->mynode.field_alloc_size);\n            buffer[j] = -value;"))
ok("c15-ok-table", "C15", (LA, "        if (coordinate(i, abs(d)) != coord) {\n            special_boundaries[d].neighbours[i] = neighb[d][i];\n        } else {\n            special_boundaries[d].neighbours[i] = offs++;\n            special_boundaries[d].move_index[k++] = neighb[d][i];\n        }", "        unsigned nb = neighb[d][i];\n        if (coordinate(i, abs(d)) == coord) {\n            special_boundaries[d].move_index[k] = nb;\n            nb = offs + k++;\n        }\n        special_boundaries[d].neighbours[i] = nb;"))
ok("c15-ok-vec", "C15", (VB, "                                t[e + i] = leaves[i] ? -s[e + perm[i]] : s[e + perm[i]];", "                                {\n                                    basetype v = s[e + perm[i]];\n                                    if (leaves[i])\n                                        v = -v;\n                                    t[e + i] = v;\n                                }"))
ok("c15-ok-memcpy", "C15", (VB, "                        for (unsigned e = 0; e < elements * vector_size; e++)\n                            t[e] = -s[e];\n                    }\n#endif\n                }\n            }\n        }", "                        std::memcpy(t, s, sizeof(T) * vector_size);\n                        for (unsigned e = 0; e < elements * vector_size; e++)\n                            t[e] = -t[e];\n                    }\n#endif\n                }\n            }\n        }"))

RN = P + "random.cpp"
CR = "hilapp/src/contains_random_visitor.cpp"
bug("c17-lossy", "C17", (RN, "    return (seed + n) ^ (n << 31);", "    return (seed + (n >> 1)) ^ ((n >> 1) << 31);"))
bug("c17-norank", "C17", (RN, "    uint64_t n = hila::myrank();\n    if (hila::partitions.number() > 1)\n        n += hila::partitions.mylattice() * hila::number_of_nodes();\n\n    return", "    uint64_t n = 0;\n    if (hila::partitions.number() > 1)\n        n += hila::partitions.mylattice() * hila::number_of_nodes();\n\n    return"))
bug("c17-wrap", "C17", (RN, "    return (seed + n) ^ (n << 31);", "    return (seed + n * 0) ^ (n << 60);"))
bug("c17-clock", "C17", (RN, "        hila::broadcast(seed);\n", ""))
bug("c17-unshuffled", "C17", (RN, "    seed = hila::shuffle_rng_seed(seed);\n\n    // #if", "    if (hila::partitions.number() > 1)\n        seed = hila::shuffle_rng_seed(seed);\n\n    // #if"))
bug("c17-trunc", "C17", (RN, "    mersenne_twister_gen.seed(seed);", "    mersenne_twister_gen.seed(seed & 1023);"))
bug("c17-check0", "C17", (RN, "    if (!rng_is_initialized) {\n        hila::out0 <<", "    if (!rng_is_initialized && hila::is_comm_initialized() && false) {\n        hila::out0 <<"))
bug("c17-check-goes-on", "C17", (RN, "                   << std::endl;\n        hila::terminate(1);\n    }\n#if defined", "                   << std::endl;\n    }\n#if defined"))
bug("c17-flag-early", "C17", (RN, "static bool rng_is_initialized = false;", "static bool rng_is_initialized = true;"))
bug("c17-gen-cond", "C17", (GG, "    if (loop_info.contains_random) {\n        code << \"hila::check", "    if (loop_info.contains_random && !loop_info.has_conditional) {\n        code << \"hila::check"))
bug("c17-gen-parity", "C17", (GG, "    if (loop_info.contains_random) {\n        code << \"hila::check", "    if (loop_info.contains_random && loop_info.parity_value == Parity::all) {\n        code << \"hila::check"))
ok("c17-ok-hash", "C17", (RN, "    return (seed + n) ^ (n << 31);", "    uint64_t z = seed + (n + 1) * 0x9e3779b97f4a7c15ULL;\n    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;\n    return z ^ (z >> 31);"))
ok("c17-ok-helper", "C17", (RN, "uint64_t shuffle_rng_seed(uint64_t seed) {\n\n    uint64_t n = hila::myrank();\n    if (hila::partitions.number() > 1)\n        n += hila::partitions.mylattice() * hila::number_of_nodes();\n", "static uint64_t stream_number() {\n    const bool several = hila::partitions.number() > 1;\n    return static_cast<uint64_t>(hila::myrank()) +\n           (several ? static_cast<uint64_t>(hila::partitions.mylattice()) * hila::number_of_nodes() : 0);\n}\n\nuint64_t shuffle_rng_seed(uint64_t seed) {\n\n    uint64_t n = stream_number();\n"))
ok("c17-ok-check", "C17", (RN, "    if (!rng_is_initialized) {\n        hila::out0 <<", "    const bool usable = hila::is_rng_seeded();\n    if (usable == false) {\n        hila::out0 <<"))
ok("c17-ok-clock", "C17", (RN, "            seed = (seed << 30) ^ tp.tv_nsec;", "            seed = (seed << 30) ^ tp.tv_nsec;\n            if (seed == 0)\n                seed = 1;"))
ok("c17-ok-gen", "C17", (GG, "    if (loop_info.contains_random) {\n        code << \"hila::check_that_rng_is_initialized();\\n\";\n    }", "    const char *check = loop_info.contains_random ? \"hila::check_that_rng_is_initialized();\\n\" : \"\";\n    code << check;"))
IN_ = P + "initialize.cpp"
IO_ = P + "field_io.h"
bug("c16-status", "C16", (IN_, "        hila::finish_communications();\n    }\n    exit(1);", "        hila::finish_communications();\n    }\n    exit(status);"))
bug("c16-return", "C16", (IN_, "    hila::out0 << \"Error: \" << msg << '\\n';\n    hila::terminate(0);", "    hila::out0 << \"Error: \" << msg << '\\n';\n    if (hila::myrank() == 0)\n        hila::terminate(0);"))
bug("c16-once", "C16", (IN_, "    hila::about_to_finish = true; // avoid destructors\n    if", "    if (hila::about_to_finish)\n        return;\n    hila::about_to_finish = true; // avoid destructors\n    if"))
bug("c16-wait", "C16", (FC, "            par = EVEN; // will be flipped\n        } else {\n            exit(1);", "            par = EVEN; // will be flipped\n        } else {\n            exit(0);"))
bug("c16-finish", "C16", (IO_, "    if (error)\n        hila::terminate(3);", "    if (error)\n        hila::finishrun();"))
bug("c16-error-finish", "C16", (IN_, "    hila::out0 << \"Error: \" << msg << '\\n';\n    hila::terminate(0);", "    hila::out0 << \"Error: \" << msg << '\\n';\n    if (hila::is_comm_initialized())\n        hila::finishrun();\n    hila::terminate(0);"))
ok("c16-ok-status", "C16", (IN_, "        hila::finish_communications();\n    }\n    exit(1);", "        hila::finish_communications();\n    }\n    exit(status > 0 && status < 100 ? status : 1);"))
ok("c16-ok-helper", "C16", (IN_, "void hila::terminate(int status) {\n", "static void end_process(int code) {\n    exit(code);\n}\n\nvoid hila::terminate(int status) {\n"), (IN_, "        hila::finish_communications();\n    }\n    exit(1);", "        hila::finish_communications();\n    }\n    end_process(EXIT_FAILURE);"))
CP = "libraries/tools/checkpoint.h"
GF = P + "gaugefield.h"
bug("c09-late-rename", "C09", (CP, "    if (save_old && hila::myrank() == 0 && filesys_ns::exists(config_file)) {\n        filesys_ns::rename(config_file, config_file + \".prev\");\n        // rename config to config.prev\n    }\n\n    // save config\n    U.config_write(config_file);\n", "    // save config\n    std::string tmp = config_file;\n    U.config_write(tmp);\n    if (save_old && hila::myrank() == 0 && filesys_ns::exists(config_file)) {\n        filesys_ns::rename(config_file, config_file + \".prev\");\n    }\n"))
bug("c09-traj", "C09", (CP, "    if (save_old && hila::myrank() == 0 &&", "    if (save_old && trajectory < n_trajectories && hila::myrank() == 0 &&"))
bug("c09-allranks", "C09", (CP, "    if (save_old && hila::myrank() == 0 && filesys_ns", "    if (save_old && filesys_ns"))
bug("c09-status-first", "C09", (CP, "    // save config\n    U.config_write(config_file);\n", ""), (CP, "        std::stringstream msg;\n        msg << \"Check", "        }\n    U.config_write(config_file);\n    if_rank0() {\n        std::stringstream msg;\n        msg << \"Check"))
bug("c10-close-local", "C10", (IO_, "    hila::broadcast(error);\n\n    if (error)\n        hila::terminate(3);\n\n    return !error;", "    hila::broadcast(error);\n    return true;"))
bug("c10-open-local", "C10", (IO_, "    hila::broadcast(ok);\n    if (!ok)\n        hila::terminate(5);\n\n    return ok;", "    hila::broadcast(ok);\n    return ok || hila::myrank() != 0;"))
bug("c10-fail-before-close", "C10", (IO_, "        fstream.close();\n        if (fstream.fail()) {", "        bool bad = fstream.fail();\n        fstream.close();\n        if (bad) {"))
bug("c10-finish", "C10", (IO_, "    if (error)\n        hila::terminate(3);", "    if (error)\n        hila::finishrun();"))
bug("c10-open-order", "C10", (IO_, "            ok = false;\n        }\n    }\n    hila::broadcast(ok);\n    if (!ok)\n        hila::terminate(4);", "        }\n        ok = inputfile_ok;\n    }\n    hila::broadcast(ok);\n    if (!ok)\n        hila::terminate(4);") if False else (IO_, "        outputfile.open(filename, mode);\n        outputfile.precision(precision);\n        if (outputfile.fail()) {", "        bool was = outputfile.fail();\n        outputfile.open(filename, mode);\n        outputfile.precision(precision);\n        if (was) {"))
bug("c18-header-order", "C18", (GF, "            f = NDIM;\n            outputfile.write(reinterpret_cast<char *>(&f), sizeof(int64_t));\n            f = sizeof(T);\n", "            f = sizeof(T);\n            outputfile.write(reinterpret_cast<char *>(&f), sizeof(int64_t));\n            f = NDIM;\n"))
bug("c18-check-size", "C18", (GF, "            ok = (f == sizeof(T));", "            ok = (f >= sizeof(T));") if False else (GF, "                ok = ok && (lattice.size(d) % insize[d] == 0);", "                ok = ok && insize[d] > 0;"))
bug("c18-dim", "C18", (GF, "            ok = (f == NDIM);", "            ok = (f >= 2 && f <= NDIM);"))
bug("c18-rev", "C18", (GF, "            foralldir (d) {\n                f = lattice.size(d);\n                outputfile.write", "            foralldir (d) {\n                f = lattice.size(Direction(NDIM - 1 - d));\n                outputfile.write"))
bug("c18-last-dim", "C18", (GF, "                ok = ok && (lattice.size(d) % insize[d] == 0);", "                ok = (lattice.size(d) % insize[d] == 0);"))
bug("c18-fields", "C18", (IO_, "    next.read(inputfile);\n    read_fields(inputfile, fields...);", "    read_fields(inputfile, fields...);\n    next.read(inputfile);"))
ok("c09-ok-copy", "C09 C10 C18", (CP, "    if (save_old && hila::myrank() == 0 && filesys_ns::exists(config_file)) {\n        filesys_ns::rename(config_file, config_file + \".prev\");\n", "    const bool keep = save_old && filesys_ns::exists(config_file);\n    const std::string prev = config_file + \".prev\";\n    if (hila::myrank() == 0 && keep) {\n        filesys_ns::rename(config_file, prev);\n"))
ok("c18-ok-helper", "C18 C09 C10", (GF, "        // write header\n        if_rank0() {\n            int64_t f = config_flag;\n            outputfile.write(reinterpret_cast<char *>(&f), sizeof(int64_t));\n            f = NDIM;\n            outputfile.write(reinterpret_cast<char *>(&f), sizeof(int64_t));\n            f = sizeof(T);\n            outputfile.write(reinterpret_cast<char *>(&f), sizeof(int64_t));\n", "        // write header\n        auto put = [&](int64_t v) {\n            outputfile.write(reinterpret_cast<const char *>(&v), sizeof(v));\n        };\n        if_rank0() {\n            int64_t f;\n            put(config_flag);\n            put(NDIM);\n            put(sizeof(T));\n"))
ok("c10-ok-close", "C10 C09", (IO_, "        fstream.close();\n        if (fstream.fail()) {", "        fstream.close();\n        if (!fstream.good()) {"))
ok("c10-ok-open", "C10 C09", (IO_, "        inputfile.open(filename, std::ios::in | std::ios::binary);\n        if (inputfile.fail()) {", "        inputfile.open(filename, std::ios::in | std::ios::binary);\n        if (!inputfile.is_open()) {"))
bug("c18-tile-step", "C18", (IO_, "(coord_list[j][dir] + tsf * insize[dir]) % lsize[dir]", "(coord_list[j][dir] + tsf * scalef[dir]) % lsize[dir]"))
bug("c18-sub-last", "C18", (IO_, "        if (i == n_write || j == sites) {\n            if (i < n_write)", "        if (i == n_write || j + 1 == sites) {\n            if (i < n_write)"))
bug("c18-read-rest", "C18", (IO_, "        if (sites < sites_per_read)\n            coord_list.resize(sites);\n\n        if_rank0 ()\n            inputfile.read((char *)buffer, sites * sizeof(T));", "        if (sites < sites_per_read)\n            coord_list.resize(sites);\n\n        if_rank0 ()\n            inputfile.read((char *)buffer, read_size);"))
bug("c18-insize-order", "C18", (IO_, "                coord_list[j][dir] = ind % insize[dir];\n                ind /= insize[dir];", "                coord_list[j][dir] = ind % insize[dir];\n                ind /= lsize[dir];"))
bug("c18-float", "C18", (IO_, "                                *(fp++) = hila::get_number_in_var(buffer[k], l);", "                                *(fp++) = hila::get_number_in_var(buffer[l], k);"))
bug("c18-tile-skip", "C18", (IO_, "for (size_t sci = 1; sci < scvol; ++sci) {", "for (size_t sci = 1; sci + 1 < scvol; ++sci) {"))
ok("c18-ok-push", "C18", (IO_, "        for (size_t j = 0; j < sites; j++) {\n            size_t ind = i + j;\n            foralldir (dir) {\n                coord_list[j][dir] = ind % insize[dir];\n                ind /= insize[dir];\n            }\n        }\n\n        if (sites < sites_per_read) {\n            coord_list.resize(sites);\n        }\n", "        coord_list.clear();\n        for (size_t j = i; j < i + sites; j++) {\n            size_t ind = j;\n            CoordinateVector cv;\n            foralldir (dir) {\n                cv[dir] = ind % insize[dir];\n                ind /= insize[dir];\n            }\n            coord_list.push_back(cv);\n        }\n"))
ok("c18-ok-range", "C18", (IO_, "        for (size_t j = 0; j < sites; j++)\n            coord_list[j] = mylat->global_coordinates(i + j);\n\n        if (sites < sites_per_read)\n            coord_list.resize(sites);\n", "        coord_list.resize(sites);\n        size_t at = i;\n        for (auto &c : coord_list)\n            c = mylat->global_coordinates(at++);\n"))
ok("c09-ok-ctor", "C09 C10", (CP, "        std::ofstream outf;\n        outf.open(\"run_status\", std::ios::out | std::ios::trunc);\n", "        std::ofstream outf(\"run_status\", std::ios::out | std::ios::trunc);\n"), (CP, "        outf.close();\n\n        std::stringstream msg;", "        outf.close();\n        std::stringstream msg;"))
ok("c10-ok-notok", "C09 C10 C18", (IO_, "        outputfile.precision(precision);\n        if (outputfile.fail()) {", "        outputfile.precision(precision);\n        if (!outputfile || !outputfile.is_open()) {"), (IO_, "    hila::broadcast(error);\n\n    if (error)\n        hila::terminate(3);\n\n    return !error;", "    const bool all_well = !hila::broadcast(error);\n    if (!all_well)\n        hila::terminate(3);\n    return all_well;"))
ok("c10-ok-fn", "C09 C10", (IO_, "    hila::broadcast(ok);\n    if (!ok)\n        hila::terminate(4);\n\n    return ok;", "    return hila::agree_or_end(ok, 4);"), (IO_, "template <typename OS, std::enable_if_t<std::is_same<OS, std::ofstream>::value, int> = 0>\nbool open_output_file", "inline bool agree_or_end(bool ok, int status) {\n    hila::broadcast(ok);\n    if (!ok)\n        hila::terminate(status);\n    return ok;\n}\n\ntemplate <typename OS, std::enable_if_t<std::is_same<OS, std::ofstream>::value, int> = 0>\nbool open_output_file"))
ok("c18-ok-rest", "C18", (IO_, "            for (size_t j = 0; j < sites; j++) {\n            size_t ind = i + j;", "XX") if False else (IO_, "        for (size_t sci = 1; sci < scvol; ++sci) {\n            std::vector<CoordinateVector> tcoord_list(coord_list.size());\n            size_t ind = sci;\n            foralldir (dir) {\n                int tsf = ind % scalef[dir];\n                ind /= scalef[dir];\n                for (size_t j = 0; j < sites; j++) {\n                    tcoord_list[j][dir] = (coord_list[j][dir] + tsf * insize[dir]) % lsize[dir];\n                }\n            }\n", "        for (size_t sci = 1; sci < scvol; ++sci) {\n            std::vector<CoordinateVector> tcoord_list = coord_list;\n            size_t ind = sci;\n            CoordinateVector shift;\n            foralldir (dir) {\n                shift[dir] = (ind % scalef[dir]) * insize[dir];\n                ind /= scalef[dir];\n            }\n            for (auto &c : tcoord_list)\n                c = (c + shift).mod(lsize);\n"))
bug("c09-exists-prev", "C09", (CP, "filesys_ns::exists(config_file)) {\n        filesys_ns::rename", "filesys_ns::exists(config_file + \".prev\")) {\n        filesys_ns::rename"))
bug("c09-keep-first", "C09", (CP, "filesys_ns::exists(config_file)) {\n        filesys_ns::rename", "filesys_ns::exists(config_file) && !filesys_ns::exists(config_file + \".prev\")) {\n        filesys_ns::rename"))
bug("c09-late-close", "C09", (GF, "        write(outputfile);\n        hila::close_file(filename, outputfile);\n    }\n\n    void config_read", "XX") if False else (CP, "        outf.close();\n\n        std::stringstream msg;", "        outf.close();\n        if (save_old)\n            filesys_ns::remove(config_file + \".prev\");\n\n        std::stringstream msg;"))
bug("c10-status3", "C10", (IO_, "    if (error)\n        hila::terminate(3);", "    if (error && hila::myrank() == 0)\n        hila::terminate(3);"))
bug("c10-bc-first", "C10", (IO_, "    hila::broadcast(ok);\n    if (!ok)\n        hila::terminate(4);\n\n    return ok;", "    if (ok)\n        hila::broadcast(ok);\n    else\n        hila::terminate(4);\n\n    return ok;"))
