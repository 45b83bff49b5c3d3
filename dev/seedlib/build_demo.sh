# build_demo NDIM PROGRAM.cpp : compiles the program with the HILA tree in the current directory; leaves $W/build/demo
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export OMPI_CXX=g++ OMPI_CC=gcc
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_pml=ob1 \
    OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 \
    OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
unset MAKEFLAGS MFLAGS CXXFLAGS CFLAGS LLVM_VERSION NDIM ARCH OPTS
build_demo() {
    mkdir -p "$W/src"
    cp "$here/$2" "$W/src/demo.cpp"
    cat > "$W/Makefile" <<M
HILA_DIR := $REPO
APP_OPTS := -DNDIM=$1
include \$(HILA_DIR)/libraries/main.mk
build/demo: Makefile build/demo.o \$(HILA_OBJECTS) \$(HEADERS)
	\$(LD) -o \$@ build/demo.o \$(HILA_OBJECTS) \$(LDFLAGS) \$(LDLIBS)
M
    (cd "$W" && make -j8 ARCH=vanilla "CXXFLAGS=-x c++ --std=c++17 -fno-rtti -O1 -mavx2 -mfma $3" \
        GIT_SHA_HILA=local GIT_SHA_APP=local CLEANED_GOALS=fixed build/demo) > "$W/log" 2>&1 || {
        tail -20 "$W/log"; echo "the demonstration does not build"; exit 2; }
}
run_demo() { # NP ARG...
    local np=$1; shift
    (cd "$W" && timeout -k 5 60 mpirun --oversubscribe --bind-to none -n "$np" build/demo "$@" < /dev/null)
}
