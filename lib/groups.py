"""Link groups: each group is one whole program set (library + clients) for one dimension and one code flavour."""
from pipeline import *

SUN = ["-DNDIM=4", "-DNCOLOR=3"]


def apps3(flavour="vanilla"):
    D = ["-DNDIM=3"]
    r = [app("hila_healthcheck", "hila_healthcheck", D + SBC, flavour)]
    if flavour == "vanilla":
        r += [app("benchmark", "bench", D + SBC), app("hila_example", "hila_example", D + SBC),
              app("hila_example", "hila_simple_example", D + SBC),
              app("hila_toy_codes", "minmax", D + SBC), app("hila_toy_codes", "simple_gpu", D + SBC),
              app("hila_toy_codes", "simple_hopping", D + SBC),
              app("multicanonical_example", "multicanonical_example", D + SBC),
              app("sun_realtime", "sun_realtime", D + SBC + ["-DNSU=2"])]
    return r


def apps4():
    return [app("suN_gauge_csf", "suN_gauge_csf", SUN + SBC + ["-DGFLOWACTION=3", "-DCSFLOWACTION=3", "-DSUN_OVERRELAX_dFJ"]),
            app("suN_gauge_gf", "suN_gauge_gf", SUN + SBC + ["-DGFLOWACTION=3", "-DBCOPEN=-1", "-DSUN_OVERRELAX_dFJ"]),
            app("suN_gauge_minmax_test", "minmax", SUN + SBC + ["-DGFLOWACTION=1"]),
            app("suN_gauge_surface", "suN_gauge_surface", SUN + SBC + ["-DSUN_OVERRELAX_dFJ"]),
            app("suN_hmc", "suN_hmc", SUN + SBC + ["-DHMCACTION=1", "-DGFLOWACTION=3", "-DSTOUTSMEAR=2"]),
            app("suN_hmc_stout_comp", "suN_hmc_stout_comp",
                SUN + SBC + ["-DHMCACTION=1", "-DGFLOWACTION=3", "-DSTOUTSMEAR=2", "-DSTOUTMODE=0"]),
            app("z_link_model", "z_link_model", ["-DNDIM=4", "-DPARITY=1", "-DPLAQ_SHIFT=1"] + SBC),
            app("test_cases", "test_FFT", ["-DNDIM=4"] + SBC, src=False)]


def drivers(ndim, flavour="vanilla"):
    import glob
    D = ["-DNDIM=%d" % ndim] + SBC
    return [driver(os.path.basename(f)[:-4], D, flavour, "_%dd" % ndim)
            for f in sorted(glob.glob(os.path.join(VERIF, "drivers", "drv_*.cpp")))
            # (random numbers are not vectorised: nothing more to see there)
            if not (flavour == "avx" and f.endswith("drv_rng.cpp"))]


def group(name):
    if name == "v3":
        return lib_units(3, defs=SBC) + apps3() + drivers(3)
    if name == "v4":
        return lib_units(4, defs=SBC) + apps4() + drivers(4)
    if name == "v2":
        D = ["-DNDIM=2"] + SBC
        return lib_units(2, defs=SBC) + [app("hila_healthcheck", "hila_healthcheck", D),
                                         app("ising", "ising", D, src=False), app("xy", "xy", D, src=False)]
    if name == "omp3":
        return lib_units(3, "openmp", SBC) + apps3("openmp") + drivers(3, "openmp")
    if name == "avx3":
        return lib_units(3, "avx", SBC) + apps3("avx") + drivers(3, "avx")
    # file input and output in small pieces
    if name in ("s2", "s3", "s4"):
        return [driver("io_small", ["-DNDIM=" + name[1], "-DWRITE_BUFFER_SIZE=80"] + SBC, "vanilla", "_%sd" % name[1])]
    # the library and the drivers alone
    if name.startswith("d"):
        nd, fl = int(name[1]), {"": "vanilla", "o": "openmp", "a": "avx"}[name[2:]]
        return lib_units(nd, fl, SBC) + drivers(nd, fl)
    raise KeyError(name)
