"""The configurations (compiler, flags) each property is explored under."""
COMMON_ASSUMPTIONS = [
    "x86-64, IEEE 754 binary32/binary64 and the 80-bit long double format; gcc 13 and clang 18 as installed",
    "the explorer itself (src/mc.hpp, src/fp.hpp) and the reference computations in src/p*.cpp are trusted",
    "values outside the enumerated spaces listed under coverage.spaces are not covered",
]
def job(name, src, cc="g++", flags=(), ld=("-lm",), tier=None, gen=None, std="c++20", opt="-O2"):
    return dict(name=name, src=src, cc=cc, flags=["-std=" + std, opt] + list(flags), ld=list(ld), tier=tier, gen=gen)
FORCE = ["-DMC_FORCE_CE"]
DET = ["-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off", "-DMC_DET"]
NATIVE = ["-march=native", "-DMC_NATIVE"]
RMODES = ["FE_UPWARD", "FE_DOWNWARD", "FE_TOWARDZERO", "FE_TONEAREST"]
def std4(src, extra=(), **kw):
    """default configurations: both compilers at run time, both with the constant-evaluation path forced"""
    return [job("gcc", src, "g++", list(extra), **kw), job("clang", src, "clang++", list(extra), **kw),
            job("cforce", src, "clang++", FORCE + list(extra), **kw), job("gforce", src, "g++", FORCE + list(extra), **kw)]
SPECS = {}
T_ONLY = ("thorough",)
# Code that runs in a directed rounding mode is built with -frounding-math, as both compilers require.
RND = ["-DMC_MODES", "-frounding-math"]
# ---- C01
js = std4("p01.cpp", ["-DMC_F32K=13"])
js[0] = job("gcc", "p01.cpp", "g++", ["-DMC_F32K=17"])
js += [job("native", "p01.cpp", "g++", NATIVE + ["-DMC_F32K=13"], opt="-O3"), job("clangnative", "p01.cpp", "clang++", NATIVE + ["-DMC_F32K=13"], opt="-O3"),
       job("det", "p01.cpp", "g++", DET + ["-DMC_F32K=11"]), job("cpp17", "p01.cpp", "g++", ["-DMC_F32K=11"], std="c++17", opt="-O1")]
js += [job("m-" + n, "p01.cpp", c, RND + x, opt=o, tier=t) for n, c, x, o, t in (("gcc", "g++", [], "-O2", None), ("clang", "clang++", [], "-O2", None), ("native", "g++", NATIVE, "-O3", None), ("clangnative", "clang++", NATIVE, "-O2", None), ("O0", "g++", [], "-O0", T_ONLY), ("det", "g++", DET, "-O2", None))]
js += [job("ct%d" % i, "p01.cpp", "clang++", FORCE + ["-DMC_CTMODE", "-DMC_F32K=9", "-DCCM_CONSTEXPR_ROUNDING_MODE=" + m]) for i, m in enumerate(RMODES)]
SPECS["C01"] = dict(jobs=js)
# ---- C02
SPECS["C02"] = dict(jobs=std4("p02.cpp") + [
    job("native", "p02.cpp", "g++", NATIVE, opt="-O3"),
    job("flags-gcc", "p02.cpp", "g++", ["-DMC_FLAGS", "-frounding-math", "-ftrapping-math"]),
    job("flags-clang", "p02.cpp", "clang++", ["-DMC_FLAGS", "-frounding-math", "-ffp-exception-behavior=strict"])])
# ---- C03
SPECS["C03"] = dict(jobs=std4("p03.cpp") + [job("native", "p03.cpp", "clang++", NATIVE, opt="-O3"), job("m-gcc", "p03.cpp", "g++", RND), job("m-clang", "p03.cpp", "clang++", RND)])
# ---- C04
SPECS["C04"] = dict(jobs=std4("p04.cpp", ["-DMC_F32K=15"]) + [job("native", "p04.cpp", "g++", NATIVE + ["-DMC_F32K=15"], opt="-O3"), job("O0", "p04.cpp", "clang++", ["-DMC_F32K=11"], opt="-O0")])
# ---- C05
SPECS["C05"] = dict(jobs=std4("p05.cpp") + [job("m-gcc", "p05.cpp", "g++", RND), job("m-clang", "p05.cpp", "clang++", RND)])
# ---- C06
SPECS["C06"] = dict(jobs=std4("p06.cpp") + [job("native", "p06.cpp", "g++", NATIVE, opt="-O3")])
# ---- C07
SPECS["C07"] = dict(jobs=[job("gcc", "p07.cpp", "g++", ["-DMC_DSTEP=12", "-DMC_LSTEP=250"]), job("clang", "p07.cpp", "clang++", ["-DMC_DSTEP=12", "-DMC_LSTEP=250"]),
    job("cforce", "p07.cpp", "clang++", FORCE + ["-DMC_DSTEP=30", "-DMC_LSTEP=600"]), job("gforce", "p07.cpp", "g++", FORCE + ["-DMC_DSTEP=60", "-DMC_LSTEP=900"])])
# ---- C08
CTM = lambda src, n, extra=(): [job("ct%d" % i, src, "clang++", FORCE + ["-DMC_CTMODE", "-DCCM_CONSTEXPR_ROUNDING_MODE=" + m] + list(extra)) for i, m in enumerate(RMODES[:n])]
SPECS["C08"] = dict(jobs=std4("p08.cpp")[:3] + [job("native", "p08.cpp", "g++", NATIVE, opt="-O3"), job("nobuiltin", "p08.cpp", "g++", ["-DCCM_CONFIG_DISABLE_RUNTIME_BUILTIN_FMA"]), job("det", "p08.cpp", "clang++", DET),
    job("m-gcc", "p08.cpp", "g++", RND), job("m-clang", "p08.cpp", "clang++", RND), job("m-nobuiltin", "p08.cpp", "clang++", RND + ["-DCCM_CONFIG_DISABLE_RUNTIME_BUILTIN_FMA"])] + CTM("p08.cpp", 4))
# ---- C09
SPECS["C09"] = dict(jobs=[job("gcc", "p09.cpp", "g++", ["-DMC_F32K=21"]), job("clang", "p09.cpp", "clang++"), job("cforce", "p09.cpp", "clang++", FORCE + ["-DMC_F32K=19"]), job("gforce", "p09.cpp", "g++", FORCE),
    job("native", "p09.cpp", "g++", NATIVE, opt="-O3"), job("det", "p09.cpp", "clang++", DET), job("m-gcc", "p09.cpp", "g++", RND), job("m-clang", "p09.cpp", "clang++", RND), job("m-det", "p09.cpp", "g++", RND + DET)] + CTM("p09.cpp", 3))
# ---- C10
PLD = ("-lm", "-lmpfr", "-lgmp", "/usr/lib/gcc/x86_64-linux-gnu/13/libquadmath.so")
INTREE = ["-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW", "-DMC_CR"]
SPECS["C10"] = dict(jobs=[job("gcc", "p10.cpp", "g++", ["-DMC_FSTEP=2", "-DMC_DSTEP=12"], ld=PLD), job("clang", "p10.cpp", "clang++", ld=PLD), job("gforce", "p10.cpp", "g++", FORCE, ld=PLD), job("cforce", "p10.cpp", "clang++", FORCE + ["-DMC_CR", "-DMC_FSTEP=2", "-DMC_DSTEP=12"], ld=PLD),
    job("intree", "p10.cpp", "g++", INTREE, ld=PLD), job("native", "p10.cpp", "g++", NATIVE, opt="-O3", ld=PLD), job("m-gcc", "p10.cpp", "g++", RND, ld=PLD), job("m-clang", "p10.cpp", "clang++", RND, ld=PLD),
    job("m-det", "p10.cpp", "g++", RND + DET + ["-DMC_CR"], ld=PLD), job("m-native", "p10.cpp", "clang++", RND + NATIVE + INTREE, ld=PLD), job("m-simd", "p10.cpp", "g++", RND + NATIVE + INTREE + ["-DCCM_CONFIG_USE_RT_SIMD", "-ffp-contract=off"], ld=PLD), job("m-contract", "p10.cpp", "g++", RND + NATIVE + INTREE, ld=PLD), job("m-simdbase", "p10.cpp", "clang++", RND + INTREE + ["-DCCM_CONFIG_USE_RT_SIMD"], ld=PLD)])
# ---- C11-C14: accuracy against the next wider format
ACCJ = lambda src, ld=("-lm",), fk=17, dk=9: [job(n, src, c, list(x) + ["-DMC_FK=%d" % fk, "-DMC_DK=%d" % dk], ld=ld, opt=o) for n, c, x, o in (("gcc", "g++", [], "-O2"), ("clang", "clang++", [], "-O2"), ("native", "g++", NATIVE, "-O3"), ("det", "g++", DET, "-O2"), ("detnative", "clang++", DET + NATIVE, "-O2"), ("detfma", "g++", ["-DCCM_CONFIG_DETERMINISTIC", "-DMC_DET"] + NATIVE, "-O3"), ("cforce", "clang++", FORCE, "-O2"), ("gforce", "g++", FORCE, "-O2"))]
SPECS["C11"] = dict(jobs=ACCJ("p11.cpp", fk=19, dk=9))
SPECS["C12"] = dict(jobs=ACCJ("p12.cpp", fk=18, dk=8))
SPECS["C13"] = dict(jobs=ACCJ("p13.cpp", ("-lm", "-lmpfr", "-lgmp"), fk=16, dk=7))
SPECS["C14"] = dict(jobs=ACCJ("p14.cpp", fk=18, dk=10))
SPECS["C15"] = dict(jobs=ACCJ("p15.cpp", fk=17, dk=8))
SPECS["C16"] = dict(jobs=ACCJ("p16.cpp", ("-lm", "-lmpfr", "-lgmp")))
SPECS["C17"] = dict(jobs=[job("gcc", "p17.cpp", "g++"), job("cforce", "p17.cpp", "clang++", FORCE), job("native", "p17.cpp", "g++", NATIVE, opt="-O3"), job("clangnative", "p17.cpp", "clang++", NATIVE)])
SPECS["C18"] = dict(jobs=std4("p18.cpp")[:3] + [job("O0", "p18.cpp", "g++", opt="-O0"), job("native", "p18.cpp", "clang++", NATIVE, opt="-O3")])
# ---- C19: genuine constant evaluation
SPECS["C19"] = dict(jobs=[job("g%d-%s" % (g, c), "p19.cpp", c, ["-DMC_G=%d" % g], opt="-O0") for g in (3, 4, 1, 2, 5) for c in ("clang++", "g++")] + [job("g%d-cpp17" % g, "p19.cpp", "g++", ["-DMC_G=%d" % g], opt="-O1", std="c++17") for g in (1, 2)])

# ---- C20: digests of every result compared across builds
det = lambda n, c, o, x=(), t=None, std="c++20": job(n, "p20.cpp", c, DET + list(x), opt=o, tier=t, std=std)
C20J = [det("gcc-O2", "g++", "-O2"), det("gcc-O0", "g++", "-O0"), det("gcc-O3-native", "g++", "-O3", ["-march=native"]), det("gcc-O1-17", "g++", "-O1", std="c++17"), det("gcc-avx2", "g++", "-O2", ["-mavx2"], T_ONLY), det("gcc-Os", "g++", "-Os", (), T_ONLY), det("clang-O2", "clang++", "-O2"), det("clang-O0", "clang++", "-O0"), det("clang-O3-native", "clang++", "-O3", ["-march=native"]), det("clang-simd", "clang++", "-O2", ["-mavx2", "-DCCM_CONFIG_USE_RT_SIMD"], T_ONLY), det("gcc-simd", "g++", "-O2", ["-march=native", "-DCCM_CONFIG_USE_RT_SIMD"])]
SPECS["C20"] = dict(jobs=C20J + [det("lib-gcc", "g++", "-O2", ["-DMC_INTERPOSE"]), det("lib-clang", "clang++", "-O2", ["-DMC_INTERPOSE"])], relations=[[j["name"] for j in C20J]])
# ---- C21, C22: the floating-point environment
SPECS["C21"] = dict(jobs=[job("gcc", "p21.cpp", "g++", RND), job("clang", "p21.cpp", "clang++", RND), job("det", "p21.cpp", "g++", RND + DET), job("native", "p21.cpp", "clang++", RND + NATIVE, opt="-O3")])
STRICT = ["-frounding-math", "-ffp-exception-behavior=strict"]
SPECS["C22"] = dict(jobs=[job("gcc", "p22.cpp", "g++", ["-frounding-math"]), job("clang", "p22.cpp", "clang++", STRICT), job("native", "p22.cpp", "g++", NATIVE, opt="-O3"), job("O0", "p22.cpp", "g++", opt="-O0")])
# ---- C23: with and without errno handling
NOERR = ["-DMC_NOERRNO", "-DCCM_CONFIG_DISABLE_ERRNO"]
SPECS["C23"] = dict(jobs=[job("gcc", "p23.cpp", "g++"), job("gcc-off", "p23.cpp", "g++", NOERR[1:]), job("clang", "p23.cpp", "clang++"), job("clang-off", "p23.cpp", "clang++", NOERR[1:]), job("det", "p23.cpp", "g++", DET), job("det-off", "p23.cpp", "g++", DET + NOERR),
    job("cdet", "p23.cpp", "clang++", DET), job("cdet-off", "p23.cpp", "clang++", DET + NOERR), job("native", "p23.cpp", "g++", NATIVE, opt="-O3"), job("native-off", "p23.cpp", "g++", NATIVE + NOERR[1:], opt="-O3"), job("cforce", "p23.cpp", "clang++", FORCE), job("cforce-off", "p23.cpp", "clang++", FORCE + NOERR)],
    relations=[["gcc", "gcc-off"], ["clang", "clang-off"], ["det", "det-off"], ["cdet", "cdet-off"], ["native", "native-off"], ["cforce", "cforce-off"]])
# ---- C24-C26: ext helpers
SPECS["C24"] = dict(jobs=std4("p24.cpp") + [job("native", "p24.cpp", "g++", NATIVE, opt="-O3"), job("det", "p24.cpp", "clang++", DET), job("cpp17", "p24.cpp", "g++", opt="-O1", std="c++17")])
SPECS["C25"] = dict(jobs=std4("p25.cpp") + [job("native", "p25.cpp", "g++", NATIVE, opt="-O3"), job("det", "p25.cpp", "clang++", DET), job("cpp17", "p25.cpp", "g++", opt="-O1", std="c++17")])
SPECS["C26"] = dict(jobs=[job("gcc", "p26.cpp", "g++", opt="-O1"), job("ubsan", "p26.cpp", "clang++", ["-fsanitize=undefined", "-fsanitize-trap=all"], opt="-O1"), job("gforce", "p26.cpp", "g++", FORCE, opt="-O1", std="c++17")])
# ---- C27
P27 = lambda n, c, part, x=(), t=None, o="-O1": job("%s-%d" % (n, part), "p27.cpp", c, ["-DMC_PART=%d" % part] + list(x), opt=o, tier=t, ld=("-lm", "-lgmp"))
SPECS["C27"] = dict(jobs=[P27("clang", "clang++", p) for p in (2, 1)] + [P27("gcc", "g++", p) for p in (2, 1, 3, 4)] + [P27("gforce", "g++", p, FORCE) for p in (1, 3)]
    + [P27("ubsan", "clang++", p, ["-fsanitize=undefined", "-fsanitize-trap=all"], T_ONLY) for p in (1, 2, 3, 4)] + [P27("cforce", "clang++", p, FORCE, T_ONLY) for p in (1, 2, 3, 4)] + [P27("gccO3", "g++", p, NATIVE, T_ONLY, "-O3") for p in (1, 2, 3, 4)])
# ---- C28
P28 = lambda n, c, parts, x=(), t=None, o="-O2": [job("%s-%d" % (n, p), "p28.cpp", c, ["-DMC_P%d" % p] + list(x), opt=o, tier=t, ld=("-lm", "-lgmp")) for p in parts]
SPECS["C28"] = dict(jobs=P28("gcc", "g++", (1, 2, 3)) + P28("clang", "clang++", (1, 2, 3)) + P28("cforce", "clang++", (1, 2, 3), FORCE) + P28("gforce", "g++", (1,), FORCE) + P28("m-gcc", "g++", (1, 2), RND) + P28("m-clang", "clang++", (1, 2), RND)
    + [j for i, m in enumerate(RMODES[:3]) for j in P28("ct%d" % i, "clang++", (1, 2), FORCE + ["-DMC_CTMODE", "-DCCM_CONSTEXPR_ROUNDING_MODE=" + m])]
    + P28("ubsan", "clang++", (1, 2, 3), ["-fsanitize=undefined", "-fsanitize-trap=all"], T_ONLY, "-O1") + P28("m-native", "g++", (1, 2, 3), RND + NATIVE, T_ONLY))
# ---- C29, C30: the vendored parallel-SIMD vectors, over backends and instruction sets
def PP(src, parts_full, parts_quick):
    be = [("gcc", "g++", [], None), ("clang", "clang++", [], None), ("arr", "g++", ["-DCCM_PP_FORCE_ARRAY_BACKEND"], None), ("intr", "clang++", ["-DCCM_PP_FORCE_MSVC_INTRIN", "-march=native"], None), ("intr-base", "g++", ["-DCCM_PP_FORCE_MSVC_INTRIN"], None),
          ("native", "g++", ["-march=native"], None), ("arr-clang", "clang++", ["-DCCM_PP_FORCE_ARRAY_BACKEND"], T_ONLY), ("intr-avx", "g++", ["-DCCM_PP_FORCE_MSVC_INTRIN", "-mavx"], T_ONLY), ("intr-gnat", "g++", ["-DCCM_PP_FORCE_MSVC_INTRIN", "-march=native"], T_ONLY),
          ("port", "g++", ["-DCCM_PP_FORCE_PORTABLE"], T_ONLY), ("port-clang", "clang++", ["-DCCM_PP_FORCE_PORTABLE"], T_ONLY), ("native-clang", "clang++", ["-march=native"], T_ONLY)]
    js = []
    for n, c, f, t in be:
        for p in parts_full:
            js.append(job("%s-%d" % (n, p), src, c, ["-DMC_PART=%d" % p] + f, opt="-O1", tier=t if t else (None if n in ("gcc", "clang") or p in parts_quick else T_ONLY)))
    return js
SPECS["C29"] = dict(jobs=PP("p29.cpp", (1, 2, 3, 4, 5, 6), (1, 2, 3, 5)))
SPECS["C30"] = dict(jobs=PP("p30.cpp", (1, 2, 3, 4), (1, 2, 3)))
# ---- C31
SPECS["C31"] = dict(jobs=[job("%s-%d" % (n, p), "p31.cpp", c, ["-DMC_PART=%d" % p] + f, opt="-O0", std=s) for n, c, f, s in (("gcc", "g++", [], "c++20"), ("clang", "clang++", [], "c++20"), ("cpp17", "g++", [], "c++17"), ("cforce", "clang++", FORCE, "c++20")) for p in (1, 2, 3)])
# ---- C33
NOBI = ["-DMC_NOBUILTIN"]
UBTRAP = ["-fsanitize=undefined", "-fsanitize-trap=all"]
SPECS["C33"] = dict(jobs=[job(n, "p33.cpp", c, f, ld=("-lm", "-lmpfr", "-lgmp"), opt="-O1") for n, c, f in (("gcc", "g++", []), ("clang", "clang++", []), ("nobi-gcc", "g++", NOBI), ("nobi-clang", "clang++", NOBI), ("ubsan", "clang++", UBTRAP), ("nobi-ubsan", "clang++", NOBI + UBTRAP), ("cforce", "clang++", FORCE), ("native", "g++", NATIVE))])
# ---- C32: packed pow against scalar lanes, register types, and digests over instruction sets
P32 = lambda n, c, part, x=(), o="-O2", t=None: job("%s-%d" % (n, part), "p32.cpp", c, ["-DMC_PART=%d" % part] + list(x), opt=o, tier=t)
SIMD = ["-DCCM_CONFIG_USE_RT_SIMD"]
MN = ["-march=native"]
NOPOW = ["-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW"]
R32 = [P32(n, c, 3, NOPOW + list(x), o) for n, c, x, o in (("off", "g++", [], "-O2"), ("sse2", "g++", SIMD, "-O2"), ("sse42", "g++", SIMD + ["-msse4.2"], "-O1"), ("avx2", "g++", SIMD + ["-mavx2"], "-O3"), ("native-off", "g++", MN, "-O2"), ("native", "g++", SIMD + MN, "-O2"), ("clang-off", "clang++", [], "-O2"), ("clang-sse2", "clang++", SIMD, "-O2"), ("clang-native", "clang++", SIMD + MN, "-O2"))]
R32T = [P32(n, c, 3, list(x), o, T_ONLY) for n, c, x, o in (("p-off", "g++", [], "-O2"), ("p-sse2", "g++", SIMD, "-O2"), ("p-native", "g++", SIMD + MN, "-O2"), ("p-clang-off", "clang++", [], "-O2"), ("p-clang-native", "clang++", SIMD + MN, "-O2"))]
SPECS["C32"] = dict(jobs=[P32("contract", "g++", 1, MN + SIMD, "-O2"), P32("flags", "g++", 1, MN + SIMD + ["-frounding-math", "-DMC_FLAGS"]), P32("clangpow", "clang++", 1, MN + SIMD), P32("gccO3", "g++", 1, MN + SIMD, "-O3", T_ONLY), P32("haswell", "g++", 1, SIMD + ["-march=haswell"], "-O2", T_ONLY),
    P32("native", "g++", 2, MN + SIMD, "-O1"), P32("base", "clang++", 2, SIMD), P32("sse42", "g++", 2, SIMD + ["-msse4.2"], "-O2"), P32("avx2", "clang++", 2, SIMD + ["-mavx2"], "-O1", T_ONLY)] + R32 + R32T, relations=[[j["name"] for j in R32], [j["name"] for j in R32T]])
# ---- C34: the same operand spaces under trapping sanitizers; only traps, memory errors and hangs are judged
UB = ["-DMC_UBONLY", "-fsanitize=undefined,float-cast-overflow", "-fsanitize-trap=all", "-D_GLIBCXX_ASSERTIONS"]
ASAN = ["-DMC_UBONLY", "-fsanitize=address"]
MSAN = ["-DMC_UBONLY", "-fsanitize=memory"]
P34 = lambda n, src, c, x=(), t=None, ld=("-lm",): job(n, src, c, list(x), opt="-O1", tier=t, ld=ld)
SPECS["C34"] = dict(jobs=[P34("clang", "p34.cpp", "clang++", UB), P34("intree", "p34.cpp", "g++", UB + NOPOW), P34("cforce", "p34.cpp", "clang++", UB + FORCE), P34("det", "p34.cpp", "clang++", UB + DET), P34("simd", "p34.cpp", "g++", UB + NOPOW + SIMD + MN),
    P34("asan", "p34.cpp", "clang++", ASAN + DET + NOPOW), P34("msan", "p34.cpp", "clang++", MSAN + FORCE, T_ONLY), P34("gforce", "p34.cpp", "g++", UB + FORCE, T_ONLY),
    P34("scaling", "p05.cpp", "clang++", UB), P34("nan-strings", "p18.cpp", "clang++", UB + FORCE), P34("nan-strings-asan", "p18.cpp", "clang++", ASAN), P34("wrap", "p24.cpp", "clang++", UB + FORCE), P34("interp", "p25.cpp", "clang++", UB)]
    + [P34("dyadic-%d" % p, "p28.cpp", "clang++", UB + ["-DMC_P%d" % p], None, ("-lm", "-lgmp")) for p in (1, 3)] + [P34("vec-asan-%d" % p, "p29.cpp", "clang++", ASAN + ["-DMC_PART=%d" % p], None if p in (1, 5) else T_ONLY) for p in (1, 2, 3, 5)]
    + [P34("pow-simd", "p32.cpp", "g++", UB + SIMD + MN + ["-DMC_PART=2"])] + [P34("bigint-%d" % p, "p27.cpp", "clang++", UB + ["-DMC_PART=%d" % p], T_ONLY, ("-lm", "-lgmp")) for p in (1, 2, 3, 4)]
    + [P34("bigint-asan-%d" % p, "p27.cpp", "clang++", ASAN + ["-DMC_PART=%d" % p], T_ONLY, ("-lm", "-lgmp")) for p in (1, 2, 3, 4)] + [P34("mixed-%d" % p, "p31.cpp", "clang++", UB + ["-DMC_PART=%d" % p], T_ONLY) for p in (1, 2, 3)]
    + [P34("interp-cf", "p25.cpp", "clang++", UB + FORCE, T_ONLY), P34("wrap-rt", "p24.cpp", "g++", UB, T_ONLY), P34("pow-simd1", "p32.cpp", "g++", UB + SIMD + MN + ["-DMC_PART=1"], T_ONLY), P34("vecmath-asan", "p30.cpp", "clang++", ASAN + ["-DMC_PART=2"], T_ONLY)])
# ---- C35: software arithmetic and error-free transforms
P35LD = ("-lm", "/usr/lib/gcc/x86_64-linux-gnu/13/libquadmath.so")
SPECS["C35"] = dict(jobs=[job(n, "p35.cpp", c, f, ld=P35LD, opt=o, std=s) for n, c, f, o, s in (("gcc", "g++", [], "-O2", "c++20"), ("clang", "clang++", [], "-O2", "c++20"), ("cforce", "clang++", FORCE, "-O2", "c++20"), ("gforce", "g++", FORCE, "-O2", "c++17"), ("native", "g++", NATIVE + ["-DMC_CONTRACT"], "-O3", "c++20"), ("clangnative", "clang++", NATIVE + ["-DMC_CONTRACT"], "-O2", "c++20"), ("m-gcc", "g++", RND, "-O2", "c++20"), ("m-clang", "clang++", RND, "-O2", "c++20"))])
