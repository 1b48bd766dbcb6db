# executed by tools/build.py: which binaries there are and which property runs which
def check(pid, *bins):
    CHECKS[pid] = list(bins)


target("c23", "c23.cpp", UTIL, "O1", ["-DENABLE_PROFILING"])
check("C23", "c23")
check("C24", "c23")
target("c25", "c25.cpp", [], "O2")
for p in ("C25", "C28", "C29"):
    check(p, "c25")
target("c26", "c26.cpp", UTIL, "O1")
check("C26", "c26")
check("C27", "c26")
target("c33", "c33.cpp", UTIL, "O1", ["-g1", "-fno-inline-functions"])
check("C33", "c33")
check("C35", "c33")
HASH = UTIL + ["src/utils/VTuneAdapter.cpp"]
target("c18", "c18.cpp", HASH, "O1", ["-g1"])
target("c18r", "c18.cpp", HASH, "O2", ["-DVP_REAL"])
check("C18", "c18", "c18r")
target("c15", "c15.cpp", HASH, "O1")
for p in ("C15", "C16", "C17"):
    check(p, "c15")
target("c19", "c19.cpp", HASH, "O1", ["-g1"])
target("c19r", "c19.cpp", HASH, "O2", ["-DVP_REAL"])
check("C19", "c19", "c19r")
target("c20", "c20.cpp", GEOM, "O1", ["-g1", "-D_GLIBCXX_ASSERTIONS"])
check("C20", "c20")
target("c22", "c22.cpp", GEOM, "O1", ["-g1", "-D_GLIBCXX_ASSERTIONS"])
check("C22", "c22")
target("c21", "c21.cpp", GEOM, "O1", ["-g1", "-D_GLIBCXX_ASSERTIONS"])
check("C21", "c21")
target("c32", "c32.cpp", GEOM, "O1", ["-g1", "-D_GLIBCXX_ASSERTIONS"])
check("C32", "c32")
target("c14", "c14.cpp", GEOM, "O2", [])
check("C14", "c14")

target("c10", "c10.cpp", GEOM, "O1", ["-g1"])
for p in ("C07", "C10", "C12", "C13"):
    check(p, "c10")
target("c11", "c11.cpp", GEOM, "O1", ["-g1"])
check("C11", "c11")
target("c08", "c08.cpp", ["src/utils/Predicates.cpp"], "O2", [])
# the flags the repository is built with: these let the compiler contract products and sums
target("c08n", "c08.cpp", ["src/utils/Predicates.cpp"], "O2", ["-O3", "-march=native"])
check("C08", "c08", "c08n")
target("c05", "c05.cpp", PART, "O1", ["-g1"])
check("C05", "c05")

target("c01", "c01.cpp", TRI, "O1")
check("C01", "c01")
# the base case of 500 points lowered, so that small clouds are divided several times
target("c02", "c02.cpp", DC, "O1", ["-DPARDETRIA_VERIF_BASE_CUTOFF=12"])
target("c02f", "c02.cpp", DC, "O1", [])
check("C02", "c02", "c02f")
target("c04", "c04.cpp", TRI, "O1", ["-g1"])
check("C04", "c04")
target("c09", "c09.cpp", TRI, "O1", ["-g1", "-std=gnu++17", "-fext-numeric-literals", "-lgmpxx", "-lgmp"])
check("C09", "c09")

LB = ["-isystem", "/usr/include/eigen3", "-DPARDETRIA_VERIF_BASE_CUTOFF=12"]
target("c06", "c06.cpp", DC, "O1", LB + ["-g1"])
target("c34r", "c06.cpp", DC, "O1", LB + ["-DREPRODUCIBLE"])
check("C06", "c06")
check("C34", "c06", "c34r")
target("c03", "c03.cpp", DC, "O1", LB)
check("C03", "c03")
target("c30", "c30.cpp", TRI, "O1", ["-g1"])
check("C30", "c30")
check("C31", "c30")
target("c36", "c36.cpp", DC, "O1", LB)
for p in ("C36", "C37"):
    check(p, "c36")
