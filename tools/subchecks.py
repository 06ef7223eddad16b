"""Which generated sub-checks decide which property."""
import py_runner
ASSUMPTIONS = [
    "FLINT 3.0.1, GMP, MPFR and the C/C++ runtime behave as documented",
    "defining polynomials are irreducible over the rationals and the given enclosure isolates one real root, as the documentation requires",
    "absence of a violation is shown for the generated cases only",
]
def S(name, **k):
    k["name"] = name
    return k
REUSE = "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
CHECKS = {
    "C01": [S("C01.c", weight=2), S("C01.cpp")],
    "C02": [S("C02.ops", weight=4), S("C02.eval")],
    "C03": [S("C03.c", weight=3), S("C03.cpp", weight=2), S("C03.mixed")],
    "C04": [S("C04.round", weight=2), S("C04.fdiv", weight=2), S("C04.cfrac"), S("C04.cpp")],
    "C05": [S("C05.c", weight=2), S("C05.cpp")],
    "C06": [S("C06.c"), S("C06.cpp"), S("C06.reject"), S("C06.roots"), S("C06.nth"), S("C06.random")],
    "C07": [S("C07.run"), S("C07.c"), S("C07.reuse", asan=REUSE)],
    "C08": [S("C08.count", weight=2), S("C08.isolate", weight=2), S("C08.poly")],
    "C09": [S("C09.unique"), S("C09.steps"), S("C09.refine")],
    "C10": [S("C10.roundtrip"), S("C10.expr"), S("C10.malformed"), S("C10.bytes")],
    "C11": [S("C11.construction"), S("C11.archive", weight=2), S("C11.reuse", asan=REUSE)],
    "C12": [S("C12.histories", weight=2), S("C12.crowd"), S("C12.reuse", asan=REUSE)],
    "C13": [S("C13.values", weight=2), S("C13.reuse", asan=REUSE), S("C13.strict", env={"LIBEANTIC_STRICT_BINOP": "1"})],
    "C14": [S("C14.parts")],
    "C15": [S("C15.leak"), S("C15.memory", kind="vg", wrap=["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"])],
    "C16": [S("C16.python", kind="plain", runner=py_runner.run)],
    "C17": [S("C17.threads", kind="tsan")],
}
TECHNIQUE = {}
