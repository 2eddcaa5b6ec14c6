#!/usr/bin/env python3
"""Stand-in BLAS routines which record how they are called, and the table of wrappers to be called, from blas_functions.txt."""
import os, sys
out = sys.argv[2]
section, fns = None, []
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "blas_functions.txt")):
    l = l.strip()
    if not l or l[0] == "#": continue
    if l[0] == "[": section = l[1:-1]; continue
    n, r, a = [x.strip() for x in l.split("|")]
    fns.append((section, n, r, [x.strip() for x in a.split(",")]))
with open(out + "/blas_standins.cpp", "w") as f:
    f.write('#include "c21_record.h"\nextern "C" {\n')
    for s, n, r, a in fns:
        if s == "dot": continue
        sym = "mkl_" + n if s == "mkl" else n + "_"
        f.write("%s %s(%s) { void* a[] = {%s}; return bbrec::called<%s>(\"%s\", a, %d); }\n" % (r, sym, ", ".join("void* a%d" % i for i in range(len(a))), ", ".join("a%d" % i for i in range(len(a))), r, sym, len(a)))
    f.write('void openblas_set_num_threads(int n) { void* a[] = { (void*)(long)n }; bbrec::called<void>("openblas_set_num_threads", a, 1); }\n')
    f.write('void MKL_Set_Dynamic(int n) { void* a[] = { (void*)(long)n }; bbrec::called<void>("MKL_Set_Dynamic", a, 1); }\n')
    f.write('void MKL_Set_Num_Threads(int n) { void* a[] = { (void*)(long)n }; bbrec::called<void>("MKL_Set_Num_Threads", a, 1); }\n')
    for p, n in (("float", "cdotc"), ("float", "cdotu"), ("double", "zdotc"), ("double", "zdotu")):   # Intel's convention: result by the first argument
        f.write('void mkl_%s_(void* r, void* a0, void* a1, void* a2, void* a3, void* a4) { void* a[] = {a0, a1, a2, a3, a4}; ((%s*)r)[0] = (%s)bbrec::result; ((%s*)r)[1] = 3; bbrec::called<void>("%s_", a, 5); }\n' % (n, p, p, p, n))
    f.write("}\n")
with open(out + "/blas_table.h", "w") as f:

    for s, n, r, a in fns:
        kinds = "".join({"int": "i", "float": "f", "double": "d", "char": "c", "std::complex<float>": "F", "std::complex<double>": "D"}[x.replace("const ", "")] for x in a)
        args = ", ".join(x + "*" for x in a)
        for iface in ("OpenBLAS", "IntelMKL"):
            if iface == "OpenBLAS" and s in ("mkl", "dot"): continue
            sym = "mkl_" + n if s == "mkl" else n + "_"
            f.write('    { "%s", "%s", "%s", "%s", "%s", Wrapper<%s, BlasBooster::%s, %s, %s>::call, BlasBooster::%s::name },\n' % (iface, n, sym, kinds, r, iface, n, r, args, n))
