"""Registry: which explorer decides which property, and how it is built."""
TRACKER = "@R/src/Utilities/tracker.cpp"
OPENBLAS = "@R/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"
CHECKS = {
 "C01": dict(srcs=["@H/c01_access.cpp"]),
 "C02": dict(srcs=["@H/c02_view.cpp"]),
 "C03": dict(srcs=["@H/c03_to_dense.cpp", TRACKER], split={"@H/c03_to_dense.cpp": 4}),
 "C04": dict(srcs=["@H/c04_sparse.cpp", TRACKER], split={"@H/c04_sparse.cpp": 4}),
 "C06": dict(srcs=["@H/c06_sums.cpp", TRACKER], split={"@H/c06_sums.cpp": 8}),
 "C07": dict(srcs=["@H/c07_dynamic.cpp", TRACKER, OPENBLAS], split={"@H/c07_dynamic.cpp": 5}, libs=["-lopenblas"]),
 "C09": dict(srcs=["@H/c09_backends.cpp", TRACKER, OPENBLAS], split={"@H/c09_backends.cpp": 6}, libs=["-lopenblas"]),
 "C08": dict(srcs=["@H/c08_native.cpp", TRACKER], split={"@H/c08_native.cpp": 8}),
 "C05": dict(srcs=["@H/c05_transpose.cpp", TRACKER]),
 "C10": dict(srcs=["@H/c10_converter.cpp", TRACKER]),
 "C11": dict(srcs=["@H/c11_blocking.cpp", TRACKER, OPENBLAS], libs=["-lopenblas"]),
 "C12": dict(srcs=["@H/c12_blocked_mult.cpp", TRACKER, OPENBLAS], libs=["-lopenblas"]),
 "C13": dict(srcs=["@H/c13_block_sizes.cpp", TRACKER, OPENBLAS], libs=["-lopenblas"]),
 "C14": dict(srcs=["@H/c14_checker.cpp", TRACKER]),
 "C15": dict(srcs=["@H/c15_order.cpp", TRACKER]),
 "C16": dict(srcs=["@H/c16_norm.cpp", TRACKER, OPENBLAS], libs=["-lopenblas"]),
 "C17": dict(srcs=["@H/c17_cache.cpp", TRACKER], libs=["-lboost_serialization"]),
 "C18": dict(srcs=["@H/c18_storage.cpp", TRACKER]),
 "C19": dict(srcs=["@H/c19_history.cpp", TRACKER], libs=["-lboost_serialization"], split={"@H/c19_history.cpp": 5}),
 "C20": dict(srcs=["@H/c20_striped.cpp", TRACKER]),
 "C21": dict(srcs=["@H/c21_blas.cpp", "@H/c21_mkl.cpp", "@G/blas_standins.cpp", OPENBLAS], gen="gen_blas.py", libs=["-lopenblas"]),
 "C24": dict(srcs=["@H/c24_tracker.cpp", TRACKER, OPENBLAS], libs=["-lopenblas"]),
 "C25": dict(srcs=["@H/c25_dispatch.cpp", TRACKER]),
 "C22": dict(srcs=["@H/c22_import.cpp", "@R/src/MatrixFactory/MatrixFileImporter.cpp", TRACKER], libs=["-lboost_filesystem", "-lboost_serialization"]),
 "C23": dict(srcs=["@H/c23_archive.cpp", TRACKER], libs=["-lboost_filesystem", "-lboost_serialization"], split={"@H/c23_archive.cpp": 4}),
 "C26": dict(srcs=["@H/c26_pattern.cpp", TRACKER], libs=["-lboost_filesystem", "-lboost_serialization"]),
 "C28": dict(srcs=["@H/c28_stats.cpp", TRACKER]),
 "C27": dict(srcs=["@H/c27_fillers.cpp", "@R/src/MatrixFactory/MatrixGenerator.cpp", TRACKER]),
 "C29": dict(srcs=["@H/c29_print.cpp", TRACKER, OPENBLAS], libs=["-lopenblas"]),
 "C30": dict(srcs=["@H/c30_equal.cpp", TRACKER]),
 "C31": dict(srcs=["@H/c31_benchmark.cpp", "@H/c31_program.cpp", "@R/src/Benchmark/ActionProvider.cpp", "@R/src/Benchmark/MatrixProvider.cpp", "@R/src/Benchmark/time.cpp", TRACKER, OPENBLAS], libs=["-lopenblas"]),
 "C32": dict(srcs=["@H/c32_tools.cpp", "@H/c32_generate.cpp", "@H/c32_show.cpp", TRACKER, OPENBLAS], libs=["-lopenblas"]),
 "C34": dict(srcs=["@H/c34_oom.cpp", TRACKER, OPENBLAS], split={"@H/c34_oom.cpp": 5}, libs=["-lopenblas", "-lboost_serialization"]),
 "C36": dict(srcs=["@H/c36_literal.cpp", TRACKER, OPENBLAS], libs=["-lopenblas"], hang_s=15),
 "C37": dict(srcs=["@H/c37_mismatch.cpp", TRACKER, OPENBLAS], split={"@H/c37_mismatch.cpp": 9}, libs=["-lopenblas"]),
 "C38": dict(srcs=["@H/c38_integer.cpp", TRACKER]),
 "C39": dict(srcs=["@H/c39_disk.cpp", "@H/c32_generate.cpp", "@H/c32_show.cpp", TRACKER, OPENBLAS], libs=["-lboost_filesystem", "-lboost_serialization", "-lopenblas"]),
 "C35": dict(srcs=["@H/c35_multiple.cpp", TRACKER]),
 "C33": dict(srcs=["@H/c33_mkl.cpp", "@H/mkl_standin.cpp", "@R/src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp", TRACKER], split={"@H/c33_mkl.cpp": 5}, flags=["-UWITH_OPENBLAS", "-DWITH_INTELMKL"], libs=["-Wl,--unresolved-symbols=ignore-all"]),
}
