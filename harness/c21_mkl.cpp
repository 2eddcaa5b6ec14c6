// The wrappers of Intel MKL; its complex scalar products follow another calling convention than OpenBLAS, so they get stand-ins of their own.
#define cdotc_ mkl_cdotc_
#define cdotu_ mkl_cdotu_
#define zdotc_ mkl_zdotc_
#define zdotu_ mkl_zdotu_
#include <complex>
#include <BlasBooster/../../src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp>
