// The program itself, its main renamed to an ordinary symbol: it keeps main's implicit `return 0`.
int main(int, char**) __asm__("benchmark_program");
#include <BlasBooster/../../src/Benchmark/benchmark.cpp>
