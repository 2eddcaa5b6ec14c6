// The program itself, its main renamed to an ordinary symbol: it keeps main's implicit `return 0`.
int main(int, char**) __asm__("generate_program");
#include <BlasBooster/../../src/Benchmark/generate_matrix.cpp>
