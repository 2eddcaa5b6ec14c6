// Blocked matrices for C11 and C12.
#pragma once
#include "bb.h"
#include <BlasBooster/Core/BlockedMatrix.h>
#include <BlasBooster/Core/BlockedMatrixGenerator.h>
#include <BlasBooster/Core/GenerateTypeMatrix.h>
#include <BlasBooster/Core/Multiplication_TheBestPolicy.h>

namespace bb {

typedef std::vector<size_t> Part;

/// all ordered partitions of n into positive parts; {0} for n = 0
inline std::vector<Part> compositions(size_t n)
{
    std::vector<Part> all;
    if (n == 0) { all.push_back(Part{ 0 }); return all; }
    for (unsigned bits = 0; bits < (1u << (n - 1)); ++bits) {
        Part p(1, 1);
        for (size_t i = 0; i + 1 < n; ++i) if (bits >> i & 1) p.push_back(1); else ++p.back();
        all.push_back(p);
    }
    return all;
}
inline size_t start(Part const& p, size_t k) { size_t s = 0; for (size_t i = 0; i < k; ++i) s += p[i]; return s; }
inline size_t total(Part const& p) { return start(p, p.size()); }
inline Ref window(Ref const& a, size_t r0, size_t c0, size_t r, size_t c) { return make(r, c, [&](size_t i, size_t j) { return a(r0 + i, c0 + j); }); }
inline std::string str(Part const& p) { std::string s = "{"; for (size_t x : p) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "}"; }

} // namespace bb
