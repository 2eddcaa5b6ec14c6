// Calls of the stand-in BLAS routines.
#pragma once
#include <string>
#include <type_traits>
#include <vector>
namespace bbrec {
struct Call { std::string symbol; std::vector<void*> args; };
extern std::vector<Call> calls;
extern double result;
template <class R> R called(char const* symbol, void** a, int n) { calls.push_back({ symbol, std::vector<void*>(a, a + n) }); if constexpr (!std::is_void<R>::value) return static_cast<R>(result); }
}
