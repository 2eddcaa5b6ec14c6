// Stand-in for the (not installed) BrainTwister/benchmark.h: runs the function as often as the harness decides, on a virtual clock.
#pragma once
#include "BrainTwister/Record.h"
#include <chrono>
#include <iomanip>
namespace BrainTwister {
typedef std::chrono::nanoseconds clock_unit;
struct myclock { typedef std::chrono::nanoseconds duration; };
struct BenchmarkResult { myclock::duration average_time{}; };
/// what the harness decides and observes
struct BenchmarkProbe { int runs = 1, calls = 0, executed = 0; long tick = 1000000; };
inline BenchmarkProbe& probe() { static BenchmarkProbe p; return p; }
class Benchmark
{
public:
    BRAINTWISTER_RECORD( Settings,
        (( int, min_replications, 1 ))
        (( int, warm_up_runs, 0 ))
    );
    Benchmark() {}
    Benchmark(Settings const& s) : settings(s) {}
    template <class F> BenchmarkResult benchIt(F const& f) const
    {
        for (int i = 0; i < probe().runs; ++i) { f(); ++probe().executed; }
        BenchmarkResult r; r.average_time = myclock::duration(probe().tick << probe().calls++); return r;
    }
private:
    Settings settings;
};
}
