// Interface of the schedule runtime (sched_rt.cpp), absent unless it is linked in.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
extern "C" {
// threads: logical threads of every following parallel region (0: chosen per region);
// order: 0 ascending, 1 descending, 2 shuffled, 3 chosen per region
__attribute__((weak)) void vf_sched_begin(uint64_t seed, int threads, int order);
// the first conflicting pair of accesses since vf_sched_begin: 0 none
struct VfRace {
    const char* addr;
    int size, t1, t2, w1, w2, threads;
    const void *pc1, *pc2;
};
__attribute__((weak)) int vf_sched_race(VfRace*);
struct VfStats {
    uint64_t regions, threads, accesses, schedules, conflictsChecked, stores;
};
__attribute__((weak)) void vf_sched_stats(VfStats*);
// mark[k] becomes 1 once byte k of the n at p is stored to, whatever the value; nullptr: forget all
__attribute__((weak)) void vf_sched_watch(const void* p, size_t n, unsigned char* mark);
__attribute__((weak)) void vf_control(int which, double* a, const double* b, int n);
}
// the detector reports what it must and nothing else
inline bool vf_sched_selftest()
{
    static const bool want[] = {false, true, true, false, true};
    for (int w = 0; w < 5; ++w)
        for (int order = 0; order < 3; ++order)
            for (int n : {9, 4096, 6000}) {
                double* a = new double[n + 2]();
                double* b = new double[n + 2]();
                vf_sched_begin(n, n == 6000 ? 1024 : 4096, order);
                vf_control(w, a, b, n);
                VfRace r;
                bool got = vf_sched_race(&r);
                delete[] a;
                delete[] b;
                if (got != want[w]) return false;
            }
    return true;
}
