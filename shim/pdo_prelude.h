// Stand-in for include/mods/parallel_do.h (a verbatim copy of a header of classic TBB, built on
// tbb::task, which oneTBB no longer has).  Same contract: every item of the input and every
// item fed is handed to the body exactly once, in parallel.
#pragma once
#define __TBB_parallel_do_H
#include <tbb/parallel_for_each.h>
#include <tbb/parallel_for.h>
namespace tbb {
template <typename T> using parallel_do_feeder = tbb::feeder<T>;
template <typename C, typename B> void parallel_do(const C &c, const B &b) { tbb::parallel_for_each(c.begin(), c.end(), b); }
template <typename C, typename B> void parallel_do(C &c, const B &b) { tbb::parallel_for_each(c.begin(), c.end(), b); }
template <typename C, typename B> void parallel_do(C &&c, const B &b) { tbb::parallel_for_each(c.begin(), c.end(), b); }
}
