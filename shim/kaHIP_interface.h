#pragma once
// Stand-in for KaHIP: declared here, implemented (seeded, deterministic) by the harness.
#define FAST 0
#define ECO 1
#define STRONG 2
#define FASTSOCIAL 3
#define ECOSOCIAL 4
#define STRONGSOCIAL 5
#define FASTSOCIALMULTITRY_PARALLEL 6
extern "C" void kaffpa_stub(int *n, int *vwgt, int *xadj, int *adjcwgt, int *adjncy, int *nparts,
            double *imbalance, bool suppress, int seed, int mode, int threads, int *edgecut, int *part);
inline void kaffpa(int *n, int *vwgt, int *xadj, int *adjcwgt, int *adjncy, int *nparts,
            double *imbalance, bool suppress, int seed, int mode, int threads, int *edgecut, int *part) {
  kaffpa_stub(n, vwgt, xadj, adjcwgt, adjncy, nparts, imbalance, suppress, seed, mode, threads, edgecut, part);
}
