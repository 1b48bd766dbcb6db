// C02: divide-and-conquer against triangulating all points at once
#include "vp.hpp"
#include "points.hpp"
#include "tri.hpp"
#include "CGALTriangulator.h"
#include "DCTriangulator.h"
#include "Partitioner.h"
#include "utils/Logger.h"
#include "utils/System.h"
#include <tbb/global_control.h>

using namespace vp;
static PerCase pc([](uint64_t s) {
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    startGen.seed((unsigned) s);
});

template<uint D, typename P>
static void run(Src &s, Ctx &c, size_t lo, size_t hi) {
    size_t n = s.length(lo, hi);
    auto C = genCloud<D, P>(s, c, n);
    bool flat = C.n <= D + 1;
    for (uint d = 0; d < D; ++d) flat = flat || C.bounds.low[d] == C.bounds.high[d];
    if (flat) throw Discard();
    const std::string kinds = D == 2 ? "dce01" : "dce012";
    char kind = kinds[s.below(kinds.size())];
    // the partitioners take powers of the number of parts they make
    uint threads = kind == 'd' ? (s.pick({1u, 1u << D, 1u << (2 * D)})) : s.pick({1u, 2u, 4u, 8u, 16u, 32u});
    uint occ = s.pick({1u, 2u, 10u});
    bool parBase = s.chance(1, 6), parEdge = s.chance(1, 2), addInf = s.chance(3, 4);
    unsigned width = s.pick({1u, 2u, 4u, 8u});
    auto ref = C.copy(), mine = C.copy();
    C.corners();
    bool own = false;
    if (!addInf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) mine[k] = C.pts[k];
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, width);
    std::unique_ptr<DCTriangulator<D, P>> T(new DCTriangulator<D, P>(C.bounds, mine, threads, Partitioner<D, P>::make(kind), occ, parBase, parEdge, addInf));
    // the corner points surround everything; both triangulations use the same
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) {
        ref[k] = mine[k];
        for (uint d = 0; d < D; ++d) {
            bool hi = (k >> d) & 1;
            VP_CHECK(hi ? mine[k].coords[d] > C.bounds.high[d] : mine[k].coords[d] < C.bounds.low[d],
                     "corner point " + std::to_string((int64_t) k) + " does not lie outside the points");
        }
    }
    std::set<tIdType> ids;
    for (tIdType i = 1; i <= C.n; ++i) ids.insert(i);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
    CGALTriangulator<D, P, false> B(C.bounds, ref, 1);
    auto want = static_cast<Triangulator<D, P> &>(B).triangulate();
    auto w = tri::delaunay<D, P>(want, ref, ids);
    if (!w.err.empty()) throw Discard(); // decided by C01
    if (w.finiteTies) throw Discard();   // not in general position
    c.describe([&](std::ostringstream &o) {
        o << C.n << " points, kind " << kind << ", " << threads << " threads, parallel base " << parBase << " edge " << parEdge << " add corners " << addInf << " width " << width;
        o.precision(17);
        if (C.n < 30) for (tIdType i = 1; i <= C.n; ++i) { o << " ("; for (auto x : C.pts[i].coords) o << x << ","; o << ")"; }
    });
    auto got = static_cast<Triangulator<D, P> &>(*T).triangulate();
    auto e = tri::same<D, P>(got, want);
    VP_CHECK(e.empty(), e + " (first: divide and conquer, second: at once)");
    auto r = tri::delaunay<D, P>(got, mine, ids);
    VP_CHECK(r.err.empty(), r.err);
    VP_CHECK(got.verify(mine).valid, "the library's verification rejects the result");
    auto cc = got.crossCheck(want);
    VP_CHECK(cc.valid && cc.missing.empty() && cc.invalid.empty(), "the library's cross-check rejects the result");
    for (tIdType i = 1; i <= C.n; ++i) VP_CHECK(mine[i].coords == C.pts[i].coords, "point moved");
    c.nontrivial(threads > 1 && C.n > 4 * DCTriangulator<D, P>::BASE_CUTOFF);
    c.label(std::string("partitioner ") + kind);
}

#ifndef PARDETRIA_VERIF_BASE_CUTOFF
template<uint D, typename P>
static void big(Src &s, Ctx &c) { run<D, P>(s, c, 501, 4000); }
#define RULE "more than one thread and more than 2000 points"
static Reg r1({"C02", "2D double, unmodified cutoff", big<2, double>, 40, 3000, 60, RULE, true, 4});
static Reg r2({"C02", "3D double, unmodified cutoff", big<3, double>, 24, 2000, 60, RULE, true, 4});
#else
template<uint D, typename P>
static void small(Src &s, Ctx &c) { run<D, P>(s, c, 12, 250); }
#define RULE "more than one thread and more than four times the base case size"
static Reg r1({"C02", "2D double", small<2, double>, 8000, 80000, 20, RULE, true});
static Reg r2({"C02", "3D double", small<3, double>, 3000, 40000, 20, RULE, true});
static Reg r3({"C02", "2D float", small<2, float>, 2000, 20000, 20, RULE, true});
static Reg r4({"C02", "3D float", small<3, float>, 1000, 15000, 20, RULE, true});
#endif
int main(int argc, char **argv) { return vp_main(argc, argv); }
