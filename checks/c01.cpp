// C01: the base triangulator against an exact check of the Delaunay property
#include "vp.hpp"
#define PARDETRIA_VERIF_CGAL
#include "points.hpp"
#include "tri.hpp"
#include "CGALTriangulator.h"
#include "utils/Logger.h"

using namespace vp;
static PerCase pc([](uint64_t) { LOGGER.setLogLevel(Logger::Verbosity::SILENT); resetGlobals(); });

template<uint D, typename P, bool Par>
static void run(Src &s, Ctx &c, size_t lo, size_t hi, CloudOpt o) {
    size_t n = s.length(lo, hi);
    auto C = genCloud<D, P>(s, c, n, o);
    if (C.n < 1) throw Discard();
    bool flat = false;
    for (uint d = 0; d < D; ++d) flat = flat || C.bounds.low[d] == C.bounds.high[d];
    if (flat) throw Discard(); // corner points would coincide
    C.corners(s.pick({200.0, 2.0, 1.0, 20.0}));
    uint occ = s.pick({1u, 2u, 5u, 40u});
    // a part of the points, as divide-and-conquer hands over; bounds need not be tight
    std::set<tIdType> ids;
    bool all = s.chance(1, 2);
    bool corners = all || s.chance(3, 4);
    size_t keep = 1 + s.draw(3);
    for (tIdType i = 1; i <= C.n; ++i) if (all || s.below(keep) == 0) ids.insert(i);
    if (corners) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
    auto pts = C.copy();
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) pts[k] = C.pts[k];
    auto b = C.bounds;
    if (s.chance(1, 4)) for (uint d = 0; d < D; ++d) b.high[d] = (b.low[d] + b.high[d]) / 2; // points outside the bounds
    std::unique_ptr<Triangulator<D, P>> T(new CGALTriangulator<D, P, Par>(b, pts, occ));
    auto dt = all ? T->triangulate() : T->triangulate(ids);
    c.describe([&](std::ostringstream &o) { o.precision(17); for (auto i : ids) { o << " " << (int64_t) i << "("; for (auto x : pts[i].coords) o << x << ","; o << ")"; } });
    auto r = tri::delaunay<D, P>(dt, pts, ids);
    VP_CHECK(r.err.empty(), r.err);
    if (!all && s.chance(1, 2)) c.label("subset"), c.label(corners ? "with corners" : "without corners");
    if (r.simplices == 0) {
        // only fewer points than a simplex has, or all in one hyperplane, have no triangulation
        bool full = false;
        if (ids.size() > D) {
            std::vector<dVector<D, P>> v;
            for (auto id : ids) v.push_back(pts[id].coords);
            if (corners) full = true;
            else if (v.size() <= 40) {
                for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) for (size_t k = j + 1; k < v.size(); ++k) {
                    if constexpr (D == 2) full = full || ex::orient<D>(std::array<dVector<D, P>, D + 1>{v[i], v[j], v[k]}) != 0;
                    else for (size_t l = k + 1; l < v.size(); ++l) full = full || ex::orient<D>(std::array<dVector<D, P>, D + 1>{v[i], v[j], v[k], v[l]}) != 0;
                }
            } else full = true;
        }
        VP_CHECK(!full, "no simplices for " + std::to_string(ids.size()) + " points");
        c.label("empty triangulation");
    }
    // the points themselves are left alone
    for (tIdType i = 1; i <= C.n; ++i) VP_CHECK(pts[i].coords == C.pts[i].coords, "point moved");
    // id ranges of successive triangulations do not overlap
    if (s.chance(1, 4)) {
        auto dt2 = T->triangulate(ids);
        if (!all || true) {
            auto r2 = tri::delaunay<D, P>(dt2, pts, ids);
            VP_CHECK(r2.err.empty(), "second run: " + r2.err);
            if (!r.ties) {
                auto e = tri::same<D, P>(dt, dt2);
                VP_CHECK(e.empty(), "two runs differ: " + e);
            }
            std::set<tIdType> a;
            for (auto &x : dt) a.insert(x.id);
            for (auto &x : dt2) VP_CHECK(!a.count(x.id), "two triangulations share the simplex id " + std::to_string(x.id));
            c.label("triangulated twice");
        }
    }
    c.nontrivial(r.simplices > 2 * D);
    if (r.finiteTies) c.label("cospherical points");
    c.describe([&](std::ostringstream &o) { o << std::to_string(C.n) + " points, " + std::to_string(ids.size()) + " triangulated, " + std::to_string(r.simplices) + " simplices"; });
}

template<uint D, typename P, bool Par>
static void small(Src &s, Ctx &c) { run<D, P, Par>(s, c, 1, 40, {true}); }
template<uint D, typename P, bool Par>
static void large(Src &s, Ctx &c) { run<D, P, Par>(s, c, 200, D == 2 ? 3000 : 1500, {false}); }

#define RULE "more than 2D simplices"
static Reg a1({"C01", "2D double", small<2, double, false>, 10000, 60000, 15, RULE});
static Reg a2({"C01", "3D double", small<3, double, false>, 10000, 60000, 15, RULE});
static Reg a3({"C01", "2D float", small<2, float, false>, 4000, 30000, 15, RULE});
static Reg a4({"C01", "3D float", small<3, float, false>, 4000, 30000, 15, RULE});
static Reg a5({"C01", "2D double parallel", small<2, double, true>, 2000, 10000, 15, RULE});
static Reg a6({"C01", "3D double parallel", small<3, double, true>, 3000, 20000, 15, RULE, true});
static Reg a7({"C01", "3D float parallel", small<3, float, true>, 2000, 10000, 15, RULE, true});
static Reg a8({"C01", "2D float parallel", small<2, float, true>, 1000, 5000, 15, RULE});
static Reg b1({"C01", "2D double large", large<2, double, false>, 60, 2000, 30, RULE});
static Reg b2({"C01", "3D double large", large<3, double, false>, 60, 2000, 30, RULE});
static Reg b3({"C01", "3D double parallel large", large<3, double, true>, 24, 1500, 30, RULE, true, 2});
static Reg b4({"C01", "3D float parallel large", large<3, float, true>, 16, 1000, 30, RULE, true, 2});
int main(int argc, char **argv) { return vp_main(argc, argv); }
