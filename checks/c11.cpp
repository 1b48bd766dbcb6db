// C11: intersection tests of the three partition makers against direct geometry
#include "vp.hpp"
#include <atomic>
#include <memory>
#include <numeric>
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/System.h"
#include "utils/Timings.h"
#include "utils/VTuneAdapter.h"
#include "load_balancing/IntersectionChecker.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
#include "load_balancing/HyperplaneIntersectionChecker.h"

using namespace vp;
using namespace LoadBalancing;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

template<size_t D, typename P>
static std::string sh(const std::array<P, D> &v) {
    std::ostringstream o;
    o << std::setprecision(17) << "(";
    for (size_t d = 0; d < D; ++d) o << (d ? " " : "") << v[d];
    o << ")";
    return o.str();
}

template<uint D, typename P>
struct Setup {
    dPoints<D, P> pts;
    std::unique_ptr<Point_Ids> ids;
    std::vector<tIdType> fin;        // finite ids in use
    std::map<tIdType, size_t> where; // id -> partition
    size_t parts;
    P w;                             // cell width
    bool inf;
};

template<uint D, typename P>
static Setup<D, P> gen(Src &s, size_t maxN) {
    Setup<D, P> S;
    size_t n = 1 + s.length(0, maxN);
    unsigned mode = s.draw(4);
    // coordinates in eighths, so that cells, boxes and distances are exact
    int64_t R = s.pick({20, 100, 400});
    int64_t w8 = s.pick({1, 2, 8, 16, 3, 5, 40});
    S.w = (P) w8 / 8;
    std::array<int64_t, D> shift;
    for (auto &x : shift) x = s.chance(1, 3) ? s.range<int64_t>(-200, 200) : 0;
    for (size_t i = 0; i < n; ++i) {
        dPoint<D, P> p;
        for (uint d = 0; d < D; ++d) {
            int64_t x = s.range<int64_t>(-R, R);
            if (mode == 1) x = x / w8 * w8;            // everything on cell boundaries
            if (mode == 2) x = x % (2 * w8);           // crowded
            p.coords[d] = (P) (x + shift[d]) / 8;
        }
        S.pts.emplace_back(p);
    }
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k)
        for (uint d = 0; d < D; ++d) S.pts[k].coords[d] = (P) (((k >> d) & 1 ? 1 : -1) * 10000);
    S.parts = 1 + s.below(s.pick({2, 8, 24}));
    S.ids = std::make_unique<Point_Ids>(n + 8);
    size_t keep = 1 + s.below(3);
    unsigned how = s.draw(3);
    for (size_t i = 1; i <= n; ++i)
        if (s.below(keep) == 0) {
            S.ids->insert(i);
            S.fin.push_back(i);
            size_t p = how == 0 ? s.below(S.parts) : how == 1 ? std::min<size_t>(S.parts - 1, i * S.parts / (n + 1))
                                                              : (size_t) (std::abs(S.pts[i].coords[0]) * 8 / w8) % S.parts;
            S.where[i] = p;
        }
    S.inf = s.chance(1, 2);
    if (S.inf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) S.ids->insert(k);
    return S;
}

template<uint D, typename P>
static bool touches(const dBox<D, P> &b, const dSphere<D, P> &sp) {
    P q = 0;
    for (uint d = 0; d < D; ++d) {
        P e = sp.center[d] < b.low[d] ? b.low[d] - sp.center[d] : sp.center[d] > b.high[d] ? sp.center[d] - b.high[d] : 0;
        q += e * e;
    }
    return q <= sp.radius * sp.radius;
}

// a sphere in eighths, biased to touch points, boxes or cells
template<uint D, typename P>
static dSphere<D, P> genSphere(Src &s, Setup<D, P> &S) {
    dSphere<D, P> sp;
    dVector<D, P> a;
    if (S.fin.empty()) a.fill(0);
    else a = S.pts[S.fin[s.below(S.fin.size())]].coords;
    unsigned how = s.draw(3);
    int64_t r = s.below(how == 0 ? 20 : 300);
    for (uint d = 0; d < D; ++d) sp.center[d] = a[d] + (P) s.range<int64_t>(-200, 200) / 8;
    if (how == 1) { // exactly touching the point along an axis
        uint d = s.below(D);
        for (uint e = 0; e < D; ++e) sp.center[e] = a[e];
        sp.center[d] += (P) (s.chance(1, 2) ? r : -r) / 8;
    }
    if (how == 2) { // or its cell
        uint d = s.below(D);
        P lo = std::floor(a[d] / S.w) * S.w;
        for (uint e = 0; e < D; ++e) sp.center[e] = a[e];
        sp.center[d] = s.chance(1, 2) ? lo - (P) r / 8 : lo + S.w + (P) r / 8;
        if (s.chance(1, 3)) r = std::max<int64_t>(0, r - 1);
    }
    sp.radius = (P) r / 8;
    return sp;
}

template<uint D, typename P>
static void checkParts(Setup<D, P> &S, std::vector<IntersectionPartition<D, P>> &res) {
    VP_CHECK(res.size() == S.parts, "made " << res.size() << " partitions of " << S.parts);
    std::vector<std::set<tIdType>> want(S.parts);
    for (auto &w : S.where) want[w.second].insert(w.first);
    for (size_t i = 0; i < S.parts; ++i) {
        size_t n = 0;
        dBox<D, P> bb;
        for (auto id : want[i]) {
            VP_CHECK(res[i].pointIds.contains(id), "point " << id << " is missing from its partition " << i);
            for (uint d = 0; d < D; ++d) {
                P x = S.pts[id].coords[d];
                bb.low[d] = n ? std::min(bb.low[d], x) : x;
                bb.high[d] = n ? std::max(bb.high[d], x) : x;
            }
            ++n;
        }
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k, ++n) VP_CHECK(res[i].pointIds.contains(k), "partition " << i << " lacks an infinite point");
        size_t have = 0;
        for (auto id : res[i].pointIds) { (void) id; ++have; }
        VP_CHECK(have == n && res[i].pointIds.size() == n, "partition " << i << " holds " << have << " points, want " << n);
        VP_CHECK(res[i].intersectionChecker != nullptr, "no checker");
        if (!want[i].empty()) {
            auto &b = res[i].intersectionChecker->bounds();
            VP_CHECK(b.low == bb.low && b.high == bb.high, "bounds of partition " << i << " are " << sh(b.low) << "-" << sh(b.high) << " want " << sh(bb.low) << "-" << sh(bb.high));
        }
    }
}

enum Kind { BOUNDS, GRID, ACC };

template<uint D, typename P, int K>
static std::vector<IntersectionPartition<D, P>> make(Setup<D, P> &S, std::unique_ptr<Point_Ids> &arg) {
    Grid<D, P> g(S.w);
    auto part = [&S](tIdType id) -> size_t { return S.where.at(id); };
    // wrapped in the type the partitioners hold, as the command line does
    IntersectionPartitionMakerFunction<D, P> f;
    if (K == BOUNDS) f = BoundsIntersectionPartitionMaker<D, P>{};
    else if (K == GRID) f = GridIntersectionPartitionMaker<D, P>(g);
    else f = AccurateGridIntersectionPartitionMaker<D, P>(g);
    return f(S.pts, *arg, S.parts, part);
}

template<uint D, typename P, int K>
static void propMaker(Src &s, Ctx &c) {
    auto S = gen<D, P>(s, 200);
    auto res = make<D, P, K>(S, S.ids);
    checkParts(S, res);
    Grid<D, P> g(S.w);
    // cells of every partition by direct computation
    std::vector<std::set<dIndex<D>>> cells(S.parts);
    for (auto &w : S.where) {
        dIndex<D> x;
        for (uint d = 0; d < D; ++d) x[d] = (int64_t) std::floor(S.pts[w.first].coords[d] / S.w);
        cells[w.second].insert(x);
    }
    std::vector<size_t> cnt(S.parts);
    for (auto &w : S.where) ++cnt[w.second];
    size_t hits = 0, miss = 0;
    dSimplex<D, P> dummy;
    std::vector<std::unique_ptr<IntersectionChecker<D, P>>> copies;
    for (auto &r : res) copies.push_back(r.intersectionChecker->copy());
    for (int q = 0; q < 12; ++q) {
        auto sp = genSphere<D, P>(s, S);
        dSimplex<D, P> sx = dummy;
        bool haveSx = false;
        if (K == ACC) {
            // the exact variant asks about the circumsphere of a simplex of the point set
            if (S.fin.size() < D + 1) break;
            std::set<tIdType> v;
            for (int t = 0; t < 20 && v.size() < D + 1; ++t) v.insert(S.fin[s.below(S.fin.size())]);
            if (v.size() < D + 1) continue;
            std::copy(v.begin(), v.end(), sx.vertices.begin());
            sx.id = 1;
            if (sx.orientation(S.pts) == 0) continue;
            sp = sx.circumsphere(S.pts);
            haveSx = true;
        }
        for (size_t i = 0; i < S.parts; ++i) {
            if (!cnt[i]) continue;
            if (K == BOUNDS) {
                bool want = touches(res[i].intersectionChecker->bounds(), sp);
                bool got = res[i].intersectionChecker->intersects(sp, sx);
                VP_CHECK(got == want, "box test of partition " << i << " says " << got << " for sphere " << sh(sp.center) << " r=" << sp.radius);
                VP_CHECK(copies[i]->intersects(sp, sx) == want, "the copy answers differently");
                (want ? hits : miss)++;
            } else if (K == GRID) {
                bool want = false;
                for (auto &x : cells[i]) {
                    dBox<D, P> b;
                    for (uint d = 0; d < D; ++d) { b.low[d] = (P) x[d] * S.w; b.high[d] = (P) (x[d] + 1) * S.w; }
                    want = want || touches(b, sp);
                }
                bool got;
                try { got = res[i].intersectionChecker->intersects(sp, sx); }
                catch (AssertionException &e) { VP_FAIL("the grid test of partition " << i << " contradicts itself for sphere " << sh(sp.center) << " r=" << sp.radius << " width " << S.w); }
                VP_CHECK(got == want, "grid test of partition " << i << " says " << got << " for sphere " << sh(sp.center) << " r=" << sp.radius << " width " << S.w);
                VP_CHECK(copies[i]->intersects(sp, sx) == want, "the copy answers differently");
                (want ? hits : miss)++;
            } else if (haveSx) {
                // must: a point of the partition clearly inside; may: a point of an own cell not clearly outside
                bool must = false, may = false;
                P scale = sp.radius * sp.radius + 1;
                for (uint d = 0; d < D; ++d) scale += sp.center[d] * sp.center[d];
                P tol = scale * 1024 * std::numeric_limits<P>::epsilon();
                if (!(scale < (P) 1e7)) continue; // sliver: rounding decides
                for (auto &w : S.where) {
                    P q = 0;
                    for (uint d = 0; d < D; ++d) q += (S.pts[w.first].coords[d] - sp.center[d]) * (S.pts[w.first].coords[d] - sp.center[d]);
                    dIndex<D> x;
                    for (uint d = 0; d < D; ++d) x[d] = (int64_t) std::floor(S.pts[w.first].coords[d] / S.w);
                    if (w.second == i && q < sp.radius * sp.radius - tol) must = true;
                    if (cells[i].count(x) && q <= sp.radius * sp.radius + tol) may = true;
                }
                bool got = res[i].intersectionChecker->intersects(sp, sx);
                if (must) VP_CHECK(got, "exact grid test of partition " << i << " misses a point inside the circumsphere " << sh(sp.center) << " r=" << sp.radius << " width " << S.w);
                if (!may) VP_CHECK(!got, "exact grid test of partition " << i << " reports the circumsphere " << sh(sp.center) << " r=" << sp.radius << " that holds no point of its cells, width " << S.w);
                VP_CHECK(copies[i]->intersects(sp, sx) == got, "the copy answers differently");
                (got ? hits : miss)++;
            }
        }
    }
    c.nontrivial(S.where.size() >= 2 && S.parts >= 2 && hits && miss);
    c.describe([&](std::ostream &o) {
        o << D << "D points " << S.where.size() << " partitions " << S.parts << " width " << S.w << " infinite " << S.inf << " hits " << hits << " misses " << miss;
    });
}

// many partitions at once, many points: the per-partition state must not be shared
template<int K>
static void propMany(Src &s, Ctx &c) {
    Setup<2, double> S;
    S.parts = s.range<int>(8, 64);
    size_t per = s.range<int>(1, 40);
    S.w = s.pick({0.5, 4.0, 64.0});
    S.inf = true;
    S.ids = std::make_unique<Point_Ids>(S.parts * per + 8);
    std::mt19937 g(s.draw(0));
    for (size_t i = 1; i <= S.parts * per; ++i) {
        dPoint<2, double> p;
        for (auto &x : p.coords) x = (int64_t) (g() % 2000) / 8.0 - 100;
        S.pts.emplace_back(p);
        S.ids->insert(i);
        S.where[i] = i % S.parts;
    }
    for (tIdType k = dPoint<2, double>::cINF; k != 0; ++k) { S.ids->insert(k); S.pts[k].coords = {{1e4, 1e4}}; }
    c.nontrivial();
    c.describe([&](std::ostream &o) { o << "partitions " << S.parts << " points per partition " << per; });
    for (int rep = 0; rep < 5; ++rep) {
        auto res = make<2, double, K>(S, S.ids);
        checkParts(S, res);
    }
}

template<uint D>
static void propPlane(Src &s, Ctx &c) {
    // n.x - o > -r with integers; the half space lies on the side the normal points to
    dVector<D, double> n, b;
    n.fill(0);
    n[s.below(D)] = s.chance(1, 2) ? 1 : -1;      // unit normal, exact
    int64_t off = s.range<int64_t>(-50, 50);
    dBox<D, double> bx;
    bx.low.fill(-1);
    bx.high.fill(1);
    HyperplaneIntersectionChecker<D, double> ch(bx, n, off / 8.0);
    auto cp = ch.copy();
    VP_CHECK(cp->bounds() == bx && ch.bounds() == bx, "bounds changed");
    for (int q = 0; q < 10; ++q) {
        dSphere<D, double> sp;
        int64_t dot = 0, r = s.below(60);
        for (uint d = 0; d < D; ++d) {
            int64_t x = s.range<int64_t>(-80, 80);
            sp.center[d] = x / 8.0;
            dot += x * (int64_t) n[d];
        }
        sp.radius = r / 8.0;
        bool want = dot - off + r > 0; // the open ball reaches into the open half space
        dSimplex<D, double> sx;
        if (dot - off + r == 0) { // touching, the test may allow for rounding
            VP_EQ(cp->intersects(sp, sx), ch.intersects(sp, sx), "the copy answers differently");
            continue;
        }
        VP_CHECK(ch.intersects(sp, sx) == want, "half space " << sh(n) << " offset " << off / 8.0 << " sphere " << sh(sp.center) << " r=" << sp.radius);
        VP_CHECK(cp->intersects(sp, sx) == want, "the copy answers differently");
    }
    c.nontrivial();
    c.describe([&](std::ostream &o) { o << "normal " << sh(n) << " offset " << off / 8.0; });
}

static const char *NT = "two or more points and partitions, spheres hitting and missing";
static Reg r1({"C11", "bounds_2d", propMaker<2, double, BOUNDS>, 40000, 60000, 30, NT});
static Reg r2({"C11", "bounds_3d", propMaker<3, double, BOUNDS>, 40000, 60000, 30, NT});
static Reg r3({"C11", "grid_2d", propMaker<2, double, GRID>, 40000, 60000, 30, NT});
static Reg r4({"C11", "grid_3d", propMaker<3, double, GRID>, 40000, 60000, 30, NT});
static Reg r5({"C11", "accurate_2d", propMaker<2, double, ACC>, 40000, 60000, 30, NT});
static Reg r6({"C11", "accurate_3d", propMaker<3, double, ACC>, 40000, 60000, 30, NT});
static Reg r7({"C11", "many_bounds", propMany<BOUNDS>, 2000, 8000, 60, "all", true});
static Reg r8({"C11", "many_grid", propMany<GRID>, 2000, 8000, 60, "all", true});
static Reg r9({"C11", "plane_2d", propPlane<2>, 2000, 100000, 30, "all"});
static Reg r10({"C11", "plane_3d", propPlane<3>, 2000, 100000, 30, "all"});

int main(int argc, char **argv) { return vp_main(argc, argv); }
