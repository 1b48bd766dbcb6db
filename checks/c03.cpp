// C03: the load-balanced triangulator, with any partition tree, against triangulating all points at once
#include "lb.hpp"
#include "LoadBalancedDCTriangulator.h"
#include <tbb/global_control.h>

using namespace vp;
using namespace lbv;
static PerCase pc([](uint64_t s) {
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    startGen.seed((unsigned) s);
});

// hands out another partitioner's trees
template<uint D, typename P>
struct Watched : lb::Partitioner<D, P, Mon> {
    std::unique_ptr<lb::Partitioner<D, P, Mon>> inner;
    size_t &leafs, &largest;
    Tree<D, P> last;
    Watched(std::unique_ptr<lb::Partitioner<D, P, Mon>> i, size_t &l, size_t &m) : inner(std::move(i)), leafs(l), largest(m) {}
    Tree<D, P> partition(const dBox<D, P> &b, dPoints<D, P> &p, const Point_Ids &ids, Mon &m) override {
        auto t = inner->partition(b, p, ids, m);
        std::vector<const Tree<D, P> *> v;
        nodes<D, P>(t, v);
        for (auto x : v) if (x->isLeaf()) {
            size_t n = std::get<Point_Ids>(x->attachment).size();
            if (n > (1u << D)) ++leafs;
            largest = std::max(largest, n);
        }
        last = t;
        return t;
    }
    std::string info() const override { return inner->info(); }
};

// splits off one leaf after the other, along one dimension
template<uint D, typename P>
struct Chain : lb::Partitioner<D, P, Mon> {
    uint k;
    size_t parts;
    bool front;
    Chain(uint _k, size_t _p, bool _f) : k(_k), parts(_p), front(_f) {}
    static dBox<D, P> box(const dPoints<D, P> &p, const std::vector<tIdType> &v, size_t a, size_t b) {
        dBox<D, P> r(p[v[a]].coords, p[v[a]].coords);
        for (; a < b; ++a) for (uint d = 0; d < D; ++d) {
            r.low[d] = std::min(r.low[d], p[v[a]].coords[d]);
            r.high[d] = std::max(r.high[d], p[v[a]].coords[d]);
        }
        return r;
    }
    Tree<D, P> partition(const dBox<D, P> &, dPoints<D, P> &p, const Point_Ids &ids, Mon &) override {
        std::vector<tIdType> v;
        for (auto i : ids) if (dPoint<D, P>::isFinite(i)) v.push_back(i);
        std::sort(v.begin(), v.end(), [&](tIdType a, tIdType b) { return p[a].coords[k] < p[b].coords[k]; });
        if (!front) std::reverse(v.begin(), v.end());
        auto leaf = [&](size_t a, size_t b) {
            Tree<D, P> t;
            Point_Ids q;
            for (size_t i = a; i < b; ++i) q.insert(v[i]);
            for (tIdType i = dPoint<D, P>::cINF; i != 0; ++i) q.insert(i);
            t.attachment = std::move(q);
            t.intersectionChecker = std::make_unique<lb::BoundsIntersectionChecker<D, P>>(box(p, v, a, b));
            return t;
        };
        auto at = [&](size_t i) { return i * v.size() / parts; };
        Tree<D, P> t = leaf(at(parts - 1), at(parts));
        for (size_t i = parts - 1; i-- > 0;) {
            Tree<D, P> u;
            typename Tree<D, P>::ChildContainer c;
            c.push_back(leaf(at(i), at(i + 1)));
            c.push_back(std::move(t));
            u.attachment = std::move(c);
            u.intersectionChecker = std::make_unique<lb::BoundsIntersectionChecker<D, P>>(box(p, v, at(i), v.size()));
            t = std::move(u);
        }
        return t;
    }
    std::string info() const override { return "chain"; }
};

template<uint D, typename P>
static void run(Src &s, Ctx &c, size_t lo, size_t hi, bool deep = false) {
    size_t n = s.length(lo, hi);
    auto C = genCloud<D, P>(s, c, n);
    bool flat = C.n <= D + 1;
    for (uint d = 0; d < D; ++d) flat = flat || C.bounds.low[d] == C.bounds.high[d];
    if (flat) throw Discard();
    uint threads = s.pick({1u, 2u, 4u, 8u, 16u, 32u});
    lbv::reset(s.chance(1, 2) ? 0 : (unsigned) s.draw(5));
    Balancer<D, P> B;
    if (deep) {
        B.parts = std::min<size_t>(C.n, 2 + s.draw(80));
        B.name = "chain of " + std::to_string(B.parts) + " parts";
        if (B.parts > 40) c.label("more than 40 levels");
        B.p = std::make_unique<Chain<D, P>>((uint) s.draw(D), B.parts, s.chance(1, 2));
    } else
        B = genBalancer<D, P>(s, c, C.n, C.bounds);
    const std::string name = B.name;
    uint occ = s.pick({1u, 2u, 10u});
    bool parBase = s.chance(1, 4), parEdge = s.chance(1, 2), addInf = s.chance(3, 4);
    unsigned width = s.pick({1u, 2u, 4u, 8u});
    auto ref = C.copy(), mine = C.copy();
    C.corners();
    bool own = false;
    if (!addInf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) mine[k] = C.pts[k];
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, width);
    size_t leafs = 0, largest = 0;
    auto watched = std::make_unique<Watched<D, P>>(std::move(B.p), leafs, largest);
    auto &watch = *watched;
    events.reset();
    std::unique_ptr<Triangulator<D, P>> T(new lb::DCTriangulator<D, P, Mon>(C.bounds, mine, threads, std::move(watched), occ, parBase, parEdge, addInf));
    // the corner points surround everything; both triangulations use the same
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) {
        ref[k] = mine[k];
        for (uint d = 0; d < D; ++d) {
            bool hi = (k >> d) & 1;
            VP_CHECK(hi ? mine[k].coords[d] > C.bounds.high[d] : mine[k].coords[d] < C.bounds.low[d],
                     "corner point " + std::to_string((int64_t) k) + " does not lie outside the points");
        }
    }
    std::set<tIdType> ids;
    for (tIdType i = 1; i <= C.n; ++i) ids.insert(i);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
    CGALTriangulator<D, P, false> once(C.bounds, ref, 1);
    auto want = static_cast<Triangulator<D, P> &>(once).triangulate();
    lbv::calls.clear();
    auto w = tri::delaunay<D, P>(want, ref, ids);
    if (!w.err.empty()) throw Discard(); // decided by C01
    if (w.finiteTies) throw Discard();   // not in general position
    c.describe([&](std::ostringstream &o) {
        o << C.n << " points, " << name << ", " << partModes[partMode] << ", " << threads << " threads, parallel base " << parBase << " edge " << parEdge << " add corners " << addInf << " width " << width;
        o.precision(17);
        if (C.n < 30) for (tIdType i = 1; i <= C.n; ++i) { o << " ("; for (auto x : C.pts[i].coords) o << x << ","; o << ")"; }
    });
    auto got = T->triangulate();
    VP_CHECK(lbv::callError.empty(), lbv::callError);
    auto e = tri::same<D, P>(got, want);
    VP_CHECK(e.empty(), e + " (first: load balanced, second: at once)");
    auto r = tri::delaunay<D, P>(got, mine, ids);
    VP_CHECK(r.err.empty(), r.err);
    VP_CHECK(got.verify(mine).valid, "the library's verification rejects the result");
    auto cc = got.crossCheck(want);
    VP_CHECK(cc.valid && cc.missing.empty() && cc.invalid.empty(), "the library's cross-check rejects the result");
    for (tIdType i = 1; i <= C.n; ++i) VP_CHECK(mine[i].coords == C.pts[i].coords, "point moved");
    // what the monitor was told
    std::multiset<size_t> base, merges, toldBase, toldMerges;
    expected<D, P>(watch.last, base, merges);
    auto all = leafSizes<D, P>(watch.last);
    size_t borders = 0;
    std::set<std::string> prov;
    for (auto &[k, p] : events.base) {
        if (!p.empty() && p.back() == 'e') ++borders; else toldBase.insert(k);
        if (all.size() < 10) VP_CHECK(prov.insert(p).second, "the monitor is told of two base triangulations at " << p);
    }
    for (auto &[k, p] : events.merges) toldMerges.insert(k);
    VP_CHECK(events.error.empty(), events.error);
    VP_EQ(events.order, std::string("pPRtT"), "order in which the monitor is told of start and end of the partitioning, the tree, start and end of the triangulation");
    VP_CHECK(events.leafs == all, "the tree the monitor is told of has leaves of" << str(events.leafs) << " points, the balancer's of" << str(all));
    VP_CHECK(toldBase == base, "the monitor is told of base triangulations of" << str(toldBase) << " points, the leaves with points hold" << str(base));
    VP_CHECK(toldMerges == merges, "the monitor is told of merges of" << str(toldMerges) << " triangulations, expected are" << str(merges));
    VP_EQ(borders, merges.size(), "border triangulations the monitor is told of");
    c.nontrivial(leafs > 1);
    if (leafs > 3) c.label("more than three leaves with points");
    if (parBase && largest > 2 * ::DCTriangulator<D, P>::BASE_CUTOFF) c.label("leaves divided further");
}

template<uint D, typename P>
static void small(Src &s, Ctx &c) { run<D, P>(s, c, 6, 250); }
template<uint D, typename P>
static void chain(Src &s, Ctx &c) { run<D, P>(s, c, 40, D == 2 ? 400 : 200, true); }
#define RULE "more than one leaf with points"
static Reg r1({"C03", "2D double", small<2, double>, 6000, 80000, 20, RULE, true});
static Reg r2({"C03", "3D double", small<3, double>, 2000, 40000, 20, RULE, true});
static Reg r3({"C03", "2D float", small<2, float>, 2000, 20000, 20, RULE, true});
static Reg r4({"C03", "3D float", small<3, float>, 1000, 15000, 20, RULE, true});
static Reg r5({"C03", "2D chain", chain<2, double>, 2000, 20000, 30, RULE, true});
static Reg r6({"C03", "3D chain", chain<3, double>, 500, 6000, 30, RULE, true});
int main(int argc, char **argv) { return vp_main(argc, argv); }
