// C06: partition trees of the load balancers; C34: samples and sample graphs
#include "lb.hpp"
#include "exact.hpp"
#include "load_balancing/PartitionTreeDump.h"
#include <tbb/global_control.h>
#include <fstream>
#include <unistd.h>

using namespace vp;
using namespace lbv;
static PerCase pc([](uint64_t s) {
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    startGen.seed((unsigned) s);
    resetGlobals();
});

template<uint D, typename P>
struct In {
    Cloud<D, P> C;
    dBox<D, P> bounds;
    std::unique_ptr<Point_Ids> ids;
    std::set<tIdType> fin, corners;
    bool withCorners = false;
};

template<uint D, typename P>
static In<D, P> genIn(Src &s, Ctx &c, size_t lo, size_t hi) {
    In<D, P> I;
    I.C = genCloud<D, P>(s, c, s.length(lo, hi), {true});
    if (I.C.n < 1) throw Discard();
    auto tight = I.C.bounds;
    for (uint d = 0; d < D; ++d) // corner points must surround flat clouds, too
        if (I.C.bounds.low[d] == I.C.bounds.high[d]) I.C.bounds.low[d] -= 1, I.C.bounds.high[d] += 1;
    I.C.corners();
    I.bounds = tight;
    if (s.chance(1, 3))
        for (uint d = 0; d < D; ++d) {
            P e = tight.high[d] - tight.low[d];
            I.bounds.low[d] -= e * (P) s.pick({0.0, 0.5, 3.0});
            I.bounds.high[d] += e * (P) s.pick({0.0, 0.25, 3.0});
        }
    I.ids = std::make_unique<Point_Ids>(I.C.n + 8);
    size_t keep = s.chance(1, 2) ? 1 : 1 + s.draw(3);
    for (tIdType i = 1; i <= I.C.n; ++i)
        if (s.below(keep) == 0) I.ids->insert(i), I.fin.insert(i);
    if (I.fin.empty()) throw Discard();
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) I.corners.insert(k);
    if (s.chance(3, 4)) {
        for (auto k : I.corners) I.ids->insert(k);
        I.withCorners = true;
        c.label("ids hold the corner points");
    }
    c.describe([&](std::ostringstream &o) {
        o << I.fin.size() << " points ";
        o.precision(17);
        if (I.fin.size() < 30) for (auto i : I.fin) { o << " " << i << "("; for (auto x : I.C.pts[i].coords) o << x << ","; o << ")"; }
    });
    return I;
}

// an in-sphere query as the merge makes it: where a point of the subtree lies inside the sphere, the test must say so
template<uint D, typename P>
static size_t claims(Src &s, const In<D, P> &I, const std::vector<const Tree<D, P> *> &all,
                     const std::map<const Tree<D, P> *, std::set<tIdType>> &below) {
    // simplices of the triangulation of some of the points, as partial triangulations have them
    std::set<tIdType> some;
    for (auto i : I.fin) if (s.chance(1, 2)) some.insert(i);
    for (auto k : I.corners) some.insert(k);
    auto pts = I.C.copy();
    for (auto k : I.corners) pts[k] = I.C.pts[k];
    std::unique_ptr<Triangulator<D, P>> T(new CGALTriangulator<D, P, false>(I.C.bounds, pts, 1));
    auto dt = T->triangulate(some);
    size_t hits = 0;
    for (auto &sx : dt) {
        if (hits > 3000) break;
        std::array<dVector<D, P>, D + 1> v;
        for (uint d = 0; d <= D; ++d) v[d] = I.C.pts[sx.vertices[d]].coords;
        auto cs = sx.circumsphere(I.C.pts);
        std::set<tIdType> in;
        for (auto i : I.fin)
            if (ex::inside<D>(v, I.C.pts[i].coords) > 0) in.insert(i);
        for (auto t : all) {
            auto &b = below.at(t);
            tIdType hit = 0;
            for (auto i : in) if (b.count(i)) { hit = i; break; }
            if (!hit) continue;
            ++hits;
            VP_CHECK(t->intersectionChecker->intersects(cs, sx),
                     "point " << hit << " of the subtree lies inside the circumsphere of " << tri::str(sx)
                              << " but the subtree's intersection test denies it, radius " << cs.radius);
        }
    }
    return hits;
}

template<uint D, typename P>
static void checkTree(Src &s, Ctx &c, const In<D, P> &I, const Tree<D, P> &t) {
    std::string err;
    // the corner points belong to every leaf
    auto ids = idsOf<D, P>(t, err, I.corners, I.withCorners);
    VP_CHECK(err.empty(), err);
    auto want = I.fin;
    for (auto i : want) VP_CHECK(ids.count(i), "point " << i << " is in no leaf");
    for (auto i : ids) VP_CHECK(want.count(i) || I.corners.count(i), "point " << i << " was not among the ids");
    std::vector<const Tree<D, P> *> all;
    nodes<D, P>(t, all);
    std::map<const Tree<D, P> *, std::set<tIdType>> below;
    for (auto n : all) {
        VP_CHECK(n->intersectionChecker, "a node of the tree has no intersection test");
        std::string e;
        auto b = idsOf<D, P>(*n, e, I.corners);
        for (auto k : I.corners) b.erase(k);
        auto &box = n->intersectionChecker->bounds();
        for (auto i : b)
            for (uint d = 0; d < D; ++d) {
                P x = I.C.pts[i].coords[d];
                VP_CHECK(box.low[d] <= x && x <= box.high[d], "point " << i << " lies outside the bounds of its " << (n->isLeaf() ? "leaf" : "subtree")
                         << " in dimension " << d << ": " << x << " not in " << box.low[d] << ".." << box.high[d]);
            }
        below[n] = std::move(b);
    }
    size_t hits = claims<D, P>(s, I, all, below);
    if (hits) c.label("spheres around points of a subtree");
}

template<uint D, typename P>
static std::set<std::pair<std::set<tIdType>, std::string>> leaves(const Tree<D, P> &t) {
    std::vector<const Tree<D, P> *> v;
    nodes<D, P>(t, v);
    std::set<std::pair<std::set<tIdType>, std::string>> r;
    for (auto x : v) if (x->isLeaf()) {
        std::string e;
        r.emplace(idsOf<D, P>(*x, e, {}), text<D, P>(*x));
    }
    return r;
}

template<uint D, typename P>
static void trees(Src &s, Ctx &c) {
    auto I = genIn<D, P>(s, c, 1, 120);
    reset(s.chance(1, 2) ? 0 : (unsigned) s.draw(5));
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, s.pick({1u, 2u, 4u}));
    auto B = genBalancer<D, P>(s, c, I.fin.size(), I.bounds);
    c.describe([&](std::ostringstream &o) { o << " " << B.name << ", " << partModes[partMode]; });
    Mon mon;
    auto before = I.C.copy();
    Tree<D, P> t = B.p->partition(I.bounds, I.C.pts, *I.ids, mon);
    VP_CHECK(callError.empty(), callError);
    for (tIdType i = 1; i <= I.C.n; ++i) VP_CHECK(I.C.pts[i].coords == before[i].coords, "point moved");
    if (B.flat && !t.isLeaf())
        for (auto &k : std::get<Kids<D, P>>(t.attachment)) VP_CHECK(k.isLeaf(), "a flattened tree has inner nodes below its root");
    checkTree<D, P>(s, c, I, t);
    size_t nl = leafCount<D, P>(t);
    c.nontrivial(nl > 1 && I.fin.size() > 2);
    if (nl > 4) c.label("more than four leaves");
    // copies, moves, flattening, collecting
    const std::string was = text<D, P>(t);
    {
        Tree<D, P> cp(t);
        VP_EQ((text<D, P>(cp)), was, "a copy differs");
        VP_EQ((text<D, P>(t)), was, "copying changed the tree");
        checkTree<D, P>(s, c, I, cp);
        Tree<D, P> as;
        as.attachment = Point_Ids();
        as = static_cast<const Tree<D, P> &>(cp);
        VP_EQ((text<D, P>(as)), was, "an assigned copy differs");
        Tree<D, P> mv(std::move(cp));
        VP_EQ((text<D, P>(mv)), was, "a moved tree differs");
        Tree<D, P> ma;
        ma = std::move(mv);
        VP_EQ((text<D, P>(ma)), was, "a move-assigned tree differs");
        auto wantLeaves = leaves<D, P>(t);
        ma.flatten();
        if (!ma.isLeaf())
            for (auto &k : std::get<Kids<D, P>>(ma.attachment)) VP_CHECK(k.isLeaf(), "flattening left inner nodes");
        VP_CHECK((leaves<D, P>(ma) == wantLeaves), "flattening changed the leaves");
        VP_EQ((leafCount<D, P>(ma)), nl, "flattening changed the number of leaves");
        // without intersection tests (a default-constructed node has none)
        Tree<D, P> bare;
        auto att = t.attachment;
        bare.attachment = std::move(att);
        Tree<D, P> bc(bare);
        VP_EQ((text<D, P>(bc)), (text<D, P>(bare)), "a copy of a node without test differs");
        // the conversion the triangulator uses
        std::string e;
        auto allIds = idsOf<D, P>(t, e, I.corners);
        if (!t.isLeaf()) {
            auto kids = std::get<Kids<D, P>>(as.attachment);
            std::vector<std::pair<std::set<tIdType>, dBox<D, P>>> w;
            for (auto &k : kids) w.emplace_back(idsOf<D, P>(k, e, I.corners), k.intersectionChecker->bounds());
            auto [parts, checkers] = lb::toOldPartitioning<D, P>(kids);
            VP_EQ(parts.size(), w.size(), "number of partitions");
            VP_EQ(checkers.size(), w.size(), "number of intersection tests");
            for (size_t i = 0; i < w.size(); ++i) {
                std::set<tIdType> got;
                for (auto id : parts[i].points) got.insert(id);
                VP_CHECK(got == w[i].first, "partition " << i << " holds other points than the subtree");
                VP_EQ((size_t) parts[i].id, i, "partition number");
                auto same = [&](const dBox<D, P> &b) {
                    return !memcmp(b.low.data(), w[i].second.low.data(), sizeof(P) * D) && !memcmp(b.high.data(), w[i].second.high.data(), sizeof(P) * D);
                };
                VP_CHECK(same(parts[i].bounds), "partition " << i << " has other bounds than the subtree");
                VP_CHECK(checkers[i] && same(checkers[i]->bounds()), "the intersection tests are in another order");
                for (auto id : got)
                    if (I.fin.count(id)) VP_EQ((size_t) parts.partition(id), i, "partition of point " << id);
            }
        }
        as.collect();
        VP_CHECK(as.isLeaf(), "a collected tree is no leaf");
        VP_CHECK((idsOf<D, P>(as, e, I.corners) == allIds), "collecting changed the points");
    }
    VP_EQ((text<D, P>(t)), was, "copies share state with the tree");
    // printing: leaf sizes and child counts in order, indented by depth
    {
        std::ostringstream got, cout, wantP;
        auto old = std::cout.rdbuf(cout.rdbuf());
        lb::printPartitionTree<D, P>(t, got);
        std::cout.rdbuf(old);
        std::function<void(const Tree<D, P> &, size_t)> w = [&](const Tree<D, P> &x, size_t ind) {
            if (auto k = std::get_if<Kids<D, P>>(&x.attachment)) {
                wantP << std::string(ind, '-') << " (" << k->size() << ")\n";
                for (auto &y : *k) w(y, ind + 1);
            } else wantP << std::string(ind, '-') << " " << std::get<Point_Ids>(x.attachment).size() << "\n";
        };
        w(t, 0);
        VP_EQ(got.str(), wantP.str(), "printed tree");
        VP_EQ(cout.str(), std::string(), "printing a tree to a stream writes to standard output");
        std::ostringstream dump;
        old = std::cout.rdbuf(dump.rdbuf());
        lb::dumpPartition<D, P>(t);
        std::cout.rdbuf(old);
        // every leaf's finite points appear once in braces
        std::multiset<std::set<tIdType>> dl, tl;
        std::string d = dump.str();
        for (size_t p = 0; (p = d.find('{', p)) != std::string::npos;) {
            size_t q = d.find('}', p);
            VP_CHECK(q != std::string::npos, "unbalanced dump");
            std::istringstream is(d.substr(p + 1, q - p - 1));
            std::set<tIdType> ids;
            for (tIdType x; is >> x;) VP_CHECK(ids.insert(x).second, "dump names a point twice");
            dl.insert(ids);
            p = q;
        }
        for (auto &l : leaves<D, P>(t)) { auto x = l.first; for (auto k : I.corners) x.erase(k); tl.insert(x); }
        size_t nodesN = 0;
        for (auto &x : tl) nodesN += x.size();
        if (nl == leaves<D, P>(t).size())
            VP_CHECK(dl == tl, "the dump does not show the leaves: " << d);
    }
}

// where the points go, and how far the splitting goes
template<uint D, typename P>
static void assignment(Src &s, Ctx &c) {
    auto I = genIn<D, P>(s, c, 1, 120);
    reset((unsigned) s.draw(5));
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, s.pick({1u, 4u}));
    double M = 0;
    for (auto i : I.fin) for (auto x : I.C.pts[i].coords) M = std::max(M, std::abs((double) x));
    for (uint d = 0; d < D; ++d) M = std::max({M, std::abs((double) I.bounds.low[d]), std::abs((double) I.bounds.high[d])});
    if (M > std::sqrt((double) std::numeric_limits<P>::max()) / 100) throw Discard(); // distances overflow
    // room for the rounding of a distance, and for its square becoming denormal
    const double tol = 64 * (double) std::numeric_limits<P>::epsilon() * M + 4 * std::sqrt((double) std::numeric_limits<P>::min());
    unsigned kind = (unsigned) s.draw(7), w = s.chance(1, 2) ? 0 : (unsigned) s.draw(5);
    size_t cutoff = (1u << D) + 2 + s.draw(20), parts = kind < 3 ? 1 + s.draw(8) : pow2(s, 4);
    static const char *names[] = {"nearest sample", "centre distance", "bounds distance", "nearest sample bipartition", "hyperplane", "binary box estimating", "k-way"};
    std::string name = names[kind];
    c.label(name);
    Mon mon;
    auto dist = [&](const dVector<D, P> &a, const dVector<D, P> &b) {
        double q = 0;
        for (uint d = 0; d < D; ++d) { double e = (double) a[d] - (double) b[d]; q += e * e; }
        return std::sqrt(q);
    };
    auto boxDist = [&](const dVector<D, P> &a, const dBox<D, P> &b) {
        double q = 0;
        for (uint d = 0; d < D; ++d) { double e = std::max({0.0, (double) b.low[d] - (double) a[d], (double) a[d] - (double) b.high[d]}); q += e * e; }
        return std::sqrt(q);
    };
    auto kidsOf = [&](const Tree<D, P> &t) -> const Kids<D, P> & {
        VP_CHECK(!t.isLeaf(), "no partition was made");
        auto &k = std::get<Kids<D, P>>(t.attachment);
        for (auto &x : k) VP_CHECK(x.isLeaf(), "the parts are split further");
        return k;
    };
    size_t decided = 0;
    // d(point, part): smaller is better, infinite where the part has nothing to be near to
    auto nearestPart = [&](const Tree<D, P> &t, const std::function<double(const dVector<D, P> &, size_t)> &d) {
        auto &k = kidsOf(t);
        VP_EQ(k.size(), parts, "number of parts");
        for (size_t i = 0; i < k.size(); ++i)
            for (auto id : std::get<Point_Ids>(k[i].attachment)) {
                if (!I.fin.count(id)) continue;
                auto &x = I.C.pts[id].coords;
                double own = d(x, i);
                size_t far = 0;
                for (size_t j = 0; j < parts; ++j) {
                    double q = d(x, j);
                    VP_CHECK(own <= q + tol, "point " << id << " is in part " << i << " at distance " << own << ", part " << j << " is at distance " << q);
                    far += q > own + tol;
                }
                decided += far + 1 == parts;
            }
    };
    auto depthOf = [&](const Tree<D, P> &t, size_t most, const std::function<bool(const Tree<D, P> &)> &stop, size_t fan) {
        std::function<void(const Tree<D, P> &, size_t)> go = [&](const Tree<D, P> &x, size_t depth) {
            VP_CHECK(depth <= most, "the tree is deeper than " << most);
            if (auto k = std::get_if<Kids<D, P>>(&x.attachment)) {
                VP_EQ(k->size(), fan, "children of a node");
                ++decided;
                for (auto &y : *k) go(y, depth + 1);
            } else VP_CHECK(depth == most || stop(x), "a leaf at depth " << depth << " of " << most << " with " << std::get<Point_Ids>(x.attachment).size() << " ids is not split any further");
        };
        go(t, 0);
    };
    size_t n = I.fin.size();
    if (kind < 3) {
        auto sm = genSampler<D, P>(s, n, w);
        auto mk = genMaker<D, P>(s, I.bounds, name);
        if (kind == 0) {
            lb::NearestSamplePointAssigningSamplePartitioner<D, P, Mon> p(parts, sm, mk);
            auto t = p.partition(I.bounds, I.C.pts, *I.ids, mon);
            auto &S = p.sampling();
            nearestPart(t, [&](const dVector<D, P> &x, size_t part) {
                double q = INFINITY;
                for (size_t i = 0; i < S.points.size(); ++i) if (S.partition[i] == (int) part) q = std::min(q, dist(x, S.points[i]));
                return q;
            });
        } else if (kind == 1) {
            lb::CenterDistancePointAssigningSamplePartitioner<D, P, Mon> p(parts, sm, mk);
            auto t = p.partition(I.bounds, I.C.pts, *I.ids, mon);
            auto &ce = p.partitionCenters();
            VP_EQ(ce.size(), parts, "number of partition centres");
            nearestPart(t, [&](const dVector<D, P> &x, size_t part) { return dist(x, ce[part]); });
        } else {
            lb::BoundsDistancePointAssigningSamplePartitioner<D, P, Mon> p(parts, sm, mk);
            auto t = p.partition(I.bounds, I.C.pts, *I.ids, mon);
            auto &S = p.sampling();
            std::vector<std::unique_ptr<dBox<D, P>>> b(parts);
            for (size_t i = 0; i < S.points.size(); ++i) {
                auto &x = b.at(S.partition[i]);
                if (!x) x = std::make_unique<dBox<D, P>>(S.points[i], S.points[i]);
                for (uint d = 0; d < D; ++d) {
                    x->low[d] = std::min(x->low[d], S.points[i][d]);
                    x->high[d] = std::max(x->high[d], S.points[i][d]);
                }
            }
            nearestPart(t, [&](const dVector<D, P> &x, size_t part) { return b[part] ? boxDist(x, *b[part]) : (double) INFINITY; });
        }
    } else if (kind == 3) {
        lb::NearestSamplePointAssigningSampleBipartitioner<D, P, Mon> p(parts, genSampler<D, P>(s, n, w), cutoff, genMaker<D, P>(s, I.bounds, name));
        auto t = p.partition(I.bounds, I.C.pts, *I.ids, mon);
        depthOf(t, (size_t) std::lround(std::log2(parts)), [&](const Tree<D, P> &x) { return std::get<Point_Ids>(x.attachment).size() <= cutoff; }, 2);
    } else if (kind == 4) {
        lb::HyperplaneSamplingBipartitioner<D, P, Mon> p(parts, genSampler<D, P>(s, n, w));
        auto t = p.partition(I.bounds, I.C.pts, *I.ids, mon);
        depthOf(t, (size_t) std::lround(std::log2(parts)), [&](const Tree<D, P> &x) { return !hasFinite<D, P>(x); }, 2);
    } else if (kind == 5) {
        lb::BinaryBoxEstimatingSamplePartitioner<D, P, Mon> p(cutoff, genSampler<D, P>(s, n, w));
        auto t = p.partition(I.bounds, I.C.pts, *I.ids, mon);
        depthOf(t, 10, [&](const Tree<D, P> &x) { return std::get<Point_Ids>(x.attachment).size() < cutoff; }, 2);
    } else {
        lb::KWaySplitter<D, P, Mon> p(parts);
        auto t = p.partition(I.bounds, I.C.pts, *I.ids, mon);
        auto &k = kidsOf(t);
        VP_EQ(k.size(), parts, "number of parts");
        std::array<size_t, D> ways;
        ways.fill(1);
        for (size_t i = 0, q = parts; q > 1; q /= 2, ++i) ways[i % D] *= 2;
        std::function<void(size_t, size_t, uint)> go = [&](size_t from, size_t to, uint dim) { // equal slices of each group's extent, dimension by dimension
            if (dim == D) return;
            size_t step = (to - from) / ways[dim];
            double lo = INFINITY, hi = -INFINITY;
            auto each = [&](size_t a, size_t b, const std::function<void(tIdType, double)> &f) {
                for (size_t i = a; i < b; ++i)
                    for (auto id : std::get<Point_Ids>(k[i].attachment)) if (I.fin.count(id)) f(id, (double) I.C.pts[id].coords[dim]);
            };
            each(from, to, [&](tIdType, double x) { lo = std::min(lo, x), hi = std::max(hi, x); });
            double r = 1e-5 + 1e-6 * (std::abs(lo) + std::abs(hi)) / (hi - lo); // positions are computed in single precision
            if (hi > lo && r < 0.1 && hi - lo > 1e-30)
                for (size_t i = 0; i < ways[dim]; ++i)
                    each(from + i * step, from + (i + 1) * step, [&](tIdType id, double x) {
                        double q = (x - lo) / (hi - lo) * (double) ways[dim];
                        VP_CHECK(q >= (double) i - r * ways[dim] && q <= (double) (i + 1) + r * ways[dim], "point " << id << " at " << q << " of " << ways[dim] << " slices in dimension " << dim << " is in slice " << i);
                        ++decided;
                    });
            for (size_t i = 0; i < ways[dim]; ++i) go(from + i * step, from + (i + 1) * step, dim + 1);
        };
        go(0, parts, 0);
    }
    VP_CHECK(callError.empty(), callError);
    c.nontrivial(decided > 0 && n > 2 && parts > 1);
    c.describe([&](std::ostringstream &o) { o << " " << name << ", " << parts << " parts, cutoff " << cutoff << ", " << partModes[partMode]; });
}

// ------------------------------------------------------------------------------------- C34
template<uint D, typename P>
static void sample(Src &s, Ctx &c) {
    auto I = genIn<D, P>(s, c, 1, 200);
    reset((unsigned) s.draw(5));
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, s.pick({1u, 2u, 4u, 8u}));
    unsigned w = s.chance(1, 3) ? 0 : (unsigned) s.draw(5);
    std::vector<size_t> seen;
    SamplerSpec spec(s, I.fin.size(), w);
    auto sm = spec.template make<D, P>([&](size_t x) { seen.push_back(x); });
    int parts = 1 + (int) s.draw(8);
    c.describe([&](std::ostringstream &o) { o << " " << parts << " parts, weights " << w << ", " << partModes[partMode]; });
    size_t rounds = 1 + s.draw(2);
    for (size_t r = 0; r < rounds; ++r) {
        seen.clear();
        calls.clear();
        startGen.seed(7);
        auto S = sm(I.bounds, I.C.pts, *I.ids, parts);
        VP_CHECK(callError.empty(), callError);
        VP_EQ(seen.size(), size_t(2), "calls of the sample size function");
        size_t all = I.C.n, want = std::min(seen[1], I.fin.size());
        VP_CHECK(seen[0] == all || seen[0] == all + 1, "the sample size was asked for " << seen[0] << " points, there are " << all);
        // the sampled points
        std::map<dVector<D, P>, tIdType> at;
        for (auto i : I.fin) at[I.C.pts[i].coords] = i;
        std::vector<tIdType> node;
        std::map<tIdType, size_t> where;
        for (auto &v : S.points) {
            auto it = at.find(v);
            VP_CHECK(it != at.end(), "a sampled point is none of the points to sample from");
            VP_CHECK(where.emplace(it->second, node.size()).second, "point " << it->second << " sampled twice");
            node.push_back(it->second);
        }
        VP_EQ(node.size(), want, "number of sampled points");
        // the sample's triangulation
        std::set<tIdType> sid(node.begin(), node.end());
        auto rep = tri::delaunay<D, P>(S.simplices, I.C.pts, sid, false);
        VP_CHECK(rep.err.empty(), "sample triangulation: " << rep.err);
        // the graph
        std::map<std::pair<size_t, size_t>, double> edges;
        double maxD = 0;
        for (uint d = 0; d < D; ++d) maxD += ((double) I.bounds.high[d] - I.bounds.low[d]) * ((double) I.bounds.high[d] - I.bounds.low[d]);
        for (auto &x : S.simplices)
            for (auto a : x.vertices) for (auto b : x.vertices) if (a != b) {
                double q = 0;
                for (uint d = 0; d < D; ++d) { double e = (double) I.C.pts[a].coords[d] - I.C.pts[b].coords[d]; q += e * e; }
                edges[{where.at(a), where.at(b)}] = q / maxD;
            }
        auto &G = S.graph;
        VP_EQ(G.size(), node.size(), "nodes of the sample graph");
        VP_EQ(G.nodeRecords.size(), node.size() + 1, "offsets of the sample graph");
        VP_EQ(G.nodeRecords.front(), 0, "first offset");
        VP_EQ((size_t) G.nodeRecords.back(), G.adjacency.size(), "last offset");
        VP_EQ(G.adjacency.size(), G.edgeWeights.size(), "edges and weights");
        std::map<std::pair<size_t, size_t>, int> got;
        for (size_t i = 0; i < node.size(); ++i) {
            VP_CHECK(G.nodeRecords[i] <= G.nodeRecords[i + 1], "offsets of node " << i << " not ascending");
            for (int e = G.nodeRecords[i]; e < G.nodeRecords[i + 1]; ++e) {
                VP_CHECK((size_t) G.adjacency[e] != i, "node " << i << " is its own neighbour");
                VP_CHECK(got.emplace(std::make_pair(i, (size_t) G.adjacency[e]), G.edgeWeights[e]).second, "edge " << i << "-" << G.adjacency[e] << " twice");
            }
#ifdef REPRODUCIBLE
            for (int e = G.nodeRecords[i] + 1; e < G.nodeRecords[i + 1]; ++e) VP_CHECK(G.adjacency[e - 1] < G.adjacency[e], "neighbours not sorted");
#endif
        }
        if (s.chance(1, 20)) { // as a METIS file
            char path[] = "/tmp/vp-c34-XXXXXX";
            int fd = mkstemp(path);
            if (fd < 0) throw Discard();
            close(fd);
            G.toFile(path);
            std::ifstream f(path);
            std::stringstream txt;
            txt << f.rdbuf();
            unlink(path);
            std::string line;
            auto nums = [&] {
                std::vector<long> v;
                VP_CHECK((bool) std::getline(txt, line), "the graph's file has too few lines");
                std::istringstream is(line);
                for (long x; is >> x;) v.push_back(x);
                VP_CHECK(is.eof(), "unreadable line in the graph's file: " << line);
                return v;
            };
            auto head = nums();
            VP_CHECK((head == std::vector<long>{(long) node.size(), (long) got.size() / 2, 1}), "first line of the graph's file: " << line);
            for (size_t i = 0; i < node.size(); ++i) {
                std::vector<long> w;
                for (int e = G.nodeRecords[i]; e < G.nodeRecords[i + 1]; ++e) w.push_back(G.adjacency[e] + 1), w.push_back(G.edgeWeights[e]);
                VP_CHECK(nums() == w, "node " << i << " in the graph's file: " << line);
            }
            VP_CHECK(!std::getline(txt, line), "the graph's file has too many lines");
        }
        VP_EQ(got.size(), edges.size(), "edges of the sample graph and of the sample triangulation");
        std::vector<std::pair<double, int>> lw;
        auto wf = weightFunction<D, P>(w);
        double lo = 0, hi = 0;
        if (wf) lo = std::min(wf(0), wf(1)), hi = std::max(wf(0), wf(1));
        for (auto &[e, q] : edges) {
            VP_CHECK(got.count(e), "the triangulation's edge between nodes " << e.first << " and " << e.second << " is missing in the graph");
            int x = got.at(e);
            VP_CHECK(x > 0, "edge weight " << x);
            VP_EQ(x, got.at({e.second, e.first}), "weight of the edge in the other direction");
            if (!wf) VP_EQ(x, 1, "weight of an unweighted edge");
            else {
                // mapped linearly to 1..99, with room for rounding
                double f = std::clamp((double) wf((P) q), lo, hi), l = 1 + 98 * (f - lo) / (hi - lo);
                VP_CHECK(x >= 1 && x <= 99 && std::abs(x - l) <= 1.01 + 1e-3 * l + (std::is_same<P, float>::value ? 0.02 * l : 0),
                         "weight " << x << " where the weight function says " << l << " of 99");
            }
        }
        // the partition
        VP_EQ(S.partition.size(), node.size(), "size of the partition");
        for (int p : S.partition) VP_CHECK(p >= 0 && p < parts, "partition number " << p << " of " << parts);
        if (parts > 1 || !calls.empty()) {
            VP_EQ(calls.size(), size_t(1), "calls of the graph partitioner");
            auto &k = calls[0];
            VP_EQ((size_t) k.n, node.size(), "nodes handed over");
            VP_EQ(k.nparts, parts, "parts asked for");
            VP_CHECK(k.xadj == G.nodeRecords, "offsets handed over");
            VP_CHECK(k.adjncy == G.adjacency, "edges handed over");
            VP_EQ(k.weighted, w != 0, "whether weights were handed over");
            if (w) VP_CHECK(k.weights == G.edgeWeights, "weights handed over");
            VP_EQ(k.imbalance, 0.05, "imbalance handed over");
            VP_CHECK(k.part == S.partition, "the partition is not the graph partitioner's");
        }
        auto cl = S.clone();
        VP_CHECK(cl.graph.nodeRecords == G.nodeRecords && cl.graph.adjacency == G.adjacency && cl.graph.edgeWeights == G.edgeWeights && cl.partition == S.partition && cl.points == S.points, "a cloned sampling differs");
        c.nontrivial(edges.size() > 2 * D);
        if (edges.empty()) c.label("sample without edges");
        if (w) c.label("weighted");
        // the same seed samples the same again
        if (r == 0) {
            auto sm2 = spec.template make<D, P>();
            reset(partMode);
            startGen.seed(7);
            auto S2 = sm2(I.bounds, I.C.pts, *I.ids, parts);
            // the order of the nodes depends on the process' random hash functions
            std::map<tIdType, size_t> again;
            for (size_t k = 0; k < S2.points.size(); ++k) {
                auto it = at.find(S2.points[k]);
                VP_CHECK(it != at.end(), "a sampled point is none of the points to sample from");
                again[it->second] = k;
            }
            VP_EQ(again.size(), where.size(), "number of points drawn with the same seed");
            for (auto &[id, k] : where) VP_CHECK(again.count(id), "the same seed draws another sample");
            std::map<std::pair<size_t, size_t>, int> got2;
            for (size_t k = 0; k < S2.graph.size(); ++k)
                for (int e = S2.graph.nodeRecords[k]; e < S2.graph.nodeRecords[k + 1]; ++e) got2[{k, (size_t) S2.graph.adjacency[e]}] = S2.graph.edgeWeights[e];
            bool ties = got2.size() != got.size(); // cospherical points are triangulated in any way
            if (!ties) for (auto &[e, q] : got) {
                auto it = got2.find({again.at(node[e.first]), again.at(node[e.second])});
                if (it == got2.end()) { ties = true; break; }
                VP_EQ(it->second, q, "the same edge has another weight with the same seed");
            }
            if (ties) c.label("same sample triangulated differently");
#ifdef REPRODUCIBLE
            VP_CHECK(S2.points == S.points, "the same seed draws the sample in another order in a reproducible build");
            VP_CHECK(S2.graph.nodeRecords == G.nodeRecords && S2.graph.adjacency == G.adjacency && S2.graph.edgeWeights == G.edgeWeights, "the same seed makes another graph in a reproducible build");
            VP_CHECK(S2.partition == S.partition, "the same seed makes another partition in a reproducible build");
#endif
        }
    }
}

#define RULE6 "more than one leaf and more than two points"
#define RULE34 "more than 2D directed edges in the sample graph"
#ifndef REPRODUCIBLE
static Reg r1({"C06", "trees 2D double", trees<2, double>, 8000, 80000, 20, RULE6, true});
static Reg r2({"C06", "trees 3D double", trees<3, double>, 4000, 40000, 20, RULE6, true});
static Reg r3({"C06", "trees 2D float", trees<2, float>, 2000, 20000, 20, RULE6, true});
static Reg r4({"C06", "trees 3D float", trees<3, float>, 1000, 10000, 20, RULE6, true});
#define RULE6A "points that only one part may take, or a node that is split; more than two points"
static Reg a1({"C06", "assignment 2D double", assignment<2, double>, 8000, 80000, 20, RULE6A, true});
static Reg a2({"C06", "assignment 3D double", assignment<3, double>, 6000, 60000, 20, RULE6A, true});
static Reg a3({"C06", "assignment 2D float", assignment<2, float>, 3000, 30000, 20, RULE6A, true});
static Reg a4({"C06", "assignment 3D float", assignment<3, float>, 2000, 20000, 20, RULE6A, true});
static Reg s1({"C34", "sample 2D double", sample<2, double>, 8000, 80000, 20, RULE34, true});
static Reg s2({"C34", "sample 3D double", sample<3, double>, 4000, 40000, 20, RULE34, true});
static Reg s3({"C34", "sample 2D float", sample<2, float>, 2000, 20000, 20, RULE34, true});
static Reg s4({"C34", "sample 3D float", sample<3, float>, 1000, 10000, 20, RULE34, true});
#else
static Reg s1({"C34", "reproducible sample 2D double", sample<2, double>, 3000, 30000, 20, RULE34, true});
static Reg s2({"C34", "reproducible sample 3D double", sample<3, double>, 1500, 15000, 20, RULE34, true});
#endif
int main(int argc, char **argv) { return vp_main(argc, argv); }
