// Load balancing: a generated graph partitioner, generated balancers, checks for partition trees
#pragma once
#include <mutex>
#include <sstream>
#include <thread>
#include "vp.hpp"
#include "load_balancing/CommandLineInterface.h"
#include "load_balancing/monitors/UnpluggedMonitor.h"
#include "utils/System.h"
#include "utils/Logger.h"
#define PARDETRIA_VERIF_CGAL
#include "points.hpp"
#include "tri.hpp"

namespace lb = LoadBalancing;

namespace lbv {

// ---------------------------------------------------------------- the graph partitioner
// Every call is checked against the interface's contract; the answer is one of the assignments a
// graph partitioner may return, chosen by `mode` and the seed it is called with.
struct Call {
    int n = 0, nparts = 0, mode = 0, seed = 0;
    bool weighted = false;
    std::vector<int> xadj, adjncy, weights, part;
    double imbalance = 0;
};
static std::mutex mtx;
static std::vector<Call> calls;
static std::string callError;
static unsigned partMode = 0;

static void reset(unsigned mode) {
    calls.clear();
    callError.clear();
    partMode = mode;
}

} // namespace lbv

extern "C" void kaffpa_stub(int *n, int *vwgt, int *xadj, int *adjcwgt, int *adjncy, int *nparts, double *imbalance,
                            bool suppress, int seed, int mode, int threads, int *edgecut, int *part) {
    std::lock_guard<std::mutex> g(lbv::mtx);
    auto bad = [&](const std::string &m) { if (lbv::callError.empty()) lbv::callError = m; };
    if (!n || !xadj || !nparts || !imbalance || !edgecut || !part) { bad("graph partitioner called without a required argument"); return; }
    lbv::Call c;
    c.n = *n, c.nparts = *nparts, c.mode = mode, c.seed = seed, c.imbalance = *imbalance;
    if (vwgt) bad("vertex weights given");
    if (c.n < 0 || c.nparts < 1) bad("graph partitioner called with " + std::to_string(c.n) + " nodes and " + std::to_string(c.nparts) + " parts");
    c.xadj.assign(xadj, xadj + c.n + 1);
    if (c.xadj[0] != 0) bad("the first node's edges do not start at 0");
    for (int i = 0; i < c.n; ++i) if (c.xadj[i + 1] < c.xadj[i]) { bad("node offsets not ascending"); return; }
    int m = c.xadj[c.n];
    c.adjncy.assign(adjncy, adjncy + m);
    c.weighted = adjcwgt != nullptr;
    if (adjcwgt) c.weights.assign(adjcwgt, adjcwgt + m);
    for (int x : c.adjncy) if (x < 0 || x >= c.n) { bad("edge to a node that does not exist"); return; }
    std::mt19937 r((unsigned) seed);
    std::vector<int> p(c.n, 0);
    int k = c.nparts;
    switch (lbv::partMode) {
        case 0: { // grown regions
            std::vector<int> seen(c.n, -1), order;
            for (int s = 0; (int) order.size() < c.n; ++s) {
                int st = s == 0 ? (int) (r() % (unsigned) c.n) : s - 1;
                if (st >= c.n) break;
                if (seen[st] >= 0) continue;
                std::vector<int> q{st};
                seen[st] = 0;
                for (size_t i = 0; i < q.size(); ++i)
                    for (int e = c.xadj[q[i]]; e < c.xadj[q[i] + 1]; ++e)
                        if (seen[c.adjncy[e]] < 0) seen[c.adjncy[e]] = 0, q.push_back(c.adjncy[e]);
                order.insert(order.end(), q.begin(), q.end());
            }
            for (size_t i = 0; i < order.size(); ++i) p[order[i]] = (int) (i * (size_t) k / order.size());
            break;
        }
        case 1: for (auto &x : p) x = (int) (r() % (unsigned) k); break;                    // scattered
        case 2: for (int i = 0; i < c.n; ++i) p[i] = (int) ((long) i * k / c.n); break;      // blocks of nodes
        case 3: {                                                                            // one node and its neighbours apart
            if (c.n > 0) {
                int a = (int) (r() % (unsigned) c.n);
                for (auto &x : p) x = k - 1;
                p[a] = 0;
                for (int e = c.xadj[a]; e < c.xadj[a + 1]; ++e) p[c.adjncy[e]] = 0;
            }
            break;
        }
        default: for (auto &x : p) x = (int) (r() % 2) * (k - 1); break;                     // some parts unused
    }
    std::copy(p.begin(), p.end(), part);
    c.part = std::move(p);
    *edgecut = 0;
    for (int i = 0; i < c.n; ++i) for (int e = c.xadj[i]; e < c.xadj[i + 1]; ++e) *edgecut += c.part[i] != c.part[c.adjncy[e]];
    *edgecut /= 2;
    lbv::calls.push_back(std::move(c));
}

namespace lbv {
using namespace vp;

// a monitor that writes down what it is told
struct Events {
    std::string order;                                 // of the events that occur once
    std::vector<std::pair<size_t, std::string>> base;   // triangulated points, where
    std::vector<std::pair<size_t, std::string>> merges; // merged triangulations, where
    std::multiset<size_t> leafs;                       // of the tree reported
    std::string error;
    void reset() { *this = Events(); }
};
static Events events;
struct Mon : lb::Monitor {
    static void note(char c) { std::lock_guard<std::mutex> l(mtx); events.order += c; }
    void registerPartitionStart() { note('p'); }
    void registerPartitionEnd() { note('P'); }
    void registerTriangulationStart() { note('t'); }
    void registerTriangulationEnd() { note('T'); }
    template<uint D, typename P, class M>
    void registerPartition(const lb::PartitionTree<D, P> &t, const lb::Partitioner<D, P, M> &) {
        note('R');
        leafs(t);
    }
    void registerBaseTriangulation(size_t n, const std::string &prov) {
        std::lock_guard<std::mutex> l(mtx);
        events.base.emplace_back(n, prov);
    }
    template<uint D, typename P>
    void registerPartialTriangulation(const std::vector<dSimplices<D, P>> &partial, const dSimplices<D, P> &border, const dPoints<D, P> &, const std::string &prov) {
        std::lock_guard<std::mutex> l(mtx);
        events.merges.emplace_back(partial.size(), prov);
        for (auto &t : partial) if (!t.exact_size()) events.error = "an empty partial triangulation is reported at " + prov;
        if (!border.exact_size()) events.error = "an empty border triangulation is reported at " + prov;
    }
private:
    template<uint D, typename P>
    static void leafs(const lb::PartitionTree<D, P> &t) {
        if (auto k = std::get_if<std::vector<lb::PartitionTree<D, P>>>(&t.attachment)) for (auto &c : *k) leafs(c);
        else events.leafs.insert(std::get<Point_Ids>(t.attachment).size());
    }
};

static const char *partModes[] = {"grown parts", "scattered parts", "index blocks", "one small part", "unused parts"};

template<uint D, typename P>
static std::function<P(P)> weightFunction(unsigned w) {
    switch (w) { // those of the command line interface
        case 1: return [](P d) -> P { return 1 / (d + 0.0000001); };
        case 2: return [](P d) -> P { return 1 / std::sqrt(d + 0.0000001); };
        case 3: return [](P d) -> P { return 1.0 - d; };
        case 4: return [](P d) -> P { return -std::log(d + 0.0000001); };
    }
    return nullptr;
}

template<uint D, typename P>
struct Balancer {
    std::unique_ptr<lb::Partitioner<D, P, Mon>> p;
    std::string name;
    size_t parts = 0;
    bool flat = false;
    std::function<bool(void)> never;
};

static size_t pow2(Src &s, unsigned m) { return size_t(1) << s.draw(m + 1); }

struct SamplerSpec {
    unsigned size, w;
    size_t k, seed;
    int mode;

    SamplerSpec(Src &s, size_t n, unsigned w) : w(w) {
        size = (unsigned) s.draw(4);
        k = 1 + s.below(n);
        mode = s.pick({FAST, ECO, STRONG, FASTSOCIALMULTITRY_PARALLEL});
        seed = s.draw(1000);
    }
    template<uint D, typename P>
    lb::Sampler<D, P> make(std::function<void(size_t)> seen = nullptr) const {
        std::function<size_t(size_t)> f;
        switch (size) {
            case 0: f = [](size_t n) -> size_t { return (size_t) std::sqrt(n); }; break;
            case 1: f = [k = k](size_t) { return k; }; break;
            case 2: f = [](size_t n) -> size_t { return (size_t) std::log2(n); }; break;
            default: f = [](size_t n) { return n; }; break;
        }
        if (seen) f = [f, seen](size_t n) { size_t r = f(n); seen(n), seen(r); return r; };
        if (w == 0) return lb::Sampler<D, P>(seed, f, mode, 0.05);
        return lb::Sampler<D, P>(seed, f, mode, 0.05, weightFunction<D, P>(w));
    }
};

template<uint D, typename P>
static lb::Sampler<D, P> genSampler(Src &s, size_t n, unsigned w) {
    return SamplerSpec(s, n, w).template make<D, P>();
}

template<uint D, typename P>
static lb::IntersectionPartitionMakerFunction<D, P> genMaker(Src &s, const dBox<D, P> &b, std::string &name) {
    P ext = 0;
    for (uint d = 0; d < D; ++d) ext = std::max(ext, b.high[d] - b.low[d]);
    if (!(ext > 0)) ext = 1;
    P w = ext / (P) s.pick({3.0, 0.7, 8.0, 20.0, 1.0, 2.0});
    switch (s.draw(3)) {
        case 0: name += ", boxes"; return lb::BoundsIntersectionPartitionMaker<D, P>();
        case 1: name += ", grid"; return lb::GridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>{w});
        default: name += ", accurate grid"; return lb::AccurateGridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>{w});
    }
}

// n: number of points; only: restrict to one kind when >= 0
template<uint D, typename P>
static Balancer<D, P> genBalancer(Src &s, Ctx &c, size_t n, const dBox<D, P> &b, unsigned depth = 3) {
    Balancer<D, P> B;
    unsigned kind = (unsigned) s.draw(12);
    unsigned w = s.chance(1, 2) ? 0 : (unsigned) s.draw(5);
    size_t cutoff = (1u << D) + 2 + s.draw(20);
    switch (kind) {
        case 0: {
            B.name = "binary box estimating";
            B.p = std::make_unique<lb::BinaryBoxEstimatingSamplePartitioner<D, P, Mon>>(cutoff, genSampler<D, P>(s, n, w));
            break;
        }
        case 1: case 2: case 3: {
            B.parts = 1 + s.draw(8);
            B.name = kind == 1 ? "nearest sample" : kind == 2 ? "centre distance" : "bounds distance";
            auto sm = genSampler<D, P>(s, n, w);
            auto mk = genMaker<D, P>(s, b, B.name);
            if (kind == 1) B.p = std::make_unique<lb::NearestSamplePointAssigningSamplePartitioner<D, P, Mon>>(B.parts, sm, mk);
            else if (kind == 2) B.p = std::make_unique<lb::CenterDistancePointAssigningSamplePartitioner<D, P, Mon>>(B.parts, sm, mk);
            else B.p = std::make_unique<lb::BoundsDistancePointAssigningSamplePartitioner<D, P, Mon>>(B.parts, sm, mk);
            break;
        }
        case 4: {
            B.parts = pow2(s, depth);
            B.name = "nearest sample bipartition";
            auto sm = genSampler<D, P>(s, n, w);
            B.p = std::make_unique<lb::NearestSamplePointAssigningSampleBipartitioner<D, P, Mon>>(B.parts, sm, cutoff, genMaker<D, P>(s, b, B.name));
            break;
        }
        case 5: {
            B.parts = pow2(s, depth);
            B.name = "hyperplane";
            B.p = std::make_unique<lb::HyperplaneSamplingBipartitioner<D, P, Mon>>(B.parts, genSampler<D, P>(s, n, w));
            break;
        }
        case 6: {
            B.parts = pow2(s, depth + 1);
            B.name = "k-way";
            B.p = std::make_unique<lb::KWaySplitter<D, P, Mon>>(B.parts);
            break;
        }
        case 7: B.name = "simple"; B.p = std::make_unique<lb::SimplePartitioner<D, P, Mon>>(); break;
        default: {
            std::unique_ptr<::Partitioner<D, P>> o;
            if (kind == 8) o = std::make_unique<dWayPartitioner<D, P>>(), B.name = "classic d-way";
            else if (kind == 9) o = std::make_unique<CyclePartitioner<D, P>>(), B.name = "classic cycle";
            else if (kind == 10) o = std::make_unique<ExtendPartitioner<D, P>>(), B.name = "classic extend";
            else o = std::make_unique<OneDimPartitioner<D, P>>((uint) s.draw(D)), B.name = "classic one-dim";
            uint threads = kind == 8 ? (1u << (D * s.draw(3))) : (uint) pow2(s, depth);
            uint r = o->getRecursionDepth(threads);
            B.name += " depth " + std::to_string(r);
            B.p = std::make_unique<lb::OldPartitionerPartitioner<D, P, Mon>>(std::move(o), r, cutoff);
        }
    }
    c.label(B.name);
    if (B.parts) B.name += ", " + std::to_string(B.parts) + " parts";
    if (s.chance(1, 4)) {
        B.p = std::make_unique<lb::FlatPartitioner<D, P, Mon>>(std::move(B.p));
        B.name += ", flattened";
        B.flat = true;
    }
    return B;
}

// ---------------------------------------------------------------- trees
template<uint D, typename P>
using Tree = lb::PartitionTree<D, P>;
template<uint D, typename P>
using Kids = typename Tree<D, P>::ChildContainer;

// all ids below a node, leaves disjoint apart from the corner points
template<uint D, typename P>
static std::set<tIdType> idsOf(const Tree<D, P> &t, std::string &err, const std::set<tIdType> &corners, bool cornersNeeded = false) {
    std::set<tIdType> r;
    if (auto k = std::get_if<Kids<D, P>>(&t.attachment)) {
        for (auto &c : *k) {
            for (auto id : idsOf<D, P>(c, err, corners, cornersNeeded))
                if (!r.insert(id).second && !corners.count(id) && err.empty()) err = "point " + std::to_string(id) + " is in two leaves";
        }
    } else {
        size_t n = 0;
        for (auto id : std::get<Point_Ids>(t.attachment)) {
            ++n;
            r.insert(id);
        }
        if (n != r.size() && err.empty()) err = "a leaf lists a point twice";
        if (std::get<Point_Ids>(t.attachment).size() != n && err.empty()) err = "a leaf's size is not the number of its points";
        if (err.empty() && cornersNeeded) for (auto c : corners) if (!r.count(c)) { err = "a leaf lacks the corner point " + std::to_string((int64_t) c); break; }
    }
    return r;
}

template<uint D, typename P>
static void nodes(const Tree<D, P> &t, std::vector<const Tree<D, P> *> &out) {
    out.push_back(&t);
    if (auto k = std::get_if<Kids<D, P>>(&t.attachment)) for (auto &c : *k) nodes<D, P>(c, out);
}

// what triangulating along a tree takes: sizes of base triangulations, numbers of triangulations merged
template<uint D, typename P>
static bool hasFinite(const Tree<D, P> &t) {
    if (auto k = std::get_if<Kids<D, P>>(&t.attachment)) {
        for (auto &c : *k) if (hasFinite<D, P>(c)) return true;
        return false;
    }
    for (auto id : std::get<Point_Ids>(t.attachment)) if (dPoint<D, P>::isFinite(id)) return true;
    return false;
}
template<uint D, typename P>
static void expected(const Tree<D, P> &t, std::multiset<size_t> &base, std::multiset<size_t> &border) {
    if (auto k = std::get_if<Kids<D, P>>(&t.attachment)) {
        std::vector<const Tree<D, P> *> full;
        for (auto &c : *k) if (hasFinite<D, P>(c)) full.push_back(&c);
        if (full.size() > 1) border.insert(full.size());
        for (auto c : full) expected<D, P>(*c, base, border);
    } else base.insert(std::get<Point_Ids>(t.attachment).size());
}
template<uint D, typename P>
static std::multiset<size_t> leafSizes(const Tree<D, P> &t) {
    std::vector<const Tree<D, P> *> v;
    nodes<D, P>(t, v);
    std::multiset<size_t> r;
    for (auto x : v) if (x->isLeaf()) r.insert(std::get<Point_Ids>(x->attachment).size());
    return r;
}
static std::string str(const std::multiset<size_t> &m) {
    std::ostringstream o;
    for (auto x : m) o << " " << x;
    return o.str();
}

template<uint D, typename P>
static size_t leafCount(const Tree<D, P> &t) {
    std::vector<const Tree<D, P> *> v;
    nodes<D, P>(t, v);
    size_t r = 0;
    for (auto x : v) r += x->isLeaf();
    return r;
}

// a description that says everything about shape, points and bounds
template<uint D, typename P>
static void text(const Tree<D, P> &t, std::ostringstream &o) {
    std::string e;
    o.precision(17);
    o << "{";
    if (t.intersectionChecker) {
        auto &b = t.intersectionChecker->bounds();
        for (uint d = 0; d < D; ++d) o << b.low[d] << ":" << b.high[d] << " ";
    } else o << "no test";
    if (auto k = std::get_if<Kids<D, P>>(&t.attachment)) {
        o << " kids";
        for (auto &c : *k) text<D, P>(c, o);
    } else {
        std::set<tIdType> r;
        for (auto id : std::get<Point_Ids>(t.attachment)) r.insert(id);
        for (auto id : r) o << " " << (int64_t) id;
    }
    o << "}";
}
template<uint D, typename P>
static std::string text(const Tree<D, P> &t) {
    std::ostringstream o;
    text<D, P>(t, o);
    return o.str();
}

} // namespace lbv
