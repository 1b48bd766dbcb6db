// C14: simplex identity, adjacency and fingerprints against set computations
#include "vp.hpp"
#include "Geometry.h"

using namespace vp;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

template<uint D>
using VSet = std::set<tIdType>;

template<uint D>
static tIdType genId(Src &s, unsigned mode) {
    switch (mode) {
        case 0: return 1 + s.below(8);                                   // many coincidences
        case 1: return 1 + s.below(1000);
        case 2: return (s.below(4) << 32) | (1 + s.below(6));            // equal in the low 32 bits
        case 3: return 32 * (1 + s.below(8));                            // no rotation
        case 4: return s.draw(0) >> 1;
        default: return ((tIdType) 1 << s.range(0, 40)) + s.below(2);
    }
}

template<uint D>
static std::set<tIdType> genSet(Src &s, unsigned mode) {
    std::set<tIdType> v;
    size_t guard = 0;
    while (v.size() < D + 1) {
        if (s.chance(1, 6)) v.insert(dPoint<D, double>::cINF | s.below(1 << D));
        else v.insert(std::max<tIdType>(1, genId<D>(s, ++guard > 50 ? 1 : mode)));
        if (guard > 500) throw Discard();
    }
    return v;
}

template<uint D>
static dSimplex<D, double> mk(const std::set<tIdType> &v, tIdType id) {
    dSimplex<D, double> x;
    x.id = id;
    std::copy(v.begin(), v.end(), x.vertices.begin());
    for (uint d = 0; d <= D; ++d) x.neighbors[d] = 1000 + d;
    x.genFingerprint();
    return x;
}

static std::string show(const std::set<tIdType> &v) {
    std::ostringstream o;
    for (auto x : v) o << x << " ";
    return o.str();
}

template<uint D>
static void propPair(Src &s, Ctx &c) {
    typedef dSimplex<D, double> S;
    unsigned mode = s.draw(6);
    auto va = genSet<D>(s, mode), vb = va;
    // b shares a chosen number of vertices, mostly
    if (s.chance(3, 4)) {
        size_t repl = s.below(D + 2);
        for (size_t i = 0; i < repl; ++i) {
            auto it = vb.begin();
            std::advance(it, s.below(vb.size()));
            vb.erase(it);
            size_t guard = 0;
            while (vb.size() < D + 1) {
                if (s.chance(1, 6)) vb.insert(dPoint<D, double>::cINF | s.below(1 << D));
                else vb.insert(std::max<tIdType>(1, genId<D>(s, ++guard > 50 ? 1 : mode)));
            }
        }
    } else vb = genSet<D>(s, mode);
    std::set<tIdType> common;
    std::set_intersection(va.begin(), va.end(), vb.begin(), vb.end(), std::inserter(common, common.end()));
    S a = mk<D>(va, 5), b = mk<D>(vb, va == vb ? 5 : 6);
    std::string w = " of {" + show(va) + "} and {" + show(vb) + "}";
    VP_EQ(a.countSharedVertices(b), (uint) common.size(), "shared vertices" << w);
    VP_EQ(b.countSharedVertices(a), (uint) common.size(), "shared vertices (reverse)" << w);
    VP_EQ(a.isNeighbor(b), common.size() == D, "adjacency" << w);
    VP_EQ(b.isNeighbor(a), common.size() == D, "adjacency (reverse)" << w);
    VP_EQ(a.equalVertices(b), va == vb, "equal vertices" << w);
    VP_EQ(b.equalVertices(a), va == vb, "equal vertices (reverse)" << w);
    if (va == vb) VP_EQ(a.fingerprint(), b.fingerprint(), "fingerprints" << w);
    VP_EQ(a.fingerprint(), a.genFingerprint(), "fingerprint generated twice" << w);
    // identity: ids decide when both or neither are set, vertices otherwise
    {
        S x = a, y = b;
        x.id = s.chance(1, 2) ? S::cINF : 3 + s.below(2);
        y.id = s.chance(1, 2) ? S::cINF : 3 + s.below(2);
        bool xi = x.id == S::cINF, yi = y.id == S::cINF;
        VP_EQ(x == y, xi == yi ? x.id == y.id : va == vb, "operator== with ids " << x.id << ", " << y.id << w);
        VP_EQ(x < y, x.id < y.id, "operator<" << w);
        VP_EQ(x == (tIdType) 3, x.id == 3, "operator==(id)" << w);
        VP_EQ(S::isFinite(x.id), !xi, "finite id" << w);
        y.neighbors = x.neighbors;
        VP_CHECK(x.equalNeighbors(y), "equal neighbour lists are reported different");
        y.neighbors[s.below(D + 1)] += 1 + s.below(3);
        VP_CHECK(!x.equalNeighbors(y), "different neighbour lists are reported equal");
    }
    // facets
    for (uint i = 0; i <= D; ++i) {
        auto fi = va;
        fi.erase(a.vertices[i]);
        VP_CHECK(a.faceFingerprint(i) != 0, "fingerprint of facet {" << show(fi) << "} is zero");
        for (uint j = 0; j <= D; ++j) {
            auto fj = vb;
            fj.erase(b.vertices[j]);
            if (fi == fj) VP_EQ(a.faceFingerprint(i), b.faceFingerprint(j), "fingerprints of the facet {" << show(fi) << "} seen from both sides" << w);
        }
    }
    // membership
    std::vector<tIdType> probe(va.begin(), va.end());
    probe.insert(probe.end(), vb.begin(), vb.end());
    for (auto x : va) {
        probe.push_back(x + 1);
        probe.push_back(x - 1);
        probe.push_back(x ^ ((tIdType) 1 << 32));
    }
    probe.push_back(0);
    probe.push_back(~tIdType(0));
    for (auto p : probe) VP_EQ(a.contains(p), va.count(p) > 0, "contains(" << p << ") of {" << show(va) << "}");
    for (int q = 0; q < 3; ++q) {
        std::vector<tIdType> sub;
        size_t n = s.below(5);
        for (size_t i = 0; i < n; ++i) sub.push_back(s.chance(2, 3) ? a.vertices[s.below(D + 1)] : probe[s.below(probe.size())]);
        bool all = true, any = false;
        for (auto p : sub) {
            all = all && va.count(p);
            any = any || va.count(p);
        }
        VP_EQ(a.containsAll(sub), all, "containsAll of {" << show(va) << "} {" << show(std::set<tIdType>(sub.begin(), sub.end())) << "}");
        VP_EQ(a.containsAny(sub), any, "containsAny of {" << show(va) << "} {" << show(std::set<tIdType>(sub.begin(), sub.end())) << "}");
    }
    bool fin = true;
    for (auto p : va) {
        bool inf = p >= dPoint<D, double>::cINF; // infinite ids are the last 2^D ones
        fin = fin && !inf;
        bool f = dPoint<D, double>::isFinite(p);
        VP_EQ(f, !inf, "finiteness of point id " << p);
        if (inf) VP_EQ((uint64_t) (dPoint<D, double>::infIndex(p)), (uint64_t) (p - (dPoint<D, double>::cINF)), "index of infinite point " << p);
    }
    VP_EQ(a.isFinite(), fin, "finiteness of {" << show(va) << "}");
    // sorting
    {
        std::vector<tIdType> vv(va.begin(), va.end());
        for (size_t i = vv.size(); i > 1; --i) std::swap(vv[i - 1], vv[s.below(i)]);
        S x;
        std::map<tIdType, tIdType> opp;
        for (uint d = 0; d <= D; ++d) {
            x.vertices[d] = vv[d];
            x.neighbors[d] = s.chance(1, 5) ? S::cINF : s.below(20);
            opp[vv[d]] = x.neighbors[d];
        }
        x.genFingerprint();
        VP_EQ(x.fingerprint(), a.fingerprint(), "fingerprint before sorting");
        x.sortVertices();
        VP_CHECK(x.vertices == a.vertices, "vertices after sorting");
        for (uint d = 0; d <= D; ++d) VP_EQ((uint64_t) x.neighbors[d], (uint64_t) opp[x.vertices[d]], "neighbour opposite vertex " << x.vertices[d] << " after sorting");
        VP_CHECK(x.equalVertices(a), "vertices differ after sorting");
    }
    c.label(std::to_string(common.size()) + " shared");
    c.nontrivial(!common.empty() && common.size() <= D);
    c.describe([&](std::ostream &o) { o << "{" << show(va) << "} {" << show(vb) << "}"; });
}


static Reg r1({"C14", "pair-2d", propPair<2>, 800000, 20000000, 20, "pairs of triangles sharing a chosen number of vertices, infinite vertices and 64 bit ids included, against std::set; non-trivial: some but not all vertices shared"});
static Reg r2({"C14", "pair-3d", propPair<3>, 800000, 20000000, 20, "the same for tetrahedra"});
int main(int argc, char **argv) { return vp_main(argc, argv); }
