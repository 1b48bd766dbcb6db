// C04: verification and cross-check of correct and damaged triangulations against a direct evaluation
#include "vp.hpp"
#define PARDETRIA_VERIF_CGAL
#include "points.hpp"
#include "tri.hpp"
#include "CGALTriangulator.h"
#include "utils/Logger.h"
#include <tbb/global_control.h>

using namespace vp;
static PerCase pc([](uint64_t) { LOGGER.setLogLevel(Logger::Verbosity::SILENT); resetGlobals(); });

template<uint D, typename P>
using DT = dSimplices<D, P>;
template<uint D>
using Vs = std::array<tIdType, D + 1>;

template<uint D>
static unsigned shared(const Vs<D> &a, const Vs<D> &b) {
    unsigned r = 0;
    for (auto x : a) r += std::count(b.begin(), b.end(), x);
    return r;
}

template<uint D, typename P>
struct Model {
    std::vector<dSimplex<D, P>> L;
    std::map<tIdType, size_t> byId;
    std::vector<std::vector<size_t>> adj; // simplices sharing exactly D vertices
    bool flat = false, dup = false, dangling = false;

    Model(const DT<D, P> &dt, const dPoints<D, P> &pts) : L(tri::live<D, P>(dt)) {
        std::map<Vs<D>, size_t> seen;
        std::map<std::array<tIdType, D>, std::vector<size_t>> facet;
        adj.resize(L.size());
        for (size_t i = 0; i < L.size(); ++i) {
            byId[L[i].id] = i;
            dup = dup || !seen.emplace(L[i].vertices, i).second;
            std::array<dVector<D, P>, D + 1> v;
            for (uint k = 0; k <= D; ++k) v[k] = pts[L[i].vertices[k]].coords;
            flat = flat || ex::orient<D, dVector<D, P>>(v) == 0;
            for (uint d = 0; d <= D; ++d) {
                std::array<tIdType, D> f;
                for (uint k = 0, j = 0; k <= D; ++k) if (k != d) f[j++] = L[i].vertices[k];
                facet[f].push_back(i);
            }
        }
        for (auto &[f, l] : facet)
            for (auto a : l) for (auto b : l) if (a != b && L[a].vertices != L[b].vertices) adj[a].push_back(b);
        for (auto &s : L) for (auto n : s.neighbors) dangling = dangling || (n != (dSimplex<D, P>::cINF) && !byId.count(n));
    }
};

// empty: the triangulation is to be accepted
template<uint D, typename P>
static std::string verdict(const DT<D, P> &dt, const Model<D, P> &M, const dPoints<D, P> &pts, const std::set<tIdType> &ids) {
    std::set<tIdType> used, inf;
    for (auto &s : M.L) {
        for (auto v : s.vertices) if (dPoint<D, P>::isFinite(v)) used.insert(v);
        if (!s.isFinite()) inf.insert(s.id);
    }
    std::set<tIdType> fin;
    for (auto i : ids) if (dPoint<D, P>::isFinite(i)) fin.insert(i);
    for (auto v : fin) if (!used.count(v)) return "point not used";
    for (auto v : used) if (!fin.count(v)) return "used point not in the input";
    if (std::set<tIdType>(dt.convexHull.begin(), dt.convexHull.end()) != inf) return "hull list wrong";
    if (M.dup) return "simplex twice";
    for (size_t i = 0; i < M.L.size(); ++i) {
        std::vector<tIdType> have, want;
        for (auto n : M.L[i].neighbors) if (n != (dSimplex<D, P>::cINF)) have.push_back(n);
        for (auto j : M.adj[i]) want.push_back(M.L[j].id);
        std::sort(have.begin(), have.end());
        std::sort(want.begin(), want.end());
        if (have != want) return "neighbour list wrong";
    }
    for (size_t i = 0; i < M.L.size(); ++i) {
        std::array<dVector<D, P>, D + 1> v;
        for (uint k = 0; k <= D; ++k) v[k] = pts[M.L[i].vertices[k]].coords;
        for (auto j : M.adj[i])
            for (auto q : M.L[j].vertices)
                if (dPoint<D, P>::isFinite(q) && !std::count(M.L[i].vertices.begin(), M.L[i].vertices.end(), q)
                    && ex::inside<D, dVector<D, P>>(v, pts[q].coords) >= 0)
                    return "in-sphere violation";
    }
    return "";
}

template<uint D, typename P>
static tIdType pickLive(Src &s, const DT<D, P> &dt) {
    std::vector<tIdType> v;
    for (auto &x : dt) v.push_back(x.id);
    return v.empty() ? tIdType(dSimplex<D, P>::cINF) : v[s.below(v.size())];
}

template<uint D, typename P>
static void flip2(Src &s, DT<D, P> &dt, std::string &what) { // exchanges the diagonal of two triangles, keeping everything consistent
    if constexpr (D == 2) {
        auto a = pickLive<D, P>(s, dt);
        if (!dSimplex<D, P>::isFinite(a)) return;
        auto &A = dt.unsafe_at(a);
        uint d = s.below(3);
        auto b = A.neighbors[d];
        if (!dSimplex<D, P>::isFinite(b) || !dt.unsafe_contains(b)) return;
        auto &B = dt.unsafe_at(b);
        if (&A == &B || shared<D>(A.vertices, B.vertices) != 2) return;
        uint e = 3;
        for (uint k = 0; k < 3; ++k) if (!A.contains(B.vertices[k])) e = k;
        if (e == 3) return;
        tIdType p = A.vertices[d], q = B.vertices[e], x = A.vertices[(d + 1) % 3], y = A.vertices[(d + 2) % 3];
        auto opp = [](const dSimplex<D, P> &t, tIdType v) { for (uint k = 0; k < 3; ++k) if (t.vertices[k] == v) return t.neighbors[k]; return tIdType(dSimplex<D, P>::cINF); };
        tIdType apy = opp(A, x), apx = opp(A, y), bqy = opp(B, x), bqx = opp(B, y);
        auto set = [&](dSimplex<D, P> &t, Vs<D> v, std::array<tIdType, 3> n) {
            bool was = t.isFinite();
            t.vertices = v;
            t.neighbors = n;
            t.sortVertices();
            t.genFingerprint();
            if (was != t.isFinite()) {
                if (was) dt.convexHull.push_back(t.id);
                else dt.convexHull.erase(std::remove(dt.convexHull.begin(), dt.convexHull.end(), t.id), dt.convexHull.end());
            }
        };
        set(A, {p, q, x}, {bqx, apx, b});
        set(B, {p, q, y}, {bqy, apy, a});
        auto redirect = [&](tIdType n, tIdType from, tIdType to) {
            if (dSimplex<D, P>::isFinite(n) && dt.unsafe_contains(n)) for (auto &m : dt.unsafe_at(n).neighbors) if (m == from) { m = to; return; }
        };
        redirect(bqx, b, a);
        redirect(apy, a, b);
        what += "flip; ";
    }
}

template<uint D, typename P>
static void mutate(Src &s, DT<D, P> &dt, dPoints<D, P> &pts, size_t n, std::string &what) {
    constexpr tIdType NO = dSimplex<D, P>::cINF;
    auto a = pickLive<D, P>(s, dt);
    if (a == NO) return;
    auto &A = dt.unsafe_at(a);
    std::ostringstream o;
    switch (s.draw(13)) {
        case 0: { // remove a simplex, optionally with its traces
            bool hull = s.chance(2, 3), nb = s.chance(1, 2);
            if (nb) for (auto &t : dt) for (auto &m : t.neighbors) if (m == a) m = NO;
            if (hull) dt.convexHull.erase(std::remove(dt.convexHull.begin(), dt.convexHull.end(), a), dt.convexHull.end());
            A.id = NO;
            o << "remove " << a << (hull ? "" : " leaving the hull entry") << (nb ? "" : " leaving it as neighbour");
            break;
        }
        case 1: { // a simplex a second time
            tIdType id = DT<D, P>::simplexID.fetch_add(1);
            auto c = A;
            dt.addBlock(id, id + 1);
            dt.unsafe_at(id) = c;
            dt.unsafe_at(id).id = id;
            if (!c.isFinite() && s.chance(3, 4)) dt.convexHull.push_back(id);
            o << "duplicate " << a << " as " << id;
            break;
        }
        case 2: { // one neighbour entry emptied
            uint d = s.below(D + 1);
            A.neighbors[d] = NO;
            o << "no neighbour " << d << " for " << a;
            break;
        }
        case 3: { // one neighbour entry pointing elsewhere
            uint d = s.below(D + 1);
            tIdType b = pickLive<D, P>(s, dt);
            A.neighbors[d] = b;
            o << "neighbour " << d << " of " << a << " is " << b;
            break;
        }
        case 4: { // one neighbour entry dangling: an id of a free slot or of no slot at all
            uint d = s.below(D + 1);
            tIdType b = s.chance(1, 2) ? dt.upperBound() + s.below(3) : dt.lowerBound() + s.below(dt.upperBound() - dt.lowerBound());
            A.neighbors[d] = b;
            o << "neighbour " << d << " of " << a << " is the id " << b;
            break;
        }
        case 5: { // one vertex exchanged
            uint d = s.below(D + 1);
            tIdType v = 1 + s.below(n);
            if (A.contains(v)) break;
            o << "vertex " << (int64_t) A.vertices[d] << " of " << a << " becomes " << v;
            bool was = A.isFinite();
            A.vertices[d] = v;
            A.sortVertices();
            A.genFingerprint();
            if (!was && A.isFinite() && s.chance(3, 4)) dt.convexHull.erase(std::remove(dt.convexHull.begin(), dt.convexHull.end(), a), dt.convexHull.end());
            break;
        }
        case 6: // a hull entry missing
            if (!dt.convexHull.empty()) {
                size_t k = s.below(dt.convexHull.size());
                o << "hull without " << dt.convexHull[k];
                dt.convexHull.erase(dt.convexHull.begin() + k);
            }
            break;
        case 7: // a hull entry too many
            if (!std::count(dt.convexHull.begin(), dt.convexHull.end(), a)) {
                dt.convexHull.push_back(a);
                o << "hull with " << a;
            }
            break;
        case 8: { // a hull entry for no simplex
            tIdType b = s.chance(1, 2) ? dt.upperBound() + s.below(3) : dt.lowerBound() + s.below(dt.upperBound() - dt.lowerBound());
            if (!std::count(dt.convexHull.begin(), dt.convexHull.end(), b)) {
                dt.convexHull.push_back(b);
                o << "hull with the id " << b;
            }
            break;
        }
        case 9: { // a point moves
            tIdType v = 1 + s.below(n), w = 1 + s.below(n);
            double t = s.pick({0.5, 0.05, 0.001, 1.5});
            for (uint d = 0; d < D; ++d) pts[v].coords[d] = (P) (pts[v].coords[d] + t * (pts[w].coords[d] - pts[v].coords[d]));
            o << "point " << v << " moves towards " << w;
            break;
        }
        case 10: { // two simplices change places: only ids and references to them
            tIdType b = pickLive<D, P>(s, dt);
            if (a == b) break;
            auto &B = dt.unsafe_at(b);
            auto x = A, y = B;
            for (auto &t : dt) for (auto &m : t.neighbors) m = m == a ? b : m == b ? a : m;
            for (auto &m : dt.convexHull) m = m == a ? b : m == b ? a : m;
            x = A, y = B;
            A = y, B = x;
            A.id = a, B.id = b;
            o << "exchange " << a << " and " << b;
            break;
        }
        case 11: flip2<D, P>(s, dt, what); return;
        default: // an entry of one simplex to a neighbour's neighbour
        {
            uint d = s.below(D + 1), e = s.below(D + 1);
            tIdType b = A.neighbors[e];
            if (b != NO && dt.unsafe_contains(b)) {
                A.neighbors[d] = dt.unsafe_at(b).neighbors[s.below(D + 1)];
                o << "neighbour " << d << " of " << a << " is a neighbour's neighbour";
            }
        }
    }
    if (!o.str().empty()) what += o.str() + "; ";
}

template<uint D, typename P>
struct Setup {
    Cloud<D, P> C;
    std::set<tIdType> ids;
    Setup(Src &s, Ctx &c, size_t lo, size_t hi) {
        C = genCloud<D, P>(s, c, s.length(lo, hi));
        for (uint d = 0; d < D; ++d) if (C.n < 1 || C.bounds.low[d] == C.bounds.high[d]) throw Discard();
        C.corners();
        size_t keep = s.chance(1, 3) ? 1 + s.draw(2) : 1;
        for (tIdType i = 1; i <= C.n; ++i) if (keep == 1 || s.below(3)) ids.insert(i);
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
        if (ids.size() == dPoint<D, P>::nINF) throw Discard();
    }
    DT<D, P> make() {
        CGALTriangulator<D, P, false> T(C.bounds, C.pts, 1);
        return static_cast<Triangulator<D, P> &>(T).triangulate(ids);
    }
};

// what the report names: duplicates, pairs with a wrong neighbour relation, vertices of listed neighbours in a circumsphere
template<uint D, typename P>
static void report(const VerificationReport<D, P> &r, const Model<D, P> &M, const dPoints<D, P> &pts) {
    typedef std::pair<tIdType, tIdType> Pr;
    auto pr = [](tIdType a, tIdType b) { return a < b ? Pr(a, b) : Pr(b, a); };
    auto str = [](const Pr &p) { return std::to_string(p.first) + ", " + std::to_string(p.second); };
    std::set<Pr> dup, wrong, gotDup, gotWrong, inside, gotInside;
    std::map<Vs<D>, std::vector<tIdType>> same;
    for (auto &t : M.L) {
        auto &l = same[t.vertices];
        for (auto o : l) dup.insert(pr(o, t.id));
        l.push_back(t.id);
    }
    for (size_t i = 0; i < M.L.size(); ++i) {
        auto &t = M.L[i];
        std::multiset<tIdType> listed(t.neighbors.begin(), t.neighbors.end()), adj;
        for (auto j : M.adj[i]) adj.insert(M.L[j].id);
        for (auto j : adj) if (listed.count(j) != 1) wrong.insert(pr(t.id, j));
        for (auto j : listed) if (M.byId.count(j) && !(adj.count(j) && listed.count(j) == 1)) wrong.insert(pr(t.id, j));
        std::array<dVector<D, P>, D + 1> v;
        for (uint k = 0; k <= D; ++k) v[k] = pts[t.vertices[k]].coords;
        for (auto j : listed)
            if (M.byId.count(j))
                for (auto q : M.L[M.byId.at(j)].vertices)
                    if (dPoint<D, P>::isFinite(q) && !std::count(t.vertices.begin(), t.vertices.end(), q) && ex::inside<D, dVector<D, P>>(v, pts[q].coords) >= 0)
                        inside.insert({t.id, q});
    }
    for (auto &[a, b] : r.duplicates) gotDup.insert(pr(a.id, b.id));
    for (auto &[a, b] : r.wrongNeighbors) gotWrong.insert(pr(a.id, b.id));
    for (auto &[a, q] : r.inCircle) for (auto x : q) gotInside.insert({a.id, x});
    auto cmp = [&](const char *what, const std::set<Pr> &want, const std::set<Pr> &got) {
        for (auto &p : want) VP_CHECK(got.count(p), std::string(what) + " not reported: " + str(p));
        for (auto &p : got) VP_CHECK(want.count(p), std::string(what) + " reported wrongly: " + str(p));
    };
    cmp("simplex occurring twice", dup, gotDup);
    cmp("wrong neighbour relation", wrong, gotWrong);
    cmp("vertex of a neighbour in the circumsphere", inside, gotInside);
}

template<uint D, typename P>
static void verify(Src &s, Ctx &c, size_t hi) {
    unsigned muts = s.draw(4);
    Setup<D, P> S(s, c, 4, hi);
    auto dt = S.make();
    auto &pts = S.C.pts;
    std::string what;
    for (unsigned i = 0; i < muts; ++i) mutate<D, P>(s, dt, pts, S.C.n, what);
    bool all = true;
    for (tIdType i = 1; i <= S.C.n; ++i) all = all && S.ids.count(i);
    bool named = !all || s.chance(1, 2);
    auto ask = S.ids;
    if (s.chance(1, 6)) { // ask for other points than were triangulated
        tIdType v = 1 + s.below(S.C.n);
        if (ask.count(v)) ask.erase(v);
        else ask.insert(v);
        named = true;
        what += "point set differs; ";
    } else if (!all && s.chance(1, 4)) {
        named = false;
        for (tIdType i = 1; i <= S.C.n; ++i) ask.insert(i);
        what += "all points asked for; ";
    }
    Model<D, P> M(dt, pts);
    if (M.flat) throw Discard(); // no circumsphere
    std::string want = verdict<D, P>(dt, M, pts, ask);
    c.describe([&](std::ostringstream &o) {
        o << S.C.n << " points, " << M.L.size() << " simplices; " << what << (named ? "point ids given; " : "") << "expected: " << (want.empty() ? "accept" : want);
    });
    Point_Ids pi(ask.size());
    for (auto i : ask) pi.insert(i);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, s.pick({1u, 4u}));
    const DT<D, P> &cdt = dt;
    auto r = cdt.verify(pts, named ? &pi : nullptr);
    VP_CHECK(r.valid == want.empty(), r.valid ? "accepted a triangulation with: " + want : "rejected a correct triangulation");
    report<D, P>(r, M, pts);
    c.nontrivial(M.L.size() > 4);
    c.label(want.empty() ? "to be accepted" : want);
}

template<uint D, typename P>
static void cross(Src &s, Ctx &c, size_t hi) {
    unsigned m1 = s.draw(3), m2 = s.chance(1, 3) ? s.draw(3) : 0;
    Setup<D, P> S(s, c, 4, hi);
    auto A = S.make();
    bool other = s.chance(1, 8);
    if (other) S.ids.erase(S.ids.begin()); // the other triangulation lacks a point
    if (S.ids.size() == dPoint<D, P>::nINF) throw Discard();
    auto B = S.make();
    std::string what = "mine: ";
    auto pts = S.C.copy();
    for (unsigned i = 0; i < m1; ++i) mutate<D, P>(s, A, pts, S.C.n, what);
    what += "other: ";
    for (unsigned i = 0; i < m2; ++i) mutate<D, P>(s, B, pts, S.C.n, what);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) pts[k] = S.C.pts[k];
    Model<D, P> MA(A, pts), MB(B, pts);
    if ((MA.dup && MB.dup) || (MA.dangling && MB.dangling)) throw Discard(); // no defined answer
    using NS = std::set<Vs<D>>;
    auto rel = [](const Model<D, P> &M) {
        std::map<Vs<D>, NS> r;
        for (auto &t : M.L) {
            auto &x = r[t.vertices];
            for (auto n : t.neighbors) {
                auto it = M.byId.find(n);
                if (it != M.byId.end()) x.insert(M.L[it->second].vertices);
            }
        }
        return r;
    };
    auto ra = rel(MA), rb = rel(MB);
    std::set<Vs<D>> onlyA, onlyB;
    for (auto &[k, v] : ra) if (!rb.count(k)) onlyA.insert(k);
    for (auto &[k, v] : rb) if (!ra.count(k)) onlyB.insert(k);
    bool want = ra == rb && MA.L.size() == MB.L.size() && !MA.dangling && !MB.dangling;
    c.describe([&](std::ostringstream &o) {
        o << S.C.n << " points, " << MA.L.size() << " / " << MB.L.size() << " simplices; " << what << "expected: " << (want ? "equal" : "different");
    });
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, s.pick({1u, 4u}));
    const auto &ca = A;
    auto r = ca.crossCheck(B);
    VP_CHECK(r.valid == want, r.valid ? "succeeded for different triangulations" : "failed for equal triangulations");
    std::set<Vs<D>> mi, in;
    for (auto &t : r.missing) mi.insert(t.vertices);
    for (auto &t : r.invalid) in.insert(t.vertices);
    VP_EQ(mi.size(), onlyB.size(), "number of simplices reported missing");
    VP_CHECK(mi == onlyB, "simplices reported missing are not the ones missing");
    VP_EQ(in.size(), onlyA.size(), "number of simplices reported as not in the other triangulation");
    VP_CHECK(in == onlyA, "simplices reported as not in the other triangulation are not those");
    c.nontrivial(MA.L.size() > 4 && MB.L.size() > 4);
    c.label(want ? "equal" : onlyA.empty() && onlyB.empty() ? "only neighbours differ" : "simplices differ");
}

template<uint D, typename P, size_t N> static void v(Src &s, Ctx &c) { verify<D, P>(s, c, N); }
template<uint D, typename P, size_t N> static void x(Src &s, Ctx &c) { cross<D, P>(s, c, N); }
#define RULE "more than four simplices"
static Reg a1({"C04", "verify 2D double", v<2, double, 30>, 40000, 400000, 15, RULE});
static Reg a2({"C04", "verify 3D double", v<3, double, 25>, 20000, 300000, 15, RULE});
static Reg a3({"C04", "verify 2D float", v<2, float, 30>, 12000, 160000, 15, RULE});
static Reg a4({"C04", "verify 3D float", v<3, float, 25>, 8000, 100000, 15, RULE});
static Reg a5({"C04", "verify 2D large", v<2, double, 600>, 1500, 20000, 15, RULE});
static Reg b1({"C04", "cross-check 2D double", x<2, double, 30>, 30000, 400000, 15, RULE});
static Reg b2({"C04", "cross-check 3D double", x<3, double, 25>, 15000, 240000, 15, RULE});
static Reg b3({"C04", "cross-check 2D float", x<2, float, 30>, 8000, 100000, 15, RULE});
static Reg b4({"C04", "cross-check 3D float", x<3, float, 25>, 8000, 100000, 15, RULE});
static Reg b5({"C04", "cross-check 2D large", x<2, double, 600>, 1500, 20000, 15, RULE});
int main(int argc, char **argv) { return vp_main(argc, argv); }
