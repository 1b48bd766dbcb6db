// C05: the classic partitioners against a model of where every point belongs
#include "vp.hpp"
#include <atomic>
#include <memory>
#include <numeric>
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/System.h"
#include "utils/Timings.h"
#include "utils/Misc.h"

using namespace vp;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

template<uint D, typename P>
struct Input {
    dPoints<D, P> pts;
    std::unique_ptr<Point_Ids> ids;
    std::set<tIdType> fin;
};

template<uint D, typename P>
static Input<D, P> gen(Src &s, Ctx &c, size_t maxN) {
    Input<D, P> I;
    size_t n = 2 + s.length(0, maxN);
    unsigned mode[D];
    for (auto &m : mode) m = s.draw(7);
    size_t off = s.chance(1, 4) ? s.below(50) : 0;
    if (off) I.pts.offset(off);
    for (size_t i = 0; i < n; ++i) {
        dPoint<D, P> p;
        for (uint d = 0; d < D; ++d) {
            switch (mode[d]) {
                case 0: p.coords[d] = (P) s.range<int64_t>(-10, 10); break;
                case 1: p.coords[d] = (P) (s.unit() * 200 - 100); break;
                case 2: p.coords[d] = (P) -(1 + (int64_t) s.below(30)); break;       // negative only
                case 3: p.coords[d] = (P) ((s.chance(1, 2) ? -1 : 1) * std::ldexp(1 + s.unit(), s.range<int>(-60, 60))); break;
                case 4: p.coords[d] = (P) s.below(2); break;                          // two values
                case 5: p.coords[d] = (P) 7; break;                                   // flat
                default: p.coords[d] = (P) (1e6 + s.unit()); break;                   // far from the origin
            }
        }
        I.pts.emplace_back(p);
    }
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k)
        for (uint d = 0; d < D; ++d) I.pts[k].coords[d] = (P) (((k >> d) & 1 ? 1 : -1) * 1e12);
    I.ids = std::make_unique<Point_Ids>(n + 8);
    size_t keep = 1 + s.below(3);
    for (size_t i = 1; i <= n; ++i)
        if (s.below(keep) == 0) {
            I.ids->insert(off + i);
            I.fin.insert(off + i);
        }
    if (s.chance(2, 3)) {
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) I.ids->insert(k);
        c.label("ids hold the infinite points");
    }
    return I;
}

template<uint D, typename P>
static void propPart(Src &s, Ctx &c) {
    auto I = gen<D, P>(s, c, 600);
    if (I.fin.empty()) throw Discard();
    // bounds, by scan
    dVector<D, P> lo, hi, mid;
    for (uint d = 0; d < D; ++d) {
        lo[d] = std::numeric_limits<P>::max();
        hi[d] = std::numeric_limits<P>::lowest();
        for (auto id : I.fin) {
            lo[d] = std::min(lo[d], I.pts[id].coords[d]);
            hi[d] = std::max(hi[d], I.pts[id].coords[d]);
        }
    }
    bool flat = true;
    for (uint d = 0; d < D; ++d) flat = flat && lo[d] == hi[d];
    static const std::string kinds = D == 2 ? "dce01" : "dce012";
    char kind = kinds[s.below(kinds.size())];
    if (kind == 'e' && flat) throw Discard(); // nothing to split: rejected by an assertion
    bool ignoreInf = s.chance(1, 3);
    std::string prov = "0";
    for (size_t k = s.below(6); k > 0; --k) prov += (char) ('0' + s.below(kind == 'd' ? (1 << D) : 2));
    auto part = Partitioner<D, P>::make(kind);
    dPointStats<D, P> stats;
    Partitioning<D, P> res;
    bool own = s.chance(1, 2);
    if (own) {
        stats = getPointStats(*I.ids, I.pts);
        res = part->partition(stats, *I.ids, I.pts, prov, ignoreInf);
    } else
        res = part->partition(*I.ids, I.pts, prov, ignoreInf);
    // the midpoint the library splits at
    for (uint d = 0; d < D; ++d) mid[d] = (hi[d] + lo[d]) / 2;

    // which dimensions are split
    std::vector<uint> dims;
    if (kind == 'd') for (uint d = 0; d < D; ++d) dims.push_back(d);
    else if (kind == 'c') dims.push_back((prov.size() - 1) % D);
    else if (kind == 'e') {
        uint best = 0;
        for (uint d = 1; d < D; ++d) if (hi[d] - lo[d] > hi[best] - lo[best]) best = d;
        dims.push_back(best);
    } else dims.push_back(kind - '0');
    size_t parts = size_t(1) << dims.size();

    c.label(std::string("kind ") + kind);
    c.describe([&](std::ostream &o) {
        o << D << "D kind " << kind << " provenance " << prov << " " << I.fin.size() << " points";
    });
    VP_EQ(res.size(), parts, "number of partitions");
    std::vector<std::set<tIdType>> want(parts);
    for (auto id : I.fin) {
        size_t k = 0;
        for (size_t j = 0; j < dims.size(); ++j) k |= (size_t) (I.pts[id].coords[dims[j]] > mid[dims[j]]) << j;
        want[k].insert(id);
    }
    size_t nonEmpty = 0;
    for (auto &w : want) nonEmpty += !w.empty();
    c.nontrivial(nonEmpty > 1);
    std::map<tIdType, size_t> where;
    for (size_t k = 0; k < parts; ++k) {
        VP_EQ(res[k].id, (uint) k, "id of partition " << k);
        std::set<tIdType> got, inf;
        size_t cnt = 0;
        for (auto id : res[k].points) {
            ++cnt;
            if (dPoint<D, P>::isFinite(id)) {
                got.insert(id);
                VP_CHECK(I.fin.count(id), "partition " << k << " holds point " << id << " that was not given");
                VP_CHECK(where.emplace(id, k).second, "point " << id << " is in two partitions");
                for (uint d = 0; d < D; ++d) {
                    P x = I.pts[id].coords[d];
                    VP_CHECK(res[k].bounds.low[d] <= x && x <= res[k].bounds.high[d],
                             "point " << id << " coordinate " << d << " = " << x << " outside the bounds [" << res[k].bounds.low[d] << ", " << res[k].bounds.high[d] << "] of its partition " << k);
                }
                VP_CHECK(res[k].bounds.contains(I.pts[id].coords), "bounds of partition " << k << " do not contain point " << id);
            } else
                inf.insert(id);
        }
        VP_EQ(cnt, got.size() + inf.size(), "ids met in partition " << k);
        VP_EQ(res[k].points.size(), cnt, "size of partition " << k);
        VP_CHECK(got == want[k], "partition " << k << " holds " << got.size() << " points, not the " << want[k].size() << " on its side of the midpoint");
        VP_EQ(inf.size(), (size_t) (ignoreInf ? 0 : dPoint<D, P>::nINF), "infinite points in partition " << k);
        for (tIdType q = dPoint<D, P>::cINF; q != 0; ++q)
            VP_EQ(res[k].contains(q), !ignoreInf, "partition " << k << " contains infinite point " << q);
        // bounds: the given box cut at the midpoint
        for (uint d = 0; d < D; ++d) {
            auto it = std::find(dims.begin(), dims.end(), d);
            bool split = it != dims.end(), up = split && (k >> (it - dims.begin()) & 1);
            VP_CHECK(res[k].bounds.low[d] == (up ? mid[d] : lo[d]), "lower bound " << d << " of partition " << k << " is " << res[k].bounds.low[d]);
            VP_CHECK(res[k].bounds.high[d] == (split && !up ? mid[d] : hi[d]), "upper bound " << d << " of partition " << k << " is " << res[k].bounds.high[d]);
        }
    }
    VP_EQ(where.size(), I.fin.size(), "points in all partitions");
    for (auto &w : where) VP_EQ((size_t) res.partition(w.first), w.second, "partition of point " << w.first);
    // an id that was not given
    tIdType absent = 1000000;
    bool thrown = false;
    try {
        res.partition(absent);
    } catch (const std::out_of_range &) {
        thrown = true;
    }
    VP_CHECK(thrown, "no complaint about the partition of an absent point");
    for (auto &p : res) VP_CHECK(!p.contains(absent), "an absent point is contained");
    // simplices
    std::vector<tIdType> fin(I.fin.begin(), I.fin.end());
    for (unsigned r = 0; r < 12; ++r) {
        std::array<tIdType, D + 1> v;
        std::set<tIdType> vs;
        size_t home = s.below(parts);
        std::vector<tIdType> hv(want[home].begin(), want[home].end());
        for (unsigned t = 0; vs.size() < D + 1 && t < 60; ++t) {
            unsigned how = s.draw(4);
            if (how < 2 && !hv.empty()) vs.insert(hv[s.below(hv.size())]);
            else if (how == 2) vs.insert(fin[s.below(fin.size())]);
            else if (s.chance(1, 2)) vs.insert(dPoint<D, P>::cINF + s.below(dPoint<D, P>::nINF));
            else vs.insert(absent + s.below(5));
        }
        if (vs.size() < D + 1) break;
        std::copy(vs.begin(), vs.end(), v.begin());
        dSimplex<D, P> x(v);
        x.genFingerprint();
        for (size_t k = 0; k < parts; ++k) {
            size_t in = 0;
            for (auto id : vs) in += dPoint<D, P>::isFinite(id) ? want[k].count(id) : !ignoreInf;
            VP_EQ(res[k].contains(x), in == D + 1, "simplex with " << in << " of its vertices in partition " << k << " contained");
            VP_EQ(res[k].contains(x, true), in > 0, "simplex with " << in << " of its vertices in partition " << k << " partially contained");
        }
    }
}

template<uint D, typename P>
static void propDepth(Src &s, Ctx &c) {
    static const std::string kinds = D == 2 ? "dce01" : "dce012";
    char kind = kinds[s.below(kinds.size())];
    uint t = s.chance(1, 2) ? 1 + s.below(200) : (uint) 1 << s.below(20);
    auto part = Partitioner<D, P>::make(kind);
    uint per = kind == 'd' ? 1u << D : 2;
    // thread counts that are no power of the number of parts are refused
    bool pow = false;
    uint want = 0;
    for (uint64_t q = 1; q <= t; q *= per, ++want)
        if (q == t) {
            pow = true;
            break;
        }
    c.nontrivial(pow && t > 1);
    c.describe([&](std::ostream &o) { o << D << "D kind " << kind << " threads " << t; });
    uint got = 0;
    bool refused = false;
    try {
        got = part->getRecursionDepth(t);
    } catch (AssertionException &) {
        refused = true;
    }
    VP_EQ(refused, !pow, "thread count " << t << " refused by partitioner " << kind);
    if (!pow) return;
    uint64_t leaves = 1;
    for (uint i = 0; i < got; ++i) leaves *= per;
    VP_CHECK(leaves >= t, "depth " << got << " of partitioner " << kind << " yields " << leaves << " partitions for " << t << " threads");
    VP_EQ(got, want, "depth for " << t << " threads of partitioner " << kind);
}

#define RULE "at least two partitions receive points"
static Reg a1({"C05", "split_2d_double", propPart<2, double>, 60000, 600000, 15, RULE});
static Reg a2({"C05", "split_3d_double", propPart<3, double>, 60000, 600000, 15, RULE});
static Reg a3({"C05", "split_2d_float", propPart<2, float>, 40000, 400000, 15, RULE});
static Reg a4({"C05", "split_3d_float", propPart<3, float>, 40000, 400000, 15, RULE});
static Reg a5({"C05", "depth_2d", propDepth<2, double>, 20000, 100000, 10, "accepted thread count above one"});
static Reg a6({"C05", "depth_3d", propDepth<3, double>, 20000, 100000, 10, "accepted thread count above one"});

int main(int argc, char **argv) { return vp_main(argc, argv); }
