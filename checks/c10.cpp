// C07 point statistics, C10 box queries, C12 uniform grid, C13 bounding-box tree
#include "vp.hpp"
#include <atomic>
#include <memory>
#include <numeric>
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/System.h"
#include "utils/Timings.h"
#include "load_balancing/BoxUtils.h"
#include "load_balancing/VectorOperations.h"
#include "load_balancing/Grid.h"
#include "datastructures/AABBTree.h"

using namespace vp;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

template<size_t D, typename P>
static std::string sh(const std::array<P, D> &v) {
    std::ostringstream o;
    o << std::setprecision(17) << "(";
    for (size_t d = 0; d < D; ++d) o << (d ? " " : "") << v[d];
    o << ")";
    return o.str();
}

//--------------------------------------------------------------------------------- C07
template<typename P>
static P coordOf(Src &s, unsigned mode) {
    switch (mode) {
        case 0: return (P) s.range<int64_t>(-20, 20);
        case 1: return (P) (-1 - (int64_t) s.below(50));                           // only negative
        case 2: return (P) (1 + (int64_t) s.below(50));
        case 3: return (P) ((s.chance(1, 2) ? -1 : 1) * std::ldexp(1.0 + s.unit(), s.range<int>(-120, 120)));
        case 4: return (P) (-std::ldexp(1.0 + s.unit(), s.range<int>(-120, 120)));
        case 5: return s.chance(1, 2) ? (P) 0 : (P) -0.0;
        default: return (P) (s.unit() * 200 - 100);
    }
}

template<uint D, typename P>
static void propStats(Src &s, Ctx &c) {
    size_t off = s.chance(1, 3) ? s.below(20) : 0;
    size_t n = 1 + s.length(0, 400);
    std::vector<unsigned> mode(D);
    for (auto &m : mode) m = s.draw(7);
    dPoints<D, P> pts;
    if (off) pts.offset(off);
    for (size_t i = 0; i < n; ++i) {
        dPoint<D, P> p;
        for (uint d = 0; d < D; ++d) p.coords[d] = coordOf<P>(s, mode[d]);
        pts.emplace_back(p);
    }
    bool infExt = s.chance(1, 2);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k)
        for (uint d = 0; d < D; ++d)
            pts[k].coords[d] = (P) ((infExt ? 1e30 : 3) * (((k >> d) & 1) ? 1 : -1));
    // id subset
    Point_Ids ids(n + 8);
    std::set<tIdType> ref;
    size_t keep = 1 + s.below(4);
    for (size_t i = 1; i <= n; ++i)
        if (s.below(keep) == 0) { ids.insert(off + i); ref.insert(off + i); }
    bool inf = s.chance(1, 2);
    if (inf)
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) { ids.insert(k); ref.insert(k); }
    bool ignore = s.chance(3, 4);
    dPointStats<D, P> want;
    size_t used = 0;
    for (auto id : ref) {
        bool fin = id < dPoint<D, P>::cINF;
        if (!fin && ignore) continue;
        for (uint d = 0; d < D; ++d) {
            P x = pts[id].coords[d];
            want.min[d] = used ? std::min(want.min[d], x) : x;
            want.max[d] = used ? std::max(want.max[d], x) : x;
        }
        ++used;
    }
    if (!used) throw Discard();
    c.nontrivial(used >= 2);
    for (uint d = 0; d < D; ++d) if (want.max[d] < 0) c.label("all negative");
    c.describe([&](std::ostream &o) {
        o << D << "D n=" << n << " used=" << used << " inf=" << inf << " ignore=" << ignore << " min=" << sh(want.min) << " max=" << sh(want.max);
    });
    auto cmp = [&](const dPointStats<D, P> &g, const char *w) {
        for (uint d = 0; d < D; ++d) {
            VP_CHECK(g.min[d] == want.min[d], w << ": min[" << d << "] = " << g.min[d] << " want " << want.min[d]);
            VP_CHECK(g.max[d] == want.max[d], w << ": max[" << d << "] = " << g.max[d] << " want " << want.max[d]);
            P mid = want.min[d] / 2 + want.max[d] / 2;
            P tol = 4 * std::numeric_limits<P>::epsilon() * std::max(std::abs(want.min[d]), std::abs(want.max[d]));
            VP_CHECK(std::abs(g.mid[d] - mid) <= tol, w << ": mid[" << d << "] = " << g.mid[d] << " want " << mid);
        }
    };
    cmp(getPointStats(ids, pts, ignore), "parallel");
    cmp((getPointStatsSeq<D, P>(ids.begin(), ids.end(), pts, ignore)), "sequential");
    std::vector<tIdType> v(ref.begin(), ref.end());
    cmp((getPointStatsSeq<D, P>(v.begin(), v.end(), pts, ignore)), "sequential over a vector");
    if (ref.size() == n + (inf ? dPoint<D, P>::nINF : 0)) { // all ids: also as a plain index range
        if (ignore) {
            cmp((getPointStatsSeq<D, P>((tIdType) (off + 1), (tIdType) (off + n + 1), pts)), "sequential over an index range");
            cmp(getPointStats(pts, pts), "parallel over the points");
        }
    }
}

//--------------------------------------------------------------------------------- C10
// integer geometry: every coordinate is an integer divided by 8, all products are exact
template<uint D>
struct IBox {
    std::array<int64_t, D> lo, hi;
};

template<uint D, typename P>
static dVector<D, P> vec(const std::array<int64_t, D> &v) {
    dVector<D, P> r;
    for (uint d = 0; d < D; ++d) r[d] = (P) v[d] / 8;
    return r;
}

template<uint D>
static IBox<D> genBox(Src &s, int64_t R) {
    IBox<D> b;
    for (uint d = 0; d < D; ++d) {
        b.lo[d] = s.range<int64_t>(-R, R);
        b.hi[d] = b.lo[d] + s.range<int64_t>(0, R);
    }
    return b;
}

// a centre and radius, often exactly touching the box from outside or inside
template<uint D>
static void genSphere(Src &s, const IBox<D> &b, int64_t R, std::array<int64_t, D> &ctr, int64_t &r) {
    unsigned how = s.draw(4);
    for (uint d = 0; d < D; ++d) ctr[d] = how < 2 ? s.range<int64_t>(-2 * R, 2 * R) : s.range<int64_t>(b.lo[d], b.hi[d]);
    r = s.below(2 * R);
    if (how == 1) { // touch: offsets from a corner, edge or face along a Pythagorean tuple
        static const int64_t T2[][3] = {{3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {0, 1, 1}, {20, 21, 29}};
        static const int64_t T3[][4] = {{1, 2, 2, 3}, {2, 3, 6, 7}, {1, 4, 8, 9}, {3, 4, 0, 5}, {0, 0, 1, 1}, {2, 6, 9, 11}};
        int64_t k = 1 + s.below(6);
        size_t t = D == 2 ? s.below(5) : s.below(6);
        for (uint d = 0; d < D; ++d) {
            int64_t off = (D == 2 ? T2[t][d] : T3[t][d]) * k;
            if (off == 0) ctr[d] = s.range<int64_t>(b.lo[d], b.hi[d]);
            else ctr[d] = s.chance(1, 2) ? b.lo[d] - off : b.hi[d] + off;
        }
        r = (D == 2 ? T2[t][2] : T3[t][3]) * k + (int64_t) s.below(3) - 1;
        r = std::max<int64_t>(r, 0);
    } else if (how == 3) { // touching a face from inside
        uint d = s.below(D);
        r = (s.chance(1, 2) ? ctr[d] - b.lo[d] : b.hi[d] - ctr[d]) + (int64_t) s.below(3) - 1;
        r = std::max<int64_t>(r, 0);
    }
}

template<uint D>
static int64_t sqDist(const IBox<D> &b, const std::array<int64_t, D> &p) {
    int64_t q = 0;
    for (uint d = 0; d < D; ++d) {
        int64_t e = p[d] < b.lo[d] ? b.lo[d] - p[d] : p[d] > b.hi[d] ? p[d] - b.hi[d] : 0;
        q += e * e;
    }
    return q;
}

template<uint D, typename P>
static void propBox(Src &s, Ctx &c) {
    const int64_t R = s.pick({4, 16, 128});
    auto b = genBox<D>(s, R);
    dBox<D, P> box(vec<D, P>(b.lo), vec<D, P>(b.hi));
    std::array<int64_t, D> p, ctr;
    for (uint d = 0; d < D; ++d) {
        unsigned h = s.draw(4);
        p[d] = h == 0 ? b.lo[d] : h == 1 ? b.hi[d] : h == 2 ? s.range<int64_t>(-2 * R, 2 * R) : s.range<int64_t>(b.lo[d] - 1, b.hi[d] + 1);
    }
    int64_t r;
    genSphere<D>(s, b, R, ctr, r);
    auto o = s.chance(1, 2) ? genBox<D>(s, R) : b;
    if (s.chance(3, 4))
        for (uint d = 0; d < D; ++d) {
            unsigned h = s.draw(4);
            if (h & 1) o.lo[d] = s.range<int64_t>(b.lo[d] - (int64_t) s.below(2), b.hi[d]);
            if (h & 2) o.hi[d] = std::max(o.lo[d], s.range<int64_t>(b.lo[d], b.hi[d] + (int64_t) s.below(2)));
            if (o.hi[d] < o.lo[d]) o.hi[d] = o.lo[d];
        }
    dBox<D, P> other(vec<D, P>(o.lo), vec<D, P>(o.hi));
    bool inP = true, inB = true, deg = false;
    for (uint d = 0; d < D; ++d) {
        inP = inP && b.lo[d] <= p[d] && p[d] <= b.hi[d];
        inB = inB && b.lo[d] <= o.lo[d] && o.hi[d] <= b.hi[d];
        deg = deg || b.lo[d] == b.hi[d];
    }
    bool inS = true;
    for (uint d = 0; d < D; ++d) inS = inS && ctr[d] - r >= b.lo[d] && ctr[d] + r <= b.hi[d];
    int64_t q = sqDist<D>(b, ctr);
    bool hit = q <= r * r;
    c.nontrivial(!deg && r > 0);
    if (q == r * r) c.label("touching from outside");
    if (hit) c.label("sphere hits");
    if (inS) c.label("sphere inside");
    c.describe([&](std::ostream &os) {
        os << "box " << sh(box.low) << "-" << sh(box.high) << " point " << sh(vec<D, P>(p)) << " sphere " << sh(vec<D, P>(ctr)) << " r=" << (double) r / 8
           << " box2 " << sh(other.low) << "-" << sh(other.high);
    });
    VP_EQ(box.contains((vec<D, P>(p))), inP, "contains point");
    VP_EQ(box.contains(other), inB, "contains box");
    dSphere<D, P> sp;
    sp.center = vec<D, P>(ctr);
    sp.radius = (P) r / 8;
    VP_EQ(box.intersects(sp), hit, "intersects sphere");
    VP_EQ(box.contains(sp), inS, "contains sphere");
    VP_EQ(box == other, (b.lo == o.lo && b.hi == o.hi), "box equality");
    VP_CHECK(box == box, "a box differs from itself");
    // distance helpers: lenSquared of the vector to the box is the squared distance (times 64)
    auto v = LoadBalancing::vecToBox<D, P>(vec<D, P>(ctr), box);
    VP_CHECK((lenSquared<D, P>(v) * 64 == (P) q), "vecToBox has squared length " << (lenSquared<D, P>(v)) << " want " << (double) q / 64);
    // distance to the boundary: outside as above, inside the distance to the closest face
    auto vb = LoadBalancing::vecToBoxBoundary<D, P>(vec<D, P>(ctr), box);
    int64_t qb = q;
    if (q == 0) {
        int64_t m = std::numeric_limits<int64_t>::max();
        for (uint d = 0; d < D; ++d) m = std::min(m, std::min(ctr[d] - b.lo[d], b.hi[d] - ctr[d]));
        qb = m * m;
    }
    VP_CHECK((lenSquared<D, P>(vb) * 64 == (P) qb), "vecToBoxBoundary has squared length " << (lenSquared<D, P>(vb)) << " want " << (double) qb / 64);
    // len agrees with lenSquared; operators are per component
    VP_CHECK((std::abs(len<D, P>(v) * len<D, P>(v) - lenSquared<D, P>(v)) <= 8 * std::numeric_limits<P>::epsilon() * lenSquared<D, P>(v)), "len^2 != lenSquared");
    std::array<int64_t, D> sum, dif;
    int64_t dot = 0;
    for (uint d = 0; d < D; ++d) { sum[d] = p[d] + ctr[d]; dif[d] = p[d] - ctr[d]; dot += p[d] * ctr[d]; }
    VP_CHECK((vec<D, P>(p) + vec<D, P>(ctr) == vec<D, P>(sum)), "vector sum");
    VP_CHECK((vec<D, P>(p) - vec<D, P>(ctr) == vec<D, P>(dif)), "vector difference");
    VP_CHECK((scalarProduct<D, P>(vec<D, P>(p), vec<D, P>(ctr)) * 64 == (P) dot), "scalar product");
    VP_CHECK((distanceToPlane<D, P>(vec<D, P>(p), vec<D, P>(ctr), (P) r / 8) * 64 == (P) (dot - 8 * r)), "distanceToPlane");
    auto sc = vec<D, P>(p) * (P) 4;
    auto sc2 = (P) 4 * vec<D, P>(p);
    for (uint d = 0; d < D; ++d) { VP_CHECK(sc[d] * 2 == (P) p[d], "vector times scalar"); VP_CHECK(sc2[d] == sc[d], "scalar times vector"); }
    // dPoint distance
    dPoint<D, P> pa(vec<D, P>(p)), pb(vec<D, P>(ctr));
    int64_t qq = 0;
    for (uint d = 0; d < D; ++d) qq += dif[d] * dif[d];
    VP_CHECK(pa.sqDistance(pb) * 64 == (P) qq, "sqDistance " << pa.sqDistance(pb) << " want " << qq / 64.0);
}

template<uint D, typename P>
static void propBoxParts(Src &s, Ctx &c) {
    const int64_t R = s.pick({4, 16, 128});
    auto b = genBox<D>(s, R);
    uint d = s.below(D);
    if (b.hi[d] == b.lo[d]) b.hi[d] += 2;
    int64_t cut = s.range<int64_t>(b.lo[d], b.hi[d]);
    dBox<D, P> box(vec<D, P>(b.lo), vec<D, P>(b.hi));
    auto parts = LoadBalancing::splitBox<D, P>(box, d, (P) cut / 8);
    auto l = b, r = b;
    l.hi[d] = cut;
    r.lo[d] = cut;
    c.nontrivial(cut != b.lo[d] && cut != b.hi[d]);
    c.describe([&](std::ostream &os) { os << "box " << sh(box.low) << "-" << sh(box.high) << " dim " << d << " cut " << cut / 8.0; });
    auto eq = [](const dBox<D, P> &g, const IBox<D> &w) { return g.low == vec<D, P>(w.lo) && g.high == vec<D, P>(w.hi); };
    VP_CHECK(eq(std::get<0>(parts), l), "left part " << sh(std::get<0>(parts).low) << "-" << sh(std::get<0>(parts).high));
    VP_CHECK(eq(std::get<1>(parts), r), "right part " << sh(std::get<1>(parts).low) << "-" << sh(std::get<1>(parts).high));
    // the part minus its sibling gives the sibling back
    if (cut != b.lo[d] && cut != b.hi[d]) {
        VP_CHECK(eq(box - std::get<0>(parts), r), "box minus left part");
        VP_CHECK(eq(box - std::get<1>(parts), l), "box minus right part");
    }
    // bounding box of vectors
    size_t n = 1 + s.below(12);
    std::vector<dVector<D, P>> vs;
    IBox<D> w;
    for (size_t i = 0; i < n; ++i) {
        std::array<int64_t, D> v;
        for (uint k = 0; k < D; ++k) v[k] = s.range<int64_t>(-R, R);
        if (!i) w.lo = w.hi = v;
        for (uint k = 0; k < D; ++k) { w.lo[k] = std::min(w.lo[k], v[k]); w.hi[k] = std::max(w.hi[k], v[k]); }
        vs.push_back(vec<D, P>(v));
    }
    auto bb = LoadBalancing::makeBoundingBox(vs.begin(), vs.end());
    VP_CHECK(eq(bb, w), "bounding box " << sh(bb.low) << "-" << sh(bb.high));
}

// arbitrary numbers: agreement with wide arithmetic where the margin is clear
template<uint D, typename P>
static void propBoxReal(Src &s, Ctx &c) {
    int e = s.range<int>(-20, 20);
    auto num = [&] { return (P) std::ldexp(s.unit() * 2 - 1, e); };
    dBox<D, P> box;
    dSphere<D, P> sp;
    long double scale = std::ldexp(1.0L, e), q = 0, in = std::numeric_limits<long double>::infinity();
    for (uint d = 0; d < D; ++d) {
        P a = num(), b = num();
        box.low[d] = std::min(a, b);
        box.high[d] = std::max(a, b);
        sp.center[d] = num() * (s.chance(1, 2) ? 2 : 1);
        long double x = std::max({(long double) box.low[d] - sp.center[d], (long double) sp.center[d] - box.high[d], 0.0L});
        q += x * x;
        in = std::min({in, (long double) sp.center[d] - box.low[d], (long double) box.high[d] - sp.center[d]});
    }
    sp.radius = std::abs(num());
    long double dist = std::sqrt(q), tol = 64 * std::numeric_limits<P>::epsilon() * scale;
    c.nontrivial();
    c.describe([&](std::ostream &os) {
        os << "box " << sh(box.low) << "-" << sh(box.high) << " sphere " << sh(sp.center) << " r=" << sp.radius;
    });
    if (std::abs(dist - sp.radius) > tol) VP_EQ(box.intersects(sp), dist < sp.radius, "intersects sphere");
    if (std::abs(in - sp.radius) > tol) VP_EQ(box.contains(sp), in > sp.radius, "contains sphere");
}

//--------------------------------------------------------------------------------- C12
template<uint D, typename P>
static void propGrid(Src &s, Ctx &c) {
    using namespace LoadBalancing;
    bool exact = s.chance(1, 2);
    // exact: width a power of two times a small integer, points multiples of width/16
    P w = exact ? (P) std::ldexp(1.0, s.range<int>(-6, 6)) : (P) std::ldexp(0.5 + s.unit() / 2, s.range<int>(-10, 10));
    Grid<D, P> g(w);
    VP_EQ(g.cellWidth(), w, "box query or grid width");
    dVector<D, P> p;
    dIndex<D> want;
    for (uint d = 0; d < D; ++d) {
        int64_t k = s.range<int64_t>(-1000, 1000), f = s.pick({0, 0, 1, 8, 15});
        if (exact) {
            p[d] = (P) (16 * k + f) * (w / 16);
            want[d] = k;
        } else {
            p[d] = (P) ((s.unit() * 2 - 1) * w * s.pick({1, 10, 1000}));
            if (s.chance(1, 4)) p[d] = (P) k * w; // cell boundary as the grid itself computes it
            if (s.chance(1, 8)) p[d] = std::nextafter((P) k * w, s.chance(1, 2) ? (P) -1e30 : (P) 1e30);
        }
    }
    bool neg = false, bnd = false;
    for (uint d = 0; d < D; ++d) { neg = neg || p[d] < 0; bnd = bnd || std::floor(p[d] / w) == p[d] / w; }
    c.nontrivial();
    if (neg) c.label("negative coordinate");
    if (bnd) c.label("on a cell boundary");
    c.describe([&](std::ostream &o) { o << D << "D width " << w << " point " << sh(p) << (exact ? " exact" : ""); });
    auto i = g.indexAt(p);
    if (exact) VP_CHECK(i == want, "indexAt " << sh(i) << " want " << sh(want));
    auto b = g.boundsOf(i);
    auto ctr = g.centerOf(i);
    P eps = exact ? 0 : 4 * std::numeric_limits<P>::epsilon();
    for (uint d = 0; d < D; ++d) {
        P tol = eps * (std::abs(p[d]) + w);
        VP_CHECK(b.low[d] <= p[d] + tol && p[d] <= b.high[d] + tol, "point outside its cell " << sh(b.low) << "-" << sh(b.high));
        VP_CHECK(std::abs((b.high[d] - b.low[d]) - w) <= eps * (std::abs(b.low[d]) + std::abs(b.high[d])), "cell extent " << b.high[d] - b.low[d]);
        VP_CHECK(std::abs(ctr[d] - (b.low[d] / 2 + b.high[d] / 2)) <= eps * (std::abs(ctr[d]) + w), "centre " << sh(ctr));
    }
    auto j = g.indexAt(ctr);
    VP_CHECK(i == j, "the centre of cell " << sh(i) << " maps to " << sh(j));
    // neighbouring cells share their faces exactly
    for (uint d = 0; d < D; ++d) {
        auto k = i;
        ++k[d];
        auto nb = g.boundsOf(k);
        VP_CHECK(nb.low[d] == b.high[d], "cells " << sh(i) << " and " << sh(k) << " do not meet");
        for (uint e = 0; e < D; ++e) if (e != d) VP_CHECK(nb.low[e] == b.low[e] && nb.high[e] == b.high[e], "neighbouring cells are shifted");
    }
    dIndexHasher<D, int64_t> h;
    VP_EQ(h(i), h(j), "hash");
    VP_CHECK(std::abs(g.diagonalCellLength() - std::sqrt((long double) D) * w) <= 4 * std::numeric_limits<P>::epsilon() * w * 2, "diagonal " << g.diagonalCellLength());
}

template<uint D, typename P>
static void propGridSphere(Src &s, Ctx &c) {
    using namespace LoadBalancing;
    // width w8/8; everything in eighths is an integer
    int64_t w8 = s.pick({1, 2, 4, 8, 16, 3, 5});
    Grid<D, P> g((P) w8 / 8);
    size_t n = s.below(12);
    std::vector<dIndex<D>> cells;
    int64_t R = s.pick({3, 12});
    std::array<int64_t, D> ctr;
    int64_t r = 0;
    IBox<D> last;
    for (uint d = 0; d < D; ++d) { last.lo[d] = 0; last.hi[d] = w8; }
    for (size_t i = 0; i < n; ++i) {
        dIndex<D> x;
        for (uint d = 0; d < D; ++d) { x[d] = s.range<int64_t>(-R, R); last.lo[d] = x[d] * w8; last.hi[d] = (x[d] + 1) * w8; }
        cells.push_back(x);
    }
    genSphere<D>(s, last, R * w8, ctr, r);
    dSphere<D, P> sp;
    sp.center = vec<D, P>(ctr);
    sp.radius = (P) r / 8;
    size_t hits = 0;
    for (auto &x : cells) {
        IBox<D> b;
        for (uint d = 0; d < D; ++d) { b.lo[d] = x[d] * w8; b.hi[d] = (x[d] + 1) * w8; }
        bool want = sqDist<D>(b, ctr) <= r * r;
        hits += want;
        bool got = intersectsWith<D, P, int64_t>(g, sp, x);
        VP_CHECK(got == want, "cell " << sh(x) << " width " << w8 / 8.0 << " sphere " << sh(sp.center) << " r=" << sp.radius << ": intersects " << got);
    }
    c.nontrivial(n >= 2 && r > 0);
    if (hits && hits < n) c.label("some cells hit, some not");
    c.describe([&](std::ostream &o) { o << D << "D width " << w8 / 8.0 << " cells " << n << " hit " << hits << " sphere " << sh(sp.center) << " r=" << sp.radius; });
}

//--------------------------------------------------------------------------------- C13
template<uint D, typename P>
static void propTree(Src &s, Ctx &c) {
    using namespace LoadBalancing;
    bool exact = s.chance(1, 2);
    int64_t w8 = s.pick({8, 4, 16, 3, 5, 2});
    P w = exact ? (P) w8 / 8 : (P) std::ldexp(0.5 + s.unit() / 2, s.range<int>(-5, 5));
    Grid<D, P> g(w);
    int64_t R = s.pick({2, 5, 12});
    std::array<int64_t, D> lo, hi; // cell range covered by the bounds
    dBox<D, P> bounds;
    for (uint d = 0; d < D; ++d) {
        lo[d] = s.range<int64_t>(-R, R);
        hi[d] = lo[d] + s.range<int64_t>(0, R);
        // the bounds are arbitrary coordinates inside the first and the last cell
        auto inCell = [&](int64_t k) {
            P f = exact ? (P) s.below(8) / 8 : (P) s.unit() * (P) 0.99;
            P x = ((P) k + f) * w;
            if (g.indexAt({x})[0] != k && D > 0) x = ((P) k + (P) 0.5) * w;
            return x;
        };
        bounds.low[d] = inCell(lo[d]);
        bounds.high[d] = std::max(bounds.low[d], inCell(hi[d]));
        lo[d] = (int64_t) std::floor(bounds.low[d] / w);
        hi[d] = (int64_t) std::floor(bounds.high[d] / w);
    }
    AABBTree<D, P> tree(bounds, w);
    std::set<dIndex<D>> model;
    size_t n = s.length(0, 150), refused = 0, dup = 0;
    bool dense = s.chance(1, 3);
    auto one = [&](AABBTree<D, P> &t, std::set<dIndex<D>> &m) {
        dIndex<D> x;
        bool inside = true;
        bool out = s.chance(1, 12);
        for (uint d = 0; d < D; ++d) {
            x[d] = s.range<int64_t>(lo[d], hi[d]);
            if (out && d == 0) x[d] = s.chance(1, 2) ? lo[d] - 1 - (int64_t) s.below(3) : hi[d] + 2 + (int64_t) s.below(3);
            inside = inside && lo[d] <= x[d] && x[d] <= hi[d];
        }
        if (dense) for (uint d = 0; d < D; ++d) if (!out) x[d] = std::min(hi[d], lo[d] + (x[d] - lo[d]) / 2);
        bool ok = t.insert(g.boundsOf(x));
        VP_CHECK(ok == inside, "insertion of cell " << sh(x) << " returned " << ok << ", bounds cover cells " << sh(lo) << " to " << sh(hi));
        if (inside) dup += !m.insert(x).second;
        else ++refused;
    };
    size_t queries = 0, hits = 0;
    auto query = [&](const AABBTree<D, P> &t, const std::set<dIndex<D>> &m) {
        ++queries;
        dSphere<D, P> sp;
        std::set<dIndex<D>> want, maybe;
        if (exact) {
            IBox<D> last;
            for (uint d = 0; d < D; ++d) { last.lo[d] = 0; last.hi[d] = w8; }
            if (!m.empty()) {
                auto it = m.begin();
                std::advance(it, s.below(m.size()));
                for (uint d = 0; d < D; ++d) { last.lo[d] = (*it)[d] * w8; last.hi[d] = ((*it)[d] + 1) * w8; }
            }
            std::array<int64_t, D> ctr;
            int64_t r;
            genSphere<D>(s, last, R * w8, ctr, r);
            if (s.chance(1, 2)) r /= 4;
            sp.center = vec<D, P>(ctr);
            sp.radius = (P) r / 8;
            for (auto &x : m) {
                IBox<D> b;
                for (uint d = 0; d < D; ++d) { b.lo[d] = x[d] * w8; b.hi[d] = (x[d] + 1) * w8; }
                if (sqDist<D>(b, ctr) <= r * r) want.insert(x);
            }
            maybe = want;
        } else {
            for (uint d = 0; d < D; ++d) sp.center[d] = (P) ((s.unit() * 4 - 2) * R) * w;
            sp.radius = (P) (s.unit() * (s.chance(1, 2) ? 1 : R)) * w;
            for (auto &x : m) {
                long double q = 0;
                auto b = g.boundsOf(x);
                for (uint d = 0; d < D; ++d) {
                    long double e = std::max({(long double) b.low[d] - sp.center[d], (long double) sp.center[d] - b.high[d], 0.0L});
                    q += e * e;
                }
                long double dist = std::sqrt(q), tol = 64 * std::numeric_limits<P>::epsilon() * w * R;
                if (dist + tol < sp.radius) want.insert(x);
                if (dist - tol < sp.radius) maybe.insert(x);
            }
        }
        bool got = t.intersects(sp);
        if (!want.empty()) VP_CHECK(got, "sphere " << sh(sp.center) << " r=" << sp.radius << " touches cell " << sh(*want.begin()) << " of width " << w << " but the tree reports none");
        if (maybe.empty()) VP_CHECK(!got, "sphere " << sh(sp.center) << " r=" << sp.radius << " touches no cell of width " << w << " but the tree reports one");
        hits += got;
        auto lst = t.intersectingCells(sp);
        std::set<dIndex<D>> gs(lst.begin(), lst.end());
        VP_CHECK(gs.size() == lst.size(), "a cell is listed twice");
        for (auto &x : want) VP_CHECK(gs.count(x), "intersected cell " << sh(x) << " is not listed");
        for (auto &x : gs) VP_CHECK(maybe.count(x), "listed cell " << sh(x) << " is not intersected");
    };
    for (size_t i = 0; i < n; ++i) {
        one(tree, model);
        if (s.chance(1, 6)) query(tree, model);
        if (s.chance(1, 40)) { // copies and moves answer alike
            AABBTree<D, P> cp(tree);
            query(cp, model);
            auto m2 = model;
            one(cp, m2);
            query(cp, m2);
            query(tree, model); // the original is not affected
            AABBTree<D, P> mv(std::move(cp));
            query(mv, m2);
            if (s.chance(1, 2)) {
                dBox<D, P> unit = g.boundsOf(dIndex<D>{});
                AABBTree<D, P> tgt(unit, w);
                tgt.insert(unit);
                tgt = std::move(mv);
                query(tgt, m2);
                c.label("move assigned");
            }
            c.label("copied and moved");
        }
    }
    for (int i = 0; i < 4; ++i) query(tree, model);
    c.nontrivial(model.size() > (1u << D) && hits && hits < queries);
    if (refused) c.label("refused");
    if (dup) c.label("duplicate");
    c.describe([&](std::ostream &o) {
        o << D << "D width " << w << " bounds " << sh(bounds.low) << "-" << sh(bounds.high) << " cells " << model.size() << " refused " << refused
          << " queries " << queries << " hits " << hits;
    });
}

static Reg r1({"C07", "stats_2d", propStats<2, double>, 20000, 60000, 20, "at least two points contribute"});
static Reg r2({"C07", "stats_3d", propStats<3, double>, 20000, 60000, 20, "at least two points contribute"});
static Reg r3({"C07", "stats_float", propStats<3, float>, 20000, 40000, 20, "at least two points contribute"});
static Reg r3b({"C07", "stats_float_2d", propStats<2, float>, 20000, 40000, 20, "at least two points contribute"});
static Reg r4({"C10", "box_2d", propBox<2, double>, 400000, 2000000, 20, "non-degenerate box and sphere"});
static Reg r5({"C10", "box_3d", propBox<3, double>, 400000, 2000000, 20, "non-degenerate box and sphere"});
static Reg r6({"C10", "box_2d_float", propBox<2, float>, 400000, 1000000, 20, "non-degenerate box and sphere"});
static Reg r6b({"C10", "box_3d_float", propBox<3, float>, 400000, 1000000, 20, "non-degenerate box and sphere"});
static Reg r7({"C10", "parts_2d", propBoxParts<2, double>, 200000, 500000, 20, "the cut is inside the box"});
static Reg r8({"C10", "parts_3d", propBoxParts<3, float>, 200000, 500000, 20, "the cut is inside the box"});
static Reg r9({"C10", "real_2d", propBoxReal<2, double>, 300000, 1000000, 20, "all"});
static Reg r10({"C10", "real_3d", propBoxReal<3, float>, 300000, 1000000, 20, "all"});
static Reg r11({"C12", "grid_2d", propGrid<2, double>, 400000, 1000000, 20, "all"});
static Reg r12({"C12", "grid_3d", propGrid<3, double>, 400000, 1000000, 20, "all"});
static Reg r13({"C12", "grid_float", propGrid<3, float>, 400000, 1000000, 20, "all"});
static Reg r14({"C12", "sphere_2d", propGridSphere<2, double>, 300000, 1000000, 20, "at least two cells and a positive radius"});
static Reg r15({"C12", "sphere_3d", propGridSphere<3, float>, 300000, 1000000, 20, "at least two cells and a positive radius"});
static Reg r16({"C13", "tree_2d", propTree<2, double>, 60000, 100000, 20, "more cells than a node holds, queries with and without hit"});
static Reg r17({"C13", "tree_3d", propTree<3, double>, 60000, 100000, 20, "more cells than a node holds, queries with and without hit"});
static Reg r18({"C13", "tree_float", propTree<2, float>, 60000, 60000, 20, "more cells than a node holds, queries with and without hit"});

int main(int argc, char **argv) { return vp_main(argc, argv); }
