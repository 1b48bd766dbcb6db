// C32: archive round trips
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include "vp.hpp"
#include "Partitioner.h"
#include "datastructures/Bit_Set.hxx"
#include "utils/Serialization.hxx"

using namespace vp;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

enum Mode { TEXT, BIN, FILES };

template<typename T>
static std::string save(const T &o, Mode m) {
    std::stringstream ss;
    if (m == TEXT) {
        boost::archive::text_oarchive oa(ss);
        oa << o;
    } else {
        boost::archive::binary_oarchive oa(ss);
        oa << o;
    }
    return ss.str();
}

template<typename T>
static void load(T &o, const std::string &b, Mode m) {
    std::stringstream ss(b);
    if (m == TEXT) {
        boost::archive::text_iarchive ia(ss);
        ia >> o;
    } else {
        boost::archive::binary_iarchive ia(ss);
        ia >> o;
    }
}

struct TmpDir {
    char p[32] = "/tmp/vp-c32-XXXXXX";
    TmpDir() {
        if (!mkdtemp(p)) throw Discard();
    }
    ~TmpDir() {
        unlink((std::string(p) + "/a").c_str());
        unlink((std::string(p) + "/b").c_str());
        rmdir(p);
    }
};
static std::string slurp(const std::string &f) {
    std::ifstream i(f, std::ios::binary);
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}

// writes twice, compares, loads into `fresh` (or through the file helpers); keep a second generation, too
template<typename T, typename Eq>
static void trip(Src &s, T &o, T &fresh, Eq eq, const std::string &what) {
    Mode m = (Mode) s.draw(2);
    std::string b1 = save(o, m), b2 = save(o, m);
    VP_CHECK(b1 == b2, "writing the same " << what << " twice gives different bytes");
    load(fresh, b1, m);
    eq(o, fresh, what);
    std::string b3 = save(fresh, m);
    VP_CHECK(b3 == b1, "writing the reloaded " << what << " gives other bytes (" << b1.size() << " and " << b3.size() << ")");
}

template<typename T, typename Eq>
static void tripFile(T &o, Eq eq, const std::string &what) {
    TmpDir d;
    std::string a = std::string(d.p) + "/a", b = std::string(d.p) + "/b";
    storeObject(o, a);
    { // a longer file is there already
        std::ofstream f(b, std::ios::binary);
        f << std::string(slurp(a).size() + 1 + slurp(a).size() % 7, 'x');
    }
    storeObject(o, b);
    VP_CHECK(slurp(a) == slurp(b), "storing the same " << what << " twice gives different bytes");
    T r = loadObject<T>(a);
    eq(o, r, what + " (file)");
}

template<typename P>
static P num(Src &s) {
    P x;
    switch (s.draw(7)) {
        case 0: x = (P) s.range(-5, 5); break;
        case 1: x = (P) s.unit(); break;
        case 2: x = (P) std::ldexp(1 + s.unit(), (int) s.range(-100, 100)); break;
        case 3: x = std::numeric_limits<P>::max(); break;
        case 4: x = std::numeric_limits<P>::min(); break;
        case 5: x = -std::numeric_limits<P>::max(); break;
        default: x = (P) 0.1; break;
    }
    return s.chance(1, 3) ? -x : x;
}

template<uint D, typename P>
static dVector<D, P> vec(Src &s) {
    dVector<D, P> v;
    for (auto &x : v) x = num<P>(s);
    return v;
}

template<uint D, typename P>
static void propSmall(Src &s, Ctx &c) {
    {
        dBox<D, P> b(vec<D, P>(s), vec<D, P>(s)), r(vec<D, P>(s), vec<D, P>(s));
        trip(s, b, r, [](auto &x, auto &y, const std::string &w) { VP_CHECK(x.low == y.low && x.high == y.high && x == y, "reloaded " << w << " differs: " << x << " " << y); }, "box");
    }
    {
        dSphere<D, P> b{vec<D, P>(s), num<P>(s)}, r{vec<D, P>(s), num<P>(s)};
        trip(s, b, r, [](auto &x, auto &y, const std::string &w) { VP_CHECK(x.center == y.center && x.radius == y.radius, "reloaded " << w << " differs: " << x << " " << y); }, "sphere");
    }
    {
        dPoint<D, P> b(vec<D, P>(s)), r(vec<D, P>(s));
        trip(s, b, r, [](auto &x, auto &y, const std::string &w) { VP_CHECK(x.coords == y.coords, "reloaded " << w << " differs: " << x << " " << y); }, "point");
    }
    {
        dPointStats<D, P> b, r;
        b.min = vec<D, P>(s);
        b.mid = vec<D, P>(s);
        b.max = vec<D, P>(s);
        trip(s, b, r, [](auto &x, auto &y, const std::string &w) { VP_CHECK(x.min == y.min && x.mid == y.mid && x.max == y.max, "reloaded " << w << " differs"); }, "point statistics");
    }
    c.nontrivial();
    c.describe([&](std::ostream &o) { o << "box, sphere, point, statistics"; });
}

template<uint D, typename P>
static void genSimplex(Src &s, dSimplex<D, P> &x, tIdType id) {
    x.id = id;
    for (uint d = 0; d <= D; ++d) {
        x.vertices[d] = s.chance(1, 5) ? dPoint<D, P>::cINF | s.below(1 << D) : s.chance(1, 6) ? s.draw(0) : s.below(1000);
        x.neighbors[d] = s.chance(1, 4) ? dSimplex<D, P>::cINF : s.below(1000);
    }
    x.sortVertices();
    x.genFingerprint();
    x.mark = (tMarkType) s.draw(256);
}

template<uint D, typename P>
static void eqSimplex(const dSimplex<D, P> &x, const dSimplex<D, P> &y, const std::string &w) {
    VP_EQ((uint64_t) x.id, (uint64_t) y.id, "id of the reloaded " << w);
    VP_CHECK(x.vertices == y.vertices, "vertices of the reloaded " << w);
    VP_CHECK(x.neighbors == y.neighbors, "neighbours of the reloaded " << w);
    VP_EQ(x.fingerprint(), y.fingerprint(), "fingerprint of the reloaded " << w);
    VP_EQ((int) x.mark, (int) y.mark, "mark of the reloaded " << w);
}

template<uint D, typename P>
static void propSimplex(Src &s, Ctx &c) {
    dSimplex<D, P> a, r;
    genSimplex(s, a, s.chance(1, 4) ? dSimplex<D, P>::cINF : s.draw(0));
    genSimplex(s, r, 3);
    trip(s, a, r, [](auto &x, auto &y, const std::string &w) { eqSimplex(x, y, w); }, "simplex");
    c.nontrivial();
    c.describe([&](std::ostream &o) { o << a; });
}

template<uint D, typename P>
static void eqPoints(const dPoints<D, P> &x, const dPoints<D, P> &y, const std::string &w) {
    VP_EQ((size_t) x.finite_size(), (size_t) y.finite_size(), "number of points of the reloaded " << w);
    VP_EQ((size_t) x.offset(), (size_t) y.offset(), "offset of the reloaded " << w);
    for (size_t i = 0; i < x.finite_size(); ++i)
        VP_CHECK(x[x.offset() + i].coords == y[x.offset() + i].coords, "point " << x.offset() + i << " of the reloaded " << w);
    for (tIdType k = 0; k < dPoint<D, P>::nINF; ++k)
        VP_CHECK((x[dPoint<D, P>::cINF | k].coords == y[dPoint<D, P>::cINF | k].coords), "infinite point " << k << " of the reloaded " << w);
}

template<uint D, typename P>
static void propPoints(Src &s, Ctx &c) {
    auto gen = [&](dPoints<D, P> &p, size_t n) {
        for (size_t i = 0; i < n; ++i) p.emplace_back(dPoint<D, P>(vec<D, P>(s)));
        for (tIdType k = 0; k < dPoint<D, P>::nINF; ++k) p[dPoint<D, P>::cINF | k].coords = vec<D, P>(s);
        if (s.chance(1, 2)) p.offset(s.pick({(size_t) 0, (size_t) 1, (size_t) 100, (size_t) 1 << 40}));
        if (s.chance(1, 2)) p[p.offset()].coords = vec<D, P>(s);
    };
    dPoints<D, P> p, r;
    size_t n = s.length(0, 60);
    gen(p, n);
    if (s.chance(1, 2)) gen(r, s.below(10)); // loading replaces what is there
    auto eq = [](auto &x, auto &y, const std::string &w) { eqPoints(x, y, w); };
    trip(s, p, r, eq, "point set");
    if (s.chance(1, 20)) tripFile(p, eq, "point set");
    c.nontrivial(n > 1);
    c.describe([&](std::ostream &o) { o << n << " points, offset " << p.offset(); });
}

template<uint D, typename P>
static void propSimplices(Src &s, Ctx &c) {
    typedef dSimplices<D, P> DS;
    std::ostringstream log;
    auto gen = [&](DS &a, std::vector<std::pair<tIdType, tIdType>> blocks, std::vector<tIdType> &ids) {
        size_t bi = 0;
        for (auto &b : blocks) {
            if (bi++) a.addBlock(b.first, b.second);
            for (tIdType id = b.first; id < b.second; ++id) {
                genSimplex(s, a.unsafe_at(id), s.chance(1, 4) ? dSimplex<D, P>::cINF : id);
                ids.push_back(id);
                if (s.chance(1, 3)) a.convexHull.push_back(id);
            }
        }
        a.mark = (tMarkType) s.draw(256);
    };
    auto blocks = [&]() {
        std::vector<std::pair<tIdType, tIdType>> b;
        size_t n = s.range(1, 4);
        tIdType at = s.pick({(tIdType) 0, (tIdType) 1, (tIdType) 1 << 40});
        for (size_t i = 0; i < n; ++i) {
            at += s.chance(1, 2) ? 0 : s.below(20);
            tIdType k = 1 + s.below(12);
            b.emplace_back(at, at + k);
            log << "[" << at << "," << at + k << ") ";
            at += k;
        }
        if (s.chance(1, 2)) std::swap(b.front(), b.back());
        return b;
    };
    auto bl = blocks();
    std::vector<tIdType> ids, ids2;
    DS a(bl[0].first, bl[0].second, 4);
    gen(a, bl, ids);
    auto eq = [&](const DS &x, const DS &y, const std::string &w) {
        VP_EQ((uint64_t) x.lowerBound(), (uint64_t) y.lowerBound(), "lower bound of the reloaded " << w << " " << log.str());
        VP_EQ((uint64_t) x.upperBound(), (uint64_t) y.upperBound(), "upper bound of the reloaded " << w << " " << log.str());
        VP_EQ((uint64_t) x.exact_size(), (uint64_t) y.exact_size(), "size of the reloaded " << w << " " << log.str());
        VP_CHECK(x.convexHull == y.convexHull, "hull list of the reloaded " << w << " " << log.str());
        VP_EQ((int) x.mark, (int) y.mark, "mark of the reloaded " << w << " " << log.str());
        for (tIdType id : ids) {
            VP_CHECK(y.unsafe_inRange(id), "simplex " << id << " is not in the reloaded " << w << " " << log.str());
            eqSimplex(x.unsafe_at(id), y.unsafe_at(id), w + " " + log.str());
            VP_EQ(y.unsafe_contains(id), x.unsafe_contains(id), "containment of " << id << " in the reloaded " << w);
        }
        std::vector<tIdType> i1, i2;
        for (auto &q : x) i1.push_back(q.id);
        for (auto &q : y) i2.push_back(q.id);
        VP_CHECK(i1 == i2, "iterating over the reloaded " << w);
        VP_CHECK(x.genFingerprint() == y.genFingerprint(), "fingerprint of the reloaded " << w);
    };
    DS r;
    if (s.chance(1, 2)) {
        auto b2 = blocks();
        DS t(b2[0].first, b2[0].second, 4);
        gen(t, b2, ids2);
        r = std::move(t);
    } else genSimplex(s, r.unsafe_at(0), 0);
    trip(s, a, r, eq, "simplex container");
    if (s.chance(1, 20)) tripFile(a, eq, "simplex container");
    c.nontrivial(bl.size() > 1);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

static void propIds(Src &s, Ctx &c) {
    Point_Ids p(s.pick({(size_t) 2, (size_t) 10, (size_t) 100})), r(s.pick({(size_t) 2, (size_t) 50}));
    std::set<tIdType> m;
    size_t n = s.length(0, 60);
    for (size_t i = 0; i < n; ++i) {
        tIdType id = s.chance(1, 4) ? dPoint<2, double>::cINF | s.below(4) : 1 + s.below(500);
        p.insert(id);
        m.insert(id);
    }
    r.insert(77);
    auto eq = [&](const Point_Ids &, const Point_Ids &y, const std::string &w) {
        std::multiset<tIdType> got;
        for (auto id : y) got.insert(id);
        VP_CHECK(got == std::multiset<tIdType>(m.begin(), m.end()), "ids of the reloaded " << w);
        VP_EQ((size_t) y.size(), m.size(), "size of the reloaded " << w);
        for (auto id : m) VP_CHECK(y.contains(id), "id " << id << " is not found in the reloaded " << w);
    };
    trip(s, p, r, eq, "id set");
    Partition<2, double> part(std::move(p)), q(std::size_t(4));
    part.id = s.below(100);
    part.bounds = dBox<2, double>(vec<2, double>(s), vec<2, double>(s));
    trip(s, part, q, [&](auto &x, auto &y, const std::string &w) {
        VP_EQ(x.id, y.id, "id of the reloaded " << w);
        VP_CHECK(x.bounds == y.bounds, "bounds of the reloaded " << w);
        eq(x.points, y.points, w);
    }, "partition");
    Bit_Set b(0, 100 + s.below(100)), b2(0, 10 + s.below(300));
    std::set<uint> bm;
    for (size_t i = 0; i < n; ++i) {
        uint id = s.below(100);
        b.insert(id);
        bm.insert(id);
    }
    b2.insert(3);
    trip(s, b, b2, [&](auto &, auto &y, const std::string &w) {
        std::vector<uint> got;
        for (auto id : y) got.push_back(id);
        VP_CHECK(got == std::vector<uint>(bm.begin(), bm.end()) && y.size() == bm.size(), "ids of the reloaded " << w);
    }, "bit set");
    c.nontrivial(n > 1);
    c.describe([&](std::ostream &o) { o << m.size() << " ids"; });
}

static Reg r1({"C32", "small-2d", propSmall<2, double>, 150000, 4000000, 20, "boxes, spheres, points and statistics of any finite coordinates, text and binary"});
static Reg r2({"C32", "small-3f", propSmall<3, float>, 150000, 4000000, 20, "the same in 3D single precision"});
static Reg r3({"C32", "simplex-2d", propSimplex<2, double>, 150000, 4000000, 20, "simplices with infinite vertices and deleted ones"});
static Reg r4({"C32", "simplex-3f", propSimplex<3, float>, 150000, 4000000, 20, "the same in 3D"});
static Reg r5({"C32", "points-2d", propPoints<2, double>, 150000, 4000000, 20, "point sets of 0-60 points with offset and infinite points; non-trivial: two points"});
static Reg r6({"C32", "points-3f", propPoints<3, float>, 150000, 4000000, 20, "the same in 3D single precision"});
static Reg r7({"C32", "simplices-2d", propSimplices<2, double>, 150000, 4000000, 20, "simplex containers of 1-4 blocks with deleted entries and hull list, loaded into fresh and used containers; non-trivial: two blocks"});
static Reg r8({"C32", "simplices-3f", propSimplices<3, float>, 150000, 4000000, 20, "the same in 3D"});
static Reg r9({"C32", "ids", propIds, 100000, 2000000, 20, "id sets, partitions and bit sets; non-trivial: two ids"});
int main(int argc, char **argv) { return vp_main(argc, argv); }
