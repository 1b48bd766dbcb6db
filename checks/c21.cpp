// C21: id-addressed vectors and point sets
#include "vp.hpp"
#include "Geometry.h"
#include "datastructures/VectorAdapter.hxx"
#include "datastructures/VectorAdapter2.hxx"
#include "datastructures/IndexedVector.hxx"

using namespace vp;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

// an element that carries its own identity, addressed like points of dimension D
template<uint D>
struct El {
    long v = 0;
    El() {}
    El(long x) : v(x) {}
    static bool isFinite(const tIdType &i) { return dPoint<D, double>::isFinite(i); }
    static tIdType infIndex(const tIdType &i) { return dPoint<D, double>::infIndex(i); }
    static constexpr tIdType nINF = dPoint<D, double>::nINF;
};

template<uint D>
static tIdType inf(tIdType k) {
    return dPoint<D, double>::cINF | k;
}

static size_t genOff(Src &s) { return s.pick({(size_t) 0, (size_t) 1, (size_t) 5, (size_t) 100, (size_t) 1 << 33}); }

template<uint D>
static void propVA2(Src &s, Ctx &c) {
    typedef VectorAdapter2<El<D>> VA;
    static_assert(El<D>::nINF == (1 << D), "number of infinite points");
    size_t off = genOff(s);
    VA a(off);
    std::vector<long> m;
    std::array<long, 1 << D> infs;
    infs.fill(0);
    long val = 0;
    std::ostringstream log;
    log << "offset " << off << ": ";
    auto chk = [&]() {
        const VA &ca = a;
        VP_EQ((size_t) a.offset(), off, "offset after " << log.str());
        VP_EQ((size_t) ca.finite_size(), m.size(), "finite_size after " << log.str());
        VP_EQ((size_t) ca.size(), m.size() + (1 << D), "size after " << log.str());
        for (size_t i = 0; i < m.size(); ++i) {
            VP_CHECK(ca.contains(off + i), "contains(" << off + i << ") after " << log.str());
            VP_EQ(ca[off + i].v, m[i], "element " << off + i << " after " << log.str());
            VP_EQ(a[off + i].v, m[i], "element " << off + i << " after " << log.str());
            VP_EQ(a.at(off + i).v, m[i], "element " << off + i << " after " << log.str());
            VP_EQ(ca.at(off + i).v, m[i], "element " << off + i << " after " << log.str());
        }
        for (tIdType k = 0; k < (1 << D); ++k) {
            VP_CHECK(ca.contains(inf<D>(k)), "contains(infinite " << k << ") after " << log.str());
            VP_EQ(ca[inf<D>(k)].v, infs[k], "infinite element " << k << " after " << log.str());
            VP_EQ(a[inf<D>(k)].v, infs[k], "infinite element " << k << " after " << log.str());
            VP_EQ(ca.at(inf<D>(k)).v, infs[k], "infinite element " << k << " after " << log.str());
        }
        for (size_t id : {off + m.size(), off + m.size() + 1, off + m.size() + s.below(1000), (size_t) (inf<D>(0) - 1)})
            VP_CHECK(!ca.contains(id), "contains(" << id << ") after " << log.str());
        if (off) VP_CHECK(!ca.contains(off - 1) && !ca.contains(s.below(off)), "contains an id below the offset after " << log.str());
        size_t n = 0;
        for (auto it = ca.begin(); it != ca.end(); ++it, ++n) VP_CHECK(n < m.size() && it->v == m[n], "iterated element " << n << " after " << log.str());
        VP_EQ(n, m.size(), "number of iterated elements after " << log.str());
        auto r = ca.range();
        VP_EQ((size_t) r.begin(), off, "start of the range after " << log.str());
        VP_EQ((size_t) r.end(), off + m.size(), "end of the range after " << log.str());
        // filter
        std::vector<tIdType> ids;
        std::vector<long> want;
        size_t q = s.below(6);
        for (size_t i = 0; i < q; ++i) {
            if (m.empty() || s.chance(1, 4)) {
                tIdType k = s.below(1 << D);
                ids.push_back(inf<D>(k));
                want.push_back(infs[k]);
            } else {
                size_t j = s.below(m.size());
                ids.push_back(off + j);
                want.push_back(m[j]);
            }
        }
        auto f1 = ca.template filter<std::vector<El<D>>>(ids);
        auto f2 = ca.template filter<std::vector<El<D>>>(ids.begin(), ids.end());
        std::vector<long> g1, g2;
        for (auto &e : f1) g1.push_back(e.v);
        for (auto &e : f2) g2.push_back(e.v);
        VP_CHECK(g1 == want && g2 == want, "filter does not yield the elements asked for after " << log.str());
    };
    size_t ops = s.length(1, 25);
    bool bulk = s.chance(1, 30);
    for (size_t o = 0; o < ops; ++o) {
        unsigned what = s.draw(9);
        if (what < 3) {
            ++val;
            log << "emplace_back ";
            if (s.chance(1, 2)) a.emplace_back(val);
            else a.emplace_back(El<D>(val));
            m.push_back(val);
            if (bulk) { // far beyond the first growth steps
                size_t n = s.below(400);
                bulk = false;
                log << "*" << 1 + n << " ";
                while (n--) {
                    a.emplace_back(++val);
                    m.push_back(val);
                }
            }
        } else if (what == 3 && !m.empty()) {
            size_t i = s.below(m.size());
            m[i] = ++val;
            log << "[" << off + i << "]= ";
            if (s.chance(1, 2)) a[off + i].v = val;
            else a.at(off + i).v = val;
        } else if (what == 4) {
            tIdType k = s.below(1 << D);
            infs[k] = ++val;
            log << "[inf " << k << "]= ";
            if (s.chance(1, 2)) a[inf<D>(k)].v = val;
            else a.at(inf<D>(k)).v = val;
        } else if (what == 5) {
            size_t n = s.below(m.size() + 10);
            log << "reserveUpToIdx(" << off + n << ") ";
            a.reserveUpToIdx(off + n);
            if (n > m.size()) m.resize(n, 0);
        } else if (what == 6) {
            size_t n = s.below(m.size() + 10);
            log << "resize(" << n << ") ";
            a.resize(n);
            m.resize(n, 0);
        } else if (what == 7) {
            std::vector<El<D>> ins;
            std::vector<long> iv;
            size_t n = s.below(4);
            for (size_t i = 0; i < n; ++i) {
                ins.emplace_back(++val);
                iv.push_back(val);
            }
            size_t at = s.below(m.size() + 1);
            log << "insert " << n << " at " << at << " ";
            a.insert(a.begin() + at, ins.begin(), ins.end());
            m.insert(m.begin() + at, iv.begin(), iv.end());
        } else {
            off = genOff(s);
            log << "offset(" << off << ") ";
            a.offset(off);
        }
        if (s.chance(1, 4)) chk();
    }
    chk();
    VA b(a);
    a = VA(off + 1);
    a = b;
    chk();
    c.nontrivial(m.size() > 1 && ops > 2);
    c.describe([&](std::ostream &d) { d << log.str(); });
}

// the older container keeps its infinite elements behind the finite ones
template<uint D>
static void propVA(Src &s, Ctx &c) {
    typedef VectorAdapter<El<D>> VA;
    const size_t nI = 1 << D;
    size_t off = genOff(s);
    VA a(off);
    std::vector<long> m;
    long val = 0;
    std::ostringstream log;
    log << "offset " << off << ": ";
    auto chk = [&]() {
        const VA &ca = a;
        VP_EQ((size_t) a.offset(), off, "offset after " << log.str());
        VP_EQ((size_t) ca.size(), m.size(), "size after " << log.str());
        if (m.size() < nI) return;
        size_t fin = m.size() - nI;
        VP_EQ((size_t) ca.finite_size(), fin, "finite_size after " << log.str());
        for (size_t i = 0; i < fin; ++i) {
            VP_CHECK(ca.contains(off + i), "contains(" << off + i << ") after " << log.str());
            VP_CHECK(ca[off + i].v == m[i] && a[off + i].v == m[i] && ca.at(off + i).v == m[i] && a.at(off + i).v == m[i],
                     "element " << off + i << " after " << log.str());
        }
        for (tIdType k = 0; k < nI; ++k) {
            VP_CHECK(ca.contains(inf<D>(k)), "contains(infinite " << k << ") after " << log.str());
            VP_CHECK(ca[inf<D>(k)].v == m[fin + k] && a[inf<D>(k)].v == m[fin + k] && ca.at(inf<D>(k)).v == m[fin + k],
                     "infinite element " << k << " after " << log.str());
        }
        for (size_t id : {off + fin, off + fin + 1, off + fin + s.below(1000)})
            VP_CHECK(!ca.contains(id), "contains(" << id << ") with " << fin << " finite elements after " << log.str());
        if (off) VP_CHECK(!ca.contains(off - 1), "contains an id below the offset after " << log.str());
        auto r = ca.range();
        VP_EQ((size_t) r.begin(), off, "start of the range after " << log.str());
        VP_EQ((size_t) r.end(), off + fin, "end of the range after " << log.str());
        size_t n = 0;
        for (auto it = ca.begin(); it != ca.end(); ++it, ++n) VP_CHECK(n < m.size() && it->v == m[n], "iterated element " << n << " after " << log.str());
        VP_EQ(n, m.size(), "number of iterated elements after " << log.str());
        std::vector<tIdType> ids;
        std::vector<long> want, g1, g2;
        for (size_t i = 0; i < 3; ++i) {
            size_t j = s.below(m.size());
            ids.push_back(j < fin ? off + j : inf<D>(j - fin));
            want.push_back(m[j]);
        }
        auto f1 = ca.template filter<std::vector<El<D>>>(ids);
        auto f2 = ca.template filter<std::vector<El<D>>>(ids.begin(), ids.end());
        for (auto &e : f1) g1.push_back(e.v);
        for (auto &e : f2) g2.push_back(e.v);
        VP_CHECK(g1 == want && g2 == want, "filter does not yield the elements asked for after " << log.str());
    };
    size_t ops = s.length(1, 30);
    for (size_t o = 0; o < ops; ++o) {
        unsigned what = s.draw(7);
        if (what < 4) {
            ++val;
            log << "emplace_back ";
            a.emplace_back(val);
            m.push_back(val);
        } else if (what == 4 && !m.empty()) {
            size_t i = s.below(m.size());
            if (m.size() < nI) continue;
            size_t fin = m.size() - nI;
            m[i] = ++val;
            a[i < fin ? off + i : inf<D>(i - fin)].v = val;
            log << "set " << i << " ";
        } else if (what == 5) {
            size_t n = s.below(m.size() + 10);
            log << "reserveEntries(" << n << ") ";
            a.reserveEntries(n);
            if (n > m.size()) m.resize(n, 0);
        } else if (what == 6) {
            std::vector<El<D>> ins{El<D>(val + 1), El<D>(val + 2)};
            size_t at = s.below(m.size() + 1);
            log << "insert 2 at " << at << " ";
            a.insert(a.begin() + at, ins.begin(), ins.end());
            m.insert(m.begin() + at, {val + 1, val + 2});
            val += 2;
        }
        if (s.chance(1, 4)) chk();
    }
    chk();
    c.nontrivial(m.size() > nI + 1);
    c.describe([&](std::ostream &d) { d << log.str(); });
}

static void propIV(Src &s, Ctx &c) {
    IndexedVector<long> a;
    std::vector<long> m;
    std::vector<const long *> addr;
    std::ostringstream log;
    size_t ops = s.length(1, 30);
    long val = 0;
    for (size_t o = 0; o < ops; ++o) {
        unsigned what = s.draw(6);
        if (what < 2) {
            a.insert(++val);
            m.push_back(val);
            log << "insert ";
        } else if (what == 2) {
            std::vector<long> v;
            size_t n = s.below(s.chance(1, 60) ? 300 : 5);
            for (size_t i = 0; i < n; ++i) v.push_back(++val);
            a.insert(v.begin(), v.end());
            m.insert(m.end(), v.begin(), v.end());
            log << "insert*" << n << " ";
        } else if (what == 3) {
            size_t n = s.below(m.size() + 20);
            a.grow(n);
            log << "grow(" << n << ") ";
            if (n > m.size()) m.resize(n, 0);
        } else if (what == 4) {
            size_t n = s.below(100);
            a.reserve(n);
            log << "reserve(" << n << ") ";
        } else if (!m.empty()) {
            size_t i = s.below(m.size());
            m[i] = ++val;
            (s.chance(1, 2) ? a[i] : a.at(i)) = val;
            log << "set " << i << " ";
        }
        const auto &ca = a;
        VP_EQ((size_t) ca.size(), m.size(), "size after " << log.str());
        for (size_t i = 0; i < m.size(); ++i) {
            VP_CHECK(ca[i] == m[i] && a[i] == m[i] && ca.at(i) == m[i] && a.at(i) == m[i], "element " << i << " after " << log.str());
            if (i < addr.size()) VP_CHECK(addr[i] == &ca[i], "element " << i << " moved after " << log.str());
            else addr.push_back(&ca[i]);
        }
    }
    const auto &ca = a;
    std::vector<long> it(ca.begin(), ca.end()), it2(a.begin(), a.end());
    VP_CHECK(it == m && it2 == m, "iteration differs after " << log.str());
    if (!m.empty()) {
        std::vector<size_t> ids;
        std::vector<long> want;
        size_t n = s.below(s.chance(1, 20) ? 300 : 8);
        for (size_t i = 0; i < n; ++i) {
            ids.push_back(s.below(m.size()));
            want.push_back(m[ids.back()]);
        }
        auto p1 = ca.project(ids);
        auto p2 = ca.template project<std::multiset<long>>(ids);
        VP_CHECK(std::vector<long>(p1.begin(), p1.end()) == want, "projection after " << log.str());
        VP_CHECK(p2 == std::multiset<long>(want.begin(), want.end()), "projection into a multiset after " << log.str());
        auto p3 = ca.project(ids.begin(), ids.end());
        VP_CHECK(std::vector<long>(p3.begin(), p3.end()) == want, "projection of an interval after " << log.str());
    }
    c.nontrivial(m.size() > 2);
    c.describe([&](std::ostream &d) { d << log.str(); });
}

template<uint D, typename P>
static void propPoints(Src &s, Ctx &c) {
    dPoints<D, P> p;
    size_t n = s.chance(1, 100) ? s.range(500, 3000) : s.length(0, 30);
    bool big = s.chance(1, 4);
    size_t off = big ? s.below(50) : 0;
    VP_EQ((size_t) p.finite_size(), (size_t) 1, "finite size of a fresh point set (the reserved id 0)");
    for (uint d = 0; d < D; ++d) VP_EQ(p[0].coords[d], (P) 0, "coordinates of the reserved point");
    for (size_t i = 0; i < n; ++i) {
        dVector<D, P> v;
        for (uint d = 0; d < D; ++d) v[d] = (P) (i * 10 + d);
        if (s.chance(1, 2)) p.emplace_back(v);
        else p.emplace_back(dPoint<D, P>(v));
    }
    p.offset(off);
    const auto &cp = p;
    VP_CHECK(!cp.contains(off), "the reserved id is contained");
    for (size_t i = 1; i <= n; ++i) {
        VP_CHECK(cp.contains(off + i), "point " << off + i << " of " << n << " is not contained, offset " << off);
        for (uint d = 0; d < D; ++d) VP_EQ(cp[off + i].coords[d], (P) ((i - 1) * 10 + d), "coordinates of point " << off + i);
    }
    for (size_t id : {off + n + 1, off + n + 2, off + n + 1000}) VP_CHECK(!cp.contains(id), "point " << id << " of " << n << " is contained, offset " << off);
    if (off) VP_CHECK(!cp.contains(off - 1), "an id below the offset is contained");
    for (tIdType k = 0; k < (1 << D); ++k) VP_CHECK(cp.contains(inf<D>(k)), "infinite point " << k << " is not contained");
    auto r = cp.range();
    VP_EQ((size_t) r.begin(), off + 1, "start of the range");
    VP_EQ((size_t) r.end(), off + n + 1, "end of the range");
    // comparison with id sets
    std::set<tIdType> ids;
    for (size_t i = 1; i <= n; ++i) ids.insert(off + i);
    for (tIdType k = 0; k < (1 << D); ++k) ids.insert(inf<D>(k));
    unsigned mut = s.draw(5);
    bool equal = true;
    if (mut == 1 && n) {
        ids.erase(off + 1 + s.below(n));
        equal = false;
    } else if (mut == 2) {
        ids.insert(off + n + 1 + s.below(4));
        equal = false;
    } else if (mut == 3) {
        ids.erase(inf<D>(s.below(1 << D)));
        equal = false;
    } else if (mut == 4 && n) {
        ids.erase(off + 1 + s.below(n));
        ids.insert(s.chance(1, 2) ? off + n + 1 : off);
        equal = false;
    }
    VP_EQ(cp == ids, equal, "comparison with " << ids.size() << " ids, mutation " << mut);
    VP_EQ(cp != ids, !equal, "comparison with " << ids.size() << " ids, mutation " << mut);
    Point_Ids pi(ids.size() + 4);
    for (auto id : ids)
        if (id) pi.insert(id);
    if (!ids.count(0)) VP_EQ(cp == pi, equal, "comparison with a hash set of " << ids.size() << " ids, mutation " << mut);
    c.nontrivial(n > 1);
    c.describe([&](std::ostream &o) { o << n << " points, offset " << off << ", mutation " << mut; });
}

template<uint D, typename P>
static void propFile(Src &s, Ctx &c) {
    char path[] = "/tmp/vp-c21-XXXXXX";
    int fd = mkstemp(path);
    if (fd < 0) throw Discard();
    close(fd);
    struct Rm {
        const char *p;
        ~Rm() { unlink(p); }
    } rm{path};
    size_t n = s.length(0, 40), before = s.chance(1, 3) ? s.below(4) : 0;
    char sep = s.pick({' ', ';', ',', '\t'});
    unsigned sign = s.draw(3);
    std::vector<dVector<D, P>> pts;
    std::ostringstream txt;
    for (size_t i = 0; i < n; ++i) {
        dVector<D, P> v;
        for (uint d = 0; d < D; ++d) {
            double x;
            switch (s.draw(4)) {
                case 0: x = (double) s.below(10); break;
                case 1: x = s.unit() * 1000; break;
                case 2: x = std::ldexp(1 + s.unit(), (int) s.range(-60, 60)); break;
                default: x = s.pick({0.0, 1e-30, 1e30, 0.1}); break;
            }
            if (sign == 1 || (sign == 2 && s.chance(1, 2))) x = -x;
            v[d] = (P) x;
            char buf[64];
            snprintf(buf, sizeof buf, s.chance(1, 2) ? "%.17g" : "%.20e", (double) v[d]);
            txt << (d ? std::string(1, sep) : "") << buf;
        }
        pts.push_back(v);
        txt << ((i + 1 < n || s.chance(3, 4)) ? "\n" : "");
    }
    std::ofstream(path) << txt.str();
    dPoints<D, P> p;
    for (size_t i = 0; i < before; ++i) {
        dVector<D, P> v;
        v.fill((P) (1e6 + i));
        p.emplace_back(v);
    }
    dBox<D, P> b = sep == ' ' && s.chance(1, 2) ? p.loadFromFile(path) : p.loadFromFile(path, sep);
    VP_EQ((size_t) p.finite_size(), 1 + before + n, "number of points after loading " << txt.str());
    for (size_t i = 0; i < n; ++i)
        for (uint d = 0; d < D; ++d) VP_EQ(p[1 + before + i].coords[d], pts[i][d], "point " << i << " coordinate " << d << " of " << txt.str());
    for (size_t i = 0; i < before; ++i) VP_EQ(p[1 + i].coords[0], (P) (1e6 + i), "point there before loading");
    if (n)
        for (uint d = 0; d < D; ++d) {
            P lo = pts[0][d], hi = pts[0][d];
            for (auto &v : pts) {
                lo = std::min(lo, v[d]);
                hi = std::max(hi, v[d]);
            }
            VP_EQ(b.low[d], lo, "lower bound in dimension " << d << " of\n" << txt.str());
            VP_EQ(b.high[d], hi, "upper bound in dimension " << d << " of\n" << txt.str());
        }
    c.nontrivial(n > 1);
    c.describe([&](std::ostream &o) { o << txt.str(); });
}

static Reg r1({"C21", "vector-adapter2-2d", propVA2<2>, 400000, 15000000, 20, "stores, growth, insertion and offsets on the id-addressed vector against a list; non-trivial: more than one finite element"});
static Reg r2({"C21", "vector-adapter2-3d", propVA2<3>, 400000, 15000000, 20, "the same with 8 infinite elements"});
static Reg r3({"C21", "vector-adapter", propVA<2>, 400000, 15000000, 20, "the older container, infinite elements last; non-trivial: at least two finite elements"});
static Reg r4({"C21", "indexed-vector", propIV, 200000, 5000000, 20, "growth, insertion and projection of the index vector; non-trivial: at least three elements"});
static Reg r5({"C21", "points-2d", propPoints<2, double>, 400000, 10000000, 20, "containment, ranges and id set comparison of point sets; non-trivial: two points"});
static Reg r6({"C21", "points-3f", propPoints<3, float>, 400000, 10000000, 20, "the same in 3D single precision"});
static Reg r7({"C21", "file-2d", propFile<2, double>, 100000, 4000000, 20, "text files of points of any sign and magnitude; non-trivial: two points"});
static Reg r8({"C21", "file-3f", propFile<3, float>, 100000, 4000000, 20, "the same in 3D single precision"});
int main(int argc, char **argv) { return vp_main(argc, argv); }
