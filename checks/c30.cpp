// C30 point generators, C31 spatial sort
#include <malloc.h>
#include <mutex>
#include "load_balancing/VectorOperations.h"
#include "load_balancing/UnboundBubbleGenerator.h"
#include "load_balancing/PatchBubbleGenerator.h"
#include "load_balancing/MaliciousBubbleGenerator.h"
#include "vp.hpp"
#include "points.hpp"
#include "SpatialSort.h"
#include "mods/Multiscale_sort.h"
using namespace vp;
using namespace LoadBalancing;

template<class V>
static std::string show(const V &v) {
    std::ostringstream o;
    o.precision(18);
    for (size_t d = 0; d < v.size(); ++d) o << (d ? " " : "(") << v[d];
    o << ")";
    return o.str();
}

template<uint D, typename P>
static std::vector<dVector<D, P>> coords(const dPoints<D, P> &p) {
    std::vector<dVector<D, P>> r;
    for (size_t i = 1; i < p.finite_size(); ++i) r.push_back(p[i].coords);
    return r;
}

template<uint D, typename P>
static double pathLength(const std::vector<dVector<D, P>> &v) {
    double l = 0;
    for (size_t i = 1; i < v.size(); ++i) { double q = 0; for (uint d = 0; d < D; ++d) { double t = (double) v[i][d] - v[i - 1][d]; q += t * t; } l += std::sqrt(q); }
    return l;
}

template<uint D, typename P>
static dBox<D, P> genBox(Src &s, Ctx &c, bool flat) {
    dBox<D, P> b;
    int k = (int) s.draw(4);
    for (uint d = 0; d < D; ++d) {
        double lo, e;
        switch (k) {
            case 0: lo = 0; e = 100; break;                                                                   // what the programs use
            case 1: lo = s.range<int>(-1000, 1000) / 8.0; e = s.range<int>(1, 800) / 8.0; break;
            case 2: lo = (s.unit() * 2 - 1) * std::exp2(s.range<int>(-10, 20)); e = (s.unit() + 0.01) * std::exp2(s.range<int>(-10, 20)); break;
            default: lo = (s.unit() * 2 - 1) * std::exp2(s.range<int>(0, 20)); e = 0; break;                   // a few units in the last place
        }
        b.low[d] = (P) lo;
        b.high[d] = (P) (lo + e);
        if (k == 3) { b.high[d] = b.low[d]; for (int i = s.range<int>(1, 20); i-- > 0;) b.high[d] = std::nextafter(b.high[d], std::numeric_limits<P>::max()); }
        if (!(b.high[d] > b.low[d])) b.high[d] = std::nextafter(b.low[d], std::numeric_limits<P>::max());
    }
    if (flat && s.chance(1, 16)) { uint d = (uint) s.below(D); b.high[d] = b.low[d]; c.label("flat box"); }
    static const char *nm[] = {"0..100", "eighths", "any box", "tiny box"};
    c.label(nm[k]);
    return b;
}

template<uint D, typename P>
static void generators(Src &s, Ctx &c, size_t hi) {
    int kind = (int) s.draw(8);
    static const char *names[] = {"uniform", "normal", "bubble", "ellipsoid", "skew line", "unbound bubble", "patch bubble", "malicious bubble"};
    c.label(names[kind]);
    size_t n = s.length(0, hi);
    auto box = genBox<D, P>(s, c, kind < 5);
    P minExt = std::numeric_limits<P>::max(), maxAbs = 0;
    for (uint d = 0; d < D; ++d) {
        minExt = std::min<P>(minExt, box.high[d] - box.low[d]);
        maxAbs = std::max<P>(maxAbs, std::max(std::abs(box.low[d]), std::abs(box.high[d])));
    }
    size_t nb = 2 + s.draw(70);
    P radius = minExt / 2 * (P) s.pick({0.5, 0.1, 1.0, 0.01});
    if (kind == 5 && s.chance(1, 8)) nb = 1;
    std::unique_ptr<PointGenerator<D, P>> g;
    if (kind < 5) g = GeneratorFactory<D, P>::make("unbel"[kind]);
    else if (kind == 5) g = std::make_unique<UnboundBubbleGenerator<D, P>>(nb, radius);
    else if (kind == 6) g = std::make_unique<PatchBubbleGenerator<D, P>>(nb);
    else g = std::make_unique<MaliciousBubbleGenerator<D, P>>(nb);
    unsigned seed = (unsigned) s.draw(1 << 30);
    c.describe([&](std::ostringstream &o) {
        o << names[kind] << " " << D << "D n " << n << " box " << show(box.low) << " " << show(box.high) << " seed " << seed;
        if (kind >= 5) o << " bubbles " << nb << " radius " << radius;
    });

    tGenerator r1(seed), r2(seed), r3(seed + 1);
    auto a = g->generate(n, box, r1);
    VP_EQ(a.finite_size(), n + 1, "not the requested number of points (and the reserved one)");
    VP_EQ(a.offset(), 0u, "offset");
    for (uint d = 0; d < D; ++d) VP_CHECK(a[0].coords[d] == 0, "the reserved point was written " << show(a[0].coords));
    auto va = coords<D, P>(a);
    for (auto &v : va) {
        for (auto x : v) VP_CHECK(std::isfinite(x), "undefined point " << show(v));
        VP_CHECK(box.contains(v), "point " << show(v) << " outside of the box");
    }
    // same seed, same points; the second draw continues the sequence
    auto b = g->generate(n, box, r2);
    VP_CHECK((va == coords<D, P>(b)), "the same seed gives different points");
    bool fine = minExt > maxAbs * std::exp2((P) -10);  // enough numbers in the box
    bool bubbleInside = kind != 7; // the malicious bubbles on the border of the box are single points
    if (kind == 7) { // is there a point of an inner bubble?
        size_t per = (size_t) std::ceil(std::pow((double) nb, 1.0 / D));
        size_t inner = 0;
        for (size_t i = 0; i < nb; ++i) { size_t k = i; bool in = true; for (uint d = 0; d < D; ++d) { in &= (k % per) != 0; k /= per; } inner += in; }
        bubbleInside = inner > 0 && n >= 4 * nb;
    }
    if (n >= 3 && fine && bubbleInside) {
        auto a2 = g->generate(n, box, r1), e = g->generate(n, box, r3);
        VP_CHECK((coords<D, P>(a2) != va), "a generator's second call returns the same points again");
        VP_CHECK((coords<D, P>(e) != va), "another seed gives the same points");
        c.nontrivial();
    }
    if (!fine || !n) return;
    // the distribution's shape
    double tol = std::is_same<P, float>::value ? 1e-2 : 1e-6;
    double ext[D], mid[D];
    for (uint d = 0; d < D; ++d) { ext[d] = (double) box.high[d] - box.low[d]; mid[d] = box.low[d] + ext[d] / 2; }
    if (kind == 3)
        for (auto &v : va) {
            double q = 0;
            for (uint d = 0; d < D; ++d) { double x = (v[d] - mid[d]) / (.45 * ext[d]); q += x * x; }
            VP_CHECK(std::fabs(q - 1) < tol * 10, "point " << show(v) << " is not on the ellipsoid");
        }
    if (kind == 4) {
        // segments from (low, y raised by a tenth) to high and between the other corners
        size_t on[2] = {0, 0};
        for (auto &v : va) {
            double dev[2] = {0, 0};
            double r0 = (v[0] - (double) box.low[0]) / ext[0];
            for (uint d = 0; d < D; ++d) {
                double t = (v[d] - (double) box.low[d]) / ext[d];
                dev[0] = std::max(dev[0], std::fabs(t - (d == 1 ? .1 + .9 * r0 : r0)));
                dev[1] = std::max(dev[1], std::fabs(t - (d == 0 ? r0 : 1 - r0)));
            }
            VP_CHECK(std::min(dev[0], dev[1]) < tol, "point " << show(v) << " is on neither line");
            if (dev[0] < tol && dev[1] >= tol) ++on[0];
            if (dev[1] < tol && dev[0] >= tol) ++on[1];
        }
        size_t odd = n - on[0] - on[1];
        VP_CHECK(on[0] + odd >= n / 2 && on[1] + odd >= n / 2, "points on the lines " << on[0] << " " << on[1] << " of " << n);
    }
    if (kind == 7) { // a lattice of bubbles from the lower corner of the box, equal shares
        size_t per = 1;
        while (D == 2 ? per * per < nb : per * per * per < nb) ++per;
        std::vector<size_t> cnt(nb);
        size_t stray = 0;
        std::set<size_t> border;
        for (size_t i = 0; i < nb; ++i) { size_t k = i; for (uint d = 0; d < D; ++d) { if (k % per == 0) border.insert(i); k /= per; } }
        for (auto &v : va) {
            size_t at = 0, mul = 1;
            double off = 0;
            for (uint d = 0; d < D; ++d) {
                double x = (v[d] - (double) box.low[d]) / ext[d] * (double) per, q = std::round(x);
                if (q > (double) per - 1) q = (double) per - 1;
                off = std::max(off, std::fabs(x - q));
                at += mul * (size_t) q;
                mul *= per;
            }
            if (at >= nb) { ++stray; continue; }
            stray += border.count(at) && off > 1e-3; // from the tails of inner bubbles, four deviations away
            ++cnt[at];
        }
        VP_CHECK(stray <= 2 + n / 200, stray << " of " << n << " points are off the bubbles");
        for (size_t i = 0; i < nb; ++i) {
            double share = (double) n / (double) nb, slack = border.size() == nb ? 1.001 : 3.001 + 0.02 * share;
            VP_CHECK(std::fabs((double) cnt[i] - share) <= slack, "bubble " << i << " of " << nb << " holds " << cnt[i] << " of " << n << " points");
        }
        c.label(border.size() < nb ? "inner malicious bubbles" : "malicious bubbles on the border");
    }
    if (n >= 300 && (kind < 3)) {
        auto sh = va;
        std::mt19937 g(1);
        std::shuffle(sh.begin(), sh.end(), g);
        VP_CHECK((pathLength<D, P>(va) < 0.6 * pathLength<D, P>(sh)), "successive points are as far from each other as in random order");
    }
    if ((kind == 0 || kind == 2) && n >= 1000) {
        std::vector<size_t> cnt(1u << D);
        for (auto &v : va) { uint o = 0; for (uint d = 0; d < D; ++d) if (v[d] > mid[d]) o |= 1u << d; ++cnt[o]; }
        for (size_t o = 0; o < cnt.size(); ++o)
            VP_CHECK(cnt[o] >= n / cnt.size() / 3 && cnt[o] <= n / cnt.size() * 3, "orthant " << o << " holds " << cnt[o] << " of " << n << " points");
    }
    if (kind == 1 && n >= 400)
        for (uint d = 0; d < D; ++d) {
            double m = 0, v2 = 0;
            for (auto &v : va) { double t = (v[d] - mid[d]) / ext[d]; m += t; v2 += t * t; }
            m /= n;
            v2 /= n;
            // a normal distribution cut off at one standard deviation: variance 0.291 * 0.25
            VP_CHECK(std::fabs(m) < 0.15 && v2 > 0.045 && v2 < 0.1, "dimension " << d << " mean " << m << " variance " << v2);
        }
    if (kind == 5) {
        // greedy count: points of one bubble lie within 2 r of each other
        std::vector<dVector<D, P>> rep;
        for (auto &v : va) {
            bool f = false;
            for (auto &q : rep) {
                bool in = true;
                for (uint d = 0; d < D; ++d) in &= std::fabs((double) v[d] - q[d]) <= 2 * radius * (1 + tol) + maxAbs * 1e-6;
                if (in) { f = true; break; }
            }
            if (!f) rep.push_back(v);
        }
        VP_CHECK(rep.size() <= nb, "the points lie in " << rep.size() << " bubbles");
    }
}
template<uint D, typename P> static void genSmall(Src &s, Ctx &c) { generators<D, P>(s, c, 60); }
template<uint D, typename P> static void genBig(Src &s, Ctx &c) { generators<D, P>(s, c, 3000); }

// second and fourth moment of a normal distribution with mean m and deviation sd, cut off at -1/2 and 1/2
static void cutNormal(double m, double sd, double &m2, double &m4) {
    double w = 0, a = 0, b = 0;
    const int N = 20000;
    for (int i = 0; i < N; ++i) {
        double x = (i + 0.5) / N - 0.5, z = (x - m) / sd, f = std::exp(-z * z / 2);
        w += f, a += f * x * x, b += f * x * x * x * x;
    }
    m2 = a / w, m4 = b / w;
}

// many points: moments of the named distributions, as fractions of the box
template<uint D, typename P>
static void moments(Src &s, Ctx &c) {
    int kind = (int) s.draw(5);
    static const char *names[] = {"uniform", "normal", "bubble", "ellipsoid", "skew line"};
    c.label(names[kind]);
    size_t n = 60000 + s.draw(1000);
    dBox<D, P> box;
    for (uint d = 0; d < D; ++d) box.low[d] = (P) s.range<int>(-100, 100), box.high[d] = box.low[d] + (P) s.range<int>(1, 200);
    unsigned seed = (unsigned) s.draw(1 << 30);
    c.describe([&](std::ostringstream &o) { o << names[kind] << " " << D << "D n " << n << " box " << show(box.low) << " " << show(box.high) << " seed " << seed; });
    tGenerator r(seed);
    auto v = coords<D, P>(GeneratorFactory<D, P>::make("unbel"[kind])->generate(n, box, r));
    double m1[D] = {}, m2[D] = {}, m4[D] = {}, mx[D] = {};
    for (auto &x : v)
        for (uint d = 0; d < D; ++d) {
            double t = (x[d] - (double) box.low[d]) / ((double) box.high[d] - box.low[d]) - 0.5, u = (x[(d + 1) % D] - (double) box.low[(d + 1) % D]) / ((double) box.high[(d + 1) % D] - box.low[(d + 1) % D]) - 0.5;
            m1[d] += t / n, m2[d] += t * t / n, m4[d] += t * t * t * t / n, mx[d] += t * u / n;
        }
    double w2 = 1.0 / 12, w4 = 1.0 / 80;
    if (kind == 1) cutNormal(0, 0.5, w2, w4);
    if (kind == 2) cutNormal(0.25, 0.25, w2, w4);
    if (kind == 3) w2 = .45 * .45 / D, w4 = std::pow(.45, 4) * (D == 2 ? 3.0 / 8 : 1.0 / 5);
    double sd = std::sqrt(std::max(w4 - w2 * w2, 0.0) / (double) n) * 7 + 1e-4;
    if (kind != 4)
        for (uint d = 0; d < D; ++d) {
            VP_CHECK(std::fabs(m1[d]) < 7 * std::sqrt(w2 / (double) n) + 1e-4, "dimension " << d << " mean " << m1[d]);
            VP_CHECK(std::fabs(m2[d] - w2) < sd, "dimension " << d << " second moment " << m2[d] << " expected " << w2);
            VP_CHECK(std::fabs(m4[d] - w4) < sd, "dimension " << d << " fourth moment " << m4[d] << " expected " << w4);
            VP_CHECK(std::fabs(mx[d]) < 7 * w2 / std::sqrt((double) n) + 1e-4, "dimension " << d << " correlated with the next by " << mx[d]);
        }
    else // positions on the lines evenly spread: the first coordinate is the parameter on one line and its mirror on the other
        VP_CHECK(std::fabs(m1[0]) < 7 * std::sqrt(w2 / (double) n) + 1e-4 && std::fabs(m2[0] - w2) < 3 * sd && std::fabs(m4[0] - w4) < 3 * sd, "points on the lines not evenly spread: mean " << m1[0] << " second moment " << m2[0] << " fourth " << m4[0]);
    c.nontrivial();
}

struct Owned : UniformPointGenerator<2, double> {
    bool &gone;
    Owned(bool &g) : gone(g) {}
    ~Owned() { gone = true; }
};
static void ownership(Src &s, Ctx &c) {
    bool gone = false;
    std::unique_ptr<PointGenerator<2, double>> g = std::make_unique<Owned>(gone);
    dBox<2, double> b;
    b.low.fill(0);
    b.high.fill(1);
    tGenerator r((unsigned) s.draw(1000));
    VP_EQ(g->generate(3, b, r).finite_size(), 4u, "number of points");
    g.reset();
    VP_CHECK(gone, "deleting a generator through its base class does not destroy it");
    c.nontrivial();
    c.describe([&](std::ostringstream &o) { o << "a derived generator"; });
}

// the index of the bubble must not be rounded up to the number of bubbles
template<typename P>
struct Raw : UnboundBubbleGenerator<2, P> {
    using UnboundBubbleGenerator<2, P>::UnboundBubbleGenerator;
    void raw(dPoints<2, P> &p, size_t n, const dBox<2, P> &b, tGenerator &g) const { this->_gen(p, n, b, g); }
};
static void hugeCount(Src &s, Ctx &c) {
    size_t n = (1u << 24) + s.draw(1 << 20), nb = 2 + s.draw(100);
    dPoints<2, float> p;
    p.reserveUpToIdx(n + 1);
    dBox<2, float> b;
    b.low = {{-8, 4}};
    b.high = {{24, 60}};
    tGenerator g((unsigned) s.draw(1 << 20));
    Raw<float> u(nb, 2);
    u.raw(p, n, b, g);
    c.nontrivial();
    c.describe([&](std::ostringstream &o) { o << n << " points, " << nb << " bubbles"; });
    for (size_t i = n - 1000; i <= n; ++i) VP_CHECK(b.contains(p[i].coords), "point " << i << " of " << n << " " << show(p[i].coords) << " outside of the box");
    dVector<2, float> lo = p[n].coords, hi = lo;
    for (size_t i = n - n / nb / 2; i <= n; ++i)
        for (uint d = 0; d < 2; ++d) { lo[d] = std::min(lo[d], p[i].coords[d]); hi[d] = std::max(hi[d], p[i].coords[d]); }
    for (uint d = 0; d < 2; ++d) VP_CHECK(hi[d] - lo[d] <= 4.001f, "the last bubble is larger than its radius");
}

// ---------------------------------------------------------------- C31
template<uint D, typename P>
static void sorting(Src &s, Ctx &c, size_t hi) {
    CloudOpt o;
    o.degenerate = true;
    auto C = genCloud<D, P>(s, c, s.length(0, hi), o);
    auto mk = [&] {
        dPoints<D, P> p;
        for (size_t i = 1; i <= C.n; ++i) p.emplace_back(dPoint<D, P>(C.pts[C.pts.offset() + i].coords));
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) { dVector<D, P> v; v.fill((P) (k & 7)); p[k].coords = v; }
        return p;
    };
    auto a = mk();
    if (C.n && s.chance(1, 3)) { // points more than once
        size_t m = s.range<int>(1, 5);
        for (size_t i = 0; i < m; ++i) a.emplace_back(a[1 + s.below(C.n)]);
        c.label("repeated points");
    }
    if (s.chance(1, 8)) for (size_t i = 1; i < a.finite_size(); ++i) a[i].coords[0] = -0.0;
    auto in = coords<D, P>(a);
    auto b = a;
    c.describe([&](std::ostringstream &out) { out << in.size() << " points " << D << "D"; });
    CGALSpatialSorter<D, P> so;
    SpatialSorter<D, P> &base = so;
    base.sort(a);
    VP_EQ(a.finite_size(), in.size() + 1, "number of points");
    for (auto x : a[0].coords) VP_CHECK(x == 0, "the reserved point moved");
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) for (auto x : a[k].coords) VP_CHECK(x == (P) (k & 7), "infinite point " << k << " changed");
    auto out = coords<D, P>(a);
    {
        auto x = in, y = out;
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        VP_CHECK(x == y, "not a permutation of the points");
    }
    CGALSpatialSorter<D, P> so2;
    so2.sort(b);
    VP_CHECK((out == coords<D, P>(b)), "two runs on the same points differ");
    if (in.size() >= 2) c.nontrivial();
    if (in.size() >= 300) {
        // sorted points are near their successors: the path is far shorter than one in random order
        auto sh = out;
        std::mt19937 g(1);
        std::shuffle(sh.begin(), sh.end(), g);
        double lr = pathLength<D, P>(sh), ls = pathLength<D, P>(out);
        c.label("path length judged");
        VP_CHECK(lr == 0 || ls < 0.6 * lr, "the path through the sorted points is " << ls << " long, through random order " << lr);
    }
}
template<uint D, typename P> static void sortSmall(Src &s, Ctx &c) { sorting<D, P>(s, c, 40); }
template<uint D, typename P> static void sortBig(Src &s, Ctx &c) { sorting<D, P>(s, c, 3000); }

// the multiscale wrapper: every element is sorted by exactly one call of the inner sort
struct Calls {
    std::mutex m;
    std::vector<std::pair<const int *, const int *>> r;
};
struct Inner {
    Calls *c;
    void operator()(std::vector<int>::iterator b, std::vector<int>::iterator e) const {
        std::sort(b, e);
        std::lock_guard<std::mutex> l(c->m);
        c->r.emplace_back(&*b, &*b + (e - b));
    }
};
static void multiscale(Src &s, Ctx &c) {
    size_t n = s.length(0, 400);
    std::vector<int> v(n), w;
    for (auto &x : v) x = s.range<int>(0, 100);
    w = v;
    double ratio = s.pick({0.5, 0.25, 0.125, 0.1, 0.75, 0.9});
    if (s.chance(1, 6)) ratio = s.pick({0.0, 1.0});
    std::ptrdiff_t thr = std::max<std::ptrdiff_t>(1 + (std::ptrdiff_t) s.draw(60), n / 12);
    if (n < 20 && s.chance(1, 2)) thr = 1;
    c.describe([&](std::ostringstream &o) { o << n << " elements, threshold " << thr << ", ratio " << ratio; });
    v.reserve(n + 1);
    Calls calls;
    CGAL::Multiscale_sort<Inner> ms(Inner{&calls}, thr, ratio);
    ms(v.begin(), v.end());
    auto x = w, y = v;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    VP_CHECK(x == y, "not a permutation");
    std::sort(calls.r.begin(), calls.r.end());
    const int *at = v.data();
    for (auto &p : calls.r) {
        if (p.first == p.second) continue;
        VP_CHECK(p.first == at, "the inner sort was given ranges that overlap or leave elements out");
        at = p.second;
        VP_CHECK(std::is_sorted(p.first, p.second), "a range was changed after it had been sorted");
        std::multiset<int> was(w.begin() + (p.first - v.data()), w.begin() + (p.second - v.data())), is(p.first, p.second);
        VP_CHECK(was == is, "elements left their range");
    }
    VP_CHECK(at == v.data() + n, "elements were not sorted");
    if (n >= 2) c.nontrivial();
}

static const char *RG = "three or more points, box with enough representable numbers, seeds compared";
static Reg g1({"C30", "2D double", genSmall<2, double>, 20000, 300000, 20, RG});
static Reg g2({"C30", "3D double", genSmall<3, double>, 20000, 300000, 20, RG});
static Reg g3({"C30", "2D float", genSmall<2, float>, 10000, 200000, 20, RG});
static Reg g4({"C30", "3D float", genSmall<3, float>, 10000, 200000, 20, RG});
static Reg g5({"C30", "many points 2D double", genBig<2, double>, 1500, 30000, 20, RG});
static Reg g6({"C30", "many points 3D float", genBig<3, float>, 1500, 30000, 20, RG});
static Reg g9({"C30", "moments 2D double", moments<2, double>, 40, 1000, 60, "all"});
static Reg g10({"C30", "moments 3D float", moments<3, float>, 40, 1000, 60, "all"});
static Reg g7({"C30", "huge number of points", hugeCount, 2, 20, 120, "all", false, 2});
static Reg g8({"C30", "ownership", ownership, 20, 100, 10, "all"});
static const char *RS = "two or more points";
static Reg s1({"C31", "sort 2D double", sortSmall<2, double>, 10000, 200000, 20, RS});
static Reg s2({"C31", "sort 3D double", sortSmall<3, double>, 10000, 200000, 20, RS});
static Reg s3({"C31", "sort 2D float", sortSmall<2, float>, 5000, 100000, 20, RS});
static Reg s4({"C31", "sort 3D float", sortSmall<3, float>, 5000, 100000, 20, RS});
static Reg s5({"C31", "sort many 2D double", sortBig<2, double>, 1500, 20000, 20, RS});
static Reg s6({"C31", "sort many 3D float", sortBig<3, float>, 1500, 20000, 20, RS});
static Reg s7({"C31", "multiscale", multiscale, 1500, 20000, 30, RS});

int main(int argc, char **argv) {
    mallopt(M_PERTURB, 1); // undefined coordinates become huge numbers
    return vp_main(argc, argv);
}
