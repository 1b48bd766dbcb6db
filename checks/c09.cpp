// C09: simplex geometry against exact and extended precision references
#include "vp.hpp"
#define PARDETRIA_VERIF_CGAL
#include "points.hpp"
#include "tri.hpp"
#include "CGALTriangulator.h"
#include "utils/Logger.h"

using namespace vp;
static PerCase pc([](uint64_t) { LOGGER.setLogLevel(Logger::Verbosity::SILENT); resetGlobals(); });
typedef __float128 Q;

template<uint D> using Vq = std::array<Q, D>;
template<uint D> static Q dotq(const Vq<D> &a, const Vq<D> &b) { Q r = 0; for (uint d = 0; d < D; ++d) r += a[d] * b[d]; return r; }
static Q sqrtq_(Q x) { // good enough: two Newton steps on the double root of a scaled value
    if (x <= 0) return 0;
    int e = 0;
    while (x > (Q) 1e200) x /= (Q) 1.6069380442589903e60 /* 2^200 */, e += 100;
    while (x < (Q) 1e-200) x *= (Q) 1.6069380442589903e60, e -= 100;
    Q r = std::sqrt((double) x);
    for (int i = 0; i < 3; ++i) r = (r + x / r) / 2;
    while (e > 0) r *= 2, --e;
    while (e < 0) r /= 2, ++e;
    return r;
}
static Q absq(Q x) { return x < 0 ? -x : x; }
template<uint D, typename P>
static Vq<D> diffq(const dVector<D, P> &a, const dVector<D, P> &b) { Vq<D> r; for (uint d = 0; d < D; ++d) r[d] = (Q) a[d] - (Q) b[d]; return r; }

template<uint D, typename P>
struct Case {
    dPoints<D, P> pts;
    dSimplex<D, P> s;
    std::array<dVector<D, P>, D + 1> v;
    double scale = 1;   // extent of the simplex
    double shift = 0;   // largest translation in multiples of it
    bool grid = false;
    std::array<double, D> tr{};
};

template<uint D, typename P>
static Case<D, P> genSimplex(Src &s, Ctx &c) {
    constexpr bool F = std::is_same<P, float>::value;
    Case<D, P> C;
    unsigned kind = s.draw(5);
    static const char *names[] = {"random", "flat", "short edge", "grid", "nearly collinear"};
    c.label(names[kind]);
    C.grid = kind == 3;
    std::array<std::array<double, D>, D + 1> x;
    auto unit = [&]() { return (double) s.draw(F ? 1 << 20 : 1 << 30) / (F ? 1 << 20 : 1 << 30); };
    for (auto &p : x) for (auto &y : p) y = C.grid ? (double) s.draw(6) : unit();
    double thin = std::ldexp(1.0, -(int) s.draw(F ? 8 : 20));
    if (kind == 1) for (auto &p : x) p[D - 1] = p[0] * 0.5 + thin * p[D - 1];
    if (kind == 2) for (uint d = 0; d < D; ++d) x[1][d] = x[0][d] + thin * x[1][d];
    if (kind == 4) for (uint i = 2; i <= D; ++i) {
        double t = unit() * 2 - 0.5;
        for (uint d = 0; d < D; ++d) x[i][d] = x[0][d] + t * (x[1][d] - x[0][d]) + thin * x[i][d];
    }
    int sc = s.chance(1, 3) ? s.range<int>(F ? -12 : -100, F ? 12 : 100) : 0;
    if (s.chance(1, 3)) {
        double m = s.pick({1.0, 16.0, F ? 64.0 : 4096.0});
        for (auto &y : C.tr) y = C.grid ? std::round((s.unit() * 2 - 1) * m) : (unit() * 2 - 1) * m;
        c.label("translated");
    }
    C.scale = std::ldexp(1.0, sc);
    for (uint i = 0; i <= D; ++i)
        for (uint d = 0; d < D; ++d) C.v[i][d] = (P) ((x[i][d] + C.tr[d]) * C.scale);
    if (ex::orient<D, dVector<D, P>>(C.v) == 0) throw Discard();
    // ids in arbitrary, but ascending places
    size_t n = D + 1 + s.draw(3);
    std::vector<tIdType> ids;
    for (size_t i = 1; i <= n; ++i) ids.push_back(i);
    while (ids.size() > D + 1) ids.erase(ids.begin() + s.below(ids.size()));
    for (size_t i = 1; i <= n; ++i) C.pts.emplace_back(dPoint<D, P>(dVector<D, P>{}));
    C.s.id = 1;
    if (s.chance(1, 8)) ids[D] = tIdType(dPoint<D, P>::cINF) + s.draw((1u << D) - 1);
    if (!dPoint<D, P>::isFinite(ids[D])) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) C.pts[k] = dPoint<D, P>(dVector<D, P>{});
    for (uint i = 0; i <= D; ++i) {
        C.pts[ids[i]] = dPoint<D, P>(C.v[i]);
        C.s.vertices[i] = ids[i];
        C.s.neighbors[i] = dSimplex<D, P>::cINF;
    }
    C.s.genFingerprint();
    return C;
}

template<uint D, typename P>
static dPoint<D, P> genPoint(Src &s, const Case<D, P> &C) {
    constexpr bool F = std::is_same<P, float>::value;
    dPoint<D, P> p;
    auto unit = [&]() { return (double) s.draw(F ? 1 << 20 : 1 << 30) / (F ? 1 << 20 : 1 << 30); };
    switch (s.draw(6)) {
        case 0: { // combination of the vertices
            double w[D + 1], sum = 0;
            for (auto &y : w) sum += y = unit() * (s.chance(1, 4) ? -1 : 1);
            if (std::fabs(sum) < 0.05) sum = 1;
            for (uint d = 0; d < D; ++d) {
                double x = 0;
                for (uint i = 0; i <= D; ++i) x += w[i] / sum * C.v[i][d];
                p.coords[d] = (P) x;
            }
            break;
        }
        case 1: // anywhere around
            for (uint d = 0; d < D; ++d) p.coords[d] = (P) ((unit() * 5 - 2 + C.tr[d]) * C.scale);
            break;
        case 2: // lattice
            for (uint d = 0; d < D; ++d) p.coords[d] = (P) (((double) s.draw(10) - 2 + C.tr[d]) * C.scale);
            break;
        case 3: p = dPoint<D, P>(C.v[s.below(D + 1)]); break; // a vertex
        case 4: { // near or on a facet
            uint a = s.below(D + 1), b = s.below(D + 1);
            double t = s.pick({0.5, 0.25, 0.1, 1.0, 1.5});
            for (uint d = 0; d < D; ++d) p.coords[d] = (P) (C.v[a][d] + t * ((double) C.v[b][d] - (double) C.v[a][d]));
            break;
        }
        default: { // a vertex moved by a few units in the last place
            p = dPoint<D, P>(C.v[s.below(D + 1)]);
            for (uint d = 0; d < D; ++d) for (unsigned k = s.draw(3); k; --k) {
                P to = (P) 1e30 * (s.chance(1, 2) ? 1 : -1);
                // no subnormal numbers: products of them underflow
                if (std::fabs(p.coords[d]) < C.scale * 0.01) p.coords[d] += std::copysign((P) (C.scale * 0.01) * std::numeric_limits<P>::epsilon(), to);
                else p.coords[d] = std::nextafter(p.coords[d], to);
            }
        }
    }
    return p;
}

template<uint D, typename P>
static std::string show(const Case<D, P> &C, const dPoint<D, P> *p = nullptr) {
    std::ostringstream o;
    o.precision(17);
    for (uint i = 0; i <= D; ++i) {
        o << " " << (int64_t) C.s.vertices[i] << "=(";
        for (uint d = 0; d < D; ++d) o << (d ? " " : "") << C.v[i][d];
        o << ")";
    }
    if (p) { o << " point ("; for (uint d = 0; d < D; ++d) o << (d ? " " : "") << p->coords[d]; o << ")"; }
    return o.str();
}

// volume relative to the product of the edge lengths at vertex 0: how well-conditioned the simplex is
template<uint D, typename P>
static double quality(const std::array<dVector<D, P>, D + 1> &v) {
    std::array<std::array<Q, D>, D> m;
    Q len = 1;
    for (uint i = 0; i < D; ++i) { m[i] = diffq<D, P>(v[i + 1], v[0]); len *= sqrtq_(dotq<D>(m[i], m[i])); }
    Q dt;
    if constexpr (D == 2) dt = m[0][0] * m[1][1] - m[0][1] * m[1][0];
    else dt = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    return (double) (absq(dt) / len);
}

template<uint D, typename P>
static void sphere(Src &s, Ctx &c) {
    auto C = genSimplex<D, P>(s, c);
    double q = 1; // the worst over the choice of the first vertex
    auto w = C.v;
    for (uint i = 0; i <= D; ++i) { std::rotate(w.begin(), w.begin() + 1, w.end()); q = std::min(q, quality<D, P>(w)); }
    c.describe([&](std::ostringstream &o) { o << show(C) << " quality " << q; });
    auto sp = C.s.circumsphere(C.pts);
    VP_CHECK(sp.radius > 0 && (std::isfinite((double) sp.radius) || q < 1e-14), "radius not positive and finite");
    if (!std::isfinite((double) sp.radius)) return;
    Q r = sp.radius, cn = 0, hi = 0, lo = 1e4900Q;
    for (uint d = 0; d < D; ++d) cn += absq((Q) sp.center[d]);
    Q r0 = 0;
    for (uint i = 0; i <= D; ++i) {
        auto x = diffq<D, P>(sp.center, C.v[i]);
        Q l = sqrtq_(dotq<D>(x, x));
        hi = std::max(hi, l), lo = std::min(lo, l);
        r0 = std::max(r0, l);
    }
    // rounding of the stored sphere, and of the computation in the working precision for ill-conditioned simplices
    Q tol = 64 * (Q) std::numeric_limits<P>::epsilon() * (r0 + cn) + 64 * (Q) 2.3e-16 * r0 / (Q) (q * q);
    VP_CHECK(hi - lo <= tol, "circumcenter is not equidistant from the vertices: distances differ by " + std::to_string((double) ((hi - lo) / r0)) + " radii");
    VP_CHECK(absq(r - hi) <= tol && absq(r - lo) <= tol, "radius is not the distance of the vertices: off by " + std::to_string((double) (absq(r - hi) / r0)) + " radii");
    c.nontrivial(q > 1e-5);
    c.label(q > 0.1 ? "well-shaped" : q > 1e-3 ? "thin" : "very thin");
}

// the sphere must not be smaller than the exact one, or a box that the exact one intersects could be missed
template<uint D, typename P>
static void covers(Src &s, Ctx &c) {
    constexpr bool F = std::is_same<P, float>::value;
    auto C = genSimplex<D, P>(s, c);
    if (s.chance(1, 2)) { // the last vertex almost in the plane or line of the others
        Q w[D], sum = 0;
        for (auto &y : w) sum += y = s.unit() + 0.01;
        double off = std::ldexp(1.0, -(int) s.draw(F ? 26 : 55)) * C.scale;
        for (uint d = 0; d < D; ++d) {
            Q x = 0;
            for (uint i = 0; i < D; ++i) x += w[i] / sum * C.v[i][d];
            C.v[D][d] = (P) ((double) x + off * (s.unit() * 2 - 1));
        }
        if (ex::orient<D, dVector<D, P>>(C.v) == 0) throw Discard();
        C.pts[C.s.vertices[D]] = dPoint<D, P>(C.v[D]);
        c.label("last vertex almost dependent");
    }
    std::array<uint, D + 1> perm;
    std::iota(perm.begin(), perm.end(), 0);
    for (uint i = D; i; --i) std::swap(perm[i], perm[s.below(i + 1)]);
    auto t = C.s;
    for (uint i = 0; i <= D; ++i) t.vertices[i] = C.s.vertices[perm[i]];
    double q = quality<D, P>(C.v);
    c.describe([&](std::ostringstream &o) { o << show(C) << " quality " << q << " first vertex " << perm[0]; });
    std::array<Vq<D>, D> m;
    std::array<Q, D> l;
    for (uint i = 0; i < D; ++i) m[i] = diffq<D, P>(C.v[i + 1], C.v[0]), l[i] = dotq<D>(m[i], m[i]);
    Vq<D> o;
    Q den;
    if constexpr (D == 2) {
        den = 2 * (m[0][0] * m[1][1] - m[0][1] * m[1][0]);
        o = {m[1][1] * l[0] - m[0][1] * l[1], m[0][0] * l[1] - m[1][0] * l[0]};
    } else {
        auto cross = [](const Vq<D> &a, const Vq<D> &b) { return Vq<D>{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; };
        Vq<D> x = cross(m[1], m[2]), y = cross(m[2], m[0]), z = cross(m[0], m[1]);
        den = 2 * dotq<D>(m[0], x);
        for (uint d = 0; d < D; ++d) o[d] = l[0] * x[d] + l[1] * y[d] + l[2] * z[d];
    }
    Q len = 1;
    for (auto x : l) len *= sqrtq_(x);
    if (absq(den) < len * (Q) 1e-22) throw Discard(); // the reference itself is inaccurate
    for (auto &x : o) x /= den;
    Q R = sqrtq_(dotq<D>(o, o));
    auto sp = t.circumsphere(C.pts);
    VP_CHECK(sp.radius > 0, "radius is not positive");
    if (std::isfinite((double) sp.radius)) {
        Vq<D> e;
        for (uint d = 0; d < D; ++d) e[d] = (Q) C.v[0][d] + o[d] - (Q) sp.center[d];
        Q reach = sqrtq_(dotq<D>(e, e)) + R * (1 - (Q) 1e-9 * (Q) std::numeric_limits<P>::epsilon());
        VP_CHECK(reach <= (Q) sp.radius, "the sphere does not cover the circumsphere, it lacks " + std::to_string((double) ((reach - (Q) sp.radius) / R / (Q) std::numeric_limits<P>::epsilon())) + " units of the radius' last place");
        // a box given by a point of the exact sphere, clearly within it
        Vq<D> u;
        for (auto &x : u) x = s.unit() * 2 - 1;
        Q ul = sqrtq_(dotq<D>(u, u));
        if (ul > 0) {
            dBox<D, P> b;
            for (uint d = 0; d < D; ++d) b.low[d] = b.high[d] = (P) ((Q) C.v[0][d] + o[d] + u[d] / ul * R * (Q) (1 - 1e-3));
            Q at = 0;
            for (uint d = 0; d < D; ++d) { Q x = (Q) b.low[d] - (Q) C.v[0][d] - o[d]; at += x * x; }
            if (sqrtq_(at) < R * (Q) (1 - 5e-4)) VP_CHECK(b.intersects(sp), "a box at a point in the circumsphere does not intersect it");
        }
    }
    c.nontrivial(q < 1e-3 || C.tr[0] != 0);
    c.label(q > 0.1 ? "well-shaped" : q > 1e-3 ? "thin" : q > 1e-8 ? "very thin" : "almost flat");
    if (!std::isfinite((double) sp.radius)) c.label("unbounded");
    // only where rounding could determine the orientation
    Q longest = 0, vol = 1;
    for (uint i = 0; i <= D; ++i) for (uint j = 0; j < i; ++j) { auto x = diffq<D, P>(C.v[i], C.v[j]); longest = std::max(longest, sqrtq_(dotq<D>(x, x))); }
    for (uint d = 0; d < D; ++d) vol *= longest;
    VP_CHECK(std::isfinite((double) sp.radius) || absq(den) < vol * 1024 * (Q) 2.3e-16, "unbounded sphere of a simplex that is not flat");
}

template<uint D, typename P>
static void point(Src &s, Ctx &c) {
    auto C = genSimplex<D, P>(s, c);
    auto p = genPoint<D, P>(s, C);
    if (C.grid && s.chance(1, 3)) { // so small that products of the predicates' values underflow, the predicates themselves do not
        for (uint d = 0; d < D; ++d) p.coords[d] = std::is_same<P, float>::value || s.chance(1, 2) ? (P) (((double) s.draw(10) - 2 + C.tr[d]) * C.scale) : p.coords[d];
        double f = std::ldexp(1.0, std::is_same<P, float>::value ? (D == 2 ? -s.range<int>(24, 35) : -s.range<int>(18, 28)) : -s.range<int>(120, D == 2 ? 200 : 160)) / C.scale;
        for (auto &v : C.v) for (uint d = 0; d < D; ++d) v[d] = (P) (v[d] * f);
        for (uint d = 0; d < D; ++d) p.coords[d] = (P) (p.coords[d] * f);
        for (uint i = 0; i <= D; ++i) C.pts[C.s.vertices[i]] = dPoint<D, P>(C.v[i]);
        c.label("tiny");
    }
    c.describe([&](std::ostringstream &o) { o << show(C, &p); });
    int in = ex::inside<D, dVector<D, P>>(C.v, p.coords);
    int o = ex::orient<D, dVector<D, P>>(C.v);
    int place = 1; // 1 strictly inside the simplex, 0 on its boundary, -1 outside
    for (uint i = 0; i <= D; ++i) {
        auto w = C.v;
        w[i] = p.coords;
        place = std::min(place, ex::orient<D, dVector<D, P>>(w) * o);
    }
    std::array<uint, D + 1> perm;
    std::iota(perm.begin(), perm.end(), 0);
    std::array<uint, D + 1> first = perm;
    bool any = false, sphere0 = false, simplex0 = false;
    do { // every order of the vertices
        auto t = C.s;
        for (uint i = 0; i <= D; ++i) t.vertices[i] = C.s.vertices[perm[i]];
        bool sp = t.inSphere(p, C.pts), si = t.inSimplex(p, C.pts);
        VP_CHECK(in == 0 || sp == (in > 0), sp ? "in-sphere test accepts a point outside" : "in-sphere test rejects a point inside");
        VP_CHECK(place == 0 || si == (place > 0), si ? "in-simplex test accepts a point outside" : "in-simplex test rejects a point inside");
        if (any) {
            VP_CHECK(sp == sphere0, "in-sphere test depends on the vertex order");
            VP_CHECK(si == simplex0, "in-simplex test depends on the vertex order");
        }
        any = true, sphere0 = sp, simplex0 = si;
        auto x = t.orientation(C.pts);
        std::array<dVector<D, P>, D + 1> w;
        for (uint i = 0; i <= D; ++i) w[i] = C.v[perm[i]];
        VP_CHECK(x != 0 && (x > 0) == (ex::orient<D, dVector<D, P>>(w) > 0), "orientation is wrong");
    } while (std::next_permutation(perm.begin(), perm.end()));
    c.nontrivial(true);
    c.label(in > 0 ? "in sphere" : in < 0 ? "out of sphere" : "on sphere");
    c.label(place > 0 ? "in simplex" : place < 0 ? "out of simplex" : "on boundary");
}

template<uint D, typename P>
static void face(Src &s, Ctx &c) {
    auto C = genSimplex<D, P>(s, c);
    auto p = genPoint<D, P>(s, C);
    uint f = s.below(D + 1);
    c.describe([&](std::ostringstream &o) { o << show(C, &p) << " facet " << f; });
    std::array<dVector<D, P>, D> w;
    for (uint i = 0, j = 0; i <= D; ++i) if (i != f) w[j++] = C.v[i];
    Vq<D> n, r = diffq<D, P>(p.coords, w[0]), u = diffq<D, P>(w[1], w[0]);
    Q q;
    if constexpr (D == 2) n = {u[1], -u[0]}, q = 1;
    else {
        Vq<D> v = diffq<D, P>(w[2], w[0]);
        n = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]};
        Q nn = dotq<D>(n, n);
        if (nn == 0) throw Discard();
        q = sqrtq_(nn / (dotq<D>(u, u) * dotq<D>(v, v)));
    }
    Q e = std::numeric_limits<P>::epsilon();
    Q nr = dotq<D>(n, r), want = nr * nr / dotq<D>(n, n), rl = sqrtq_(dotq<D>(r, r)), dist = sqrtq_(want);
    // relative to other vertices of the facet the vector is longer
    for (uint i = 1; i < D; ++i) { auto x = diffq<D, P>(p.coords, w[i]); rl = std::max(rl, sqrtq_(dotq<D>(x, x))); }
    for (uint i = 1; i < D; ++i) { auto x = diffq<D, P>(w[i], w[0]); rl = std::max(rl, sqrtq_(dotq<D>(x, x))); }
    Q err = 16 * e * rl / q;
    if (16 * e / q > (Q) 0.25) throw Discard();
    Q tol = 2 * dist * err + err * err + 8 * want * e / q;
    auto got = C.s.sqDistanceToFace(f, p, C.pts);
    VP_CHECK(absq((Q) got - want) <= tol, "squared distance to facet: got " + std::to_string((double) ((Q) got / (want > 0 ? want : (Q) 1))) + (want > 0 ? " times the right one" : " instead of 0"));
    c.nontrivial(want > 0);
    c.label(q > 0.1Q ? "facet well-shaped" : "facet thin");
}

template<uint D, typename P>
static void nearest(Src &s, Ctx &c) {
    auto C = genSimplex<D, P>(s, c);
    auto p = genPoint<D, P>(s, C);
    c.describe([&](std::ostringstream &o) { o << show(C, &p); });
    auto id = C.s.findNearestVertex(p, C.pts);
    Q best = 1e4900Q, got = -1;
    for (uint i = 0; i <= D; ++i) {
        auto x = diffq<D, P>(p.coords, C.v[i]);
        Q l = dotq<D>(x, x);
        best = std::min(best, l);
        if (C.s.vertices[i] == id) got = l;
    }
    VP_CHECK(got >= 0, "nearest vertex is no vertex of the simplex");
    VP_CHECK(got <= best * (1 + 16 * (Q) std::numeric_limits<P>::epsilon()), "a vertex is nearer than the nearest one");
    c.nontrivial(best > 0);
}

template<uint D, typename P>
static void locate(Src &s, Ctx &c, size_t hi) {
    auto C = genCloud<D, P>(s, c, s.length(3, hi));
    for (uint d = 0; d < D; ++d) if (C.n < 1 || C.bounds.low[d] == C.bounds.high[d]) throw Discard();
    C.corners(s.pick({200.0, 2.0}));
    std::set<tIdType> ids;
    bool corners = s.chance(1, 2) || C.n < D + 2;
    for (tIdType i = 1; i <= C.n; ++i) ids.insert(i);
    if (corners) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
    CGALTriangulator<D, P, false> T(C.bounds, C.pts, 1);
    auto dt = static_cast<Triangulator<D, P> &>(T).triangulate(ids);
    size_t m = dt.exact_size();
    if (m == 0) throw Discard();
    // some simplices move to other ids, leaving free slots
    size_t moves = s.draw(3);
    std::string what;
    for (size_t i = 0; i < moves; ++i) {
        std::vector<tIdType> L;
        for (auto &x : dt) L.push_back(x.id);
        tIdType a = s.chance(1, 2) ? L[0] : L[s.below(L.size())];
        tIdType b = dSimplices<D, P>::simplexID.fetch_add(1);
        auto cpy = dt.unsafe_at(a);
        dt.addBlock(b, b + 1);
        cpy.id = b;
        dt.unsafe_at(b) = cpy;
        dt.unsafe_at(a).id = dSimplex<D, P>::cINF;
        for (auto &x : dt) for (auto &n : x.neighbors) if (n == a) n = b;
        for (auto &h : dt.convexHull) if (h == a) h = b;
        what += std::to_string(a) + " moves to " + std::to_string(b) + "; ";
    }
    std::vector<dSimplex<D, P>> L;
    for (auto &x : dt) L.push_back(x);
    dPoint<D, P> p;
    unsigned how = s.draw(4);
    auto &A = L[s.below(L.size())];
    double w[D + 1], sum = 0;
    for (auto &y : w) sum += y = how == 1 ? (double) s.draw(2) : s.unit();
    if (sum == 0) sum = w[0] = 1;
    for (uint d = 0; d < D; ++d) {
        double x = 0;
        for (uint i = 0; i <= D; ++i) x += w[i] / sum * C.pts[A.vertices[i]].coords[d];
        if (how == 2) x = C.bounds.low[d] + (s.unit() * 3 - 1) * ((double) C.bounds.high[d] - C.bounds.low[d]);
        if (how == 3) x = C.pts[1 + s.below(C.n)].coords[d];
        p.coords[d] = (P) x;
    }
    tIdType hint = s.chance(1, 2) ? tIdType(dSimplex<D, P>::cINF) : L[s.below(L.size())].id;
    c.describe([&](std::ostringstream &o) {
        o.precision(17);
        o << C.n << " points" << (corners ? " and corners" : "") << ", " << m << " simplices; " << what << "hint " << (int64_t) hint << " query";
        for (uint d = 0; d < D; ++d) o << " " << p.coords[d];
    });
    auto place = [&](const dSimplex<D, P> &t) {
        std::array<dVector<D, P>, D + 1> v;
        for (uint i = 0; i <= D; ++i) v[i] = C.pts[t.vertices[i]].coords;
        int o = ex::orient<D, dVector<D, P>>(v), r = 1;
        for (uint i = 0; i <= D; ++i) {
            auto x = v;
            x[i] = p.coords;
            r = std::min(r, ex::orient<D, dVector<D, P>>(x) * o);
        }
        return r;
    };
    int best = -1;
    for (auto &t : L) best = std::max(best, place(t));
    auto got = static_cast<const dSimplices<D, P> &>(dt).findNearestSimplex(p, C.pts, hint);
    const dSimplex<D, P> *g = nullptr;
    for (auto &t : L) if (t.id == got) g = &t;
    VP_CHECK(g, "the located simplex does not exist: " + std::to_string((int64_t) got));
    VP_CHECK(best < 1 || place(*g) >= 0, "the located simplex does not contain the point, another one does");
    VP_CHECK(best < 0 || place(*g) >= 0, "the located simplex does not contain the point, another one has it on its boundary");
    c.nontrivial(m > 3 && best >= 0);
    c.label(best > 0 ? "inside one" : best == 0 ? "on a boundary" : "outside all");
}

template<uint D, typename P> static void all(const char *name, unsigned q) {
    static std::vector<std::unique_ptr<std::string>> keep;
    auto nm = [&](const char *x) { keep.emplace_back(new std::string(std::string(x) + name)); return keep.back()->c_str(); };
    static Reg a({"C09", nm("circumsphere"), sphere<D, P>, 100000 * q, 2000000 * q, 15, "well enough conditioned to bound the error below the radius"});
    static Reg h({"C09", nm("circumsphere covers"), covers<D, P>, 40000 * q, 800000 * q, 15, "simplex translated or thin"});
    static Reg b({"C09", nm("in-sphere, in-simplex, orientation"), point<D, P>, 40000 * q, 800000 * q, 15, "every case: all vertex orders"});
    static Reg d({"C09", nm("distance to facet"), face<D, P>, 30000 * q, 800000 * q, 15, "point not on the facet"});
    static Reg e({"C09", nm("nearest vertex"), nearest<D, P>, 20000 * q, 400000 * q, 15, "point is no vertex"});
    static Reg f({"C09", nm("locate"), [](Src &s, Ctx &c) { locate<D, P>(s, c, 24); }, 12000 * q, 300000 * q, 15, "query in a simplex of a triangulation with more than three"});
    static Reg g({"C09", nm("locate, many points"), [](Src &s, Ctx &c) { locate<D, P>(s, c, 300); }, 800 * q, 15000 * q, 15, "query in a simplex of a triangulation with more than three"});
}
static int dummy = (all<2, double>(" 2D double", 2), all<3, double>(" 3D double", 2), all<2, float>(" 2D float", 1), all<3, float>(" 3D float", 1), 0);
int main(int argc, char **argv) { return vp_main(argc, argv); }
