// Generated point clouds
#pragma once
#include <random>
#include "vp.hpp"
#include "Geometry.h"

template<uint D, typename P>
struct Cloud {
    dPoints<D, P> pts;          // ids 1..n (plus offset) and, once placed, the 2^D corner points
    size_t n = 0;
    dBox<D, P> bounds;          // tight

    Cloud() = default;
    Cloud(const Cloud &) = delete;
    Cloud(Cloud &&) = default;
    Cloud &operator=(Cloud &&) = default;

    dPoints<D, P> copy() const {
        dPoints<D, P> r;
        if (pts.offset()) r.offset(pts.offset());
        for (size_t i = 1; i <= n; ++i) r.emplace_back(dPoint<D, P>(pts[pts.offset() + i].coords));
        return r;
    }
    // the corner points as the divide-and-conquer triangulators place them, by their contract
    void corners(double factor = 200) {
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) {
            dPoint<D, P> p;
            for (uint d = 0; d < D; ++d) {
                double m = ((double) bounds.low[d] + (double) bounds.high[d]) / 2;
                double e = (double) bounds.high[d] - (double) bounds.low[d];
                p.coords[d] = (P) (m + ((k >> d) & 1 ? 1 : -1) * factor * e);
            }
            pts[k] = p;
        }
    }
};

struct CloudOpt {
    bool degenerate = false;   // also clouds on an integer grid
    bool translate = true, scale = true;
};

template<uint D, typename P>
static Cloud<D, P> genCloud(vp::Src &s, vp::Ctx &c, size_t n, CloudOpt o = {}) {
    constexpr bool F = std::is_same<P, float>::value;
    Cloud<D, P> C;
    unsigned kind = (unsigned) s.draw(o.degenerate ? 10 : 9);
    std::vector<std::array<double, D>> v;
    v.reserve(n);
    bool bulk = n > 40;
    std::mt19937_64 g(bulk ? s.draw(1ull << 40) : 0);
    auto unit = [&]() -> double {
        return bulk ? (double) (g() >> 11) / (double) (1ull << 53) : s.unit();
    };
    auto idx = [&](size_t k) -> size_t { return bulk ? g() % k : s.below(k); };
    auto gauss = [&]() { // sum of uniforms is enough
        double r = 0;
        for (int i = 0; i < 4; ++i) r += unit();
        return (r - 2) * 1.7;
    };
    double ext[D];
    for (auto &e : ext) e = 1;
    if (s.chance(1, 4)) for (auto &e : ext) e = std::ldexp(1.0, (int) s.draw(4));
    std::vector<std::array<double, D>> ctr(1 + s.draw(5));
    for (auto &q : ctr) for (auto &x : q) x = unit();
    double jit = s.pick({0.3, 0.05, F ? 0.05 : 1e-3});
    size_t side = std::max<size_t>(2, (size_t) std::ceil(std::pow((double) n, 1.0 / D)));
    static const char *names[] = {"uniform", "clusters", "jittered grid", "shell", "flat", "skewed", "far clusters", "diagonal", "moment curve", "grid"};
    c.label(names[kind]);
    std::set<std::array<P, D>> seen;
    for (size_t i = 0, tries = 0; i < n && tries < 4 * n + 100; ++tries) {
        std::array<double, D> p;
        switch (kind) {
            case 0: for (auto &x : p) x = unit(); break;
            case 1: { auto &q = ctr[idx(ctr.size())]; double sg = 0.02; for (uint d = 0; d < D; ++d) p[d] = q[d] + sg * gauss(); break; }
            case 2: {
                size_t k = tries;
                for (auto &x : p) { x = ((double) (k % side) + jit * unit()) / side; k /= side; }
                break;
            }
            case 3: {
                double l = 0;
                for (auto &x : p) { x = gauss(); l += x * x; }
                l = std::sqrt(l) + 1e-300;
                double r = 1 + jit * 0.1 * unit();
                for (auto &x : p) x = x / l * r;
                break;
            }
            case 4: for (auto &x : p) x = unit(); p[D - 1] *= (F ? 0.05 : 1e-3); break;
            case 5: for (auto &x : p) x = std::exp2((F ? 6 : 10) * unit() - 10); break;
            case 6: { double t = (double) idx(2) * (F ? 20 : 1000); for (auto &x : p) x = t + unit(); break; }
            case 7: { double t = unit(); for (auto &x : p) x = t + 0.01 * gauss(); break; }
            case 8: { double t = unit(), u = 1; for (auto &x : p) { u *= t; x = u + 0.02 * unit(); } break; }
            default: for (auto &x : p) x = (double) idx(side + 1); break;
        }
        for (uint d = 0; d < D; ++d) p[d] *= ext[d];
        v.push_back(p);
        ++i;
    }
    double sh[D];
    for (auto &x : sh) x = 0;
    if (o.translate && s.chance(1, 3)) {
        double m = s.pick({1.0, 3.0, F ? 10.0 : 1000.0});
        for (auto &x : sh) x = std::round((s.unit() * 2 - 1) * m * 8) / 8;
        c.label("translated");
    }
    int sc = 0;
    if (o.scale && s.chance(1, 4)) {
        sc = s.range<int>(F ? -8 : -20, F ? 8 : 20);
        c.label("scaled");
    }
    for (auto &p : v) {
        dPoint<D, P> q;
        std::array<P, D> k;
        for (uint d = 0; d < D; ++d) {
            // multiples of 2^-27 (float) and 2^-150: the predicates' range, see C08
            const int low = F ? 27 : 150;
            double x = (double) (P) std::ldexp(p[d] + sh[d], sc);
            if (std::fabs(x) < std::ldexp(1.0, 24 - low)) x = std::ldexp(std::nearbyint(std::ldexp(x, low)), -low);
            q.coords[d] = k[d] = (P) x;
        }
        if (!seen.insert(k).second) continue; // distinct points only
        C.pts.emplace_back(q);
        ++C.n;
    }
    for (uint d = 0; d < D; ++d) {
        C.bounds.low[d] = std::numeric_limits<P>::max();
        C.bounds.high[d] = std::numeric_limits<P>::lowest();
        for (auto &k : seen) {
            C.bounds.low[d] = std::min(C.bounds.low[d], k[d]);
            C.bounds.high[d] = std::max(C.bounds.high[d], k[d]);
        }
    }
    return C;
}

// the library's and CGAL's global state, for cases that do not depend on the ones before
#ifdef PARDETRIA_VERIF_CGAL
#include <CGAL/Random.h>
#endif
static inline void resetGlobals() {
    dSimplices<2, double>::simplexID = 1, dSimplices<3, double>::simplexID = 1;
    dSimplices<2, float>::simplexID = 1, dSimplices<3, float>::simplexID = 1;
#ifdef PARDETRIA_VERIF_CGAL
    CGAL::get_default_random() = CGAL::Random(0);
#endif
}
