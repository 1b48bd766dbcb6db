// C08: orientation and in-sphere predicates against exact integer determinants
#include "vp.hpp"
#include <array>
#include <gmpxx.h>
#include <sys/types.h>
#include "utils/Predicates.h"

using namespace vp;

// every coordinate is m * 2^-K with an integer m, so all determinants are integers
template<typename P>
struct Lim;
template<>
struct Lim<double> {
    static constexpr int K = 150, TOP = 120;
};
template<>
struct Lim<float> {
    static constexpr int K = 27, TOP = 19;
};

template<typename P>
static mpz_class ex(P x) { // x * 2^K
    int e;
    double m = std::frexp((double) x, &e); // x = m 2^e, m has at most 53 bits
    mpz_class z((double) std::ldexp(m, 53));
    int sh = e - 53 + Lim<P>::K;
    mpz_class r;
    if (sh >= 0) mpz_mul_2exp(r.get_mpz_t(), z.get_mpz_t(), sh);
    else mpz_tdiv_q_2exp(r.get_mpz_t(), z.get_mpz_t(), -sh);
    return r;
}

template<typename P>
static P clamp(P x) { // into the range where no exact intermediate product over- or underflows
    const P top = std::ldexp((P) 1, Lim<P>::TOP);
    if (!(x < top)) x = top;
    if (!(x > -top)) x = -top;
    // drop bits below 2^-K
    double s = std::ldexp((double) x, Lim<P>::K);
    if (std::abs(s) < 9e15) x = (P) std::ldexp(std::trunc(s), -Lim<P>::K);
    return x;
}

template<typename P>
static P ulps(P x, int k) {
    for (; k > 0; --k) x = std::nextafter(x, std::numeric_limits<P>::infinity());
    for (; k < 0; ++k) x = std::nextafter(x, -std::numeric_limits<P>::infinity());
    return x;
}

template<unsigned D, typename P>
using Pt = std::array<P, D>;

static int wiggle(Src &s) { return s.chance(1, 3) ? s.range<int>(-4, 4) : 0; }

template<unsigned D, typename P>
static std::vector<Pt<D, P>> gen(Src &s, size_t n, Ctx &c) {
    std::vector<Pt<D, P>> v(n);
    unsigned how = s.draw(8);
    int e = s.range<int>(std::is_same<P, float>::value ? -6 : -40, std::is_same<P, float>::value ? 4 : 40);
    switch (how) {
        case 0: { // small integers: often exactly degenerate
            int64_t R = s.pick({1, 3, 20, 1000});
            for (auto &p : v) for (auto &x : p) x = (P) s.range<int64_t>(-R, R);
            c.label("small integers");
            break;
        }
        case 1: // uniform
            for (auto &p : v) for (auto &x : p) x = std::ldexp((P) (s.unit() * 2 - 1), e);
            c.label("uniform");
            break;
        case 2: // mixed magnitudes
            for (auto &p : v) for (auto &x : p)
                x = std::ldexp((P) (s.unit() * 2 - 1), s.range<int>(-(std::is_same<P, float>::value ? 8 : 60), std::is_same<P, float>::value ? 8 : 60));
            c.label("mixed magnitudes");
            break;
        case 3: { // all on one line or plane up to rounding, then moved by a few ulps
            std::vector<Pt<D, P>> b(D);
            for (auto &p : b) for (auto &x : p) x = (P) (s.unit() * 2 - 1);
            for (auto &p : v) {
                P a[3] = {(P) (s.unit() * 2 - 1), (P) (s.unit() * 2 - 1), 0};
                if (s.chance(1, 2)) for (auto &t : a) t = (P) ((int) (t * 8)) / 8;
                for (unsigned d = 0; d < D; ++d) {
                    P x = b[0][d];
                    for (unsigned k = 1; k < D; ++k) x += a[k - 1] * (b[k][d] - b[0][d]);
                    p[d] = ulps(x, wiggle(s));
                }
            }
            c.label("nearly flat");
            break;
        }
        case 4: { // a tiny grid of ulps around a point, with distant partners on a diagonal
            P base = s.pick({(P) 0.5, (P) 1, (P) 3, (P) 12, (P) 24});
            P u = std::numeric_limits<P>::epsilon() * s.pick({(P) 0.5, (P) 1, (P) 4, (P) 64});
            for (size_t i = 0; i < n; ++i) {
                P b = s.chance(1, 2) ? base : s.pick({(P) 12, (P) 24, (P) 6, (P) -12, (P) 0.5});
                for (unsigned d = 0; d < D; ++d) v[i][d] = b + (P) s.range<int>(0, 64) * u;
            }
            c.label("ulp grid");
            break;
        }
        case 5: { // on a common circle or sphere up to rounding (rational points), then moved by a few ulps
            P r = (P) (1 + s.unit());
            Pt<D, P> ctr;
            P off = s.pick({(P) 0, (P) 1, (P) 100, (P) 1000});
            for (auto &x : ctr) x = off ? (P) ((s.unit() * 2 - 1) * off) : 0;
            for (auto &p : v) {
                double q[3], l = 0;
                do {
                    l = 0;
                    for (unsigned d = 0; d < D; ++d) q[d] = s.unit() * 2 - 1, l += q[d] * q[d];
                    if (l == 0) q[0] = 1, l = 1;
                } while (l == 0);
                for (unsigned d = 0; d < D; ++d) p[d] = ulps((P) (ctr[d] + r * q[d] / std::sqrt(l)), wiggle(s));
            }
            c.label("nearly cospherical");
            break;
        }
        case 6: { // exactly cospherical: integer points with the same norm, scaled and moved exactly
            static const int N2[][2] = {{7, 24}, {15, 20}, {0, 25}, {24, 7}, {20, 15}};
            static const int N3[][3] = {{1, 2, 2}, {2, 1, 2}, {0, 0, 3}, {2, 2, 1}, {3, 0, 0}};
            int64_t sc = s.pick({1, 3, 7, 100});
            std::array<int64_t, D> sh;
            for (auto &x : sh) x = s.chance(1, 2) ? s.range<int64_t>(-1000, 1000) : 0;
            for (auto &p : v) {
                size_t k = s.below(5);
                for (unsigned d = 0; d < D; ++d) {
                    int64_t x = D == 2 ? N2[k][d] : N3[k][d % 3];
                    p[d] = ulps((P) ((s.chance(1, 2) ? x : -x) * sc + sh[d]), s.chance(1, 12) ? s.range<int>(-1, 1) : 0);
                }
            }
            c.label("exactly cospherical");
            break;
        }
        default: { // a cluster far away from the origin
            P off = s.pick({(P) 1e3, (P) 1e4, (P) 3e5});
            for (auto &p : v) for (auto &x : p) x = off + (P) (s.unit() * 2 - 1);
            c.label("far cluster");
        }
    }
    if (how < 8 && s.chance(1, 10)) { // duplicates
        size_t i = s.below(n), j = s.below(n);
        v[i] = v[j];
    }
    if (how != 1 && how != 2 && s.chance(1, 3)) for (auto &p : v) for (auto &x : p) x = std::ldexp(x, e);
    for (auto &p : v) for (auto &x : p) x = clamp<P>(x);
    return v;
}

static mpz_class det(std::vector<std::vector<mpz_class>> m) {
    size_t n = m.size();
    if (n == 1) return m[0][0];
    if (n == 2) return m[0][0] * m[1][1] - m[0][1] * m[1][0];
    mpz_class r = 0;
    for (size_t i = 0; i < n; ++i) {
        std::vector<std::vector<mpz_class>> q;
        for (size_t j = 0; j < n; ++j)
            if (j != i) q.emplace_back(m[j].begin() + 1, m[j].end());
        if (i % 2) r -= m[i][0] * det(q);
        else r += m[i][0] * det(q);
    }
    return r;
}

template<unsigned D, typename P>
static mpz_class exact(const std::vector<Pt<D, P>> &v, bool sphere) {
    // relative to the last point
    size_t n = v.size() - 1;
    std::vector<std::vector<mpz_class>> m(n);
    for (size_t i = 0; i < n; ++i) {
        mpz_class l = 0;
        for (unsigned d = 0; d < D; ++d) {
            mpz_class x = ex<P>(v[i][d]) - ex<P>(v[n][d]);
            l += x * x;
            m[i].push_back(x);
        }
        if (sphere) m[i].push_back(l);
    }
    return det(m);
}

template<unsigned D, typename P>
static P call(const std::vector<Pt<D, P>> &v, bool sphere) {
    if constexpr (D == 2) {
        if (!sphere) return Predicates<2, P>::orient(v[0].data(), v[1].data(), v[2].data());
        return Predicates<2, P>::insphere(v[0].data(), v[1].data(), v[2].data(), v[3].data());
    } else {
        if (!sphere) return Predicates<3, P>::orient(v[0].data(), v[1].data(), v[2].data(), v[3].data());
        return Predicates<3, P>::insphere(v[0].data(), v[1].data(), v[2].data(), v[3].data(), v[4].data());
    }
}

template<unsigned D, typename P, bool SPH>
static void prop(Src &s, Ctx &c) {
    size_t n = D + 1 + (SPH ? 1 : 0);
    auto v = gen<D, P>(s, n, c);
    mpz_class w = exact<D, P>(v, SPH);
    int want = sgn(w);
    // how much of the value cancels: compared with the product of the largest differences
    mpz_class big = 1, mx = 0;
    for (size_t i = 0; i + 1 < n; ++i)
        for (unsigned d = 0; d < D; ++d) {
            mpz_class x = abs(ex<P>(v[i][d]) - ex<P>(v[n - 1][d]));
            if (x > mx) mx = x;
        }
    for (unsigned i = 0; i < (SPH ? D + 2 : D); ++i) big *= mx;
    int digits = std::is_same<P, float>::value ? 20 : 48;
    mpz_class scaled = abs(w);
    mpz_mul_2exp(scaled.get_mpz_t(), scaled.get_mpz_t(), digits);
    bool hard = want != 0 && scaled < big;
    c.nontrivial(hard || (want == 0 && mx != 0));
    if (hard) c.label("needs extended precision");
    if (want == 0) c.label("degenerate");
    c.describe([&](std::ostream &o) {
        o << std::setprecision(17);
        for (auto &p : v) {
            o << "(";
            for (unsigned d = 0; d < D; ++d) o << (d ? " " : "") << p[d];
            o << ")";
        }
        o << " sign " << want;
    });
    auto sg = [](P x) { return x > 0 ? 1 : x < 0 ? -1 : x == 0 ? 0 : 2; };
    auto show = [&](const std::vector<Pt<D, P>> &q) {
        std::ostringstream o;
        o << std::hexfloat;
        for (auto &p : q) {
            o << "(";
            for (unsigned d = 0; d < D; ++d) o << (d ? " " : "") << p[d];
            o << ")";
        }
        return o.str();
    };
    int got = sg(call<D, P>(v, SPH));
    VP_CHECK(got == want, (SPH ? "in-sphere" : "orientation") << " sign " << got << ", exact sign " << want << " of " << show(v));
    // swapping two of the defining points flips the sign
    size_t def = D + 1, i = s.below(def), j = s.below(def);
    if (i != j) {
        auto q = v;
        std::swap(q[i], q[j]);
        int g2 = sg(call<D, P>(q, SPH));
        VP_CHECK(g2 == -want, (SPH ? "in-sphere" : "orientation") << " sign " << g2 << " after swapping points " << i << " and " << j << ", exact sign " << -want << " of " << show(q));
    }
}

#define RULE "value smaller than the rounding error of a naive evaluation, or a non-trivial exact zero"
static Reg a1({"C08", "orient2d_double", prop<2, double, false>, 600000, 12000000, 20, RULE});
static Reg a2({"C08", "orient2d_float", prop<2, float, false>, 600000, 12000000, 20, RULE});
static Reg a3({"C08", "orient3d_double", prop<3, double, false>, 500000, 10000000, 20, RULE});
static Reg a4({"C08", "orient3d_float", prop<3, float, false>, 500000, 10000000, 20, RULE});
static Reg a5({"C08", "incircle_double", prop<2, double, true>, 500000, 8000000, 20, RULE});
static Reg a6({"C08", "incircle_float", prop<2, float, true>, 500000, 8000000, 20, RULE});
static Reg a7({"C08", "insphere_double", prop<3, double, true>, 400000, 6000000, 20, RULE});
static Reg a8({"C08", "insphere_float", prop<3, float, true>, 400000, 6000000, 20, RULE});

int main(int argc, char **argv) { return vp_main(argc, argv); }
