// Exact signs of the orientation and in-sphere determinants, independent of the library's predicates:
// a long double evaluation with an error bound, and exact rational arithmetic where that cannot decide.
#pragma once
#include <array>
#include <cmath>
#include <gmpxx.h>

namespace ex {

template<typename T>
struct Num { // value and magnitude (the same expression with absolute values and plus signs)
    T v, m;
};

inline long double mag(long double x) { return std::fabs(x); }

template<unsigned N, typename T>
static T det(const std::array<std::array<T, N>, N> &a) {
    if constexpr (N == 1) return a[0][0];
    else if constexpr (N == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
    else {
        T r = 0;
        for (unsigned i = 0; i < N; ++i) {
            std::array<std::array<T, N - 1>, N - 1> b;
            for (unsigned k = 0, kk = 0; k < N; ++k) {
                if (k == i) continue;
                for (unsigned j = 1; j < N; ++j) b[kk][j - 1] = a[k][j];
                ++kk;
            }
            T t = a[i][0] * det<N - 1, T>(b);
            if (i % 2) r = r - t;
            else r = r + t;
        }
        return r;
    }
}

template<unsigned N>
static long double perm(const std::array<std::array<long double, N>, N> &a) {
    if constexpr (N == 1) return std::fabs(a[0][0]);
    else if constexpr (N == 2) return std::fabs(a[0][0] * a[1][1]) + std::fabs(a[0][1] * a[1][0]);
    else {
        long double r = 0;
        for (unsigned i = 0; i < N; ++i) {
            std::array<std::array<long double, N - 1>, N - 1> b;
            for (unsigned k = 0, kk = 0; k < N; ++k) {
                if (k == i) continue;
                for (unsigned j = 1; j < N; ++j) b[kk][j - 1] = a[k][j];
                ++kk;
            }
            r += std::fabs(a[i][0]) * perm<N - 1>(b);
        }
        return r;
    }
}

template<unsigned N, typename Fill> // Fill(auto &matrix) fills a matrix of long double or mpq_class
static int sgnDet(const Fill &fill) {
    std::array<std::array<long double, N>, N> a;
    fill(a);
    long double d = det<N, long double>(a), p = perm<N>(a);
    // a few dozen roundings; only 53 bits are assumed because the x87 precision may have been lowered (CGAL, predicates)
    if (std::isfinite(p) && std::fabs(d) > std::ldexp(p, -46) && p > 1e-4000L) return d > 0 ? 1 : -1;
    std::array<std::array<mpq_class, N>, N> q;
    fill(q);
    mpq_class e = det<N, mpq_class>(q);
    return sgn(e);
}

// sign of det(p0 - pD, p1 - pD, ...): positive for a counter-clockwise triangle
template<unsigned D, typename V>
static int orient(const std::array<V, D + 1> &p) {
    return sgnDet<D>([&](auto &a) {
        using T = std::decay_t<decltype(a[0][0])>;
        for (unsigned i = 0; i < D; ++i)
            for (unsigned j = 0; j < D; ++j) a[i][j] = T((double) p[i][j]) - T((double) p[D][j]);
    });
}

// > 0: q strictly inside the circumsphere of the simplex p, 0: on it, < 0: outside
template<unsigned D, typename V>
static int inside(const std::array<V, D + 1> &p, const V &q) {
    int o = orient<D, V>(p);
    int s = sgnDet<D + 1>([&](auto &a) {
        using T = std::decay_t<decltype(a[0][0])>;
        for (unsigned i = 0; i < D + 1; ++i) {
            T l = 0;
            for (unsigned j = 0; j < D; ++j) {
                a[i][j] = T((double) p[i][j]) - T((double) q[j]);
                l = l + a[i][j] * a[i][j];
            }
            a[i][D] = l;
        }
    });
    return o * s;
}

} // namespace ex
