// Oracles for triangulations that share no code with the library's own verification
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include "Geometry.h"
#include "exact.hpp"

namespace tri {

template<size_t N>
struct ArrHash {
    size_t operator()(const std::array<tIdType, N> &a) const {
        uint64_t h = 1469598103934665603ull;
        for (auto x : a) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
        return h;
    }
};

template<uint D, typename P>
static std::vector<dSimplex<D, P>> live(const dSimplices<D, P> &dt) {
    std::vector<dSimplex<D, P>> r;
    for (const auto &s : dt) r.push_back(s);
    return r;
}

template<uint D, typename P>
struct Report {
    std::string err;      // empty: everything holds
    size_t ties = 0;      // neighbours whose opposite vertex lies exactly on the circumsphere
    size_t finiteTies = 0; // of these, with an input point as opposite vertex
    size_t simplices = 0;
};

template<uint D, typename P>
static std::string str(const dSimplex<D, P> &s) {
    std::ostringstream o;
    o << "simplex " << (int64_t) s.id << " [";
    for (auto v : s.vertices) o << " " << (int64_t) v;
    o << " ]";
    return o.str();
}

// dt is the Delaunay triangulation of exactly the points in ids (which may hold corner points)
template<uint D, typename P, class Pts>
static Report<D, P> delaunay(const dSimplices<D, P> &dt, const Pts &pts, const std::set<tIdType> &ids, bool hullLists = true) {
    Report<D, P> R;
    auto bad = [&](const std::string &m) { if (R.err.empty()) R.err = m; };
    using V = dVector<D, P>;
    std::vector<V> co;
    std::vector<tIdType> idv(ids.begin(), ids.end());
    std::unordered_map<tIdType, V> at;
    for (auto id : idv) at[id] = pts[id].coords;
    auto L = live<D, P>(dt);
    R.simplices = L.size();
    std::unordered_map<tIdType, const dSimplex<D, P> *> byId;
    std::unordered_map<std::array<tIdType, D>, std::vector<std::pair<const dSimplex<D, P> *, uint>>, ArrHash<D>> facets;
    std::set<tIdType> used, inf;
    for (auto &s : L) {
        if (s.id == dSimplex<D, P>::cINF) { bad("live simplex with the id of deleted ones"); return R; }
        if (!byId.emplace(s.id, &s).second) { bad("id used twice: " + str(s)); return R; }
        for (uint d = 0; d <= D; ++d) {
            if (!ids.count(s.vertices[d])) { bad(str(s) + " has a vertex that is not among the points"); return R; }
            if (d && s.vertices[d - 1] >= s.vertices[d]) { bad(str(s) + " vertices not ascending"); return R; }
            used.insert(s.vertices[d]);
        }
        auto t = s;
        if (t.genFingerprint() != s.fingerprint()) { bad(str(s) + " fingerprint does not belong to its vertices"); return R; }
        if (!s.isFinite()) inf.insert(s.id);
        for (uint d = 0; d <= D; ++d) {
            std::array<tIdType, D> f;
            for (uint k = 0, j = 0; k <= D; ++k) if (k != d) f[j++] = s.vertices[k];
            facets[f].emplace_back(&s, d);
        }
    }
    if (ids.size() > D && !L.empty())
        for (auto id : ids) if (!used.count(id)) { bad("point " + std::to_string((int64_t) id) + " is in no simplex"); return R; }
    if (hullLists) {
        std::set<tIdType> h;
        for (auto id : dt.convexHull) {
            if (!h.insert(id).second) { bad("convex hull lists simplex " + std::to_string(id) + " twice"); return R; }
        }
        if (h != inf) {
            std::ostringstream o;
            o << "convex hull lists " << h.size() << " simplices, " << inf.size() << " have an infinite vertex";
            bad(o.str());
            return R;
        }
    }
    auto verts = [&](const dSimplex<D, P> &s) {
        std::array<V, D + 1> v;
        for (uint k = 0; k <= D; ++k) v[k] = at[s.vertices[k]];
        return v;
    };
    for (auto &s : L)
        if (ex::orient<D, V>(verts(s)) == 0) { bad(str(s) + " is flat"); return R; }
    for (auto &[f, l] : facets) {
        if (l.size() > 2) { bad("facet of " + str(*l[0].first) + " shared by more than two simplices"); return R; }
        std::array<V, D + 1> a;
        for (uint k = 0; k < D; ++k) a[k] = at[f[k]];
        if (l.size() == 1) {
            auto &s = *l[0].first;
            if (s.neighbors[l[0].second] != (dSimplex<D, P>::cINF)) {
                bad(str(s) + " names a neighbour at a facet no other simplex has");
                return R;
            }
            a[D] = at[s.vertices[l[0].second]];
            int o = ex::orient<D, V>(a);
            for (auto id : idv) {
                a[D] = at[id];
                if (ex::orient<D, V>(a) == -o) {
                    bad(str(s) + " has a facet without neighbour that is not on the convex hull");
                    return R;
                }
            }
        } else {
            for (int x = 0; x < 2; ++x) {
                auto &s = *l[x].first, &t = *l[1 - x].first;
                if (s.neighbors[l[x].second] != t.id) {
                    std::ostringstream o;
                    o << str(s) << " has neighbour " << (int64_t) s.neighbors[l[x].second] << " opposite vertex "
                      << (int64_t) s.vertices[l[x].second] << " where it shares the facet with " << str(t);
                    bad(o.str());
                    return R;
                }
            }
            auto &s = *l[0].first, &t = *l[1].first;
            a[D] = at[s.vertices[l[0].second]];
            int o = ex::orient<D, V>(a);
            a[D] = at[t.vertices[l[1].second]];
            if (ex::orient<D, V>(a) != -o) { bad(str(s) + " and " + str(t) + " overlap"); return R; }
            int in = ex::inside<D, V>(verts(s), a[D]);
            if (in > 0) {
                bad("vertex " + std::to_string((int64_t) t.vertices[l[1].second]) + " lies inside the circumsphere of " + str(s));
                return R;
            }
            if (in == 0) {
                ++R.ties;
                if (dPoint<D, P>::isFinite(s.vertices[l[0].second]) || dPoint<D, P>::isFinite(t.vertices[l[1].second])) ++R.finiteTies;
            }
        }
    }
    return R;
}

// same simplices, same neighbour relation; empty when equal
template<uint D, typename P>
static std::string same(const dSimplices<D, P> &A, const dSimplices<D, P> &B) {
    using Vs = std::array<tIdType, D + 1>;
    auto a = live<D, P>(A), b = live<D, P>(B);
    auto index = [](const std::vector<dSimplex<D, P>> &l, std::string &e, const char *who) {
        std::unordered_map<tIdType, Vs> byId;
        for (auto &s : l) if (!byId.emplace(s.id, s.vertices).second) e = std::string(who) + " uses an id twice";
        std::map<Vs, std::array<Vs, D + 1>> m;
        Vs none;
        none.fill(0);
        for (auto &s : l) {
            std::array<Vs, D + 1> n;
            for (uint d = 0; d <= D; ++d) {
                if (s.neighbors[d] == (dSimplex<D, P>::cINF)) n[d] = none;
                else {
                    auto it = byId.find(s.neighbors[d]);
                    if (it == byId.end()) {
                        e = std::string(who) + ": " + str(s) + " names the neighbour " + std::to_string((int64_t) s.neighbors[d]) + " which does not exist";
                        n[d] = none;
                    } else n[d] = it->second;
                }
            }
            if (!m.emplace(s.vertices, n).second) e = std::string(who) + " holds " + str(s) + " twice";
        }
        return m;
    };
    std::string e;
    auto ma = index(a, e, "the first triangulation"), mb = index(b, e, "the second triangulation");
    if (!e.empty()) return e;
    for (auto &[k, n] : ma) {
        auto it = mb.find(k);
        dSimplex<D, P> s;
        s.id = 0, s.vertices = k;
        if (it == mb.end()) return "only in the first triangulation: " + str(s);
        if (it->second != n) return "neighbours differ: " + str(s);
    }
    for (auto &[k, n] : mb)
        if (!ma.count(k)) {
            dSimplex<D, P> s;
            s.id = 0, s.vertices = k;
            return "only in the second triangulation: " + str(s);
        }
    return "";
}

} // namespace tri
