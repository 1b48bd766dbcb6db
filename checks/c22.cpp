// C22: the simplex container against a map of live simplices
#include "vp.hpp"
#include "Geometry.h"
#include "datastructures/Bit_Set.hxx"

using namespace vp;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

static std::string show(const std::vector<tIdType> &v) {
    std::ostringstream o;
    o << "{";
    for (size_t i = 0; i < v.size() && i < 40; ++i) o << (i ? " " : "") << v[i];
    if (v.size() > 40) o << " ... " << v.size() << " ids";
    o << "}";
    return o.str();
}

template<uint D>
struct Model {
    std::map<tIdType, std::array<tIdType, D + 1>> live;
    std::set<tIdType> covered;
    std::vector<tIdType> hull;
    size_t blocks = 0;
};

template<typename R>
static void parts(Src &s, R &r, std::vector<std::vector<tIdType>> &out, unsigned depth, size_t limit) {
    if (depth && r.is_divisible() && s.chance(7, 8)) {
        R front(r, tbb::split());
        parts(s, front, out, depth - 1, limit);
        parts(s, r, out, depth - 1, limit);
        return;
    }
    out.emplace_back();
    for (auto it = r.begin(); it != r.end(); ++it) {
        out.back().push_back((*it).id);
        if (out.back().size() > limit) VP_FAIL("a part of a split range does not end");
    }
}

template<uint D>
static std::array<uint, 256> fp(const Model<D> &M, const std::map<tIdType, tHashType> &fps) {
    std::array<uint, 256> h;
    h.fill(0);
    for (auto &l : M.live) h[fps.at(l.first) & 0xFF] ^= fps.at(l.first);
    return h;
}

template<uint D>
static void check(Src &s, dSimplices<D, double> &a, const Model<D> &M, const std::map<tIdType, tHashType> &fps, const std::string &log) {
    const auto &ca = a;
    std::vector<tIdType> want, seen;
    for (auto &l : M.live) want.push_back(l.first);
    dSimplicesHandle<D, double> h(a);
    dSimplicesConstHandle<D, double> ch(ca);
    uint kept = s.draw(M.blocks);
    std::vector<tIdType> probe(M.covered.begin(), M.covered.end());
    probe.push_back(*M.covered.rbegin() + 1);
    probe.push_back(*M.covered.begin() - 1);
    probe.push_back(s.below(600));
    probe.push_back(dSimplex<D, double>::cINF);
    if (probe.size() > 60) {
        for (size_t i = probe.size(); i > 1; --i) std::swap(probe[i - 1], probe[s.below(i)]);
        probe.resize(60);
    }
    for (tIdType id : probe) {
        bool in = M.live.count(id), range = M.covered.count(id);
        uint hint = s.draw(M.blocks);
        VP_EQ(ca.contains(id, hint), in, "contains(" << id << ") after " << log);
        VP_EQ(ca.contains(id, kept), in, "contains(" << id << ") with a kept hint after " << log);
        VP_EQ(ca.unsafe_contains(id), in, "unsafe_contains(" << id << ") after " << log);
        VP_EQ(h.contains(id), in, "handle contains(" << id << ") after " << log);
        VP_EQ(ch.contains(id), in, "const handle contains(" << id << ") after " << log);
        hint = s.draw(M.blocks);
        VP_EQ(ca.inRange(id, hint), range, "inRange(" << id << ") after " << log);
        VP_EQ(ca.unsafe_inRange(id), range, "unsafe_inRange(" << id << ") after " << log);
        VP_EQ(ch.inRange(id), range, "handle inRange(" << id << ") after " << log);
        dSimplex<D, double> q;
        q.id = id;
        hint = s.draw(M.blocks);
        VP_EQ(ca.contains(q, hint), in, "contains(simplex " << id << ") after " << log);
        VP_EQ(ca.unsafe_contains(q), in, "unsafe_contains(simplex " << id << ") after " << log);
        VP_EQ(ca.unsafe_inRange(q), range, "unsafe_inRange(simplex " << id << ") after " << log);
        VP_EQ(ca.inRange(q, hint), range, "inRange(simplex " << id << ") after " << log);
        if (in) {
            VP_CHECK(ch[id].id == id && ch[id].vertices == M.live.at(id), "simplex " << id << " changed after " << log);
        } else if (range) VP_CHECK(!(dSimplex<D, double>::isFinite(ch[id].id)), "deleted simplex " << id << " is " << ch[id].id << " after " << log);
    }
    for (auto it = ca.begin(); it != ca.end() && seen.size() <= want.size(); ++it) {
        seen.push_back(it->id);
        if (M.live.count(it->id)) VP_CHECK((*it).vertices == M.live.at(it->id), "iterated simplex " << it->id << " changed after " << log);
    }
    VP_CHECK(seen == want, "iteration after " << log << " visits " << show(seen) << " instead of " << show(want));
    seen.clear();
    for (auto it = a.begin(); it != a.end() && seen.size() <= want.size(); it++) seen.push_back((*it).id);
    VP_CHECK(seen == want, "iteration after " << log << " visits " << show(seen) << " instead of " << show(want));
    seen.clear();
    auto it = ca.end();
    for (size_t i = 0; i < want.size(); ++i) {
        --it;
        seen.push_back(it->id);
    }
    std::reverse(seen.begin(), seen.end());
    VP_CHECK(seen == want, "backward iteration after " << log << " visits " << show(seen) << " instead of " << show(want));
    std::vector<std::vector<tIdType>> ps;
    size_t grain = s.pick({(size_t) 1, (size_t) 2, (size_t) 5, (size_t) 1000});
    if (s.chance(1, 2)) {
        typename dSimplices<D, double>::const_range_type r(ca, grain);
        parts(s, r, ps, 10, want.size());
    } else {
        typename dSimplices<D, double>::range_type r(a, grain);
        parts(s, r, ps, 10, want.size());
    }
    seen.clear();
    std::ostringstream o;
    for (auto &p : ps) {
        seen.insert(seen.end(), p.begin(), p.end());
        o << show(p) << " ";
    }
    VP_CHECK(seen == want, "split iteration after " << log << " visits " << o.str() << "instead of " << show(want));
    VP_CHECK(ca.genFingerprint() == fp(M, fps), "fingerprint after " << log << " is not the one of the live simplices " << show(want));
    std::vector<tIdType> hull(a.convexHull.begin(), a.convexHull.end());
    std::multiset<tIdType> h1(hull.begin(), hull.end()), h2(M.hull.begin(), M.hull.end());
    VP_CHECK(h1 == h2, "hull list after " << log << " is " << show(hull) << " instead of " << show(M.hull));
    VP_EQ((uint64_t) a.exact_size(), (uint64_t) M.covered.size(), "exact_size after " << log);
}

template<uint D>
static void prop(Src &s, Ctx &c) {
    typedef dSimplices<D, double> DS;
    std::ostringstream log;
    std::vector<std::pair<tIdType, tIdType>> taken;
    std::map<tIdType, tHashType> fps;
    auto freeBlock = [&](tIdType &lo, tIdType &hi) {
        for (int tries = 0; tries < 20; ++tries) {
            tIdType n = 1 + s.below(s.chance(1, 3) ? 60 : 6);
            if (s.chance(1, 2) && !taken.empty()) {
                auto &b = taken[s.below(taken.size())];
                lo = b.second + (s.chance(1, 2) ? 0 : s.below(10));
            } else lo = 1 + s.below(400);
            hi = lo + n;
            bool ok = true;
            for (auto &t : taken) ok = ok && (hi <= t.first || t.second <= lo);
            if (ok) {
                taken.emplace_back(lo, hi);
                return true;
            }
        }
        return false;
    };
    auto fill = [&](DS &a, Model<D> &m, tIdType lo, tIdType hi) {
        ++m.blocks;
        uint hint = 0;
        unsigned density = s.pick({10u, 10u, 5u, 1u, 0u});
        for (tIdType id = lo; id < hi; ++id) {
            m.covered.insert(id);
            VP_CHECK(!a.unsafe_contains(id), "simplex " << id << " is contained before it was stored after " << log.str());
            if (!s.chance(density, 10)) continue;
            dSimplex<D, double> x;
            x.id = id;
            x.neighbors.fill(dSimplex<D, double>::cINF);
            for (uint d = 0; d <= D; ++d) x.vertices[d] = 1 + s.below(30) + 30 * d;
            x.genFingerprint();
            fps[id] = x.fingerprint();
            m.live[id] = x.vertices;
            if (s.chance(1, 2)) a.unsafe_at(id) = x;
            else a.at(id, hint) = x;
            if (s.chance(1, 4)) {
                a.convexHull.push_back(id);
                m.hull.push_back(id);
            }
        }
        if (s.chance(1, 60) && !m.live.empty()) // a long list (an id may be listed more than once)
            for (size_t n = s.below(300); n; --n) {
                auto it = m.live.lower_bound(lo + s.below(hi - lo));
                if (it == m.live.end()) continue;
                a.convexHull.push_back(it->first);
                m.hull.push_back(it->first);
            }
    };
    std::vector<std::unique_ptr<DS>> arr;
    std::vector<Model<D>> M;
    auto create = [&](int i) {
        tIdType lo, hi;
        if (!freeBlock(lo, hi)) return false;
        log << "new" << i << "[" << lo << "," << hi << ") ";
        arr.push_back(std::make_unique<DS>(lo, hi, s.below(10)));
        M.emplace_back();
        fill(*arr.back(), M.back(), lo, hi);
        return true;
    };
    if (!create(0) || !create(1)) throw Discard();
    size_t ops = s.length(1, 20), del = 0, most = 0;
    for (size_t o = 0; o < ops; ++o) {
        size_t a = s.draw(arr.size());
        unsigned what = s.draw(12);
        tIdType lo, hi;
        if (what < 4) {
            if (!freeBlock(lo, hi)) continue;
            log << "add" << a << "[" << lo << "," << hi << ") ";
            arr[a]->addBlock(lo, hi);
            ++M[a].blocks;
            --M[a].blocks;
            fill(*arr[a], M[a], lo, hi);
        } else if (what == 4 && arr.size() > 1) {
            bool cv = s.chance(2, 3);
            log << "merge0(1," << cv << ") ";
            if (cv && s.chance(1, 2)) arr[0]->merge(std::move(*arr[1]));
            else arr[0]->merge(std::move(*arr[1]), cv);
            M[0].live.insert(M[1].live.begin(), M[1].live.end());
            M[0].covered.insert(M[1].covered.begin(), M[1].covered.end());
            M[0].blocks += M[1].blocks;
            if (cv) M[0].hull.insert(M[0].hull.end(), M[1].hull.begin(), M[1].hull.end());
            arr.pop_back();
            M.pop_back();
        } else if (what == 5) {
            if (arr.size() == 1 && !create(1)) continue;
        } else if (what < 8) { // filter
            std::set<tIdType> f;
            unsigned dens = s.pick({1u, 5u, 10u});
            for (auto &l : M[a].live)
                if (s.chance(dens, 10)) f.insert(l.first);
            log << "filter" << a << show(std::vector<tIdType>(f.begin(), f.end())) << " ";
            if (s.chance(2, 3)) {
                Simplex_Ids F(f.size() + 1);
                for (auto id : f) F.insert(id);
                arr[a]->filter(F);
            } else {
                Bit_Set F(*M[a].covered.begin(), *M[a].covered.rbegin() + 1);
                for (auto id : f) F.insert(id);
                arr[a]->filter(F);
            }
            std::vector<tIdType> nh;
            for (auto id : M[a].hull)
                if (!f.count(id)) nh.push_back(id);
            M[a].hull = nh;
            for (auto id : f) M[a].live.erase(id);
            del += f.size();
        } else if (what < 10) { // delete single ones by hand
            if (M[a].live.empty()) continue;
            auto it = M[a].live.begin();
            std::advance(it, s.below(M[a].live.size()));
            log << "delete" << a << "(" << it->first << ") ";
            arr[a]->unsafe_at(it->first).id = dSimplex<D, double>::cINF;
            M[a].live.erase(it);
            ++del;
        } else if (what == 10) {
            log << "move" << a << " ";
            arr[a] = std::make_unique<DS>(std::move(*arr[a]));
        } else {
            log << "assign" << a << " ";
            auto t = std::make_unique<DS>();
            if (s.chance(1, 2)) {
                t->addBlock(5, 9);
                t->convexHull.push_back(5);
            }
            *t = std::move(*arr[a]);
            arr[a] = std::move(t);
        }
        for (auto &m : M) most = std::max(most, m.blocks);
        if (s.chance(1, 4)) {
            size_t i = a < arr.size() ? a : 0;
            check<D>(s, *arr[i], M[i], fps, log.str());
        }
    }
    for (size_t a = 0; a < arr.size(); ++a) check<D>(s, *arr[a], M[a], fps, log.str());
    c.label("deletions", del > 0);
    c.nontrivial(del > 0 && most >= 2);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

// the parallel use of its range: every live simplex once
template<uint D>
static void propPar(Src &s, Ctx &c) {
    dSimplices<D, double> a(1, 2, 0);
    std::map<tIdType, size_t> want;
    std::set<tIdType> del;
    tIdType at = 2;
    size_t nb = s.range(1, 6);
    unsigned mode = s.draw(3);
    for (size_t b = 0; b < nb; ++b) {
        at += s.chance(1, 2) ? 0 : s.below(2000);
        tIdType n = 1 + s.below(3000);
        a.addBlock(at, at + n);
        uint hint = 0;
        for (tIdType id = at; id < at + n; ++id) {
            if (mode == 1 && mix(id) % 3 == 0) continue;
            if (mode == 2 && (id / 700) % 2) continue;
            a.at(id, hint).id = id;
            want[id] = 1;
        }
        at += n;
    }
    Simplex_Ids F(want.size() + 10);
    for (auto it = want.begin(); it != want.end();) {
        if (mix(it->first * 7) % 5 == 0) {
            F.insert(it->first);
            it = want.erase(it);
        } else ++it;
    }
    a.filter(F);
    tbb::concurrent_vector<tIdType> seen;
    tbb::parallel_for(((const dSimplices<D, double> &) a).range(), [&](const auto &r) {
        for (const auto &x : r) seen.push_back(x.id);
    });
    std::map<tIdType, size_t> got;
    for (auto id : seen) ++got[id];
    for (auto &g : got) VP_CHECK(want.count(g.first), "parallel iteration visits " << g.first << ", which is not live");
    for (auto &w : want) VP_EQ(got[w.first], (size_t) 1, "visits of simplex " << w.first << " by the parallel iteration");
    c.nontrivial(want.size() > 1000);
    c.describe([&](std::ostream &o) { o << nb << " blocks, " << want.size() << " live, pattern " << mode; });
}

static Reg r1({"C22", "2d", prop<2>, 400000, 15000000, 20, "stores, deletions, filters, merges and moves on two containers against a map; non-trivial: something deleted and at least two blocks"});
static Reg r2({"C22", "3d", prop<3>, 300000, 9000000, 20, "the same in 3D"});
static Reg r3({"C22", "parallel", propPar<2>, 6000, 200000, 30, "parallel_for over up to 18000 simplices after a filter; non-trivial: more than 1000 live", true, 4});
int main(int argc, char **argv) { return vp_main(argc, argv); }
