// C20: blocked arrays against std::map
#include "vp.hpp"
#include "Geometry.h"
#include "datastructures/BlockedArray.hxx"
#include "datastructures/BlockedArray2.hxx"

using namespace vp;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

struct E {
    uint64_t v = 77;
};
typedef BlockedArray2<E, tIdType> BA;

static std::string show(const std::vector<tIdType> &v) {
    std::ostringstream o;
    o << "{";
    for (size_t i = 0; i < v.size() && i < 40; ++i) o << (i ? " " : "") << v[i];
    if (v.size() > 40) o << " ... " << v.size() << " ids";
    o << "}";
    return o.str();
}

struct Model {
    std::map<tIdType, std::pair<uint64_t, const E *>> m; // id -> value, address
    std::vector<std::pair<tIdType, tIdType>> blocks;
};

template<typename R>
static void parts(Src &s, R &r, std::vector<std::vector<const E *>> &out, unsigned depth, size_t limit) {
    if (depth && r.is_divisible() && s.chance(7, 8)) {
        R front(r, tbb::split());
        parts(s, front, out, depth - 1, limit);
        parts(s, r, out, depth - 1, limit);
        return;
    }
    out.emplace_back();
    for (auto it = r.begin(); it != r.end(); ++it) {
        out.back().push_back(&*it);
        if (out.back().size() > limit) VP_FAIL("a part of a split range does not end");
    }
}

template<typename F>
static bool throws(F f) {
    try {
        f();
    } catch (const Fail &) {
        throw;
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

static void check(Src &s, BA &a, const Model &M, const std::string &log) {
    const BA &ca = a;
    VP_EQ((uint64_t) a.lowerBound(), (uint64_t) M.m.begin()->first, "lowerBound after " << log);
    VP_EQ((uint64_t) a.upperBound(), (uint64_t) M.m.rbegin()->first + 1, "upperBound after " << log);
    VP_EQ((uint64_t) a.exact_size(), (uint64_t) M.m.size(), "exact_size after " << log);
    uint kept = s.draw(M.blocks.size());
    BlockedArray2Handle<BA, tIdType> h(a);
    BlockedArray2Handle<const BA, tIdType> ch(ca);
    auto inside = [&](tIdType id) {
        auto &e = M.m.at(id);
        uint hint = s.draw(M.blocks.size());
        VP_CHECK(a.contains(id, hint), "contains(" << id << ") with a hint after " << log);
        VP_CHECK(hint < M.blocks.size(), "contains(" << id << ") leaves hint " << hint << " after " << log);
        VP_CHECK(&ca.at(id, hint) == e.second, "at(" << id << ") const with a hint is another element after " << log);
        VP_CHECK(&a.at(id, kept) == e.second, "at(" << id << ") with a kept hint is another element after " << log);
        VP_CHECK(a.unsafe_contains(id), "unsafe_contains(" << id << ") after " << log);
        VP_CHECK(&a.unsafe_at(id) == e.second && &ca.unsafe_at(id) == e.second, "unsafe_at(" << id << ") is another element after " << log);
        VP_CHECK(h.contains(id) && ch.contains(id), "handle contains(" << id << ") after " << log);
        VP_CHECK(&h[id] == e.second && &h.at(id) == e.second && &ch.at(id) == e.second && &ch[id] == e.second,
                 "handle access to " << id << " is another element after " << log);
        VP_EQ(e.second->v, e.first, "element of id " << id << " after " << log);
    };
    auto outside = [&](tIdType id) {
        if (M.m.count(id)) return inside(id);
        uint hint = s.draw(M.blocks.size());
        VP_CHECK(!a.contains(id, hint), "contains(" << id << ") after " << log);
        VP_CHECK(!a.contains(id, kept), "contains(" << id << ") with a kept hint after " << log);
        VP_CHECK(!a.unsafe_contains(id), "unsafe_contains(" << id << ") after " << log);
        VP_CHECK(!h.contains(id) && !ch.contains(id), "handle contains(" << id << ") after " << log);
        uint h2 = hint;
        VP_CHECK(throws([&] { (void) a.at(id, h2); }), "at(" << id << ") does not reject the id after " << log);
        VP_CHECK(throws([&] { (void) ca.at(id, hint); }), "at(" << id << ") const does not reject the id after " << log);
    };
    // each block border, ids beside it and some ids in between, in random order
    std::vector<tIdType> probe;
    for (auto &b : M.blocks)
        for (tIdType id : {b.first, b.second - 1, b.second, b.first ? b.first - 1 : b.first, b.first + s.below(b.second - b.first)})
            probe.push_back(id);
    probe.push_back(s.draw(0));
    probe.push_back(0);
    probe.push_back(~tIdType(0));
    if (M.blocks.size() > 1) {
        auto g = M.blocks[s.below(M.blocks.size())].second;
        for (int i = 0; i < 3; ++i) probe.push_back(g + s.below(60));
    }
    for (size_t i = probe.size(); i > 1; --i) std::swap(probe[i - 1], probe[s.below(i)]);
    for (tIdType id : probe) outside(id);

    std::vector<const E *> want, seen;
    for (auto &e : M.m) want.push_back(e.second.second);
    for (auto it = a.begin(); it != a.end() && seen.size() <= want.size(); ++it) seen.push_back(&*it);
    auto ids = [&](const std::vector<const E *> &v) {
        std::vector<tIdType> r;
        std::map<const E *, tIdType> back;
        for (auto &e : M.m) back[e.second.second] = e.first;
        for (auto p : v) r.push_back(back.count(p) ? back[p] : 999999999);
        return show(r);
    };
    VP_CHECK(seen == want, "iteration after " << log << " visits " << ids(seen) << " instead of " << ids(want));
    seen.clear();
    for (auto it = ca.begin(); it != ca.end() && seen.size() <= want.size(); it++) seen.push_back(it.operator->());
    VP_CHECK(seen == want, "const iteration after " << log << " visits " << ids(seen) << " instead of " << ids(want));
    seen.clear();
    auto it = ca.end();
    for (size_t i = 0; i < want.size(); ++i) {
        --it;
        seen.push_back(&*it);
    }
    std::reverse(seen.begin(), seen.end());
    VP_CHECK(seen == want, "backward iteration after " << log << " visits " << ids(seen) << " instead of " << ids(want));
    VP_CHECK(it == ca.begin(), "backward iteration does not arrive at begin() after " << log);
    BA::const_range_type r(ca, s.pick({(size_t) 1, (size_t) 2, (size_t) 5, (size_t) 1000}));
    std::vector<std::vector<const E *>> ps;
    parts(s, r, ps, 10, want.size());
    seen.clear();
    std::ostringstream o;
    for (auto &p : ps) {
        seen.insert(seen.end(), p.begin(), p.end());
        o << ids(p) << " ";
    }
    VP_CHECK(seen == want, "split iteration after " << log << " visits " << o.str() << "instead of " << ids(want));
}

static void propBA2(Src &s, Ctx &c) {
    std::ostringstream log;
    uint64_t val = 1;
    std::vector<std::pair<tIdType, tIdType>> taken; // over both arrays
    tIdType off = s.chance(1, 8) ? (tIdType(1) << s.range(8, 62)) : 0;
    auto freeBlock = [&](tIdType &lo, tIdType &hi) {
        for (int tries = 0; tries < 20; ++tries) {
            unsigned mode = s.draw(3);
            if (mode && !taken.empty()) { // next to an existing one
                auto &b = taken[s.below(taken.size())];
                tIdType n = 1 + s.below(s.chance(1, 5) ? 60 : 8);
                if (mode == 1) {
                    lo = b.second + (s.chance(1, 2) ? 0 : s.below(10));
                    hi = lo + n;
                } else {
                    tIdType g = s.chance(1, 2) ? 0 : s.below(10);
                    if (b.first < n + g) continue;
                    hi = b.first - g;
                    lo = hi - n;
                }
            } else {
                lo = off + s.below(400);
                hi = lo + 1 + s.below(s.chance(1, 4) ? 60 : 6);
            }
            bool ok = true;
            for (auto &t : taken) ok = ok && (hi <= t.first || t.second <= lo);
            if (ok) {
                taken.emplace_back(lo, hi);
                return true;
            }
        }
        return false;
    };
    std::vector<std::unique_ptr<BA>> arr;
    std::vector<Model> M;
    auto fill = [&](BA &a, Model &m, tIdType lo, tIdType hi, BA::block *b) {
        m.blocks.emplace_back(lo, hi);
        uint hint = 0;
        for (tIdType id = lo; id < hi; ++id) {
            E &e = b && s.chance(1, 2) ? (*b)[id] : s.chance(1, 2) ? a.unsafe_at(id) : a.at(id, hint);
            VP_EQ(e.v, (uint64_t) 77, "fresh element " << id << " after " << log.str());
            e.v = ++val;
            m.m[id] = {val, &e};
        }
    };
    for (int i = 0; i < 2; ++i) {
        tIdType lo, hi;
        if (!freeBlock(lo, hi)) throw Discard();
        log << "new" << i << "[" << lo << "," << hi << ") ";
        arr.push_back(std::make_unique<BA>(lo, hi));
        M.emplace_back();
        fill(*arr[i], M[i], lo, hi, nullptr);
    }
    size_t ops = s.length(1, 25), merges = 0;
    for (size_t o = 0; o < ops; ++o) {
        size_t a = s.draw(arr.size());
        unsigned what = s.draw(12);
        tIdType lo, hi;
        if (what < 8) {
            if (!freeBlock(lo, hi)) continue;
            log << "add" << a << "[" << lo << "," << hi << ") ";
            auto &b = arr[a]->addBlock(lo, hi);
            VP_CHECK(b.min() == lo && b.max() == hi && b.size() == hi - lo, "the block returned by addBlock after " << log.str());
            fill(*arr[a], M[a], lo, hi, &b);
        } else if (what < 9 && arr.size() > 1) {
            log << "merge0(1) ";
            arr[0]->merge(std::move(*arr[1]));
            M[0].m.insert(M[1].m.begin(), M[1].m.end());
            M[0].blocks.insert(M[0].blocks.end(), M[1].blocks.begin(), M[1].blocks.end());
            arr.pop_back();
            M.pop_back();
            ++merges;
        } else if (what == 9) {
            if (arr.size() == 1) {
                if (!freeBlock(lo, hi)) continue;
                log << "new1[" << lo << "," << hi << ") ";
                arr.push_back(std::make_unique<BA>(lo, hi));
                M.emplace_back();
                fill(*arr[1], M[1], lo, hi, nullptr);
            }
        } else if (what == 10) {
            log << "move" << a << " ";
            arr[a] = std::make_unique<BA>(std::move(*arr[a]));
        } else {
            log << "assign" << a << " ";
            // onto an array with blocks of its own
            auto t = std::make_unique<BA>(0, 1 + s.below(4));
            size_t extra = s.below(4);
            for (size_t i = 0; i < extra; ++i) t->addBlock(10 + 10 * i, 15 + 10 * i);
            if (extra) t->unsafe_at(10 * extra + 1).v = 1;
            *t = std::move(*arr[a]);
            arr[a] = std::move(t);
        }
        if (s.chance(1, 4)) check(s, *arr[a < arr.size() ? a : 0], M[a < arr.size() ? a : 0], log.str());
    }
    for (size_t a = 0; a < arr.size(); ++a) check(s, *arr[a], M[a], log.str());
    size_t most = 0;
    for (auto &m : M) most = std::max(most, m.blocks.size());
    c.label("merged", merges > 0);
    c.nontrivial(most >= 3);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

template<typename A, size_t BS>
static void propBA1(Src &s, Ctx &c) {
    std::ostringstream log;
    size_t cap0 = s.pick({(size_t) 0, (size_t) 1, BS - 1, BS, BS + 1, 3 * BS, s.below(6 * BS)});
    auto a = std::make_unique<A>(cap0);
    log << "new(" << cap0 << ") ";
    auto up = [](size_t n) { return (n + BS - 1) / BS * BS; };
    size_t cap = up(cap0);
    std::map<size_t, std::pair<long, long *>> m;
    long val = 0;
    size_t ops = s.length(1, 40);
    bool grew = false;
    for (size_t o = 0; o < ops; ++o) {
        unsigned what = s.draw(10);
        if (what == 0) {
            size_t n = s.below(cap + 3 * BS);
            log << "reserve(" << n << ") ";
            a->reserve(n);
            if (up(n) > cap) {
                cap = up(n);
                grew = true;
            }
        } else if (what == 1) {
            log << "move ";
            a = std::make_unique<A>(std::move(*a));
        } else if (what < 6) {
            if (!cap) continue;
            size_t i = s.chance(1, 3) ? cap - 1 - s.below(std::min<size_t>(cap, 3)) : s.below(cap);
            log << "set(" << i << ") ";
            long &e = s.chance(1, 2) ? (*a)[i] : a->at(i);
            if (m.count(i)) VP_CHECK(m[i].second == &e, "element " << i << " moved after " << log.str());
            e = ++val;
            m[i] = {val, &e};
        } else {
            size_t i = s.pick({cap, cap + 1, cap + BS, cap + s.below(1000), std::numeric_limits<size_t>::max() - s.below(3)});
            VP_CHECK(throws([&] { (void) a->at(i); }), "at(" << i << ") does not reject the index beyond capacity " << cap << " after " << log.str());
            const A &ca = *a;
            VP_CHECK(throws([&] { (void) ca.at(i); }), "at(" << i << ") const does not reject the index beyond capacity " << cap << " after " << log.str());
        }
    }
    const A &ca = *a;
    std::set<long *> addrs;
    for (auto &e : m) {
        VP_CHECK(&(*a)[e.first] == e.second.second && &ca[e.first] == e.second.second && &a->at(e.first) == e.second.second &&
                         &ca.at(e.first) == e.second.second,
                 "access to " << e.first << " gives another element after " << log.str());
        VP_EQ(*e.second.second, e.second.first, "element " << e.first << " after " << log.str());
        addrs.insert(e.second.second);
    }
    VP_EQ(addrs.size(), m.size(), "number of different elements after " << log.str());
    c.nontrivial(m.size() > 1);
    c.label("grew", grew);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

static Reg r1({"C20", "blocked-array-2", propBA2, 120000, 10000000, 20, "block additions, merges, moves and assignments on two arrays against std::map; non-trivial: an array with three or more blocks"});
static Reg r2({"C20", "blocked-array", propBA1<BlockedArray<long, 16>, 16>, 100000, 3000000, 20, "growth and access on the simple array, block size 16; non-trivial: two elements written"});
static Reg r3({"C20", "blocked-array-1", propBA1<BlockedArray<long, 1>, 1>, 30000, 1000000, 20, "the same with block size 1; non-trivial: two elements written"});
static Reg r4({"C20", "concurrent-blocked-array", propBA1<Concurrent_BlockedArray<long, 16>, 16>, 100000, 3000000, 20, "the same on the concurrent array; non-trivial: two elements written"});
int main(int argc, char **argv) { return vp_main(argc, argv); }
