// C15-C17: the hash set, map and multimap against std::set / std::map / std::multimap
#include <memory>
#include <unordered_map>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/split_member.hpp>
#include "vp.hpp"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"

using namespace vp;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

template<typename K>
struct Keys {
    std::vector<K> pool;
    // spread: the growing tables answer long probe chains by growing, so that many keys equal in their low
    // bits make them huge; they get moderate collisions only
    // bulk: now and then hundreds of keys, inserted in runs, so that the tables reach sizes at which they grow
    // repeatedly, are copied in several blocks and, if fixed, have long probe chains
    bool bulk = false;
    explicit Keys(Src &s, bool spread = false) {
        bulk = s.chance(1, 250);
        size_t n = bulk ? s.range<size_t>(100, 1500) : s.range<size_t>(1, 40);
        unsigned mode = s.draw(spread ? 4 : 5);
        for (size_t i = 0; i < n; ++i) {
            K k;
            switch (mode) {
                case 0: k = (K) (i + 1); break;
                case 1: k = (K) ((i + 1) << (spread ? s.pick({2u, 4u, 5u}) : s.pick({4u, 8u, 16u}))); break;
                case 2: k = (K) s.draw(0); break;
                case 3: k = (K) (std::numeric_limits<K>::max() - i); break;
                default: k = (K) ((K) 1 << (i % (sizeof(K) * 8))); break;
            }
            pool.push_back(k == 0 ? 1 : k);
        }
    }
    K pick(Src &s) { return pool[s.draw(pool.size())]; }
    // the keys inserted by one operation
    std::vector<K> run(Src &s, std::ostream &log) {
        if (!bulk) return {pick(s)};
        size_t a = s.draw(pool.size()), n = s.chance(1, 3) ? 1 : 1 + s.draw(pool.size() - a);
        log << n << " keys from #" << a << ": ";
        return std::vector<K>(pool.begin() + a, pool.begin() + a + n);
    }
    // some keys
    std::set<K> some(Src &s) {
        std::set<K> f;
        size_t n = s.draw(pool.size() + 1);
        if (bulk) { // a run
            size_t a = s.draw(pool.size());
            for (size_t i = 0; i < n; ++i) f.insert(pool[(a + i) % pool.size()]);
            return f;
        }
        for (size_t i = 0; i < n; ++i) f.insert(pick(s));
        return f;
    }
};

// visits a range through a random recursive split
template<typename R, typename F>
static void splitVisit(Src &s, R &r, F f, unsigned depth, size_t &leaves) {
    if (depth && r.is_divisible() && s.chance(7, 8)) {
        R right(r, tbb::split());
        if (s.chance(1, 2)) {
            splitVisit(s, right, f, depth - 1, leaves);
            splitVisit(s, r, f, depth - 1, leaves);
        } else {
            splitVisit(s, r, f, depth - 1, leaves);
            splitVisit(s, right, f, depth - 1, leaves);
        }
        return;
    }
    ++leaves;
    for (auto it = r.begin(); it < r.end(); ++it) f(*it);
}

template<typename K>
static std::string show(const std::multiset<K> &v) {
    std::ostringstream o;
    o << "{";
    size_t n = 0;
    for (auto &x : v) {
        if (n++ == 20) {
            o << " ...";
            break;
        }
        o << (n > 1 ? " " : "") << x;
    }
    o << "}";
    return o.str();
}

// ------------------------------------------------------------------------------------------ sets
template<typename S, typename K>
static void checkSet(Src &s, const S &set, const std::set<K> &m, const std::vector<K> &pool, const char *when) {
    VP_EQ((size_t) set.size(), m.size(), "size " << when);
    VP_EQ(set.empty(), m.empty(), "empty() " << when);
    for (K k : pool) {
        VP_EQ((bool) set.contains(k), m.count(k) > 0, "contains(" << k << ") " << when);
        VP_EQ((size_t) set.count(k), m.count(k), "count(" << k << ") " << when);
    }
    std::multiset<K> want(m.begin(), m.end()), seen;
    size_t guard = 0;
    for (auto it = set.begin(); it != set.end(); ++it) {
        seen.insert(*it);
        if (++guard > 100000) break;
    }
    VP_CHECK(seen == want, "iteration " << when << " yields " << show(seen) << " instead of " << show(want));
    if (seen.size() > 1 && s.chance(1, 4)) {
        // backwards from the last element
        std::multiset<K> back;
        auto it = set.end();
        for (size_t i = 0; i < want.size(); ++i) {
            --it;
            back.insert(*it);
        }
        VP_CHECK(back == want, "iterating backwards " << when << " yields " << show(back));
    }
    seen.clear();
    size_t leaves = 0;
    typename S::const_range_type r(set, s.pick({(size_t) 1, (size_t) 2, (size_t) 5, (size_t) 1000}));
    splitVisit(s, r, [&](K k) { seen.insert(k); }, 8, leaves);
    VP_CHECK(seen == want, "split iteration " << when << " over " << leaves << " parts yields " << show(seen) << " instead of " << show(want));
}

template<typename K, bool G>
static void seqSet(Src &s, Ctx &c) {
    Keys<K> keys(s);
    std::vector<std::unique_ptr<LP_Set<K, G>>> sets;
    std::vector<std::set<K>> models;
    std::ostringstream log;
    size_t fixed = keys.bulk ? keys.pool.size() + 2 : 128;
    auto cap = [&]() -> size_t { return G ? s.pick({(size_t) 1, (size_t) 0, (size_t) 2, (size_t) 3, (size_t) 8, (size_t) 100}) : fixed; };
    for (int i = 0; i < 2; ++i) {
        size_t n = cap();
        log << "new(" << n << ") ";
        sets.push_back(std::make_unique<LP_Set<K, G>>(n));
        models.emplace_back();
    }
    size_t ops = s.length(1, 60);
    size_t muts = 0;
    for (size_t o = 0; o < ops; ++o) {
        size_t a = s.draw(2);
        auto &S = sets[a];
        auto &M = models[a];
        unsigned what = s.draw(24);
        if (what < 12) {
            log << "insert" << a;
            auto run = keys.run(s, log);
            log << "(" << run[0] << ") ";
            for (K k : run) {
                bool fresh = M.insert(k).second;
                VP_EQ(S->insert(k), fresh, "insert(" << k << ") after " << log.str());
            }
            ++muts;
        } else if (what < 14) {
            K k = keys.pick(s);
            VP_EQ(S->contains(k), M.count(k) > 0, "contains(" << k << ") after " << log.str());
        } else if (what == 14) {
            size_t n = s.pick({(size_t) 1, (size_t) 2, (size_t) 4}) * (M.size() + 1) + 1;
            log << "rehash" << a << "(" << n << ") ";
            S->rehash(n);
        } else if (what == 15) {
            log << "copy" << a << " ";
            auto n = std::make_unique<LP_Set<K, G>>(s.chance(1, 2) ? S->copy() : LP_Set<K, G>(*S));
            checkSet(s, *n, M, keys.pool, ("in the copy after " + log.str()).c_str());
            K k = keys.pick(s); // copies are independent
            n->insert(k);
            VP_EQ(S->contains(k), M.count(k) > 0, "contains(" << k << ") of the original after inserting into the copy");
            if (s.chance(1, 2)) {
                M.insert(k);
                S = std::move(n);
            }
        } else if (what == 16) {
            log << "move" << a << " ";
            auto n = std::make_unique<LP_Set<K, G>>(std::move(*S));
            S = std::move(n);
        } else if (what == 17) {
            log << "moveassign" << a << " ";
            LP_Set<K, G> t(std::move(*S));
            *S = LP_Set<K, G>(1);
            *S = std::move(t);
        } else if (what == 18) {
            log << "merge" << a << " ";
            S->merge(std::move(*sets[1 - a]));
            M.insert(models[1 - a].begin(), models[1 - a].end());
            models[1 - a].clear();
            sets[1 - a] = std::make_unique<LP_Set<K, G>>(cap());
            ++muts;
        } else if (what == 19) {
            std::set<K> f;
            f = keys.some(s);
            bool cmp = s.chance(1, 2);
            log << "mergefilter" << a << "(" << f.size() << "," << cmp << ") ";
            S->merge(std::move(*sets[1 - a]), f, cmp);
            std::set<K> r;
            for (auto *m : {&M, &models[1 - a]})
                for (K k : *m)
                    if (f.count(k) == cmp) r.insert(k);
            M = r;
            models[1 - a].clear();
            sets[1 - a] = std::make_unique<LP_Set<K, G>>(cap());
            ++muts;
        } else if (what == 20) {
            std::set<K> f;
            f = keys.some(s);
            log << "filter" << a << "(" << f.size() << ") ";
            S->filter(f);
            for (K k : f) M.erase(k);
            ++muts;
        } else if (what == 21) {
            log << "viaConcurrent" << a << " ";
            Concurrent_LP_Set<K, false> cs(std::move(*S));
            VP_EQ((size_t) cs.size(), M.size(), "size after conversion to the concurrent set");
            for (K k : keys.pool) VP_EQ((bool) cs.contains(k), M.count(k) > 0, "contains(" << k << ") after conversion to the concurrent set");
            S = std::make_unique<LP_Set<K, G>>(LP_Set<K, G>(std::move(cs)));
        } else if (what == 22) {
            VP_EQ(*sets[0] == *sets[1], models[0] == models[1], "operator== after " << log.str());
            VP_EQ(*S == M, true, "operator== with std::set after " << log.str());
        } else if (what == 23) {
            std::set<K> f;
            f = keys.some(s);
            bool cmp = s.chance(1, 2);
            log << "rehashfilter" << a << "(" << f.size() << "," << cmp << ") ";
            S->rehash(2 * M.size() + s.draw(4), f, cmp);
            std::set<K> r;
            for (K k : M)
                if (f.count(k) == cmp) r.insert(k);
            M = r;
        }
        if (G == false && keys.pool.size() + 2 > S->capacity()) {
            // a fixed size table is given room by its owner
            S->rehash(fixed);
        }
        if (s.chance(1, 4)) checkSet(s, *S, M, keys.pool, ("after " + log.str()).c_str());
    }
    for (int i = 0; i < 2; ++i) checkSet(s, *sets[i], models[i], keys.pool, ("at the end of " + log.str()).c_str());
    c.nontrivial(muts >= 3);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

// one thread on the concurrent set
template<typename K, bool G>
static void concSet(Src &s, Ctx &c) {
    Keys<K> keys(s);
    size_t n = keys.bulk ? s.range<size_t>(1, 2 * keys.pool.size())
                         : s.pick({(size_t) 1, (size_t) 0, (size_t) 2, (size_t) 4, (size_t) 16, (size_t) 64, (size_t) 120});
    typedef Concurrent_LP_Set<K, G> T;
    auto S = std::make_unique<T>(n);
    std::set<K> M;
    std::ostringstream log;
    log << "new(" << n << ") ";
    size_t ops = s.length(1, 60), muts = 0, merges = 0; // every merge multiplies the capacity
    for (size_t o = 0; o < ops; ++o) {
        unsigned what = s.draw(16);
        if (what < 10) {
            log << "insert";
            auto run = keys.run(s, log);
            log << "(" << run[0] << ") ";
            for (K k : run) {
                auto r = S->insert(k);
                if (r == InsertReturn::State::Full) {
                    c.label("full");
                    VP_EQ((bool) r, false, "Full converted to bool");
                    if (!G)
                        VP_EQ((size_t) S->size(), (size_t) S->capacity(), "insertion refused with room left, size and capacity after " << log.str());
                } else {
                    bool fresh = M.insert(k).second;
                    VP_EQ((bool) r, fresh, "insert(" << k << ") after " << log.str());
                    ++muts;
                }
            }
        } else if (what == 10) {
            K k = keys.pick(s);
            VP_EQ((bool) S->contains(k), M.count(k) > 0, "contains(" << k << ") after " << log.str());
            VP_EQ(S->get(k), M.count(k) ? k : (K) 0, "get(" << k << ") after " << log.str());
        } else if (what == 11) {
            log << "move ";
            auto t = std::make_unique<T>(std::move(*S));
            if (s.chance(1, 2)) {
                *S = std::move(*t);
            } else
                S = std::move(t);
        } else if (what == 12) {
            T o2(s.pick({(size_t) 1, (size_t) 8, (size_t) 64}));
            std::set<K> m2, f;
            size_t q = s.draw(keys.bulk ? 500 : 20);
            for (size_t i = 0; i < q; ++i) {
                K k = keys.pick(s);
                auto r = o2.insert(k);
                if (!(r == InsertReturn::State::Full)) m2.insert(k);
            }
            f = keys.some(s);
            log << "merge(" << m2.size() << "," << f.size() << ") ";
            S->unsafe_merge(std::move(o2), f);
            m2.insert(M.begin(), M.end());
            M.clear();
            for (K k : m2)
                if (!f.count(k)) M.insert(k);
            ++muts;
        } else if (what == 13) {
            log << "copy ";
            T t(S->capacity());
            t.unsafe_copy(*S);
            // the copy uses its own hash; only the stored elements are comparable
            std::multiset<K> seen;
            for (auto it = t.begin(); it != t.end(); ++it) seen.insert(*it);
            VP_CHECK(seen == std::multiset<K>(M.begin(), M.end()), "elements of a copy after " << log.str());
            VP_EQ((size_t) t.size(), M.size(), "size of a copy after " << log.str());
        } else if (what == 14) {
            log << "viaSequential ";
            LP_Set<K, true> q(std::move(*S));
            VP_EQ((size_t) q.size(), M.size(), "size after conversion to the sequential set");
            for (K k : keys.pool) VP_EQ((bool) q.contains(k), M.count(k) > 0, "contains(" << k << ") after conversion to the sequential set");
            S = std::make_unique<T>(std::move(q));
        } else {
            checkSet(s, *S, M, keys.pool, ("after " + log.str()).c_str());
        }
    }
    checkSet(s, *S, M, keys.pool, ("at the end of " + log.str()).c_str());
    c.nontrivial(muts >= 3);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

// growing handle used by one thread
template<typename K>
static void growSet(Src &s, Ctx &c) {
    Keys<K> keys(s, true);
    typedef Concurrent_LP_Set<K, true> HT;
    size_t n = s.pick({(size_t) 1, (size_t) 0, (size_t) 2, (size_t) 3, (size_t) 16, (size_t) 300});
    auto T = std::make_unique<GrowingHashTable<HT>>(n);
    std::set<K> M;
    std::vector<std::unique_ptr<GrowingHashTableHandle<HT>>> hs;
    hs.push_back(std::make_unique<GrowingHashTableHandle<HT>>(*T));
    hs.push_back(std::make_unique<GrowingHashTableHandle<HT>>(*T));
    std::ostringstream log;
    log << "new(" << n << ") ";
    size_t ops = s.length(1, 80);
    const size_t cap0 = hs[0]->capacity();
    for (size_t o = 0; o < ops; ++o) {
        unsigned what = s.draw(16);
        auto &h = *hs[s.draw(2)];
        if (what < 12) {
            log << "insert";
            auto run = keys.run(s, log);
            log << "(" << run[0] << ") ";
            for (K k : run) {
                bool fresh = M.insert(k).second;
                VP_EQ((bool) h.insert(k), fresh, "insert(" << k << ") after " << log.str());
            }
        } else if (what == 12) {
            K k = keys.pick(s);
            VP_EQ(h.contains(k), M.count(k) > 0, "contains(" << k << ") after " << log.str());
            VP_EQ((bool) h.get(k), M.count(k) > 0, "get(" << k << ") after " << log.str());
        } else if (what == 13) {
            VP_EQ((size_t) h.size(), M.size(), "size after " << log.str());
            VP_EQ(h.empty(), M.empty(), "empty after " << log.str());
        } else if (what == 14) {
            const auto &ct = *T;
            auto ch = ct.handle();
            std::multiset<K> seen;
            for (auto it = ch.begin(); it != ch.end(); ++it) seen.insert(*it);
            VP_CHECK(seen == std::multiset<K>(M.begin(), M.end()), "iteration by a read handle after " << log.str());
            VP_EQ((size_t) ch.size(), M.size(), "size by a read handle after " << log.str());
            for (K k : keys.pool) VP_EQ(ch.contains(k), M.count(k) > 0, "contains(" << k << ") by a read handle after " << log.str());
        } else {
            log << "movetable ";
            hs.clear();
            auto n2 = std::make_unique<GrowingHashTable<HT>>(std::move(*T));
            if (s.chance(1, 2)) {
                auto n3 = std::make_unique<GrowingHashTable<HT>>((size_t) 4);
                *n3 = std::move(*n2);
                n2 = std::move(n3);
            }
            T = std::move(n2);
            hs.push_back(std::make_unique<GrowingHashTableHandle<HT>>(*T));
            hs.push_back(std::make_unique<GrowingHashTableHandle<HT>>(*T));
        }
    }
    checkSet(s, T->data(), M, keys.pool, ("at the end of " + log.str()).c_str());
    for (auto &h : hs) VP_EQ((size_t) h->size(), M.size(), "size at the end of " << log.str());
    c.nontrivial(hs[0]->capacity() != cap0);
    c.label("grew", hs[0]->capacity() != cap0);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

// ------------------------------------------------------------------------------------------ maps
template<typename T, typename K, typename V>
static void checkMap(Src &s, const T &map, const std::map<K, V> &m, const std::vector<K> &pool, const std::string &when) {
    VP_EQ((size_t) map.size(), m.size(), "size " << when);
    VP_EQ(map.empty(), m.empty(), "empty() " << when);
    for (K k : pool) {
        auto it = m.find(k);
        VP_EQ((bool) map.contains(k), it != m.end(), "contains(" << k << ") " << when);
        VP_EQ((size_t) map.count(k), (size_t) (it != m.end()), "count(" << k << ") " << when);
        if (it != m.end()) VP_EQ((V) map.get(k), it->second, "get(" << k << ") " << when);
        else VP_EQ((V) map.get(k), (V) 0, "get of the absent key " << k << " " << when);
    }
    std::multiset<std::pair<K, V>> want(m.begin(), m.end()), seen;
    size_t guard = 0;
    for (auto it = map.begin(); it != map.end(); ++it) {
        auto e = *it;
        seen.insert({e.first, e.second});
        if (++guard > 100000) break;
    }
    VP_CHECK(seen == want, "iteration " << when << " yields " << seen.size() << " entries that differ from the " << want.size() << " stored");
    seen.clear();
    size_t leaves = 0;
    typename T::const_range_type r(map, s.pick({(size_t) 1, (size_t) 2, (size_t) 5, (size_t) 1000}));
    splitVisit(s, r, [&](const auto &e) { seen.insert({e.first, e.second}); }, 8, leaves);
    VP_CHECK(seen == want, "split iteration " << when << " differs from the contents");
}

template<typename K, typename V>
static V genVal(Src &s) {
    switch (s.draw(3)) {
        case 0: return (V) s.draw(4); // zero included
        case 1: return (V) s.draw(0);
        default: return (V) -1;
    }
}

template<typename K, typename V>
static void seqMap(Src &s, Ctx &c) {
    Keys<K> keys(s);
    typedef LP_Map<K, V> T;
    std::vector<std::unique_ptr<T>> ts;
    std::vector<std::map<K, V>> ms(2);
    std::ostringstream log;
    auto cap = [&]() -> size_t { return s.pick({(size_t) 1, (size_t) 0, (size_t) 2, (size_t) 3, (size_t) 8, (size_t) 100}); };
    for (int i = 0; i < 2; ++i) {
        size_t n = cap();
        log << "new(" << n << ") ";
        ts.push_back(std::make_unique<T>(n));
    }
    size_t ops = s.length(1, 60), muts = 0, merges = 0; // every merge multiplies the capacity
    for (size_t o = 0; o < ops; ++o) {
        size_t a = s.draw(2);
        auto &S = ts[a];
        auto &M = ms[a];
        unsigned what = s.draw(20);
        if ((what == 15 || what == 16) && ++merges > 4) what = 0;
        if (what < 11) {
            V v = genVal<K, V>(s);
            log << "insert" << a;
            auto run = keys.run(s, log);
            log << "(" << run[0] << "," << v << ") ";
            for (K k : run) {
                bool fresh = !M.count(k);
                M[k] = v;
                VP_EQ(s.chance(1, 4) ? S->insert(std::make_pair(k, v)) : S->insert(k, v), fresh, "insert(" << k << ") after " << log.str());
                v = (V) ((uint64_t) v + 1);
            }
            ++muts;
        } else if (what < 13) {
            K k = keys.pick(s);
            VP_EQ((bool) S->contains(k), M.count(k) > 0, "contains(" << k << ") after " << log.str());
        } else if (what == 13) {
            size_t n = s.pick({(size_t) 1, (size_t) 2, (size_t) 4}) * (M.size() + 1) + 1;
            log << "rehash" << a << "(" << n << ") ";
            S->rehash(n);
        } else if (what == 14) {
            log << "move" << a << " ";
            auto n = std::make_unique<T>(std::move(*S));
            if (s.chance(1, 2)) *S = std::move(*n);
            else S = std::move(n);
        } else if (what == 15) {
            log << "merge" << a << " ";
            S->merge(std::move(*ts[1 - a]));
            for (auto &e : ms[1 - a]) M[e.first] = e.second; // the merged one wins
            ms[1 - a].clear();
            ts[1 - a] = std::make_unique<T>(cap());
            ++muts;
        } else if (what == 16) {
            std::set<K> f;
            f = keys.some(s);
            log << "mergefilter" << a << "(" << f.size() << ") ";
            S->merge(std::move(*ts[1 - a]), f);
            for (auto &e : ms[1 - a]) M[e.first] = e.second;
            for (K k : f) M.erase(k);
            ms[1 - a].clear();
            ts[1 - a] = std::make_unique<T>(cap());
            ++muts;
        } else if (what == 17) {
            std::set<K> f;
            f = keys.some(s);
            log << "rehashfilter" << a << "(" << f.size() << ") ";
            S->rehash(2 * M.size() + s.draw(4), f);
            for (K k : f) M.erase(k);
        } else if (what == 18) {
            log << "viaConcurrent" << a << " ";
            Concurrent_LP_Map<K, V> cs(std::move(*S));
            VP_EQ((size_t) cs.size(), M.size(), "size after conversion to the concurrent map");
            for (auto &e : M) VP_EQ((V) cs.get(e.first), e.second, "get(" << e.first << ") after conversion to the concurrent map");
            S = std::make_unique<T>(T(std::move(cs)));
        } else
            checkMap(s, *S, M, keys.pool, "after " + log.str());
    }
    for (int i = 0; i < 2; ++i) checkMap(s, *ts[i], ms[i], keys.pool, "at the end of " + log.str());
    c.nontrivial(muts >= 3);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

template<typename K, typename V>
static void concMap(Src &s, Ctx &c) {
    Keys<K> keys(s);
    typedef Concurrent_LP_Map<K, V> T;
    size_t n = keys.bulk ? s.range<size_t>(1, 2 * keys.pool.size())
                         : s.pick({(size_t) 1, (size_t) 0, (size_t) 2, (size_t) 4, (size_t) 16, (size_t) 64, (size_t) 120});
    auto S = std::make_unique<T>(n);
    std::map<K, V> M;
    std::ostringstream log;
    log << "new(" << n << ") ";
    size_t ops = s.length(1, 60), muts = 0, merges = 0; // every merge multiplies the capacity
    for (size_t o = 0; o < ops; ++o) {
        unsigned what = s.draw(16);
        if ((what == 12 || what == 13) && ++merges > 4) what = 0;
        if (what < 10) {
            V v = genVal<K, V>(s);
            log << "insert";
            auto run = keys.run(s, log);
            log << "(" << run[0] << "," << v << ") ";
            for (K k : run) {
                auto r = s.chance(1, 4) ? S->insert(std::make_pair(k, v)) : S->insert(k, v);
                if (r == InsertReturn::State::Full) {
                    c.label("full");
                    VP_CHECK(2 * S->size() + 1 >= S->capacity(), "insertion refused though less than half full: size " << S->size() << " of " << S->capacity());
                } else {
                    bool fresh = !M.count(k);
                    M[k] = v;
                    VP_EQ((bool) r, fresh, "insert(" << k << ") after " << log.str());
                    ++muts;
                }
                v = (V) ((uint64_t) v + 1);
            }
        } else if (what == 10) {
            size_t q = 2 * (M.size() + 1) + s.draw(40);
            log << "rehash(" << q << ") ";
            S->unsafe_rehash(q);
        } else if (what == 11) {
            log << "move ";
            auto t = std::make_unique<T>(std::move(*S));
            if (s.chance(1, 2)) *S = std::move(*t);
            else S = std::move(t);
        } else if (what == 12 || what == 13) {
            // keys of both sides must differ: which value would win is up to the schedule
            T o2(s.pick({(size_t) 1, (size_t) 8, (size_t) 64}));
            std::map<K, V> m2;
            std::set<K> f;
            size_t q = s.draw(keys.bulk ? 500 : 20);
            for (size_t i = 0; i < q; ++i) {
                K k = keys.pick(s);
                if (M.count(k)) continue;
                V v = genVal<K, V>(s);
                auto r = o2.insert(k, v);
                if (!(r == InsertReturn::State::Full)) m2[k] = v;
            }
            if (what == 13) {
                f = keys.some(s);
                log << "mergefilter(" << m2.size() << "," << f.size() << ") ";
                S->unsafe_merge(std::move(o2), f);
            } else {
                log << "merge(" << m2.size() << ") ";
                S->unsafe_merge(std::move(o2));
            }
            M.insert(m2.begin(), m2.end());
            for (K k : f) M.erase(k);
            ++muts;
        } else if (what == 14) {
            log << "viaSequential ";
            LP_Map<K, V> q(std::move(*S));
            VP_EQ((size_t) q.size(), M.size(), "size after conversion to the sequential map");
            for (auto &e : M) VP_EQ((V) q.get(e.first), e.second, "get(" << e.first << ") after conversion to the sequential map");
            S = std::make_unique<T>(std::move(q));
        } else
            checkMap(s, *S, M, keys.pool, "after " + log.str());
    }
    checkMap(s, *S, M, keys.pool, "at the end of " + log.str());
    c.nontrivial(muts >= 3);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

template<typename K, typename V>
static void growMap(Src &s, Ctx &c) {
    Keys<K> keys(s, true);
    typedef Concurrent_LP_Map<K, V> HT;
    size_t n = s.pick({(size_t) 1, (size_t) 0, (size_t) 2, (size_t) 3, (size_t) 16, (size_t) 300});
    GrowingHashTable<HT> T(n);
    std::map<K, V> M;
    auto h1 = T.handle(), h2 = T.handle();
    const size_t cap0 = h1.capacity();
    std::ostringstream log;
    log << "new(" << n << ") ";
    size_t ops = s.length(1, 80);
    for (size_t o = 0; o < ops; ++o) {
        auto &h = s.chance(1, 2) ? h1 : h2;
        unsigned what = s.draw(8);
        K k = keys.pick(s);
        if (what < 6) {
            V v = genVal<K, V>(s);
            log << "insert";
            auto run = keys.run(s, log);
            log << "(" << run[0] << "," << v << ") ";
            for (K k : run) {
                bool fresh = !M.count(k);
                M[k] = v;
                VP_EQ((bool) h.insert(k, v), fresh, "insert(" << k << ") after " << log.str());
                v = (V) ((uint64_t) v + 1);
            }
        } else if (what == 6) {
            VP_EQ(h.contains(k), M.count(k) > 0, "contains(" << k << ") after " << log.str());
            VP_EQ((V) h.get(k), M.count(k) ? M[k] : (V) 0, "get(" << k << ") after " << log.str());
        } else
            VP_EQ((size_t) h.size(), M.size(), "size after " << log.str());
    }
    checkMap(s, T.data(), M, keys.pool, "at the end of " + log.str());
    c.nontrivial(h1.capacity() != cap0);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

// -------------------------------------------------------------------------------------- multimaps
template<typename T, typename K, typename V>
static void checkMM(Src &s, const T &map, const std::map<K, std::multiset<V>> &m, const std::vector<K> &pool, const std::string &when) {
    size_t total = 0;
    std::multiset<std::pair<K, V>> want, seen;
    for (auto &e : m)
        for (V v : e.second) {
            ++total;
            want.insert({e.first, v});
        }
    VP_EQ((size_t) map.size(), total, "size " << when);
    VP_EQ(map.empty(), total == 0, "empty() " << when);
    for (K k : pool) {
        auto it = m.find(k);
        std::multiset<V> w, got;
        if (it != m.end()) w = it->second;
        VP_EQ((bool) map.contains(k), !w.empty(), "contains(" << k << ") " << when);
        VP_EQ(map.count(k) > 0, !w.empty(), "count(" << k << ") > 0 " << when);
        auto r = map.get(k);
        size_t steps = 0;
        for (auto i = r.first; i != r.second; ++i) {
            auto e = *i;
            VP_EQ((K) e.first, k, "key of an entry found under " << k << " " << when);
            got.insert(e.second);
            VP_CHECK(++steps <= total, "looking up " << k << " yields more entries than there are " << when);
        }
        VP_CHECK(got == w, "get(" << k << ") " << when << " yields values " << show(got) << " instead of " << show(w));
    }
    size_t guard = 0;
    for (auto it = map.begin(); it != map.end(); ++it) {
        auto e = *it;
        seen.insert({e.first, e.second});
        if (++guard > 100000) break;
    }
    VP_CHECK(seen == want, "iteration " << when << " differs from the contents");
    seen.clear();
    size_t leaves = 0;
    typename T::const_range_type r(map, s.pick({(size_t) 1, (size_t) 2, (size_t) 5, (size_t) 1000}));
    splitVisit(s, r, [&](const auto &e) { seen.insert({e.first, e.second}); }, 8, leaves);
    VP_CHECK(seen == want, "split iteration " << when << " differs from the contents");
}

template<typename K, typename V>
static void seqMM(Src &s, Ctx &c) {
    Keys<K> keys(s);
    typedef LP_MultiMap<K, V> T;
    std::vector<std::unique_ptr<T>> ts;
    std::vector<std::map<K, std::multiset<V>>> ms(2);
    std::ostringstream log;
    auto cap = [&]() -> size_t { return s.pick({(size_t) 1, (size_t) 0, (size_t) 2, (size_t) 3, (size_t) 8, (size_t) 100}); };
    for (int i = 0; i < 2; ++i) {
        size_t n = cap();
        log << "new(" << n << ") ";
        ts.push_back(std::make_unique<T>(n));
    }
    size_t ops = s.length(1, 60), muts = 0, merges = 0; // every merge multiplies the capacity
    for (size_t o = 0; o < ops; ++o) {
        size_t a = s.draw(2);
        auto &S = ts[a];
        auto &M = ms[a];
        unsigned what = s.draw(18);
        if ((what == 12 || what == 13) && ++merges > 4) what = 0;
        size_t total = 0;
        for (auto &e : M) total += e.second.size();
        if (what < 10) {
            V v = genVal<K, V>(s);
            log << "insert" << a;
            auto run = keys.run(s, log);
            log << "(" << run[0] << "," << v << ") ";
            for (K k : run) {
                M[k].insert(v);
                VP_EQ(s.chance(1, 4) ? S->insert(std::make_pair(k, v)) : S->insert(k, v), true, "insert(" << k << ") after " << log.str());
                v = (V) ((uint64_t) v + 1);
            }
            ++muts;
        } else if (what == 10) {
            size_t n = s.pick({(size_t) 1, (size_t) 2, (size_t) 4}) * (total + 1) + 1;
            log << "rehash" << a << "(" << n << ") ";
            S->rehash(n);
        } else if (what == 11) {
            log << "move" << a << " ";
            auto n = std::make_unique<T>(std::move(*S));
            if (s.chance(1, 2)) *S = std::move(*n);
            else S = std::move(n);
        } else if (what == 12 || what == 13) {
            std::set<K> f;
            if (what == 13) {
                f = keys.some(s);
                log << "mergefilter" << a << "(" << f.size() << ") ";
                S->merge(std::move(*ts[1 - a]), f);
            } else {
                log << "merge" << a << " ";
                S->merge(std::move(*ts[1 - a]));
            }
            for (auto &e : ms[1 - a]) M[e.first].insert(e.second.begin(), e.second.end());
            for (K k : f) M.erase(k);
            ms[1 - a].clear();
            ts[1 - a] = std::make_unique<T>(cap());
            ++muts;
        } else if (what == 14) {
            std::set<K> f;
            f = keys.some(s);
            log << "rehashfilter" << a << "(" << f.size() << ") ";
            S->rehash(2 * total + s.draw(4), f);
            for (K k : f) M.erase(k);
        } else if (what == 15) {
            log << "viaConcurrent" << a << " ";
            Concurrent_LP_MultiMap<K, V> cs(std::move(*S));
            VP_EQ((size_t) cs.size(), total, "size after conversion to the concurrent multimap");
            S = std::make_unique<T>(T(std::move(cs)));
        } else
            checkMM(s, *S, M, keys.pool, "after " + log.str());
    }
    for (int i = 0; i < 2; ++i) checkMM(s, *ts[i], ms[i], keys.pool, "at the end of " + log.str());
    c.nontrivial(muts >= 3);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

template<typename K, typename V>
static void concMM(Src &s, Ctx &c) {
    Keys<K> keys(s);
    typedef Concurrent_LP_MultiMap<K, V> T;
    size_t n = keys.bulk ? s.range<size_t>(1, 2 * keys.pool.size())
                         : s.pick({(size_t) 1, (size_t) 0, (size_t) 2, (size_t) 4, (size_t) 16, (size_t) 64, (size_t) 120});
    auto S = std::make_unique<T>(n);
    std::map<K, std::multiset<V>> M;
    std::ostringstream log;
    log << "new(" << n << ") ";
    size_t ops = s.length(1, 60), muts = 0, merges = 0; // every merge multiplies the capacity
    for (size_t o = 0; o < ops; ++o) {
        unsigned what = s.draw(16);
        size_t total = 0;
        for (auto &e : M) total += e.second.size();
        if (what < 10) {
            V v = genVal<K, V>(s);
            log << "insert";
            auto run = keys.run(s, log);
            log << "(" << run[0] << "," << v << ") ";
            for (K k : run) {
                auto r = s.chance(1, 4) ? S->insert(std::make_pair(k, v)) : S->insert(k, v);
                if (r == InsertReturn::State::Full) {
                    c.label("full");
                    VP_CHECK(2 * S->size() + 1 >= S->capacity(), "insertion refused though less than half full: size " << S->size() << " of " << S->capacity());
                } else {
                    VP_EQ((bool) r, true, "insert(" << k << ") after " << log.str());
                    M[k].insert(v);
                    ++muts;
                }
                v = (V) ((uint64_t) v + 1);
            }
        } else if (what == 10) {
            size_t q = 2 * (total + 1) + s.draw(40);
            log << "rehash(" << q << ") ";
            S->unsafe_rehash(q);
        } else if (what == 11) {
            log << "move ";
            auto t = std::make_unique<T>(std::move(*S));
            if (s.chance(1, 2)) *S = std::move(*t);
            else S = std::move(t);
        } else if (what == 12) {
            T o2(s.pick({(size_t) 1, (size_t) 8, (size_t) 64}));
            std::set<K> f;
            size_t q = s.draw(keys.bulk ? 500 : 20);
            std::map<K, std::multiset<V>> m2;
            for (size_t i = 0; i < q; ++i) {
                K k = keys.pick(s);
                V v = genVal<K, V>(s);
                auto r = o2.insert(k, v);
                if (!(r == InsertReturn::State::Full)) m2[k].insert(v);
            }
            f = keys.some(s);
            log << "merge(" << m2.size() << "," << f.size() << ") ";
            S->unsafe_merge(std::move(o2), f);
            for (auto &e : m2) M[e.first].insert(e.second.begin(), e.second.end());
            for (K k : f) M.erase(k);
            ++muts;
        } else if (what == 13) {
            log << "copy ";
            T t(S->capacity());
            t.unsafe_copy(*S);
            VP_EQ((size_t) t.size(), total, "size of a copy after " << log.str());
            std::multiset<std::pair<K, V>> a, b;
            for (auto &e : M)
                for (V v : e.second) a.insert({e.first, v});
            for (auto it = t.begin(); it != t.end(); ++it) {
                auto e = *it;
                b.insert({e.first, e.second});
            }
            VP_CHECK(a == b, "elements of a copy after " << log.str());
        } else if (what == 14) {
            log << "viaSequential ";
            LP_MultiMap<K, V> q(std::move(*S));
            checkMM(s, q, M, keys.pool, "after conversion to the sequential multimap");
            S = std::make_unique<T>(std::move(q));
        } else
            checkMM(s, *S, M, keys.pool, "after " + log.str());
    }
    checkMM(s, *S, M, keys.pool, "at the end of " + log.str());
    c.nontrivial(muts >= 3);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

template<typename K, typename V>
static void growMM(Src &s, Ctx &c) {
    Keys<K> keys(s, true);
    typedef Concurrent_LP_MultiMap<K, V> HT;
    size_t n = s.pick({(size_t) 1, (size_t) 0, (size_t) 2, (size_t) 3, (size_t) 16, (size_t) 300});
    GrowingHashTable<HT> T(n);
    std::map<K, std::multiset<V>> M;
    auto h1 = T.handle(), h2 = T.handle();
    const size_t cap0 = h1.capacity();
    std::ostringstream log;
    log << "new(" << n << ") ";
    size_t ops = s.length(1, 80), total = 0;
    for (size_t o = 0; o < ops; ++o) {
        auto &h = s.chance(1, 2) ? h1 : h2;
        unsigned what = s.draw(8);
        K k = keys.pick(s);
        if (what < 6) {
            V v = genVal<K, V>(s);
            log << "insert";
            auto run = keys.run(s, log);
            log << "(" << run[0] << "," << v << ") ";
            for (K k : run) {
                M[k].insert(v);
                ++total;
                VP_EQ((bool) h.insert(k, v), true, "insert(" << k << ") after " << log.str());
                v = (V) ((uint64_t) v + 1);
            }
        } else if (what == 6) {
            VP_EQ(h.contains(k), M.count(k) > 0, "contains(" << k << ") after " << log.str());
            std::multiset<V> got;
            auto r = h.get(k);
            for (auto i = r.first; i != r.second && got.size() <= total; ++i) got.insert((*i).second);
            VP_CHECK(got == (M.count(k) ? M[k] : std::multiset<V>()), "get(" << k << ") after " << log.str() << " yields " << show(got));
        } else
            VP_EQ((size_t) h.size(), total, "size after " << log.str());
    }
    checkMM(s, T.data(), M, keys.pool, "at the end of " + log.str());
    c.nontrivial(h1.capacity() != cap0);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

// many elements, so that growing and long probe chains happen
static void bigSet(Src &s, Ctx &c) {
    size_t n = s.range<size_t>(100, 20000);
    unsigned mode = s.draw(3);
    LP_Set<uint32_t, true> S(s.pick({(size_t) 1, (size_t) 64, (size_t) 5000}));
    LP_Map<uint32_t, uint32_t> P(4);
    LP_MultiMap<uint32_t, uint32_t> Q(4);
    std::set<uint32_t> M;
    std::map<uint32_t, std::multiset<uint32_t>> MM;
    uint64_t x = s.draw(0);
    for (size_t i = 0; i < n; ++i) {
        uint32_t k = mode == 0 ? (uint32_t) (i + 1) : mode == 1 ? (uint32_t) ((x = mix(x)) % (n / 2 + 1) + 1) : (uint32_t) ((i + 1) * 4096);
        if (!k) k = 1;
        bool fresh = M.insert(k).second;
        VP_EQ(S.insert(k), fresh, "set insert of " << k);
        VP_EQ(P.insert(k, (uint32_t) i), fresh, "map insert of " << k);
        if (MM[k].size() < 3) {
            MM[k].insert((uint32_t) i);
            Q.insert(k, (uint32_t) i);
        }
    }
    VP_EQ((size_t) S.size(), M.size(), "set size");
    VP_EQ((size_t) P.size(), M.size(), "map size");
    size_t seen = 0;
    for (auto it = S.begin(); it != S.end(); ++it) {
        ++seen;
        VP_CHECK(M.count(*it), "set iteration invents " << *it);
    }
    VP_EQ(seen, M.size(), "elements visited");
    for (auto k : M) {
        VP_CHECK(S.contains(k), "set lost " << k);
        VP_CHECK(P.contains(k), "map lost " << k);
        std::multiset<uint32_t> got;
        auto r = Q.get(k);
        for (auto i = r.first; i != r.second; ++i) {
            got.insert((*i).second);
            if (got.size() > 3) break;
        }
        VP_CHECK(got == MM[k], "multimap values of " << k);
    }
    c.nontrivial();
    c.describe([&](std::ostream &o) { o << n << " insertions, key pattern " << mode; });
}

#define SEQ "random operation sequences (insert, lookup, rehash, filter, merge, copy, move, conversion, iteration and random range splits) on two tables against std:: models, keys colliding, small, huge or powers of two; non-trivial: at least 3 changes"
static Reg a1({"C15", "growing", seqSet<uint64_t, true>, 800000, 8000000, 10, SEQ});
static Reg a2({"C15", "growing32", seqSet<uint32_t, true>, 800000, 8000000, 10, SEQ});
static Reg a3({"C15", "fixed", seqSet<uint64_t, false>, 200000, 3000000, 10, SEQ});
static Reg a4({"C15", "concurrent-fixed", concSet<uint64_t, false>, 200000, 3000000, 10, "one thread on the concurrent fixed-size set, up to full tables; non-trivial: at least 3 changes"});
static Reg a5({"C15", "concurrent-growing-table", concSet<uint64_t, true>, 200000, 3000000, 10, "one thread on a table of the growing set, refusals allowed; non-trivial: at least 3 changes"});
static Reg a6({"C15", "handles", growSet<uint64_t>, 300000, 3000000, 10, "two handles used in turns on a growing set; non-trivial: the table grew"});
static Reg a7({"C15", "big", bigSet, 300, 4000, 30, "100-20000 insertions into set, map and multimap; every case non-trivial"});
static Reg b1({"C16", "sequential", seqMap<uint64_t, int64_t>, 1000000, 8000000, 10, SEQ});
static Reg b2({"C16", "sequential32", seqMap<uint32_t, uint32_t>, 1000000, 8000000, 10, SEQ});
static Reg b3({"C16", "concurrent-type", concMap<uint64_t, int64_t>, 200000, 3000000, 10, "one thread on the concurrent map; non-trivial: at least 3 changes"});
static Reg b4({"C16", "handles", growMap<uint64_t, int64_t>, 300000, 3000000, 10, "two handles used in turns on a growing map; non-trivial: the table grew"});
static Reg b5({"C16", "big", bigSet, 300, 4000, 30, "100-20000 insertions into set, map and multimap; every case non-trivial"});
static Reg d1({"C17", "sequential", seqMM<uint64_t, uint64_t>, 1000000, 8000000, 10, SEQ});
static Reg d2({"C17", "sequential32", seqMM<uint32_t, uint64_t>, 1000000, 8000000, 10, SEQ});
static Reg d3({"C17", "concurrent-type", concMM<uint32_t, uint64_t>, 200000, 3000000, 10, "one thread on the concurrent multimap; non-trivial: at least 3 changes"});
static Reg d4({"C17", "handles", growMM<uint32_t, uint64_t>, 300000, 3000000, 10, "two handles used in turns on a growing multimap; non-trivial: the table grew"});
static Reg d5({"C17", "big", bigSet, 300, 4000, 30, "100-20000 insertions into set, map and multimap; every case non-trivial"});

int main(int argc, char **argv) { return vp_main(argc, argv); }
