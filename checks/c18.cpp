// C18: concurrent growing tables. Compiled twice: fibers under a generated schedule (default) and real
// threads (-DVP_REAL).
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include "vp.hpp"
#include <tbb/tbb_stddef.h>
#include <tbb/parallel_for.h>
#include <tbb/blocked_range.h>
#include <boost/serialization/access.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/split_member.hpp>
#include "utils/Misc.h"
#include "utils/ASSERT.h"
#include "utils/Random.h"
#include "utils/VTuneAdapter.h"
#include "utils/System.h"
#include "utils/Logger.h"
#ifndef VP_REAL
#include "sched.hpp"
#include "sched_on.hpp"
#endif
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"
#ifndef VP_REAL
#include "sched_off.hpp"
#endif

using namespace vp;
typedef uint64_t K;

static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

static void runAll(Src &s, std::vector<std::function<void()>> fns) {
#ifdef VP_REAL
    std::vector<std::thread> ts;
    std::atomic<unsigned> gate(0);
    std::vector<std::string> err(fns.size());
    for (size_t t = 0; t < fns.size(); ++t)
        ts.emplace_back([&, t] {
            ++gate;
            while (gate.load() < fns.size()) {
            }
            try {
                fns[t]();
            } catch (const Fail &f) {
                err[t] = f.msg;
            } catch (const std::exception &e) {
                err[t] = std::string("unexpected exception: ") + e.what();
            }
        });
    for (auto &t : ts) t.join();
    for (auto &e : err)
        if (!e.empty()) VP_FAIL(e);
#else
    sched::run(s, std::move(fns));
#endif
}

static K genKey(Src &s, unsigned mode, size_t space) {
    K k = 1 + s.draw(space);
    switch (mode) {
        case 0: return k;
        case 1: return k << 5; // collide in the low bits
        case 2: return k * 0x9e3779b97f4a7c15ULL | 1;
        default: return (k << 6) | 1;
    }
}

struct Plan {
    std::vector<std::vector<K>> keys;
    unsigned mode;
    size_t cap, readers, total = 0;
};

static Plan plan(Src &s) {
    Plan p;
#ifdef VP_REAL
    size_t T = s.range<size_t>(2, 8), maxOps = 600;
#else
    size_t T = s.range<size_t>(2, 5), maxOps = 40;
#endif
    p.mode = s.draw(4);
    p.cap = s.pick({(size_t) 1, (size_t) 2, (size_t) 4, T * 2, (size_t) 16, (size_t) 20, (size_t) 32, (size_t) 64, (size_t) 300});
    size_t space = s.pick({(size_t) 4, (size_t) 30, (size_t) 200, (size_t) 100000});
    p.readers = s.draw(3);
    p.keys.resize(T);
    for (auto &v : p.keys) {
        size_t n = s.length(1, maxOps);
        for (size_t i = 0; i < n; ++i) v.push_back(genKey(s, p.mode, space));
        p.total += n;
    }
    return p;
}

static void describe(Ctx &c, const Plan &p) {
    c.describe([&](std::ostream &o) {
        o << p.keys.size() << " threads, capacity " << p.cap << ", key pattern " << p.mode << ", " << p.readers
          << " readers, inserts";
        for (auto &v : p.keys) {
            o << " [";
            for (size_t i = 0; i < v.size() && i < 40; ++i) o << (i ? " " : "") << v[i];
            o << (v.size() > 40 ? " ...]" : "]");
        }
    });
}

template<typename T>
using PubT =
#ifdef VP_REAL
        std::atomic<T>;
#else
        std::vp_atomic<T>;
#endif

// keys whose insertion has finished, for readers
struct Published {
    std::vector<K> k;
    PubT<size_t> n{0};
};

template<typename Table, typename InsertF, typename LookF>
static void drive(Src &s, const Plan &p, Table &table, InsertF ins, LookF look, std::vector<std::vector<char>> &res) {
    std::vector<std::function<void()>> fns;
    res.resize(p.keys.size());
    std::vector<Published> pub(p.keys.size());
    PubT<size_t> running((size_t) p.keys.size());
    for (size_t t = 0; t < p.keys.size(); ++t) {
        res[t].resize(p.keys[t].size());
        pub[t].k.resize(p.keys[t].size());
        fns.push_back([&, t] {
            {
                auto h = table.handle();
                for (size_t i = 0; i < p.keys[t].size(); ++i) {
                    K k = p.keys[t][i];
                    res[t][i] = ins(h, k, t, i);
                    if (!h.contains(k)) VP_FAIL("thread " << t << " does not find key " << k << " right after inserting it");
                    pub[t].k[i] = k;
                    pub[t].n.store(i + 1);
                }
            }
            running.fetch_sub(1);
        });
    }
    for (size_t q = 0; q < p.readers; ++q)
        fns.push_back([&, q] {
            const auto &ct = table;
            auto ch = ct.handle();
            size_t r = q;
            while (running.load()) {
                const size_t t = r++ % pub.size();
                auto &pb = pub[t];
                size_t n = pb.n.load();
                if (!n) continue;
                const size_t i = (r * 7) % n;
                K k = pb.k[i];
                if (!ch.contains(k)) VP_FAIL("a reader does not find key " << k << " whose insertion had finished");
                if (ch.count(k) == 0) VP_FAIL("a reader counts no key " << k << " whose insertion had finished");
                look(ch, k, t, i);
                const K absent = k ^ (K) 0x5000000000000000ULL; // of no pattern
                if (p.mode != 2 && ch.contains(absent)) VP_FAIL("a reader finds key " << absent << ", which nobody inserted");
            }
        });
    runAll(s, std::move(fns));
}

static void propSet(Src &s, Ctx &c) {
    Plan p = plan(s);
    describe(c, p);
    typedef Concurrent_LP_Set<K, true> HT;
    GrowingHashTable<HT> table(p.cap);
    std::vector<std::vector<char>> res;
    const size_t cap0 = table.handle().capacity();
    drive(s, p, table, [](auto &h, K k, size_t, size_t) -> char { return (bool) h.insert(k); },
          [](const auto &ch, K k, size_t, size_t) {
              if (!(bool) ch.get(k)) VP_FAIL("a reader does not get key " << k << " whose insertion had finished");
          }, res);
    std::unordered_map<K, size_t> news;
    std::set<K> all;
    for (size_t t = 0; t < p.keys.size(); ++t)
        for (size_t i = 0; i < p.keys[t].size(); ++i) {
            all.insert(p.keys[t][i]);
            news[p.keys[t][i]] += res[t][i];
        }
    for (K k : all) VP_EQ(news[k], (size_t) 1, "number of inserters told that key " << k << " was new");
    auto h = table.handle();
    c.label("grew", h.capacity() != cap0);
    c.nontrivial(h.capacity() != cap0);
    for (K k : all) VP_CHECK(h.contains(k), "key " << k << " was inserted but is not in the table");
    VP_EQ((size_t) h.size(), all.size(), "size of the table");
    std::multiset<K> seen;
    for (auto it = h.begin(); it != h.end(); ++it) seen.insert(*it);
    VP_CHECK(seen == std::multiset<K>(all.begin(), all.end()), "iteration differs from the union of the inserted keys: "
                                                                       << seen.size() << " seen, " << all.size() << " inserted");
    for (unsigned q = 0; q < 5; ++q) {
        K k = genKey(s, s.draw(4), 300);
        VP_EQ(h.contains(k), all.count(k) > 0, "lookup of key " << k);
    }
    LP_Set<K, true> seq(std::move(table.data()));
    VP_EQ((size_t) seq.size(), all.size(), "size after converting to the sequential set");
    for (K k : all) VP_CHECK(seq.contains(k), "key " << k << " is lost in the sequential set");
}

static void propMap(Src &s, Ctx &c) {
    Plan p = plan(s);
    describe(c, p);
    typedef Concurrent_LP_Map<K, long> HT;
    GrowingHashTable<HT> table(p.cap);
    std::vector<std::vector<char>> res;
    const size_t cap0 = table.handle().capacity();
    // the value tells key and inserter apart; zero occurs, too
    auto val = [](K k, size_t t, size_t i) { return (long) (t * 100000 + i); };
    drive(s, p, table, [&](auto &h, K k, size_t t, size_t i) -> char { return (bool) h.insert(k, val(k, t, i)); },
          [&](const auto &ch, K k, size_t, size_t) {
              const long v = ch.get(k);
              const size_t t = v / 100000, i = v % 100000;
              if (v < 0 || t >= p.keys.size() || i >= p.keys[t].size() || p.keys[t][i] != k)
                  VP_FAIL("a reader gets value " << v << " for key " << k << ", which nobody stored");
          }, res);
    std::map<K, std::set<long>> vals;
    std::map<K, size_t> news;
    for (size_t t = 0; t < p.keys.size(); ++t) {
        std::map<K, long> last;
        for (size_t i = 0; i < p.keys[t].size(); ++i) {
            last[p.keys[t][i]] = val(p.keys[t][i], t, i);
            news[p.keys[t][i]] += res[t][i];
        }
        for (auto &l : last) vals[l.first].insert(l.second);
    }
    for (auto &n : news) VP_EQ(n.second, (size_t) 1, "number of inserters told that key " << n.first << " was new");
    auto h = table.handle();
    c.label("grew", h.capacity() != cap0);
    c.nontrivial(h.capacity() != cap0);
    VP_EQ((size_t) h.size(), vals.size(), "size of the table");
    for (auto &v : vals) {
        VP_CHECK(h.contains(v.first), "key " << v.first << " was inserted but is not in the table");
        VP_CHECK(v.second.count(h.get(v.first)), "key " << v.first << " has value " << h.get(v.first)
                                                        << ", which no thread stored last");
    }
    std::multiset<K> seen;
    for (auto it = h.begin(); it != h.end(); ++it) {
        auto e = *it;
        seen.insert(e.first);
        VP_CHECK(vals.count(e.first) && vals[e.first].count(e.second), "iteration yields " << e.first << " -> " << e.second);
    }
    VP_EQ(seen.size(), vals.size(), "number of iterated entries");
    LP_Map<K, long> seq(std::move(table.data()));
    VP_EQ((size_t) seq.size(), vals.size(), "size after converting to the sequential map");
    for (auto &v : vals) VP_CHECK(v.second.count(seq.get(v.first)), "value of key " << v.first << " in the sequential map");
}

static void propMultiMap(Src &s, Ctx &c) {
    Plan p = plan(s);
    describe(c, p);
    typedef Concurrent_LP_MultiMap<K, K> HT;
    GrowingHashTable<HT> table(p.cap);
    std::vector<std::vector<char>> res;
    const size_t cap0 = table.handle().capacity();
    auto val = [](K k, size_t t, size_t i) { return (K) (t * 100000 + i); };
    drive(s, p, table, [&](auto &h, K k, size_t t, size_t i) -> char { return (bool) h.insert(k, val(k, t, i)); },
          [&](const auto &ch, K k, size_t t, size_t i) {
              auto r = ch.get(k);
              bool found = false;
              size_t steps = 0;
              for (auto it = r.first; it != r.second; ++it) {
                  auto e = *it;
                  if ((K) e.first != k) VP_FAIL("a reader gets an entry of key " << e.first << " for key " << k);
                  if ((found = (K) e.second == val(k, t, i))) break;
                  if (++steps > p.total) VP_FAIL("a reader gets more entries for key " << k << " than there are");
              }
              if (!found) VP_FAIL("a reader does not get value " << val(k, t, i) << " of key " << k << " whose insertion had finished");
          }, res);
    std::map<K, std::multiset<K>> vals;
    for (size_t t = 0; t < p.keys.size(); ++t)
        for (size_t i = 0; i < p.keys[t].size(); ++i) {
            vals[p.keys[t][i]].insert(val(p.keys[t][i], t, i));
            VP_CHECK(res[t][i], "insertion into the multimap reported failure");
        }
    auto h = table.handle();
    c.label("grew", h.capacity() != cap0);
    c.nontrivial(h.capacity() != cap0);
    VP_EQ((size_t) h.size(), p.total, "size of the table");
    for (auto &v : vals) {
        std::multiset<K> got;
        auto r = h.get(v.first);
        for (auto it = r.first; it != r.second; ++it) {
            auto e = *it;
            VP_EQ((K) e.first, v.first, "key of an entry found");
            got.insert(e.second);
            if (got.size() > v.second.size()) break;
        }
        VP_CHECK(got == v.second, "key " << v.first << " yields " << got.size() << " values instead of the "
                                         << v.second.size() << " inserted ones");
    }
    LP_MultiMap<K, K> seq(std::move(table.data()));
    VP_EQ((size_t) seq.size(), p.total, "size after converting to the sequential multimap");
    for (auto &v : vals) {
        std::multiset<K> got;
        auto r = seq.get(v.first);
        for (auto it = r.first; it != r.second; ++it) got.insert((*it).second);
        VP_CHECK(got == v.second, "values of key " << v.first << " in the sequential multimap");
    }
}

#ifdef VP_REAL
static Reg r1({"C18", "set-threads", propSet, 4000, 60000, 30, "2-8 real threads inserting 1-600 keys each into a growing set, readers alongside; non-trivial: the table grew", true, 2});
static Reg r2({"C18", "map-threads", propMap, 4000, 60000, 30, "2-8 real threads inserting into a growing map; non-trivial: the table grew", true, 2});
static Reg r3({"C18", "multimap-threads", propMultiMap, 4000, 60000, 30, "2-8 real threads inserting into a growing multimap; non-trivial: the table grew", true, 2});
#else
static Reg r1({"C18", "set-schedules", propSet, 600000, 8000000, 20, "2-5 threads plus readers on a growing set, interleaved at every atomic operation by a generated schedule; non-trivial: the table grew"});
static Reg r2({"C18", "map-schedules", propMap, 600000, 8000000, 20, "the same on a growing map; non-trivial: the table grew"});
static Reg r3({"C18", "multimap-schedules", propMultiMap, 600000, 8000000, 20, "the same on a growing multimap; non-trivial: the table grew"});
#endif

#ifdef VP_REAL
// Handles created at different moments, used in turns by one thread: whichever handle is asked, and however often the
// table has grown since it was used last, every operation answers for the current contents.
struct SetKind {
    typedef Concurrent_LP_Set<K, true> HT;
    template<typename H> static bool insert(H &h, K k, K) { return (bool) h.insert(k); }
    static bool multi() { return false; }
    static bool update() { return false; }
    static bool valued() { return false; }
    static K key(K e) { return e; }
    static K val(K) { return 0; }
    template<typename H> static void lookup(const H &h, K k, const std::multiset<K> &want, const std::string &when) {
        VP_EQ((bool) h.get(k), !want.empty(), "get(" << k << ") " << when);
    }
};
struct MapKind {
    typedef Concurrent_LP_Map<K, K> HT;
    template<typename H> static bool insert(H &h, K k, K v) { return (bool) h.insert(k, v); }
    static bool multi() { return false; }
    static bool update() { return true; }
    static bool valued() { return true; }
    template<typename E> static K key(const E &e) { return e.first; }
    template<typename E> static K val(const E &e) { return e.second; }
    template<typename H> static void lookup(const H &h, K k, const std::multiset<K> &want, const std::string &when) {
        VP_EQ((K) h.get(k), want.empty() ? (K) 0 : *want.begin(), "get(" << k << ") " << when);
    }
};
struct MultiMapKind {
    typedef Concurrent_LP_MultiMap<K, K> HT;
    template<typename H> static bool insert(H &h, K k, K v) { return (bool) h.insert(k, v); }
    static bool multi() { return true; }
    static bool update() { return false; }
    static bool valued() { return true; }
    template<typename E> static K key(const E &e) { return e.first; }
    template<typename E> static K val(const E &e) { return e.second; }
    template<typename H> static void lookup(const H &h, K k, const std::multiset<K> &want, const std::string &when) {
        std::multiset<K> got;
        auto r = h.get(k);
        for (auto it = r.first; it != r.second && got.size() <= want.size(); ++it) got.insert((*it).second);
        VP_CHECK(got == want, "get(" << k << ") " << when << " yields " << got.size() << " values, " << want.size() << " expected or others");
    }
};

template<typename Kind, typename H>
static void ask(Src &s, const H &h, const std::map<K, std::multiset<K>> &M, const std::vector<K> &pool, unsigned what, const std::string &when) {
    size_t total = 0;
    std::multiset<std::pair<K, K>> want, seen;
    for (auto &e : M)
        for (K v : e.second) want.insert({e.first, Kind::valued() ? v : 0}), ++total;
    auto pick = [&]() -> K { return pool.empty() || s.chance(1, 6) ? genKey(s, s.draw(4), 300) : pool[s.below(pool.size())]; };
    auto values = [&](K k) {
        auto it = M.find(k);
        return it == M.end() ? std::multiset<K>() : it->second;
    };
    switch (what) {
        case 0: {
            K k = pick();
            VP_EQ((bool) h.contains(k), M.count(k) > 0, "contains(" << k << ") " << when);
            break;
        }
        case 1: {
            K k = pick();
            Kind::lookup(h, k, values(k), when);
            break;
        }
        case 2: {
            K k = pick();
            VP_EQ(h.count(k) > 0, M.count(k) > 0, "count(" << k << ") > 0 " << when);
            break;
        }
        case 3: VP_EQ((size_t) h.size(), total, "size " << when); break;
        case 4: VP_EQ((bool) h.empty(), total == 0, "empty() " << when); break;
        case 5: {
            // at() on a stale handle comes after capacity(), so ask it by a position that every table has
            size_t used = 0;
            const bool e0 = h.empty((size_t) 0);
            const size_t n = h.capacity();
            for (size_t i = 0; i < n; ++i)
                if (!h.empty(i)) ++used;
            VP_EQ(used, total, "cells in use " << when);
            VP_EQ(h.empty((size_t) 0), e0, "empty(0) asked first and last " << when);
            break;
        }
        case 6: {
            const auto a0 = h.at((size_t) 0);
            const size_t n = h.capacity();
            for (size_t i = 0; i < n; ++i)
                if (!h.empty(i)) {
                    const auto e = h.at(i);
                    seen.insert({Kind::key(e), Kind::val(e)});
                }
            VP_CHECK(seen == want, "the cells hold " << seen.size() << " entries that differ from the " << total << " inserted " << when);
            VP_CHECK(Kind::key(h.at((size_t) 0)) == Kind::key(a0), "at(0) asked first and last " << when);
            break;
        }
        case 7: {
            for (auto it = h.begin(), e = h.end(); it != e; ++it) {
                const auto x = *it;
                seen.insert({Kind::key(x), Kind::val(x)});
                VP_CHECK(seen.size() <= total, "iteration does not end " << when);
            }
            VP_CHECK(seen == want, "iteration yields " << seen.size() << " entries that differ from the " << total << " inserted " << when);
            break;
        }
        case 8: {
            auto e = h.end(); // asked first
            for (auto it = h.begin(); it != e; ++it) {
                const auto x = *it;
                seen.insert({Kind::key(x), Kind::val(x)});
                VP_CHECK(seen.size() <= total, "iteration does not end " << when);
            }
            VP_CHECK(seen == want, "iteration to the end asked for first yields " << seen.size() << " entries that differ from the "
                                                                                   << total << " inserted " << when);
            break;
        }
        default: {
            auto r = h.range();
            for (auto it = r.begin(); it != r.end(); ++it) {
                const auto x = *it;
                seen.insert({Kind::key(x), Kind::val(x)});
                VP_CHECK(seen.size() <= total, "the range does not end " << when);
            }
            VP_CHECK(seen == want, "the range yields " << seen.size() << " entries that differ from the " << total << " inserted " << when);
        }
    }
}

template<typename Kind>
static void propStale(Src &s, Ctx &c) {
    typedef typename Kind::HT HT;
    const size_t cap = s.pick({(size_t) 2, (size_t) 4, (size_t) 1, (size_t) 8, (size_t) 16, (size_t) 64});
    GrowingHashTable<HT> table(cap);
    const GrowingHashTable<HT> &ctable = table;
    std::vector<std::unique_ptr<GrowingHashTableHandle<HT>>> hs;
    std::vector<std::unique_ptr<ConstGrowingHashTableHandle<HT>>> cs;
    std::vector<unsigned> seenH, seenC; // how often the table had grown when the handle was used last
    std::map<K, std::multiset<K>> M;
    std::vector<K> pool;
    std::ostringstream log;
    log << "capacity " << cap << ": ";
    auto addW = [&] {
        hs.push_back(std::make_unique<GrowingHashTableHandle<HT>>(table));
        seenH.push_back(table.get_epoch());
        log << "w" << hs.size() - 1 << " ";
    };
    auto addR = [&] {
        cs.push_back(std::make_unique<ConstGrowingHashTableHandle<HT>>(ctable.handle()));
        seenC.push_back(table.get_epoch());
        log << "r" << cs.size() - 1 << " ";
    };
    addW();
    const unsigned mode = s.draw(4);
    const size_t space = s.pick({(size_t) 200, (size_t) 30, (size_t) 100000});
    bool stale = false;
    const size_t ops = s.length(1, 60);
    K next = 1;
    for (size_t o = 0; o < ops; ++o) {
        const unsigned w = s.draw(12);
        if (w == 0 && hs.size() < 8) addW();
        else if (w <= 2 && cs.size() < 8) addR();
        else if (w <= 6) {
            const size_t i = s.below(hs.size()), n = s.pick({(size_t) 1, (size_t) 3, (size_t) 10, (size_t) 25});
            log << "w" << i << ".insert(";
            stale |= table.get_epoch() != seenH[i];
            for (size_t j = 0; j < n; ++j) {
                K k = genKey(s, mode, space), v = s.chance(1, 8) ? 0 : next++;
                log << (j ? "," : "") << k << ":" << v;
                const bool fresh = !M.count(k);
                const bool said = Kind::insert(*hs[i], k, v);
                VP_EQ(said, fresh || Kind::multi(), "answer of inserting " << k << " after " << log.str());
                if (fresh) pool.push_back(k);
                if (Kind::update()) M[k] = {v};
                else if (Kind::multi() || fresh) M[k].insert(v);
            }
            log << ") ";
            seenH[i] = table.get_epoch();
        } else {
            const unsigned what = s.draw(10);
            if (!cs.empty() && s.chance(1, 2)) {
                const size_t i = s.below(cs.size());
                log << "r" << i << "?" << what << " ";
                stale |= table.get_epoch() != seenC[i];
                ask<Kind>(s, *cs[i], M, pool, what, "after " + log.str());
                seenC[i] = table.get_epoch();
            } else {
                const size_t i = s.below(hs.size());
                log << "w" << i << "?" << what << " ";
                stale |= table.get_epoch() != seenH[i];
                ask<Kind>(s, *hs[i], M, pool, what, "after " + log.str());
                seenH[i] = table.get_epoch();
            }
        }
    }
    for (auto &h : cs) ask<Kind>(s, *h, M, pool, s.draw(10), "at the end of " + log.str());
    for (auto &h : hs) ask<Kind>(s, *h, M, pool, s.draw(10), "at the end of " + log.str());
    c.nontrivial(stale);
    c.label("grew twice or more", table.get_epoch() > 1);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

#define STALE "up to 16 reading and writing handles of different ages on one growing table, used in turns with every operation; non-trivial: a handle was used after the table had grown behind its back"
static Reg r4({"C18", "set-handles", propStale<SetKind>, 400000, 4000000, 20, STALE});
static Reg r5({"C18", "map-handles", propStale<MapKind>, 400000, 4000000, 20, STALE});
static Reg r6({"C18", "multimap-handles", propStale<MultiMapKind>, 400000, 4000000, 20, STALE});
#endif

int main(int argc, char **argv) { return vp_main(argc, argv); }
