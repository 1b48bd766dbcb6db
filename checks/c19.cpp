// C19: bit sets against std::set. Compiled twice: fibers under a generated schedule, and -DVP_REAL threads.
#include <thread>
#include <set>
#include <sstream>
#include "vp.hpp"
#include <tbb/tbb_stddef.h>
#include <tbb/parallel_for.h>
#include <tbb/blocked_range.h>
#include <boost/serialization/access.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include "utils/Misc.h"
#include "utils/ASSERT.h"
#include "utils/Random.h"
#include "utils/VTuneAdapter.h"
#include "utils/System.h"
#include "utils/Logger.h"
#ifndef VP_REAL
#include "sched.hpp"
#include "sched_on.hpp"
#endif
#include "datastructures/LP_Set.hxx"
#include "datastructures/Bit_Set.hxx"
#ifndef VP_REAL
#include "sched_off.hpp"
#endif

using namespace vp;
typedef unsigned K;
static PerCase pc([](uint64_t s) { startGen.seed((unsigned) s); });

static void runAll(Src &s, std::vector<std::function<void()>> fns) {
#ifdef VP_REAL
    std::vector<std::thread> ts;
    std::atomic<unsigned> gate(0);
    for (size_t t = 0; t < fns.size(); ++t)
        ts.emplace_back([&, t] {
            ++gate;
            while (gate.load() < fns.size()) {
            }
            fns[t]();
        });
    for (auto &t : ts) t.join();
#else
    sched::run(s, std::move(fns));
#endif
}

struct Model {
    std::set<K> m;
    size_t lo, hi; // ids asked for
    bool alive = true;
};

static std::string show(const std::vector<K> &v) {
    std::ostringstream o;
    o << "{";
    for (size_t i = 0; i < v.size() && i < 30; ++i) o << (i ? " " : "") << v[i];
    if (v.size() > 30) o << " ... " << v.size() << " ids";
    o << "}";
    return o.str();
}

// parts of a recursively split range, left to right
template<typename R>
static void parts(Src &s, R &r, std::vector<std::vector<K>> &out, unsigned depth) {
    if (depth && r.is_divisible() && s.chance(7, 8)) {
        R left(r, tbb::split()); // the new range takes the front part
        parts(s, left, out, depth - 1);
        parts(s, r, out, depth - 1);
        return;
    }
    out.emplace_back();
    for (auto it = r.begin(); it != r.end(); ++it) {
        out.back().push_back(*it);
        if (out.back().size() > 100000) VP_FAIL("a part of a split range does not end");
    }
}

template<typename S>
static void check(Src &s, const S &set, const Model &M, const std::string &when) {
    VP_EQ((size_t) set.size(), M.m.size(), "size after " << when);
    VP_EQ((size_t) set.ones(), M.m.size(), "ones after " << when);
    VP_CHECK(set.lowerBound() <= M.lo && set.upperBound() >= M.hi, "the bounds " << set.lowerBound() << ".." << set.upperBound()
                                                                                 << " do not cover " << M.lo << ".." << M.hi << " after " << when);
    size_t range = set.upperBound() - set.lowerBound();
    VP_EQ((size_t) set.zeros() + set.ones(), range, "ones and zeros after " << when);
    VP_EQ(set.zero(), M.m.empty(), "zero() after " << when);
    VP_EQ(set.empty(), M.m.empty(), "empty() after " << when);
    VP_EQ(set.one(), M.m.size() == range, "one() after " << when);
    size_t from = set.lowerBound() > 3 ? set.lowerBound() - 3 : 0;
    for (size_t k = from; k < set.upperBound() + 40; ++k) {
        bool in = M.m.count((K) k);
        VP_EQ(set.contains((K) k), in, "contains(" << k << ") after " << when);
        VP_EQ(set.isSet((K) k), in, "isSet(" << k << ") after " << when);
        VP_EQ((size_t) set.count((K) k), (size_t) in, "count(" << k << ") after " << when);
        VP_EQ(set.one(k), in, "one(" << k << ") after " << when);
        VP_EQ(set.zero(k), !in, "zero(" << k << ") after " << when);
        VP_EQ(set.empty(k), !in, "empty(" << k << ") after " << when);
        VP_EQ((size_t) set.at(k), in ? k : 0, "at(" << k << ") after " << when);
    }
    std::vector<K> want(M.m.begin(), M.m.end()), seen;
    for (auto it = set.begin(); it != set.end(); ++it) {
        seen.push_back(*it);
        if (seen.size() > want.size()) break;
    }
    VP_CHECK(seen == want, "iteration after " << when << " yields " << show(seen) << " instead of " << show(want));
    if (!want.empty()) {
        std::vector<K> back;
        auto it = set.end();
        for (size_t i = 0; i < want.size(); ++i) {
            --it;
            back.push_back(*it);
        }
        std::reverse(back.begin(), back.end());
        VP_CHECK(back == want, "iterating backwards after " << when << " yields " << show(back) << " instead of " << show(want));
    }
    typename S::const_range_type r(set, s.pick({(size_t) 1, (size_t) 2, (size_t) 5, (size_t) 1000}));
    std::vector<std::vector<K>> ps;
    parts(s, r, ps, 8);
    seen.clear();
    std::ostringstream o;
    for (auto &p : ps) {
        seen.insert(seen.end(), p.begin(), p.end());
        o << show(p) << " ";
    }
    VP_CHECK(seen == want, "split iteration after " << when << " yields " << o.str() << "instead of " << show(want));
}

#ifndef VP_REAL
static size_t base(Src &s) { return s.pick({(size_t) 0, (size_t) 1, (size_t) 31, (size_t) 32, (size_t) 33, (size_t) 64, (size_t) 1000}) ; }

static void propSeq(Src &s, Ctx &c) {
    size_t b = base(s);
    std::vector<std::unique_ptr<Bit_Set>> sets;
    std::vector<Model> M;
    std::ostringstream log;
    auto fresh = [&](size_t i) {
        Model m;
        m.lo = b + s.below(100);
        m.hi = m.lo + 1 + s.below(s.chance(1, 6) ? 1500 : 150);
        log << "new" << i << "(" << m.lo << "," << m.hi << ") ";
        auto p = std::make_unique<Bit_Set>(m.lo, m.hi);
        if (i < sets.size()) {
            if (s.chance(1, 2)) sets[i] = std::move(p);
            else *sets[i] = std::move(*p);
            M[i] = m;
        } else {
            sets.push_back(std::move(p));
            M.push_back(m);
        }
    };
    fresh(0);
    fresh(1);
    size_t ops = s.length(1, 40), muts = 0;
    for (size_t o = 0; o < ops; ++o) {
        size_t a = s.draw(2), bI = 1 - a;
        auto &S = *sets[a];
        auto &m = M[a];
        K k = (K) (m.lo + s.below(m.hi - m.lo));
        unsigned what = s.draw(26);
        if (what < 6) {
            log << "insert" << a << "(" << k << ") ";
            bool f = m.m.insert(k).second;
            if (what < 5) VP_EQ(S.insert(k), f, "insert(" << k << ") after " << log.str());
            else VP_EQ(S.testAndSet(k), !f, "testAndSet(" << k << ") after " << log.str());
            ++muts;
        } else if (what < 10) {
            if (!m.m.empty() && s.chance(3, 4)) {
                auto it = m.m.begin();
                std::advance(it, s.below(m.m.size()));
                k = *it;
            }
            log << "erase" << a << "(" << k << ") ";
            bool f = m.m.erase(k);
            if (what < 9) VP_EQ(S.erase(k), f, "erase(" << k << ") after " << log.str());
            else VP_EQ(S.testAndUnset(k), f, "testAndUnset(" << k << ") after " << log.str());
        } else if (what < 14) {
            size_t f = m.lo + s.below(m.hi - m.lo), t = f + s.below(m.hi - f + 1);
            log << "batchSet" << a << "(" << f << "," << t << ") ";
            for (size_t i = f; i < t; ++i) m.m.insert((K) i);
            S.batchSet((K) f, (K) t);
            muts += t > f;
        } else if (what < 16) {
            log << "merge" << a << "(" << bI << ") ";
            S.merge(*sets[bI]);
            m.m.insert(M[bI].m.begin(), M[bI].m.end());
            m.lo = std::min(m.lo, M[bI].lo);
            m.hi = std::max(m.hi, M[bI].hi);
            ++muts;
        } else if (what < 18) {
            log << "filter" << a << "(" << bI << ") ";
            if (s.chance(1, 4)) {
                log << "[concurrent] ";
                Concurrent_Bit_Set cb(std::move(*sets[bI]));
                S.filter(cb);
                *sets[bI] = Bit_Set(std::move(cb));
            } else S.filter(*sets[bI]);
            for (K x : M[bI].m) m.m.erase(x);
        } else if (what < 20) {
            Model f;
            f.lo = b + s.below(200);
            f.hi = f.lo + 1 + s.below(200);
            Bit_Set F(f.lo, f.hi);
            size_t n = s.below(20);
            for (size_t i = 0; i < n; ++i) {
                K x = (K) (f.lo + s.below(f.hi - f.lo));
                F.insert(x);
                f.m.insert(x);
            }
            log << "mergeFilter" << a << "(" << bI << ", " << show(std::vector<K>(f.m.begin(), f.m.end())) << ") ";
            S.mergeFilter(*sets[bI], F);
            m.m.insert(M[bI].m.begin(), M[bI].m.end());
            for (K x : f.m) m.m.erase(x);
            m.lo = std::min(m.lo, M[bI].lo);
            m.hi = std::max(m.hi, M[bI].hi);
        } else if (what < 22) {
            size_t hi = m.hi + s.below(100), lo = m.lo - s.below(std::min<size_t>(m.lo, 100) + 1);
            if (s.chance(1, 2)) {
                log << "resize" << a << "(" << hi << ") ";
                S.resize(hi);
            } else {
                log << "resize" << a << "(" << lo << "," << hi << ") ";
                S.resize(lo, hi);
                m.lo = lo;
            }
            m.hi = hi;
        } else if (what == 22) {
            log << "copy" << bI << "->" << a << " ";
            if (s.chance(1, 3)) {
                Concurrent_Bit_Set cb(std::move(*sets[bI]));
                S.copy(cb);
                *sets[bI] = Bit_Set(std::move(cb));
            } else S.copy(*sets[bI]);
            M[a] = M[bI];
        } else if (what == 23) {
            log << "move" << a << " ";
            Bit_Set t(std::move(S));
            if (s.chance(1, 2)) {
                Concurrent_Bit_Set q(std::move(t));
                Concurrent_Bit_Set q2(std::move(q));
                Concurrent_Bit_Set q3(0, 10);
                q3 = std::move(q2);
                check(s, q3, m, log.str() + "(concurrent)");
                S = Bit_Set(std::move(q3));
            } else S = std::move(t);
        } else if (what == 24) {
            log << "store+load" << a << " ";
            std::stringstream ss;
            {
                boost::archive::binary_oarchive oa(ss);
                oa << (const Bit_Set &) S;
            }
            Bit_Set q(0, 1);
            boost::archive::binary_iarchive ia(ss);
            ia >> q;
            S = std::move(q);
        } else fresh(a);
        if (s.chance(1, 4)) check(s, *sets[a], M[a], log.str());
    }
    for (size_t a = 0; a < 2; ++a) check(s, *sets[a], M[a], log.str());
    c.nontrivial(muts >= 2);
    c.describe([&](std::ostream &o) { o << log.str(); });
}

// exhaustive small batch: every from/to around a block border on top of a pattern
static void propBatch(Src &s, Ctx &c) {
    size_t off = s.below(40), from = off + s.below(70), to = from + s.below(71);
    Bit_Set S(off, off + 140);
    Model M;
    M.lo = off;
    M.hi = off + 140;
    unsigned pat = s.draw(4);
    for (size_t i = M.lo; i < M.hi; ++i)
        if ((pat == 1 && i % 3 == 0) || (pat == 2 && (i < from || i >= to)) || (pat == 3 && s.chance(1, 2))) {
            S.insert((K) i);
            M.m.insert((K) i);
        }
    S.batchSet((K) from, (K) to);
    for (size_t i = from; i < to; ++i) M.m.insert((K) i);
    std::ostringstream o;
    o << "pattern " << pat << ", batchSet(" << from << "," << to << ") in " << M.lo << ".." << M.hi;
    check(s, S, M, o.str());
    c.nontrivial(from < to);
    c.describe([&](std::ostream &d) { d << o.str(); });
}
#endif

// concurrent insertions and removals. Ids with owner are inserted and erased by their owning thread only, so that the
// outcome is determined; shared ids are only inserted.
static void propConc(Src &s, Ctx &c) {
#ifdef VP_REAL
    size_t T = s.range<size_t>(2, 8), maxOps = 3000;
#else
    size_t T = s.range<size_t>(2, 4), maxOps = 30;
#endif
    size_t lo = s.pick({0u, 5u, 40u}), span = s.pick({(size_t) 8, (size_t) 40, (size_t) 100, maxOps});
    struct Op {
        K k;
        bool erase, res, want;
    };
    std::vector<std::vector<Op>> ops(T);
    std::vector<std::set<K>> own(T);
    std::set<K> shared;
    Concurrent_Bit_Set set(lo, lo + span);
    for (size_t t = 0; t < T; ++t) {
        size_t n = s.length(1, maxOps);
        for (size_t i = 0; i < n; ++i) {
            K k = (K) (lo + s.below(span));
            bool priv = k % (T + 1) != T;
            Op op{k, false, false, false};
            if (priv) {
                k = k - k % (T + 1) + t;
                if (k < lo || k >= lo + span) continue;
                op.k = k;
                op.erase = s.chance(1, 2);
                op.want = own[t].count(k);
                if (op.erase) own[t].erase(k);
                else own[t].insert(k);
            } else shared.insert(k);
            ops[t].push_back(op);
        }
    }
    std::vector<std::function<void()>> fns;
    for (size_t t = 0; t < T; ++t)
        fns.push_back([&, t] {
            for (auto &o : ops[t]) o.res = o.erase ? set.testAndUnset(o.k) : set.testAndSet(o.k);
        });
    runAll(s, std::move(fns));
    Model M;
    M.lo = lo;
    M.hi = lo + span;
    M.m = shared;
    for (auto &w : own) M.m.insert(w.begin(), w.end());
    std::map<K, size_t> news;
    size_t total = 0;
    for (size_t t = 0; t < T; ++t)
        for (auto &o : ops[t]) {
            ++total;
            if (o.k % (T + 1) == T) news[o.k] += !o.res;
            else VP_EQ(o.res, o.want, (o.erase ? "testAndUnset(" : "testAndSet(") << o.k << ") by thread " << t << ", the only one using this id");
        }
    for (auto &n : news) VP_EQ(n.second, (size_t) 1, "number of threads told that id " << n.first << " was new");
    check(s, set, M, "concurrent use");
    Bit_Set seq(std::move(set));
    check(s, seq, M, "conversion to the sequential bit set");
    c.nontrivial(total > T && M.m.size() > 1);
    c.describe([&](std::ostream &o) {
        o << T << " threads on " << lo << ".." << lo + span << ":";
        for (auto &v : ops) {
            o << " [";
            for (size_t i = 0; i < v.size() && i < 30; ++i) o << (i ? " " : "") << (v[i].erase ? "-" : "+") << v[i].k;
            o << "]";
        }
    });
}

#ifdef VP_REAL
static Reg r1({"C19", "threads", propConc, 12000, 300000, 30, "2-8 real threads setting and unsetting ids in shared words; non-trivial: more than one operation per thread and ids left", true, 2});
#else
static Reg r1({"C19", "sequences", propSeq, 400000, 20000000, 20, "operation sequences on two bit sets against std::set; non-trivial: at least two mutations"});
static Reg r2({"C19", "batch", propBatch, 200000, 6000000, 20, "batchSet over every kind of block border on patterns; non-trivial: non-empty interval"});
static Reg r3({"C19", "schedules", propConc, 1000000, 30000000, 20, "2-4 threads setting and unsetting ids in shared words under generated schedules; non-trivial: more than one operation per thread and ids left"});
#endif
int main(int argc, char **argv) { return vp_main(argc, argv); }
