// C33: id handlers.  C35: assertions, timers, system probes.
#include "vp.hpp"
#include <thread>
#include <typeinfo>
#include <sys/mman.h>
#include <ctime>

#include "Geometry.h"
#include "utils/IndexHandler.h"
#include "utils/ASSERT.h"
#include "utils/System.h"
#include "utils/TaskTimer.h"

using namespace vp;

template<class H>
static void handlerModel(Src &s, Ctx &c) {
    tIdType start = s.chance(1, 3) ? 0 : s.draw(1ULL << 40);
    std::unique_ptr<H> h(start == 0 && s.chance(1, 2) ? new H() : new H(start));
    std::set<tIdType> used, freed; // freed: available for reuse
    std::set<tIdType> dead;        // released after reuse was disabled
    tIdType next = start;
    bool disabled = false;
    unsigned reuse = 0;
    size_t n = s.length(1, 80);
    std::ostringstream ops;
    for (size_t i = 0; i < n; ++i) {
        unsigned op = s.draw(10);
        if (op < 5 || used.empty()) {
            tIdType id = h->getId();
            ops << "get=" << id << " ";
            VP_CHECK(!used.count(id), "id " << id << " handed out twice");
            VP_CHECK(!dead.count(id), "id " << id << " handed out after reuse was disabled");
            if (!freed.empty()) {
                VP_CHECK(freed.count(id), "id " << id << " is new although released ids are available");
                freed.erase(id);
                ++reuse;
            } else {
                VP_EQ(id, next, "fresh id");
                ++next;
            }
            used.insert(id);
        } else if (op < 9) {
            auto it = used.begin();
            std::advance(it, s.below(used.size()));
            tIdType id = *it;
            h->releaseId(id);
            ops << "rel " << id << " ";
            used.erase(it);
            (disabled ? dead : freed).insert(id);
        } else if (s.chance(1, 5)) {
            h->disable();
            disabled = true;
            ops << "disable ";
        }
        VP_EQ(h->maxId(), next, "reported maximum");
    }
    c.describe([&](std::ostream &o) { o << ops.str().substr(0, 300); });
    c.nontrivial(reuse > 0);
    if (disabled) c.label("with reuse disabled");
}

static void propSeq(Src &s, Ctx &c) { handlerModel<_detail::IndexHandler>(s, c); }

static void propConcSeq(Src &s, Ctx &c) { handlerModel<_detail::Concurrent_IndexHandler>(s, c); }

static void propConc(Src &s, Ctx &c) {
    unsigned T = 2 + s.draw(7), per = 500 + s.draw(5000);
    tIdType start = s.chance(1, 2) ? 0 : 1000;
    uint64_t salt = s.draw(0);
    bool disable = s.chance(1, 4);
    _detail::Concurrent_IndexHandler h(start);
    if (disable) h.disable();
    const size_t cap = start + (size_t) T * per + 10;
    std::unique_ptr<std::atomic<unsigned char>[]> inUse(new std::atomic<unsigned char>[cap]);
    for (size_t i = 0; i < cap; ++i) inUse[i] = 0;
    std::atomic<unsigned> ready(0), twice(0), low(0), high(0);
    std::vector<std::thread> th;
    std::vector<size_t> gets(T, 0), held(T, 0), peak(T, 0);
    for (unsigned t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            uint64_t r = mix(salt ^ t);
            std::vector<tIdType> mine;
            ++ready;
            while (ready < T);
            for (unsigned i = 0; i < per; ++i) {
                r = mix(r);
                if (r % 5 < 3 || mine.empty()) {
                    tIdType id = h.getId();
                    ++gets[t];
                    if (id < start) ++low;
                    else if (id >= cap) ++high;
                    else {
                        if (inUse[id].exchange(1)) ++twice;
                        mine.push_back(id);
                    }
                    if (id >= h.maxId()) ++high;
                } else {
                    size_t k = (r >> 20) % mine.size();
                    tIdType id = mine[k];
                    mine[k] = mine.back();
                    mine.pop_back();
                    if (!disable) inUse[id] = 0; // with reuse disabled an id stays taken for good
                    h.releaseId(id);
                }
            }
            held[t] = mine.size();
        });
    for (auto &t : th) t.join();
    VP_EQ(twice.load(), 0u, "ids handed out while in use");
    VP_EQ(low.load(), 0u, "ids below the start");
    VP_EQ(high.load(), 0u, "ids at or above the reported maximum");
    size_t G = 0, Hd = 0;
    for (unsigned t = 0; t < T; ++t) G += gets[t], Hd += held[t];
    VP_CHECK(h.maxId() - start <= G, "maximum " << h.maxId() << " above the number of requests");
    if (disable) VP_EQ((size_t) (h.maxId() - start), G, "every request needs a fresh id when reuse is disabled");
    else {
        // drain: everything released must come back before anything fresh does
        size_t freeIds = h.maxId() - start - Hd;
        tIdType m = h.maxId();
        for (size_t i = 0; i < freeIds; ++i) {
            tIdType id = h.getId();
            VP_CHECK(id < m && id >= start && !inUse[id].exchange(1), "released ids are not all available again: got " << id);
        }
        VP_EQ(h.getId(), m, "fresh id after all released ids are used");
    }
    c.describe([&](std::ostream &o) { o << T << " threads x " << per << " operations from " << start << (disable ? ", no reuse" : ""); });
    c.nontrivial();
}

// ---- C35
static void propAssert(Src &s, Ctx &c) {
    bool v = s.chance(1, 2);
    std::string msg;
    size_t n = s.below(10);
    for (size_t i = 0; i < n; ++i) msg += (char) s.range(32, 126);
    unsigned calls = 0;
    auto cond = [&] {
        ++calls;
        return v;
    };
    unsigned kind = s.draw(3);
    int line = 0;
    bool threw = false;
    std::string what;
    try {
        switch (kind) {
            case 0: line = __LINE__; ASSERT(cond()); break;
            case 1: line = __LINE__; MASSERT(cond(), msg); break;
            default: line = __LINE__; FASSERT(cond());
        }
    } catch (const std::exception &e) {
        threw = true;
        what = e.what();
    }
    VP_EQ(threw, !v, "assertion of kind " + std::to_string(kind) + " on condition " + std::to_string(v));
    VP_EQ(calls, 1u, "evaluations of the condition");
    if (threw) {
        for (const std::string &part : {std::string("cond()"), std::string(__FILE__), std::to_string(line), kind == 1 ? msg : std::string()})
            VP_CHECK(what.find(part) != std::string::npos, "message \"" << what << "\" lacks \"" << part << "\"");
        VP_CHECK(what.find(std::string(__FILE__) + ":" + std::to_string(line)) != std::string::npos, "no location in \"" << what << "\"");
    }
    std::string f = "f" + msg, x = "e" + msg;
    uint l = (uint) s.draw(100000);
    AssertionException e1(x, f, l), e2(x, f, l, "m" + msg);
    for (auto *e : {&e1, &e2}) {
        std::string w = e->what();
        VP_CHECK(w.find(f + ":" + std::to_string(l)) == 0, "location missing: " << w);
        VP_CHECK(w.find("`" + x + "'") != std::string::npos, "expression missing: " << w);
    }
    VP_CHECK(std::string(e2.what()).find("m" + msg) != std::string::npos, "message missing: " << e2.what());
    c.describe([&](std::ostream &o) { o << "kind " << kind << " condition " << v << " " << what; });
    c.nontrivial(!v);
}

struct Alloc {
    size_t limit;
    std::vector<size_t> asked;

    void _allocate(size_t size) {
        asked.push_back(size);
        if (size > limit) throw std::bad_alloc();
    }

    void go(size_t size) {
        ALLOCATE(size);
    }

    void deep(unsigned depth, size_t size) {
        volatile char pad[64];
        pad[0] = (char) depth;
        if (depth) deep(depth - 1, size);
        else go(size);
        pad[1] = pad[0];
    }
};

static void propAllocate(Src &s, Ctx &c) {
    Alloc a;
    a.limit = s.draw(1000);
    size_t size = s.draw(2000);
    unsigned depth = s.draw(80);
    std::ostringstream err;
    std::streambuf *old = std::cerr.rdbuf(err.rdbuf());
    bool threw = false, other = false;
    try {
        a.deep(depth, size);
    } catch (const std::bad_alloc &) {
        threw = true;
    } catch (...) {
        other = true;
    }
    std::cerr.rdbuf(old);
    VP_CHECK(!other, "the exception changed its type");
    VP_EQ(threw, size > a.limit, "bad_alloc for size " + std::to_string(size) + " with limit " + std::to_string(a.limit));
    VP_CHECK(a.asked == std::vector<size_t>{size}, "allocation was not tried exactly once");
    if (threw) {
        VP_CHECK(err.str().find(" for size " + std::to_string(size) + "\n") != std::string::npos, "size not reported: " << err.str());
        VP_CHECK(err.str().find("stack trace from (") != std::string::npos, "no stack trace: " << err.str());
    } else VP_EQ(err.str(), std::string(), "report without a failure");
    c.describe([&](std::ostream &o) { o << "size " << size << " limit " << a.limit << " depth " << depth; });
    c.nontrivial(threw);
}

static std::string __attribute__((noinline)) recurse(unsigned d, const std::string &f, int line, int frames) {
    volatile int keep = d;
    std::string r = d ? recurse(d - 1, f, line, frames) : frames < 0 ? print_stacktrace(f, line) : print_stacktrace(f, line, (uint) frames);
    if (keep < -5) r += "x";
    return r;
}

static void propStack(Src &s, Ctx &c) {
    unsigned depth = s.draw(150);
    int frames = s.chance(1, 4) ? -1 : (int) s.draw(100);
    int line = (int) s.draw(100000);
    std::string file = "file" + std::to_string(s.draw(1000)) + ".cpp";
    std::string t = recurse(depth, file, line, frames);
    std::string head = "stack trace from (" + file + ":" + std::to_string(line) + "):\n";
    VP_CHECK(t.compare(0, head.size(), head) == 0, "first line is \"" << t.substr(0, t.find('\n')) << "\"");
    size_t lines = std::count(t.begin(), t.end(), '\n') - 1;
    size_t max = frames < 0 ? 63 : frames;
    VP_CHECK(lines <= max, lines << " frames, limit " << max);
    VP_CHECK(lines >= std::min<size_t>(max, depth + 1), lines << " frames for a stack of at least " << depth + 1 << ", limit " << max);
    VP_CHECK(t.back() == '\n', "last line is cut");
    c.describe([&](std::ostream &o) { o << "depth " << depth << " limit " << frames << ": " << lines << " frames"; });
    c.nontrivial(depth > 2 && max > 2);
}

static size_t statmRss() {
    FILE *f = fopen("/proc/self/statm", "r");
    long a, b = 0;
    if (f && fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
    if (f) fclose(f);
    return (size_t) b * sysconf(_SC_PAGESIZE);
}

static void propMemory(Src &s, Ctx &c) {
    const size_t slack = 16 << 20;
    size_t c0 = getCurrentRSS(), p0 = getPeakRSS();
    VP_CHECK(c0 > 0 && p0 > 0, "no memory size reported");
    size_t mb = 20 + s.draw(60), bytes = mb << 20;
    unsigned rounds = 1 + s.draw(3);
    for (unsigned r = 0; r < rounds; ++r) {
        size_t before = getCurrentRSS();
        char *m = (char *) mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) throw Discard();
        for (size_t i = 0; i < bytes; i += 4096) m[i] = 1;
        size_t cur = getCurrentRSS(), ref = statmRss(), peak = getPeakRSS();
        munmap(m, bytes);
        size_t after = getCurrentRSS(), peak2 = getPeakRSS();
        VP_CHECK(cur + slack >= before + bytes && cur <= before + bytes + slack, "current memory went from " << before << " to " << cur << " when " << bytes << " were touched");
        VP_CHECK(cur + slack >= ref && ref + slack >= cur, "current memory " << cur << ", the system says " << ref);
        // the kernel updates both counters lazily, by a few pages per thread
        VP_CHECK(peak + slack >= cur, "peak " << peak << " below current " << cur);
        VP_CHECK(after + slack >= before && after <= before + slack, "current memory stays at " << after << " after release (before: " << before << ")");
        VP_CHECK(peak2 >= peak, "peak shrank from " << peak << " to " << peak2);
        struct rusage ru;
        getrusage(RUSAGE_SELF, &ru);
        VP_CHECK(peak2 <= (size_t) ru.ru_maxrss * 1024 && peak2 + slack >= (size_t) ru.ru_maxrss * 1024, "peak " << peak2 << ", the system says " << ru.ru_maxrss << " kB");
        VP_CHECK(peak >= p0, "peak shrank");
    }
    c.describe([&](std::ostream &o) { o << rounds << " x " << mb << " MB"; });
    c.nontrivial();
}

static void propHostDate(Src &s, Ctx &c) {
    char h[256];
    gethostname(h, sizeof h);
    VP_EQ(getHostname(), std::string(h), "host name");
    unsigned n = 1 + s.draw(3);
    for (unsigned i = 0; i < n; ++i) {
        time_t a = time(nullptr);
        std::string d = getDatetime();
        time_t b = time(nullptr);
        bool ok = false;
        for (time_t t = a; t <= b; ++t) {
            char w[64];
            struct tm tm;
            localtime_r(&t, &tm);
            snprintf(w, sizeof w, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
            ok = ok || d == w;
        }
        VP_CHECK(ok, "date and time \"" << d << "\"");
    }
    c.describe([&](std::ostream &o) { o << getHostname() << " " << getDatetime(); });
    c.nontrivial();
}

static void propTimer(Src &s, Ctx &c) {
    LOGGER.setLogLevel(Logger::Verbosity::NORMAL);
    LOGGER.setIndent(0);
    std::ostringstream b0;
    LOGGER.printLog(b0);
    struct Rec {
        std::string name;
        int rank;
        long long lo, hi; // earliest start, latest end
    };
    std::vector<Rec> want;
    auto tick = [] { return (long long) Clock::now().time_since_epoch().count(); };
    unsigned timers = 1 + s.draw(4);
    for (unsigned t = 0; t < timers; ++t) {
        std::string name = "task" + std::to_string(s.draw(100));
        int rank = (int) s.range(-3, 30);
        bool autostart = s.chance(1, 2), running = false;
        long long lo = tick();
        {
            std::unique_ptr<TaskTimer> tt(autostart ? (s.chance(1, 2) ? new TaskTimer(name, rank) : new TaskTimer(name, rank, true)) : new TaskTimer(name, rank, false));
            running = autostart;
            unsigned ops = s.draw(5);
            for (unsigned k = 0; k < ops; ++k) {
                if (s.chance(1, 2)) {
                    lo = tick();
                    tt->start();
                    running = true;
                } else {
                    tt->end();
                    if (running) want.push_back({name, rank, lo, tick()});
                    running = false;
                }
                for (volatile unsigned w = 0; w < 1000 * s.draw(3); ++w);
            }
        }
        if (running) want.push_back({name, rank, lo, tick()});
    }
    std::ostringstream b1;
    LOGGER.printLog(b1);
    std::istringstream is(b1.str().substr(b0.str().size()));
    std::string line;
    size_t i = 0;
    while (std::getline(is, line)) {
        VP_CHECK(i < want.size(), "unexpected record \"" << line << "\"");
        std::istringstream ls(line);
        std::string tag, name, rest;
        int rank;
        long long a, e, d;
        VP_CHECK((bool) (ls >> tag >> rank >> name >> a >> e >> d) && !(ls >> rest), "malformed record \"" << line << "\"");
        VP_EQ(tag, std::string("TIMING"), "record tag");
        VP_EQ(name, want[i].name, "task name");
        VP_EQ(rank, want[i].rank, "rank");
        VP_CHECK(want[i].lo <= a && a <= e && e <= want[i].hi, "record \"" << line << "\" outside " << want[i].lo << ".." << want[i].hi);
        VP_EQ(d, e - a, "duration");
        ++i;
    }
    VP_EQ(i, want.size(), "number of timing records");
    c.describe([&](std::ostream &o) { o << timers << " timers, " << i << " records"; });
    c.nontrivial(i >= 2);
}

static Reg r1({"C33", "model", propSeq, 2000000, 20000000, 20, "request/release/disable sequences on the sequential handler against a set model; non-trivial: an id was reused"});
static Reg r2({"C33", "model-concurrent-type", propConcSeq, 1000000, 10000000, 20, "the same on the concurrent handler, from one thread; non-trivial: an id was reused"});
static Reg r3({"C33", "threads", propConc, 4000, 40000, 60, "2-8 threads requesting and releasing; no id in use twice, all released ids come back; every case non-trivial", true, 2});
static Reg r4({"C35", "assert", propAssert, 1000000, 1000000, 20, "assertion macros on true and false conditions with random messages; non-trivial: the condition is false"});
static Reg r5({"C35", "allocate", propAllocate, 50000, 30000, 20, "allocations above and below a limit at random stack depth; non-trivial: the allocation failed"});
static Reg r6({"C35", "stacktrace", propStack, 100000, 20000, 20, "stack depths 0-149 and frame limits 0-99; non-trivial: depth and limit above 2"});
static Reg r7({"C35", "memory", propMemory, 120, 800, 60, "20-80 MB touched and released 1-3 times; every case non-trivial", false, 2});
static Reg r8({"C35", "host-date", propHostDate, 2000, 20000, 20, "host name and date against the system; every case non-trivial"});
static Reg r9({"C35", "timer", propTimer, 600000, 3000000, 20, "1-4 timers with random start/end sequences, log records parsed; non-trivial: at least two records", false, 0, 100});

int main(int argc, char **argv) { return vp_main(argc, argv); }
