// C26: logger.  C27: progress display.
#include "vp.hpp"
#include <thread>
#include "utils/Logger.h"
#include "utils/ProgressDisplay.h"

using namespace vp;
typedef Logger::Verbosity V;

static const std::vector<V> LEVELS = {V::NORMAL, V::VERBOSE, V::PROLIX, V::SILENT, V::LIVE, V::LIVEVERBOSE, V::LIVEPROLIX};

static int num(V v) { return (int) v; }

static std::string printed(V l) {
    std::ostringstream os;
    std::ostream &r = LOGGER.printLog(os, l);
    VP_CHECK(&r == &os, "printLog does not return its stream");
    return os.str();
}

struct Entry {
    int level;
    std::string text;
};

// what printing at a level must show
static std::string expected(const std::vector<Entry> &e, int level) {
    std::string r;
    if (level == 0) return r;
    for (auto &x : e)
        if (x.level <= level) r += x.text;
    return r;
}

struct CoutCapture {
    std::ostringstream os;
    std::streambuf *old;

    CoutCapture() : old(std::cout.rdbuf(os.rdbuf())) {}

    ~CoutCapture() { std::cout.rdbuf(old); }
};

struct Baseline {
    std::map<int, std::string> at;

    Baseline() { for (auto l : LEVELS) at[num(l)] = printed(l); }
};

static void checkAll(const Baseline &b, const std::vector<Entry> &e, const char *when) {
    for (auto l : LEVELS) {
        std::string got = printed(l), want = b.at.at(num(l)) + expected(e, num(l));
        VP_CHECK(got == want, when << ", level " << num(l) << ": log ends \"" << got.substr(std::min(got.size(), b.at.at(num(l)).size())) << "\", expected \"" << expected(e, num(l)) << "\"");
    }
}

static void propModel(Src &s, Ctx &c) {
    LOGGER.setLogLevel(V::NORMAL);
    LOGGER.setIndent(0);
    Baseline base;
    std::vector<Entry> ent;
    std::string live;
    CoutCapture cap;
    int cur = 1;
    unsigned ind = 0;
    size_t n = s.length(1, 40);
    std::ostringstream ops;
    auto tabs = [&] { return std::string(ind, '\t'); };
    auto entry = [&](int level, const std::string &t) {
        if (cur < 0) live += tabs() + t;
        else ent.push_back({level, tabs() + t});
    };
    unsigned macroHits = 0, levelChanges = 0;
    for (size_t i = 0; i < n; ++i) {
        std::string t = "e" + std::to_string(i) + "\n";
        int x = (int) s.range(-99, 99);
        std::string tx = "v" + std::to_string(x) + "\n";
        switch (s.below(12)) {
            case 0: {
                V l = s.pick(LEVELS);
                LOGGER.setLogLevel(l);
                cur = num(l);
                VP_EQ(num(LOGGER.getLogLevel()), cur, "log level after setting it");
                ++levelChanges;
                ops << "level " << cur << "; ";
                break;
            }
            case 1: {
                V l = s.pick({V::NORMAL, V::VERBOSE, V::PROLIX});
                LOGGER.addLogEntry(l) << t;
                entry(num(l), t);
                ops << "add " << num(l) << "; ";
                break;
            }
            case 2:
            case 3:
                LOG("v" << x << "\n");
                if (std::abs(cur) >= 1) entry(1, tx), ++macroHits;
                ops << "LOG; ";
                break;
            case 4:
            case 5:
                VLOG("v" << x << "\n");
                if (std::abs(cur) >= 2) entry(2, tx), ++macroHits;
                ops << "VLOG; ";
                break;
            case 6:
                PLOG("v" << x << "\n");
                if (std::abs(cur) >= 3) entry(3, tx), ++macroHits;
                ops << "PLOG; ";
                break;
            case 7:
                INDENT
                if (std::abs(cur) >= 1) ++ind;
                ops << "INDENT; ";
                break;
            case 8: {
                bool threw = false;
                try {
                    DEDENT
                } catch (const AssertionException &) {
                    threw = true;
                }
                bool active = std::abs(cur) >= 1;
                VP_EQ(threw, active && ind == 0, "dedenting at depth " + std::to_string(ind));
                if (active && ind) --ind;
                ops << "DEDENT; ";
                break;
            }
            case 9:
                ind = s.draw(6);
                LOGGER.setIndent(ind);
                ops << "setIndent " << ind << "; ";
                break;
            case 10: {
                std::vector<int> v;
                size_t m = s.below(5);
                for (size_t k = 0; k < m; ++k) v.push_back((int) s.draw(100));
                V l = s.pick({V::NORMAL, V::VERBOSE, V::PROLIX});
                std::string prefix = s.pick({"", "ids:"}), sep = s.pick({" ", ", ", "-"});
                if (sep == " " && s.chance(1, 2)) LOGGER.logContainer(v, l, prefix);
                else if (s.chance(1, 2)) LOGGER.logContainer(v.begin(), v.end(), l, prefix, sep);
                else LOGGER.logContainer(v, l, prefix, sep);
                std::string w;
                if (!prefix.empty()) w = prefix + sep;
                for (size_t k = 0; k < m; ++k) w += (k ? sep : std::string()) + std::to_string(v[k]);
                if (std::abs(cur) >= num(l)) entry(num(l), w + "\n");
                ops << "container " << num(l) << "; ";
                break;
            }
            default:
                if (s.chance(1, 4)) {
                    std::ostringstream os;
                    os << LOGGER;
                    VP_CHECK(os.str() == base.at.at(cur) + expected(ent, cur), "streaming the logger differs from printing at its level");
                    std::ostringstream o2;
                    LOGGER.printLog(o2);
                    VP_CHECK(o2.str() == os.str(), "printing at the current level differs");
                }
        }
        VP_EQ((unsigned) LOGGER.getIndent(), ind, "indentation");
        VP_EQ(LOGGER.indent(), tabs(), "indentation text");
        VP_EQ(cap.os.str(), live, "live output");
    }
    checkAll(base, ent, "after the sequence");
    c.describe([&](std::ostream &o) { o << ops.str(); });
    c.nontrivial(macroHits >= 2 && n >= 5);
    if (!live.empty()) c.label("with live output");
    if (levelChanges) c.label("with level changes");
}

static void propThreads(Src &s, Ctx &c) {
    V l = s.pick({V::PROLIX, V::VERBOSE, V::NORMAL});
    LOGGER.setLogLevel(l);
    LOGGER.setIndent(3);
    Baseline base;
    unsigned T = 2 + s.draw(7), per = 20 + s.draw(300);
    uint64_t salt = s.draw(0);
    std::vector<std::vector<Entry>> want(T);
    std::atomic<unsigned> ready(0), badIndent(0);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            uint64_t r = mix(salt + t);
            ++ready;
            while (ready < T);
            if (LOGGER.getIndent() != 0) ++badIndent; // new threads start without indentation
            unsigned ind = 0;
            for (unsigned i = 0; i < per; ++i) {
                r = mix(r);
                std::string tabs(ind, '\t');
                std::string key = "<" + std::to_string(t) + "." + std::to_string(i) + ">" + std::string(1 + r % 40, 'x') + "\n";
                switch ((r >> 32) % 6) {
                    case 0:
                        LOG("<" << t << "." << i << ">" << std::string(1 + r % 40, 'x') << std::endl);
                        want[t].push_back({1, tabs + key});
                        break;
                    case 1:
                        VLOG("<" << t << "." << i << ">" << std::string(1 + r % 40, 'x') << std::endl);
                        if (num(l) >= 2) want[t].push_back({2, tabs + key});
                        break;
                    case 2:
                        PLOG("<" << t << "." << i << ">" << std::string(1 + r % 40, 'x') << std::endl);
                        if (num(l) >= 3) want[t].push_back({3, tabs + key});
                        break;
                    case 3:
                        LOGGER.incIndent();
                        ++ind;
                        break;
                    case 4:
                        if (ind) LOGGER.decIndent(), --ind;
                        break;
                    default:
                        ind = r % 5;
                        LOGGER.setIndent(ind);
                }
                if (LOGGER.getIndent() != ind) ++badIndent;
            }
        });
    for (auto &t : th) t.join();
    VP_EQ(badIndent.load(), 0u, "indentation leaked between threads");
    VP_EQ((unsigned) LOGGER.getIndent(), 3u, "indentation of the main thread");
    size_t total = 0;
    for (int lv = 1; lv <= 3; ++lv) {
        std::string got = printed((V) lv);
        VP_CHECK(got.compare(0, base.at[lv].size(), base.at[lv]) == 0, "earlier entries changed");
        got = got.substr(base.at[lv].size());
        std::vector<std::vector<std::string>> seen(T);
        std::istringstream is(got);
        std::string line;
        while (std::getline(is, line)) {
            size_t a = line.find('<');
            unsigned t = 0;
            VP_CHECK(a != std::string::npos && sscanf(line.c_str() + a, "<%u.", &t) == 1 && t < T, "mangled log line \"" << line << "\"");
            seen[t].push_back(line + "\n");
        }
        for (unsigned t = 0; t < T; ++t) {
            std::vector<std::string> w;
            for (auto &e : want[t]) if (e.level <= lv) w.push_back(e.text);
            total += w.size();
            VP_CHECK(seen[t] == w, "thread " << t << " at level " << lv << ": " << seen[t].size() << " lines printed, " << w.size() << " expected, or out of order");
        }
    }
    c.describe([&](std::ostream &o) { o << T << " threads x " << per << " log operations at level " << num(l); });
    c.nontrivial(total > 10);
}

// ---- C27
static size_t stars(const std::string &t) { return std::count(t.begin(), t.end(), '*'); }

static const char *SCALE = "0%   10   20   30   40   50   60   70   80   90   100%\n";
static const char *BAR = "|----|----|----|----|----|----|----|----|----|----|";

static void propProgress(Src &s, Ctx &c) {
    std::ostringstream os;
    std::string s1 = s.pick({"\n", "", "> "}), s2 = s.pick({"", "# "}), s3 = s.pick({"", "= "});
    auto genE = [&] {
        switch (s.below(4)) {
            case 0: return (unsigned long) s.draw(12);
            case 1: return (unsigned long) s.draw(120);
            case 2: return (unsigned long) s.draw(5000);
            default: return (unsigned long) s.draw(1UL << 40);
        }
    };
    unsigned long E = genE();
    bool dflt = s1 == "\n" && s2.empty() && s3.empty() && s.chance(1, 2);
    std::unique_ptr<ProgressDisplay> pd(dflt ? new ProgressDisplay(E, os) : new ProgressDisplay(E, os, s1, s2, s3));
    unsigned rounds = 1 + s.draw(3);
    std::ostringstream ops;
    for (unsigned r = 0; r < rounds; ++r) {
        if (r) {
            E = genE();
            os.str("");
            pd->restart(E);
        }
        unsigned long X = E ? E : 1;
        std::string head = s1 + SCALE + s2 + BAR + "\n" + s3;
        VP_EQ(os.str(), head, "scale");
        VP_EQ(pd->count(), 0ul, "count after restart");
        VP_EQ(pd->expected_count(), X, "expected count");
        unsigned long cnt = 0;
        bool partial = s.chance(1, 4); // stop before the end
        unsigned steps = 0;
        unsigned long maxInc = s.chance(1, 3) ? X : std::max(1ul, X / (1 + s.draw(200)));
        ops << "[E=" << E << ": ";
        while (cnt < X && steps < 400) {
            unsigned long inc;
            if (s.chance(1, 3)) inc = 1;
            else inc = s.draw(maxInc) + (s.chance(1, 8) ? 0 : 1);
            inc = std::min(inc, X - cnt);
            if (steps == 399 && !partial) inc = X - cnt;
            if (partial && cnt + inc >= X) break;
            ++steps;
            cnt += inc;
            unsigned long ret = inc == 1 && s.chance(1, 2) ? ++*pd : *pd += inc;
            ops << "+" << inc << " ";
            VP_EQ(ret, cnt, "returned count");
            VP_EQ(pd->count(), cnt, "count");
            std::string body = os.str().substr(head.size());
            size_t st = stars(body);
            long double frac = 50.0L * cnt / X;
            VP_CHECK(st <= 51, st << " marks on a scale of 51");
            if (cnt < X) {
                VP_EQ(body, std::string(st, '*'), "bar before the end");
                VP_CHECK((long double) st >= std::floor(frac - 1e-6L), st << " marks at " << cnt << " of " << X << ": too few");
                VP_CHECK((long double) st <= 50.0L * (cnt + 1) / X + 1 + 1e-6L, st << " marks at " << cnt << " of " << X << ": too many");
            }
        }
        if (cnt == X) VP_EQ(os.str().substr(head.size()), std::string(51, '*') + "\n", "finished bar for " + std::to_string(X));
        ops << "] ";
        if (cnt == X) c.label("finished");
        else c.label("abandoned");
        c.nontrivial(steps >= 3);
    }
    c.describe([&](std::ostream &o) { o << ops.str().substr(0, 300); });
}

// deterministic sweep: all small expected counts, constant increments
static void propProgressSweep(Src &s, Ctx &c) {
    unsigned long E = 1 + s.draw(400), inc = 1 + s.draw(std::min(E, 60ul));
    std::ostringstream os;
    ProgressDisplay pd(E, os, "", "", "");
    size_t head = os.str().size();
    for (unsigned long k = 0; k < E;) {
        unsigned long i = std::min(inc, E - k);
        k += i;
        VP_EQ(pd += i, k, "count");
    }
    VP_EQ(os.str().substr(head), std::string(51, '*') + "\n", "finished bar for " + std::to_string(E) + " by " + std::to_string(inc));
    c.describe([&](std::ostream &o) { o << E << " in steps of " << inc; });
    c.nontrivial(E > 1);
}

static void propProgressThreads(Src &s, Ctx &c) {
    unsigned T = 2 + s.draw(7);
    unsigned long per = 100 + s.draw(3000);
    uint64_t salt = s.draw(0);
    std::vector<std::vector<unsigned long>> inc(T);
    unsigned long E = 0;
    for (unsigned t = 0; t < T; ++t) {
        uint64_t r = mix(salt ^ t);
        for (unsigned long i = 0; i < per; ++i) {
            r = mix(r);
            inc[t].push_back(1 + r % 3);
            E += inc[t].back();
        }
    }
    std::ostringstream os;
    ProgressDisplay pd(E, os, "", "", "");
    size_t head = os.str().size();
    std::vector<std::vector<unsigned long>> ret(T);
    for (auto &v : ret) v.reserve(per);
    std::atomic<unsigned> ready(0);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            ++ready;
            while (ready < T);
            for (auto i : inc[t]) {
                if (i == 1) ret[t].push_back(++pd);
                else ret[t].push_back(pd += i);
            }
        });
    for (auto &t : th) t.join();
    VP_EQ(pd.count(), E, "count after " + std::to_string(T) + " threads");
    // every increment returns the count it led to
    std::vector<std::pair<unsigned long, unsigned long>> steps;
    for (unsigned t = 0; t < T; ++t)
        for (size_t i = 0; i < inc[t].size(); ++i) steps.push_back({ret[t][i], inc[t][i]});
    std::sort(steps.begin(), steps.end());
    unsigned long at = 0;
    for (auto &st : steps) {
        VP_EQ(st.first - st.second, at, "count before the increment by " << st.second << " that returned " << st.first
                                         << " (the increments have to return the counts they led to)");
        at = st.first;
    }
    VP_EQ(os.str().substr(head), std::string(51, '*') + "\n", "finished bar after " + std::to_string(T) + " threads");
    c.describe([&](std::ostream &o) { o << T << " threads x " << per << " increments, total " << E; });
    c.nontrivial();
}

static Reg r1({"C26", "model", propModel, 400000, 4000000, 20,
               "sequences of 1-40 log calls (macros, entries, containers, level changes, indents) against a list model, every level printed at the end; non-trivial: at least 5 operations and 2 recorded macro entries", false, 0, 60});
static Reg r2({"C26", "threads", propThreads, 4000, 40000, 60,
               "2-8 threads logging and indenting at once; per-thread order, completeness and indentation; non-trivial: more than 10 lines printed", true, 2, 20});
static Reg r3({"C27", "sequential", propProgress, 600000, 6000000, 20,
               "expected counts 0..2^40, random increments incl. zero, restarts; marks checked after every increment; non-trivial: at least 3 increments"});
static Reg r4({"C27", "sweep", propProgressSweep, 400000, 2000000, 20, "expected counts 1-400 in constant steps, exact final bar; non-trivial: more than one unit"});
static Reg r5({"C27", "threads", propProgressThreads, 4000, 40000, 60, "2-8 threads incrementing to the expected count; every case non-trivial", true, 2});

int main(int argc, char **argv) { return vp_main(argc, argv); }
