// C23: experiment records survive printing and parsing.   C24: measurements and counters.
#include "vp.hpp"
#include "utils/Timings.h"
#include <barrier>
#include <thread>

using namespace vp;

static const std::vector<std::string> IGN = {"git-rev", "start-time", "end-time", "run-number", "host"};

static bool ignored(const std::string &s) { return std::find(IGN.begin(), IGN.end(), s) != IGN.end(); }

typedef std::map<std::string, std::string> M;

static M relevant(const M &m) {
    M r;
    for (auto &t : m) if (!ignored(t.first)) r.insert(t);
    return r;
}

static M traitsOf(const ExperimentRun &r) {
    M m;
    for (const auto &t : r.traits()) m.emplace(t.first, t.second);
    return m;
}

// characters for names and values: none of them occurs in a separator
static std::string word(Src &s, size_t lo, size_t hi, const std::string &seps, bool inner) {
    static const std::string alpha = "abcXYZ019_-.+/()[]{}%$ ,;:=|#&\"'\\~*\n\t\x80\xff";
    size_t n = s.length(lo, hi);
    std::string w;
    for (size_t i = 0; i < n; ++i) {
        char c = s.chance(1, 4) ? alpha[s.below(alpha.size())] : alpha[s.below(9)];
        bool edge = i == 0 || i + 1 == n;
        bool sepc = seps.find(c) != std::string::npos;
        if (sepc && (edge || !inner)) c = 'q';
        // single separator characters may occur inside, never two in a row
        if (sepc && !edge && inner && !w.empty() && seps.find(w.back()) != std::string::npos) c = 'r';
        w += c;
    }
    return w;
}

struct Seps {
    std::string trait, inner;
};

static Seps genSeps(Src &s) {
    static const std::vector<std::string> T = {"   ", ";", "\t", " | ", "\n", "##", ", ", "&"};
    static const std::vector<std::string> I = {": ", "=", "->", ":", "::", " = "};
    Seps r;
    if (!s.chance(1, 2)) return {"   ", ": "};
    r.trait = s.pick(T);
    r.inner = s.pick(I);
    return r;
}

static void propRoundTrip(Src &s, Ctx &c) {
    Seps sp = genSeps(s);
    bool dflt = sp.trait == "   " && sp.inner == ": ";
    ExperimentRun run;
    M model = traitsOf(run);
    // separators of one character may not occur at all; longer ones may in part
    std::string all = sp.trait + sp.inner;
    bool inner = sp.trait.size() > 1 && sp.inner.size() > 1;
    size_t n = s.length(0, 9);
    unsigned empties = 0, runSpecific = 0;
    for (size_t i = 0; i < n; ++i) {
        std::string name, value;
        if (s.chance(1, 8)) name = s.pick(IGN);
        else name = word(s, 1, 10, all, inner);
        if (s.chance(1, 5)) {
            // typed value
            switch (s.below(4)) {
                case 0: {
                    long v = (long) s.draw(0);
                    run.addTrait(name, v);
                    value = std::to_string(v);
                    if (!model.count(name)) VP_EQ(run.getTrait<long>(name), v, "typed trait");
                    break;
                }
                case 1: {
                    unsigned v = (unsigned) s.draw(1u << 31);
                    run.addTrait(name, v);
                    value = std::to_string(v);
                    if (!model.count(name)) VP_EQ(run.getTrait<unsigned>(name), v, "typed trait");
                    break;
                }
                case 2: {
                    char v = "abz09"[s.below(5)];
                    run.addTrait(name, v);
                    value = std::string(1, v);
                    break;
                }
                default: {
                    int v = (int) s.range(-1000, 1000);
                    run.addTrait(name, v);
                    value = std::to_string(v);
                    if (!model.count(name)) VP_EQ(run.getTrait<int>(name), v, "typed trait");
                }
            }
        } else {
            value = s.chance(1, 6) ? "" : word(s, 0, 14, all, inner);
            run.addTrait(name, value);
        }
        if (!model.count(name)) {
            empties += value.empty();
            runSpecific += ignored(name);
        }
        model.emplace(name, value);
        VP_CHECK(run.hasTrait(name), "trait " << name << " missing after adding");
        VP_EQ(run.getTrait(name), model.at(name), "trait " + name);
    }
    VP_CHECK(traitsOf(run) == model, "traits differ from what was added");
    std::string text = run.str(sp.trait, sp.inner);
    c.describe([&](std::ostream &o) { o << "seps '" << sp.trait << "' '" << sp.inner << "' text \"" << text << "\""; });

    // printed form: every trait, in name order, joined by the separators
    std::string want, sep;
    for (auto &t : model) {
        want += sep + t.first + sp.inner + t.second;
        sep = sp.trait;
    }
    VP_EQ(text, want, "printed form");
    if (dflt) {
        std::ostringstream os;
        os << run;
        VP_EQ(os.str(), want, "streamed form");
        VP_EQ(run.str(), want, "default printed form");
    }

    ExperimentRun back = dflt ? ExperimentRun(text) : ExperimentRun(text, sp.trait, sp.inner);
    VP_CHECK(relevant(traitsOf(back)) == relevant(model), "parsed traits differ: \"" << back.str() << "\" from \"" << text << "\"");
    VP_CHECK(back == run, "parsed record differs from the original \"" << text << "\"");
    VP_CHECK(run == back, "original differs from the parsed record \"" << text << "\"");
    if (!runSpecific) VP_EQ(back.str(sp.trait, sp.inner), text, "second printing");
    c.nontrivial(n >= 2 && model.size() >= 4);
    c.label(dflt ? "default separators" : "other separators");
    if (empties) c.label("with empty values");
    if (runSpecific) c.label("with run-specific fields");
}

static void propEquality(Src &s, Ctx &c) {
    // small alphabets so that equal, nearly equal and subset records all occur
    static const std::vector<std::string> names = {"alg", "n", "threads", "basecase", "start-time", "end-time", "run-number", "host", "git-rev"};
    static const std::vector<std::string> vals = {"c", "1", "", "500"};
    ExperimentRun a, b;
    M ma = traitsOf(a), mb = traitsOf(b);
    size_t n = s.length(0, 8);
    for (size_t i = 0; i < n; ++i) {
        std::string k = s.pick(names), v = s.pick(vals);
        unsigned who = s.draw(4); // both, both, a, b
        bool upd = s.chance(1, 3);
        if (who != 3) {
            if (upd) a.updateTrait(k, v), ma[k] = v;
            else a.addTrait(k, v), ma.emplace(k, v);
        }
        if (who != 2) {
            if (upd) b.updateTrait(k, v), mb[k] = v;
            else b.addTrait(k, v), mb.emplace(k, v);
        }
    }
    VP_CHECK(traitsOf(a) == ma && traitsOf(b) == mb, "traits differ from the model");
    bool want = relevant(ma) == relevant(mb);
    c.describe([&](std::ostream &o) { o << "\"" << a.str() << "\" vs \"" << b.str() << "\" equal=" << want; });
    VP_EQ(a == b, want, "comparison of \"" + a.str() + "\" and \"" + b.str() + "\"");
    VP_EQ(b == a, want, "reverse comparison of \"" + a.str() + "\" and \"" + b.str() + "\"");
    VP_CHECK(a == a, "not equal to itself");
    c.nontrivial(n >= 2);
    c.label(want ? "equal" : "different");
    if (want && ma != mb) c.label("equal although run-specific fields differ");
}

// ---- C24

static void propMeasModel(Src &s, Ctx &c) {
    static const std::vector<std::string> names = {"time", "mem", "x", "nPoints", "a b"};
    ExperimentRun run, *cur = nullptr;
    std::map<std::string, std::vector<ulong>> meas;
    std::map<std::string, ulong> cnt;
    M traits = traitsOf(run);
    ExperimentRunAccessor &acc = ExperimentRunAccessor::getInstance();
    VP_CHECK(&acc == &PROFILER, "two accessor instances");
    acc.setRun(nullptr);
    size_t n = s.length(1, 60);
    for (size_t i = 0; i < n; ++i) {
        const std::string &k = s.pick(names);
        switch (s.below(8)) {
            case 0:
            case 1: {
                ulong v = s.chance(1, 5) ? s.draw(1ULL << 50) : s.draw(1000);
                if (s.chance(1, 2)) {
                    run.addMeasurement(k, v);
                    meas[k].push_back(v);
                } else {
                    if (s.chance(1, 2)) acc.addMeasurement(k, v);
                    else PROFILER_MEAS(k, v);
                    if (cur) meas[k].push_back(v);
                }
                break;
            }
            case 2:
            case 3: {
                ulong v = s.draw(1000);
                switch (s.below(5)) {
                    case 0: run.incCounter(k, v), cnt[k] += v; break;
                    case 1: run.incCounter(k), cnt[k] += 1; break;
                    case 2:
                        acc.incCounter(k, v);
                        if (cur) cnt[k] += v;
                        break;
                    case 3:
                        PROFILER_ADD(k, v);
                        if (cur) cnt[k] += v;
                        break;
                    default:
                        PROFILER_INC(k);
                        if (cur) cnt[k] += 1;
                }
                break;
            }
            case 4:
                cur = s.chance(2, 3) ? &run : nullptr;
                PROFILER.setRun(cur);
                break;
            case 5: {
                std::string v = std::to_string(s.draw(5));
                run.addTrait(k, v);
                traits.emplace(k, v);
                break;
            }
            case 6: {
                int v = (int) s.draw(5);
                run.updateTrait(k, v);
                traits[k] = std::to_string(v);
                break;
            }
            default:
                if (meas.count(k)) {
                    ulong sum = 0;
                    for (auto v : meas[k]) sum += v;
                    VP_EQ(run.avgMeasurement(k), sum / meas[k].size(), "average of " + k);
                }
        }
    }
    acc.setRun(nullptr);
    size_t found = 0;
    for (auto &m : meas) {
        const auto &got = run.measurements(m.first);
        VP_CHECK(std::vector<ulong>(got.begin(), got.end()) == m.second, "measurements of " << m.first << " differ: " << got.size() << " of " << m.second.size());
        ulong sum = 0;
        for (auto v : m.second) sum += v;
        VP_EQ(run.avgMeasurement(m.first), sum / m.second.size(), "average of " + m.first);
    }
    for (const auto &m : run.measurements()) {
        (void) m;
        ++found;
    }
    VP_EQ(found, meas.size(), "number of measured names");
    found = 0;
    for (const auto &m : run.counters()) {
        (void) m;
        ++found;
    }
    VP_EQ(found, cnt.size(), "number of counters");
    for (auto &m : cnt) VP_EQ((ulong) run.counter(m.first), m.second, "counter " + m.first);
    VP_CHECK(traitsOf(run) == traits, "traits differ from the model");
    // printed with measurements: the traits, then one average per measured name in any order
    std::string plain = run.str(), full = run.str("   ", ": ", true);
    VP_CHECK(full.compare(0, plain.size(), plain) == 0, "measurements do not follow the traits");
    std::multiset<std::string> want, got;
    for (auto &m : meas) {
        ulong sum = 0;
        for (auto v : m.second) sum += v;
        want.insert(m.first + ": " + std::to_string(sum / m.second.size()));
    }
    std::string rest = full.substr(plain.size());
    while (!rest.empty()) {
        VP_CHECK(rest.compare(0, 3, "   ") == 0, "separator missing in \"" << full << "\"");
        rest = rest.substr(3);
        size_t e = rest.find("   ");
        got.insert(rest.substr(0, e));
        rest = e == std::string::npos ? "" : rest.substr(e);
    }
    VP_CHECK(want == got, "printed measurements differ: \"" << full << "\"");
    c.describe([&](std::ostream &o) { o << n << " operations: " << full; });
    c.nontrivial(meas.size() + cnt.size() >= 2);
}

static void propConc(Src &s, Ctx &c) {
    static const std::vector<std::string> names = {"cnt", "b", "c", "d"};
    unsigned T = 2 + s.draw(7);
    unsigned K = 1 + s.draw(names.size());
    unsigned per = 200 + s.draw(3000);
    bool viaAcc = s.chance(1, 2);
    bool cold = s.chance(1, 2); // names do not exist yet when the threads start
    uint64_t salt = s.draw(0);
    ExperimentRun run;
    ExperimentRunAccessor::getInstance().setRun(&run);
    if (!cold)
        for (unsigned k = 0; k < K; ++k) run.incCounter(names[k], 0), run.addMeasurement("m" + names[k], 0);
    std::vector<std::thread> th;
    std::atomic<unsigned> ready(0);
    std::vector<std::map<std::string, ulong>> sum(T);
    std::vector<std::map<std::string, std::multiset<ulong>>> ms(T);
    for (unsigned t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            uint64_t r = mix(salt ^ t);
            ++ready;
            while (ready < T);
            for (unsigned i = 0; i < per; ++i) {
                r = mix(r);
                const std::string &k = names[r % K];
                ulong v = 1 + (r >> 20) % 5;
                if (viaAcc) ExperimentRunAccessor::getInstance().incCounter(k, v);
                else run.incCounter(k, v);
                sum[t][k] += v;
                if (i % 8 == 0) {
                    ulong m = t * 1000000UL + i;
                    if (viaAcc) ExperimentRunAccessor::getInstance().addMeasurement("m" + k, m);
                    else run.addMeasurement("m" + k, m);
                    ms[t]["m" + k].insert(m);
                }
            }
        });
    for (auto &t : th) t.join();
    ExperimentRunAccessor::getInstance().setRun(nullptr);
    std::map<std::string, ulong> want;
    std::map<std::string, std::multiset<ulong>> wm;
    if (!cold) for (unsigned k = 0; k < K; ++k) wm["m" + names[k]].insert(0);
    for (unsigned t = 0; t < T; ++t) {
        for (auto &x : sum[t]) want[x.first] += x.second;
        for (auto &x : ms[t]) wm[x.first].insert(x.second.begin(), x.second.end());
    }
    c.describe([&](std::ostream &o) { o << T << " threads x " << per << " increments on " << K << " counters" << (cold ? ", cold" : ""); });
    for (auto &w : want) VP_EQ((ulong) run.counter(w.first), w.second, "counter " + w.first + " after " + std::to_string(T) + " threads");
    for (auto &w : wm) {
        const auto &g = run.measurements(w.first);
        VP_CHECK(std::multiset<ulong>(g.begin(), g.end()) == w.second, "measurements " << w.first << ": got " << g.size() << ", expected " << w.second.size());
        ulong sm = 0;
        for (auto v : w.second) sm += v;
        VP_EQ(run.avgMeasurement(w.first), sm / w.second.size(), "average of " + w.first);
    }
    c.nontrivial();
}

static Reg r1({"C23", "roundtrip", propRoundTrip, 1000000, 10000000, 20,
               "random trait sets (0-9 traits, typed and text values, empty values, run-specific names) printed and parsed with default or random separators; non-trivial: at least two traits were added"});
static Reg r2({"C23", "equality", propEquality, 1500000, 10000000, 20,
               "two records built by interleaved adds/updates over a small alphabet, compared both ways with the model; non-trivial: at least two operations"});
static Reg r3({"C24", "model", propMeasModel, 1000000, 10000000, 20,
               "operation sequences over measurements, counters, traits and the installed record against a map model; non-trivial: at least two names recorded"});
static Reg r4({"C24", "concurrent", propConc, 5000, 40000, 60,
               "2-8 threads adding to shared counters and measurements, exact totals at the end; every case is non-trivial", true, 2});

int main(int argc, char **argv) { return vp_main(argc, argv); }
