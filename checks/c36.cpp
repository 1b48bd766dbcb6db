// C36: experiment records of the load-balanced triangulator; C37: components built from command line options
#include "lb.hpp"
#include <iomanip>
#include <tbb/global_control.h>
#include "LoadBalancedDCTriangulator.h"
#include "load_balancing/monitors/ComprehensiveMonitor.h"
#include "load_balancing/Experiment.h"

using namespace vp;
using namespace lbv;
using MonC = lb::ComprehensiveMonitor;
static PerCase pc([](uint64_t s) {
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    startGen.seed((unsigned) s);
    resetGlobals();
});

// ------------------------------------------------------------------------------------- a JSON reader
struct Json {
    enum Kind { Null, Bool, Num, Str, Arr, Obj } kind = Null;
    std::string text; // number or string
    bool b = false;
    std::vector<Json> arr;
    std::vector<std::pair<std::string, Json>> obj;

    const Json &operator[](const std::string &k) const {
        const Json *r = nullptr;
        VP_CHECK(kind == Obj, "no object where field " << k << " is looked for");
        for (auto &e : obj) if (e.first == k) { VP_CHECK(!r, "field " << k << " twice"); r = &e.second; }
        VP_CHECK(r, "the record lacks the field " << k);
        return *r;
    }
    bool has(const std::string &k) const {
        for (auto &e : obj) if (e.first == k) return true;
        return false;
    }
    uint64_t number() const {
        VP_CHECK(kind == Num && !text.empty() && text.find_first_not_of("0123456789") == std::string::npos, "no natural number: " << text);
        return std::stoull(text);
    }
    const std::string &string() const { VP_CHECK(kind == Str, "no string: " << text); return text; }
};

struct Reader {
    const std::string &s;
    size_t p = 0;
    void ws() { while (p < s.size() && strchr(" \t\r\n", s[p])) ++p; }
    [[noreturn]] void bad(const char *w) { std::ostringstream o; o << "the record is not well formed at offset " << p << " (" << w << "): " << s.substr(p > 60 ? p - 60 : 0, 120); VP_FAIL(o.str()); throw 0; }
    char peek() { ws(); if (p >= s.size()) bad("end"); return s[p]; }
    void eat(char c) { if (peek() != c) bad("unexpected character"); ++p; }
    std::string str() {
        eat('"');
        std::string r;
        while (p < s.size() && s[p] != '"') {
            if ((unsigned char) s[p] < 0x20) bad("control character in a string");
            if (s[p] == '\\') {
                if (++p >= s.size()) bad("escape");
                static const char e[] = "\"\\/bfnrt", v[] = "\"\\/\b\f\n\r\t";
                if (s[p] == 'u') {
                    std::string h = s.substr(p + 1, 4);
                    if (h.size() != 4 || h.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) bad("escape");
                    unsigned long u = std::stoul(h, nullptr, 16);
                    if (u > 0x7f) bad("escape beyond ASCII");
                    r += (char) u, p += 5;
                } else if (const char *q = strchr(e, s[p])) r += v[q - e], ++p;
                else bad("escape");
                continue;
            }
            r += s[p++];
        }
        if (p >= s.size()) bad("string");
        ++p;
        return r;
    }
    Json value() {
        Json j;
        char c = peek();
        if (c == '{') {
            j.kind = Json::Obj, ++p;
            if (peek() != '}') for (;;) {
                auto k = str();
                eat(':');
                j.obj.emplace_back(k, value());
                if (peek() == ',') { ++p; continue; }
                break;
            }
            eat('}');
        } else if (c == '[') {
            j.kind = Json::Arr, ++p;
            if (peek() != ']') for (;;) {
                j.arr.push_back(value());
                if (peek() == ',') { ++p; continue; }
                break;
            }
            eat(']');
        } else if (c == '"') j.kind = Json::Str, j.text = str();
        else if (!s.compare(p, 4, "true")) j.kind = Json::Bool, j.b = true, p += 4;
        else if (!s.compare(p, 5, "false")) j.kind = Json::Bool, p += 5;
        else {
            j.kind = Json::Num;
            while (p < s.size() && strchr("+-.0123456789eE", s[p])) j.text += s[p++];
            if (j.text.empty()) bad("value");
        }
        return j;
    }
    Json all() { auto j = value(); ws(); if (p != s.size()) bad("text after the record"); return j; }
};

// ------------------------------------------------------------------------------------- balancers that remember their trees
template<uint D, typename P>
struct Memory {
    std::vector<Tree<D, P>> trees;
    std::vector<std::multiset<size_t>> samples; // per tree, the sizes handed to the graph partitioner
    bool top = true;                            // of the balancer the triangulator has
    std::shared_ptr<Memory> below;              // of the balancer that is flattened
};

// the least times that a run can have taken, of which a record must not fall short
struct Least {
    std::atomic<bool> slow{false};  // make the next run last
    std::atomic<int64_t> partition{0}, first{0}, last{0};
    static int64_t now() { return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
    void reset() { slow = false, partition = first = last = 0; }
    int64_t triangulation() const { return last - first; }
};
static Least least;

template<uint D, typename P>
struct Slow : lb::IntersectionChecker<D, P> {
    std::unique_ptr<lb::IntersectionChecker<D, P>> inner;
    Slow(std::unique_ptr<lb::IntersectionChecker<D, P>> i) : lb::IntersectionChecker<D, P>(i->bounds()), inner(std::move(i)) {}
    bool intersects(const dSphere<D, P> &s, const dSimplex<D, P> &x) const override {
        int64_t zero = 0, n = Least::now();
        if (least.first.compare_exchange_strong(zero, n)) std::this_thread::sleep_for(std::chrono::milliseconds(5));
        bool r = inner->intersects(s, x);
        for (n = Least::now(), zero = least.last; zero < n && !least.last.compare_exchange_weak(zero, n);) {}
        return r;
    }
    std::unique_ptr<lb::IntersectionChecker<D, P>> copy() const override { return std::make_unique<Slow>(inner->copy()); }
};
template<uint D, typename P>
static void slowDown(Tree<D, P> &t) {
    if (t.intersectionChecker) t.intersectionChecker = std::make_unique<Slow<D, P>>(std::move(t.intersectionChecker));
    if (auto k = std::get_if<Kids<D, P>>(&t.attachment)) for (auto &c : *k) slowDown<D, P>(c);
}

template<class B, uint D, typename P>
struct Seen : B {
    Memory<D, P> &mem;
    template<class... A>
    Seen(Memory<D, P> &m, A &&...a) : B(std::forward<A>(a)...), mem(m) {}
    Tree<D, P> partition(const dBox<D, P> &b, dPoints<D, P> &p, const Point_Ids &ids, MonC &m) override {
        lbv::calls.clear();
        auto t0 = Least::now();
        if (least.slow) std::this_thread::sleep_for(std::chrono::milliseconds(3));
        auto t = B::partition(b, p, ids, m);
        mem.trees.push_back(t);
        if (least.slow && mem.top) {
            slowDown<D, P>(t);
            least.first = least.last = 0;
            least.partition = Least::now() - t0;
        }
        std::multiset<size_t> n;
        for (auto &c : lbv::calls) n.insert((size_t) c.n);
        mem.samples.push_back(n);
        return t;
    }
};

template<uint D, typename P>
static std::unique_ptr<lb::Partitioner<D, P, MonC>> genSeen(Src &s, Ctx &c, size_t n, const dBox<D, P> &b, Memory<D, P> &top, std::string &name, bool &sampling) {
    bool flatten = s.chance(1, 4);
    top.below = std::make_shared<Memory<D, P>>();
    top.below->top = false;
    auto &mem = flatten ? *top.below : top;
    std::unique_ptr<lb::Partitioner<D, P, MonC>> r;
    unsigned kind = (unsigned) s.draw(11);
    size_t cutoff = (1u << D) + 2 + s.draw(20), parts = 1 + s.draw(8), two = size_t(1) << s.draw(4);
    sampling = kind < 6;
    if (kind < 6) {
        auto sm = genSampler<D, P>(s, n, (unsigned) s.draw(5));
        lb::IntersectionPartitionMakerFunction<D, P> mk;
        if (kind > 0 && kind < 5) mk = genMaker<D, P>(s, b, name);
        using namespace lb;
        switch (kind) {
            case 0: r = std::make_unique<Seen<BinaryBoxEstimatingSamplePartitioner<D, P, MonC>, D, P>>(mem, cutoff, sm); break;
            case 1: r = std::make_unique<Seen<NearestSamplePointAssigningSamplePartitioner<D, P, MonC>, D, P>>(mem, parts, sm, mk); break;
            case 2: r = std::make_unique<Seen<CenterDistancePointAssigningSamplePartitioner<D, P, MonC>, D, P>>(mem, parts, sm, mk); break;
            case 3: r = std::make_unique<Seen<BoundsDistancePointAssigningSamplePartitioner<D, P, MonC>, D, P>>(mem, parts, sm, mk); break;
            case 4: r = std::make_unique<Seen<NearestSamplePointAssigningSampleBipartitioner<D, P, MonC>, D, P>>(mem, two, sm, cutoff, mk); break;
            default: r = std::make_unique<Seen<HyperplaneSamplingBipartitioner<D, P, MonC>, D, P>>(mem, two, sm); break;
        }
    } else if (kind == 6) r = std::make_unique<Seen<lb::KWaySplitter<D, P, MonC>, D, P>>(mem, two);
    else {
        std::unique_ptr<::Partitioner<D, P>> o;
        if (kind == 7) o = std::make_unique<dWayPartitioner<D, P>>();
        else if (kind == 8) o = std::make_unique<CyclePartitioner<D, P>>();
        else if (kind == 9) o = std::make_unique<ExtendPartitioner<D, P>>();
        else o = std::make_unique<OneDimPartitioner<D, P>>((uint) s.draw(D));
        uint depth = o->getRecursionDepth(kind == 7 ? (1u << (D * s.draw(3))) : (uint) two);
        r = std::make_unique<Seen<lb::OldPartitionerPartitioner<D, P, MonC>, D, P>>(mem, std::move(o), depth, cutoff);
    }
    name = r->info() + name;
    c.label(r->info());
    if (flatten) {
        // the flattened tree is the one to remember
        r = std::make_unique<Seen<lb::FlatPartitioner<D, P, MonC>, D, P>>(top, std::move(r));
        name += ", flattened";
        sampling = false; // the record cannot see the sample behind it
    }
    return r;
}

// what one run recorded, against the tree it used
template<uint D, typename P>
static void judge(Ctx &c, const Memory<D, P> &mem, size_t run, const std::multiset<size_t> &parts, const std::vector<std::pair<size_t, std::string>> &base,
                  size_t total, size_t sampleSize, bool sampling) {
    VP_EQ(mem.trees.size(), run + 1, "number of partition trees made for " << run + 1 << " runs");
    auto &t = mem.trees[run];
    auto want = leafSizes<D, P>(t);
    VP_CHECK(parts == want, "recorded partition sizes" << str(parts) << ", the tree's leaves hold" << str(want));
    std::multiset<size_t> wantBase, gotBase, samples;
    std::multiset<size_t> border;
    size_t gotBorder = 0, sum = 0;
    expected<D, P>(t, wantBase, border);
    std::set<std::string> prov;
    for (auto &[n, p] : base) {
        VP_CHECK(!p.empty(), "a base triangulation without provenance");
        sum += n;
        if (p[0] == 's') samples.insert(n);
        else {
            if (p.back() == 'e') ++gotBorder;
            else gotBase.insert(n);
            if (want.size() < 10) VP_CHECK(prov.insert(p).second, "two base triangulations of provenance " << p);
        }
    }
    VP_CHECK(gotBase == wantBase, "recorded base triangulations of" << str(gotBase) << " points, the leaves with points hold" << str(wantBase));
    VP_EQ(gotBorder, border.size(), "recorded border triangulations");
    VP_EQ(total, sum, "recorded number of triangulated points and the sum over the recorded triangulations");
    if (!mem.samples[run].empty())
        VP_CHECK(samples == mem.samples[run], "recorded samples of" << str(samples) << " points, drawn were" << str(mem.samples[run]));
    if (sampling && !samples.empty())
        VP_CHECK(samples.count(sampleSize), "recorded sample size " << sampleSize << ", the samples have" << str(samples));
    c.nontrivial(wantBase.size() > 1);
    if (border.size() > 1) c.label("several levels");
    if (!samples.empty()) c.label("sampled");
}

template<uint D, typename P>
static void experiment(Src &s, Ctx &c) {
    auto C = genCloud<D, P>(s, c, s.length(6, 120));
    bool flat = C.n <= D + 1;
    for (uint d = 0; d < D; ++d) flat = flat || C.bounds.low[d] == C.bounds.high[d];
    if (flat) throw Discard();
    lbv::reset(s.chance(1, 2) ? 0 : (unsigned) s.draw(5));
    Memory<D, P> mem;
    std::string name;
    bool sampling = false;
    auto part = genSeen<D, P>(s, c, C.n, C.bounds, mem, name, sampling);
    size_t threads = s.pick({1u, 2u, 4u, 8u}), runs = s.pick({1, 1, 2, 3});
    bool verify = s.chance(1, 2);
    uint seed = (uint) s.draw(1000);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, s.pick({1u, 2u, 4u}));
    std::string args;
    for (size_t i = s.draw(6); i--;) args += s.pick({"--n", " 10", " --partitioner", " dWay", " ", "=x", "\"a b\"", "\\", "'", "\t", "\n", "\x01", "\xc3\xa4"});
    const std::string dist = s.pick({"uniform", "bubble", "points.dat", "", "my \"points\".dat", "C:\\points"}), info = part->info();
    c.describe([&](std::ostringstream &o) { o << C.n << " points, " << name << ", " << threads << " threads, " << runs << " runs" << (verify ? ", verified" : ""); });
    // the number of simplices of triangulating the points at once
    auto ref = C.copy();
    C.corners();
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ref[k] = C.pts[k];
    std::set<tIdType> ids;
    for (tIdType i = 1; i <= C.n; ++i) ids.insert(i);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
    CGALTriangulator<D, P, false> once(C.bounds, ref, 1);
    auto want = static_cast<Triangulator<D, P> &>(once).triangulate();
    auto rep = tri::delaunay<D, P>(want, ref, ids);
    if (!rep.err.empty() || rep.finiteTies) throw Discard();
    std::ostringstream out;
    bool slow = s.chance(1, 6);
    if (slow) c.label("timed");
    std::vector<std::pair<int64_t, int64_t>> took; // at least, in ms
    auto t0 = std::chrono::steady_clock::now();
    {
        typename lb::Experiment<D, P>::Setup setup{args, C.bounds, C.copy(), verify, dist, threads, seed};
        lb::Experiment<D, P> e(std::move(part), std::move(setup), out);
        for (size_t r = 0; r < runs; ++r) {
            least.reset();
            least.slow = slow;
            VP_CHECK(e.runOnce(), "a run reports an invalid triangulation");
            least.slow = false;
            took.emplace_back(least.partition / 1000 - 2, least.triangulation() / 1000 - 2);
        }
    }
    auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
    VP_CHECK(lbv::callError.empty(), lbv::callError);
    std::string text = out.str();
    auto j = Reader{text}.all();
    VP_EQ(j["commit"].string(), std::string(GIT_COMMIT), "recorded revision");
    VP_EQ(j["args"].string(), args, "recorded arguments");
    VP_EQ(j["partitioner"].string(), info, "recorded partitioner");
    VP_EQ(j["distribution"].string(), dist, "recorded distribution");
    VP_EQ(j["numpoints"].number(), (uint64_t) C.n, "recorded number of points");
    VP_EQ(j["threads"].number(), (uint64_t) threads, "recorded number of threads");
    VP_EQ(j["seed"].number(), (uint64_t) seed, "recorded seed");
    VP_CHECK(!j["triangulator"].string().empty(), "no triangulator recorded");
    {
        std::tm tm{};
        std::istringstream is(j["date"].string());
        is >> std::get_time(&tm, "%Y-%m-%dT%H:%M:%S");
        VP_CHECK(!is.fail(), "recorded date " << j["date"].string());
        std::time_t now = std::time(nullptr);
        tm.tm_isdst = -1;
        std::time_t then = std::mktime(&tm);
        VP_CHECK(std::abs(std::difftime(now, then)) < 300, "recorded date " << j["date"].string() << " is not now");
    }
    auto &res = j["results"];
    VP_CHECK(res.kind == Json::Arr, "results are no list");
    VP_EQ(res.arr.size(), runs, "recorded runs");
    uint64_t spent = 0;
    for (size_t r = 0; r < runs; ++r) {
        auto &x = res.arr[r];
        spent += x["partitiontime"].number() + x["triangulationtime"].number();
        if (slow) {
            VP_CHECK((int64_t) x["partitiontime"].number() >= took[r].first, "recorded " << x["partitiontime"].number() << " ms of partitioning, it took at least " << took[r].first << " ms");
            VP_CHECK((int64_t) x["triangulationtime"].number() >= took[r].second, "recorded " << x["triangulationtime"].number() << " ms of triangulation, it took at least " << took[r].second << " ms");
        }
        // the slots used, those of simplices deleted in merges included
        VP_CHECK(x["simplices"].number() >= (uint64_t) rep.simplices, "recorded " << x["simplices"].number() << " simplices, the triangulation has " << rep.simplices);
        VP_EQ(x.has("valid"), verify, "whether validity is recorded");
        if (verify) VP_CHECK(x["valid"].kind == Json::Bool && x["valid"].b, "a valid triangulation recorded as invalid");
        std::multiset<size_t> parts;
        for (auto &p : x["partitions"].arr) parts.insert(p["size"].number());
        std::vector<std::pair<size_t, std::string>> base;
        for (auto &b : x["basetriangulations"].arr) base.emplace_back(b["points"].number(), b["provenance"].string());
        if (r + 1 == runs || mem.trees.size() == runs) {
            Memory<D, P> upto;
            upto.trees.assign(mem.trees.begin(), mem.trees.begin() + std::min(mem.trees.size(), r + 1));
            upto.samples.assign(mem.samples.begin(), mem.samples.begin() + std::min(mem.samples.size(), r + 1));
            judge<D, P>(c, upto, r, parts, base, x["triangulatedPoints"].number(), x["sampleSize"].number(), sampling);
        }
    }
    VP_CHECK(spent <= (uint64_t) ms + 2 * runs + 2, "recorded times sum to " << spent << " ms, the experiment took " << ms << " ms");
    if (runs > 1) c.label("several runs");
}

// the monitor alone: the result is the one without it
template<uint D, typename P>
static void monitored(Src &s, Ctx &c) {
    auto C = genCloud<D, P>(s, c, s.length(6, 150));
    bool flat = C.n <= D + 1;
    for (uint d = 0; d < D; ++d) flat = flat || C.bounds.low[d] == C.bounds.high[d];
    if (flat) throw Discard();
    lbv::reset(s.chance(1, 2) ? 0 : (unsigned) s.draw(5));
    Memory<D, P> mem;
    std::string name;
    bool sampling = false;
    auto part = genSeen<D, P>(s, c, C.n, C.bounds, mem, name, sampling);
    bool parBase = s.chance(1, 4), parEdge = s.chance(1, 2);
    uint threads = s.pick({1u, 2u, 4u, 8u});
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, s.pick({1u, 2u, 4u, 8u}));
    c.describe([&](std::ostringstream &o) { o << C.n << " points, " << name << ", " << threads << " threads, parallel base " << parBase << " edge " << parEdge; });
    auto mine = C.copy();
    lb::ComprehensiveAccumulator acc;
    bool slow = s.chance(1, 6);
    if (slow) c.label("timed");
    least.reset();
    std::unique_ptr<Triangulator<D, P>> T(new lb::DCTriangulator<D, P, MonC>(C.bounds, mine, threads, std::move(part), 1, parBase, parEdge, true, MonC(acc)));
    auto ref = C.copy();
    std::set<tIdType> ids;
    for (tIdType i = 1; i <= C.n; ++i) ids.insert(i);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ref[k] = mine[k], ids.insert(k);
    CGALTriangulator<D, P, false> once(C.bounds, ref, 1);
    auto want = static_cast<Triangulator<D, P> &>(once).triangulate();
    auto rep = tri::delaunay<D, P>(want, ref, ids);
    if (!rep.err.empty() || rep.finiteTies) throw Discard();
    least.slow = slow;
    auto got = T->triangulate();
    least.slow = false;
    VP_CHECK(lbv::callError.empty(), lbv::callError);
    auto e = tri::same<D, P>(got, want);
    VP_CHECK(e.empty(), e + " (first: monitored, second: at once)");
    std::multiset<size_t> parts(acc.partitionSizes.begin(), acc.partitionSizes.end());
    judge<D, P>(c, mem, 0, parts, acc.baseTriangulations, acc.numTriangulatedPoints, acc.sampleSize, sampling);
    VP_CHECK(acc.partitionTime.count() >= 0 && acc.triangulationTime.count() >= 0, "negative times");
    if (slow) {
        VP_CHECK(acc.partitionTime.count() >= least.partition / 1000 - 2, "recorded " << acc.partitionTime.count() << " ms of partitioning, it took at least " << least.partition << " us");
        VP_CHECK(acc.triangulationTime.count() >= least.triangulation() / 1000 - 2, "recorded " << acc.triangulationTime.count() << " ms of triangulation, it took at least " << least.triangulation() << " us");
    }
}

// ------------------------------------------------------------------------------------- C37
struct Args {
    std::vector<std::string> a;
    void add(const std::string &k, const std::string &v) { a.push_back("--" + k), a.push_back(v); }
    template<typename P>
    po::variables_map parse() const {
        po::variables_map vm;
        po::store(po::command_line_parser(a).options(defaultOptions<P>()).run(), vm);
        po::notify(vm);
        return vm;
    }
    std::string str() const {
        std::string r;
        for (auto &x : a) r += " " + x;
        return r;
    }
};

template<uint D, typename P>
static void generators(Src &s, Ctx &c) {
    Args A;
    static const char *names[] = {"ellipsoid", "skew-line", "normal", "uniform", "bubble", "unbound-bubble", "patch-bubble", "malicious-bubble", "none-such", "Uniform", "uniform "};
    unsigned k = (unsigned) s.draw(11);
    uint bubbles = (uint) std::pow(4, D);
    P radius = 10;
    bool b = s.chance(1, 2), r = s.chance(1, 2);
    if (b) bubbles = 2 + (uint) s.draw(39), A.add("num-bubbles", std::to_string(bubbles));
    if (r) {
        unsigned q = 1 + (unsigned) s.draw(200);
        radius = (P) q / 8;
        std::ostringstream o;
        o << (double) radius;
        A.add("bubble-radius", o.str());
    }
    A.a.insert(A.a.begin() + (long) (s.draw(2) ? A.a.size() : 0), std::initializer_list<std::string>{"--distribution", names[k]});
    uint n = 1 + (uint) s.draw(120), seed = (uint) s.draw(1000);
    c.describe([&](std::ostringstream &o) { o << A.str() << ", " << n << " points of seed " << seed; });
    c.label(names[k]);
    auto g = createGenerator<D, P>(A.parse<P>());
    if (k >= 8) {
        VP_CHECK(!g, "a point generator for the unknown distribution " << names[k]);
        return;
    }
    VP_CHECK(g, "no point generator for the distribution " << names[k]);
    std::unique_ptr<PointGenerator<D, P>> w;
    switch (k) {
        case 0: w = std::make_unique<EllipsoidPointGenerator<D, P>>(); break;
        case 1: w = std::make_unique<SkewLinePointGenerator<D, P>>(); break;
        case 2: w = std::make_unique<NormalPointGenerator<D, P>>(); break;
        case 3: w = std::make_unique<UniformPointGenerator<D, P>>(); break;
        case 4: w = std::make_unique<BubblePointGenerator<D, P>>(); break;
        case 5: w = std::make_unique<lb::UnboundBubbleGenerator<D, P>>(bubbles, radius); break;
        case 6: w = std::make_unique<lb::PatchBubbleGenerator<D, P>>(bubbles); break;
        default: w = std::make_unique<lb::MaliciousBubbleGenerator<D, P>>(bubbles); break;
    }
    dBox<D, P> box;
    for (uint d = 0; d < D; ++d) box.low[d] = 0, box.high[d] = 100;
    tGenerator x(seed), y(seed);
    auto p = g->generate(n, box, x), q = w->generate(n, box, y);
    VP_EQ(p.finite_size(), q.finite_size(), "points generated");
    for (tIdType i = 1; i <= n; ++i) VP_CHECK(p[i].coords == q[i].coords, "point " << i << " of the generator built from the options differs from that of the one named");
    c.nontrivial(k >= 4 && n > 1);
}

template<uint D, typename P>
static void partitioners(Src &s, Ctx &c) {
    bool big = s.chance(1, 3); // more points than the cutoff
    size_t n = big ? 5200 + s.draw(8000) : s.length(2, 100);
    auto C = genCloud<D, P>(s, c, n);
    bool flat = C.n <= D + 1;
    for (uint d = 0; d < D; ++d) flat = flat || C.bounds.low[d] == C.bounds.high[d];
    if (flat) throw Discard();
    C.corners();
    Point_Ids ids(C.n + 8);
    for (tIdType i = 1; i <= C.n; ++i) ids.insert(i);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
    Args A;
    static const char *names[] = {"binary-besp", "center-distance-pasp", "bounds-distance-pasp", "nearest-sample-pasp", "nearest-sample-pasb", "hyperplane-sample-pasb", "kway-cycle",
                                  "dWay", "cycle", "extend", "one-dim", "none-such", "dway"};
    unsigned kind = (unsigned) s.draw(s.chance(1, 8) ? 13 : 11);
    const std::string name = names[kind];
    c.label(name);
    // sample size
    std::function<size_t(size_t)> f = [](size_t n) -> size_t { return (size_t) std::sqrt(n); };
    bool refuse = kind >= 11;
    unsigned sz = (unsigned) s.draw(s.chance(1, 8) ? 6 : 4);
    auto opt = [&](const std::string &k, const std::string &v) { // in any order
        size_t at = s.draw(A.a.size() / 2 + 1) * 2;
        A.a.insert(A.a.begin() + (long) at, {"--" + k, v});
    };
    opt("partitioner", name);
    size_t fixed = 1 + s.draw(150);
    if (sz == 1) opt("sampling", "sqrt");
    if (sz == 2) opt("sampling", "log"), f = [](size_t n) -> size_t { return (size_t) std::log2(n); };
    if (sz == 3) opt("sample-size", std::to_string(fixed)), f = [fixed](size_t) { return fixed; };
    if (sz == 4) opt("sampling", s.pick({"cube", "Sqrt", ""})), refuse = true;
    if (sz == 5) opt("sampling", "sqrt"), opt("sample-size", std::to_string(fixed)), refuse = true;
    // weights
    unsigned w = (unsigned) s.draw(s.chance(1, 8) ? 7 : 6);
    static const char *weights[] = {"", "squared-inverted", "inverted", "linear", "log", "uniform", "cubic"};
    if (w) opt("edge-weights", weights[w]);
    if (w == 6) refuse = true;
    unsigned wf = w > 4 ? 0 : w;
    int mode = FAST;
    if (s.chance(1, 2)) {
        unsigned m = (unsigned) s.draw(4);
        opt("kaffpa-mode", std::vector<const char *>{"FAST", "ECO", "STRONG", "PAR"}[m]);
        mode = std::vector<int>{FAST, ECO, STRONG, FASTSOCIALMULTITRY_PARALLEL}[m];
    }
    double imbalance = 0.05;
    if (s.chance(1, 2)) imbalance = (double) (1 + s.draw(64)) / 64, opt("imbalance", std::to_string(imbalance));
    // intersection tests
    P ext = 0;
    for (uint d = 0; d < D; ++d) ext = std::max(ext, C.bounds.high[d] - C.bounds.low[d]);
    double e = std::ldexp(1.0, std::ilogb(ext) - (int) s.draw(4));
    P cell = (P) e;
    {
        std::ostringstream o;
        o.precision(17);
        o << e;
        opt("cell-width", o.str());
    }
    unsigned bt = (unsigned) s.draw(s.chance(1, 8) ? 6 : 5);
    static const char *tests[] = {"", "grid", "accurate-grid", "box", "boxes", "sphere"};
    if (bt) opt("bounds", tests[bt]);
    bool uses = kind >= 1 && kind <= 4;
    if (bt == 5 && uses) refuse = true;
    uint dim = (uint) s.draw(D);
    if (kind == 10 || s.chance(1, 6)) opt("split-dimension", std::to_string(dim));
    bool flatten = s.chance(1, 4);
    if (flatten) A.a.push_back("--flatten");
    bool two = kind == 4 || kind == 5;
    uint threads = kind == 7 ? (1u << (D * s.draw(3))) : two || kind >= 7 ? 1u << s.draw(4) : 1 + (uint) s.draw(9);
    if (kind == 6) threads = 1u << s.draw(4);
    uint seed = (uint) s.draw(1000);
    c.describe([&](std::ostringstream &o) { o << C.n << " points," << A.str() << ", " << threads << " threads"; });
    unsigned pm = (unsigned) s.draw(5);
    auto vm = A.parse<P>();
    std::unique_ptr<lb::Partitioner<D, P, Mon>> got;
    bool refused = false;
    std::mt19937 rnd(seed), rnd2(seed);
    try {
        got = createPartitioner<D, P, Mon>(vm, threads, rnd);
    } catch (const std::runtime_error &) {
        refused = true;
    }
    if (refuse) {
        c.label("to be refused");
        VP_CHECK(refused, "options that name no component are not refused");
        return;
    }
    VP_CHECK(!refused, "valid options are refused");
    VP_CHECK(got, "no balancer for valid options");
    // the same, by hand
    auto sseed = rnd2();
    lb::Sampler<D, P> sm = wf == 0 ? lb::Sampler<D, P>(sseed, f, mode, imbalance) : lb::Sampler<D, P>(sseed, f, mode, imbalance, weightFunction<D, P>(wf));
    lb::IntersectionPartitionMakerFunction<D, P> mk;
    if (bt <= 1) mk = lb::GridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>{cell});
    else if (bt == 2) mk = lb::AccurateGridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>{cell});
    else mk = lb::BoundsIntersectionPartitionMaker<D, P>();
    constexpr size_t cutoff = 5000;
    std::unique_ptr<lb::Partitioner<D, P, Mon>> want;
    switch (kind) {
        case 0: want = std::make_unique<lb::BinaryBoxEstimatingSamplePartitioner<D, P, Mon>>(cutoff, sm); break;
        case 1: want = std::make_unique<lb::CenterDistancePointAssigningSamplePartitioner<D, P, Mon>>(threads, sm, mk); break;
        case 2: want = std::make_unique<lb::BoundsDistancePointAssigningSamplePartitioner<D, P, Mon>>(threads, sm, mk); break;
        case 3: want = std::make_unique<lb::NearestSamplePointAssigningSamplePartitioner<D, P, Mon>>(threads, sm, mk); break;
        case 4: want = std::make_unique<lb::NearestSamplePointAssigningSampleBipartitioner<D, P, Mon>>(threads, sm, cutoff, mk); break;
        case 5: want = std::make_unique<lb::HyperplaneSamplingBipartitioner<D, P, Mon>>(threads, sm); break;
        case 6: want = std::make_unique<lb::KWaySplitter<D, P, Mon>>(threads); break;
        default: {
            std::unique_ptr<::Partitioner<D, P>> o;
            if (kind == 7) o = std::make_unique<dWayPartitioner<D, P>>();
            else if (kind == 8) o = std::make_unique<CyclePartitioner<D, P>>();
            else if (kind == 9) o = std::make_unique<ExtendPartitioner<D, P>>();
            else o = std::make_unique<OneDimPartitioner<D, P>>(dim);
            uint depth = o->getRecursionDepth(threads);
            want = std::make_unique<lb::OldPartitionerPartitioner<D, P, Mon>>(std::move(o), depth, cutoff);
        }
    }
    if (flatten) want = std::make_unique<lb::FlatPartitioner<D, P, Mon>>(std::move(want));
    VP_EQ(got->info(), want->info(), "name of the balancer built from the options");
    Mon m;
    auto run = [&](lb::Partitioner<D, P, Mon> &p, std::vector<Call> &calls) {
        lbv::reset(pm);
        startGen.seed(11); // hash functions
        resetGlobals();
        auto t = p.partition(C.bounds, C.pts, ids, m);
        VP_CHECK(lbv::callError.empty(), lbv::callError);
        calls = lbv::calls;
        return t;
    };
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
    std::vector<Call> ca, cb;
    auto a = run(*got, ca), b = run(*want, cb);
    VP_EQ(ca.size(), cb.size(), "calls of the graph partitioner");
    for (size_t i = 0; i < ca.size(); ++i) {
        VP_EQ(ca[i].n, cb[i].n, "size of the sample");
        VP_EQ(ca[i].nparts, cb[i].nparts, "parts asked for");
        VP_EQ(ca[i].mode, mode, "mode of the graph partitioner");
        VP_EQ(ca[i].imbalance, imbalance, "imbalance allowed");
        VP_EQ(ca[i].weighted, wf != 0, "whether edges are weighted");
        auto x = ca[i].weights, y = cb[i].weights;
        std::sort(x.begin(), x.end()), std::sort(y.begin(), y.end());
        VP_CHECK(x == y, "edge weights differ from those of the function named");
    }
    std::vector<const Tree<D, P> *> va, vb;
    nodes<D, P>(a, va), nodes<D, P>(b, vb);
    VP_EQ(va.size(), vb.size(), "nodes of the tree");
    for (size_t i = 0; i < va.size(); ++i) {
        VP_CHECK(va[i]->intersectionChecker && vb[i]->intersectionChecker, "a node without intersection test");
        auto &x = *va[i]->intersectionChecker, &y = *vb[i]->intersectionChecker;
        VP_CHECK(typeid(x) == typeid(y), "the intersection test is of another kind than the one named");
    }
    VP_EQ((text<D, P>(a)), (text<D, P>(b)), "the tree made by the balancer built from the options, and by the one named");
    c.nontrivial(va.size() > 1);
    if (big) c.label("more points than the cutoff");
}

#define RULE36 "more than one leaf with points"
static Reg r1({"C36", "experiments 2D double", experiment<2, double>, 20000, 400000, 20, RULE36, true});
static Reg r2({"C36", "experiments 3D double", experiment<3, double>, 8000, 150000, 20, RULE36, true});
static Reg r3({"C36", "monitored 2D double", monitored<2, double>, 20000, 400000, 20, RULE36, true});
static Reg r4({"C36", "monitored 3D double", monitored<3, double>, 8000, 150000, 20, RULE36, true});
static Reg g1({"C37", "generators 2D double", generators<2, double>, 40000, 1000000, 20, "one of the bubble generators and several points"});
static Reg g2({"C37", "generators 3D double", generators<3, double>, 40000, 1000000, 20, "one of the bubble generators and several points"});
static Reg g3({"C37", "generators 2D float", generators<2, float>, 40000, 1000000, 20, "one of the bubble generators and several points"});
static Reg p1({"C37", "partitioners 2D double", partitioners<2, double>, 15000, 300000, 20, "a tree of several nodes", true});
static Reg p2({"C37", "partitioners 3D double", partitioners<3, double>, 10000, 200000, 20, "a tree of several nodes", true});
int main(int argc, char **argv) { return vp_main(argc, argv); }
