// vp.hpp - a small property-based testing engine for the checks in /verif/checks.
//
// * every case is driven by a recorded sequence of bounded choices (Src), so any case can be
//   replayed and shrunk by editing that sequence, whatever the property generates from it;
// * cases run in forked worker processes: a crash, a runaway allocation or a hang of the code under
//   test is a failure of one case, never of the engine;
// * a failure is confirmed in fresh processes, shrunk, and written to a replay file.
//
// The engine itself never starts a thread, so forking stays safe.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __gcov_dump(void) __attribute__((weak)); // present in coverage builds only

namespace vp {

struct Fail {
    std::string msg;
};
struct Discard {
};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

/* Source of choices. 0 is always the simplest choice. */
class Src {
public:
    Src(uint64_t seed, size_t size) : state(mix(seed)), sz(size) {}

    Src(const std::vector<uint64_t> &r, size_t size, uint64_t seed) : state(mix(seed)), replay(&r), sz(size) {}

    // uniform in [0,n); n == 0 -> 64 random bits
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (replay) {
            v = pos < replay->size() ? (*replay)[pos] : 0;
            ++pos;
            if (n) v %= n;
        } else {
            state = mix(state);
            v = n ? (uint64_t) (((__uint128_t) state * n) >> 64) : state;
        }
        rec.push_back(v);
        if (log() && rec.size() < LOGCAP) {
            log()[rec.size()] = v;
            log()[0] = rec.size();
        }
        return v;
    }

    template<typename T>
    T range(T lo, T hi) { // inclusive
        return (T) (lo + (T) draw((uint64_t) ((int64_t) hi - (int64_t) lo) + 1));
    }

    size_t below(size_t n) { return draw(n); }

    bool chance(uint64_t num, uint64_t den) { // false is simplest
        return draw(den) >= den - num;
    }

    template<typename T>
    const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }

    template<typename T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + draw(l.size()));
    }

    // size that grows with the case number: mostly small, sometimes near the maximum
    size_t length(size_t lo, size_t hi) {
        size_t cap = lo + (hi - lo) * std::min<size_t>(sz, 100) / 100;
        if (cap < lo + 1) cap = std::min(hi, lo + 1);
        return lo + draw(cap - lo + 1);
    }

    double unit() { return (double) draw(1ULL << 53) / (double) (1ULL << 53); }

    size_t size() const { return sz; }

    std::vector<uint64_t> rec;

    // choices made so far, kept where a crash of this process cannot lose them
    static constexpr size_t LOGCAP = 1 << 20;

    static uint64_t *&log() {
        static uint64_t *l = nullptr;
        return l;
    }

private:
    uint64_t state;
    const std::vector<uint64_t> *replay = nullptr;
    size_t pos = 0;
    size_t sz;
};

struct Ctx {
    bool nontriv = false;
    uint64_t extraHash = 0;
    bool want = false; // description wanted
    std::ostringstream desc;
    std::map<std::string, uint64_t> *labels = nullptr;

    void nontrivial(bool b = true) { nontriv = nontriv || b; }

    void label(const std::string &s, uint64_t n = 1) {
        if (labels) (*labels)[s] += n;
    }

    template<typename F>
    void describe(F &&f) {
        if (want) f(desc);
    }
};

typedef void (*PropFn)(Src &, Ctx &);

struct Prop {
    std::string prop;    // property id
    std::string name;    // name of the sub-property
    PropFn fn;
    uint64_t quick;      // number of cases
    uint64_t thorough;
    double timeout;      // seconds per case before it counts as hanging
    std::string rule;    // what the cases are and what makes one non-trivial
    bool nondet = false; // schedule dependent
    unsigned workers = 0;// 0: all
    unsigned perProc = 0;// start a fresh process after this many cases (0: never)
};

inline std::vector<Prop> &registry() {
    static std::vector<Prop> r;
    return r;
}

struct Reg {
    Reg(Prop p) { registry().push_back(std::move(p)); }
};

inline std::function<void(uint64_t)> &perCase() {
    static std::function<void(uint64_t)> f;
    return f;
}

struct PerCase {
    PerCase(std::function<void(uint64_t)> f) { perCase() = std::move(f); }
};

#define VP_FAIL(m)                                                                                                     \
    do {                                                                                                               \
        std::ostringstream vp_os;                                                                                      \
        vp_os << std::setprecision(17) << m;                                                                           \
        throw vp::Fail{vp_os.str()};                                                                                   \
    } while (0)
#define VP_CHECK(c, m)                                                                                                 \
    do {                                                                                                               \
        if (!(c)) VP_FAIL(m);                                                                                          \
    } while (0)
#define VP_EQ(a, b, m)                                                                                                 \
    do {                                                                                                               \
        auto vp_a = (a);                                                                                               \
        auto vp_b = (b);                                                                                               \
        if (!(vp_a == vp_b)) VP_FAIL(m << ": got " << vp_a << ", expected " << vp_b);                                  \
    } while (0)

// ---------------------------------------------------------------------------------------------

struct Outcome {
    enum Kind { PASS, FAIL, CRASH, HANG, DISCARD, OOM } kind = PASS;
    std::string msg;
    std::vector<uint64_t> rec;
};

inline std::string jsonEscape(const std::string &s) {
    std::ostringstream o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o << '\\' << c;
        else if (c == '\n') o << "\\n";
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o << b;
        } else o << c;
    }
    return o.str();
}

// run one case in this process
inline Outcome runHere(const Prop &p, Src &s, Ctx &c, uint64_t seed) {
    Outcome o;
    try {
        if (perCase()) perCase()(seed);
        p.fn(s, c);
    } catch (const Fail &f) {
        o.kind = Outcome::FAIL;
        o.msg = f.msg;
    } catch (const Discard &) {
        o.kind = Outcome::DISCARD;
    } catch (const std::exception &e) {
        o.kind = Outcome::FAIL;
        o.msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        o.kind = Outcome::FAIL;
        o.msg = "unexpected exception of unknown type";
    }
    o.rec = s.rec;
    return o;
}

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline void limits() {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 12ULL << 30;
    setrlimit(RLIMIT_AS, &rl);
#endif
    struct rlimit c{0, 0};
    setrlimit(RLIMIT_CORE, &c);
}

// run one case in a child process
inline Outcome runForked(const Prop &p, const std::vector<uint64_t> *choices, uint64_t seed, size_t size,
                         double timeout, std::string *descr = nullptr) {
    int fd[2];
    if (pipe(fd) != 0) return {};
    std::cout.flush();
    auto *lg = (uint64_t *) mmap(nullptr, Src::LOGCAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (lg == MAP_FAILED) lg = nullptr;
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        setpgid(0, 0);
        limits();
        Src::log() = lg;
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        if (!getenv("VP_STDERR")) dup2(dn, 2);
        Ctx c;
        c.want = descr != nullptr;
        Outcome o;
        if (choices) {
            Src s(*choices, size, seed);
            o = runHere(p, s, c, seed);
        } else {
            Src s(seed, size);
            o = runHere(p, s, c, seed);
        }
        std::string d = c.desc.str();
        auto put = [&](const void *b, size_t n) {
            const char *q = (const char *) b;
            while (n) {
                ssize_t w = write(fd[1], q, n);
                if (w <= 0) _exit(3);
                q += w;
                n -= w;
            }
        };
        uint64_t hdr[4] = {(uint64_t) o.kind, o.msg.size(), o.rec.size(), d.size()};
        put(hdr, sizeof hdr);
        put(o.msg.data(), o.msg.size());
        put(o.rec.data(), o.rec.size() * 8);
        put(d.data(), d.size());
        _exit(0);
    }
    close(fd[1]);
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    std::string buf;
    double end = now() + timeout;
    bool hang = false;
    for (;;) {
        char b[65536];
        ssize_t n = read(fd[0], b, sizeof b);
        if (n > 0) {
            buf.append(b, n);
            continue;
        }
        if (n == 0) break;
        if (now() > end) {
            hang = true;
            break;
        }
        usleep(500);
    }
    if (hang) kill(-pid, SIGKILL), kill(pid, SIGKILL);
    int st = 0;
    // the pipe may close before the process is gone
    double grace = now() + 20;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        if (now() > grace) kill(pid, SIGKILL);
        usleep(300);
    }
    close(fd[0]);
    Outcome o;
    if (lg) {
        if (lg[0] + 1 < Src::LOGCAP) o.rec.assign(lg + 1, lg + 1 + lg[0]);
        munmap(lg, Src::LOGCAP * 8);
    }
    if (hang) {
        o.kind = Outcome::HANG;
        o.msg = "no result within " + std::to_string(timeout) + " s";
        return o;
    }
    if (buf.size() >= 32) {
        const uint64_t *h = (const uint64_t *) buf.data();
        o.kind = (Outcome::Kind) h[0];
        size_t at = 32;
        o.msg = buf.substr(at, h[1]);
        at += h[1];
        o.rec.resize(h[2]);
        if (buf.size() >= at + h[2] * 8) memcpy(o.rec.data(), buf.data() + at, h[2] * 8);
        at += h[2] * 8;
        if (descr && buf.size() >= at) *descr = buf.substr(at, h[3]);
        return o;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
        o.kind = Outcome::OOM;
        o.msg = "killed";
        return o;
    }
    o.kind = Outcome::CRASH;
    if (WIFSIGNALED(st)) o.msg = std::string("crashed: signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
    else o.msg = "process ended with status " + std::to_string(WEXITSTATUS(st)) + " inside the code under test";
    return o;
}

inline bool bad(const Outcome &o) {
    return o.kind == Outcome::FAIL || o.kind == Outcome::CRASH || o.kind == Outcome::HANG;
}

struct Found {
    uint64_t seed = 0;
    size_t size = 0;
    Outcome o;
    int worker = 0;
    std::string descr;
    unsigned confirmed = 0, tried = 0;
    bool nearMiss = false;
};

// shrink: remove chunks of choices, then lower single choices
inline void shrink(const Prop &p, Found &f, double budget, unsigned reps) {
    if (f.o.rec.empty()) return;
    double end = now() + budget;
    std::vector<uint64_t> best = f.o.rec;
    double tmo = f.o.kind == Outcome::HANG ? std::min(p.timeout, 5.0) : p.timeout;
    auto fails = [&](const std::vector<uint64_t> &c) {
        for (unsigned r = 0; r < reps; ++r) {
            Outcome o = runForked(p, &c, f.seed, f.size, tmo);
            if (bad(o) && (o.kind == f.o.kind)) {
                f.o.msg = o.msg;
                if (o.kind == Outcome::FAIL && o.rec.size() <= c.size()) best = o.rec; else best = c;
                return true;
            }
            if (now() > end) break;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1 && now() < end; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size() && now() < end;) {
                std::vector<uint64_t> c(best.begin(), best.begin() + i);
                c.insert(c.end(), best.begin() + i + chunk, best.end());
                size_t old = best.size();
                if (fails(c) && best.size() < old) progress = true;
                else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < end; ++i) {
            for (uint64_t v : {(uint64_t) 0, best[i] / 2, best[i] - 1}) {
                if (i >= best.size() || best[i] == 0 || v >= best[i]) continue;
                std::vector<uint64_t> c = best;
                c[i] = v;
                if (fails(c)) {
                    progress = true;
                    if (v == 0) break;
                }
                if (now() > end) break;
            }
        }
    }
    f.o.rec = best;
}

struct Shared {
    struct Slot {
        std::atomic<uint64_t> caseNo;
        std::atomic<double> started;
        std::atomic<uint64_t> evals;
        std::atomic<int> failed;
        std::atomic<uint64_t> failedCase;
    } slot[64];
};

struct Report {
    uint64_t evals = 0, discards = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

inline uint64_t hashChoices(const std::vector<uint64_t> &v) {
    uint64_t h = v.size();
    for (auto x : v) h = mix(h ^ x);
    return h;
}

inline void writeReport(const std::string &f, const Report &r) {
    std::string tmp = f + ".t";
    {
        std::ofstream o(tmp, std::ios::binary);
        o << r.evals << " " << r.discards << " " << r.distinct.size() << "\n";
        for (auto h : r.distinct) o << h << "\n";
        o << r.labels.size() << "\n";
        for (auto &l : r.labels) o << l.second << " " << l.first << "\n";
        o << r.samples.size() << "\n";
        for (auto &s : r.samples) o << jsonEscape(s) << "\n";
    }
    rename(tmp.c_str(), f.c_str());
}

inline void readReport(const std::string &f, Report &r) {
    std::ifstream i(f, std::ios::binary);
    if (!i) return;
    uint64_t e = 0, d = 0, n = 0;
    i >> e >> d >> n;
    r.evals += e;
    r.discards += d;
    for (uint64_t k = 0; k < n; ++k) {
        uint64_t h;
        i >> h;
        r.distinct.insert(h);
    }
    i >> n;
    for (uint64_t k = 0; k < n; ++k) {
        uint64_t c;
        std::string s;
        i >> c;
        i.get();
        std::getline(i, s);
        r.labels[s] += c;
    }
    i >> n;
    i.get();
    for (uint64_t k = 0; k < n; ++k) {
        std::string s;
        std::getline(i, s);
        if (r.samples.size() < 6) r.samples.push_back(s);
    }
}

inline size_t sizeOf(uint64_t idx, uint64_t total) {
    // ramp up over the first fifth of the cases, then all sizes
    uint64_t ramp = std::max<uint64_t>(1, total / 5);
    return idx < ramp ? 1 + idx * 99 / ramp : 100;
}

inline uint64_t seedOf(uint64_t seed, const Prop &p, uint64_t idx) {
    uint64_t h = mix(seed);
    for (char c : p.prop + "/" + p.name) h = mix(h ^ (unsigned char) c);
    return mix(h ^ idx);
}

inline int runProp(const Prop &p, bool thorough, uint64_t seed, double budget, const std::string &tmpdir,
                   Report &total, std::vector<Found> &founds, unsigned maxWorkers) {
    const uint64_t cases = thorough ? p.thorough : p.quick;
    unsigned W = p.workers ? std::min(p.workers, maxWorkers) : maxWorkers;
    if (W > cases) W = (unsigned) std::max<uint64_t>(1, cases);
    auto *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const double t0 = now();

    struct WS {
        pid_t pid = -1;
        uint64_t next = 0;
        bool done = false;
        int gen = 0;
    };
    std::vector<WS> ws(W);
    std::vector<std::string> files;

    auto start = [&](unsigned w) {
        std::string rf = tmpdir + "/" + p.name + "." + std::to_string(w) + "." + std::to_string(ws[w].gen++);
        files.push_back(rf);
        sh->slot[w].caseNo = ws[w].next;
        sh->slot[w].started = now();
        std::cout.flush();
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            limits();
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            if (!getenv("VP_STDERR")) dup2(dn, 2);
            Report r;
            double last = now();
            unsigned mine = 0;
            for (uint64_t i = ws[w].next; i < cases; i += W) {
                if (now() - t0 > budget) break;
                if (p.perProc && mine++ == p.perProc) {
                    sh->slot[w].caseNo = i;
                    writeReport(rf, r);
                    _exit(9);
                }
                sh->slot[w].caseNo = i;
                sh->slot[w].started = now();
                uint64_t cs = seedOf(seed, p, i);
                Src s(cs, sizeOf(i, cases));
                Ctx c;
                c.labels = &r.labels;
                c.want = r.samples.size() < 2 && i > cases / 4;
                Outcome o = runHere(p, s, c, cs);
                ++r.evals;
                if (o.kind == Outcome::DISCARD) ++r.discards;
                else if (c.nontriv) r.distinct.insert(hashChoices(s.rec));
                if (c.want && c.nontriv && !c.desc.str().empty()) {
                    std::string d = p.name + " seed=" + std::to_string(cs) + ": " + c.desc.str();
                    r.samples.push_back(d.substr(0, 400));
                }
                if (o.kind == Outcome::FAIL) {
                    sh->slot[w].failedCase = i;
                    sh->slot[w].failed = 1;
                    writeReport(rf, r);
                    std::ofstream(rf + ".msg") << o.msg;
                    std::ofstream rec(rf + ".rec");
                    for (auto x : o.rec) rec << x << "\n";
                    rec.close();
                    _exit(7);
                }
                if (now() - last > 1.0) {
                    writeReport(rf, r);
                    last = now();
                }
            }
            writeReport(rf, r);
            if (__gcov_dump) __gcov_dump();
            _exit(0);
        }
        ws[w].pid = pid;
    };

    for (unsigned w = 0; w < W; ++w) {
        ws[w].next = w;
        start(w);
    }
    auto suspect = [&](unsigned w, uint64_t idx, Outcome o) {
        Found f;
        f.seed = seedOf(seed, p, idx);
        f.size = sizeOf(idx, cases);
        f.o = std::move(o);
        f.worker = (int) w;
        return f;
    };

    unsigned live = W;
    bool stop = false;
    unsigned restarts = 0, near = 0;
    while (live) {
        int st;
        pid_t pid = waitpid(-1, &st, WNOHANG);
        if (pid > 0) {
            unsigned w = 0;
            while (w < W && ws[w].pid != pid) ++w;
            if (w == W) continue;
            ws[w].pid = -1;
            --live;
            std::string rf = tmpdir + "/" + p.name + "." + std::to_string(w) + "." + std::to_string(ws[w].gen - 1);
            uint64_t idx = sh->slot[w].caseNo;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 9) {
                readReport(rf, total);
                unlink(rf.c_str());
                ws[w].next = idx;
                start(w);
                ++live;
                continue;
            }
            Found f;
            bool have = false;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 7) {
                Outcome o;
                o.kind = Outcome::FAIL;
                std::ifstream m(rf + ".msg");
                std::stringstream ss;
                ss << m.rdbuf();
                o.msg = ss.str();
                std::ifstream rr(rf + ".rec");
                uint64_t x;
                while (rr >> x) o.rec.push_back(x);
                f = suspect(w, idx, o);
                have = true;
            } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                // out of memory or killed: says nothing unless it comes back in isolation
                Outcome o;
                o.kind = Outcome::OOM;
                f = suspect(w, idx, o);
            } else {
                Outcome o;
                o.kind = Outcome::CRASH;
                o.msg = WIFSIGNALED(st) ? "worker crashed: signal " + std::to_string(WTERMSIG(st))
                                        : "worker ended with status " + std::to_string(WEXITSTATUS(st));
                f = suspect(w, idx, o);
                have = true;
            }
            if (have && !stop) {
                founds.push_back(f);
                if (founds.size() >= 3) stop = true; // enough to report
            }
            if (stop)
                for (auto &x : ws)
                    if (x.pid > 0) kill(-x.pid, SIGKILL);
            if (!stop && idx + W < cases && ++restarts < 64 && now() - t0 < budget) {
                ws[w].next = idx + W;
                start(w);
                ++live;
            }
            continue;
        }
        double t = now();
        for (unsigned w = 0; w < W; ++w)
            if (ws[w].pid > 0 && t - sh->slot[w].started > p.timeout) {
                uint64_t idx = sh->slot[w].caseNo;
                kill(-ws[w].pid, SIGKILL);
                kill(ws[w].pid, SIGKILL);
                int s2;
                waitpid(ws[w].pid, &s2, 0);
                ws[w].pid = -1;
                --live;
                // confirm the hang alone before believing it
                Outcome o;
                o.kind = Outcome::HANG;
                o.msg = "no result within the time limit";
                Found f = suspect(w, idx, o);
                if (!stop && near < 3) {
                    bool all = true;
                    for (int k = 0; k < 2 && all; ++k)
                        all = bad(runForked(p, nullptr, f.seed, f.size, p.timeout));
                    if (all) {
                        founds.push_back(f);
                        stop = true;
                        for (auto &x : ws)
                            if (x.pid > 0) kill(-x.pid, SIGKILL);
                    } else ++near;
                }
                if (!stop && idx + W < cases && ++restarts < 64 && now() - t0 < budget) {
                    ws[w].next = idx + W;
                    start(w);
                    ++live;
                }
            }
        usleep(2000);
    }
    for (auto &f : files) readReport(f, total);
    munmap(sh, sizeof(Shared));
    return 0;
}

inline bool writeReplay(const std::string &file, const Prop &p, const Found &f, uint64_t seed) {
    std::ofstream o(file);
    o << "vp-replay 1\nproperty " << p.prop << "\ncheck " << p.name << "\nseed " << f.seed << "\nsize " << f.size
      << "\nrunseed " << seed << "\nhaschoices " << (f.o.rec.empty() ? 0 : 1) << "\nnchoices " << f.o.rec.size()
      << "\nchoices";
    for (auto c : f.o.rec) o << " " << c;
    o << "\n# failure (reproduced " << f.confirmed << " of " << f.tried << " replays): " << f.o.msg << "\n# case:\n";
    std::istringstream is(f.descr);
    std::string l;
    while (std::getline(is, l)) o << "#   " << l << "\n";
    return (bool) o;
}

inline int doReplay(const std::string &file) {
    std::ifstream i(file);
    std::string line, prop, name;
    uint64_t seed = 0;
    size_t size = 0;
    int has = 0;
    std::vector<uint64_t> ch;
    while (std::getline(i, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "property") is >> prop;
        else if (k == "check") is >> std::ws, std::getline(is, name);
        else if (k == "seed") is >> seed;
        else if (k == "size") is >> size;
        else if (k == "haschoices") is >> has;
        else if (k == "choices") {
            uint64_t x;
            while (is >> x) ch.push_back(x);
        }
    }
    for (auto &p : registry())
        if (p.prop == prop && p.name == name) {
            unsigned n = p.nondet ? 100 : 3, hits = 0;
            Outcome last;
            std::string d;
            for (unsigned k = 0; k < n; ++k) {
                Outcome o = runForked(p, has ? &ch : nullptr, seed, size, p.timeout * 1.5, &d);
                if (bad(o)) {
                    ++hits;
                    last = o;
                    if (p.nondet) break;
                }
            }
            std::cout << "case: " << d << "\n";
            if (hits) {
                std::cout << "FAILS: " << last.msg << "\n";
                return 1;
            }
            std::cout << "passes\n";
            return 0;
        }
    std::cerr << "no such check: " << prop << " " << name << "\n";
    return 2;
}

} // namespace vp

/* usage: BIN --property ID --tier quick|thorough --seed N --report FILE --replays DIR --tmp DIR --budget SECONDS
 *        BIN --replay FILE
 *        BIN --list */
inline int vp_main(int argc, char **argv) {
    using namespace vp;
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        if (k == "--list") {
            for (auto &p : registry()) std::cout << p.prop << " " << p.name << " " << p.quick << " " << p.thorough << "\n";
            return 0;
        }
        if (i + 1 < argc) a[k] = argv[++i];
    }
    if (a.count("--replay")) return doReplay(a["--replay"]);
    const bool thorough = a["--tier"] == "thorough";
    const uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), nullptr, 10) : 1;
    const double budget = a.count("--budget") ? atof(a["--budget"].c_str()) : (thorough ? 600 : 60);
    const std::string tmp = a.count("--tmp") ? a["--tmp"] : "/tmp";
    const std::string replays = a.count("--replays") ? a["--replays"] : "/tmp";
    const unsigned workers = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8;
    const std::string id = a["--property"], only = a["--only"];
    mkdir(tmp.c_str(), 0777);
    mkdir(replays.c_str(), 0777);
    const double t0 = now();
    Report total;
    std::vector<std::string> rules, viol, perProp;
    size_t n = 0, k = 0;
    for (auto &p : registry()) n += p.prop == id && (only.empty() || p.name == only);
    for (auto &p : registry()) {
        if (p.prop != id || !(only.empty() || p.name == only)) continue;
        double left = budget - (now() - t0);
        double share = std::max(3.0, left / (double) (n - k));
        ++k;
        Report r;
        std::vector<Found> founds;
        double ts = now();
        runProp(p, thorough, seed, share, tmp, r, founds, workers);
        std::ostringstream ps;
        ps << "{\"check\": \"" << jsonEscape(p.name) << "\", \"evaluations\": " << r.evals << ", \"discarded\": "
           << r.discards << ", \"distinct_nontrivial\": " << r.distinct.size() << ", \"wall_s\": " << now() - ts
           << ", \"cases_planned\": " << (thorough ? p.thorough : p.quick) << ", \"labels\": {";
        bool first = true;
        for (auto &l : r.labels) {
            ps << (first ? "" : ", ") << "\"" << jsonEscape(l.first) << "\": " << l.second;
            first = false;
        }
        ps << "}}";
        perProp.push_back(ps.str());
        rules.push_back(p.name + ": " + p.rule);
        total.evals += r.evals;
        total.discards += r.discards;
        for (auto h : r.distinct) total.distinct.insert(mix(h ^ k));
        for (size_t s = 0; s < r.samples.size() && s < 2; ++s) total.samples.push_back(r.samples[s]);
        std::cout << id << " " << p.name << ": " << r.evals << " cases, " << r.distinct.size() << " distinct non-trivial, "
                  << now() - ts << " s" << (founds.empty() ? "" : "  FAILED") << std::endl;
        // confirm, shrink, write
        unsigned written = 0;
        for (auto &f : founds) {
            if (written >= 1) break;
            unsigned reps = p.nondet ? 30 : 3;
            Outcome again;
            auto confirm = [&](const std::vector<uint64_t> *c) {
                f.confirmed = f.tried = 0;
                for (unsigned q = 0; q < reps; ++q) {
                    ++f.tried;
                    Outcome o = runForked(p, c, f.seed, f.size, p.timeout * 1.5, &f.descr);
                    if (bad(o)) {
                        ++f.confirmed;
                        again = o;
                    }
                    if (p.nondet && f.confirmed >= 3) break;
                    if (bad(o) && o.kind == Outcome::HANG) break; // costs its whole time limit

                }
                return f.confirmed;
            };
            bool hung = f.o.kind == Outcome::HANG; // a hang was already confirmed
            bool iso = hung || confirm(nullptr) > 0;
            if (iso) {
                if (!hung) f.o = again;
                if (!f.o.rec.empty()) {
                    shrink(p, f, hung ? 25 : thorough ? 60 : 30, p.nondet ? 8 : 1);
                    std::vector<uint64_t> c = f.o.rec;
                    confirm(&c);
                }
            } else if (f.o.kind == Outcome::HANG || f.o.kind == Outcome::OOM) {
                continue; // not reproducible: not a finding
            }
            if (!iso) f.o.msg += " (seen once in a run of many cases; did not recur in isolation)";
            std::string file = id + "-" + p.name + ".replay";
            for (auto &ch : file) if (isspace((unsigned char) ch) || ch == '/') ch = '-';
            file = replays + "/" + file;
            writeReplay(file, p, f, seed);
            std::cout << "  failure: " << f.o.msg << "\n  case: " << f.descr.substr(0, 2000) << "\n";
            viol.push_back(file);
            ++written;
        }
        if (founds.size() && !written) std::cout << "  (not reproducible, ignored)\n";
    }
    if (a.count("--report")) {
        std::ofstream o(a["--report"]);
        o << std::setprecision(6) << "{\"evaluations\": " << total.evals << ", \"discarded\": " << total.discards
          << ", \"distinct_nontrivial\": " << total.distinct.size() << ", \"wall_s\": " << now() - t0 << ",\n \"rules\": [";
        for (size_t i = 0; i < rules.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEscape(rules[i]) << "\"";
        o << "],\n \"samples\": [";
        for (size_t i = 0; i < total.samples.size(); ++i) o << (i ? ", " : "") << "\"" << total.samples[i] << "\"";
        o << "],\n \"checks\": [";
        for (size_t i = 0; i < perProp.size(); ++i) o << (i ? ",\n  " : "") << perProp[i];
        o << "],\n \"violations\": [";
        for (size_t i = 0; i < viol.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEscape(viol[i]) << "\"";
        o << "]}\n";
    }
    return viol.empty() ? 0 : 1;
}

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
