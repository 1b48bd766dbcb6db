// C25: number recognition.  C28: static sort.  C29: bit/power/split/CSV helpers.
#include "vp.hpp"
#include <sstream>
#include <array>
#include "utils/StringUtils.h"
#include "utils/StaticSort.h"
#include "utils/Misc.h"
#include "utils/CSV.h"

using namespace vp;

// reference recognisers, written as automata
static bool refInt(const std::string &s) {
    size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t d = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i, ++d;
    return d && i == s.size();
}

static bool refFloat(const std::string &s) {
    size_t i = 0, d = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    while (i < s.size() && isdigit((unsigned char) s[i])) ++i, ++d;
    if (i < s.size() && s[i] == '.') {
        ++i;
        while (i < s.size() && isdigit((unsigned char) s[i])) ++i, ++d;
    }
    if (!d) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        size_t e = 0;
        while (i < s.size() && isdigit((unsigned char) s[i])) ++i, ++e;
        if (!e) return false;
    }
    return i == s.size();
}

static std::string digits(Src &s, size_t lo, size_t hi) {
    std::string r;
    size_t n = lo + s.below(hi - lo + 1);
    for (size_t i = 0; i < n; ++i) r += (char) ('0' + s.below(10));
    return r;
}

static std::string genNumber(Src &s) {
    std::string r = s.pick({"", "+", "-", ""});
    r += digits(s, 0, 6);
    if (s.chance(1, 2)) r += "." + digits(s, 0, 6);
    if (s.chance(1, 3)) r += std::string(s.pick({"e", "E"})) + s.pick({"", "+", "-"}) + digits(s, 0, 3);
    return r;
}

static void propNumber(Src &s, Ctx &c) {
    static const std::string junk = "0123456789+-.eE(|) axfF\n,_nN\xb2~";
    std::string t;
    switch (s.below(4)) {
        case 0: // any string over the interesting characters
        {
            size_t n = s.below(8);
            for (size_t i = 0; i < n; ++i) t += junk[s.below(junk.size())];
            break;
        }
        case 1:
            t = genNumber(s);
            break;
        case 2: { // one edit away from a number
            t = genNumber(s);
            size_t at = s.below(t.size() + 1);
            char ch = junk[s.below(junk.size())];
            switch (s.below(3)) {
                case 0: t.insert(t.begin() + at, ch); break;
                case 1: if (at < t.size()) t[at] = ch; break;
                default: if (at < t.size()) t.erase(at, 1);
            }
            break;
        }
        default:
            t = std::string(s.pick({"", "+", "-"})) + digits(s, 1, 12);
    }
    bool wi = refInt(t), wf = refFloat(t);
    c.describe([&](std::ostream &o) { o << "\"" << t << "\" int=" << wi << " float=" << wf; });
    VP_EQ(is_int(t), wi, "is_int(\"" + t + "\")");
    VP_EQ(is_float(t), wf, "is_float(\"" + t + "\")");
    if (is_int(t) && t.size() < 18) {
        size_t used = 0;
        (void) std::stoll(t, &used);
        VP_EQ(used, t.size(), "is_int accepted \"" + t + "\" which stoll does not read completely");
    }
    if (is_float(t)) {
        char *e = nullptr;
        (void) strtod(t.c_str(), &e);
        VP_EQ((size_t) (e - t.c_str()), t.size(), "is_float accepted \"" + t + "\" which strtod does not read completely");
    }
    c.nontrivial(!t.empty());
    c.label(wi ? "integer" : wf ? "float" : "not a number");
}

// all strings up to a length over a small alphabet, exhaustively, one block per case
static void propNumberExh(Src &s, Ctx &c) {
    static const std::string al = "01+-.e|aE(";
    const uint64_t total = 1111111; // all strings of length 0..6 over 10 letters
    uint64_t block = s.draw(1112);
    for (uint64_t k = block * 1000; k < (block + 1) * 1000 && k < total; ++k) {
        uint64_t x = k;
        std::string t;
        uint64_t len = 0, cnt = 1;
        while (x >= cnt) x -= cnt, cnt *= 10, ++len;
        for (uint64_t i = 0; i < len; ++i) t += al[x % 10], x /= 10;
        VP_EQ(is_int(t), refInt(t), "is_int(\"" + t + "\")");
        VP_EQ(is_float(t), refFloat(t), "is_float(\"" + t + "\")");
        c.label("strings");
    }
    c.describe([&](std::ostream &o) { o << "1000 consecutive strings from number " << block * 1000 << " over " << al; });
    c.nontrivial();
}

// ---- C28
struct Item {
    int key;
    unsigned tag;

    bool operator<(const Item &o) const { return key < o.key; }

    bool operator==(const Item &o) const { return key == o.key && tag == o.tag; }
};

template<size_t N>
static void sortN(Src &s, Ctx &c) {
    std::array<Item, N> a, b;
    std::array<std::string, N> data;
    std::array<unsigned, N> dat2;
    int span = (int) s.pick({2, 4, 100, 1000000});
    unsigned shape = s.draw(4);
    for (size_t i = 0; i < N; ++i) {
        int k = (int) s.range(-span, span);
        if (shape == 1) k = (int) i;
        if (shape == 2) k = -(int) i;
        if (shape == 3) k = i == 0 ? 5 : (int) i % 7;
        a[i] = {k, (unsigned) i};
        data[i] = "v" + std::to_string(i);
        dat2[i] = i * 7;
    }
    b = a;
    std::array<Item, N> want = a;
    std::stable_sort(want.begin(), want.end());
    static_insertion_sort(a);
    VP_CHECK(a == want, "array of " << N << " not sorted stably");
    auto bb = b;
    static_insertion_sort_with_data(b, data);
    VP_CHECK(b == want, "array of " << N << " not sorted by the variant with data");
    static_insertion_sort_with_data(bb, dat2);
    for (size_t i = 0; i < N; ++i) {
        VP_EQ(data[i], "v" + std::to_string(want[i].tag), "data at " + std::to_string(i));
        VP_EQ(dat2[i], want[i].tag * 7, "data at " + std::to_string(i));
    }
    std::array<double, N> d;
    std::array<unsigned long, N> u;
    for (size_t i = 0; i < N; ++i) d[i] = (double) b[N - 1 - i].key / 3, u[i] = s.draw(0);
    auto d2 = d;
    auto u2 = u;
    static_insertion_sort(d);
    static_insertion_sort(u);
    std::sort(d2.begin(), d2.end());
    std::sort(u2.begin(), u2.end());
    VP_CHECK(d == d2, "doubles not sorted");
    VP_CHECK(u == u2, "64-bit ids not sorted");
    c.describe([&](std::ostream &o) {
        o << N << " items, keys";
        for (size_t i = 0; i < N && i < 20; ++i) o << " " << want[i].key;
    });
    c.nontrivial(N >= 2);
    c.label("N=" + std::to_string(N));
}

static void propSort(Src &s, Ctx &c) {
    switch (s.below(12)) {
        case 0: return sortN<1>(s, c);
        case 1: return sortN<2>(s, c);
        case 2: return sortN<3>(s, c);
        case 3: return sortN<4>(s, c);
        case 4: return sortN<5>(s, c);
        case 5: return sortN<6>(s, c);
        case 6: return sortN<7>(s, c);
        case 7: return sortN<8>(s, c);
        case 8: return sortN<16>(s, c);
        case 9: return sortN<33>(s, c);
        case 10: return sortN<128>(s, c);
        default: return sortN<257>(s, c);
    }
}

// arrays longer than 2^15 are still below the stated limit of 2^16-1
static void propSortLong(Src &s, Ctx &c) {
    static constexpr size_t N = 34000;
    static std::array<int, N> a, b;
    static std::array<int, N> d;
    for (size_t i = 0; i < N; ++i) a[i] = (int) i * 2, d[i] = a[i] * 3;
    size_t n = 1 + s.below(20);
    for (size_t k = 0; k < n; ++k) { // nearly sorted: insertion sort stays fast
        size_t i = s.below(N), j = s.chance(1, 2) ? N - 1 - s.below(1000) : s.below(N);
        std::swap(a[i], a[j]);
        std::swap(d[i], d[j]);
    }
    b = a;
    auto w = a;
    std::sort(w.begin(), w.end());
    static_insertion_sort(b);
    VP_CHECK(b == w, "long array not sorted");
    static_insertion_sort_with_data(a, d);
    VP_CHECK(a == w, "long array not sorted with data");
    for (size_t i = 0; i < N; ++i) VP_CHECK(d[i] == a[i] * 3, "data separated from its element");
    c.describe([&](std::ostream &o) { o << N << " ints with " << n << " swaps"; });
    c.nontrivial();
}

// ---- C29
template<typename T>
static void bits(Src &s, Ctx &c) {
    const unsigned W = sizeof(T) * 8;
    T x;
    switch (s.below(4)) {
        case 0: x = (T) s.draw(0); break;
        case 1: x = (T) s.draw(300); break;
        case 2: x = (T) ((T) 1 << s.below(W)); break;
        default: x = (T) (((T) 1 << s.below(W)) + (T) s.range(-2, 2));
    }
    unsigned pc = 0, hi = 0;
    for (unsigned i = 0; i < W; ++i)
        if ((x >> i) & 1) ++pc, hi = i;
    c.describe([&](std::ostream &o) { o << W << "-bit " << (unsigned long) x; });
    std::string at = " of " + std::to_string((unsigned long) x) + " (" + std::to_string(W) + " bit)";
    VP_EQ((unsigned) popcount<T>(x), pc, "popcount" + at);
    VP_EQ((bool) isPow2<T>(x), pc == 1, "isPow2" + at);
    if (x) VP_EQ((unsigned) ::log2<T>(x), hi, "log2" + at);
    if (x && (pc == 1 || hi + 1 < W)) {
        T w = pc == 1 ? x : (T) ((T) 1 << (hi + 1));
        VP_EQ((unsigned long) nextPow2<T>(x), (unsigned long) w, "nextPow2" + at);
    }
    // bases that are powers of two
    unsigned lb = 1 + s.below(std::min(W - 1, 10u));
    T n = (T) ((T) 1 << lb);
    if (x) VP_EQ((unsigned) logN<T>(x, n), hi / lb, "logN base " + std::to_string((unsigned long) n) + at);
    // powers of any base
    T base = (T) (2 + s.draw(W == 8 ? 14 : 60));
    T y;
    unsigned e = s.draw(W);
    if (s.chance(1, 2)) {
        unsigned long v = 1;
        for (unsigned i = 0; i < e && v <= (unsigned long) (T) ~(T) 0 / base; ++i) v *= base;
        y = (T) v;
    } else if (s.chance(1, 2)) y = (T) (base * s.draw(20)); else y = x;
    bool pow = false;
    for (__uint128_t v = 1; v <= (__uint128_t) (T) ~(T) 0; v *= base) pow = pow || v == y;
    VP_EQ((bool) isPowN<T>(y, base), pow, "isPowN(" + std::to_string((unsigned long) y) + ", " + std::to_string((unsigned long) base) + ")");
    c.nontrivial(x > 2);
    c.label(std::to_string(W) + " bit");
}

static void propBits(Src &s, Ctx &c) {
    switch (s.below(4)) {
        case 0: return bits<uint32_t>(s, c);
        case 1: return bits<uint64_t>(s, c);
        case 2: return bits<uint16_t>(s, c);
        default: return bits<unsigned long long>(s, c);
    }
}

static void propSplit(Src &s, Ctx &c) {
    static const std::string al = "ab1, ;:\t.\n";
    char d = s.pick({',', ' ', ';', ':', '\t'});
    std::string t;
    size_t n = s.length(0, 24);
    for (size_t i = 0; i < n; ++i) t += s.chance(1, 3) ? d : al[s.below(al.size())];
    std::vector<std::string> want, all;
    std::string cur;
    for (char ch : t) {
        if (ch == d) all.push_back(cur), cur.clear();
        else cur += ch;
    }
    all.push_back(cur);
    for (auto &f : all) if (!f.empty()) want.push_back(f);
    c.describe([&](std::ostream &o) { o << "\"" << t << "\" at '" << d << "' -> " << all.size() << " fields, " << want.size() << " non-empty"; });
    std::vector<std::string> r{"stale"};
    auto &ret = split(r, t, d);
    VP_CHECK(&ret == &r, "does not return its argument");
    auto show = [](const std::vector<std::string> &v) {
        std::string o;
        for (auto &x : v) o += "[" + x + "]";
        return o;
    };
    VP_EQ(show(r), show(all), "fields of \"" + t + "\"");
    std::vector<std::string> r2{"x"};
    split(r2, t, d, split::no_empties);
    VP_EQ(show(r2), show(want), "non-empty fields of \"" + t + "\"");
    std::string joined;
    for (size_t i = 0; i < r.size(); ++i) joined += (i ? std::string(1, d) : "") + r[i];
    VP_EQ(joined, t, "joined again");
    c.nontrivial(all.size() > 1);
}

static void propCsv(Src &s, Ctx &c) {
    std::string a, b;
    size_t n = s.below(6), m = s.below(6);
    for (size_t i = 0; i < n; ++i) a += (char) ('a' + s.below(26));
    for (size_t i = 0; i < m; ++i) b += (char) ('A' + s.below(26));
    long x = (long) s.draw(0);
    unsigned u = (unsigned) s.draw(1u << 30);
    double f = (double) s.range(-4000, 4000) / 8;
    std::ostringstream fs;
    fs << f;
    std::string sep(1, CSV::SEP);
    VP_EQ(CSV::csv(a), a, "one field");
    VP_EQ(CSV::csv(x), std::to_string(x), "one number");
    VP_EQ(CSV::csv(a, b), a + sep + b, "two fields");
    VP_EQ(CSV::csv(a, x, b), a + sep + std::to_string(x) + sep + b, "three fields");
    VP_EQ(CSV::csv(x, u, f, a, 'z'), std::to_string(x) + sep + std::to_string(u) + sep + fs.str() + sep + a + sep + "z", "five fields");
    VP_EQ(CSV::csv(), std::string(), "no field");
    // unit conversions invert each other up to their factors: 1 s = 1e9 ns = 1e3 ms
    long double t = (long double) u / 16;
    long double ms = CSV::nsToMs(CSV::sToNs(t));
    VP_CHECK(fabsl(ms - t * 1000) <= 1e-12L * fabsl(t * 1000), "nsToMs(sToNs(" << (double) t << ")) = " << (double) ms);
    VP_CHECK(fabsl(CSV::nsToMs(t * 1000000) - t) <= 1e-12L * fabsl(t), "nsToMs");
    c.describe([&](std::ostream &o) { o << CSV::csv(x, u, f, a, b); });
    c.nontrivial(n && m);
}

static Reg r1({"C25", "numbers", propNumber, 250000, 2500000, 20,
               "random strings, generated numbers and single-edit mutants of them, against automata for the stated grammars and strtod/stoll; non-trivial: non-empty string"});
static Reg r2({"C25", "short-strings", propNumberExh, 1100, 8000, 60,
               "blocks of 1000 consecutive strings from the enumeration of all strings of length 0-6 over 01+-.e|aE( ; every case non-trivial"});
static Reg r3({"C28", "sort", propSort, 1500000, 15000000, 20,
               "arrays of 1-257 keyed items (duplicates, ascending, descending, random), doubles and ids, against std::stable_sort; non-trivial: at least two elements"});
static Reg r4({"C28", "sort-long", propSortLong, 1500, 15000, 60,
               "nearly sorted arrays of 34000 elements, above 2^15 and below the declared limit; every case non-trivial"});
static Reg r5({"C29", "bits", propBits, 4000000, 20000000, 20,
               "16-64 bit values (random, small, powers of two and neighbours) and bases against bit-by-bit references; non-trivial: value above 2"});
static Reg r6({"C29", "split", propSplit, 1500000, 3000000, 20,
               "random strings dense in delimiters, split with and without empty fields; non-trivial: at least one delimiter"});
static Reg r7({"C29", "csv", propCsv, 1000000, 1000000, 20,
               "argument lists of 0-5 mixed values; non-trivial: both strings non-empty"});

int main(int argc, char **argv) { return vp_main(argc, argv); }
