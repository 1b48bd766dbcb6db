// sched.hpp - run "threads" as fibers under a schedule the generator owns.
//
// Include the standard and third party headers first, then sched_on.hpp, then the code under test, then
// sched_off.hpp: its std::atomic and std::mutex become types whose every operation is a scheduling point.
// With no schedule running they behave like the real ones.
#pragma once
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <ucontext.h>
#include "vp.hpp"

namespace vp {
namespace sched {

struct Fiber {
    ucontext_t ctx;
    std::unique_ptr<char[]> stack;
    std::function<void()> fn;
    bool done = false;
    std::string err;
    bool failed = false;
};

struct State {
    bool active = false;
    std::vector<std::unique_ptr<Fiber>> fibers;
    size_t cur = 0, left = 0;
    uint64_t quantum = 0, points = 0, switches = 0, limit = 0;
    bool stuck = false;
    Src *src = nullptr;
    ucontext_t main;
};

inline State &st() {
    static State s;
    return s;
}

inline uint64_t drawQuantum() {
    static const uint64_t q[] = {4000, 1, 2, 3, 4, 6, 9, 14, 25, 50, 120, 300, 1000};
    return q[st().src->draw(sizeof q / sizeof *q)];
}

inline void switchAway() {
    State &s = st();
    if (s.left == 0) return;
    size_t me = s.cur, n = s.fibers.size();
    size_t k = s.src->draw(s.left) + 1; // k-th live fiber after me, round robin
    size_t j = me;
    while (k) {
        j = (j + 1) % n;
        if (!s.fibers[j]->done) --k;
    }
    s.quantum = drawQuantum();
    if (j == me) return;
    ++s.switches;
    s.cur = j;
    swapcontext(&s.fibers[me]->ctx, &s.fibers[j]->ctx);
}

struct Stuck {};

inline void point() {
    State &s = st();
    if (!s.active) return;
    if (++s.points > s.limit) {
        s.stuck = true;
        throw Stuck();
    }
    if (s.quantum) {
        --s.quantum;
        return;
    }
    switchAway();
}

inline void forceSwitch() {
    State &s = st();
    if (!s.active) return;
    if (++s.points > s.limit) {
        s.stuck = true;
        throw Stuck();
    }
    s.quantum = 0;
    switchAway();
}

inline void entry() {
    State &s = st();
    Fiber &f = *s.fibers[s.cur];
    try {
        f.fn();
    } catch (const Fail &e) {
        f.failed = true;
        f.err = e.msg;
    } catch (const Stuck &) {
        f.failed = true;
        f.err = "no progress: the threads are still busy after a very long fair schedule";
    } catch (const std::exception &e) {
        f.failed = true;
        f.err = std::string("unexpected exception: ") + e.what();
    }
    f.done = true;
    --s.left;
    if (s.left == 0 || f.failed) {
        setcontext(&s.main);
    }
    switchAway();
    abort();
}

// runs the functions to completion under one generated interleaving
inline void run(Src &src, std::vector<std::function<void()>> fns, uint64_t limit = 3000000) {
    State &s = st();
    s.fibers.clear();
    s.src = &src;
    s.points = s.switches = 0;
    s.limit = limit;
    s.stuck = false;
    s.left = fns.size();
    for (auto &fn : fns) {
        auto f = std::make_unique<Fiber>();
        f->fn = std::move(fn);
        f->stack.reset(new char[128 << 10]);
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack.get();
        f->ctx.uc_stack.ss_size = 128 << 10;
        f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, (void (*)()) entry, 0);
        s.fibers.push_back(std::move(f));
    }
    s.cur = src.draw(s.fibers.size());
    s.quantum = drawQuantum();
    s.active = true;
    swapcontext(&s.main, &s.fibers[s.cur]->ctx);
    s.active = false;
    std::string err;
    bool failed = false;
    for (auto &f : s.fibers)
        if (f->failed) {
            failed = true;
            err = f->err;
            break;
        }
    // fibers cut short by a failure are leaked on purpose: their frames cannot be unwound
    if (failed)
        for (auto &f : s.fibers) f.release();
    s.fibers.clear();
    if (failed) VP_FAIL(err);
}

} // namespace sched
} // namespace vp

namespace std {
template<typename T>
struct vp_atomic {
    T v;
    typedef T value_type;
    vp_atomic() noexcept : v() {}
    constexpr vp_atomic(T x) noexcept : v(x) {}
    vp_atomic(const vp_atomic &) = delete;
    vp_atomic &operator=(const vp_atomic &) = delete;
    bool is_lock_free() const { return true; }
    T load(memory_order = memory_order_seq_cst) const {
        vp::sched::point();
        T r;
        __atomic_load(const_cast<T *>(&v), &r, __ATOMIC_SEQ_CST);
        return r;
    }
    void store(T x, memory_order = memory_order_seq_cst) {
        vp::sched::point();
        __atomic_store(&v, &x, __ATOMIC_SEQ_CST);
    }
    T exchange(T x, memory_order = memory_order_seq_cst) {
        vp::sched::point();
        T r;
        __atomic_exchange(&v, &x, &r, __ATOMIC_SEQ_CST);
        return r;
    }
    bool compare_exchange_strong(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
        vp::sched::point();
        return __atomic_compare_exchange(&v, &e, &d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    }
    bool compare_exchange_weak(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
        return compare_exchange_strong(e, d);
    }
    template<typename U>
    T fetch_add(U x, memory_order = memory_order_seq_cst) {
        vp::sched::point();
        return __atomic_fetch_add(&v, x, __ATOMIC_SEQ_CST);
    }
    template<typename U>
    T fetch_sub(U x, memory_order = memory_order_seq_cst) {
        vp::sched::point();
        return __atomic_fetch_sub(&v, x, __ATOMIC_SEQ_CST);
    }
    T fetch_or(T x, memory_order = memory_order_seq_cst) {
        vp::sched::point();
        return __atomic_fetch_or(&v, x, __ATOMIC_SEQ_CST);
    }
    T fetch_and(T x, memory_order = memory_order_seq_cst) {
        vp::sched::point();
        return __atomic_fetch_and(&v, x, __ATOMIC_SEQ_CST);
    }
    T fetch_xor(T x, memory_order = memory_order_seq_cst) {
        vp::sched::point();
        return __atomic_fetch_xor(&v, x, __ATOMIC_SEQ_CST);
    }
    T operator=(T x) {
        store(x);
        return x;
    }
    operator T() const { return load(); }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    template<typename U>
    T operator+=(U x) { return fetch_add(x) + x; }
    template<typename U>
    T operator-=(U x) { return fetch_sub(x) - x; }
    T operator|=(T x) { return fetch_or(x) | x; }
    T operator&=(T x) { return fetch_and(x) & x; }
    T operator^=(T x) { return fetch_xor(x) ^ x; }
};
typedef vp_atomic<unsigned> vp_atomic_uint;
typedef vp_atomic<int> vp_atomic_int;
typedef vp_atomic<bool> vp_atomic_bool;
typedef vp_atomic<size_t> vp_atomic_size_t;

struct vp_mutex {
    int word = 0;
    vp_mutex() = default;
    vp_mutex(const vp_mutex &) = delete;
    bool try_lock() {
        vp::sched::point();
        int e = 0;
        return __atomic_compare_exchange_n(&word, &e, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    }
    void lock() {
        while (!try_lock()) vp::sched::forceSwitch();
    }
    void unlock() {
        __atomic_store_n(&word, 0, __ATOMIC_SEQ_CST);
        if (!uncaught_exceptions()) vp::sched::point();
    }
};

struct vp_shared_mutex {
    int word = 0; // -1 writer, n readers
    vp_shared_mutex() = default;
    vp_shared_mutex(const vp_shared_mutex &) = delete;
    bool try_lock() {
        vp::sched::point();
        int e = 0;
        return __atomic_compare_exchange_n(&word, &e, -1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    }
    void lock() {
        while (!try_lock()) vp::sched::forceSwitch();
    }
    void unlock() { __atomic_store_n(&word, 0, __ATOMIC_SEQ_CST); }
    bool try_lock_shared() {
        vp::sched::point();
        int e = __atomic_load_n(&word, __ATOMIC_SEQ_CST);
        return e >= 0 && __atomic_compare_exchange_n(&word, &e, e + 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    }
    void lock_shared() {
        while (!try_lock_shared()) vp::sched::forceSwitch();
    }
    void unlock_shared() { __atomic_fetch_sub(&word, 1, __ATOMIC_SEQ_CST); }
};

// a schedule point between the two halves of a shared pointer copy would be needed to see torn copies; a copy of a
// pointer another fiber is assigning is still seen as a point in between two atomic operations
} // namespace std
