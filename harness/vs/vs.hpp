// Controlled concurrency: substitutes for the standard library's concurrency primitives under which one thread runs at
// a time, every operation is a scheduling point, and loads may return any value the C++ memory model lets them return
// (in an operational, view-based rendering of it without load buffering).  Force-included before everything else; the
// macros at the end rename the primitives inside the code under test.
#pragma once
#include "base.hpp"
#include <sched.h>
#include <unistd.h>

namespace vs {

using loc_t = uint32_t;

struct View {
    std::vector<uint32_t> ts;
    uint32_t get(loc_t l) const { return l < ts.size() ? ts[l] : 0; }
    void set(loc_t l, uint32_t v) {
        if (l >= ts.size()) ts.resize(l + 1);
        if (ts[l] < v) ts[l] = v;
    }
    void join(const View& o) {
        if (o.ts.size() > ts.size()) ts.resize(o.ts.size());
        for (size_t i = 0; i < o.ts.size(); i++)
            if (ts[i] < o.ts[i]) ts[i] = o.ts[i];
    }
    void clear() { ts.clear(); }
};

struct Thread {
    int tid{};
    enum { RUN, BLOCKED, DONE, EXT } st{ RUN };
    std::function<bool()> ready;
    bool timed{}, fired{};
    View cur, acq, rel;
    loc_t clock_loc{};
    uint32_t clk{};
    std::binary_semaphore go{ 0 };
};

// Decisions: every nondeterministic choice of an execution goes through here
struct Chooser {
    uint64_t s{ 1 };
    bool dfs{ false };
    // depth-first enumeration with a bounded number of deviations from the default choice 0
    struct Point { int n, c; };
    std::vector<Point> path;
    size_t pos{ 0 };
    int deviations{ 0 }, max_deviations{ 3 };
    double p_switch{ 0.2 }, p_stale{ 0.3 };

    uint64_t rnd() {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        return s * 0x2545F4914F6CDD1DULL >> 16;
    }
    double uni() { return (rnd() & 0xffffff) / double(0x1000000); }

    // 0 is the default
    int dfs_choose(int n) {
        if (n <= 1) return 0;
        if (pos < path.size()) {
            auto& p = path[pos++];
            if (p.n != n) { p.n = n; if (p.c >= n) p.c = 0; }
            if (p.c) deviations++;
            return p.c;
        }
        path.push_back({ n, 0 });
        pos++;
        return 0;
    }
    void begin() { pos = 0; deviations = 0; }
    // next path; false when the bounded tree is exhausted
    bool advance() {
        path.resize(pos);
        while (!path.empty()) {
            int dev = 0;
            for (size_t i = 0; i + 1 < path.size(); i++) dev += path[i].c != 0;
            auto& p = path.back();
            if (p.c + 1 < p.n && dev + 1 <= max_deviations) { p.c++; return true; }
            path.pop_back();
        }
        return false;
    }
};

struct Engine {
    std::mutex m;
    bool active{ false };
    bool weak{ true };
    std::atomic<uint32_t> epoch{ 1 };
    std::vector<std::unique_ptr<Thread>> th;
    int cur{ 0 };
    std::atomic<uint64_t> steps{ 0 };
    uint64_t limit{ 300000 };
    loc_t nloc{ 0 };
    View sc, stat;
    uint32_t statver{ 0 };
    Chooser ch;
    uint64_t streak{ 0 };
    int starved{ -1 };
    uint64_t starve_until{ 0 };
    bool starve{ false };
    void (*on_stuck)(const char*) { nullptr };
    std::atomic<uint64_t> ext_count{ 0 };
};

inline Engine E;
inline thread_local int me = -1;
inline thread_local int in_static = 0;

inline Thread& self() { return *E.th[me]; }
inline bool on() { return E.active && me >= 0; }

inline void stuck(const char* why) {
    if (E.on_stuck) E.on_stuck(why);
    _exit(66);
}

// with E.m held: the threads that may run now, apart from the timed ones that would time out
inline bool runnable(Thread& t) {
    return t.st == Thread::RUN || (t.st == Thread::BLOCKED && t.ready && t.ready());
}

// with the lock held: hand the token over to t and wait until it comes back
inline void switch_to(std::unique_lock<std::mutex>& lk, int t) {
    if (t == me) { E.cur = me; return; }
    auto* mine = &self();
    E.cur = t;
    E.streak = 0;
    E.th[t]->go.release();
    lk.unlock();
    for (;;) {
        mine->go.acquire();
        lk.lock();
        if (E.cur == me) return;
        lk.unlock();
    }
}

// picks a thread other than `except` (-1: none excluded); returns -1 if there is none
inline int pick(int except) {
    int c[64], n = 0, tm[64], k = 0;
    for (auto& t : E.th) {
        if (t->tid == except || t->st == Thread::DONE || t->st == Thread::EXT) continue;
        if (runnable(*t)) c[n++] = t->tid;
        else if (t->st == Thread::BLOCKED && t->timed) tm[k++] = t->tid;
    }
    if (E.ch.dfs) {
        if (n) return c[E.ch.dfs_choose(n)];
        if (k) { int t = tm[E.ch.dfs_choose(k)]; E.th[t]->fired = true; return t; }
        return -1;
    }
    if (k && (!n || E.ch.uni() < 0.15)) { int t = tm[E.ch.rnd() % k]; E.th[t]->fired = true; return t; }
    if (!n) return -1;
    if (E.starve && E.starved >= 0 && E.steps < E.starve_until && n > 1) {
        int i = E.ch.rnd() % n;
        if (c[i] == E.starved) i = (i + 1) % n;
        return c[i];
    }
    return c[E.ch.rnd() % n];
}

inline void settle(std::unique_lock<std::mutex>& lk) {
    // a thread the watchdog has set aside comes back
    if (E.cur != me) {
        self().st = Thread::RUN;
        auto* mine = &self();
        lk.unlock();
        for (;;) {
            mine->go.acquire();
            lk.lock();
            if (E.cur == me) return;
            lk.unlock();
        }
    }
}

// a scheduling point
inline void point() {
    if (!on()) return;
    std::unique_lock lk{ E.m };
    settle(lk);
    if (++E.steps > E.limit) stuck("no progress");
    if (in_static) return;
    bool sw = false;
    if (E.ch.dfs) {
        if (++E.streak > 400) sw = true;
        else {
            // deviate: run somebody else
            int c[64], n = 0;
            c[n++] = me;
            for (auto& t : E.th)
                if (t->tid != me && t->st != Thread::DONE && t->st != Thread::EXT && runnable(*t)) c[n++] = t->tid;
            int i = E.ch.dfs_choose(n);
            if (i) switch_to(lk, c[i]);
            return;
        }
    } else {
        if (E.starve && E.ch.uni() < 0.02) { E.starved = me; E.starve_until = E.steps + 20 + E.ch.rnd() % 300; sw = true; }
        if (E.starve && E.starved == me && E.steps < E.starve_until) sw = true;
        if (E.ch.uni() < E.ch.p_switch || ++E.streak > 400) sw = true;
    }
    if (sw) {
        int t = pick(me);
        E.streak = 0;
        if (t >= 0) switch_to(lk, t);
    }
}

// blocks until ready() holds; with timed, may give up at any time (returns false)
template<typename F> bool block(F ready, bool timed = false) {
    std::unique_lock lk{ E.m };
    settle(lk);
    auto& t = self();
    if (++E.steps > E.limit) stuck("no progress");
    if (ready()) return true;
    t.ready = ready;
    t.timed = timed;
    t.fired = false;
    t.st = Thread::BLOCKED;
    for (;;) {
        int n = pick(-1);
        if (n < 0) {
            bool ext = false;
            for (auto& x : E.th) ext |= x->st == Thread::EXT;
            if (!ext) stuck("deadlock");
            lk.unlock();
            usleep(1000);
            lk.lock();
            continue;
        }
        switch_to(lk, n);
        break;
    }
    t.st = Thread::RUN;
    t.ready = nullptr;
    return !t.fired;
}

inline void sync_static() {
    if (E.statver) self().cur.join(E.stat);
}

inline uint32_t tick() {
    auto& t = self();
    t.clk++;
    t.cur.set(t.clock_loc, t.clk);
    return t.clk;
}

inline void sc_fence() {
    auto& t = self();
    t.cur.join(t.acq);
    t.cur.join(E.sc);
    E.sc = t.cur;
    t.rel = t.cur;
}

inline bool is_acq(std::memory_order o) {
    return o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || o == std::memory_order_consume;
}
inline bool is_rel(std::memory_order o) {
    return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
}

inline void fence(std::memory_order o) {
    if (!on()) return;
    point();
    sync_static();
    auto& t = self();
    if (o == std::memory_order_seq_cst) sc_fence();
    else {
        if (is_acq(o)) t.cur.join(t.acq);
        if (is_rel(o)) t.rel = t.cur;
    }
}

// the history of one memory location
template<typename T> struct Cell {
    struct Msg { T v; uint32_t ts; View view; };
    struct Hist { uint32_t epoch; loc_t loc; std::vector<Msg> msgs; };
    mutable T v;
    mutable std::unique_ptr<Hist> h;
    mutable uint32_t birth_epoch{ 0 }, birth_clk{ 0 };
    mutable loc_t birth_loc{ 0 };

    constexpr Cell() noexcept : v{} { born(); }
    constexpr Cell(T x) noexcept : v(x) { born(); }
    constexpr void born() noexcept {
        if (!std::is_constant_evaluated() && on()) {
            birth_epoch = E.epoch;
            birth_clk = tick();
            birth_loc = self().clock_loc;
        }
    }
    Hist& hist() const {
        if (!h) { h = std::make_unique<Hist>(); h->epoch = 0; }
        if (h->epoch != E.epoch) {
            h->epoch = E.epoch;
            h->loc = E.nloc++;
            h->msgs.clear();
            h->msgs.push_back({ v, 0, {} });
        }
        return *h;
    }
    // not published to this thread yet: its construction is not visible
    bool unborn() const {
        return E.weak && birth_epoch == E.epoch && self().cur.get(birth_loc) < birth_clk;
    }
    static T garbage() {
        T x;
        memset((void*)&x, 0, sizeof x);
        if constexpr (sizeof(T) >= 4 && std::is_integral_v<T>) x = (T)-77;
        return x;
    }
    T read(std::memory_order o, bool stale_ok = true) const {
        sync_static();
        auto& t = self();
        if (unborn()) return garbage();
        auto& hh = hist();
        // the total order of sequentially consistent operations: an access sees what preceded it there at its own location
        if (o == std::memory_order_seq_cst) t.cur.set(hh.loc, E.sc.get(hh.loc));
        uint32_t lo = t.cur.get(hh.loc);
        size_t i = hh.msgs.size() - 1, first = i;
        while (first > 0 && hh.msgs[first - 1].ts >= lo) first--;
        if (hh.msgs[first].ts < lo) first++;
        int n = int(i - first) + 1;
        if (E.weak && stale_ok && n > 1) {
            if (E.ch.dfs) i -= E.ch.dfs_choose(n);
            else if (E.ch.uni() < E.ch.p_stale) i = first + E.ch.rnd() % n;
        }
        auto& msg = hh.msgs[i];
        t.cur.set(hh.loc, msg.ts);
        if (is_acq(o)) t.cur.join(msg.view);
        else t.acq.join(msg.view);
        if (o == std::memory_order_seq_cst) E.sc.set(hh.loc, msg.ts);
        return msg.v;
    }
    void append(T x, std::memory_order o, const View* chain) {
        auto& t = self();
        auto& hh = hist();
        uint32_t ts = hh.msgs.back().ts + 1;
        t.cur.set(hh.loc, ts);
        tick();
        Msg msg{ x, ts, is_rel(o) ? t.cur : t.rel };
        msg.view.set(hh.loc, ts);
        if (chain) msg.view.join(*chain);
        v = x;
        if (hh.msgs.size() >= 12) hh.msgs.erase(hh.msgs.begin(), hh.msgs.begin() + 4);
        hh.msgs.push_back(std::move(msg));
    }
    void write(T x, std::memory_order o) {
        sync_static();
        append(x, o, nullptr);
        if (o == std::memory_order_seq_cst) E.sc.set(hist().loc, hist().msgs.back().ts);
    }
    template<typename F> T rmw(F f, std::memory_order o) {
        sync_static();
        auto& t = self();
        if (unborn()) return garbage();
        auto& hh = hist();
        View view = hh.msgs.back().view;
        T old = hh.msgs.back().v;
        t.cur.set(hh.loc, hh.msgs.back().ts);
        if (is_acq(o)) t.cur.join(view);
        else t.acq.join(view);
        append(f(old), o, &view);
        if (o == std::memory_order_seq_cst) E.sc.set(hh.loc, hh.msgs.back().ts);
        return old;
    }
    static bool same(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }
    bool cas(T& expected, T desired, std::memory_order so, std::memory_order fo, bool weak_form) {
        sync_static();
        if (unborn()) { expected = garbage(); return false; }
        T latest = hist().msgs.back().v;
        bool spurious = weak_form && (E.ch.dfs ? false : E.ch.uni() < 0.1);
        if (same(latest, expected) && !spurious) {
            rmw([&](T) { return desired; }, so);
            return true;
        }
        // a failing exchange is a load; reading an old value equal to the expected one would not be a failure
        T got = read(fo);
        if (!weak_form && same(got, expected)) {
            auto& hh = hist();
            auto& msg = hh.msgs.back();
            self().cur.set(hh.loc, msg.ts);
            got = msg.v;
            if (is_acq(fo)) self().cur.join(msg.view);
        }
        expected = got;
        return false;
    }
};

// plain data of the harness: what a thread may see of it without synchronisation is what the memory model allows
template<typename T> class var {
    mutable Cell<T> c;
public:
    constexpr var(T x = {}) : c(x) {}
    T get() const { return on() ? c.read(std::memory_order_relaxed) : c.v; }
    void set(T x) { if (on()) c.write(x, std::memory_order_relaxed); else { c.v = x; } }
};

inline View& mview(std::unordered_map<const void*, View>& m, const void* p) { return m[p]; }

inline int spawn_slot() {
    std::unique_lock lk{ E.m };
    auto t = std::make_unique<Thread>();
    t->tid = int(E.th.size());
    t->clock_loc = E.nloc++;
    tick();
    t->cur = self().cur;
    t->clk = 1;
    t->cur.set(t->clock_loc, 1);
    E.th.push_back(std::move(t));
    return E.th.back()->tid;
}

struct ExitGuard {
    bool armed{ false };
    void arm() { armed = true; }
    ~ExitGuard() {
        if (!armed) return;
        // the last destructor of the thread
        std::unique_lock lk{ E.m };
        settle(lk);
        self().st = Thread::DONE;
        for (;;) {
            int n = pick(me);
            if (n >= 0) {
                E.cur = n;
                E.streak = 0;
                E.th[n]->go.release();
                break;
            }
            bool ext = false;
            for (auto& x : E.th) ext |= x->st == Thread::EXT;
            if (!ext) stuck("deadlock");
            lk.unlock();
            usleep(1000);
            lk.lock();
        }
        me = -1;
    }
};
inline thread_local ExitGuard exit_guard;

inline void wait_turn() {
    for (;;) {
        self().go.acquire();
        std::unique_lock lk{ E.m };
        if (E.cur == me) return;
    }
}

inline std::atomic<bool> dog_running{ false };
inline void start_watchdog() {
    if (dog_running.exchange(true)) return;
    std::thread([] {
        uint64_t last = ~0ull;
        uint32_t ep = 0;
        int still = 0;
        for (;;) {
            usleep(100000);
            std::unique_lock lk{ E.m };
            if (!E.active) { still = 0; continue; }
            if (E.steps != last || ep != E.epoch) { last = E.steps; ep = E.epoch; still = 0; continue; }
            if (++still < 8) continue;
            // the thread with the token is held up by something that is not under control: go on without it
            still = 0;
            auto& c = *E.th[E.cur];
            if (c.st != Thread::RUN) continue;
            int save = me;
            c.st = Thread::EXT;
            E.ext_count++;
            int n = -1;
            for (auto& t : E.th)
                if (t->st != Thread::DONE && t->st != Thread::EXT && (runnable(*t))) n = t->tid;
            for (auto& t : E.th)
                if (n < 0 && t->st == Thread::BLOCKED && t->timed) { n = t->tid; t->fired = true; }
            if (n < 0) { c.st = Thread::RUN; me = save; continue; }
            E.cur = n;
            E.th[n]->go.release();
        }
    }).detach();
}

// runs one execution
template<typename F> void execute(F body) {
    E.epoch++;
    E.th.clear();
    E.nloc = 1;
    E.sc.clear();
    E.stat.clear();
    E.statver = 0;
    E.steps = 0;
    E.streak = 0;
    E.starved = -1;
    auto t = std::make_unique<Thread>();
    t->clock_loc = E.nloc++;
    E.th.push_back(std::move(t));
    E.cur = 0;
    me = 0;
    E.active = true;
    E.ch.begin();
    body();
    E.active = false;
    me = -1;
}

inline int my_id() { return me; }
inline bool native() { return false; }
} // namespace vs

namespace std {

template<typename T> class vs_atomic {
    mutable vs::Cell<T> c;
    using mo = std::memory_order;
public:
    using value_type = T;
    using difference_type = std::conditional_t<std::is_pointer_v<T>, std::ptrdiff_t, T>;
    static constexpr bool is_always_lock_free = true;
    constexpr vs_atomic() noexcept = default;
    constexpr vs_atomic(T x) noexcept : c(x) {}
    vs_atomic(const vs_atomic&) = delete;
    vs_atomic& operator=(const vs_atomic&) = delete;
    bool is_lock_free() const noexcept { return true; }
    T load(mo o = mo::seq_cst) const noexcept {
        if (!vs::on()) return c.v;
        vs::point();
        return c.read(o);
    }
    void store(T x, mo o = mo::seq_cst) noexcept {
        if (!vs::on()) { raw(x); return; }
        vs::point();
        c.write(x, o);
        notify_point();
    }
    operator T() const noexcept { return load(); }
    T operator=(T x) noexcept { store(x); return x; }
    T exchange(T x, mo o = mo::seq_cst) noexcept { return upd([&](T) { return x; }, o); }
    bool compare_exchange_strong(T& e, T d, mo so, mo fo) noexcept { return cas(e, d, so, fo, false); }
    bool compare_exchange_weak(T& e, T d, mo so, mo fo) noexcept { return cas(e, d, so, fo, true); }
    bool compare_exchange_strong(T& e, T d, mo o = mo::seq_cst) noexcept { return cas(e, d, o, fail(o), false); }
    bool compare_exchange_weak(T& e, T d, mo o = mo::seq_cst) noexcept { return cas(e, d, o, fail(o), true); }
    template<typename D = difference_type> T fetch_add(D d, mo o = mo::seq_cst) noexcept { return upd([&](T x) { return T(x + d); }, o); }
    template<typename D = difference_type> T fetch_sub(D d, mo o = mo::seq_cst) noexcept { return upd([&](T x) { return T(x - d); }, o); }
    T fetch_and(T d, mo o = mo::seq_cst) noexcept { return upd([&](T x) { return T(x & d); }, o); }
    T fetch_or(T d, mo o = mo::seq_cst) noexcept { return upd([&](T x) { return T(x | d); }, o); }
    T fetch_xor(T d, mo o = mo::seq_cst) noexcept { return upd([&](T x) { return T(x ^ d); }, o); }
    T operator++() noexcept { return fetch_add(1) + 1; }
    T operator--() noexcept { return fetch_sub(1) - 1; }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    template<typename D> T operator+=(D d) noexcept { return fetch_add(d) + d; }
    template<typename D> T operator-=(D d) noexcept { return fetch_sub(d) - d; }
    T operator&=(T d) noexcept { return fetch_and(d) & d; }
    T operator|=(T d) noexcept { return fetch_or(d) | d; }
    T operator^=(T d) noexcept { return fetch_xor(d) ^ d; }
    void wait(T old, mo o = mo::seq_cst) const noexcept {
        if (!vs::on()) return;
        for (;;) {
            vs::point();
            if (!vs::Cell<T>::same(c.read(o), old)) return;
            vs::block([this, old] { return !vs::Cell<T>::same(c.v, old); });
            // the latest value is seen now
            c.read(o, false);
            if (!vs::Cell<T>::same(c.v, old)) return;
        }
    }
    void notify_one() noexcept {}
    void notify_all() noexcept {}
private:
    void notify_point() {}
    static mo fail(mo o) { return o == mo::acq_rel ? mo::acquire : o == mo::release ? mo::relaxed : o; }
    void raw(T x) { c.v = x; }
    template<typename F> T upd(F f, mo o) {
        if (!vs::on()) { T old = c.v; raw(f(old)); return old; }
        vs::point();
        return c.rmw(f, o);
    }
    bool cas(T& e, T d, mo so, mo fo, bool w) {
        if (!vs::on()) {
            if (vs::Cell<T>::same(c.v, e)) { raw(d); return true; }
            e = c.v;
            return false;
        }
        vs::point();
        return c.cas(e, d, so, fo, w);
    }
};

struct vs_atomic_flag {
    mutable vs_atomic<bool> b{ false };
    constexpr vs_atomic_flag() = default;
    bool test_and_set(std::memory_order o = std::memory_order_seq_cst) { return b.exchange(true, o); }
    void clear(std::memory_order o = std::memory_order_seq_cst) { b.store(false, o); }
    bool test(std::memory_order o = std::memory_order_seq_cst) const { return b.load(o); }
    void wait(bool old, std::memory_order o = std::memory_order_seq_cst) const { b.wait(old, o); }
    void notify_one() {}
    void notify_all() {}
};

template<typename T> T atomic_load(const vs_atomic<T>* a) { return a->load(); }
template<typename T> T atomic_load_explicit(const vs_atomic<T>* a, memory_order o) { return a->load(o); }
template<typename T> void atomic_store(vs_atomic<T>* a, std::type_identity_t<T> x) { a->store(x); }
template<typename T> void atomic_store_explicit(vs_atomic<T>* a, std::type_identity_t<T> x, memory_order o) { a->store(x, o); }
template<typename T> T atomic_exchange(vs_atomic<T>* a, std::type_identity_t<T> x) { return a->exchange(x); }
template<typename T> T atomic_exchange_explicit(vs_atomic<T>* a, std::type_identity_t<T> x, memory_order o) { return a->exchange(x, o); }
template<typename T> bool atomic_compare_exchange_strong(vs_atomic<T>* a, std::type_identity_t<T>* e, std::type_identity_t<T> d) { return a->compare_exchange_strong(*e, d); }
template<typename T> bool atomic_compare_exchange_weak(vs_atomic<T>* a, std::type_identity_t<T>* e, std::type_identity_t<T> d) { return a->compare_exchange_weak(*e, d); }
template<typename T> bool atomic_compare_exchange_strong_explicit(vs_atomic<T>* a, std::type_identity_t<T>* e, std::type_identity_t<T> d, memory_order s, memory_order f) { return a->compare_exchange_strong(*e, d, s, f); }
template<typename T> bool atomic_compare_exchange_weak_explicit(vs_atomic<T>* a, std::type_identity_t<T>* e, std::type_identity_t<T> d, memory_order s, memory_order f) { return a->compare_exchange_weak(*e, d, s, f); }
template<typename T, typename D> T atomic_fetch_add(vs_atomic<T>* a, D d) { return a->fetch_add(d); }
template<typename T, typename D> T atomic_fetch_sub(vs_atomic<T>* a, D d) { return a->fetch_sub(d); }
template<typename T, typename D> T atomic_fetch_add_explicit(vs_atomic<T>* a, D d, memory_order o) { return a->fetch_add(d, o); }
template<typename T, typename D> T atomic_fetch_sub_explicit(vs_atomic<T>* a, D d, memory_order o) { return a->fetch_sub(d, o); }

inline void vs_atomic_thread_fence(std::memory_order o) { vs::fence(o); }

// mutual exclusion
class vs_shared_timed_mutex {
    int owner{ -1 };
    int count{ 0 }, readers{ 0 };
    vs::View view;
    std::recursive_timed_mutex fallback;
public:
    bool recursive{ false };
    constexpr static bool vs_mutex_tag = true;
    vs_shared_timed_mutex() = default;
    vs_shared_timed_mutex(const vs_shared_timed_mutex&) = delete;
    vs_shared_timed_mutex& operator=(const vs_shared_timed_mutex&) = delete;
    bool free_for_me() const { return (owner < 0 && readers == 0) || (recursive && owner == vs::me); }
    void take() { owner = vs::me; count++; vs::self().cur.join(view); }
    void lock() {
        if (!vs::on()) return;
        vs::point();
        int who = vs::me;
        vs::block([this, who] { return (owner < 0 && readers == 0) || (recursive && owner == who); });
        take();
    }
    bool try_lock() {
        if (!vs::on()) return true;
        vs::point();
        if (!free_for_me()) return false;
        take();
        return true;
    }
    template<typename D> bool try_lock_for(const D&) {
        if (!vs::on()) return true;
        vs::point();
        int who = vs::me;
        if (!vs::block([this, who] { return (owner < 0 && readers == 0) || (recursive && owner == who); }, true)) return false;
        take();
        return true;
    }
    template<typename D> bool try_lock_until(const D& d) { return try_lock_for(d); }
    void unlock() {
        if (!vs::on()) return;
        vs::point();
        vs::tick();
        view.join(vs::self().cur);
        if (--count == 0) owner = -1;
    }
    void lock_shared() {
        if (!vs::on()) return;
        vs::point();
        vs::block([this] { return owner < 0; });
        readers++;
        vs::self().cur.join(view);
    }
    bool try_lock_shared() {
        if (!vs::on()) return true;
        vs::point();
        if (owner >= 0) return false;
        readers++;
        vs::self().cur.join(view);
        return true;
    }
    void unlock_shared() {
        if (!vs::on()) return;
        vs::point();
        vs::tick();
        view.join(vs::self().cur);
        readers--;
    }
    // for condition variables
    void release_for_wait() { vs::tick(); view.join(vs::self().cur); if (--count == 0) owner = -1; }
};
using vs_mutex = vs_shared_timed_mutex;
using vs_timed_mutex = vs_shared_timed_mutex;
using vs_shared_mutex = vs_shared_timed_mutex;
struct vs_recursive_mutex : vs_shared_timed_mutex { vs_recursive_mutex() { recursive = true; } };
using vs_recursive_timed_mutex = vs_recursive_mutex;

class vs_condition_variable_any {
    struct W { bool woken; };
    std::list<W*> ws;
    template<typename L> bool wait_impl(L& lk, bool timed) {
        if (!vs::on()) return true;
        vs::point();
        W w{ false };
        ws.push_back(&w);
        lk.unlock();
        bool r = vs::block([&w] { return w.woken; }, timed);
        ws.remove(&w);
        lk.lock();
        return r;
    }
public:
    template<typename L> void wait(L& lk) { wait_impl(lk, false); }
    template<typename L, typename P> void wait(L& lk, P p) { while (!p()) wait(lk); }
    template<typename L, typename D> std::cv_status wait_for(L& lk, const D&) { return wait_impl(lk, true) ? std::cv_status::no_timeout : std::cv_status::timeout; }
    template<typename L, typename D> std::cv_status wait_until(L& lk, const D& d) { return wait_for(lk, d); }
    template<typename L, typename D, typename P> bool wait_for(L& lk, const D& d, P p) {
        while (!p()) if (wait_impl(lk, true) == false) return p();
        return true;
    }
    template<typename L, typename D, typename P> bool wait_until(L& lk, const D& d, P p) { return wait_for(lk, d, p); }
    void notify_one() {
        if (!vs::on()) return;
        vs::point();
        for (auto* w : ws) if (!w->woken) { w->woken = true; break; }
    }
    void notify_all() {
        if (!vs::on()) return;
        vs::point();
        for (auto* w : ws) w->woken = true;
    }
};
using vs_condition_variable = vs_condition_variable_any;

template<std::ptrdiff_t Max = std::numeric_limits<int>::max()> class vs_counting_semaphore {
    std::ptrdiff_t n;
    vs::View view;
public:
    explicit vs_counting_semaphore(std::ptrdiff_t d) : n(d) {}
    static constexpr std::ptrdiff_t max() { return Max; }
    void release(std::ptrdiff_t d = 1) {
        if (!vs::on()) { n += d; return; }
        vs::point();
        vs::tick();
        view.join(vs::self().cur);
        n += d;
    }
    void got() { n--; vs::self().cur.join(view); }
    void acquire() {
        if (!vs::on()) { n--; return; }
        vs::point();
        vs::block([this] { return n > 0; });
        got();
    }
    bool try_acquire() {
        if (!vs::on()) { if (n > 0) { n--; return true; } return false; }
        vs::point();
        if (n <= 0) return false;
        got();
        return true;
    }
    template<typename D> bool try_acquire_for(const D&) {
        if (!vs::on()) { if (n > 0) { n--; return true; } return false; }
        vs::point();
        if (!vs::block([this] { return n > 0; }, true)) return false;
        got();
        return true;
    }
    template<typename D> bool try_acquire_until(const D& d) { return try_acquire_for(d); }
};
using vs_binary_semaphore = vs_counting_semaphore<1>;

class vs_latch {
    std::ptrdiff_t n;
    vs::View view;
public:
    explicit vs_latch(std::ptrdiff_t d) : n(d) {}
    void count_down(std::ptrdiff_t d = 1) {
        if (!vs::on()) { n -= d; return; }
        vs::point();
        vs::tick();
        view.join(vs::self().cur);
        n -= d;
    }
    bool try_wait() const { if (!vs::on()) return n == 0; vs::point(); if (n) return false; vs::self().cur.join(view); return true; }
    void wait() const {
        if (!vs::on()) return;
        vs::point();
        vs::block([this] { return n == 0; });
        vs::self().cur.join(view);
    }
    void arrive_and_wait(std::ptrdiff_t d = 1) { count_down(d); wait(); }
};

template<typename F = void (*)()> class vs_barrier {
    std::ptrdiff_t total, left;
    uint64_t phase{ 0 };
    vs::View view;
    std::optional<F> f;
    void completed() { left = total; phase++; if constexpr (!std::is_pointer_v<F>) if (f) (*f)(); }
public:
    explicit vs_barrier(std::ptrdiff_t d) : total(d), left(d) {}
    vs_barrier(std::ptrdiff_t d, F fn) : total(d), left(d), f(fn) {}
    uint64_t arrive(std::ptrdiff_t d = 1) {
        vs::point();
        vs::tick();
        view.join(vs::self().cur);
        auto p = phase;
        if ((left -= d) == 0) completed();
        return p;
    }
    void wait(uint64_t p) { vs::block([this, p] { return phase != p; }); vs::self().cur.join(view); }
    void arrive_and_wait() { wait(arrive()); }
    void arrive_and_drop() { total--; arrive(); }
};

// threads
class vs_thread {
    std::thread t;
    int tid{ -1 };
public:
    using id = std::thread::id;
    using native_handle_type = std::thread::native_handle_type;
    vs_thread() noexcept = default;
    template<typename F, typename... A>
        requires(!std::is_same_v<std::remove_cvref_t<F>, vs_thread>)
    explicit vs_thread(F&& f, A&&... a) {
        if (!vs::on()) {
            t = std::thread(std::forward<F>(f), std::forward<A>(a)...);
            return;
        }
        vs::point();
        tid = vs::spawn_slot();
        t = std::thread([id = tid](auto g, auto... b) {
            vs::exit_guard.arm();
            vs::me = id;
            vs::wait_turn();
            std::invoke(std::move(g), std::move(b)...);
        }, std::forward<F>(f), std::forward<A>(a)...);
        vs::point();
    }
    vs_thread(vs_thread&& o) noexcept = default;
    vs_thread& operator=(vs_thread&& o) noexcept = default;
    bool joinable() const noexcept { return t.joinable(); }
    id get_id() const noexcept { return t.get_id(); }
    auto native_handle() { return t.native_handle(); }
    static unsigned hardware_concurrency() noexcept { return 3; }
    void swap(vs_thread& o) noexcept { t.swap(o.t); std::swap(tid, o.tid); }
    void detach() { t.detach(); }
    void join() {
        if (vs::on() && tid >= 0) {
            vs::point();
            vs::block([id = tid] { return vs::E.th[id]->st == vs::Thread::DONE; });
            vs::self().cur.join(vs::E.th[tid]->cur);
        }
        t.join();
    }
};
class vs_jthread {
    std::stop_source ss{ std::nostopstate };
    vs_thread t;
public:
    using id = std::thread::id;
    vs_jthread() noexcept = default;
    template<typename F, typename... A>
        requires(!std::is_same_v<std::remove_cvref_t<F>, vs_jthread>)
    explicit vs_jthread(F&& f, A&&... a) : ss(std::stop_source{}) {
        if constexpr (std::is_invocable_v<std::decay_t<F>, std::stop_token, std::decay_t<A>...>)
            t = vs_thread(std::forward<F>(f), ss.get_token(), std::forward<A>(a)...);
        else
            t = vs_thread(std::forward<F>(f), std::forward<A>(a)...);
    }
    vs_jthread(vs_jthread&&) noexcept = default;
    vs_jthread& operator=(vs_jthread&& o) noexcept {
        if (joinable()) { request_stop(); join(); }
        ss = std::move(o.ss);
        t = std::move(o.t);
        return *this;
    }
    ~vs_jthread() { if (joinable()) { request_stop(); join(); } }
    bool joinable() const noexcept { return t.joinable(); }
    void join() { t.join(); }
    void detach() { t.detach(); }
    id get_id() const noexcept { return t.get_id(); }
    bool request_stop() noexcept { vs::point(); return ss.request_stop(); }
    std::stop_token get_stop_token() const noexcept { return ss.get_token(); }
    std::stop_source get_stop_source() noexcept { return ss; }
    static unsigned hardware_concurrency() noexcept { return 3; }
};
namespace vs_this_thread {
inline std::thread::id get_id() noexcept { return std::this_thread::get_id(); }
inline void yield() noexcept {
    if (!vs::on()) { std::this_thread::yield(); return; }
    vs::point();
}
template<typename D> void sleep_for(const D& d) {
    if (!vs::on()) { std::this_thread::sleep_for(d); return; }
    vs::point();
    vs::block([] { return false; }, true);
}
template<typename D> void sleep_until(const D&) { sleep_for(std::chrono::milliseconds(1)); }
}

struct vs_random_device {
    using result_type = unsigned;
    vs_random_device() = default;
    explicit vs_random_device(const std::string&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0u; }
    double entropy() const noexcept { return 0; }
    result_type operator()() {
        if (!vs::on()) return 12345;
        if (vs::E.ch.dfs) return 7919u * (unsigned)vs::E.steps.load() + 13u * vs::me;
        return (unsigned)vs::E.ch.rnd();
    }
};

struct vs_once_flag { vs_mutex m; bool done{ false }; };
template<typename F, typename... A> void vs_call_once(vs_once_flag& o, F&& f, A&&... a) {
    std::lock_guard lk{ o.m };
    if (!o.done) { std::invoke(std::forward<F>(f), std::forward<A>(a)...); o.done = true; }
}

} // namespace std

#define atomic vs_atomic
#define atomic_flag vs_atomic_flag
#define atomic_bool vs_atomic<bool>
#define atomic_int vs_atomic<int>
#define atomic_uint vs_atomic<unsigned>
#define atomic_long vs_atomic<long>
#define atomic_ulong vs_atomic<unsigned long>
#define atomic_size_t vs_atomic<size_t>
#define atomic_ptrdiff_t vs_atomic<ptrdiff_t>
#define atomic_int32_t vs_atomic<int32_t>
#define atomic_uint32_t vs_atomic<uint32_t>
#define atomic_int64_t vs_atomic<int64_t>
#define atomic_uint64_t vs_atomic<uint64_t>
#define atomic_thread_fence vs_atomic_thread_fence
#define mutex vs_mutex
#define timed_mutex vs_timed_mutex
#define shared_mutex vs_shared_mutex
#define shared_timed_mutex vs_shared_timed_mutex
#define recursive_mutex vs_recursive_mutex
#define recursive_timed_mutex vs_recursive_timed_mutex
#define condition_variable vs_condition_variable
#define condition_variable_any vs_condition_variable_any
#define counting_semaphore vs_counting_semaphore
#define binary_semaphore vs_binary_semaphore
#define latch vs_latch
#define barrier vs_barrier
#define thread vs_thread
#define jthread vs_jthread
#define this_thread vs_this_thread
#define random_device vs_random_device
#define once_flag vs_once_flag
#define call_once vs_call_once
