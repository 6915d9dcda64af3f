// Component types of the registry driver, with lifetime tracking.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>

namespace vt {

struct boom {}; // the exception thrown by test components

// ---- table of live objects --------------------------------------------------------------------
struct tracker {
    struct obj { std::size_t size; int kind; };
    std::mutex m;
    std::map<std::uintptr_t, obj> live;
    long anomalies = 0;
    std::string first;
    static tracker& get() { static tracker* t = new tracker; return *t; }
    void note(const char* what, int kind) {
        if (!anomalies++) first = std::string(what) + " kind " + std::to_string(kind);
    }
    void add(const void* p, std::size_t size, std::size_t align, int kind) {
        std::lock_guard lk(m);
        auto a = reinterpret_cast<std::uintptr_t>(p);
        if (a % align) note("misaligned", kind);
        auto it = live.lower_bound(a);
        if (it != live.end() && it->first < a + size) note("constructed over a live object", kind);
        if (it != live.begin()) { auto pr = std::prev(it); if (pr->first + pr->second.size > a) note("overlaps a live object", kind); }
        live[a] = { size, kind };
    }
    void del(const void* p, int kind) {
        std::lock_guard lk(m);
        auto it = live.find(reinterpret_cast<std::uintptr_t>(p));
        if (it == live.end() || it->second.kind != kind) { note("destroyed an object that is not live", kind); return; }
        live.erase(it);
    }
    void use(const void* p, int kind) {
        std::lock_guard lk(m);
        auto it = live.find(reinterpret_cast<std::uintptr_t>(p));
        if (it == live.end() || it->second.kind != kind) note("used an object that is not live", kind);
    }
    long count(int kind) {
        std::lock_guard lk(m);
        long n = 0;
        for (auto& [a, o] : live) n += o.kind == kind;
        return n;
    }
};

// Base of tracked components: kind K, derived type D
template<class D, int K> struct tracked {
    void born() const { tracker::get().add(static_cast<const D*>(this), sizeof(D), alignof(D), K); }
    void dead() const { tracker::get().del(static_cast<const D*>(this), K); }
    void used() const { tracker::get().use(static_cast<const D*>(this), K); }
};

constexpr int POISON = -777;   // value of a moved-from component
constexpr int TORN = -999;     // value of a component whose bytes are inconsistent

// ---- A: plain ------------------------------------------------------------------------------------
struct A { int v; A() : v(0) {} explicit A(int x) : v(x) {} int val() const { return v; } void put(int x) { v = x; } };
// ---- T: tag ----------------------------------------------------------------------------------------
struct T { T() = default; explicit T(int) {} int val() const { return 0; } void put(int) {} };
// ---- C: three bytes --------------------------------------------------------------------------------
struct C3 { unsigned char d[3]; C3() : C3(0) {} explicit C3(int x) { put(x); }
    int val() const { int x = d[0] | d[1] << 8 | d[2] << 16; return x & 0x800000 ? x - 0x1000000 : x; }
    void put(int x) { d[0] = x & 255; d[1] = x >> 8 & 255; d[2] = x >> 16 & 255; } };
// ---- Q: 16 byte aligned ------------------------------------------------------------------------------
struct alignas(16) Q { int v, w, x, y; Q() : Q(0) {} explicit Q(int n) { put(n); }
    int val() const { return reinterpret_cast<std::uintptr_t>(this) % 16 == 0 && v == w && w == x && x == y ? v : TORN; }
    void put(int n) { v = w = x = y = n; } };
// ---- big plain components --------------------------------------------------------------------------------
template<int N> struct big { unsigned char d[N]; big() : big(0) {} explicit big(int n) { put(n); }
    int val() const { int a, b, c; std::memcpy(&a, d, 4); std::memcpy(&b, d + N - 4, 4); std::memcpy(&c, d + N / 2, 4); return a == b && b == c ? a : TORN; }
    void put(int n) { std::memset(d, n & 255, N); std::memcpy(d, &n, 4); std::memcpy(d + N - 4, &n, 4); std::memcpy(d + N / 2, &n, 4); } };
struct L1 : big<1000> { using big::big; };
struct L7 : big<7000> { using big::big; };
struct L9 : big<8500> { using big::big; };

// ---- B: tracked, throwing constructors -------------------------------------------------------------------
struct B : tracked<B, 0> {
    int v; int w; std::uint64_t x;
    B() : B(0) {}
    explicit B(int n) : v(n), w(n), x(7) { if (n == -1) throw boom{}; born(); }
    B(const B& r) : v(r.v), w(r.w), x(r.x) { r.used(); if (r.v == -2) throw boom{}; born(); }
    B(B&& r) noexcept : v(r.v), w(r.w), x(r.x) { r.used(); born(); r.v = r.w = POISON; }
    B& operator=(const B& r) { used(); r.used(); if (r.v == -2) throw boom{}; v = r.v; w = r.w; return *this; }
    B& operator=(B&& r) noexcept { used(); r.used(); int n = r.v; r.v = r.w = POISON; v = w = n; return *this; }
    ~B() { dead(); v = w = -888; }
    int val() const { used(); return v == w ? v : TORN; }
    void put(int n) { used(); v = w = n; }
};
// ---- H: tracked, 64 byte aligned, throwing copy --------------------------------------------------------------
struct alignas(64) H : tracked<H, 3> {
    int v; int pad[14]; int w;
    H() : H(0) {}
    explicit H(int n) : v(n), w(n) { if (n == -1) throw boom{}; born(); }
    H(const H& r) : v(r.v), w(r.w) { r.used(); if (r.v == -2) throw boom{}; born(); }
    H(H&& r) noexcept : v(r.v), w(r.w) { r.used(); born(); r.v = r.w = POISON; }
    H& operator=(const H& r) { used(); r.used(); if (r.v == -2) throw boom{}; v = r.v; w = r.w; return *this; }
    H& operator=(H&& r) noexcept { used(); r.used(); int n = r.v; r.v = r.w = POISON; v = w = n; return *this; }
    ~H() { dead(); v = w = -888; }
    int val() const { used(); return v == w ? v : TORN; }
    void put(int n) { used(); v = w = n; }
};
// ---- S: tracked, owns heap memory --------------------------------------------------------------------------------
struct S : tracked<S, 1> {
    std::string s; std::uint64_t x = 1; std::uint64_t y = 2;
    static std::string text(int n) { return "a string longer than any small buffer " + std::to_string(n); }
    S() : S(0) {}
    explicit S(int n) : s(text(n)) { born(); }
    S(const S& r) : s(r.s) { r.used(); born(); }
    S(S&& r) noexcept : s(std::move(r.s)) { r.used(); born(); }
    S& operator=(const S& r) { used(); r.used(); s = r.s; return *this; }
    S& operator=(S&& r) noexcept { used(); r.used(); s = std::move(r.s); return *this; }
    ~S() { dead(); }
    int val() const { used(); if (s.size() < 38) return POISON; return std::atoi(s.c_str() + 38); }
    void put(int n) { used(); s = text(n); }
};
// ---- M: tracked, move-only -----------------------------------------------------------------------------------------
struct M : tracked<M, 2> {
    std::unique_ptr<int> p; std::uint64_t x = 3;
    M() : M(0) {}
    explicit M(int n) : p(new int(n)) { born(); }
    M(M&& r) noexcept : p(std::move(r.p)) { r.used(); born(); }
    M& operator=(M&& r) noexcept { used(); r.used(); p = std::move(r.p); return *this; }
    ~M() { dead(); }
    int val() const { used(); return p ? *p : POISON; }
    void put(int n) { used(); p.reset(new int(n)); }
};
// ---- L5: tracked and large ----------------------------------------------------------------------------------------------
struct L5 : tracked<L5, 4> {
    int v; unsigned char d[4992]; int w;
    L5() : L5(0) {}
    explicit L5(int n) : v(n), w(n) { born(); }
    L5(const L5& r) : v(r.v), w(r.w) { r.used(); born(); }
    L5(L5&& r) noexcept : v(r.v), w(r.w) { r.used(); born(); r.v = r.w = POISON; }
    L5& operator=(const L5& r) { used(); r.used(); v = r.v; w = r.w; return *this; }
    L5& operator=(L5&& r) noexcept { used(); r.used(); int n = r.v; r.v = r.w = POISON; v = w = n; return *this; }
    ~L5() { dead(); v = w = -888; }
    int val() const { used(); return v == w ? v : TORN; }
    void put(int n) { used(); v = w = n; }
};

// ---- W: tracked, 256 byte aligned -----------------------------------------------------------------------------------------
struct alignas(256) W : tracked<W, 5> {
    int v; int pad[60]; int w;
    W() : W(0) {}
    explicit W(int n) : v(n), w(n) { born(); }
    W(const W& r) : v(r.v), w(r.w) { r.used(); born(); }
    W(W&& r) noexcept : v(r.v), w(r.w) { r.used(); born(); r.v = r.w = POISON; }
    W& operator=(const W& r) { used(); r.used(); v = r.v; w = r.w; return *this; }
    W& operator=(W&& r) noexcept { used(); r.used(); int n = r.v; r.v = r.w = POISON; v = w = n; return *this; }
    ~W() { dead(); v = w = -888; }
    int val() const { used(); return v == w ? v : TORN; }
    void put(int n) { used(); v = w = n; }
};
// ---- E: tracked, without members ---------------------------------------------------------------------------------------------
struct E final : tracked<E, 6> { // final: never shares its address with another object
    E() { born(); }
    explicit E(int) { born(); }
    E(const E& r) { r.used(); born(); }
    E(E&& r) noexcept { r.used(); born(); }
    E& operator=(const E& r) { used(); r.used(); return *this; }
    E& operator=(E&& r) noexcept { used(); r.used(); return *this; }
    ~E() { dead(); }
    int val() const { used(); return 0; }
    void put(int) { used(); }
};
// ---- G: aggregate -----------------------------------------------------------------------------------------------------------------
struct G { int v; int w = -5;
    int val() const { return w == -5 || w == v ? v : TORN; }
    void put(int n) { v = w = n; } };

// ---- Y: one byte, the number of a value in a table -----------------------------------------------------------------------------
class Y {
    struct table { std::mutex m; int val[256]; long uses[256]; };
    static table& tab() { static table t{}; return t; }
    unsigned char _i;
    void take(int n) {
        auto& t = tab();
        std::lock_guard lk(t.m);
        int at = -1;
        for (int i = 0; i < 256 && at < 0; i++) if (t.uses[i] > 0 && t.val[i] == n) at = i;
        for (int i = 0; i < 256 && at < 0; i++) if (t.uses[i] <= 0) at = i;
        if (at < 0) at = 0;
        t.val[at] = n; t.uses[at]++; _i = static_cast<unsigned char>(at);
    }
    void drop() { auto& t = tab(); std::lock_guard lk(t.m); t.uses[_i]--; }
public:
    Y() { take(0); }
    explicit Y(int n) { take(n); }
    Y(const Y& r) { take(r.val()); }
    Y(Y&& r) noexcept { take(r.val()); }
    Y& operator=(const Y& r) { int n = r.val(); drop(); take(n); return *this; }
    Y& operator=(Y&& r) noexcept { int n = r.val(); drop(); take(n); return *this; }
    ~Y() { drop(); }
    int val() const { auto& t = tab(); std::lock_guard lk(t.m); return t.val[_i]; }
    void put(int n) { drop(); take(n); }
};

static_assert(sizeof(A) == 4 && sizeof(B) == 16 && sizeof(T) == 1 && sizeof(S) == 48 && sizeof(M) == 16 && sizeof(H) == 64
              && sizeof(C3) == 3 && sizeof(Q) == 16 && sizeof(L1) == 1000 && sizeof(L5) == 5000 && sizeof(L7) == 7000 && sizeof(L9) == 8500
              && sizeof(W) == 256 && alignof(W) == 256 && sizeof(E) == 1 && sizeof(G) == 8 && sizeof(Y) == 1);

enum comp { cA, cB, cT, cS, cM, cH, cC, cQ, cL1, cL5, cL7, cL9, cW, cE, cG, cY, NCOMP };
inline const char* comp_names[NCOMP] = { "A", "B", "T", "S", "M", "H", "C", "Q", "L1", "L5", "L7", "L9", "W", "E", "G", "Y" };
inline int comp_by_name(const std::string& n) {
    for (int i = 0; i < NCOMP; i++) if (n == comp_names[i]) return i;
    std::fprintf(stderr, "bad component %s\n", n.c_str()); std::abort();
}
template<class X> struct comp_of;
#define VT_COMP(X, N) template<> struct comp_of<X> { static constexpr int id = N; };
VT_COMP(A, cA) VT_COMP(B, cB) VT_COMP(T, cT) VT_COMP(S, cS) VT_COMP(M, cM) VT_COMP(H, cH) VT_COMP(C3, cC) VT_COMP(Q, cQ)
VT_COMP(L1, cL1) VT_COMP(L5, cL5) VT_COMP(L7, cL7) VT_COMP(L9, cL9) VT_COMP(W, cW) VT_COMP(E, cE) VT_COMP(G, cG) VT_COMP(Y, cY)

// calls f.operator()<X>() with the type of component c
template<class F> decltype(auto) with_type(int c, F&& f) {
    switch (c) {
    case cA: return f.template operator()<A>();
    case cB: return f.template operator()<B>();
    case cT: return f.template operator()<T>();
    case cS: return f.template operator()<S>();
    case cM: return f.template operator()<M>();
    case cH: return f.template operator()<H>();
    case cC: return f.template operator()<C3>();
    case cQ: return f.template operator()<Q>();
    case cL1: return f.template operator()<L1>();
    case cL5: return f.template operator()<L5>();
    case cL7: return f.template operator()<L7>();
    case cL9: return f.template operator()<L9>();
    case cW: return f.template operator()<W>();
    case cE: return f.template operator()<E>();
    case cG: return f.template operator()<G>();
    default: return f.template operator()<Y>();
    }
}

} // namespace vt
