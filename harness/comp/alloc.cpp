// Driver of the linear, stack and temporary allocators: executes scripts and records offsets of blocks.
#include "common.hpp"
#include <cassert>
#include <cstring>
#include <limits>
#include <thread>
#include <co_ecs/detail/allocator/linear_allocator.hpp>
#include <co_ecs/detail/allocator/stack_allocator.hpp>
#include <co_ecs/detail/allocator/temp_allocator.hpp>

using namespace cd;
namespace cde = co_ecs::detail;

template<int S, int A> struct alignas(A) obj { unsigned char b[S]; };
// element types of the temporary allocator
template<class F> auto with_type(long t, F&& f) {
    switch (t) {
    case 0: return f.template operator()<obj<1, 1>>();
    case 1: return f.template operator()<obj<2, 2>>();
    case 2: return f.template operator()<obj<4, 4>>();
    case 3: return f.template operator()<obj<8, 8>>();
    case 4: return f.template operator()<obj<16, 16>>();
    case 5: return f.template operator()<obj<24, 8>>();
    case 6: return f.template operator()<obj<64, 64>>();
    case 7: return f.template operator()<obj<128, 128>>();
    default: return f.template operator()<obj<3, 1>>();
    }
}
static long num(const line& l, size_t i) { if (i >= l.size()) refuse(l); return atol(l[i].c_str()); }

struct arena {
    constexpr static size_t GUARD = 1024;
    struct block { unsigned char* p; size_t size; int tag; long type, n; };
    std::string kind;
    unsigned char* raw = nullptr;      // guard, buffer, guard
    unsigned char* base = nullptr;
    size_t size = 0;
    std::optional<cde::linear_allocator> lin;
    std::optional<cde::stack_allocator> stk;
    std::vector<block> blocks;
    void paint(const block& b) { each(b, [&](unsigned char& x, size_t i) { x = (unsigned char)(b.tag * 31 + i * 7 + 1); }); }
    bool intact(const block& b) { bool ok = true; each(b, [&](unsigned char& x, size_t i) { ok &= x == (unsigned char)(b.tag * 31 + i * 7 + 1); }); return ok; }
    template<class F> void each(const block& b, F&& f) {
        for (size_t i = 0; i < b.size; i++) { if (i == 300 && b.size > 600) i = b.size - 300; f(b.p[i], i); }
    }
    bool guards() const {
        if (!raw) return true;
        for (auto* p = raw; p < base; p++) if (*p != 0xA5) return false;
        for (auto* p = base + size; p < base + size + GUARD; p++) if (*p != 0xA5) return false;
        return true;
    }
    ~arena() { lin.reset(); stk.reset(); free(raw); }
};
std::optional<arena> A[4];
int tags = 0;

// where the blocks of this thread's temporary allocator start, how many bytes there are, bytes before each block
struct temp_room { unsigned char* first; size_t cap; long h; };
temp_room measure() {
    cde::temp_allocator<char> t;
    auto p = t.allocate(1); auto q = t.allocate(1);
    long h = q - p - 1;
    t.deallocate(q, 1); t.deallocate(p, 1);
    size_t lo = 1, hi = size_t(1) << 30;    // lo fits
    while (lo + 1 < hi) {
        auto mid = (lo + hi) / 2;
        try { auto x = t.allocate(mid); t.deallocate(x, mid); lo = mid; } catch (const std::bad_alloc&) { hi = mid; }
    }
    return { (unsigned char*)p - h, lo + size_t(h), h };
}

int main(int argc, char** argv) {
    return main_loop(argc, argv, [&](const line& l) {
        const auto& op = l[0];
        if (op == "reset") {
            for (auto& a : A) {
                if (a && a->kind == "tmp")
                    while (a->blocks.size()) { auto b = a->blocks.back(); a->blocks.pop_back(); with_type(b.type, [&]<class T>() { cde::temp_allocator<T>{}.deallocate((T*)b.p, size_t(b.n)); }); }
                a.reset();
            }
            put("{\"op\":\"reset\"}");
            return;
        }
        int i = int(num(l, 1));
        if (i < 1 || i > 3) refuse(l);
        std::string js = "{\"op\":\"" + op + "\",\"a\":" + l[1];
        if (op == "new") {              // new i kind size base
            A[i].reset();
            auto& a = A[i].emplace();
            a.kind = l[2];
            long h = 0;
            if (a.kind == "tmp") {
                auto m = measure();
                a.base = m.first; a.size = m.cap; h = m.h;
            } else {
                a.size = size_t(num(l, 3));
                auto b = size_t(num(l, 4));
                a.raw = (unsigned char*)std::aligned_alloc(4096, (arena::GUARD * 2 + a.size + b + 8192) / 4096 * 4096);
                a.base = a.raw + arena::GUARD + b;
                memset(a.raw, 0xA5, arena::GUARD * 2 + a.size + b);
                if (a.kind == "lin") a.lin.emplace(a.base, a.size);
                else {
                    a.stk.emplace(a.base, a.size);
                    unsigned char scratch[256];
                    cde::stack_allocator s(scratch, 256);
                    auto before = s.remaining();
                    if (!s.allocate(1, 1)) refuse(l);
                    h = long(before - s.remaining()) - 1;
                }
            }
            js += ",\"kind\":\"" + a.kind + "\",\"cap\":" + std::to_string(a.size) + ",\"base\":" + std::to_string(std::uintptr_t(a.base) % 4096) + ",\"h\":" + std::to_string(h);
        } else if (op == "movec" || op == "movea") {
            int j = int(num(l, 2));
            if (j < 1 || j > 3 || j == i || !A[j] || A[j]->kind == "tmp") refuse(l);
            auto& s = *A[j];
            if (op == "movea") {
                if (!A[i] || A[i]->kind != s.kind) refuse(l);
                auto& d = *A[i];
                if (s.lin) *d.lin = std::move(*s.lin); else *d.stk = std::move(*s.stk);
            } else {
                A[i].reset();
                auto& d = A[i].emplace();
                if (s.lin) d.lin.emplace(std::move(*s.lin)); else d.stk.emplace(std::move(*s.stk));
                d.kind = s.kind;
            }
            auto& d = *A[i];
            std::swap(d.raw, s.raw); std::swap(d.base, s.base); std::swap(d.size, s.size); std::swap(d.blocks, s.blocks);
            A[j].reset();
            js += ",\"j\":" + l[2];
        } else {
            if (!A[i]) refuse(l);
            auto& a = *A[i];
            if (op == "alloc") {        // alloc i size alignment, or for the temporary allocator: alloc i type count
                void* p = nullptr;
                size_t size, align; long type = -1, n = 0;
                bool huge = l[2][0] == 'h' || l[3][0] == 'h';
                long e = huge ? atol(l[3][0] == 'h' ? l[3].c_str() + 1 : l[2].c_str() + 1) : 0;
                if (a.kind == "tmp") {
                    type = num(l, 2);
                    p = with_type(type, [&]<class T>() -> void* {
                        size_t c = huge ? (e < 8 ? std::numeric_limits<size_t>::max() / sizeof(T) + (sizeof(T) > 1 ? size_t(e) : 0) : std::numeric_limits<size_t>::max() - size_t(e - 8)) : size_t(num(l, 3));
                        size = huge ? 0 : c * sizeof(T); align = alignof(T); n = long(c);
                        try { cde::temp_allocator<T> t; cde::temp_allocator<int> u(t); return cde::temp_allocator<T>(u).allocate(c); } catch (const std::bad_alloc&) { return nullptr; }
                    });
                } else {
                    size = huge ? std::numeric_limits<size_t>::max() - size_t(e) : size_t(num(l, 2));
                    align = size_t(num(l, 3));
                    p = a.lin ? a.lin->allocate(size, align) : a.stk->allocate(size, align);
                }
                long off = -1;
                if (p) {
                    off = (unsigned char*)p - a.base;
                    // what lies outside of the buffer must not be written to
                    bool in = off >= 0 && !huge && size_t(off) + size <= a.size;
                    a.blocks.push_back({ (unsigned char*)p, in ? size : 0, ++tags, type, n });
                    a.paint(a.blocks.back());
                }
                js += ",\"size\":" + std::to_string(huge ? -1 : long(size)) + ",\"align\":" + std::to_string(align) + ",\"r\":" + std::to_string(off);
            } else if (op == "free") {
                if (a.lin) refuse(l);
                if (a.blocks.empty()) return;      // nothing to release
                auto b = a.blocks.back();
                bool ok = a.intact(b);
                a.blocks.pop_back();
                if (a.stk) a.stk->deallocate(b.p);
                else with_type(b.type, [&]<class T>() { cde::temp_allocator<T>{}.deallocate((T*)b.p, size_t(b.n)); });
                js += ",\"was\":" + std::to_string(ok);
            } else if (op == "reset_arena") {
                if (a.lin) a.lin->reset(); else if (a.stk) a.stk->reset(); else refuse(l);
                a.blocks.clear();
            } else if (op == "other") { // another thread has a temporary allocator of its own
                long r = 0, apart = 1;
                std::vector<std::pair<unsigned char*, size_t>> mine;
                for (auto& b : a.blocks) mine.emplace_back(b.p, b.size);
                std::thread([&] {
                    auto m = measure();
                    r = long(m.cap);
                    cde::temp_allocator<char> t;
                    auto n = m.cap - size_t(m.h);
                    auto p = (unsigned char*)t.allocate(n);
                    for (auto& [q, s] : mine) if (q < p + n && p < q + s) apart = 0;
                    if (apart) { p[0] = 1; p[n - 1] = 2; }
                    t.deallocate((char*)p, n);
                }).join();
                js += ",\"r\":" + std::to_string(r) + ",\"apart\":" + std::to_string(apart);
            } else refuse(l);
        }
        auto& a = *A[i];
        bool ok = true;
        for (auto& x : A) if (x) { ok &= x->guards(); for (auto& b : x->blocks) ok &= x->intact(b); }
        js += ",\"rem\":" + std::to_string(a.stk ? long(a.stk->remaining()) : -1) + ",\"ok\":" + std::to_string(ok) + "}";
        put(js);
    });
}
