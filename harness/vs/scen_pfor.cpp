// parallel_for over ranges of many kinds, nested, inside tasks, repeated; parallel iteration of views.
#include <co_ecs/co_ecs.hpp>
using namespace cl;
namespace {
struct Cellv { int i; int hits; };
struct Idx { int i; };
struct Fat { int i; char pad[4000]; };
struct TagA { int x; };
struct TagB { int x; };

struct Loop {
    int id, n;
    std::vector<std::unique_ptr<vs::var<int>>> eff;
    Loop(int id, int n) : id(id), n(n) {
        for (int i = 0; i < n; i++) eff.push_back(std::make_unique<vs::var<int>>(0));
        log(fmt("{\"op\":\"loop\",\"id\":%d,\"n\":%d}", id, n));
    }
    void call(int i) {
        log(fmt("{\"op\":\"call\",\"id\":%d,\"i\":%d}", id, i));
        if (i >= 0 && i < n) eff[i]->set(eff[i]->get() + 1);
        vs::point();
    }
    void done() {
        std::vector<int> seen;
        for (auto& e : eff) seen.push_back(e->get());
        log(fmt("{\"op\":\"ret\",\"id\":%d,\"seen\":", id) + list(seen) + "}");
    }
};
std::atomic<int> ids;

void pfor(const std::string& kind, int n, int inner, int depth) {
    int id = ++ids;
    Loop L(id, n);
    auto f = [&](int i) {
        L.call(i);
        if (depth > 0) pfor(kind == "views" ? "vec" : kind, inner, inner, depth - 1);
    };
    if (kind == "vec") {
        std::vector<Cellv> v;
        for (int i = 0; i < n; i++) v.push_back({ i, 0 });
        co_ecs::parallel_for(v, [&](Cellv& c) { c.hits++; f(c.i); });
        for (auto& c : v) if (c.hits != 1) log(fmt("{\"op\":\"hits\",\"id\":%d,\"i\":%d,\"n\":%d}", id, c.i, c.hits));
    } else if (kind == "cvec") {
        std::vector<int> v;
        for (int i = 0; i < n; i++) v.push_back(i);
        const auto& cv = v;
        co_ecs::parallel_for(cv, [&](const int& i) { f(i); });
    } else if (kind == "list") {
        std::list<int> v;
        for (int i = 0; i < n; i++) v.push_back(i);
        co_ecs::parallel_for(v, [&](int i) { f(i); });
    } else if (kind == "fwd") {
        std::forward_list<int> v;
        for (int i = n; i-- > 0;) v.push_front(i);
        co_ecs::parallel_for(v, [&](int i) { f(i); });
    } else if (kind == "iota") {
        co_ecs::parallel_for(std::views::iota(0, n), [&](int i) { f(i); });
    } else if (kind == "sub") {
        std::deque<int> v;
        for (int i = -3; i < n + 3; i++) v.push_back(i);
        co_ecs::parallel_for(std::ranges::subrange(v.begin() + 3, v.end() - 3), [&](int i) { f(i); });
    } else if (kind == "filter") {
        std::vector<int> v;
        for (int i = 0; i < n; i++) { v.push_back(-1); v.push_back(i); }
        auto r = v | std::views::filter([](int x) { return x >= 0; });
        co_ecs::parallel_for(r, [&](int i) { f(i); });
    } else if (kind == "view" || kind == "cview") {
        co_ecs::registry reg;
        for (int i = 0; i < n; i++) {
            switch (i % 4) {
            case 0: reg.create<Fat>({ i }); break;
            case 1: reg.create<Fat, TagA>({ i }, { 0 }); break;
            case 2: reg.create<TagB, Fat>({ 0 }, { i }); break;
            default: reg.create<Fat, Idx>({ i }, { i }); break;
            }
            if (i % 3 == 0) reg.create<Idx>({ i });
        }
        if (kind == "view") {
            co_ecs::view<Fat&> v{ reg };
            v.par_each([&](Fat& x) { f(x.i); });
        } else {
            const auto& cr = reg;
            co_ecs::view<const co_ecs::entity&, const Fat&> v{ cr };
            v.par_each([&](const co_ecs::entity& e, const Fat& x) { f(x.i); });
        }
    } else {
        fprintf(stderr, "unknown range %s\n", kind.c_str());
        exit(3);
    }
    L.done();
}
}
void run_pfor(const Prog& p) {
    ids = 0;
    co_ecs::thread_pool pool{ size_t(p.num("w", 2)) };
    int intask = p.num("intask"), n = p.num("n"), inner = p.num("inner"), depth = p.num("depth");
    for (int r = 0; r < std::max(1, p.num("reps", 1)); r++) {
        if (intask) {
            std::vector<co_ecs::task_t*> ts;
            for (int t = 0; t < intask; t++) ts.push_back(pool.submit([&] { pfor(p.str("kind"), n, inner, depth); }));
            for (auto* t : ts) pool.wait(t);
        } else
            pfor(p.str("kind"), n + r, inner, depth);
    }
    log("{\"op\":\"fin\"}");
}
