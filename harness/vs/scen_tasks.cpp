// Tasks that submit, parent and wait for tasks.
#include <co_ecs/thread_pool/thread_pool.hpp>
using namespace cl;
namespace {
struct Op { char k; int id, parent; };
// a task's function must be there as long as it is executed
struct Fn {
    struct Count { int n{ 0 }; };
    std::shared_ptr<Count> c{ std::make_shared<Count>() };
    bool counted{ true };
    Fn() { __atomic_add_fetch(&c->n, 1, __ATOMIC_RELAXED); }
    Fn(const Fn& o) : c(o.c) { __atomic_add_fetch(&c->n, 1, __ATOMIC_RELAXED); }
    Fn& operator=(const Fn&) = delete;
    ~Fn() { __atomic_sub_fetch(&c->n, 1, __ATOMIC_RELAXED); }
};
struct World {
    std::vector<std::vector<Op>> ops;
    std::vector<co_ecs::task_t*> ptr; // written by the submitter, read by it and by tasks it submits later
    std::vector<std::unique_ptr<vs::var<int>>> pre, eff;
    co_ecs::thread_pool* pool{};
    int n{};

    void log_end(int id, bool fn) { log(fmt("{\"op\":\"end\",\"id\":%d,\"fn\":%s}", id, fn ? "true" : "false")); }
    void body(int self, std::vector<co_ecs::task_t*> known) {
        for (auto& o : ops[self]) {
            if (o.k == 'S' || o.k == 'C') {
                pre[o.id]->set(1);
                log(fmt("{\"op\":\"sub\",\"id\":%d,\"par\":%d,\"by\":%d}", o.id, o.parent, self));
                auto f = [this, id = o.id, known, fn = Fn{}] {
                    log(fmt("{\"op\":\"start\",\"id\":%d,\"th\":%d,\"w\":%zu,\"pre\":%d}", id, vs::my_id(), co_ecs::thread_pool::current_worker().id(), pre[id]->get()));
                    auto count = fn.c;
                    World* w = this;
                    int self = id; // the rest does without what the function has captured
                    w->body(self, known);
                    w->eff[self]->set(1);
                    w->log_end(self, __atomic_load_n(&count->n, __ATOMIC_RELAXED) > 0);
                };
                auto parent = o.parent ? known[o.parent] : nullptr;
                if (o.k == 'S') known[o.id] = pool->submit(std::move(f), parent);
                else {
                    known[o.id] = co_ecs::task_pool::allocate(std::move(f), parent);
                    co_ecs::thread_pool::current_worker().submit(known[o.id]);
                }
            } else if (o.k == 'W') {
                log(fmt("{\"op\":\"wait\",\"id\":%d,\"by\":%d}", o.id, self));
                pool->wait(known[o.id]);
                std::vector<int> seen;
                for (int i = 1; i <= n; i++) if (eff[i]->get() == 1) seen.push_back(i);
                log(fmt("{\"op\":\"done\",\"id\":%d,\"by\":%d,\"seen\":", o.id, self) + list(seen) + "}");
            } else if (o.k == 'P') {
                bool complete = known[o.id]->is_completed();
                std::vector<int> seen;
                if (complete) for (int i = 1; i <= n; i++) if (eff[i]->get() == 1) seen.push_back(i);
                int par = 0;
                if (auto p = known[o.id]->parent()) {
                    par = 99;
                    for (int i = 1; i <= n; i++) if (known[i] == p) par = i;
                }
                log(fmt("{\"op\":\"poll\",\"id\":%d,\"by\":%d,\"par\":%d,\"complete\":%s,\"seen\":", o.id, self, par, complete ? "true" : "false") + list(seen) + "}");
            } else if (o.k == 'Y') {
                for (int i = 0; i < o.id; i++) vs::point();
            }
        }
    }
};
}
void run_tasks(const Prog& p) {
    // "t=0:S1.0,S2.1,W1;1:S3.1,W3" : body of main (0) and of each task
    World w;
    for (auto& part : split(p.str("t"), ';')) {
        auto c = part.find(':');
        int id = atoi(part.substr(0, c).c_str());
        if (int(w.ops.size()) <= id) w.ops.resize(id + 1);
        for (auto& t : split(part.substr(c + 1), ',')) {
            if (t.empty()) continue;
            Op o{ t[0], 0, 0 };
            sscanf(t.c_str() + 1, "%d.%d", &o.id, &o.parent);
            w.ops[id].push_back(o);
            w.n = std::max(w.n, o.k == 'S' || o.k == 'C' ? o.id : 0);
        }
    }
    // "fan=k": main submits k more tasks under the first one of them, and waits for it
    int fan = p.num("fan");
    if (fan) {
        int first = w.n + 1;
        if (w.ops.empty()) w.ops.resize(1);
        for (int i = 0; i < fan; i++) w.ops[0].push_back({ 'S', first + i, i ? first : 0 });
        w.ops[0].push_back({ 'W', first, 0 });
        w.n += fan;
    }
    w.ops.resize(w.n + 1);
    for (int i = 0; i <= w.n; i++) {
        w.pre.push_back(std::make_unique<vs::var<int>>(0));
        w.eff.push_back(std::make_unique<vs::var<int>>(0));
    }
    for (int q = 0; q < std::max(1, p.num("pools", 1)); q++) {
        size_t size = (p.num("w", 2) + q - 1) % 5 + 1;
        if (q) log("{\"op\":\"fin\"}");
        for (int i = 0; i <= w.n; i++) w.pre[i]->set(0), w.eff[i]->set(0);
        co_ecs::thread_pool pool{ size };
        w.pool = &pool;
        std::vector<int> ids;
        for (size_t i = 0; i < pool.num_workers(); i++) ids.push_back(int(pool.get_worker_by_id(i).id()));
        bool second = true;
        try {
            co_ecs::thread_pool another{ 2 };
        } catch (const std::logic_error&) {
            second = false;
        }
        log(fmt("{\"op\":\"pool\",\"n\":%zu,\"th\":%d,\"w\":%zu,\"mine\":%s,\"second\":%s,\"ids\":", size, vs::my_id(), co_ecs::thread_pool::current_worker().id(),
                &co_ecs::thread_pool::get() == &pool ? "true" : "false", second ? "true" : "false") + list(ids) + "}");
        for (int r = 0; r < std::max(1, p.num("rounds", 1)); r++) {
            if (r) {
                log("{\"op\":\"round\"}");
                for (int i = 0; i <= w.n; i++) w.pre[i]->set(0), w.eff[i]->set(0);
            }
            w.body(0, std::vector<co_ecs::task_t*>(w.n + 1, nullptr));
        }
    }
    log("{\"op\":\"fin\"}");
}
