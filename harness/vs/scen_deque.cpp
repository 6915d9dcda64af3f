// A work-stealing queue used by its owner and by thieves.
#include <co_ecs/detail/work_stealing_queue.hpp>
using namespace cl;
namespace {
struct Node { vs::var<int> pay; int v; };

template<bool Ptr> void go(const Prog& p) {
    using T = std::conditional_t<Ptr, Node*, uint64_t>;
    auto owner = split(p.str("owner"), ',');
    auto thieves = split(p.str("thieves"), ',');
    int n = 0;
    for (auto& o : owner) if (o[0] == 'P') n += o.size() > 1 ? atoi(o.c_str() + 1) : 1;
    std::deque<Node> nodes;
    std::vector<Node*> made(n + 1, nullptr);
    co_ecs::detail::work_stealing_queue<T> q{ p.num("cap", 2) };
    std::set<Node*> all;
    int next = 0;
    auto decode = [&](std::optional<T> r, int t) {
        int v = 0, pay = 0;
        if (r) {
            v = -1;
            if constexpr (Ptr) {
                Node* nd = *r;
                for (int i = 1; i <= n; i++) if (made[i] == nd && nd) { v = i; break; }
            } else if (*r >= 1 && *r <= (uint64_t)n) v = int(*r);
            if (v > 0) pay = made[v] ? made[v]->pay.get() : -1;
        }
        log(fmt("{\"op\":\"ret\",\"t\":%d,\"v\":%d,\"pay\":%d}", t, v, pay));
        return v;
    };
    auto pop = [&] {
        log("{\"op\":\"inv\",\"t\":0,\"k\":\"pop\",\"v\":0}");
        return decode(q.pop(), 0);
    };
    auto push = [&] {
        int v = ++next;
        auto& nd = nodes.emplace_back();
        nd.v = v;
        made[v] = &nd;
        nd.pay.set(v * 10 + 1);
        log(fmt("{\"op\":\"inv\",\"t\":0,\"k\":\"push\",\"v\":%d}", v));
        if constexpr (Ptr) q.push(&nd);
        else q.push(uint64_t(v));
        log("{\"op\":\"ret\",\"t\":0,\"v\":0,\"pay\":0}");
    };
    auto owner_ops = [&](size_t from, size_t to) {
        for (size_t i = from; i < to; i++) {
            auto& o = owner[i];
            int k = o.size() > 1 ? atoi(o.c_str() + 1) : 1;
            for (int j = 0; j < k; j++) {
                if (o[0] == 'P') push();
                else if (o[0] == 'O') pop();
            }
        }
    };
    size_t start = 0;
    for (size_t i = 0; i < owner.size(); i++) if (owner[i] == "G") start = i; // the thieves start here
    owner_ops(0, start);
    {
        std::vector<std::thread> ts;
        for (size_t t = 1; t <= thieves.size(); t++) {
            int k = atoi(thieves[t - 1].c_str());
            ts.emplace_back([&, t, k] {
                for (int j = 0; j < k; j++) {
                    log(fmt("{\"op\":\"inv\",\"t\":%d,\"k\":\"steal\",\"v\":0}", int(t)));
                    decode(q.steal(), int(t));
                }
            });
        }
        owner_ops(start, owner.size());
        for (auto& t : ts) t.join();
    }
    // everybody is done: what is left must still be there
    auto sizes = [&] { log(fmt("{\"op\":\"size\",\"n\":%d,\"e\":%s,\"c\":%s}", int(q.size()), q.empty() ? "true" : "false", q.capacity() >= int64_t(q.size()) ? "true" : "false")); };
    sizes();
    bool pops = p.num("drain", 0) == 0;
    for (int i = 0; i <= n; i++) {
        int v;
        if (pops) v = pop();
        else {
            log("{\"op\":\"inv\",\"t\":0,\"k\":\"steal\",\"v\":0}");
            v = decode(q.steal(), 0);
        }
        if (v == 0) break;
    }
    sizes();
}
}
void run_deque(const Prog& p) { p.num("ptr") ? go<true>(p) : go<false>(p); }
