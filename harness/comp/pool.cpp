// The pool that handles come from: behaviours of spec/HandlePoolImpl.tla on the pool of entities and on a pool of
// handles with few generations.
#include "common.hpp"
#include <co_ecs/entity.hpp>
#include <limits>
#include <map>
#include <memory>
#include <set>
using namespace cd;
namespace {
// a handle like that of entities, with fewer generations
class small {
public:
    using id_t = std::uint32_t;
    using generation_t = std::uint8_t;
    static constexpr auto invalid_id = std::numeric_limits<id_t>::max();
    static constexpr auto invalid_generation = std::numeric_limits<generation_t>::max();
    static constexpr small invalid() noexcept { return small{ invalid_id, invalid_generation }; }
    constexpr small() = default;
    explicit constexpr small(id_t id, generation_t generation = 0) noexcept : _id(id), _generation(generation) {}
    constexpr auto valid() const noexcept -> bool { return *this != invalid(); }
    constexpr auto id() const noexcept { return _id; }
    constexpr auto generation() const noexcept { return _generation; }
    constexpr auto operator<=>(const small&) const = default;
private:
    id_t _id{ invalid_id };
    generation_t _generation{ invalid_generation };
};
std::string hs(auto h) { return "\"" + std::to_string(h.id()) + "." + std::to_string(unsigned(h.generation())) + "\""; }

struct any_pool {
    virtual ~any_pool() = default;
    virtual void run(const line& l) = 0;
};
template<class Pool> struct driver : any_pool {
    using H = std::remove_cvref_t<decltype(std::declval<Pool&>().create())>;
    Pool pool;
    std::map<std::string, H> names;
    std::vector<H> given;
    std::set<std::string> open;
    void give(const char* op, const std::string& name, H h) {
        names[name] = h;
        given.push_back(h);
        put(std::string("{\"op\":\"") + op + "\",\"h\":" + hs(h) + "}");
    }
    void run(const line& l) override {
        if (l[0] == "age") { // n ids get g generations older
            int n = std::stoi(l[1]), g = std::stoi(l[2]);
            std::vector<H> now;
            for (int i = 0; i < n; i++) { now.push_back(pool.create()); given.push_back(now.back()); }
            for (int k = 0; k < g; k++) {
                for (auto h : now) pool.recycle(h);
                if (k + 1 < g) for (auto& h : now) { h = pool.create(); given.push_back(h); }
            }
            std::string s;
            std::set<H> all;
            for (auto h : given) { s += (s.empty() ? "" : ",") + hs(h); all.insert(h); }
            put("{\"op\":\"aged\",\"hs\":[" + s + "],\"count\":" + std::to_string(given.size()) + "}");
        } else if (l[0] == "create") give("create", l[1], pool.create());
        else if (l[0] == "reserve") { give("reserve", l[1], pool.reserve()); }
        else if (l[0] == "sync") { pool.flush(); put("{\"op\":\"sync\"}"); }
        else if (l[0] == "fill") put("{\"op\":\"fill\",\"h\":" + hs(names.at(l[1])) + "}");
        else if (l[0] == "recycle") {
            auto h = names.at(l[1]);
            bool was = pool.alive(h);
            pool.recycle(h);
            put("{\"op\":\"recycle\",\"h\":" + hs(h) + ",\"was\":" + (was ? "true" : "false") + "}");
        } else refuse(l);
        std::string s;
        for (auto h : given) if (pool.alive(h)) s += (s.empty() ? "" : ",") + hs(h);
        // what was never given out is not alive
        int odd = pool.alive(H::invalid()) + pool.alive(H{}) + pool.alive(H{ H::invalid_id - 1 });
        put("{\"op\":\"alive\",\"alive\":[" + s + "],\"odd\":" + std::to_string(odd) + "}");
    }
};
} // namespace
int main(int argc, char** argv) {
    std::unique_ptr<any_pool> p;
    return main_loop(argc, argv, [&](const line& l) {
        if (l[0] == "reset") {
            put("{\"op\":\"reset\"}");
            if (l[1] == "e") p = std::make_unique<driver<co_ecs::entity_pool>>();
#ifndef NOSMALL
            else p = std::make_unique<driver<co_ecs::detail::handle_pool<small>>>();
#else
            else p = std::make_unique<driver<co_ecs::entity_pool>>();
#endif
        } else p->run(l);
    });
}
