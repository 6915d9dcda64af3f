// Handles reserved by several threads at the same time.
#include <co_ecs/co_ecs.hpp>
using namespace cl;
namespace {
struct Val { int v; };
std::string hs(co_ecs::entity e) { return std::to_string(e.id()) + "." + std::to_string(e.generation()); }
}
void run_reserve(const Prog& p) {
    co_ecs::registry reg;
    std::vector<co_ecs::entity> all;    // every handle given out
    std::vector<co_ecs::entity> filled; // the entities that can be destroyed
    std::vector<co_ecs::placeholder_entity> open, ready; // reserved: before and after the synchronisation
    auto give = [&](const char* op, co_ecs::entity e) {
        all.push_back(e);
        log(fmt("{\"op\":\"%s\",\"h\":\"", op) + hs(e) + "\"}");
    };
    auto state = [&] {
        std::string s = "{\"op\":\"state\",\"alive\":[";
        bool first = true;
        for (auto e : all) if (reg.alive(e)) { s += (first ? "\"" : ",\"") + hs(e) + "\""; first = false; }
        log(s + fmt("],\"size\":%d}", int(reg.size())));
    };
    auto tmpl = static_cast<co_ecs::entity>(reg.create<Val>({ 1 }));
    give("create", tmpl);
    for (auto& o : split(p.str("ops"), ',')) {
        int a = o.size() > 1 ? atoi(o.c_str() + 1) : 1;
        if (o[0] == 'c') {
            for (int i = 0; i < a; i++) {
                auto e = static_cast<co_ecs::entity>(reg.create<Val>({ 2 }));
                filled.push_back(e);
                give("create", e);
            }
        } else if (o[0] == 'd') { // destroy the a-th
            if (filled.empty()) continue;
            size_t k = size_t(a) % filled.size();
            auto e = filled[k];
            filled.erase(filled.begin() + k);
            log("{\"op\":\"destroy\",\"h\":\"" + hs(e) + "\"}");
            reg.get_entity(e).destroy();
        } else if (o[0] == 'r') {
            for (int i = 0; i < a; i++) {
                auto ph = reg.reserve();
                open.push_back(ph);
                give("reserve", ph.get_entity());
            }
        } else if (o[0] == 'R' || o[0] == 'C') { // R2x3: two... "Ra.b.c": threads reserving a, b, c handles each; C: through commands
            auto parts = split(o.substr(1), '.');
            std::vector<std::vector<co_ecs::placeholder_entity>> got(parts.size());
            std::vector<std::vector<co_ecs::entity>> made(parts.size());
            std::vector<std::thread> ts;
            for (size_t t = 0; t < parts.size(); t++) {
                int k = atoi(parts[t].c_str());
                ts.emplace_back([&, t, k, cmd = o[0] == 'C'] {
                    for (int i = 0; i < k; i++) {
                        if (cmd) {
                            auto e = static_cast<co_ecs::entity>(co_ecs::command_writer(reg).create<Val>({ 3 }));
                            log("{\"op\":\"reserve\",\"h\":\"" + hs(e) + "\"}");
                            made[t].push_back(e);
                        } else {
                            auto ph = reg.reserve();
                            log("{\"op\":\"reserve\",\"h\":\"" + hs(ph.get_entity()) + "\"}");
                            got[t].push_back(ph);
                        }
                    }
                });
            }
            for (auto& t : ts) t.join();
            for (auto& g : got) for (auto& ph : g) { open.push_back(ph); all.push_back(ph.get_entity()); }
            for (auto& g : made) for (auto& e : g) { all.push_back(e); filled.push_back(e); }
            if (o[0] == 'C') {
                co_ecs::command_buffer::flush(reg);
                log("{\"op\":\"sync\"}");
                for (auto& g : made) for (auto& e : g) log("{\"op\":\"fill\",\"h\":\"" + hs(e) + "\"}");
                ready.insert(ready.end(), open.begin(), open.end());
                open.clear();
            }
        } else if (o[0] == 's' || o[0] == 'F') {
            if (o[0] == 's') reg.sync();
            else co_ecs::command_buffer::flush(reg);
            log("{\"op\":\"sync\"}");
            ready.insert(ready.end(), open.begin(), open.end());
            open.clear();
        } else if (o[0] == 'f') { // fill a reserved handle with a copy of the template
            for (int i = 0; i < a && !ready.empty(); i++) {
                auto ph = ready.back();
                ready.pop_back();
                auto e = ph.get_entity();
                reg.get_entity(tmpl).clone(ph);
                log("{\"op\":\"fill\",\"h\":\"" + hs(e) + "\"}");
                filled.push_back(e);
            }
        }
        state();
    }
    log("{\"op\":\"fin\"}");
}
