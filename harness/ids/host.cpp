// Loads and unloads binaries, asks them for ids, and has them create and view entities of one registry.
#include "../comp/common.hpp"
#include "types.hpp"
#include "module.hpp"
#include <dlfcn.h>
using namespace cd;
extern "C" const module_api* module_0();
#ifdef ENGINE
extern "C" const module_api* module_6();
#endif
static std::optional<co_ecs::registry> reg;
struct loaded { void* handle; const module_api* api; };
static std::map<int, loaded> mods;
static std::string dir;
static long num(const line& l, size_t i) { if (i >= l.size()) refuse(l); return atol(l[i].c_str()); }
static std::string captured(const module_api* a) {
    static int t[1000]; static long id[1000];
    int n = a->captured(t, id, 1000);
    std::vector<std::pair<long, long>> r;
    for (int i = 0; i < n; i++) r.emplace_back(t[i], id[i]);
    return rows(r);
}
int main(int argc, char** argv) {
    dir = argv[3];
    mods[0] = { nullptr, module_0() };
#ifdef ENGINE
    mods[6] = { nullptr, module_6() };
#endif
    return main_loop(argc, argv, [&](const line& l) {
        const auto& op = l[0];
        std::string js = "{\"op\":\"" + op + "\"";
        auto mod = [&](size_t i) { auto m = mods.find(int(num(l, i))); if (m == mods.end()) refuse(l); js += ",\"m\":" + l[i]; return m->second.api; };
        if (op == "reset") {            // one script per process; what was captured before main()
            reg.emplace();
            js += ",\"e\":" + captured(mods[0].api);
            if (mods.count(6)) js += ",\"e6\":" + captured(mods[6].api); else js += ",\"e6\":[]";
        } else if (op == "load") {
            int m = int(num(l, 1));
            if (mods.count(m)) refuse(l);
            void* h = dlopen((dir + "/libm" + l[1] + ".so").c_str(), RTLD_NOW | (l.size() > 2 && l[2] == "g" ? RTLD_GLOBAL : RTLD_LOCAL));
            if (!h) { std::cerr << dlerror() << "\n"; refuse(l); }
            auto f = (const module_api* (*)())dlsym(h, ("module_" + l[1]).c_str());
            mods[m] = { h, f() };
            js += ",\"m\":" + l[1] + ",\"e\":" + captured(mods[m].api);
        } else if (op == "unload") {    // nothing of the binary is in use any more
            mod(1);
            reg.reset();
            dlclose(mods[int(num(l, 1))].handle);
            mods.erase(int(num(l, 1)));
            reg.emplace();
        } else if (op == "id") {
            auto a = mod(1);
            js += ",\"t\":" + (num(l, 2) == 50 ? std::to_string(1050 + num(l, 1)) : l[2]) + ",\"r\":" + std::to_string(a->id(int(num(l, 2))));
        } else if (op == "meta") {
            auto a = mod(1);
            char name[200] = ""; long s = 0, al = 0;
            a->meta(int(num(l, 2)), name, &s, &al);
            std::string n = name;
            for (auto& c : n) if (c == '"' || c == '\\') c = '?';
            js += ",\"t\":" + l[2] + ",\"name\":\"" + n + "\",\"size\":" + std::to_string(s) + ",\"align\":" + std::to_string(al);
        } else if (op == "make") {
            auto a = mod(1);
            js += ",\"t\":" + l[2] + ",\"v\":" + l[3] + ",\"ok\":" + std::to_string(a->make(*reg, int(num(l, 2)), int(num(l, 3))));
        } else if (op == "view") {
            auto a = mod(1);
            static int out[2000];
            int n = a->view(*reg, int(num(l, 2)), out, 2000);
            js += ",\"t\":" + l[2] + ",\"r\":" + list(std::vector<int>(out, out + std::max(n, 0))) + ",\"n\":" + std::to_string(n);
        } else refuse(l);
        put(js + "}");
    });
}
