// One binary of several: MOD is its number, SUBSET the types it knows (bit mask of the first 25), MANY and STEP further ones.
#include "types.hpp"
#include "module.hpp"
#include <cstring>
#include <utility>
using co_ecs::component_id;

template<int T> constexpr bool knows = T < 25 ? ((SUBSET >> T) & 1) : T >= 100 && T < 100 + MANY && T % STEP == MOD % STEP;
template<unsigned MASK = 0, class F> bool with(int t, F&& f) {
    bool found = false;
    auto one = [&]<int T>() { if constexpr (knows<T> && (MASK == 0 || (T < 25 && (MASK >> T & 1)))) if (T == t) { found = true; f.template operator()<typename ty<T>::type>(); } };
    [&]<int... I>(std::integer_sequence<int, I...>) {
        if constexpr (MOD % 2) (one.template operator()<I>(), ...);
        else (one.template operator()<24 - I>(), ...);
    }(std::make_integer_sequence<int, 25>{});
    if (t >= 100) [&]<int... I>(std::integer_sequence<int, I...>) {
        if constexpr (MOD % 2) (one.template operator()<100 + I>(), ...);
        else (one.template operator()<100 + MANY - 1 - I>(), ...);
    }(std::make_integer_sequence<int, MANY>{});
    return found;
}
// ids as they are while static variables are initialized
static std::vector<std::pair<int, long>> early = [] {
    std::vector<std::pair<int, long>> r;
    for (int t = 0; t < 100 + MANY; t++) with(t, [&]<class T>() { r.emplace_back(t, long(component_id::get<T>())); });
    return r;
}();

#ifdef PRIVATE_TYPES
namespace { struct hidden { int v; char c[MOD * 8 + 1]; }; }
#endif

// whether the id is the same however it is asked for
static long id(int t) {
    long r = -1;
    with(t, [&]<class T>() {
        r = long(component_id::get<T>());
        if (r != long(component_id::value<T>) || r != long(co_ecs::component_meta::of<T>().id)) r = -2;
    });
#ifdef PRIVATE_TYPES
    if (t == 50) r = long(component_id::get<hidden>());
#endif
    return r;
}
static bool meta(int t, char* name, long* size, long* align) {
    return with(t, [&]<class T>() {
        auto m = co_ecs::component_meta::of<T>();
        std::snprintf(name, 200, "%.*s", int(m.type->name.size()), m.type->name.data());
        *size = long(m.type->size);
        *align = long(m.type->align);
    });
}
static bool make(co_ecs::registry& r, int t, int v) {
    return with<0x4075>(t, [&]<class T>() { T x{}; x.v = decltype(x.v)(v); r.create(std::move(x)); });
}
static int view(co_ecs::registry& r, int t, int* out, int n) {
    int k = 0;
    with<0x4075>(t, [&]<class T>() {
        for (auto [x] : r.view<const T&>().each()) if (k < n) out[k++] = int(x.v);
        int c = 0;
        r.view<T&>().each([&](T&) { c++; });
        if (c != k) k = -1;
    });
    return k;
}
static int captured(int* t, long* ids, int n) {
    int k = 0;
    for (auto& [x, y] : early) if (k < n) { t[k] = x; ids[k++] = y; }
    return k;
}
static const module_api api{ id, meta, make, view, captured };
#define CAT2(A, B) A##B
#define CAT(A, B) CAT2(A, B)
extern "C" __attribute__((visibility("default"))) const module_api* CAT(module_, MOD)() { return &api; }
