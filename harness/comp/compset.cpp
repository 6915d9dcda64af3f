// Driver of component sets, component meta sets and the archetypes of entities.
#include "common.hpp"
#include <co_ecs/co_ecs.hpp>

using namespace cd;
namespace ce = co_ecs;

// component types; many more than are used get ids so that the ids of those that are used lie in several words
template<int N> struct filler { int v; };
template<int N> struct ty { int v = N; };
constexpr int NTY = 20;
template<int... F> void fill(std::integer_sequence<int, F...>) { ((void)ce::component_id::get<filler<F>>(), ...); }
template<class F> void type_at(int t, F&& f) {
    [&]<int... I>(std::integer_sequence<int, I...>) { ((I == t ? (f.template operator()<ty<I>>(), 0) : 0), ...); }(std::make_integer_sequence<int, NTY>{});
}
std::map<std::uint32_t, int> by_id;
template<int From, int To, int Step> void lots() {
    if constexpr (From < To) { (void)ce::component_id::get<filler<From>>(); lots<From + Step, To, Step>(); }
}

struct base { virtual ~base() = default; virtual void exec(const line& l) = 0; };
static long num(const line& l, size_t i) { if (i >= l.size()) refuse(l); return atol(l[i].c_str()); }

// ---- sets of ids: component_set and dynamic_bitset with words of other sizes
template<class B> struct bits {
    std::optional<B> s;
    void ins(std::size_t x) { s->set(x); }
    void era(std::size_t x) { s->set(x, false); }
    bool has(std::size_t x) const { return s->test(x); }
    void clr() { s->clear(); }
    std::size_t hash() const { return std::hash<B>{}(*s); }
};
template<> struct bits<ce::component_set> {
    std::optional<ce::component_set> s;
    void ins(std::size_t x) { s->insert(ce::component_id_t(x)); }
    void era(std::size_t x) { s->erase(ce::component_id_t(x)); }
    bool has(std::size_t x) const { return std::as_const(*s).contains(ce::component_id_t(x)); }
    void clr() { s->clear(); }
    std::size_t hash() const { return ce::component_set_hasher{}(*s); }
};
template<class B> struct idsets : base {
    bits<B> a[5];
    void exec(const line& l) override {
        const auto& op = l[0];
        int i = int(num(l, 1));
        if (i < 1 || i > 4) refuse(l);
        std::string js = "{\"op\":\"" + op + "\",\"s\":" + l[1];
        auto& x = a[i];
        if (op != "new" && op != "copyc" && op != "movec" && !x.s) refuse(l);
        if (op == "new") {
            x.s.reset();
            if constexpr (std::is_constructible_v<B, std::size_t>) x.s.emplace(std::size_t(num(l, 2)));
            else x.s.emplace();
        } else if (op == "ins") { x.ins(std::size_t(num(l, 2))); js += ",\"x\":" + l[2]; }
        else if (op == "era") { x.era(std::size_t(num(l, 2))); js += ",\"x\":" + l[2]; }
        else if (op == "clr") x.clr();
        else if (op == "has") {
            std::vector<long> r;
            for (size_t p = 2; p < l.size(); p++) r.push_back(x.has(std::size_t(num(l, p))));
            std::string q;
            for (size_t p = 2; p < l.size(); p++) q += (p > 2 ? "," : "") + l[p];
            js += ",\"q\":[" + q + "],\"r\":" + list(r);
        } else if (op == "copyc" || op == "copya" || op == "movec") {
            auto& y = a[num(l, 2)];
            if (!y.s || &y == &x && op != "copya") refuse(l);
            if (op == "copya") *x.s = std::as_const(*y.s);
            else if (op == "copyc") { x.s.reset(); x.s.emplace(std::as_const(*y.s)); }
            else { x.s.reset(); x.s.emplace(std::move(*y.s)); y.s.reset(); }
            js += ",\"j\":" + l[2];
        } else if (op == "eq") {
            auto& y = a[num(l, 2)];
            if (!y.s) refuse(l);
            js += ",\"j\":" + l[2] + ",\"r\":" + list(std::vector<long>{ *x.s == *y.s, *y.s == *x.s, *x.s != *y.s, x.hash() == y.hash() });
        } else refuse(l);
        put(js + "}");
    }
};

// ---- sets of component descriptions
struct metasets : base {
    std::optional<ce::component_meta_set> a[5];
    template<int... I> static ce::component_meta_set mk() { return ce::component_meta_set::create<ty<I>...>(); }
    void exec(const line& l) override {
        const auto& op = l[0];
        int i = int(num(l, 1));
        if (i < 1 || i > 4) refuse(l);
        std::string js = "{\"op\":\"" + op + "\",\"s\":" + l[1];
        auto& x = a[i];
        if (op != "new" && op != "create" && op != "copyc" && op != "movec" && !x) refuse(l);
        if (op == "new") x.emplace();
        else if (op == "create") {      // one of the fixed lists of types
            std::vector<int> c;
            switch (num(l, 2) % 8) {
            case 0: c = { 0, 1 }; x = mk<0, 1>(); break;
            case 1: c = { 1, 0 }; x = mk<1, 0>(); break;
            case 2: c = { 5, 19, 3 }; x = mk<5, 19, 3>(); break;
            case 3: c = { 19, 3, 5 }; x = mk<19, 3, 5>(); break;
            case 4: c = { 7, 8, 9, 10, 11 }; x = mk<7, 8, 9, 10, 11>(); break;
            case 5: c = { 11, 9, 7, 10, 8 }; x = mk<11, 9, 7, 10, 8>(); break;
            case 6: c = { 18 }; x = mk<18>(); break;
            default: c = {}; x = mk<>();
            }
            js += ",\"c\":" + list(c);
        } else if (op == "ins" || op == "era" || op == "insm" || op == "erai") {
            type_at(int(num(l, 2)), [&]<class T>() {
                if (op == "ins") x->insert<T>();
                else if (op == "insm") x->insert(ce::component_meta::of<T>());
                else if (op == "era") x->erase<T>();
                else x->erase(ce::component_id::get<T>());
            });
            js += ",\"x\":" + l[2];
        } else if (op == "has") {
            std::vector<long> r;
            std::string q;
            for (size_t p = 2; p < l.size(); p++) {
                type_at(int(num(l, p)), [&]<class T>() {
                    bool h = x->contains<T>();
                    r.push_back(h == x->contains(ce::component_id::get<T>()) && h == x->ids().contains<T>() ? long(h) : -5);
                });
                q += (p > 2 ? "," : "") + l[p];
            }
            js += ",\"q\":[" + q + "],\"r\":" + list(r);
        } else if (op == "list") {
            std::vector<long> r, sizes;
            for (auto& m : *x) { r.push_back(by_id.count(m.id) ? by_id[m.id] : -1); }
            size_t at = 0;
            for (auto it = x->cbegin(); it != x->cend(); ++it, ++at) if (at >= r.size() || r[at] != (by_id.count((*it).id) ? by_id[(*it).id] : -1)) r.push_back(-3);
            if (at != r.size()) r.push_back(-4);
            js += ",\"r\":" + list(r) + ",\"n\":" + std::to_string(x->size());
        } else if (op == "copyc" || op == "copya" || op == "movec") {
            auto& y = a[num(l, 2)];
            if (!y || (&y == &x && op != "copya")) refuse(l);
            if (op == "copya") *x = std::as_const(*y);
            else if (op == "copyc") { x.reset(); x.emplace(std::as_const(*y)); }
            else { x.reset(); x.emplace(std::move(*y)); y.reset(); }
            js += ",\"j\":" + l[2];
        } else if (op == "eq") {
            auto& y = a[num(l, 2)];
            if (!y) refuse(l);
            ce::component_set_hasher h;
            js += ",\"j\":" + l[2] + ",\"r\":" + list(std::vector<long>{ *x == *y, *y == *x, x->ids() != y->ids(), h(x->ids()) == h(y->ids()) });
        } else refuse(l);
        put(js + "}");
    }
};

// ---- archetypes of entities
struct archs : base {
    std::optional<ce::registry> reg[2];
    struct ent { int r; ce::entity e; };
    std::map<std::string, ent> es;
    archs() { reg[0].emplace(); reg[1].emplace(); }
    template<int... I> ce::entity mk(int r) { return reg[r]->create(ty<I>{}...); }
    void exec(const line& l) override {
        const auto& op = l[0];
        std::string js = "{\"op\":\"" + op + "\"";
        auto get = [&](const std::string& n) -> ent& { auto i = es.find(n); if (i == es.end()) refuse(l); return i->second; };
        if (op == "create") {       // create name registry combination
            int r = int(num(l, 2));
            std::vector<int> c;
            ce::entity e;
#define COMBO(N, ...) case N: c = { __VA_ARGS__ }; e = mk<__VA_ARGS__>(r); break;
            switch (num(l, 3)) {
                COMBO(1, 0) COMBO(2, 0, 1) COMBO(3, 1, 0) COMBO(4, 0, 2, 4) COMBO(5, 4, 2, 0) COMBO(6, 2, 0, 4) COMBO(7, 12) COMBO(8, 12, 0) COMBO(9, 0, 12)
                COMBO(10, 17, 18, 19) COMBO(11, 19, 17, 18) COMBO(12, 5, 6, 7, 8, 9, 10, 11, 12) COMBO(13, 12, 11, 10, 9, 8, 7, 6, 5) COMBO(14, 19, 0)
                COMBO(15, 3, 14, 8, 1) COMBO(16, 1, 3, 8, 14)
            default: e = reg[r]->create();
            }
            es.insert_or_assign(l[1], ent{ r, e });
            js += ",\"h\":\"" + l[1] + "\",\"reg\":" + l[2] + ",\"c\":" + list(c);
        } else if (op == "set" || op == "remove" || op == "goi") {
            auto& n = get(l[1]);
            auto e = reg[n.r]->get_entity(n.e);
            type_at(int(num(l, 2)), [&]<class T>() {
                if (op == "set") e.template set<T>(); else if (op == "goi") (void)e.template get_or_insert<T>(); else { try { e.template remove<T>(); } catch (const ce::component_not_found&) {} }
            });
            js += ",\"h\":\"" + l[1] + "\",\"x\":" + l[2];
        } else if (op == "clone" || op == "copy" || op == "move") {   // clone from new [registry]
            auto n = get(l[1]);
            int r = op == "clone" ? n.r : int(num(l, 3));
            auto e = reg[n.r]->get_entity(n.e);
            if (op != "clone" && r == n.r) refuse(l);
            ce::entity f = op == "clone" ? ce::entity(e.clone()) : op == "copy" ? ce::entity(e.copy(*reg[r])) : ce::entity(e.move(*reg[r]));
            if (op == "move") es.erase(l[1]);
            es.insert_or_assign(l[2], ent{ r, f });
            js += ",\"h\":\"" + l[1] + "\",\"n\":\"" + l[2] + "\",\"reg\":" + std::to_string(r);
        } else if (op == "destroy") {
            auto n = get(l[1]);
            reg[n.r]->destroy(n.e);
            es.erase(l[1]);
            js += ",\"h\":\"" + l[1] + "\"";
        } else if (op == "report") {  // archetype, components listed and components contained, of every entity
            std::map<const void*, int> ids;
            js += ",\"e\":[";
            bool first = true;
            for (auto& [name, n] : es) {
                const auto& ar = (num(l, 1) & 1) ? std::as_const(*reg[n.r]).get_entity(n.e).archetype() : reg[n.r]->get_entity(n.e).archetype();
                int id = ids.try_emplace(&ar, int(ids.size())).first->second;
                std::vector<long> li, co;
                for (auto& m : ar.components()) li.push_back(by_id.count(m.id) ? by_id[m.id] : -1);
                for (int t = 0; t < NTY; t++) type_at(t, [&]<class T>() { if (ar.template contains<T>()) co.push_back(t); });
                js += std::string(first ? "" : ",") + "{\"h\":\"" + name + "\",\"a\":" + std::to_string(id) + ",\"l\":" + list(li) + ",\"c\":" + list(co) + ",\"n\":" + std::to_string(ar.components().size()) + "}";
                first = false;
            }
            js += "]";
        } else refuse(l);
        put(js + "}");
    }
};

int main(int argc, char** argv) {
    // ids of the types in use: around the boundaries of words and beyond
    lots<0, 2, 1>();
    int at = 2;
    auto use = [&]<int T>() { by_id[ce::component_id::get<ty<T>>()] = T; };
    use.operator()<5>(); use.operator()<0>();
    lots<2, 25, 1>();
    use.operator()<19>(); use.operator()<1>(); use.operator()<12>(); use.operator()<13>();
    lots<25, 60, 1>();
    use.operator()<2>(); use.operator()<3>(); use.operator()<4>(); use.operator()<6>(); use.operator()<7>();
    lots<60, 120, 1>();
    use.operator()<8>(); use.operator()<9>(); use.operator()<10>(); use.operator()<11>();
    lots<120, 300, 1>();
    use.operator()<14>(); use.operator()<15>(); use.operator()<16>(); use.operator()<17>(); use.operator()<18>();
    std::unique_ptr<base> w;
    return main_loop(argc, argv, [&](const line& l) {
        if (l[0] == "reset") {
            if (l[1] == "set") w = std::make_unique<idsets<ce::component_set>>();
            else if (l[1] == "b64") w = std::make_unique<idsets<ce::detail::dynamic_bitset<>>>();
            else if (l[1] == "b8") w = std::make_unique<idsets<ce::detail::dynamic_bitset<std::uint8_t>>>();
            else if (l[1] == "meta") w = std::make_unique<metasets>();
            else if (l[1] == "arch") w = std::make_unique<archs>();
            else refuse(l);
            put("{\"op\":\"reset\"}");
            return;
        }
        if (!w) refuse(l);
        w->exec(l);
    });
}
