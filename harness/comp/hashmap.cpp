// Driver of detail::hash_map: executes scripts (one operation per line) and records results, sizes and live objects.
#include "common.hpp"
#include <co_ecs/detail/hash_map.hpp>

using namespace cd;
using co_ecs::detail::hash_map;

// ---- keys
constexpr int KEYKIND = 5;
struct TK : vt::tracked<TK, KEYKIND> {
    int k; std::unique_ptr<int> p;
    TK() : TK(0) {}
    TK(int n) : k(n), p(new int(n)) { born(); }
    TK(const TK& r) : k(r.k), p(r.p ? new int(*r.p) : nullptr) { r.used(); born(); }
    TK(TK&& r) noexcept : k(r.k), p(std::move(r.p)) { r.used(); born(); r.k = vt::POISON; }
    TK& operator=(const TK& r) { used(); r.used(); k = r.k; auto q = r.p ? std::make_unique<int>(*r.p) : nullptr; p = std::move(q); return *this; }
    TK& operator=(TK&& r) noexcept { used(); r.used(); auto n = r.k; r.k = vt::POISON; k = n; p = std::move(r.p); return *this; }
    ~TK() { dead(); k = -888; }
    bool operator==(const TK& r) const { used(); r.used(); return k == r.k; }
    int key() const { used(); return p && *p == k ? k : vt::POISON; }
};
int key_of(std::uint32_t k) { return int(k); }
int key_of(const std::string& k) { return k.size() < 27 ? vt::POISON : atoi(k.c_str() + 26); }
int key_of(const TK& k) { return k.key(); }
template<class K> K mk(int k) { return K(k); }
template<> std::string mk<std::string>(int k) { return "a key that is not so short " + std::to_string(k); }

int val_of(int v) { return v; }
template<class V> int val_of(const V& v) { return v.val(); }

// hash functions with a state: collisions, clusters, the last buckets
struct H {
    int mode = 0;
    int width = 1;   // keys with the same quotient are equal
    std::size_t of(std::size_t k) const {
        switch (mode) {
        case 0: return k;
        case 1: return 0;
        case 2: return k / 4;
        case 3: return k * 16;
        case 4: return ~k;
        case 5: return k * 0x9E3779B97F4A7C15ull >> 7;
        case 6: return 15;
        case 7: return k % 3 + 14;
        case 8: return k % 2 ? k : 7;
        default: return (k / 3) * 5;
        }
    }
    template<class K> std::size_t operator()(const K& k) const { return of(std::size_t(key_of(k) / width)); }
};
struct E {
    int width = 1;
    template<class K> bool operator()(const K& a, const K& b) const { return key_of(a) / width == key_of(b) / width; }
};
// counts what is allocated
long allocated = 0;
template<class T> struct counting : std::allocator<T> {
    template<class U> struct rebind { using other = counting<U>; };
    counting() = default;
    template<class U> counting(const counting<U>&) noexcept {}
    T* allocate(std::size_t n) { allocated += long(n * sizeof(T)); return std::allocator<T>{}.allocate(n); }
    void deallocate(T* p, std::size_t n) { allocated -= long(n * sizeof(T)); std::allocator<T>{}.deallocate(p, n); }
};

struct base { virtual ~base() = default; virtual void exec(const line& l) = 0; };

template<class K, class V, int VKIND>
struct world : base {
    using alloc = counting<std::pair<K, V>>;
    using map = hash_map<K, V, H, E, alloc>;
    constexpr static bool copyable = std::is_copy_constructible_v<V>;
    std::optional<map> m[4];

    static long num(const line& l, size_t i) { if (i >= l.size()) refuse(l); return atol(l[i].c_str()); }
    static V mv(long v) { return V(int(v)); }

    std::vector<std::pair<long, long>> dump(int i, int mode) {
        std::vector<std::pair<long, long>> r;
        auto add = [&](const auto& e) { r.emplace_back(key_of(e.first), val_of(e.second)); };
        const map& c = *m[i];
        size_t guard = 100000;
        switch (mode) {
        case 0: for (auto& e : *m[i]) { add(e); if (!guard--) break; } break;
        case 1: for (const auto& e : c) { add(e); if (!guard--) break; } break;
        case 2: for (auto it = m[i]->begin(); it != m[i]->end() && guard--;) { auto old = it++; add(*old); } break;
        case 3: for (auto it = c.cbegin(); it != c.cend() && guard--; ++it) { r.emplace_back(key_of(it->first), val_of(it->second)); } break;
        default: for (auto it = c.begin(); it != c.end() && guard--; ++it) add(*it);
        }
        return r;
    }

    std::vector<long> ins(const line& l, int i, const std::string& how, long k, long v) {
        auto& t = *m[i];
        auto out = [&](auto it, long b) { return std::vector<long>{ key_of(it->first), val_of(it->second), b }; };
        if (how == "emplace") { auto [it, b] = t.emplace(mk<K>(int(k)), mv(v)); return out(it, b); }
        if (how == "pw") { auto [it, b] = t.emplace(std::piecewise_construct, std::forward_as_tuple(mk<K>(int(k))), std::forward_as_tuple(int(v))); return out(it, b); }
        if constexpr (copyable) {
            typename map::value_type e(mk<K>(int(k)), mv(v));
            if (how == "insert") { auto [it, b] = t.insert(e); return out(it, b); }
            if (how == "emplacec") { auto [it, b] = t.emplace(e); return out(it, b); }
            if (how == "assign") { auto [it, b] = t.insert_or_assign(e); return out(it, b); }
            if (how == "hintc") { auto before = t.size(); auto it = t.insert(t.begin(), std::as_const(e)); return out(it, t.size() > before); }
            if (how == "hintr") { auto before = t.size(); auto it = t.insert(t.end(), std::move(e)); return out(it, t.size() > before); }
        }
        refuse(l);
    }

    void exec(const line& l) override {
        const auto& op = l[0];
        std::vector<long> r;
        std::string extra;
        int i = int(num(l, 1));
        if (i < 1 || i > 3) refuse(l);
        auto need = [&](int j) -> map& { if (!m[j]) refuse(l); return *m[j]; };
        std::string js = "{\"op\":\"" + op + "\",\"m\":" + l[1];
        if (op == "new") {            // new i buckets hash width
            m[i].reset();
            int w = l.size() > 4 ? int(num(l, 4)) : 1;
            if (l.size() > 3 && num(l, 2) > 0) m[i].emplace(size_t(num(l, 2)), H{ int(num(l, 3)), w }, E{ w });
            else { m[i].emplace(); w = 1; }
            extra = ",\"w\":" + std::to_string(w);
        } else if (op == "range" || op == "ilist") {
            if constexpr (copyable) {
                std::vector<typename map::value_type> es;
                std::vector<std::pair<long, long>> given;
                int w = op == "range" ? int(num(l, 3)) : 1;
                for (size_t x = 4; x + 1 < l.size(); x += 2) {
                    es.emplace_back(mk<K>(int(num(l, x))), mv(num(l, x + 1)));
                    given.emplace_back(num(l, x), num(l, x + 1));
                }
                m[i].reset();
                if (op == "range") m[i].emplace(es.begin(), es.end(), size_t(16), H{ int(num(l, 2)), w }, E{ w }, alloc{});
                else if (es.size() == 0) m[i].emplace(std::initializer_list<typename map::value_type>{}, size_t(16), H{ int(num(l, 2)) });
                else if (es.size() == 1) m[i].emplace(std::initializer_list<typename map::value_type>{ es[0] }, size_t(16), H{ int(num(l, 2)) });
                else if (es.size() == 2) m[i].emplace(std::initializer_list<typename map::value_type>{ es[0], es[1] }, size_t(16), H{ int(num(l, 2)) });
                else m[i].emplace(std::initializer_list<typename map::value_type>{ es[0], es[1], es[2] }, size_t(16), H{ int(num(l, 2)) });
                extra = ",\"w\":" + std::to_string(w) + ",\"given\":" + rows(op == "ilist" && given.size() > 3 ? std::vector<std::pair<long, long>>(given.begin(), given.begin() + 3) : given) + ",\"rows\":" + rows(dump(i, 1));
            } else refuse(l);
        } else if (op == "del") {
            m[i].reset();
        } else if (op == "ins") {
            need(i);
            r = ins(l, i, l[2], num(l, 3), num(l, 4));
            extra = ",\"how\":\"" + l[2] + "\",\"k\":" + l[3] + ",\"v\":" + l[4];
        } else if (op == "selfins") { // inserts an element of the map into the map
            auto& t = need(i);
            if constexpr (copyable) {
                auto it = t.find(mk<K>(int(num(l, 3))));
                if (it == t.end()) it = t.begin();
                if (it != t.end()) {
                    if (l[2] == "assign") { auto [x, b] = t.insert_or_assign(*it); r = { key_of(x->first), val_of(x->second), long(b) }; }
                    else if (l[2] == "emplace") { auto [x, b] = t.emplace(it->first, it->second); r = { key_of(x->first), val_of(x->second), long(b) }; }
                    else { auto [x, b] = t.insert(*it); r = { key_of(x->first), val_of(x->second), long(b) }; }
                }
            } else refuse(l);
            extra = ",\"k\":" + l[3];
        } else if (op == "alias") {   // the value of an element is given for another key
            auto& t = need(i);
            if constexpr (copyable) {
                auto it = t.find(mk<K>(int(num(l, 2))));
                if (it != t.end()) { auto [x, b] = t.emplace(mk<K>(int(num(l, 3))), it->second); r = { key_of(x->first), val_of(x->second), long(b) }; }
            } else refuse(l);
            extra = ",\"k\":" + l[2] + ",\"k2\":" + l[3];
        } else if (op == "sub") {
            r = { val_of(need(i)[mk<K>(int(num(l, 2)))]) };
            extra = ",\"k\":" + l[2];
        } else if (op == "subw") {
            V& x = need(i)[mk<K>(int(num(l, 2)))];
            x = mv(num(l, 3));
            extra = ",\"k\":" + l[2] + ",\"v\":" + l[3];
        } else if (op == "at") {
            const map& c = need(i);
            long own = -1; // the element itself, const and not, is one and the same
            try { own = 1; auto& x = need(i).at(mk<K>(int(num(l, 2)))); own = std::addressof(x) == std::addressof(c.at(mk<K>(int(num(l, 2))))); } catch (const std::out_of_range&) {}
            try { r = { own == 1 ? long(val_of(c.at(mk<K>(int(num(l, 2)))))) : -9 }; } catch (const std::out_of_range&) {}
            extra = ",\"k\":" + l[2];
        } else if (op == "find" || op == "cfind") {
            need(i);
            K k = mk<K>(int(num(l, 2)));
            if (op == "find") { auto it = m[i]->find(k); if (it != m[i]->end()) r = { key_of(it->first), val_of(it->second) }; }
            else { auto it = std::as_const(*m[i]).find(k); if (it != std::as_const(*m[i]).end()) r = { key_of((*it).first), val_of((*it).second) }; }
            extra = ",\"k\":" + l[2];
        } else if (op == "findw") {
            auto it = need(i).find(mk<K>(int(num(l, 2))));
            if (it != m[i]->end()) { it->second = mv(num(l, 3)); r = { 1 }; }
            extra = ",\"k\":" + l[2] + ",\"v\":" + l[3];
        } else if (op == "rest") {     // from the iterator of a key to the end
            auto it = need(i).find(mk<K>(int(num(l, 2))));
            std::vector<std::pair<long, long>> all = dump(i, 0), tail;
            for (size_t g = 0; it != m[i]->end() && g < 100000; ++it, ++g) tail.emplace_back(key_of(it->first), val_of(it->second));
            r = { long(tail.size() <= all.size() && std::equal(tail.begin(), tail.end(), all.end() - long(tail.size()))), long(tail.empty() ? -1 : tail[0].first) };
            extra = ",\"k\":" + l[2];
        } else if (op == "count") {
            const map& c = need(i);
            K k = mk<K>(int(num(l, 2)));
            r = { long(c.count(k)), long(c.contains(k)) };
            extra = ",\"k\":" + l[2];
        } else if (op == "probe") {    // every key of a range
            const map& c = need(i);
            for (int k = 0; k < num(l, 2); k++) { auto it = c.find(mk<K>(k)); r.push_back(it == c.end() ? -1 : val_of((*it).second)); }
            extra = ",\"ks\":" + l[2];
        } else if (op == "erase") {
            auto& t = need(i);
            K k = mk<K>(int(num(l, 3)));
            if (l[2] == "c") t.erase(std::as_const(k));
            else if (l[2] == "l") t.erase(k);
            else if (l[2] == "r") t.erase(mk<K>(int(num(l, 3))));
            else {
                auto it = t.find(k);
                if (it != t.end()) {
                    if (l[2] == "it") t.erase(it);
                    else if (l[2] == "cit") t.erase(std::as_const(t).find(k));
                    else t.erase(it->first);      // a reference to the key inside the map
                }
            }
            extra = ",\"how\":\"" + l[2] + "\",\"k\":" + l[3];
        } else if (op == "clear") {
            need(i).clear();
        } else if (op == "crowd") {   // crowd i n step m x hash
            need(i);
            const long n = num(l, 2), step = num(l, 3), mod = num(l, 4), x = num(l, 5);
            auto K_ = [&](long j) { return mk<K>(int(j * step)); };
            auto look = [&](map& c) {
                std::vector<char> met(std::size_t(n), 0);
                long good = 0, wrong = 0, found = 0;
                for (auto& e : c) {
                    long k = long(key_of(e.first));
                    if (k % step || k / step >= n || met[std::size_t(k / step)]++ || val_of(e.second) != k / step % 1000) wrong++; else good++;
                }
                for (long j = 0; j < n; j++) {
                    auto it = c.find(K_(j));
                    bool f = it != c.end();
                    if (f && val_of(it->second) == j % 1000 && long(key_of(it->first)) == j * step) found++; else if (f) wrong++;
                    if (std::as_const(c).contains(K_(j)) != f) wrong++;
                }
                r.insert(r.end(), { long(c.size()), good, wrong, found });
            };
            std::optional<map> c; if (num(l, 6)) c.emplace(std::size_t(2), H{ int(num(l, 6)), 1 }, E{ 1 }); else c.emplace();
            for (long j = 0; j < n; j++) c->emplace(K_(j), mv(j % 1000));
            look(*c);
            for (long j = x; j < n; j += mod) c->erase(K_(j));
            look(*c);
            for (long j = n - 1; j >= 0; j--) c->emplace(K_(j), mv(j % 1000));
            look(*c);
            if constexpr (copyable) { map d(std::as_const(*c)); look(d); } else look(*c);
            { map d(std::move(*c)); look(d); }
            extra = ",\"n\":" + l[2] + ",\"mod\":" + l[4] + ",\"x\":" + l[5];
        } else if (op == "reserve") {
            need(i).reserve(size_t(num(l, 2)));
        } else if (op == "bump") {
            need(i);
            for (auto& [k, v] : *m[i]) v = mv(val_of(v) + num(l, 2));
            extra = ",\"d\":" + l[2];
        } else if (op == "dump") {
            need(i);
            extra = ",\"rows\":" + rows(dump(i, int(num(l, 2)))) + ",\"empty\":" + (m[i]->empty() ? "1" : "0");
        } else if (op == "copyc" || op == "copya" || op == "movec" || op == "movea" || op == "swap") {
            int j = int(num(l, 2));
            need(j);
            extra = ",\"j\":" + l[2];
            if (op == "movec") { if (i == j) refuse(l); m[i].reset(); m[i].emplace(std::move(*m[j])); }
            else if (op == "movea") { auto& d = need(i); d = std::move(*m[j]); }
            else if (op == "swap") { need(i).swap(std::move(*m[j])); }
            else if constexpr (copyable) {
                if (op == "copyc") { if (i == j) refuse(l); m[i].reset(); m[i].emplace(std::as_const(*m[j])); }
                else need(i) = std::as_const(*m[j]);
            } else refuse(l);
            if (op[0] == 'm') extra += ",\"src\":" + rows(dump(j, 1));
        } else refuse(l);
        js += extra + ",\"r\":" + list(r) + ",\"ns\":[";
        for (int x = 1; x <= 3; x++) js += (x > 1 ? "," : "") + std::to_string(m[x] ? long(m[x]->size()) : -1);
        auto& tr = vt::tracker::get();
        js += "],\"lv\":" + std::to_string(VKIND >= 0 ? tr.count(VKIND) : -1) + ",\"lk\":" + std::to_string(std::is_same_v<K, TK> ? tr.count(KEYKIND) : -1)
              + ",\"bad\":" + std::to_string(tr.anomalies) + "}";
        put(js);
    }
};

int main(int argc, char** argv) {
    std::unique_ptr<base> w;
    return main_loop(argc, argv, [&](const line& l) {
        if (l[0] == "reset") {
            w.reset();
            if (l[1] == "u") w = std::make_unique<world<std::uint32_t, int, -1>>();
            else if (l[1] == "s") w = std::make_unique<world<std::string, vt::S, 1>>();
            else if (l[1] == "t") w = std::make_unique<world<TK, vt::S, 1>>();
            else if (l[1] == "m") w = std::make_unique<world<TK, vt::M, 2>>();
            else refuse(l);
            auto& tr = vt::tracker::get();
            put("{\"op\":\"reset\",\"left\":" + std::to_string(long(tr.live.size()) + allocated) + "}");
            tr.live.clear();
            tr.anomalies = 0;
            return;
        }
        if (!w) refuse(l);
        w->exec(l);
    });
}
