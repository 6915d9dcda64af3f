// Driver of detail::sparse_map: executes scripts (one operation per line) and records results, sizes and live objects.
#include "common.hpp"
#include <co_ecs/detail/sparse_map.hpp>

using namespace cd;
using co_ecs::detail::sparse_map;

int val_of(int v) { return v; }
template<class V> int val_of(const V& v) { return v.val(); }
struct base { virtual ~base() = default; virtual void exec(const line& l) = 0; };

template<class K, class V, int VKIND>
struct world : base {
    using map = sparse_map<K, V>;
    constexpr static bool copyable = std::is_copy_constructible_v<V>;
    std::optional<map> m[4];

    static long num(const line& l, size_t i) { if (i >= l.size()) refuse(l); return atol(l[i].c_str()); }
    static V mv(long v) { return V(int(v)); }

    std::vector<std::pair<long, long>> dump(int i, int mode) {
        std::vector<std::pair<long, long>> r;
        auto add = [&](const auto& e) { r.emplace_back(e.first, val_of(e.second)); };
        const map& c = *m[i];
        switch (mode) {
        case 0: for (auto& e : *m[i]) add(e); break;
        case 1: for (const auto& e : c) add(e); break;
        case 2: for (auto it = m[i]->begin(); it != m[i]->end();) { auto old = it++; add(*old); } break;
        case 3: for (auto it = c.cbegin(); it != c.cend(); ++it) r.emplace_back(it->first, val_of(it->second)); break;
        default: for (auto it = m[i]->cbegin(); it != m[i]->cend(); ++it) add(*it);
        }
        return r;
    }
    void exec(const line& l) override {
        const auto& op = l[0];
        std::vector<long> r;
        std::string extra;
        int i = int(num(l, 1));
        if (i < 1 || i > 3) refuse(l);
        auto need = [&](int j) -> map& { if (!m[j]) refuse(l); return *m[j]; };
        auto key = [&](size_t x) { return K(num(l, x)); };
        auto out = [&](auto it, long b) { return std::vector<long>{ long(it->first), val_of(it->second), b }; };
        std::string js = "{\"op\":\"" + op + "\",\"m\":" + l[1];
        if (op == "new") {
            m[i].reset();
            m[i].emplace();
        } else if (op == "ilist") {
            if constexpr (copyable) {
                std::vector<typename map::value_type> es;
                std::vector<std::pair<long, long>> given;
                for (size_t x = 3; x + 1 < l.size() && es.size() < 3; x += 2) {
                    es.emplace_back(key(x), mv(num(l, x + 1)));
                    given.emplace_back(num(l, x), num(l, x + 1));
                }
                m[i].reset();
                using il = std::initializer_list<typename map::value_type>;
                if (es.size() == 0) m[i].emplace(il{});
                else if (es.size() == 1) m[i].emplace(il{ es[0] });
                else if (es.size() == 2) m[i].emplace(il{ es[0], es[1] });
                else m[i].emplace(il{ es[0], es[1], es[2] });
                extra = ",\"given\":" + rows(given) + ",\"rows\":" + rows(dump(i, 1));
            } else refuse(l);
        } else if (op == "del") {
            m[i].reset();
        } else if (op == "ins") {
            auto& t = need(i);
            if (l[2] == "insert") {
                if constexpr (copyable) {
                    typename map::value_type e(key(3), mv(num(l, 4)));
                    auto [it, b] = t.insert(e);
                    r = out(it, b);
                    if (e.first != key(3) || val_of(e.second) != num(l, 4)) r.push_back(-5);   // the source is left alone
                } else refuse(l);
            } else if (l[2] == "pw") { auto [it, b] = t.emplace(key(3), int(num(l, 4))); r = out(it, b); }
            else { auto [it, b] = t.emplace(key(3), mv(num(l, 4))); r = out(it, b); }
            extra = ",\"how\":\"" + l[2] + "\",\"k\":" + l[3] + ",\"v\":" + l[4];
        } else if (op == "selfins") {
            auto& t = need(i);
            if constexpr (copyable) {
                auto it = t.find(key(3));
                if (it == t.end()) it = t.begin();
                if (it != t.end()) { auto [x, b] = t.insert(*it); r = out(x, b); }
            } else refuse(l);
            extra = ",\"k\":" + l[3];
        } else if (op == "alias") {
            auto& t = need(i);
            if constexpr (copyable) {
                auto it = t.find(key(2));
                if (it != t.end()) { auto [x, b] = t.emplace(key(3), it->second); r = out(x, b); }
            } else refuse(l);
            extra = ",\"k\":" + l[2] + ",\"k2\":" + l[3];
        } else if (op == "sub") {
            r = { val_of(need(i)[key(2)]) };
            extra = ",\"k\":" + l[2];
        } else if (op == "subw") {
            V& x = need(i)[key(2)];
            x = mv(num(l, 3));
            extra = ",\"k\":" + l[2] + ",\"v\":" + l[3];
        } else if (op == "at") {
            auto& t = need(i);
            std::vector<long> r2;
            try { r = { val_of(std::as_const(t).at(key(2))) }; } catch (const std::out_of_range&) {}
            try { r2 = { val_of(t.at(key(2))) }; } catch (const std::out_of_range&) {}
            if (r != r2) r.push_back(-5);
            extra = ",\"k\":" + l[2];
        } else if (op == "atw") {
            try { need(i).at(key(2)) = mv(num(l, 3)); r = { 1 }; } catch (const std::out_of_range&) {}
            extra = ",\"k\":" + l[2] + ",\"v\":" + l[3];
        } else if (op == "find") {
            auto it = need(i).find(key(2));
            if (it != m[i]->end()) r = { long(it->first), val_of(it->second) };
            extra = ",\"k\":" + l[2];
        } else if (op == "cfind") {
            const map& c = need(i);
            auto it = c.find(key(2));
            if (it != c.end()) r = { long(it->first), val_of(it->second) };
            extra = ",\"k\":" + l[2];
        } else if (op == "findw") {
            auto it = need(i).find(key(2));
            if (it != m[i]->end()) { it->second = mv(num(l, 3)); r = { 1 }; }
            extra = ",\"k\":" + l[2] + ",\"v\":" + l[3];
        } else if (op == "rest") {
            auto it = need(i).find(key(2));
            auto all = dump(i, 0);
            std::vector<std::pair<long, long>> tail;
            for (; it != m[i]->end(); ++it) tail.emplace_back(it->first, val_of(it->second));
            r = { long(tail.size() <= all.size() && std::equal(tail.begin(), tail.end(), all.end() - long(tail.size()))), tail.empty() ? -1 : tail[0].first };
            extra = ",\"k\":" + l[2];
        } else if (op == "count") {
            const map& c = need(i);
            r = { long(c.contains(key(2))), long(c.find(key(2)) != c.end()) };
            extra = ",\"k\":" + l[2];
        } else if (op == "probe") {
            const map& c = need(i);
            for (long k = 0; k < num(l, 2); k++) { auto it = c.find(K(k)); r.push_back(it == c.end() ? -1 : val_of(it->second)); }
            extra = ",\"ks\":" + l[2];
        } else if (op == "erase") {
            auto& t = need(i);
            if (l[2] == "own") { auto it = t.find(key(3)); r = { long(it == t.end() ? t.erase(key(3)) : t.erase(it->first)) }; }
            else r = { long(t.erase(key(3))) };
            extra = ",\"how\":\"" + l[2] + "\",\"k\":" + l[3];
        } else if (op == "clear") {
            need(i).clear();
        } else if (op == "crowd") {   // crowd i n step m x hash
            need(i);
            const long n = num(l, 2), step = num(l, 3), mod = num(l, 4), x = num(l, 5);
            auto K_ = [&](long j) { return K(j * step); };
            auto look = [&](map& c) {
                std::vector<char> met(std::size_t(n), 0);
                long good = 0, wrong = 0, found = 0;
                for (auto& e : c) {
                    long k = long(e.first);
                    if (k % step || k / step >= n || met[std::size_t(k / step)]++ || val_of(e.second) != k / step % 1000) wrong++; else good++;
                }
                for (long j = 0; j < n; j++) {
                    auto it = c.find(K_(j));
                    bool f = it != c.end();
                    if (f && val_of(it->second) == j % 1000 && long(it->first) == j * step) found++; else if (f) wrong++;
                    if (std::as_const(c).contains(K_(j)) != f) wrong++;
                }
                r.insert(r.end(), { long(c.size()), good, wrong, found });
            };
            std::optional<map> c; c.emplace();
            for (long j = 0; j < n; j++) c->emplace(K_(j), mv(j % 1000));
            look(*c);
            for (long j = x; j < n; j += mod) c->erase(K_(j));
            look(*c);
            for (long j = n - 1; j >= 0; j--) c->emplace(K_(j), mv(j % 1000));
            look(*c);
            if constexpr (copyable) { map d(std::as_const(*c)); look(d); } else look(*c);
            { map d(std::move(*c)); look(d); }
            extra = ",\"n\":" + l[2] + ",\"mod\":" + l[4] + ",\"x\":" + l[5];
        } else if (op == "reserve") {
            if (num(l, 2) % 2) need(i).reserve_dense(size_t(num(l, 2)));
            else need(i).reserve_sparse(size_t(num(l, 2)));
        } else if (op == "bump") {
            need(i);
            for (auto& [k, v] : *m[i]) v = mv(val_of(v) + num(l, 2));
            extra = ",\"d\":" + l[2];
        } else if (op == "dump") {
            need(i);
            extra = ",\"rows\":" + rows(dump(i, int(num(l, 2)))) + ",\"empty\":" + (m[i]->empty() ? "1" : "0");
        } else if (op == "copyc" || op == "copya" || op == "movec" || op == "movea" || op == "swap") {
            int j = int(num(l, 2));
            need(j);
            extra = ",\"j\":" + l[2];
            if (op == "movec") { if (i == j) refuse(l); m[i].reset(); m[i].emplace(std::move(*m[j])); }
            else if (op == "movea") { if (i == j) refuse(l); need(i) = std::move(*m[j]); }
            else if (op == "swap") { if (i != j) std::swap(need(i), *m[j]); else need(i); }
            else if constexpr (copyable) {
                if (op == "copyc") { if (i == j) refuse(l); m[i].reset(); m[i].emplace(std::as_const(*m[j])); }
                else need(i) = std::as_const(*m[j]);
            } else refuse(l);
            if (op[0] == 'm') extra += ",\"src\":" + rows(dump(j, 1));
        } else refuse(l);
        js += extra + ",\"r\":" + list(r) + ",\"ns\":[";
        for (int x = 1; x <= 3; x++) js += (x > 1 ? "," : "") + std::to_string(m[x] ? long(m[x]->size()) : -1);
        auto& tr = vt::tracker::get();
        js += "],\"lv\":" + std::to_string(VKIND >= 0 ? tr.count(VKIND) : -1) + ",\"lk\":-1,\"bad\":" + std::to_string(tr.anomalies) + "}";
        put(js);
    }
};

int main(int argc, char** argv) {
    std::unique_ptr<base> w;
    return main_loop(argc, argv, [&](const line& l) {
        if (l[0] == "reset") {
            w.reset();
            if (l[1] == "b") w = std::make_unique<world<std::uint8_t, int, -1>>();
            else if (l[1] == "h") w = std::make_unique<world<std::uint16_t, vt::M, 2>>();
            else if (l[1] == "u") w = std::make_unique<world<std::uint32_t, vt::S, 1>>();
            else if (l[1] == "l") w = std::make_unique<world<std::size_t, vt::S, 1>>();
            else if (l[1] == "B") w = std::make_unique<world<std::uint8_t, vt::S, 1>>();
            else refuse(l);
            auto& tr = vt::tracker::get();
            put("{\"op\":\"reset\",\"left\":" + std::to_string(tr.live.size()) + "}");
            tr.live.clear();
            tr.anomalies = 0;
            return;
        }
        if (!w) refuse(l);
        w->exec(l);
    });
}
