// Replays operation scripts on real registries and logs, after every operation, its result and the
// observable state of both registries, for validation against spec/Registry.tla.
#include "world.hpp"
#include <algorithm>
#include <array>
#include <condition_variable>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <unordered_set>

namespace vt {
std::vector<query_api>& queries() { static std::vector<query_api> v; return v; }
std::vector<combo_api>& combos() { static std::vector<combo_api> v; return v; }

// ---- threads that execute one step at a time -----------------------------------------------------
class stepper {
public:
    stepper() : _t([this] { loop(); }) {}
    ~stepper() { { std::lock_guard lk(_m); _end = true; } _cv.notify_all(); _t.join(); }
    void run(std::function<void()> f) {
        std::unique_lock lk(_m);
        _f = std::move(f);
        _busy = true;
        _cv.notify_all();
        _cv.wait(lk, [this] { return !_busy; });
        if (_e) { auto e = _e; _e = nullptr; std::rethrow_exception(e); }
    }
private:
    void loop() {
        std::unique_lock lk(_m);
        while (true) {
            _cv.wait(lk, [this] { return _busy || _end; });
            if (_busy) {
                try { _f(); } catch (...) { _e = std::current_exception(); }
                _f = nullptr;
                _busy = false;
                _cv.notify_all();
            } else if (_end) {
                return;
            }
        }
    }
    std::mutex _m; std::condition_variable _cv; bool _busy = false, _end = false;
    std::function<void()> _f; std::exception_ptr _e; std::thread _t;
};

struct named { int r; ce::entity h; };

std::string q(const std::string& s) { return "\"" + s + "\""; }
template<class V, class F> std::string list(const V& v, F f) {
    std::string o = "[";
    bool first = true;
    for (auto& x : v) { if (!first) o += ","; first = false; o += f(x); }
    return o + "]";
}
std::vector<std::string> split(const std::string& s, char sep) {
    std::vector<std::string> out; std::string cur; std::istringstream in(s);
    while (std::getline(in, cur, sep)) out.push_back(cur);
    return out;
}
std::vector<std::string> names_of(const std::string& list) { return list == "-" ? std::vector<std::string>{} : split(list, ','); }

class world {
public:
    explicit world(std::ostream& out) : _out(out) {}

    void line(const std::string& text) {
        auto a = split(text, ' ');
        if (a.empty() || a[0][0] == '#') return;
        if (a[0] == "reset") { reset(a.size() > 1 ? std::stoul(a[1]) : 1); return; }
        step(a);
    }
    void finish() { drain(); }
    long events = 0;

private:
    std::ostream& _out;
    std::unique_ptr<ce::registry> _reg[2];
    std::map<std::string, named> _names;
    std::map<std::string, std::pair<int, ce::placeholder_entity>> _ph;     // reserved, not filled
    std::vector<ce::entity> _known[2];
    std::unordered_set<std::uint64_t> _all[2];                              // every handle ever given out
    long _reissued = 0;
    std::uint32_t _next_id[2] = {};                                          // above every id ever given out
    // how many handles with ids that were never given out are alive
    long phantoms(int r) {
        long n = 0;
        n += _reg[r]->alive(ce::entity{}) || _reg[r]->alive(ce::entity::invalid()) || ce::entity{}.valid() || bool(_reg[r]->get_entity(ce::entity{}));
        for (std::uint32_t id = _next_id[r]; id < _next_id[r] + 4; id++) n += _reg[r]->alive(ce::entity{ id, 0 });
        return n;
    }
    bool first_time(int r, ce::entity h) {
        _next_id[r] = std::max<std::uint32_t>(_next_id[r], h.id() + 1);
        return _all[r].insert(std::uint64_t{ h.id() } << 32 | h.generation()).second;
    }
    std::map<int, std::unique_ptr<stepper>> _threads;
    std::set<int> _ended;
    int _pend_reg = -1;
    std::set<int> _pend_threads;
    std::map<std::string, int> _owner;
    std::mt19937 _rng{ 1 };
    int var() { return static_cast<int>(_rng() & 0xffff); }

    // ---- projection ---------------------------------------------------------------------------------
    std::string project(int r) {
        auto& reg = *_reg[r];
        const auto& creg = reg;
        std::string ents, alive, arch, archc;
        std::vector<const void*> seen;
        for (auto h : _known[r]) {
            bool al = false;
            switch (var() % 4) {
            case 0: al = reg.alive(h); break;
            case 1: al = reg.get_entity(h).alive(); break;
            case 2: al = creg.get_entity(h).alive(); break;
            default: al = creg.alive(ce::entity(creg.get_entity(h))) && bool(creg.get_entity(h)) && bool(reg.get_entity(h)) && h.valid() && ce::entity(reg.get_entity(h)) == h; break;
            }
            if (al) alive += (alive.empty() ? "" : ",") + q(hs(h));
            std::map<int, int> vals;
            const ce::archetype* ar = nullptr;
            try {
                int way = var() % 3;
                if (way == 0) {
                    auto e = reg.get_entity(h);
                    for (int c = 0; c < NCOMP; c++) with_type(c, [&]<class X>() { if (e.template has<X>()) vals[c] = e.template get<X>().val(); });
                    ar = &e.archetype();
                } else if (way == 1) {
                    auto e = creg.get_entity(h);
                    e.visit([&](const ce::component_meta& m, const void* p) { vals[comp_of_meta(m)] = value_of(comp_of_meta(m), p); });
                    ar = &e.archetype();
                } else {
                    auto e = reg.get_entity(h);
                    e.visit([&](const ce::component_meta& m, void* p) { vals[comp_of_meta(m)] = value_of(comp_of_meta(m), p); });
                    ar = &e.archetype();
                }
            } catch (const std::exception&) {
                continue;
            }
            std::string cs;
            for (auto [c, v] : vals) cs += (cs.empty() ? "" : ",") + (q(comp_names[c]) + ":" + std::to_string(v));
            ents += (ents.empty() ? "" : ",") + q(hs(h)) + ":{" + cs + "}";
            auto it = std::find(seen.begin(), seen.end(), ar);
            if (it == seen.end()) {
                seen.push_back(ar);
                it = seen.end() - 1;
                std::vector<int> ms;
                for (const auto& m : ar->components()) ms.push_back(comp_of_meta(m));
                archc += (archc.empty() ? "" : ",") + list(ms, [](int c) { return q(comp_names[c]); });
            }
            arch += (arch.empty() ? "" : ",") + q(hs(h)) + ":" + std::to_string(it - seen.begin());
        }
        if (creg.empty() != (creg.size() == 0)) tracker::get().note("empty() and size() disagree", -1);
        return "{\"ents\":{" + ents + "},\"size\":" + std::to_string(creg.size()) + ",\"phantoms\":" + std::to_string(phantoms(r)) + ",\"alive\":[" + alive + "],\"arch\":{" + arch
               + "},\"archc\":[" + archc + "]}";
    }
    static int comp_of_meta(const ce::component_meta& m) {
        for (int c = 0; c < NCOMP; c++) {
            if (with_type(c, [&]<class X>() { return m.id == ce::component_id::value<X>; })) return c;
        }
        return cA;
    }
    static int value_of(int c, const void* p) { return with_type(c, [&]<class X>() { return static_cast<const X*>(p)->val(); }); }

    std::string state() {
        std::string regs[2] = { project(0), project(1) };
        auto& t = tracker::get();
        static const std::pair<const char*, int> kinds[] = { { "B", 0 }, { "S", 1 }, { "M", 2 }, { "H", 3 }, { "L5", 4 }, { "W", 5 }, { "E", 6 } };
        std::string live;
        for (auto [n, k] : kinds) live += (live.empty() ? "" : ",") + (q(n) + ":" + std::to_string(t.count(k)));
        if (t.anomalies) std::cerr << "anomaly: " << t.first << "\n";
        return "{\"regs\":[" + regs[0] + "," + regs[1] + "],\"live\":{" + live + "},\"anom\":" + std::to_string(t.anomalies) + ",\"reissued\":" + std::to_string(_reissued) + "}";
    }

    // many entities with component X: per observation how many there are, how many different ones, how many with a wrong value
    template<class X> static void crowd(int n, int m, int x, int n2, std::vector<std::array<long, 3>>& seen) {
        ce::registry reg;
        std::vector<ce::entity> es;
        auto key = [](ce::entity e) { return std::uint64_t{ e.id() } << 32 | e.generation(); };
        std::unordered_map<std::uint64_t, int> want;
        for (int i = 0; i < n; i++) { es.push_back(reg.create<X>(X(i))); want[key(es.back())] = i; }
        for (int i = x; i < n; i += m) { reg.destroy(es[i]); want.erase(key(es[i])); }
        for (int i = 0; i < n2; i++) { es.push_back(reg.create<X>(X(n + i))); want[key(es.back())] = n + i; }
        std::mutex lk;
        auto observe = [&](auto&& run) {
            std::array<long, 3> o{ 0, 0, 0 };
            std::unordered_set<std::uint64_t> hs;
            run([&](const ce::entity& e, int v) {
                std::lock_guard g(lk);
                o[0]++;
                hs.insert(key(e));
                auto it = want.find(key(e));
                if (it == want.end() || it->second != v) o[2]++;
            });
            o[1] = static_cast<long>(hs.size());
            seen.push_back(o);
        };
        auto add = [&] { for (auto& [h, v] : want) v++; };
        using cview = ce::view<const ce::entity&, const X&>;
        using mview = ce::view<const ce::entity&, X&>;
        observe([&](auto f) { cview v{ reg }; v.each([&](const ce::entity& e, const X& c) { f(e, c.val()); }); });
        observe([&](auto f) { cview v{ reg }; for (auto&& [e, c] : v.each()) f(e, c.val()); });
        observe([&](auto f) { cview v{ reg }; v.par_each([&](const ce::entity& e, const X& c) { f(e, c.val()); }); });
        observe([&](auto f) { mview v{ reg }; v.par_each([&](const ce::entity& e, X& c) { f(e, c.val()); c.put(c.val() + 1); }); });
        add();
        observe([&](auto f) { mview v{ reg }; v.each([&](const ce::entity& e, X& c) { f(e, c.val()); c.put(c.val() + 1); }); });
        add();
        observe([&](auto f) { mview v{ reg }; for (auto&& ch : v.chunks()) for (auto&& [e, c] : ch) { f(e, c.val()); c.put(c.val() + 1); } });
        add();
        observe([&](auto f) { for (auto e : es) if (reg.alive(e)) f(e, reg.get_entity(e).template get<X>().val()); });
        seen.push_back({ static_cast<long>(reg.size()), static_cast<long>(reg.size()), 0 });
    }

    // ---- executions -----------------------------------------------------------------------------------
    void log(const std::string& fields, const std::string& res, const std::string& ret) {
        _out << "{" << fields << ",\"res\":" << q(res) << ",\"ret\":" << (ret.empty() ? "\"\"" : ret) << ",\"st\":" << state() << "}\n";
        _out.flush();
        events++;
    }
    void drain() {
        for (int i = 0; i < 64 && _pend_reg >= 0; i++) step({ "flush", std::to_string(_pend_reg) });
        _threads.clear();
        _ended.clear();
    }
    void reset(unsigned seed) {
        drain();
        _rng.seed(seed);
        _names.clear();
        for (int r : { 0, 1 }) _names["null" + std::to_string(r)] = { r, ce::entity{} };
        _ph.clear(); _owner.clear(); _pend_threads.clear(); _pend_reg = -1;
        _reissued = 0;
        for (int r : { 0, 1 }) { _known[r].clear(); _all[r].clear(); _next_id[r] = 0; _reg[r].reset(); }
        for (int r : { 0, 1 }) _reg[r] = std::make_unique<ce::registry>();
        tracker::get().anomalies = 0;
        _out << "{\"op\":\"reset\",\"st\":" << state() << "}\n";
        _out.flush();
        events++;
    }
    template<class F> std::string attempt(F&& f) {
        try { f(); return "ok"; }
        catch (const ce::entity_not_found&) { return "entity_not_found"; }
        catch (const ce::component_not_found&) { return "component_not_found"; }
        catch (const ce::insufficient_chunk_size&) { return "insufficient_chunk_size"; }
        catch (const std::invalid_argument&) { return "invalid_argument"; }
        catch (const std::out_of_range&) { return "out_of_range"; }
        catch (const boom&) { return "boom"; }
        catch (...) { return "other"; }
    }
    void know(int r, ce::entity h) {
        if (!first_time(r, h)) _reissued++;
        if (std::find(_known[r].begin(), _known[r].end(), h) == _known[r].end()) _known[r].push_back(h);
        if (_known[r].size() > 4000) _known[r].erase(_known[r].begin());
    }
    bool usable(const std::string& n) const { return _names.count(n) && !_ph.count(n); }
    void on(int t, const std::function<void()>& f) {
        if (t == 0) { f(); return; }
        auto& th = _threads[t];
        if (!th) th = std::make_unique<stepper>();
        th->run(f);
    }
    // may thread t record a command on registry r (about entity n, if given)?
    bool may_record(int t, int r, const std::string& n = "") {
        if (_ended.count(t) && _pend_threads.count(t)) return false;     // an ended thread's queue is still pending
        if (_pend_reg >= 0 && _pend_reg != r) return false;
        if (!n.empty() && _owner.count(n) && _owner[n] != t) return false;
        return true;
    }
    void recorded(int t, int r, const std::string& n) {
        _ended.erase(t);
        _pend_reg = r; _pend_threads.insert(t);
        if (!n.empty()) _owner[n] = t;
    }
    static query_api& find_query(const std::string& n) {
        for (auto& x : queries()) if (x.names == n) return x;
        std::fprintf(stderr, "no query %s\n", n.c_str()); std::exit(3);
    }
    static combo_api& find_combo(const std::string& n) {
        for (auto& x : combos()) if (x.names == n) return x;
        std::fprintf(stderr, "no combination %s\n", n.c_str()); std::exit(3);
    }
    static std::string cs_json(const std::vector<std::string>& ns) { return list(ns, [](auto& n) { return q(n); }); }
    static std::string rows_json(const rows_t& rows) {
        return list(rows, [](const row& r) { return "[" + q(r.h) + "," + list(r.v, [](int x) { return std::to_string(x); }) + "]"; });
    }
    static int fix(const std::string& c, int v) { return c == "T" || c == "E" ? 0 : v; }

    void step(const std::vector<std::string>& a) {
        const auto& op = a[0];
        auto F = [&](const std::string& rest) { return "\"op\":" + q(op) + (rest.empty() ? "" : ",") + rest; };
        auto num = [&](std::size_t i) { return std::stoi(a.at(i)); };
        if (op == "create" || op == "ccreate") {
            std::size_t i = op == "create" ? 1 : 2;
            int t = op == "create" ? 0 : num(1);
            int r = num(i);
            const auto& name = a.at(i + 1);
            auto cs = names_of(a.at(i + 2));
            std::vector<int> v; std::string comps;
            for (std::size_t k = 0; k < cs.size(); k++) {
                v.push_back(fix(cs[k], num(i + 3 + k)));
                if (v.back() == -1 && (cs[k] == "B" || cs[k] == "H")) return;
                comps += (k ? "," : "") + q(cs[k]) + ":" + std::to_string(v.back());
            }
            if (_names.count(name)) return;
            auto& api = find_combo(a.at(i + 2));
            ce::entity e; std::string res;
            if (op == "create") {
                int w = var();
                res = attempt([&] { e = api.create(*_reg[r], v.data(), w); });
            } else {
                if (!may_record(t, r)) return;
                res = attempt([&] { on(t, [&] { e = api.ccreate(*_reg[r], v.data()); }); });
            }
            if (res == "ok") {
                know(r, e);
                _names[name] = { r, e };
                if (op == "ccreate") { recorded(t, r, name); }
            }
            log(F("\"r\":" + std::to_string(r + 1) + (op == "ccreate" ? ",\"t\":" + std::to_string(t) : "") + ",\"n\":" + q(res == "ok" ? hs(e) : "") + ",\"comps\":{" + comps + "}"), res, "");
            return;
        }
        if (op == "bulk") {
            // bulk r prefix count combo v...
            int r = num(1), n = num(3);
            auto cs = names_of(a.at(4));
            std::vector<int> v; std::string comps;
            for (std::size_t k = 0; k < cs.size(); k++) { v.push_back(fix(cs[k], num(5 + k))); comps += (k ? "," : "") + q(cs[k]) + ":" + std::to_string(v.back()); }
            auto& api = find_combo(a[4]);
            std::vector<ce::entity> es; int w = var();
            auto res = attempt([&] {
                for (int i = 0; i < n; i++) {
                    auto e = api.create(*_reg[r], v.data(), w);
                    know(r, e); _names[a[2] + "_" + std::to_string(i)] = { r, e }; es.push_back(e);
                    for (std::size_t k = 0; k < cs.size(); k++) v[k] = fix(cs[k], v[k] + 1);
                }
            });
            log(F("\"r\":" + std::to_string(r + 1) + ",\"ns\":" + list(es, [](ce::entity e) { return q(hs(e)); }) + ",\"comps\":{" + comps + "}"), res, "");
            return;
        }
        if (op == "bulkkill") {
            // bulkkill r prefix from to step
            int r = num(1);
            std::vector<ce::entity> es;
            for (int i = num(3); i < num(4); i += num(5)) {
                auto it = _names.find(a[2] + "_" + std::to_string(i));
                if (it != _names.end() && it->second.r == r && _reg[r]->alive(it->second.h)) es.push_back(it->second.h);
            }
            auto res = attempt([&] { for (auto e : es) _reg[r]->destroy(e); });
            log(F("\"r\":" + std::to_string(r + 1) + ",\"hs\":" + list(es, [](ce::entity e) { return q(hs(e)); })), res, "");
            return;
        }
        if (op == "churn") {
            // churn r name count mode: creates and destroys an entity count times, the last one stays
            int r = num(1), n = num(3), mode = num(4);
            if (_names.count(a.at(2)) || (mode == 1 && _pend_reg >= 0)) return;
            auto& reg = *_reg[r];
            std::vector<ce::entity> es;
            int w = var() % 5;
            auto res = attempt([&] {
                for (int i = 0; i < n; i++) {
                    if (i > 0) reg.destroy(es.back());
                    if (mode == 1) {
                        ce::entity e = ce::command_writer{ reg }.create<>();
                        ce::command_buffer::flush(reg);
                        es.push_back(e);
                    } else if (mode == 2) {
                        auto p = reg.reserve();
                        reg.sync();
                        ce::registry tmp;
                        ce::entity e = tmp.get_entity(tmp.create<>()).move(reg, p);
                        es.push_back(e);
                    } else {
                        es.push_back(reg.create<>());
                    }
                    if (w == 4 && i > 0 && reg.alive(es[0])) break;
                }
            });
            long fresh = 0, revived = 0;
            for (auto e : es) fresh += first_time(r, e);
            for (std::size_t i = 0; i + 1 < es.size(); i++) revived += reg.alive(es[i]) || reg.get_entity(es[i]).alive();
            if (!es.empty()) {
                _names[a[2]] = { r, es.back() };
                _known[r].push_back(es.back());
            }
            log(F("\"r\":" + std::to_string(r + 1) + ",\"n\":" + q(es.empty() ? "" : hs(es.back())) + ",\"count\":" + std::to_string(es.size()) + ",\"fresh\":" + std::to_string(fresh) + ",\"revived\":" + std::to_string(revived)), res, "");
            return;
        }
        if (op == "crowd") {
            // crowd kind n m x n2: a registry of its own with n entities, of which those with number x modulo m go, then n2 more
            int kind = num(1), n = num(2), m = num(3), x = num(4), n2 = num(5);
            std::vector<std::array<long, 3>> seen;
            std::string res;
            auto go = [&]<class X>() { res = attempt([&] { crowd<X>(n, m, x, n2, seen); }); };
            switch (kind) {
            case 0: go.operator()<A>(); break;
            case 1: go.operator()<L5>(); break;
            case 2: go.operator()<L7>(); break;
            case 3: go.operator()<H>(); break;
            default: go.operator()<S>();
            }
            log(F("\"n\":" + std::to_string(n) + ",\"m\":" + std::to_string(m) + ",\"x\":" + std::to_string(x) + ",\"n2\":" + std::to_string(n2) + ",\"seen\":"
                + list(seen, [](auto& s) { return "[" + std::to_string(s[0]) + "," + std::to_string(s[1]) + "," + std::to_string(s[2]) + "]"; })), res, "");
            return;
        }
        if (op == "reserve") {
            int r = num(1);
            if (_names.count(a.at(2))) return;
            auto p = _reg[r]->reserve();
            know(r, p.get_entity());
            _names[a[2]] = { r, p.get_entity() };
            _ph.emplace(a[2], std::make_pair(r, p));
            log(F("\"r\":" + std::to_string(r + 1) + ",\"n\":" + q(hs(p.get_entity()))), "ok", "");
            return;
        }
        if (op == "sync") {
            int r = num(1);
            auto res = attempt([&] { _reg[r]->sync(); });
            log(F("\"r\":" + std::to_string(r + 1)), res, "");
            return;
        }
        if (op == "newreg") {
            int r = num(1);
            if (_pend_reg == r) return;
            _reg[r].reset();
            _reg[r] = std::make_unique<ce::registry>();
            _known[r].clear();
            _all[r].clear();
            _next_id[r] = 0;
            std::erase_if(_names, [&](auto& x) { return x.second.r == r && x.first.substr(0, 4) != "null"; });
            std::erase_if(_ph, [&](auto& x) { return x.second.first == r; });
            log(F("\"r\":" + std::to_string(r + 1)), "ok", "");
            return;
        }
        if (op == "endthread") {
            int t = num(1);
            if (t == 0 || !_threads.count(t)) return;
            _threads.erase(t);
            _ended.insert(t);
            log(F("\"t\":" + std::to_string(t)), "ok", "");
            return;
        }
        if (op == "flush") {
            int r = num(1);
            if (_pend_reg >= 0 && _pend_reg != r) return;
            auto res = attempt([&] { ce::command_buffer::flush(*_reg[r]); });
            if (res == "ok") { _pend_reg = -1; _pend_threads.clear(); _owner.clear(); }
            log(F("\"r\":" + std::to_string(r + 1)), res, "");
            return;
        }
        if (op == "view" || op == "viewadd" || op == "viewstop" || op == "single") {
            int r = num(1);
            auto& api = find_query(a.at(2));
            auto cs = names_of(a[2]);
            rows_t rows; bool wh = true; std::string res; std::string extra;
            if (op == "single") {
                int mode = num(3);
                res = attempt([&] { api.single(*_reg[r], mode, rows, wh); });
            } else {
                int f = num(3) % NFORMS, mode = num(4) % NMODES;
                unsigned mask = 0; int delta = 0, stop = 0;
                if (op == "viewstop") {
                    stop = std::max(1, num(7));
                    if (mode == 1 || cs.empty()) mode = 0;
                    if (f == F_PAR) f = F_FUNC;
                    extra = ",\"k\":" + std::to_string(stop) + ",\"thr\":" + (f == F_FUNC || f == F_REG ? "true" : "false");
                }
                if (op != "view") {
                    mask = static_cast<unsigned>(num(5)); delta = num(6);
                    if (mode < 2 && op == "viewadd") mode = 2;
                    if (mode < 2) mask = 0;
                    std::vector<std::string> ws;
                    for (std::size_t k = 0; k < cs.size(); k++) {
                        if (mode == 4 && k > 0) mask &= ~(1u << k);
                        if (cs[k] == "T" || cs[k] == "E") mask &= ~(1u << k);
                        if (mask >> k & 1) ws.push_back(cs[k]);
                    }
                    extra += ",\"ws\":" + cs_json(ws) + ",\"v\":" + std::to_string(delta);
                }
                res = attempt([&] { if (!api.view(*_reg[r], f, mode, mask, delta, stop, rows, wh)) throw std::runtime_error("iterators"); });
            }
            log(F("\"r\":" + std::to_string(r + 1) + ",\"cs\":" + cs_json(cs) + ",\"wh\":" + (wh ? "true" : "false") + ",\"rows\":" + rows_json(rows) + extra), res, "");
            return;
        }
        // commands about an entity: <op> t name ...
        if (op == "cclone" || op == "cset" || op == "cremove" || op == "cdestroy") {
            int t = num(1);
            const auto& name = a.at(2);
            if (!usable(name)) return;
            auto [r, h] = _names[name];
            if (!may_record(t, r, name)) return;
            auto& reg = *_reg[r];
            std::string fields = "\"t\":" + std::to_string(t) + ",\"r\":" + std::to_string(r + 1) + ",\"h\":" + q(hs(h));
            std::string res;
            if (op == "cclone") {
                if (_names.count(a.at(3))) return;
                ce::entity n;
                res = attempt([&] { on(t, [&] { ce::command_writer w{ reg }; n = w.get_entity(h).clone(); }); });
                if (res == "ok") { know(r, n); _names[a[3]] = { r, n }; recorded(t, r, name); recorded(t, r, a[3]); }
                fields += ",\"n\":" + q(res == "ok" ? hs(n) : "");
            } else if (op == "cset") {
                int c = comp_by_name(a.at(3)); int v = fix(a[3], num(4));
                int w = var();
                res = attempt([&] { on(t, [&] { with_type(c, [&]<class X>() {
                    ce::command_writer cw{ reg };
                    if ((w & 1) && v != -1) cw.get_entity(h).template set<X>(X(v)); else cw.get_entity(h).template set<X>(v); }); }); });
                if (res == "ok") recorded(t, r, name);
                fields += ",\"c\":" + q(a[3]) + ",\"v\":" + std::to_string(v);
            } else if (op == "cremove") {
                int c = comp_by_name(a.at(3));
                res = attempt([&] { on(t, [&] { with_type(c, [&]<class X>() { ce::command_writer cw{ reg }; cw.get_entity(h).template remove<X>(); }); }); });
                if (res == "ok") recorded(t, r, name);
                fields += ",\"c\":" + q(a[3]);
            } else {
                int w = var();
                res = attempt([&] { on(t, [&] { ce::command_writer cw{ reg }; if (w & 1) cw.destroy(h); else cw.get_entity(h).destroy(); }); });
                if (res == "ok") recorded(t, r, name);
            }
            log(F(fields), res, "");
            return;
        }
        // operations about an entity: <op> name ...
        const auto& name = a.at(1);
        if (!usable(name)) return;
        auto [r, h] = _names[name];
        auto& reg = *_reg[r];
        std::string fields = "\"r\":" + std::to_string(r + 1) + ",\"h\":" + q(hs(h)), res, ret;
        int w = var();
        if (op == "destroy") {
            res = attempt([&] { if (w & 1) reg.destroy(h); else reg.get_entity(h).destroy(); });
        } else if (op == "set") {
            int c = comp_by_name(a.at(2)); int v = fix(a[2], num(3));
            res = attempt([&] { with_type(c, [&]<class X>() {
                if ((w & 1) && v != -1) reg.get_entity(h).template set<X>(X(v)); else reg.get_entity(h).template set<X>(v); }); });
            fields += ",\"c\":" + q(a[2]) + ",\"v\":" + std::to_string(v);
        } else if (op == "setfrom") {
            int c = comp_by_name(a.at(2)); int src = comp_by_name(a.at(3));
            if (c == cT || c == cE || !(src == cA || src == cB || src == cH || src == cL5 || src == cQ)) return;
            res = attempt([&] {
                auto ent = reg.get_entity(h);
                int* ref = src == cA ? &ent.get<A>().v : src == cB ? &ent.get<B>().v : src == cH ? &ent.get<H>().v : src == cL5 ? &ent.get<L5>().v : &ent.get<Q>().v;
                with_type(c, [&]<class X>() { if ((w & 1) && !ent.template has<X>()) (void)ent.template get_or_insert<X>(*ref); else ent.template set<X>(*ref); });
            });
            fields += ",\"c\":" + q(a[2]) + ",\"src\":" + q(a[3]);
        } else if (op == "goi") {
            int c = comp_by_name(a.at(2)); int v = fix(a[2], num(3));
            res = attempt([&] { with_type(c, [&]<class X>() { ret = std::to_string(reg.get_entity(h).template get_or_insert<X>(v).val()); }); });
            fields += ",\"c\":" + q(a[2]) + ",\"v\":" + std::to_string(v);
        } else if (op == "remove") {
            int c = comp_by_name(a.at(2));
            res = attempt([&] { with_type(c, [&]<class X>() { reg.get_entity(h).template remove<X>(); }); });
            fields += ",\"c\":" + q(a[2]);
        } else if (op == "write") {
            int c = comp_by_name(a.at(2)); int v = fix(a[2], num(3));
            res = attempt([&] { with_type(c, [&]<class X>() {
                if ((w & 1) && v != -1) reg.get_entity(h).template get<X>() = X(v); else reg.get_entity(h).template get<X>().put(v); }); });
            fields += ",\"c\":" + q(a[2]) + ",\"v\":" + std::to_string(v);
        } else if (op == "visit") {
            // visit name delta k: every component shown is increased by delta, the visitor throws at the k-th one
            int delta = num(2); std::size_t k = static_cast<std::size_t>(std::max(1, num(3)));
            std::vector<std::string> seen;
            auto see = [&](const ce::component_meta& m, auto* p) {
                int c = comp_of_meta(m);
                with_type(c, [&]<class X>() {
                    using ptr = std::conditional_t<std::is_const_v<std::remove_pointer_t<decltype(p)>>, const X*, X*>;
                    auto* x = static_cast<ptr>(p);
                    seen.push_back("[" + q(comp_names[c]) + "," + std::to_string(x->val()) + "]");
                    if constexpr (!std::is_const_v<std::remove_pointer_t<decltype(p)>>) { if (delta) x->put(x->val() + delta); }
                });
                if (seen.size() == k) throw boom{};
            };
            if (delta || (w & 1)) {
                auto f = [&](const ce::component_meta& m, void* p) { see(m, p); };
                res = attempt([&] { if (w & 2) reg.visit(h, f); else reg.get_entity(h).visit(f); });
            } else {
                auto f = [&](const ce::component_meta& m, const void* p) { see(m, p); };
                res = attempt([&] { if (w & 2) std::as_const(reg).visit(h, f); else std::as_const(reg).get_entity(h).visit(f); });
            }
            fields += ",\"v\":" + std::to_string(delta) + ",\"k\":" + std::to_string(k) + ",\"seen\":" + list(seen, [](const std::string& x) { return x; });
        } else if (op == "get" || op == "has") {
            auto& api = find_query(a.at(2));
            if (a[2] == "-") return;
            if (op == "get") {
                std::vector<int> v;
                res = attempt([&] { v = api.get(reg, h, w); });
                if (res == "ok") ret = list(v, [](int x) { return std::to_string(x); });
            } else {
                res = attempt([&] { ret = api.has(reg, h, w) ? "true" : "false"; });
            }
            fields += ",\"cs\":" + cs_json(names_of(a[2]));
        } else if (op == "clone" || op == "copy" || op == "move") {
            int r2 = op == "clone" ? r : num(2);
            const auto& nn = op == "clone" ? a.at(2) : a.at(3);
            if (_names.count(nn) || (op == "move" && r2 == r)) return;
            ce::entity n;
            res = attempt([&] {
                if (op == "clone") n = reg.get_entity(h).clone();
                else if (op == "copy") n = (w & 1) ? std::as_const(reg).get_entity(h).copy(*_reg[r2]) : reg.get_entity(h).copy(*_reg[r2]);
                else n = reg.get_entity(h).move(*_reg[r2]);
            });
            if (res == "ok") { know(r2, n); _names[nn] = { r2, n }; }
            fields += ",\"r2\":" + std::to_string(r2 + 1) + ",\"n\":" + q(res == "ok" ? hs(n) : "");
        } else if (op == "copyto" || op == "moveto") {
            const auto& pn = a.at(2);
            if (!_ph.count(pn)) return;
            auto [r2, p] = _ph.at(pn);
            if (op == "moveto" && r2 == r) return;
            bool before = w & 2;
            res = attempt([&] {
                if (before) _reg[r2]->sync();
                if (op == "copyto") {
                    if (r2 == r && (w & 1)) reg.get_entity(h).clone(p);
                    else if (w & 4) std::as_const(reg).get_entity(h).copy(*_reg[r2], p);
                    else reg.get_entity(h).copy(*_reg[r2], p);
                } else {
                    reg.get_entity(h).move(*_reg[r2], p);
                }
            });
            if (!before) _reg[r2]->sync();
            if (res == "ok" || (op == "copyto" && res != "entity_not_found")) _ph.erase(pn);
            if (res != "ok" && !_ph.count(pn)) _names.erase(pn);
            fields += ",\"r2\":" + std::to_string(r2 + 1) + ",\"p\":" + q(hs(p.get_entity()));
        } else {
            std::fprintf(stderr, "unknown operation %s\n", op.c_str());
            std::exit(3);
        }
        log(F(fields), res, ret);
    }
};
} // namespace vt

int main(int argc, char** argv) {
    if (argc < 3) return 3;
    co_ecs::thread_pool pool{ 4 };
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    vt::world w{ out };
    std::string text;
    std::ofstream cur(std::string(argv[2]) + ".cur");
    long n = 0;
    while (std::getline(in, text)) { cur << ++n << " " << text << std::endl; w.line(text); }
    cur << "end" << std::endl;
    w.finish();
    std::cout << "EVENTS " << w.events << "\n";
}
