// Instantiates the query operations for a list of component types.
#pragma once
#include "world.hpp"
#include <ranges>

namespace vt {

struct sink {
    std::mutex m;
    rows_t rows;
    unsigned mask = 0;
    int delta = 0;
    int stop = 0;
    bool enough() const { return stop && rows.size() == static_cast<std::size_t>(stop); }
};

struct one_row {
    sink& s; row r; unsigned k = 0;
    void arg(const ce::entity& e) { r.h = hs(e); }
    template<class X> void arg(X& x) requires(!std::is_same_v<std::remove_const_t<X>, ce::entity>) {
        r.v.push_back(x.val());
        if constexpr (!std::is_const_v<X>) { if (s.mask >> k & 1) x.put(x.val() + s.delta); }
        k++;
    }
    void done() { std::lock_guard lk(s.m); s.rows.push_back(std::move(r)); }
};

// a callable with a concrete signature (registry::each deduces the query from it)
template<class... Args> struct visitor {
    sink* s;
    void operator()(Args... a) const { one_row r{ *s }; (r.arg(a), ...); r.done(); if (s->stop && s->enough()) throw boom{}; }
};
template<class Tuple> void take(sink& s, Tuple&& t) {
    one_row r{ s };
    std::apply([&](auto&&... a) { (r.arg(a), ...); }, t);
    r.done();
}

template<class... Args> struct runner {
    static bool run(ce::registry& reg, int form, sink& s) {
        constexpr bool cst = ce::const_component_references_v<Args...>;
        using view_t = ce::view<Args...>;
        visitor<Args...> f{ &s };
        auto mk = [&]() -> view_t { if constexpr (cst) return std::as_const(reg).view<Args...>(); else return reg.view<Args...>(); };
        switch (form) {
        case F_FUNC: { if constexpr (cst) { const view_t v = mk(); v.each(f); } else { view_t v = mk(); v.each(f); } return true; }
        case F_RANGE: { view_t v = mk(); for (auto&& t : v.each()) { take(s, t); if (s.enough()) break; } return true; }
        case F_CHUNKS: { view_t v = mk(); for (auto&& c : v.chunks()) { for (auto&& t : c) { take(s, t); if (s.enough()) return true; } } return true; }
        case F_STEP: {   // the iterators of the blocks by hand: post-increment, copies, comparison, a second pass
            view_t v = mk();
            for (auto&& c : v.chunks()) {
                auto it = c.begin(); const auto end = c.end();
                std::ptrdiff_t n = 0, m = 0;
                for (auto jt = it; jt != end; ++jt) n++;
                while (it < end) { auto at = it++; if (!(at < it) || at == it || at > it) m++; take(s, *at); n--; if (s.enough()) return true; }
                if (n != 0 || m != 0 || !(it == end)) return false;
            }
            return true;
        }
        case F_PAR: { view_t v = mk(); v.par_each(f); return true; }
        case F_REG: { if constexpr (cst) std::as_const(reg).each(f); else reg.each(f); return true; }
        }
        return false;
    }
    static void single(ce::registry& reg, sink& s, bool direct) {
        constexpr bool cst = ce::const_component_references_v<Args...>;
        if (direct) {
            if constexpr (cst) { if (auto t = std::as_const(reg).template single<Args...>()) take(s, *t); }
            else { if (auto t = reg.template single<Args...>()) take(s, *t); }
        } else {
            if constexpr (cst) { const ce::view<Args...> v{ reg }; if (auto t = v.single()) take(s, *t); }
            else { ce::view<Args...> v{ reg }; if (auto t = v.single()) take(s, *t); }
        }
    }
};

// f.operator()<Args...>() for the mode: 0 (entity, const...) 1 (const...) 2 (entity, mutable...)
// 3 (mutable..., entity) 4 (first mutable, rest const, entity)
template<class F, class... Cs> void with_mode(int mode, bool& with_handle, F&& f) {
    with_handle = mode != 1 || sizeof...(Cs) == 0;
    if constexpr (sizeof...(Cs) == 0) {
        f.template operator()<const ce::entity&>();
    } else {
        switch (mode) {
        case 0: f.template operator()<const ce::entity&, const Cs&...>(); break;
        case 1: f.template operator()<const Cs&...>(); break;
        case 2: f.template operator()<const ce::entity&, Cs&...>(); break;
        case 3: f.template operator()<Cs&..., const ce::entity&>(); break;
        default: []<class X, class... Y>(std::type_identity<std::tuple<X, Y...>>, auto& f) {
                     f.template operator()<X&, const Y&..., const ce::entity&>(); }(std::type_identity<std::tuple<Cs...>>{}, f);
        }
    }
}

template<class... Cs> struct query {
    static std::vector<int> get(ce::registry& reg, ce::entity e, int variant) {
        std::vector<int> out;
        auto put = [&](auto&&... x) { (out.push_back(x.val()), ...); };
        if constexpr (sizeof...(Cs) == 0) { return out; }
        else if constexpr (sizeof...(Cs) == 1) {
            if (variant % 3 == 0) put(reg.get_entity(e).template get<Cs...>());
            else if (variant % 3 == 1) { const auto r = reg.get_entity(e); put(r.template get<Cs...>()); }
            else put(std::as_const(reg).get_entity(e).template get<Cs...>());
        } else {
            if (variant % 3 == 0) std::apply(put, reg.get_entity(e).template get<Cs...>());
            else if (variant % 3 == 1) { const auto r = reg.get_entity(e); std::apply(put, r.template get<Cs...>()); }
            else std::apply(put, std::as_const(reg).get_entity(e).template get<Cs...>());
        }
        return out;
    }
    static bool has(ce::registry& reg, ce::entity e, int variant) {
        switch (variant % 4) {
        case 0: return reg.get_entity(e).template has<Cs...>();
        case 1: { const auto r = reg.get_entity(e); return r.template has<Cs...>(); }
        case 2: return reg.get_entity_const(e).template has<Cs...>();
        default: return reg.has<Cs...>(e);
        }
    }
    static bool view(ce::registry& reg, int form, int mode, unsigned mask, int delta, int stop, rows_t& out, bool& wh) {
        sink s; s.mask = mask; s.delta = delta; s.stop = stop;
        bool ok = false;
        struct keep { sink& s; rows_t& out; ~keep() { out = std::move(s.rows); } } k{ s, out };
        auto go = [&]<class... Args>() { ok = runner<Args...>::run(reg, form, s); };
        with_mode<decltype(go)&, Cs...>(mode, wh, go);
        return ok;
    }
    static void single(ce::registry& reg, int mode, rows_t& out, bool& wh) {
        sink s;
        auto go = [&]<class... Args>() { runner<Args...>::single(reg, s, mode & 8); };
        with_mode<decltype(go)&, Cs...>(mode & 7, wh, go);
        out = std::move(s.rows);
    }
    static query_api api() {
        std::string n;
        (..., (n += (n.empty() ? "" : ",") + std::string(comp_names[comp_of<Cs>::id])));
        return { n.empty() ? "-" : n, &get, &has, &view, &single };
    }
};

template<class... Cs> struct combo {
    template<std::size_t... I> static ce::entity create2(ce::registry& r, const int* v, int variant, std::index_sequence<I...>) {
        if (variant & 1) {
            std::tuple<Cs...> t{ Cs(v[I])... };
            return r.create<Cs...>(std::move(std::get<I>(t))...);
        }
        return r.create<Cs...>(Cs(v[I])...);
    }
    static ce::entity create(ce::registry& r, const int* v, int variant) { return create2(r, v, variant, std::index_sequence_for<Cs...>{}); }
    template<std::size_t... I> static ce::entity ccreate2(ce::registry& r, const int* v, std::index_sequence<I...>) {
        ce::command_writer w{ r };
        return w.create<Cs...>(Cs(v[I])...);
    }
    static ce::entity ccreate(ce::registry& r, const int* v) { return ccreate2(r, v, std::index_sequence_for<Cs...>{}); }
    static combo_api api() {
        std::string n;
        (..., (n += (n.empty() ? "" : ",") + std::string(comp_names[comp_of<Cs>::id])));
        return { n.empty() ? "-" : n, &create, &ccreate };
    }
};

#define VT_CAT2(a, b) a##b
#define VT_CAT(a, b) VT_CAT2(a, b)
#define QUERY(...) static adder VT_CAT(q_, __COUNTER__){ query<__VA_ARGS__>::api() };
#define COMBO(...) static adder VT_CAT(c_, __COUNTER__){ combo<__VA_ARGS__>::api() };
} // namespace vt
