// Shared declarations of the registry driver.
#pragma once
#include "comps.hpp"
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/command.hpp>
#include <co_ecs/view.hpp>
#include <co_ecs/thread_pool/thread_pool.hpp>
#include <functional>
#include <mutex>
#include <string>
#include <vector>

namespace vt {
namespace ce = co_ecs;

inline std::string hs(ce::entity e) { return std::to_string(e.id()) + ":" + std::to_string(e.generation()); }

struct row { std::string h; std::vector<int> v; };
using rows_t = std::vector<row>;

// every way to iterate
enum form { F_FUNC, F_RANGE, F_CHUNKS, F_PAR, F_REG, F_STEP, NFORMS };

struct query_api {
    std::string names;
    std::vector<int> (*get)(ce::registry&, ce::entity, int variant);
    bool (*has)(ce::registry&, ce::entity, int variant);
    // mode: constness and position of the entity argument; mask: components to add delta to; stop: the entity at which
    // the iteration is left (0: none), by an exception if there is a callback
    bool (*view)(ce::registry&, int form, int mode, unsigned mask, int delta, int stop, rows_t& out, bool& with_handle);
    void (*single)(ce::registry&, int mode, rows_t& out, bool& with_handle);
};
struct combo_api {
    std::string names;
    ce::entity (*create)(ce::registry&, const int* v, int variant);
    ce::entity (*ccreate)(ce::registry&, const int* v);
};
std::vector<query_api>& queries();
std::vector<combo_api>& combos();
struct adder { adder(query_api q) { queries().push_back(q); } adder(combo_api c) { combos().push_back(c); } };

constexpr int NMODES = 5;   // see world_query.hpp
} // namespace vt
