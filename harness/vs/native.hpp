// The same driver on real threads.
#pragma once
#include "base.hpp"
namespace vs {
template<typename T> class var {
    std::atomic<T> v;
public:
    var(T x = {}) : v(x) {}
    T get() const { return v.load(std::memory_order_relaxed); }
    void set(T x) { v.store(x, std::memory_order_relaxed); }
};
inline std::atomic<int> next_id{ 0 };
inline int my_id() { static thread_local int id = next_id++; return id; }
inline void point() {}
inline bool native() { return true; }
}
