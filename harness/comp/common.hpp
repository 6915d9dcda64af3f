// Shared by the drivers of the containers, allocators and component sets: scripts in, events out.
#pragma once
#include "../comps.hpp"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <numeric>
#include <optional>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace cd {
using line = std::vector<std::string>;
inline int fd = -1;
inline void put(const std::string& s) {
    std::string t = s + "\n";
    for (size_t o = 0; o < t.size();) {
        auto n = ::write(fd, t.data() + o, t.size() - o);
        if (n <= 0) _exit(4);
        o += size_t(n);
    }
}
template<class C> std::string list(const C& c) {
    std::string r = "[";
    bool first = true;
    for (auto& x : c) { if (!first) r += ","; first = false; r += std::to_string(x); }
    return r + "]";
}
inline std::string rows(const std::vector<std::pair<long, long>>& c) {
    std::string r = "[";
    bool first = true;
    for (auto& [a, b] : c) { if (!first) r += ","; first = false; r += "[" + std::to_string(a) + "," + std::to_string(b) + "]"; }
    return r + "]";
}
[[noreturn]] inline void refuse(const line& l) {
    std::cerr << "cannot execute:";
    for (auto& x : l) std::cerr << " " << x;
    std::cerr << "\n";
    _exit(3);
}
// runs f on every line of the script file
inline int main_loop(int argc, char** argv, const std::function<void(const line&)>& f) {
    if (argc < 3) return 3;
    std::ifstream in(argv[1]);
    fd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    std::string s;
    while (std::getline(in, s)) {
        std::istringstream is(s);
        line l;
        for (std::string t; is >> t;) l.push_back(t);
        if (!l.empty()) f(l);
    }
    return 0;
}
} // namespace cd
