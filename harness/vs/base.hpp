// Event log of the concurrency drivers; included before the renaming macros.
#pragma once
#include <bits/stdc++.h>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>

namespace cl {
inline std::string buf;           // events of the current execution
inline std::atomic_flag lk;
inline int fd = -1;
struct Guard {
    Guard() { while (lk.test_and_set(std::memory_order_acquire)) {} }
    ~Guard() { lk.clear(std::memory_order_release); }
};
inline void log(const std::string& s) {
    Guard g;
    buf += s;
    buf += '\n';
}
template<typename... A> std::string fmt(const char* f, A... a) {
    char b[512];
    snprintf(b, sizeof b, f, a...);
    return b;
}
template<typename C> std::string list(const C& c) {
    std::string r = "[";
    bool first = true;
    for (auto& x : c) {
        if (!first) r += ",";
        first = false;
        r += std::to_string(x);
    }
    return r + "]";
}
inline void put(const std::string& s) {
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = ::write(fd, s.data() + o, s.size() - o);
        if (n <= 0) break;
        o += size_t(n);
    }
}
inline void dying(const char* what) {
    // the code under test crashed, hung or terminated: keep what happened so far
    put(buf);
    put(std::string("{\"op\":\"") + what + "\"}\n");
    _exit(66);
}
inline void on_signal(int) { dying("crash"); }
inline void on_stuck(const char*) { dying("stuck"); }
inline void install() {
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) {
        struct sigaction sa{};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
}

struct Prog {
    std::string kind, text;
    std::map<std::string, std::string> kv;
    int num(const std::string& k, int d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atoi(i->second.c_str()); }
    std::string str(const std::string& k) const { auto i = kv.find(k); return i == kv.end() ? "" : i->second; }
};
inline std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r;
    std::string cur;
    std::istringstream is(s);
    while (std::getline(is, cur, c)) r.push_back(cur);
    return r;
}
inline Prog parse(const std::string& line) {
    Prog p;
    p.text = line;
    std::istringstream is(line);
    is >> p.kind;
    std::string t;
    while (is >> t) {
        auto e = t.find('=');
        p.kv[t.substr(0, e)] = e == std::string::npos ? "" : t.substr(e + 1);
    }
    return p;
}
} // namespace cl
