// conc PROGRAMS TRACE seed=.. execs=.. mode=rand|dfs weak=0|1|2 secs=.. dev=..
// Runs every program under many schedules and writes each distinct history.
#include <bits/stdc++.h>
using namespace cl;
void SCEN(const Prog&); // the scenario linked into this driver
static void dispatch(const Prog& p) { SCEN(p); }

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 3; i < argc; i++) {
        std::string s = argv[i];
        auto e = s.find('=');
        a[s.substr(0, e)] = s.substr(e + 1);
    }
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    std::ifstream in(argv[1]);
    cl::fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (!in || cl::fd < 0) return 3;
    install();
    std::vector<Prog> progs;
    std::string line;
    while (std::getline(in, line)) if (!line.empty() && line[0] != '#') progs.push_back(parse(line));
    uint64_t seed = uint64_t(num("seed", 1));
    long execs = long(num("execs", 100)), keep = long(num("keep", 1e9));
    double secs = num("secs", 1e9);
    bool dfs = a["mode"] == "dfs";
    int weak = int(num("weak", 2));
    long total = 0, kept = 0, exhausted = 0, steps = 0;
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
#ifndef VS_NATIVE
    vs::start_watchdog();
    vs::E.on_stuck = on_stuck;
    vs::E.th.reserve(256);
#endif
    for (size_t pi = 0; pi < progs.size(); pi++) {
        auto& p = progs[pi];
        double share = secs * double(pi + 1) / double(progs.size());
        std::unordered_set<uint64_t> seen;
        long mykeep = 0;
#ifndef VS_NATIVE
        auto& ch = vs::E.ch;
        ch = {};
        ch.dfs = dfs;
        ch.max_deviations = int(num("dev", 2));
        vs::E.limit = uint64_t(p.num("limit", int(num("limit", 100000))));
#endif
        long mine = p.num("execs", 0) ? p.num("execs", 0) : execs;
        for (long x = 0; x < mine && elapsed() < share && mykeep < keep; x++) {
            bool w = weak == 2 ? (x & 1) : weak;
#ifdef VS_NATIVE
            w = true;
#endif
            buf = fmt("{\"op\":\"reset\",\"weak\":%s,\"x\":%ld,\"prog\":\"", w ? "true" : "false", x) + p.text + "\"}\n";
            std::string head = buf;
#ifdef VS_NATIVE
            dispatch(p);
#else
            vs::E.weak = w;
            vs::E.ext_count = 0;
            uint64_t s = seed * 1000003 + pi * 10007 + uint64_t(x) + 88172645463325252ull;
            if (!dfs) {
                ch.s = s * 0x9E3779B97F4A7C15ull | 1;
                for (int i = 0; i < 4; i++) ch.rnd();
                static const double ps[] = { 0.03, 0.1, 0.3, 0.6 }, pt[] = { 0.1, 0.3, 0.6 };
                ch.p_switch = ps[ch.rnd() % 4];
                ch.p_stale = pt[ch.rnd() % 3];
                vs::E.starve = ch.rnd() % 3 == 0;
            }
            vs::execute([&] { dispatch(p); });
            steps += long(vs::E.steps);
#endif
            total++;
            // thread ids may differ from schedule to schedule, so they are part of the history
            std::string body = buf.substr(head.size());
            uint64_t h = std::hash<std::string>{}(body) * 2 + (w ? 1 : 0);
            if (seen.insert(h).second) {
                put(buf);
                kept++;
                mykeep++;
            }
            buf.clear();
#ifndef VS_NATIVE
            if (dfs && !ch.advance()) { exhausted++; break; }
#endif
        }
    }
    printf("STATS execs=%ld histories=%ld steps=%ld exhausted=%ld programs=%zu\n", total, kept, steps, exhausted, progs.size());
    return 0;
}
