// Schedules: systems of many kinds of access, stages, init systems, main-thread systems, several executors and runs.
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/named_system.hpp>
#include <co_ecs/system/schedule.hpp>
using namespace cl;
using namespace co_ecs;
namespace {
struct A { int v; };
struct B { int v; char pad[40]; };
struct C {};
struct Mark { int sys; };
struct Late { int v; }; // its id is far from the others'
template<int N> struct Filler { int v; };

struct World {
    int n{};
    std::vector<std::unique_ptr<vs::var<int>>> eff; // per system: number of the execution it last completed
    vs::var<int> run{ 0 };                          // number of the current run (set before each run)
    registry reg, reg2;
    int ctx[8]{ 1, 2, 3, 4, 5, 6, 7, 8 }; // what the executors are given as their contexts
};
World* W;

int marks(auto& reg) {
    int n = 0;
    reg.template view<const Mark&>().each([&](const Mark&) { n++; });
    return n;
}
// what: {number of the context the system was given (0: none), executions of its own copy before this one}; -1: it does not look
struct What { int ctx{ -1 }, calls{ -1 }; };
void begin(int sys, int nmarks = -1, What what = {}) {
    vs::point();
    int run = W->run.get();
    std::vector<int> seen;
    for (int i = 1; i <= W->n; i++) if (W->eff[i]->get() == run) seen.push_back(i);
    log(fmt("{\"op\":\"begin\",\"s\":%d,\"th\":%d,\"marks\":%d,\"ctx\":%d,\"calls\":%d,\"seen\":", sys, vs::my_id(), nmarks, what.ctx, what.calls) + list(seen) + "}");
    vs::point();
    vs::point();
}
void end(int sys) {
    vs::point();
    W->eff[sys]->set(W->run.get());
    log(fmt("{\"op\":\"end\",\"s\":%d}", sys));
}

struct Functor {
    int s;
    int calls{ 0 };
    void operator()(view<A&> a) { begin(s, -1, { -1, calls }); calls++; end(s); }
};

int number(void* user_context) { return user_context ? *static_cast<int*>(user_context) : 0; }
// arguments of the user's own: what they get at is theirs to say
template<int Pattern> struct Arg {
    registry* reg;
    int ctx;
};
template<int Pattern> struct ArgState {
    ArgState(registry& r, void* user_context) : arg{ &r, number(user_context) } {}
    auto get() -> Arg<Pattern>& { return arg; }
    auto access_pattern() const -> access_pattern_t {
        if constexpr (Pattern == 0) return {};
        else if constexpr (Pattern == 1) return { access_type::write, component_meta::of<A>() };
        else if constexpr (Pattern == 2) return access_type::read;
        else return access_pattern_t{ access_type::read, component_meta::of<Late>() } & access_pattern_t{ access_type::write, component_meta::of<C>() };
    }
    Arg<Pattern> arg;
};
// a system that is not a function
template<int Pattern> struct Own : system_interface {
    int s;
    Own(int s) : s(s) {}
    struct Executor : system_executor_interface {
        int s, ctx, calls{ 0 };
        Executor(int s, int ctx) : s(s), ctx(ctx) {}
        void run() override { begin(s, -1, { ctx, calls++ }); end(s); }
        auto name() const -> std::string_view override { return "own"; }
        auto type_name() const -> std::string_view override { return "Own"; }
        auto access_pattern() const -> access_pattern_t override {
            if constexpr (Pattern == 0) return access_type::write;
            access_pattern_t p{ access_type::write, component_meta::of<B>() };
            p &= access_pattern_t{ access_type::read, component_meta::of<B>() };
            p &= access_pattern_t{ access_type::read, component_meta::of<A>() };
            return p;
        }
    };
    auto create_executor(registry&, void* user_context) -> std::unique_ptr<system_executor_interface> override {
        return std::make_unique<Executor>(s, number(user_context));
    }
};
struct ConstFunctor {
    int s;
    void operator()(view<const A&> a) const { begin(s); a.each([](const A&) {}); end(s); }
};
} // namespace
template<int Pattern> class co_ecs::system_argument_state_trait<Arg<Pattern>> {
public:
    using state_type = ArgState<Pattern>;
};
namespace {

// adds the system number s of kind k; add(args...) forwards to the builder
template<typename Add> void add_system(int k, int s, Add add) {
    switch (k) {
    case 0: add([s]() { begin(s); end(s); }); break;
    case 1: add([s](view<A&> a) { begin(s); a.each([](A& x) { x.v++; }); end(s); }); break;
    case 2: add([s](view<const A&> a) { begin(s); a.each([](const A&) {}); end(s); }); break;
    case 3: add([s](view<B&> b) { begin(s); b.each([](B& x) { x.v++; }); end(s); }); break;
    case 4: add([s](view<const B&> b) { begin(s); end(s); }); break;
    case 5: add([s](view<A&, const B&> ab) { begin(s); end(s); }); break;
    case 6: add([s](view<const A&, const B&> ab) { begin(s); end(s); }); break;
    case 7: add([s](view<A&> a, view<B&> b) { begin(s); end(s); }); break;
    case 8: add([s](view<const A&> a, view<B&> b) { begin(s); end(s); }); break;
    case 9: add([s](view<const A&> a, view<A&> b) { begin(s); end(s); }); break;
    case 10: add([s](registry& r) { begin(s, marks(r)); r.create<A>({ 1 }); end(s); }); break;
    case 11: add([s](const registry& r) { begin(s, marks(r)); end(s); }); break;
    case 12: add([s](command_writer w) { begin(s); w.create<Mark>({ s }); vs::point(); end(s); }); break;
    case 13: add([s](command_writer w, view<const A&> a) { begin(s); w.create<Mark, A>({ s }, { 0 }); end(s); }); break;
    case 14: add([s](view<const entity&> e) { begin(s); end(s); }); break;
    case 15: add([s](view<C&> c) { begin(s); end(s); }); break;
    case 16: add([s](view<const C&> c, view<A&> a) { begin(s); end(s); }); break;
    case 17: add([s](view<A&> a, registry& r) { begin(s, marks(r)); end(s); }); break;
    case 18: add([s](view<C&> c, command_writer w) { begin(s); w.create<Mark, C>({ s }, {}); end(s); }); break;
    case 19: add(CO_ECS_MAKE_NAMED_SYSTEM([s](view<A&> a) { begin(s); end(s); })); break;
    case 20: add(Functor{ s }); break;
    case 21: add([s](view<const Mark&> m) { int n = 0; m.each([&](const Mark&) { n++; }); begin(s, n); end(s); }); break;
    case 22: add([s](view<const B&, A&> ab, view<C&> c) { begin(s); end(s); }); break;
    case 23: add([s](view<const entity&, const C&> ec) { begin(s); end(s); }); break;
    case 24: add([s](registry& r, command_writer w) { begin(s, marks(r)); w.create<Mark>({ s }); end(s); }); break;
    case 25: add(std::function<void(view<B&>)>([s](view<B&> b) { begin(s); end(s); })); break;
    case 26: add([s](view<const A&> a, view<const B&> b, view<const C&> c) { begin(s); end(s); }); break;
    case 27: add([s](view<A&> a, view<const A&> b) { begin(s); end(s); }); break;
    case 28: add([s](view<const A&, B&> ab, view<const C&> c) { begin(s); end(s); }); break;
    case 29: add([s, n = 0](view<C&> c) mutable { begin(s, -1, { -1, n }); n++; end(s); }); break;
    case 30: add([s](view<B&> b, const registry& r) { begin(s, marks(r)); end(s); }); break;
    case 31: add(ConstFunctor{ s }); break;
    case 32: add([s](view<A&> a) { begin(s); a.par_each([](A& x) { x.v++; vs::point(); }); end(s); }); break;
    case 33: add([s](command_writer w, view<const B&> b) { begin(s); w.create<B, Mark>({ 1 }, { s }); end(s); }); break;
    case 34: add([s](view<const Late&> a) { begin(s); end(s); }); break;
    case 35: add([s](view<Late&> a) { begin(s); end(s); }); break;
    case 36: add([s](view<const A&, Late&> a) { begin(s); end(s); }); break;
    case 37: add([s](Arg<0> x, view<const B&> b) { begin(s, -1, { x.ctx }); end(s); }); break;
    case 38: add([s](Arg<1> x) { begin(s, -1, { x.ctx }); end(s); }); break;
    case 39: add([s](Arg<2> x) { begin(s, marks(*x.reg), { x.ctx }); end(s); }); break;
    case 40: add([s, n = 0](view<const A&> a, Arg<3> x, Arg<0> y) mutable { begin(s, -1, { x.ctx == y.ctx ? x.ctx : 99, n++ }); end(s); }); break;
    case 41: add(std::make_unique<Own<0>>(s)); break;
    case 42: add(std::make_unique<Own<1>>(s)); break;
    default: fprintf(stderr, "kind %d\n", k); exit(3);
    }
}
template<int... N> void fill_ids(std::integer_sequence<int, N...>) { ((void)component_meta::of<Filler<N>>(), ...); }
}

// sched w=3 init=k,k,.. stages=k,k,mk/k,k/.. ex=2 runs=2 build=chain|refs|late reg2=0|1
void run_sched(const Prog& p) {
    static bool once_only = [] {
        (void)component_meta::of<A>();
        fill_ids(std::make_integer_sequence<int, 150>{});
        (void)component_meta::of<Late>();
        return true;
    }();
    World world;
    W = &world;
    struct S { int kind; bool main; int stage; };
    std::vector<S> systems;
    auto parse_stage = [&](const std::string& t, int st) {
        for (auto& x : split(t, ',')) {
            if (x.empty()) continue;
            bool m = x[0] == 'm';
            systems.push_back({ atoi(x.c_str() + m), m, st });
        }
    };
    parse_stage(p.str("init"), 0);
    auto stages = split(p.str("stages"), '/');
    for (size_t i = 0; i < stages.size(); i++) parse_stage(stages[i], int(i) + 1);
    world.n = int(systems.size());
    for (int i = 0; i <= world.n; i++) world.eff.push_back(std::make_unique<vs::var<int>>(0));
    for (int i = 1; i <= world.n; i++)
        log(fmt("{\"op\":\"sys\",\"s\":%d,\"kind\":%d,\"main\":%s,\"stage\":%d}", i, systems[i - 1].kind, systems[i - 1].main ? "true" : "false", systems[i - 1].stage));
    world.reg.create<A>({ 1 });
    world.reg.create<A, B>({ 1 }, { 2 });
    world.reg.create<B, C>({ 1 }, {});
    thread_pool pool{ size_t(p.num("w", 2)) };
    auto build = p.str("build");
    {
        schedule sch;
        auto feed = [&](auto& builder, int i) {
            auto& s = systems[i];
            if (s.main) add_system(s.kind, i + 1, [&](auto&& f) { builder.add_system(main_thread_execution_policy, std::forward<decltype(f)>(f)); });
            else add_system(s.kind, i + 1, [&](auto&& f) { builder.add_system(std::forward<decltype(f)>(f)); });
        };
        auto feed_init = [&](int i) {
            auto& s = systems[i];
            if (s.main) add_system(s.kind, i + 1, [&](auto&& f) { sch.add_init_system(main_thread_execution_policy, std::forward<decltype(f)>(f)); });
            else add_system(s.kind, i + 1, [&](auto&& f) { sch.add_init_system(std::forward<decltype(f)>(f)); });
        };
        std::vector<stage*> refs;
        if (build == "refs") { // all stages first, then the systems one by one in the order of the program
            for (size_t k = 0; k < stages.size(); k++) refs.push_back(&sch.begin_stage(k % 2 ? "named" : ""));
            for (int i = 0; i < world.n; i++) systems[i].stage ? feed(*refs[systems[i].stage - 1], i) : feed_init(i);
        } else if (build == "mix") { // systems dealt round the stages
            for (size_t k = 0; k < stages.size(); k++) refs.push_back(&sch.begin_stage());
            for (size_t r = 0; r <= systems.size(); r++)
                for (int st = int(stages.size()); st >= 0; st--) {
                    size_t seen = 0;
                    for (int i = 0; i < world.n; i++)
                        if (systems[i].stage == st && seen++ == r) st ? feed(*refs[st - 1], i) : feed_init(i);
                }
        } else {
            for (int i = 0; i < world.n; i++) if (!systems[i].stage) feed_init(i);
            for (size_t k = 0; k < stages.size(); k++) {
                auto& st = sch.begin_stage("stage");
                for (int i = 0; i < world.n; i++) if (systems[i].stage == int(k) + 1) feed(st, i);
                st.end_stage();
            }
        }
        int run = 0;
        std::vector<std::unique_ptr<schedule_executor>> ex;
        int execs = std::max(1, p.num("ex", 1));
        auto make = [&] {
            int r = p.num("reg2") && ex.size() % 2 ? 2 : 1;
            world.run.set(++run);
            int x = int(ex.size()), c = x % 3 == 1 || x >= 8 ? 0 : x + 1;
            log(fmt("{\"op\":\"make\",\"reg\":%d,\"th\":%d,\"x\":%d,\"ctx\":%d}", r, vs::my_id(), x, c));
            auto& reg = r == 1 ? world.reg : world.reg2;
            ex.push_back(c ? sch.create_executor(reg, &world.ctx[x]) : sch.create_executor(reg));
            log(fmt("{\"op\":\"made\",\"marks\":%d}", r == 1 ? marks(world.reg) : marks(world.reg2)));
        };
        auto once = [&](int x) {
            int r = p.num("reg2") && x % 2 ? 2 : 1;
            world.run.set(++run);
            log(fmt("{\"op\":\"run\",\"reg\":%d,\"th\":%d,\"x\":%d}", r, vs::my_id(), x));
            ex[x]->run_once();
            log(fmt("{\"op\":\"ran\",\"marks\":%d}", r == 1 ? marks(world.reg) : marks(world.reg2)));
        };
        if (p.num("early")) for (int x = 0; x < execs; x++) make();
        for (int x = 0; x < execs; x++) {
            if (!p.num("early")) make();
            for (int r = 0; r < std::max(1, p.num("runs", 1)); r++) once(x);
        }
        for (int x = 0; execs > 1 && x < execs; x++) once(x);
    }
    log("{\"op\":\"fin\"}");
}
