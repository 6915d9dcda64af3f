#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f"include/co_ecs/{f}" for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "An entity handle names one entity for life and is never reissued",
  "Every handle a registry gives out (create, clone, copy or move into it, reserve) differs from every handle it gave out before, and names an alive entity from then (for a reserved handle: from the next synchronisation) until that entity is destroyed or moved away, after which it is never alive again. Every access through a dead handle raises entity_not_found and changes nothing. The registry's size is the number of entities it holds.",
  ["histories", "inputs"],
  "every sequence of create, destroy, clone, copy, move, reserve, synchronise and component changes on one or more registries, including many recyclings of the same slots and reservations still pending while entities are created or destroyed",
  "Tests recycle a slot once and never interleave pending reservations with creation and destruction; the guarantee ranges over all histories.",
  ["detail/handle.hpp", "base_registry.hpp", "registry.hpp", "entity_ref.hpp"],
  [("handle_pool create/alive/recycle/reserve/flush (id + generation)", "detail/handle.hpp"), ("get_location/ensure_alive", "base_registry.hpp")],
  [("issued", "all handles ever given out", "spec/Registry.tla"), ("live", "handle -> components", "spec/Registry.tla")],
  ["return values of registry::create/clone/copy/move/reserve", "alive()", "exceptions", "registry::size()"])

p("C02", "Component data survives every structural change, of any entity",
  "Reading a component of an alive entity yields the value last written to that component, and the set of components reported for it is exactly those added and not removed since. Creating, destroying, cloning or moving other entities, and adding, overwriting or removing components, on the same or other entities, changes nothing else, however many entities share the same component set and however they spread over storage blocks. Accessing a component the entity lacks raises component_not_found.",
  ["histories", "inputs"],
  "every history of structural operations and writes over any number of entities, component types (empty, over-aligned, several kilobytes, move-only) and component sets, including arguments that refer to components of the entity being changed",
  "Tests use a handful of entities that fit one 16 KB block and never erase from a block that is not the last; swap-and-pop, archetype transitions and block release interact over histories.",
  ["chunk.hpp", "archetype.hpp", "base_registry.hpp", "entity_ref.hpp"],
  [("chunk::swap_erase / chunk::move", "chunk.hpp"), ("archetype::move/swap_erase, ensure_archetype_added/removed", "archetype.hpp"), ("set_impl/remove/destroy", "base_registry.hpp")],
  [("data", "entity -> component -> value", "spec/Registry.tla")],
  ["get<C>(), has<C>(), visit(), archetype(), view iteration"])

p("C03", "Component objects: aligned, disjoint, destroyed exactly once",
  "Every component value stored in a registry lives in its own properly aligned storage, disjoint from every other live value, and is a complete object while its entity has it. The registry ends the lifetime of each component object it created exactly once: when it is removed, overwritten storage is vacated, its entity is destroyed or moved away, a deferred command consumes it, or the registry itself is destroyed; no object is leaked, destroyed twice, or read after its destruction.",
  ["histories", "inputs"],
  "every history of operations over component types of any size, alignment and special-member behaviour, for every combination and order of component types in an entity",
  "Tests use trivially destructible components with ordinary alignment, and count no constructions or destructions.",
  ["chunk.hpp", "archetype.hpp", "type_meta.hpp", "command.hpp"],
  [("block layout: add_block/get_max_size", "archetype.hpp"), ("construct/move_construct/destroy per block", "chunk.hpp"), ("command_buffer staging registry", "command.hpp")],
  [("count", "live instances per component type", "spec/Registry.tla")],
  ["instrumented component types (live-address table, alignment, overlap)"])

p("C04", "A view visits exactly the matching entities, each once",
  "Iterating a view, by callback or range, mutable or const, by blocks or in parallel, yields every alive entity whose component set includes all requested components exactly once and no other entity, giving that entity's own handle and its current component values, and writes made through it are what later reads return. single() yields one such entry, and nothing exactly when there is none. An iteration left before its end, by leaving the loop or by an exception of the callback (which reaches the caller), has visited that many different matching entities and changed no other.",
  ["histories", "inputs"],
  "every reachable registry content (any mixture of component sets, emptied and refilled storage blocks, component sets with no remaining entity), every requested combination of components, and every form of iteration",
  "Tests iterate freshly created entities with one or two component sets; emptied archetypes, blocks left behind by removals and multi-block archetypes are not sampled.",
  ["view.hpp", "registry.hpp", "chunk.hpp", "archetype.hpp"],
  [("filter archetypes, join chunks, chunk_view iterator", "view.hpp"), ("chunk_view", "chunk.hpp")],
  [("Matching(q)", "the set of entities a query must yield", "spec/Registry.tla")],
  ["view::each (func and range), single, chunks, par_each, registry::each"])

p("C05", "Clone, copy and move reproduce an entity exactly",
  "Cloning an entity, or copying it to another registry, creates one new entity with equal values for exactly the same components and leaves the source unchanged; later changes to either never show in the other. Moving an entity to another registry creates one entity there with the same components and values and ends the source entity. No other entity of either registry is affected, and the same holds when the destination handle was reserved beforehand.",
  ["histories", "inputs"],
  "every pair of registries with any contents, every component set (including sets first seen by the destination), clone/copy/move with fresh and with reserved handles, from mutable and const references",
  "Tests copy and move one entity between two otherwise empty registries.",
  ["base_registry.hpp", "entity_ref.hpp", "archetype.hpp", "chunk.hpp"],
  [("move/copy/clone", "base_registry.hpp"), ("chunk::copy / chunk::move", "chunk.hpp")],
  [("regs", "one abstract registry per registry", "spec/Registry.tla")],
  ["projected content of both registries after the call"])

p("C06", "A failing operation leaves the registry as it was",
  "When a registry operation raises an exception (dead entity, missing component, entity too big for a storage block, a throwing component constructor or copy constructor, a non-copyable component), every registry involved holds the same entities, components and values as before, no component object is left behind or lost, and every later operation, including iteration and destruction of the registries, works as if the failing call had never been made. An exception of a function the caller passes in (to visit or each) reaches the caller, and the registry holds what that function had written, nothing else.",
  ["fault_sequences", "histories", "inputs"],
  "every operation that can fail, failing for every reason and at every component it can fail at, in every reachable registry state, followed by any further history",
  "Tests assert that some calls throw; none continues to use the registry afterwards or makes a constructor throw.",
  ["base_registry.hpp", "archetype.hpp", "chunk.hpp", "entity_ref.hpp"],
  [("create_impl, set_impl, copy, move ordering of effects", "base_registry.hpp"), ("ensure_archetype*", "archetype.hpp"), ("chunk::copy", "chunk.hpp")],
  [("fault", "which constructor throws when", "spec/Registry.tla")],
  ["exception type, projected content, live-instance counts after the failing call"])

p("C07", "Deferred commands apply exactly once, at flush, in issue order",
  "A command recorded through a command writer has no effect on the registry's visible content until the next flush; that flush applies every recorded command exactly once, each thread's commands in the order that thread issued them and with the values given when they were issued, and a second flush applies nothing. The handle a deferred creation or clone returns is the handle of the entity that appears at the flush, and commands recorded later may refer to it.",
  ["histories", "schedules"],
  "every sequence of direct operations, recorded commands (create, clone, set, remove, destroy) from any number of threads and flushes; every interleaving of recording threads",
  "Tests record one or two commands from the main thread; orders, chains on a not-yet-existing entity and several threads are not sampled.",
  ["command.hpp", "base_registry.hpp", "detail/handle.hpp"],
  [("per-thread deque of commands + staging registry; flush = sync + play", "command.hpp")],
  [("queue", "thread -> sequence of pending commands", "spec/Commands.tla")],
  ["registry content before and after command_buffer::flush"])

p("C08", "Failing commands and ended threads neither lose nor repeat commands",
  "If a command fails during a flush, the flush raises that error, the failing command is consumed, and all commands not yet applied are still pending and applied, once, by the next flush. Commands recorded by a thread that has since ended are applied like any others. Values held by a command are released once it has been applied or has failed, so recording and flushing any number of commands leaves no residue.",
  ["fault_sequences", "histories", "schedules"],
  "every position of failing commands among pending ones, any number of retried flushes, any mixture of running and ended recording threads",
  "No test makes a command fail, lets a recording thread end, or looks at what remains after a flush.",
  ["command.hpp"],
  [("play_commands pops before executing; registration of thread buffers", "command.hpp")],
  [("queue", "pending commands of running and ended threads", "spec/Commands.tla")],
  ["exception out of flush, registry content, live-instance counts"])

p("C09", "Concurrent reservations are distinct and become alive at sync",
  "Handles reserved by any number of threads at the same time are all distinct, distinct from every alive entity and from every handle given out before, for every number of recycled slots available. After synchronisation each of them is alive and is never given out again, whether slots are created, destroyed or reserved afterwards.",
  ["schedules", "histories"],
  "every interleaving of concurrent reservations, for every state of the free slots, followed by any history of creation, destruction and further reservation rounds",
  "The one concurrent test starts from an empty pool; exhaustion of recycled slots while several threads race is schedule-dependent.",
  ["detail/handle.hpp", "base_registry.hpp"],
  [("atomic free cursor and next id", "detail/handle.hpp")],
  [("cursor, nextId, free", "implementation-shaped pool state", "spec/HandlePool.tla")],
  ["return values of reserve() from several threads, alive() after sync()"])

p("C10", "A schedule runs every system exactly once, stage by stage",
  "Creating an executor runs every init system exactly once; each run executes every system of every stage exactly once, no system of a stage starts before all systems of the earlier stages have finished, and their effects are visible to it. Systems added with the main-thread policy execute on the thread that runs the executor, all others are executed whatever the number of workers, and commands systems record take effect when the run (or initialisation) ends, not before. Building several executors from one schedule, or keeping references to several stages while building, gives each executor all systems, copies of its own whose state persists from run to run, and the user context it was created with.",
  ["programs", "schedules", "configurations"],
  "every schedule (any number of stages, of pooled and main-thread systems in each, any access patterns), any number of runs and executors, any number of workers, every thread interleaving",
  "Tests run one or two small schedules once and check counters, with no main-thread-only stages, no second executor and no control over interleaving.",
  ["system/schedule.hpp", "system/stage.hpp", "system/system.hpp", "thread_pool/thread_pool.hpp"],
  [("create_executor batching, stage_executor::run", "system/stage.hpp"), ("schedule_executor::run_once", "system/schedule.hpp")],
  [("ran", "which systems ran in this run", "spec/Schedule.tla")],
  ["start/finish events recorded by the systems themselves"])

p("C11", "Systems with conflicting access never run at the same time",
  "Two systems of a stage overlap in time only if neither can interfere with the other: never when one has mutable access to a component type the other accesses, and never when one has access to the whole registry and the other reads or writes components, uses the registry, or records commands. This includes systems bound to the main thread.",
  ["programs", "schedules"],
  "every set of systems with any combination of mutable/const views, whole-registry and command-writer arguments, in every order of addition, on any number of workers, every interleaving",
  "Tests contain a few systems with fixed patterns and would only notice an overlap if a race happened to corrupt a checked value.",
  ["system/access.hpp", "system/stage.hpp", "system/system.hpp"],
  [("access_pattern_t::allows and greedy batching", "system/stage.hpp")],
  [("running", "systems between start and finish", "spec/Schedule.tla")],
  ["start/finish events, batches formed by the executor"])

p("C12", "Every submitted task runs once; wait covers all its descendants",
  "Every task submitted to the pool and waited for (directly or through an ancestor) executes exactly once, and a wait returns only after the task and every task submitted with it, directly or transitively, as parent have completed, with everything those tasks wrote visible to the waiter. A wait always returns once its tasks can finish, also when tasks submit and wait for further tasks. A task asked whether it is complete says so exactly when a wait for it would return; every task executes on the worker of its thread; a task nobody waits for is executed at most once, and has ended once the pool is destroyed if it has started.",
  ["schedules", "programs"],
  "every tree of tasks (nested submission and nested waits), any number of workers, every interleaving and every outcome the C++ memory model allows",
  "Tests submit one flat batch; completion races between siblings and children, and weak-memory reorderings, appear only under particular schedules.",
  ["thread_pool/task.hpp", "thread_pool/thread_pool.hpp", "detail/work_stealing_queue.hpp"],
  [("unfinished counter and parent chain", "thread_pool/task.hpp"), ("worker::wait / get_task / steal", "thread_pool/thread_pool.hpp")],
  [("unfinished", "task -> outstanding descendants", "spec/Tasks.tla")],
  ["submit/start/finish/wait-return events"])

p("C13", "parallel_for applies the function to each element exactly once",
  "parallel_for over any range calls the function exactly once for every element, for every range length and worker count, and returns only after all calls have completed with their effects visible to the caller; parallel iteration of a view does so for every matching entity. It can be used again, and from inside a task or another parallel_for.",
  ["inputs", "configurations", "schedules"],
  "every range length relative to the worker count (shorter, equal, not divisible), every worker count, nested use, every interleaving",
  "One test runs one length on the machine's worker count.",
  ["thread_pool/parallel_for.hpp", "view.hpp", "detail/allocator/temp_allocator.hpp"],
  [("partition into per-worker batches", "thread_pool/parallel_for.hpp")],
  [("batches", "partition of the index range", "spec/ParallelFor.tla")],
  ["per-element call counts and completion"])

p("C14", "Work-stealing queue: each element is taken exactly once",
  "Every element pushed by the owner is returned by exactly one pop or steal, uncorrupted: never lost, duplicated or invented, also when the queue grows while thieves are active and for every reordering the C++ memory model permits. The owner pops the newest element remaining, thieves steal in the order of pushing, and pop or steal reports empty only if the queue was empty or another consumer was taking an element at the same time.",
  ["schedules", "histories"],
  "every history of owner pushes/pops and concurrent steals by any number of thieves, any initial capacity, every interleaving and every weak-memory outcome",
  "The test runs sequential operations only; races on the last element, on growth and between fences need chosen interleavings.",
  ["detail/work_stealing_queue.hpp"],
  [("Chase-Lev deque: top CAS, bottom fence, array growth", "detail/work_stealing_queue.hpp")],
  [("deque", "abstract double-ended sequence", "spec/Deque.tla")],
  ["call/return history of push/pop/steal"])

p("C15", "Hash map behaves as a map under every history",
  "After any sequence of insertions, assignments, erasures, look-ups, reservations, clears, copies, moves, swaps and range construction, the hash map contains exactly the pairs a mathematical map would, iteration visits each of them once, and look-up, count, size and returned iterators agree with it. Colliding and clustered hashes, growth and shrinking change nothing observable; copies are independent, sources of copies are unmodified, and every stored element is destroyed exactly once.",
  ["histories", "inputs"],
  "every history of operations, every hash distribution (all keys colliding, wrap-around clusters), every table size on both sides of the growth and shrink thresholds, trivially and non-trivially movable elements",
  "Tests insert and erase runs of well-distributed integer keys; backward-shift deletion under collisions and thresholds are history-dependent.",
  ["detail/hash_table.hpp", "detail/hash_map.hpp"],
  [("Robin Hood probing, backward-shift deletion, rehash", "detail/hash_table.hpp")],
  [("m", "abstract map", "spec/Maps.tla")],
  ["results of each call, full iteration, element lifetime counts"])

p("C16", "Sparse map behaves as a map under every history",
  "After any sequence of emplacements, insertions, erasures, subscript accesses, clears, reservations, copies and moves, the sparse map contains exactly the pairs a mathematical map would, iteration visits each once, and look-up, size and returned iterators agree with it; at() on a missing key raises out_of_range. It works for every key of its key type, copies are independent, and a moved-from map can be reused.",
  ["histories", "inputs"],
  "every history of operations, every key value and key width including the extremes, trivially and non-trivially movable values",
  "Tests use a few small keys of one width; swap-and-pop erasure and stale sparse entries after clear interact over histories.",
  ["detail/sparse_table.hpp", "detail/sparse_map.hpp"],
  [("dense/sparse cross-indexing, swap-and-pop", "detail/sparse_table.hpp")],
  [("m", "abstract map", "spec/Maps.tla")],
  ["results of each call, full iteration, element lifetime counts"])

p("C17", "Component sets are sets; equal sets share one archetype",
  "Inserting, erasing, clearing and testing component ids follows set semantics for every id; two component sets compare equal exactly when they contain the same ids, whatever the order and history that produced them, and equal sets hash equally. Hence two entities of a registry are reported in the same archetype exactly when they have the same component types, in whatever order these were given, added or removed, and an archetype lists exactly its component types, once each.",
  ["histories", "inputs"],
  "every history of insertions and erasures over ids of any magnitude (across machine-word boundaries), every order of reaching a component set",
  "Tests use ids within one machine word and one or two orders of components.",
  ["detail/dynamic_bitset.hpp", "component.hpp", "archetype.hpp"],
  [("trailing block trimming, equality and hash", "detail/dynamic_bitset.hpp"), ("archetypes::ensure_archetype*", "archetype.hpp")],
  [("S", "abstract set of ids", "spec/CompSets.tla")],
  ["contains/==/hash results, entity_ref::archetype(), archetype::components()"])

p("C18", "Arena allocators hand out aligned, disjoint, in-bounds blocks",
  "Every block returned by the linear and the stack allocator lies inside the given buffer, has the requested alignment, and overlaps no block still in use; when a request does not fit, null is returned (bad_alloc from the thread's temporary allocator) and nothing changes. Releasing stack blocks in reverse order makes exactly their space available again, reset frees everything, and allocators that are moved keep their outstanding blocks.",
  ["histories", "inputs"],
  "every history of allocations and LIFO releases with every size and power-of-two alignment, any buffer size and buffer alignment, up to and past exhaustion",
  "Tests allocate a few blocks of fixed size from a large buffer; boundary arithmetic at exhaustion depends on history.",
  ["detail/allocator/stack_allocator.hpp", "detail/allocator/linear_allocator.hpp", "detail/allocator/temp_allocator.hpp"],
  [("header with padding, offset arithmetic", "detail/allocator/stack_allocator.hpp"), ("std::align arithmetic", "detail/allocator/linear_allocator.hpp")],
  [("blocks", "outstanding blocks as intervals", "spec/Alloc.tla")],
  ["returned addresses, remaining()"])

p("C19", "Component type ids are stable, unique, and shared between binaries",
  "Within a process each component type has one id that never changes, distinct types have distinct ids, and the name, size and alignment reported for a type are its own. When a host program and the shared libraries it loads are built for sharing, a type has the same id in all of them, whichever binary uses it first, so entities created in one are found by views in the others.",
  ["configurations", "histories"],
  "every order of first use of types across binaries, every number of types and modules loaded in any order",
  "One test compares a couple of types between one host and one library.",
  ["component.hpp", "type_meta.hpp", "detail/macro.hpp"],
  [("name-keyed id registry exported by the host", "component.hpp")],
  [("ids", "type name -> id", "spec/TypeIds.tla")],
  ["component_id::value<T>, type_meta::of<T>() in each binary"])

p("C20", "Ill-formed uses are rejected at compile time",
  "Programs that would break const-correctness or uniqueness (mutable access through a const registry, mutable reference to an entity handle, duplicate component types, types that are not components) do not compile.",
  ["programs"],
  "every program using the API",
  "A few compile-failure tests sample it.",
  ["component.hpp", "registry.hpp", "chunk.hpp", "detail/type_traits.hpp"],
  [("concepts and static_assert", "component.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
