#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here because JSON lines are painful to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": ["include/co_ecs/" + f for f in files],
         "mechanism": [{"name": n, "where": "include/co_ecs/" + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "include/co_ecs/" + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "The registry behaves as a map from live entities to typed component values",
 "After any single-threaded sequence of entity and component operations (create, set, get, get_or_insert, remove, destroy, clone), what the registry reports for every entity - whether it is alive, which components it has, and each component's value through get, has, visit, the entity's archetype and const access - is exactly what that sequence assigned, and size() and empty() count exactly the live entities. "
 "An operation on one entity never changes the identity, component set or component values of any other entity. "
 "This holds for every mix of component types and every number of entities, and also when an argument refers to a component stored in the registry itself.",
 ["histories", "inputs"], "all finite single-threaded operation histories over any set of component types, any number of entities, any interleaving of structural changes",
 "The tests run a few short scripted sequences over two or three 8-byte components; the relocation of entities between and inside storage blocks has as many cases as there are histories (which entity fills the hole, which block is last, which component sets are adjacent).",
 ["base_registry.hpp", "entity_ref.hpp", "registry.hpp", "archetype.hpp", "chunk.hpp", "detail/sparse_table.hpp", "component.hpp"],
 [("location map updated on every relocation", "base_registry.hpp: destroy, set_impl, remove, move, copy"), ("swap-erase of entries, last block trimmed", "archetype.hpp: swap_erase/move; chunk.hpp: swap_erase/move"), ("archetype lookup by component set", "archetype.hpp: archetypes::ensure_archetype*")],
 ["registry/entity_ref/const_entity_ref public calls", "archetype().components(), visit()"],
 [("entity -> location map", "where each live entity's components are stored", "base_registry.hpp: _entity_archetype_map")])

prop("C02", "Entity handles are unique, die for good, and their ids are recycled",
 "Within one registry no two creations (create, clone, copy or move into it, synchronised reservation) ever hand out equal handles; a handle is alive from when it is handed out until that entity is destroyed or moved away, and never again afterwards. "
 "A handle that is not alive (stale, foreign or invalid) never gives access to, and no operation through it changes, the entity that reuses its id. "
 "Ids of destroyed entities are reused, so the number of distinct ids ever handed out does not exceed the peak number of simultaneously live or reserved entities.",
 ["histories"], "all create/destroy/clone/move/reserve histories (up to wrap-around of the 32-bit generation counter)",
 "The existing test recycles one id once; uniqueness and non-resurrection quantify over the whole history of a registry.",
 ["detail/handle.hpp", "entity.hpp", "base_registry.hpp"],
 [("generation counter per id", "detail/handle.hpp: handle_pool::recycle/alive"), ("free id list", "detail/handle.hpp: handle_pool::create/flush"), ("liveness check before every access", "base_registry.hpp: ensure_alive/get_location")],
 ["entity ids and generations returned by the public API", "registry.alive, entity_not_found"],
 [("free list, generations, next id", "recycled ids and their current generation", "detail/handle.hpp: handle_pool")])

prop("C03", "Views visit exactly the matching entities, each exactly once",
 "For every registry state and every list of requested components, iterating a view - by range, by callback, by typed chunks, through registry.each, or from a const registry - visits exactly the live entities having all requested components, each once, and yields references to that entity's own identity and component values; writes made through mutable references are what later reads return. "
 "single() yields one matching entry if any entity matches and nothing otherwise. "
 "A view created before structural changes gives the up-to-date result when iterated again after them.",
 ["inputs", "histories", "configurations"], "all registry states reachable by operation histories, all component queries, both range back ends (std::ranges, range-v3)",
 "The tests iterate a handful of tiny registries; empty and partially filled storage blocks, empty component sets that once had entities, and large registries are unreached.",
 ["view.hpp", "chunk.hpp", "archetype.hpp", "registry.hpp", "view_arguments.hpp", "detail/views.hpp"],
 [("filter archetypes, join chunks, zip components", "view.hpp: chunks()/each()"), ("typed chunk iterator", "chunk.hpp: chunk_view::iterator")],
 ["sequence of tuples yielded by each view form"])

prop("C04", "Component objects: constructed once, destroyed once, never used outside life",
 "Every component value stored in a registry is a live object: it is constructed before it is used, its special members are only ever applied to live objects at properly constructed addresses, and every constructed component object is destroyed exactly once - on removal, overwrite, entity destruction, relocation, transfer, deferred-command application or at the latest when the registry (or staging area) is destroyed. "
 "No component is copied unless a copy was asked for (clone, copy), and a moved-from value is never observable through the registry. "
 "This holds for every component type admitted by the component concept, including self-referential, resource-owning, move-only and empty types.",
 ["histories", "inputs"], "all operation histories over component types with arbitrary (noexcept-move) special members",
 "The tests use trivially copyable components almost everywhere, for which a missed or doubled destructor, or a byte-wise relocation, is invisible.",
 ["chunk.hpp", "archetype.hpp", "type_meta.hpp", "entity_ref.hpp", "command.hpp"],
 [("type-erased construct/move/destroy", "type_meta.hpp"), ("placement and destruction of entries", "chunk.hpp: emplace_back, move, copy, swap_erase, ~chunk")],
 ["constructor/destructor/assignment events of instrumented component types, keyed by address"])

prop("C05", "Component storage is in bounds, aligned and non-overlapping for every type mix",
 "For every combination of component types whose single instance fits in one storage block, each component reference handed out is correctly aligned for its type (including over-aligned types), lies inside memory owned by the registry, and does not overlap any other live component or entity handle. "
 "No operation reads or writes outside that memory or executes undefined behaviour. "
 "A combination whose sizes together exceed a storage block is rejected with insufficient_chunk_size, and one that fits including alignment padding is accepted.",
 ["inputs", "configurations"], "all sets of component sizes (1 byte up to a whole block) and alignments (1 up to page size), all fill levels",
 "The tests only combine equally sized, 4-byte-aligned components plus one oversize case; layout errors need mixed alignments and full blocks, and often corrupt silently.",
 ["archetype.hpp", "chunk.hpp", "detail/bits.hpp", "exceptions.hpp"],
 [("block offsets and capacity", "archetype.hpp: init_blocks/add_block/get_max_size"), ("chunk buffer allocation", "chunk.hpp: chunk::chunk")],
 ["addresses of components from get/view/visit; AddressSanitizer/UBSan reports"])

prop("C06", "Failed operations are reported as documented and leave everything else intact",
 "An operation that cannot succeed reports it by the documented exception - entity_not_found for an entity that is not alive, component_not_found for a component it lacks, insufficient_chunk_size for a component set that does not fit, the copying component's own exception (std::invalid_argument if it is not copyable) for clone and copy - and never terminates the process. "
 "After the failure every entity, component value, view result and size is as it was before the call, no component object is leaked or destroyed twice, and the registry keeps working for all further operations; a component constructor that throws inside set or get_or_insert likewise leaves the entity without that change. "
 "A deferred command that fails while being applied is reported once by the flush and does not prevent the remaining commands from being applied by later flushes.",
 ["fault_sequences", "histories"], "all points at which a user component's constructor or copy constructor throws, or an operation is applied to a dead entity / missing component / unfitting set, in any registry state",
 "The tests check four exception types once each and never look at the registry afterwards; no test throws from a component.",
 ["base_registry.hpp", "entity_ref.hpp", "archetype.hpp", "chunk.hpp", "type_meta.hpp", "exceptions.hpp", "command.hpp"],
 [("liveness check first", "base_registry.hpp: get_location"), ("archetype created before it is published", "archetype.hpp: ensure_archetype*"), ("copy constructors may throw", "type_meta.hpp: copy_constructor; chunk.hpp: copy")],
 ["exception type of each failing call, full registry comparison before/after, instance ledger"])

prop("C07", "Clone, copy and move transfer exactly one entity's state",
 "Cloning or copying an entity (within a registry, into another one, or into a reserved entity) yields a new live entity whose component set and values equal the source's at that moment and are independent of it afterwards, leaving source and all other entities unchanged. "
 "Moving an entity to another registry carries every component value over by move, makes the source handle dead, and leaves all other entities of both registries unchanged. "
 "The transferred entity reports its new handle when visited through views of the destination registry.",
 ["histories", "inputs"], "all registry pairs reachable by operation histories, all component sets, plain and placeholder destinations, transfers in both directions",
 "The tests move or copy one hundred identical entities between two fresh registries; interplay with partially filled blocks, recycled ids and placeholder destinations is unreached.",
 ["base_registry.hpp", "entity_ref.hpp", "archetype.hpp", "chunk.hpp"],
 [("transfer between archetypes of two registries", "base_registry.hpp: move/copy/clone"), ("entity handle rewritten in destination", "base_registry.hpp: move/copy placeholder assignment")],
 ["full state of both registries after each transfer"])

prop("C08", "Deferred commands take effect exactly once, completely and in recording order",
 "Commands recorded through command writers have no effect on the registry's entities before the flush, and after a flush every command recorded before it, by any thread - including threads that have since ended - has been applied exactly once, with each thread's commands applied in the order it recorded them and with the values given at recording time. "
 "An entity handle returned by a recorded creation or clone is, after the flush, the live entity with exactly the components the recorded commands gave it. "
 "Recording threads may run concurrently, and nothing recorded is retained once applied.",
 ["histories", "schedules"], "all command sequences (create, set, remove, clone, destroy, chained and interleaved), any number of recording threads, thread exits, any number of flushes",
 "The tests record at most three commands on one thread; multi-thread recording, exited threads, repeated flushes and value lifetimes are unreached.",
 ["command.hpp", "base_registry.hpp", "detail/handle.hpp"],
 [("per-thread buffer with staging registry", "command.hpp: command_buffer"), ("entity reservation at record time", "base_registry.hpp: reserve/sync")],
 ["registry state before/after flush", "instance ledger of staged values"],
 [("per-thread command queues", "commands not yet applied", "command.hpp: command_buffer::_commands/_staging")])

prop("C09", "Concurrently reserved entities are distinct and alive once synchronised",
 "Entities reserved concurrently from any number of threads are pairwise distinct and distinct from every live entity and from every handle handed out before. "
 "After synchronisation each of them is alive and stays so until destroyed, can be used as the destination of clone, copy, move or a recorded creation, and destroyed ids are still reused afterwards. "
 "This holds for any number of reservations, with and without recycled ids available, and also when entities are created or destroyed directly between the reservations and the synchronisation.",
 ["schedules", "histories"], "all interleavings of concurrent reservations, all mixes with previous/following create, destroy and sync",
 "The one test reserves three entities on one thread; the recycled-to-fresh boundary is only interesting under concurrency or when mixed with creation.",
 ["detail/handle.hpp", "base_registry.hpp"],
 [("atomic cursor over the free list, then fresh ids", "detail/handle.hpp: handle_pool::reserve/flush")],
 ["handles returned by reserve(), alive(), later create() results"],
 [("free cursor", "how many recycled ids are left; negative: fresh ids reserved", "detail/handle.hpp: _free_cursor")])

prop("C10", "Every submitted task runs exactly once and wait covers it and its children",
 "Each task submitted to the thread pool - from the main thread or from inside another task, with or without parent - is executed exactly once, and with exactly the callable that was submitted. "
 "Waiting on a task returns only after that task and all tasks submitted under it (transitively) have finished, everything they wrote is visible to the waiter without further synchronisation, and it does return. "
 "This holds for any number of workers (including one) and any nesting of submits and waits within the pool's limit of simultaneously outstanding tasks, and pools can be created and destroyed repeatedly.",
 ["schedules", "programs"], "all interleavings of workers, all task trees (fan-out, depth, waits inside tasks), worker counts from 1 up, more tasks over time than the pool keeps slots for",
 "No unit test targets the pool directly; it is only reached through one stage and one parallel loop whose results rarely depend on the interleaving.",
 ["thread_pool/thread_pool.hpp", "thread_pool/task.hpp", "detail/work_stealing_queue.hpp"],
 [("unfinished-children counter chained to the parent", "thread_pool/task.hpp: task_t::finish/is_completed"), ("circular task storage", "thread_pool/task.hpp: task_pool::allocate"), ("work helping while waiting", "thread_pool/thread_pool.hpp: worker::wait")],
 ["execution counts per task, plain (non-atomic) writes read after wait, ThreadSanitizer reports"],
 [("unfinished count", "1 + unfinished direct children", "thread_pool/task.hpp: _unfinishedTasks")])

prop("C11", "The work-stealing queue never loses, duplicates or invents an element",
 "Every element pushed by the owner is returned by exactly one successful pop or steal, whatever thieves do concurrently, and nothing else is ever returned. "
 "Without interference the owner gets elements in LIFO and thieves in FIFO order; any one thief's successive steals come in push order; and when all operations have finished, size and emptiness agree with what was pushed and taken. "
 "This holds across growth beyond the initial capacity and index wrap-around of the storage.",
 ["schedules", "histories"], "all interleavings of one owner (push/pop) with any number of thieves (steal), any initial power-of-two capacity",
 "The test runs 1000 pushes single-threaded plus one run with thieves; lost or duplicated elements need a pop and a steal racing for the last element, or a steal during growth.",
 ["detail/work_stealing_queue.hpp"],
 [("Chase-Lev deque with seq_cst fences and CAS on top", "detail/work_stealing_queue.hpp: push/pop/steal"), ("retired arrays kept until destruction", "detail/work_stealing_queue.hpp: _garbage")],
 ["operation histories with unique values per push"],
 [("top, bottom, array", "thief end, owner end, current storage", "detail/work_stealing_queue.hpp")])

prop("C12", "Parallel iteration applies the function exactly once to every element",
 "parallel_for over a range and par_each over a view call the function exactly once for each element (each matching entity), with references to the real elements, and return only after all calls have finished with their effects visible to the caller. "
 "Distinct elements' calls may run concurrently but no element is skipped, repeated or visited after return. "
 "This holds for every range length (including empty and shorter than the worker count), every number of workers, const and mutable views, and for parallel loops nested inside tasks, systems and other parallel loops.",
 ["inputs", "schedules", "configurations"], "all range lengths relative to the worker count, all registry states, nesting and repetition, all interleavings of workers",
 "The test sums four fixed vector lengths; remainder handling, empty views, nesting and completion ordering are unreached, and a sum hides compensating errors.",
 ["thread_pool/parallel_for.hpp", "view.hpp", "thread_pool/thread_pool.hpp", "detail/allocator/temp_allocator.hpp"],
 [("batch split with remainder in the last batch", "thread_pool/parallel_for.hpp"), ("batches submitted under the first one and waited for", "thread_pool/parallel_for.hpp")],
 ["per-element visit counters, counts at return"])

prop("C13", "A schedule runs every system once per run, stage by stage, and flushes commands",
 "Creating an executor runs each initialisation system exactly once; each run_once then runs every system of every stage exactly once, a stage starting only after all systems of the previous stage have finished and its effects being visible to it. "
 "Systems added with the main-thread policy run on the thread that calls run_once, in the order they were added. "
 "Commands recorded by systems of a run (or of the initialisation) are applied when that run (initialisation) returns and not before, and every executor created from a schedule runs all of that schedule's systems on its own registry.",
 ["programs", "schedules"], "all schedules (any number of stages and systems, any access combination, worker and main-thread systems, named systems), any number of runs and executors, all interleavings of workers",
 "The tests use schedules with one system per conflicting group and never count executions per run, mix in main-thread systems, or create a second executor.",
 ["system/schedule.hpp", "system/stage.hpp", "system/system.hpp", "system/named_system.hpp", "command.hpp"],
 [("batching of systems per stage", "system/stage.hpp: stage::create_executor"), ("batch executed on the pool and waited for", "system/stage.hpp: stage_executor::execute_batch"), ("flush after init and each run", "system/schedule.hpp: schedule_executor")],
 ["begin/end events of systems with thread ids and logical order"])

prop("C14", "Systems with conflicting access never run at the same time",
 "Two systems of one schedule run never overlap in time if one may write a component the other may read or write, or if one has mutable access to the whole registry and the other reads or writes any component, accesses the registry, or reserves entities through a command writer. "
 "This holds for worker systems and main-thread systems alike, whatever the order in which they were added. "
 "Consequently systems that stay within their declared arguments never cause a data race.",
 ["programs", "schedules"], "all stages (any combination of views with const/mutable component references, const/mutable registry access, command writers, several views per system), all interleavings",
 "No test runs two conflicting systems; an overlap needs particular argument combinations in a particular order and then a particular interleaving.",
 ["system/access.hpp", "system/stage.hpp", "system/system.hpp"],
 [("access pattern compatibility", "system/access.hpp: access_pattern_t::allows/operator&="), ("access derived from system arguments", "system/system.hpp: *_state::access_pattern")],
 ["overlap intervals of system executions against their argument types; ThreadSanitizer reports"])

prop("C15", "Concurrent read-only use of a registry is race-free and consistent",
 "Any number of threads may at the same time query one registry through its const interface - alive, has, get, visit, size, archetype, every const view form - and reserve entities or record commands against it, without data races, and every reader sees exactly the state the registry had before the concurrent phase. "
 "Threads working directly on separate registries never affect one another, and different threads may at the same time write different entities' components or different components through views and references.",
 ["schedules"], "all interleavings of readers, reservers and recorders over any registry state; all interleavings of independent registries",
 "No test reads a registry from two threads.",
 ["base_registry.hpp", "archetype.hpp", "view.hpp", "detail/sparse_table.hpp", "detail/dynamic_bitset.hpp", "component.hpp", "type_meta.hpp"],
 [("const paths free of caches", "view.hpp, archetype.hpp, base_registry.hpp const members"), ("atomic reservation", "detail/handle.hpp: reserve")],
 ["values read by each thread; ThreadSanitizer reports"])

prop("C16", "The hash map behaves as a map for every operation history and hash function",
 "For every history of insert, emplace, insert_or_assign, operator[], at, find, count, contains, erase by key or iterator, clear, reserve, copy, move and construction from ranges, the hash map's contents, results and returned iterators are those of an ordinary map; iteration yields every entry exactly once. "
 "This holds for every hash function, however bad, every key type and any power-of-two initial bucket count, including across growth and shrinking. "
 "Elements are constructed and destroyed exactly once, and nothing outside the table's storage is touched.",
 ["histories", "inputs"], "all operation histories, all hash functions, all initial sizes",
 "The tests insert a hundred strings with a good hash; probe-chain displacement and backward shifting only matter with long collision chains crossing the end of the table.",
 ["detail/hash_table.hpp", "detail/hash_map.hpp"],
 [("robin-hood insertion", "detail/hash_table.hpp: _emplace_impl"), ("backward-shift deletion", "detail/hash_table.hpp: erase_impl"), ("growth/shrink", "detail/hash_table.hpp: reserve")],
 ["results of every call compared with a reference map, iteration, element ledger"])

prop("C17", "Sparse maps and component bit sets agree with their mathematical models",
 "For every operation history a sparse map agrees with an ordinary map from unsigned keys to values: results of emplace, insert, operator[], at, find, contains and erase, size, iteration, copies, moves (the source stays usable) and clear, for every key type including its extreme values. "
 "For every history of sets and resets a dynamic bit set tests true exactly at the set positions, and two bit sets or component sets compare equal exactly when they hold the same members, however they were built, and then hash equally.",
 ["histories", "inputs"], "all operation histories, all key widths, positions beyond any previously used block",
 "The tests use five keys and a few positions; equality after shrinking and key-width limits are unreached.",
 ["detail/sparse_table.hpp", "detail/sparse_map.hpp", "detail/dynamic_bitset.hpp", "component.hpp"],
 [("dense/sparse index pair with swap erase", "detail/sparse_table.hpp: emplace/erase/find_impl"), ("trailing zero blocks trimmed", "detail/dynamic_bitset.hpp: set")],
 ["results of every call compared with std::map / std::set models"])

prop("C18", "Arena allocators return disjoint, aligned, in-range memory and fail cleanly",
 "Every non-null pointer from the linear and stack allocators is aligned as requested and denotes memory that lies inside the given buffer and overlaps no other outstanding allocation (nor the allocator's own bookkeeping for it); a request that does not fit returns null and changes nothing. "
 "Freeing stack allocations in reverse order restores the remaining space exactly, reset makes the whole buffer available again, and moving an allocator carries its state along. "
 "The temporary allocator gives each thread its own memory, and reports exhaustion by std::bad_alloc.",
 ["inputs", "histories"], "all sequences of allocate/deallocate/reset/move with any sizes and power-of-two alignments up to 128, any buffer size and misalignment",
 "The tests allocate at most two small blocks in a large buffer; the nearly full, exactly full and misaligned buffers are unreached.",
 ["detail/allocator/linear_allocator.hpp", "detail/allocator/stack_allocator.hpp", "detail/allocator/temp_allocator.hpp"],
 [("aligned bump allocation", "detail/allocator/linear_allocator.hpp: allocate"), ("padding header below each allocation", "detail/allocator/stack_allocator.hpp: allocate/deallocate")],
 ["returned pointers and remaining(); AddressSanitizer with poisoned surroundings"])

prop("C19", "Component types have one identity each, the same in every binary of a program",
 "Component types with different qualified names always have distinct ids and the same type always has the same id throughout a program, in every translation unit and every shared library built as host or client, with default or hidden symbol visibility, whatever the order of initialisation, use or loading - including registries used while objects of static storage duration are initialised. "
 "Consequently a registry created in one binary can be filled, queried, modified and destroyed from another, with the same results as within one binary. "
 "This holds for any number of component types.",
 ["configurations", "programs"], "all partitions of component types over an executable and shared libraries (host and clients, linked or dlopened, default or hidden visibility), all initialisation orders, any number of types",
 "One executable and one library with three types in one order are tested.",
 ["component.hpp", "type_meta.hpp", "detail/macro.hpp", "detail/hash_table.hpp"],
 [("name-keyed id registry with exported linkage", "component.hpp: type_registry::id"), ("type name extraction", "type_meta.hpp: type_name")],
 ["ids reported by each binary, registry operations across binaries"])

prop("C20", "Resource use stays bounded under steady-state churn",
 "Under arbitrarily long operation sequences in which the number of live entities, component types and outstanding commands stays bounded, memory held by the registry, the command buffers and the thread pool stays bounded: storage emptied by destruction, removal, moving away or failed operations is reused or released. "
 "In particular the number of storage blocks of a component set never exceeds what its entities need plus one, recorded commands leave nothing behind once applied, and finished recording threads leave nothing behind after the next flush.",
 ["histories"], "all long-running histories with bounded live state: create/destroy, set/remove, move between registries, failed clones, command recording and flushing, thread turnover, task submission",
 "Tests are short; growth per operation is invisible without measuring over thousands of rounds.",
 ["archetype.hpp", "detail/handle.hpp", "command.hpp", "thread_pool/task.hpp", "detail/sparse_table.hpp"],
 [("empty trailing block released", "archetype.hpp: swap_erase"), ("staged values released when applied", "command.hpp: command_set/command_create"), ("task slots reused", "thread_pool/task.hpp: task_pool")],
 ["allocator statistics (live bytes and blocks) and live component objects sampled each round"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
