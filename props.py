"""What run.py checks: per property the world, the budgets and the words for the evidence."""
WORLDS = {
    "kernel": dict(),
    "fleet": dict(node_flags=["-O2", "-fPIC", "-fno-gnu-unique"], host=["fworld.cpp"], host_flags=["-O2", "-g"], static=False, link=["-rdynamic"], presets=["minimal", "mainnet"]),
    "asan": dict(node_flags=["-O1", "-fPIC", "-fno-gnu-unique", "-fsanitize=address", "-fno-omit-frame-pointer"], host=["fworld.cpp"], host_flags=["-O1", "-g", "-DSIM_ASAN", "-fsanitize=address"],
                 static=False, link=["-rdynamic", "-fsanitize=address"], so_link=["-fsanitize=address"], presets=["minimal", "mainnet"],
                 env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=4:malloc_context_size=2:fast_unwind_on_malloc=1:symbolize=0:abort_on_error=0:exitcode=3:detect_odr_violation=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:max_allocation_size_mb=2000"}),
    "watch": dict(node_flags=["-O2", "-fPIC", "-fno-gnu-unique"], host=["wworld.cpp"], host_flags=["-O2", "-g"], static=False, link=["-rdynamic"], presets=["minimal"]),
    "threads": dict(node_flags=["-O1", "-fPIC", "-fno-gnu-unique", "-fsanitize=thread"], host=["tworld.cpp"], host_flags=["-O2", "-g"], static=False, link=["-rdynamic"],
                    so_link=["-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset", "-Wl,--wrap=memcmp"], presets=["minimal"]),
}
NODE_REAL = ["the whole ssz library of CMakeLists.txt's ssz_sources (hasher, hashtree, containers, bitlist, attestation, validator) and every header of common/, beacon-chain/, helpers/, compiled from the working tree in both presets",
             "all SHA-256 kernels, assembled from the working tree", "libyaml-cpp", "process start-up and shutdown of every node (the module is loaded and unloaded with its own statics)"]
NODE_STUB = ["network, clock and disk between nodes (messages, delays and snapshots are the simulator's)", "memory allocator front end (fails, counts and fills blocks as planned)",
             "helpers/bytes_to_string.hpp, which the repository includes but does not contain (stand-in in /verif/shim)"]
REAL = {
    "fleet": NODE_REAL,
    "asan": NODE_REAL,
    "watch": NODE_REAL,
    "threads": ["the whole ssz library of CMakeLists.txt's ssz_sources and every header, compiled from the working tree (minimal preset) with an instrumentation call before every memory access, function entry and exit and atomic operation",
                "all SHA-256 kernels (not interruptible in this world; C01 interrupts them)", "libyaml-cpp and the C++ library (interruptible at their allocations and locks only)",
                "OS threads with their own stacks and thread locals, and process start-up: every run loads a fresh copy of the module, so every run sees the first uses"],
    "kernel": ["ssz/hasher.cpp and hasher.hpp", "all SHA-256 kernels (ssz/*.asm), assembled with yasm from the working tree", "OS threads with their own stacks and thread locals"],
}
STUB = {
    "fleet": NODE_STUB + ["CPU identification: cpuid and xgetbv answer for the simulated processor, instructions it lacks trap, SHA instructions run in software where the host lacks them"],
    "threads": ["thread scheduler: one thread runs at a time, handed on at planned points", "mutexes, condition variables, once-initialisation and sleeping: blocking is done by the scheduler, a deadlock is reported",
                "memory allocator: every thread has its own region, no block is used twice in a run, freed blocks are overwritten, double frees are reported", "helpers/bytes_to_string.hpp, which the repository includes but does not contain (stand-in in /verif/shim)"],
    "watch": ["network, clocks and disks of the nodes (delays, losses, partitions, skew, torn writes are the simulator's)", "validators (honest and equivocating ones are scripted by the seed)",
              "signatures (an attestation whose bytes are not what a validator sent counts as badly signed)", "the bookkeeping of a node: what it stores, compares and convicts", "helpers/bytes_to_string.hpp, which the repository includes but does not contain (stand-in in /verif/shim)"],
    "asan": NODE_STUB + ["memory errors: AddressSanitizer's shadow memory and red zones"],
    "kernel": ["thread scheduler: one baton passed at planned instructions", "signal delivery: planned breakpoints whose handler runs on the interrupted stack",
               "SHA extensions: executed in software when the host lacks them"],
}
KASSUME = ["scheduling points are instructions of the kernels and of hasher.cpp; the memory model is sequentially consistent (one thread runs at a time)",
           "the host has AVX and AVX2 (implementations the host lacks are skipped, except SHA which is emulated)"]
PROPS = {
    "C01": dict(world="kernel", technique="deterministic simulation: seeded instruction-level thread schedules and nested signal handlers over the real kernels, checked against an independent SHA-256",
                note="Seeded search, no proof: schedules at instruction granularity under sequential consistency, 0-1029 blocks per call, rarely some 65536. Trusts the simulator's own SHA-256 and, on hosts without SHA extensions, its emulation of three instructions.", quick=(70, 10**9), thorough=(720, 10**9),
                rule="A run is 2-4 caller threads each making 1-3 hashing calls (implementation, batch size, buffer placement drawn per call) and up to 4 planned points per call: (instruction, hit count, action). "
                     "Non-trivial: at least one planned point fired inside a call that hashed blocks. Distinct: by the hash of the sequence of (instruction, thread, action) points that fired plus the call shapes.",
                shape="hash of the fired (instruction address, thread, action) sequence and the (implementation, batch size, placement) of every call",
                states="(instruction, action, implementation, batch size) pairs at which an interruption fired", time_unit="scheduling and call events (no clock exists in this code)",
                assumptions=KASSUME, must_fire=["fault_preemption", "fault_signal_handler_hashes", "probe_switch_into_call_in_progress"], selftest=3000),
    "C02": dict(world="kernel", technique="deterministic simulation: seeded buffer placement against unmapped pages, hostile neighbours, signal frames and register state around the real kernels",
                note="Seeded search, no proof: stray writes anywhere in canaried memory, the stack above the call and the module's data, and stray reads that reach an unmapped page are seen; stray reads elsewhere are not.", quick=(70, 10**9), thorough=(720, 10**9),
                rule="A run is 1-2 caller threads making hashing calls whose buffers end or begin at unmapped pages, lie at arbitrary alignment in canaried memory, or are shared read-only; every call starts from random callee-saved registers, "
                     "vector registers, arithmetic flags, rounding modes and stack garbage; neighbours change the surrounding bytes and signal frames land at planned instructions. Non-trivial: at least one planned point fired inside a call that hashed blocks.",
                shape="hash of the fired (instruction address, thread, action) sequence and the (implementation, batch size, placement) of every call",
                states="(instruction, action, implementation, batch size) pairs at which an interruption fired", time_unit="scheduling and call events (no clock exists in this code)",
                assumptions=KASSUME + ["reads outside the input are visible only where they reach an unmapped page; the buffers are placed flush against one in most runs"],
                must_fire=["fault_neighbour_writes", "fault_signal_frame", "fault_preemption"], selftest=3000),
    "C03": dict(world="fleet", technique="deterministic simulation: fleet of nodes on simulated CPUs (cpuid answered, missing instructions trap) with restarts and migration, roots checked against an independent SSZ model",
                note="Seeded search, no proof. 15 processor profiles that the library supports (SHA extensions or usable AVX); AVX-512-only paths do not exist. Values mostly up to some ten kilobytes (BeaconState in both presets), rarely up to 2.7 MB; hash trees up to 6000 chunks under any 64-bit limit.",
                quick=(85, 10**9), thorough=(720, 10**9),
                rule="A run is 1-3 nodes on drawn CPUs, 1-3 object types, up to 26 steps, rarely 500: publish a value, deliver it, snapshot, crash and restart on another CPU, hash a chunk list under a drawn limit, change a field in place, copy. Every root is compared with the model. Non-trivial: at least one fault (crash, migration, torn or lost write, field update) fired.",
                shape="hash of the step kinds, slots, tree sizes and limits, CPUs after each restart and outcomes", states="(type, outcome) of deliveries, (chunk count, depth of limit, CPU) of hash trees, CPUs booted",
                time_unit="simulated milliseconds", time_stat="sim_ms", assumptions=["a CPU is what cpuid reports; the operating system saves AVX state wherever AVX is reported", "the list of instructions needing a feature comes from a disassembly of the module just built"],
                must_fire=["fault_crash_restart", "fault_migrated_to_other_cpu", "probe_hash_tree", "probe_converged", "probe_large_payload"], selftest=400),
    "C04": dict(world="asan", technique="deterministic simulation: seeded damage sequences on delivered payloads under AddressSanitizer and an accounting allocator, checked against an independent strict SSZ decoder",
                note="Seeded search, no proof: payloads mostly up to some ten kilobytes, rarely up to 2.7 MB, 114 types. Accept must equal the strict decoder's verdict, the accepted object must re-encode to the payload, memory is bounded by 16 KiB + 192 bytes per payload byte + 8 object sizes.",
                quick=(85, 10**9), thorough=(720, 10**9),
                rule="A run is one node, 1-2 types, up to 26 payloads each with one drawn damage (truncation, extension, bit, byte and word damage, wrong offsets, over-limit lists, missing delimiters, set padding, splices, stale or foreign messages, noise), delivered into long-lived objects. Non-trivial: at least one damaged payload delivered.",
                shape="hash of the delivered kinds, verdicts and types", states="(type, verdict of library, verdict of model, kind of damage)", time_unit="delivery events (decoding has no clock)",
                assumptions=["a std::exception other than bad_alloc counts as a reported failure"],
                must_fire=["fault_payload_structural", "fault_payload_truncated", "fault_payload_spliced", "probe_payload_accepted", "probe_payload_rejected", "probe_used_after_accept", "probe_large_payload"], selftest=400),
    "C05": dict(world="fleet", technique="deterministic simulation: fleet of replicas under message loss, duplication, reordering, delay, damage, crashes with torn snapshots, allocation failures; convergence and value semantics checked against an SSZ model",
                note="Seeded search, no proof: 1-3 nodes, up to 26 steps (40 in the thorough tier), rarely 500, 114 types.", quick=(85, 10**9), thorough=(720, 10**9),
                rule="A run is 1-3 nodes holding 1-3 replicated objects (two per node), publications, messages with drawn fates and delays, snapshots, crashes, bit rot, allocation failures, copies, moves, in-place updates; after every delivery the object is checked, and at the end one intact delivery per object must bring every replica back. Non-trivial: at least one fault fired.",
                shape="hash of the step kinds, outcomes and types", states="(type, verdict of library, verdict of model, kind of damage) and CPUs booted", time_unit="simulated milliseconds", time_stat="sim_ms",
                assumptions=["an object whose content is unknown (after a rejected payload or a failed allocation) may hold anything until the next accepted payload"],
                must_fire=["fault_crash_restart", "fault_message_lost", "fault_message_duplicated", "fault_message_delayed", "fault_write_torn", "fault_payload_structural", "fault_allocation_failed", "probe_converged", "probe_part_read", "probe_large_payload"], selftest=400),
    "C06": dict(world="asan", technique="deterministic simulation: allocator that fails the k-th allocation (or a burst) of an operation, against a reference execution, under AddressSanitizer and with block accounting",
                note="Seeded search, no proof: single failures and bursts at drawn allocation sites of 12 operations on 114 types. YAML text is outside (libyaml-cpp).", quick=(85, 10**9), thorough=(720, 10**9),
                rule="A run is one node, 1-2 types, up to 26 operations each executed once undisturbed and once with a drawn allocation (or burst) failing, then repeated with memory available. Non-trivial: at least one allocation failed.",
                shape="hash of (operation, failing allocation, type) and outcomes", states="(operation, failing allocation index, type)", time_unit="operation events (no clock)",
                assumptions=["only operator new fails (the library allocates in no other way)"], must_fire=["fault_allocation_failed", "fault_allocation_burst"], selftest=400),
    "C08": dict(world="fleet", technique="deterministic simulation: the same run executed under two different contents and alignments of fresh heap blocks, freed blocks and stack, results compared event by event and with an SSZ model",
                note="Seeded search, no proof: 6 pairs of fill patterns; the stack is filled 24 KiB deep before every call.", quick=(85, 10**9), thorough=(720, 10**9),
                rule="A run as in C05 plus creation of fresh objects and hash trees, executed twice with different memory contents; both event logs must be identical and agree with the model. Non-trivial: at least one fault fired.",
                shape="hash of the step kinds, outcomes and types", states="(type, verdict of library, verdict of model, kind of damage) and CPUs booted", time_unit="simulated milliseconds", time_stat="sim_ms",
                assumptions=["blocks come from operator new; stack garbage deeper than 24 KiB below the caller is not varied"], must_fire=["fault_memory_contents_changed", "probe_fresh_object", "fault_crash_restart", "probe_hash_tree"], selftest=300),
    "C09": dict(world="asan", technique="deterministic simulation: seeded damage sequences on YAML text under AddressSanitizer, round trips checked against an SSZ model",
                note="Seeded search, no proof: the node's own text, intact or with up to two of seven kinds of damage, up to 60 kB, and text of the specification's spelling, intact or with one structural fault.", quick=(85, 10**9), thorough=(720, 10**9),
                rule="A run is one node, 1-2 types, up to 26 texts each optionally damaged, read into long-lived objects, then the intact text read into the same object. Non-trivial: at least one damaged text was read.",
                shape="hash of the text damage, outcomes and types", states="(kind of text damage, outcome, type)", time_unit="text events (no clock)",
                assumptions=["too short byte and bit strings and hexadecimal digits that are none are only required to be contained"],
                must_fire=["fault_text_truncated", "fault_text_garbled", "fault_text_spliced", "fault_text_scalar", "fault_text_hex", "probe_text_round_trip", "probe_text_accepted", "probe_spec_text_read", "fault_text_denotes_nothing"], selftest=100),
    "C10": dict(world="fleet", technique="deterministic simulation: replicas diverged by single-leaf corruption, missed and torn updates and repaired; ==, != and roots compared with equality of encodings from both sides",
                note="Seeded search, no proof: pairs of values of 114 types, most differing in exactly one leaf or one list length.", quick=(70, 10**9), thorough=(600, 10**9),
                rule="A run is one node with two replicas of 1-2 objects; they are brought in step, made to diverge (one leaf, a missed update, damaged delivery, in-place update), compared from both sides, repaired and compared again. Non-trivial: at least one divergence or fault fired.",
                shape="hash of step kinds, comparison outcomes and types", states="(type, verdict of library, verdict of model, kind of damage)", time_unit="comparison and delivery events (no clock)",
                assumptions=["hash collisions of SHA-256 do not occur"], must_fire=["fault_single_leaf_divergence", "fault_replica_missed_update", "probe_compared_same", "probe_compared_different", "probe_large_payload"], selftest=400),
    "C12": dict(world="fleet", technique="deterministic simulation: the same drawn history of work and faults repeated round after round in one process, with all objects gone in between, under an accounting allocator that fails on plan",
                note="Seeded search, no proof: 8 rounds, followed to 256 when memory was kept; blocks taken with operator new by the library and by libyaml-cpp on its behalf, or by the library from the C allocator (not mmap); 114 types.", quick=(70, 10**9), thorough=(600, 10**9),
                rule="A run is one node, 1-2 types and 1-10 steps (publish, deliver intact or damaged, copy, change in place, compare, hash chunk lists, read text intact or damaged, fail allocations), repeated 8 times with fresh objects; growth from round 2 to 4 to 8 is followed to round 256. Non-trivial: at least one fault fired.",
                shape="hash of step kinds, outcomes and types", states="(type, outcome, kind of damage)", time_unit="simulated events (no clock)",
                assumptions=["memory that stops growing within 256 rounds is kept for reuse, not lost", "memory taken by other means than operator new and the C allocator is not counted"],
                must_fire=["probe_round", "fault_payload_structural", "fault_allocation_failed", "fault_text_truncated", "fault_text_denotes_nothing", "probe_payload_rejected"], selftest=400),
    "C07": dict(world="threads", technique="deterministic simulation: real threads under a seeded scheduler that may switch before every memory access, allocation, lock and function entry of the library, results compared with a sequential execution",
                note="Seeded search, no proof: 2-4 threads, up to 10 operations each, sequentially consistent memory. The SHA-256 kernels run without interruption here (C01 interrupts them); libyaml-cpp and the C++ library are interrupted only where they allocate or lock.",
                quick=(85, 10**9), thorough=(720, 10**9),
                rule="A run loads a fresh copy of the library and lets 2-4 threads each do up to 6 (thorough: 10) operations on two objects of its own and up to two shared objects it only reads; the seed draws types, values, kinds of operation, the mean distance between switches and how often a switch follows a write to memory the thread does not own. "
                     "Every result is compared with a second fresh copy executing the same operations thread after thread. Non-trivial: at least one switch from inside one operation into the middle of another one.",
                shape="hash of the sequence of (interrupted operation, resumed operation) kinds at every switch", states="(interrupted operation kind, resumed operation kind) pairs", time_unit="memory accesses and function entries of the library (no clock exists in this code)",
                time_stat="probe_access_points",
                assumptions=["one thread runs at a time and memory is sequentially consistent; reorderings of a weaker memory model are not explored", "instrumented accesses are those the compiler emits at -O1 for C++ code"],
                must_fire=["fault_preemption", "fault_preemption_inside_two_operations", "probe_op_on_shared_object", "probe_op_on_own_object", "probe_op_cout_user", "probe_first_uses_race", "fault_damaged_payload"], selftest=400),
    "C11": dict(world="watch", technique="deterministic simulation: nodes watching equivocating validators over a lossy, delaying, partitioned network with crashes, torn snapshots and skewed clocks; verdicts checked against the Casper and life-cycle rules",
                note="Seeded search, no proof: 1-3 nodes, 2-8 validators, up to 8 epochs (14 in the thorough tier), rarely 60, around edge epochs up to the largest. Signatures are simulated (the library checks none).", quick=(70, 10**9), thorough=(720, 10**9),
                rule="A run is 1-3 nodes, 2-8 validator records and the attestations of honest and lying validators (double votes differing in one field, surrounding and nearly surrounding votes, repetitions, malformed index lists), sent with drawn fates, with crashes, snapshots, clock skew and partitions; every verdict is checked when given, and after one intact round every node must hold exactly the equivocators. Non-trivial: at least one fault fired.",
                shape="hash of the step kinds, receivers and message fates", states="(order of sources, order of targets, same vote) of compared pairs and (status, phase) of records", time_unit="simulated slots", time_stat="sim_slots",
                assumptions=["validity of an indexed attestation is structural (the library verifies no signature)"],
                must_fire=["fault_message_lost", "fault_message_delayed", "fault_message_duplicated", "fault_message_damaged", "fault_crash_restart", "fault_write_torn", "fault_partition", "fault_clock_ahead", "fault_clock_behind", "fault_byzantine_validator",
                           "fault_malformed_attestation", "probe_equivocator_found", "probe_slashed", "probe_full_committee", "probe_converged", "probe_recovered_from_disk"], selftest=400),
}
