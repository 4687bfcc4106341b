#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))

ASM = ["ssz/sha256_shani.asm", "ssz/sha256_avx.asm", "ssz/sha256_avx2.asm", "ssz/sha256_avx_one_block.asm", "ssz/transpose_avx2.asm"]
HASH = ["ssz/hasher.hpp", "ssz/hasher.cpp"] + ASM
TREE = ["ssz/hashtree.hpp", "ssz/hashtree.cpp", "helpers/math.hpp"]
CONT = ["ssz/ssz_container.hpp", "ssz/ssz_container.cpp", "common/containers.hpp"]
TYPES = ["common/bytes.hpp", "common/slot.hpp", "common/boolean.hpp", "common/bitlist.hpp", "common/bitlist.cpp", "common/bitvector.hpp"]
BC = ["beacon-chain/attestation.hpp", "beacon-chain/attestation.cpp", "beacon-chain/beacon_block.hpp", "beacon-chain/beacon_state.hpp",
      "beacon-chain/deposits.hpp", "beacon-chain/eth1data.hpp", "beacon-chain/validator.hpp", "beacon-chain/validator.cpp"]

p("C01", "Batched hashing is right under every interleaving and interruption",
  "Hashing a batch of n 64-byte blocks writes, for every block, exactly its SHA-256 digest, with every hashing implementation and for every n (including 0), "
  "whichever other hashing calls run on other threads at the same time and wherever this call is preempted. "
  "The same holds when a call is interrupted at any instruction by a signal handler that itself hashes.",
  ["schedules", "fault_sequences", "inputs"],
  "all interleavings at instruction granularity of hashing calls on several threads, all points at which a signal may arrive, all batch sizes, all block contents, every implementation the CPU offers",
  "The four unit tests hash one fixed 512-byte buffer once per implementation, in one thread, with one batch size; no preemption, no second caller, no signal.",
  HASH, [("sha256_shani", "ssz/sha256_shani.asm"), ("sha256_8_avx2", "ssz/sha256_avx2.asm"), ("sha256_4_avx", "ssz/sha256_avx.asm"),
         ("sha256_1_avx", "ssz/sha256_avx_one_block.asm"), ("Hasher::hash_64b_blocks", "ssz/hasher.hpp")],
  [("working state of a hash in progress", "must belong to the call, never to the process", "ssz/sha256_*.asm (.data and stack frames)")],
  ["digests written to each caller's output buffer"])

p("C02", "Hashing touches only its own buffers and leaves the caller's context intact",
  "A hashing call reads only its n*64 input bytes, writes only its n*32 output bytes, and never writes anything another thread may be using, wherever the buffers lie (any alignment, next to unmapped pages, read-only input, next to memory another thread keeps changing). "
  "When it returns, everything the calling convention promises the caller is as before: callee-saved registers, stack pointer, direction flag, floating-point control state; and it relies on no previous content of registers or stack.",
  ["schedules", "inputs", "fault_sequences"],
  "all buffer placements and alignments, all batch sizes, all prior register and stack contents, all points at which another thread changes neighbouring memory or a signal frame is pushed",
  "The unit tests use buffers in the middle of mapped memory and look only at the digest.",
  HASH, [("prologue/epilogue and tail handling", "ssz/sha256_*.asm"), ("batch loop", "ssz/hasher.cpp")],
  None, ["canaries and guard pages around the buffers", "registers at return", "memory changed by the neighbour thread"])

p("C03", "Every node of a mixed-CPU fleet computes the same, correct SSZ root",
  "For the same object, or the same chunk list and limit, every node computes the hash tree root that SSZ defines, whatever CPU it runs on among those the library supports, and a node restarted or migrated onto another such CPU computes it again. "
  "No node ever executes an instruction its CPU does not report.",
  ["configurations", "histories", "fault_sequences", "inputs"],
  "all CPU feature reports with SHA extensions or usable AVX (including processors or hypervisors that report few leaves), all restart and migration histories, all object types and values, all chunk counts and limits",
  "Tests run on one real CPU and one emulated one, hash fixed vectors and compute no root; dispatch happens once per process before main, so no test can vary it.",
  ["ssz/hasher.cpp", "ssz/hasher.hpp"] + TREE + CONT + ASM + TYPES + BC,
  [("Hasher::implemented, best_sha256_implementation", "ssz/hasher.cpp"), ("zero hash table, merkleize, mix_in", "ssz/hashtree.cpp"), ("hash_tree of every type", "common/*.hpp, beacon-chain/*")],
  [("HashTree::hasher", "implementation chosen at start-up", "ssz/hashtree.cpp")], ["hash_tree_root() of every type", "HashTree::hash_tree_root()", "instructions executed"])

p("C04", "A damaged payload is rejected or represented exactly, never misread",
  "Given any bytes, decoding an object from its binary form either reports failure or yields an object whose own encoding is exactly those bytes and whose parts read accordingly; it accepts a payload precisely when the bytes are a canonical SSZ encoding within the type's declared capacities. "
  "It always terminates, reads nothing outside the payload, takes memory in proportion to the payload, and the object can afterwards be encoded, hashed, copied and printed safely.",
  ["fault_sequences", "inputs"],
  "all types, all payloads, and all sequences of truncation, extension, bit and byte damage, offset damage, splicing of two messages, torn and stale writes",
  "The shipped tests decode no payload at all (test_ssz is not buildable here) and upstream decodes only well-formed vectors.",
  CONT + TYPES + BC, [("deserialize_, offsets", "ssz/ssz_container.cpp"), ("list, vector, bit collections decoders", "common/containers.hpp, common/bitlist.cpp, common/bitvector.hpp")],
  None, ["result of deserialize", "serialize() of the accepted object", "memory accesses and allocations"])

p("C05", "An intact message is always recovered exactly, whatever came before it",
  "An object that receives an intact encoding accepts it and then equals the sent value in encoding, root, comparison and everything its public interface tells (parts, accessors, elements, sizes, conversions), whatever that object held before: earlier values, damaged or over-long payloads that were rejected half way, failed allocations, copies and assignments, or a restart from a torn snapshot. "
  "A fleet of replicas therefore converges on the last published values within one intact delivery each once faults stop, and nothing done to one object changes another.",
  ["histories", "fault_sequences", "crash_points"],
  "all histories of deliveries (lost, duplicated, reordered, delayed, damaged), crashes with lost or torn snapshots, allocation failures, copies and assignments, over all object types",
  "No existing test decodes twice into one object or uses an object after a failure.",
  CONT + TYPES + BC, [("decoders resetting previous content", "common/containers.hpp, common/bitlist.cpp, common/bitvector.hpp, ssz/ssz_container.cpp"), ("value semantics of containers", "ssz/ssz_container.hpp")],
  [("m_arr", "previous content that a decode must replace", "common/*.hpp")], ["serialize(), hash_tree_root(), operator==, every part and accessor after each delivery"])

p("C06", "An allocation failure at any point is reported and leaves nothing broken",
  "If memory runs out at any allocation inside decoding, encoding, hashing, copying, comparing or hexadecimal conversion, the call reports it (by std::bad_alloc or a false result) instead of returning a wrong result or ending the process, frees what it had allocated, and leaves its read-only arguments unchanged. "
  "The objects involved stay destroyable and reusable, and repeating the call once memory is available gives the correct result.",
  ["fault_sequences", "histories"],
  "every allocation site reached by every operation on every type, single failures and bursts, in any history of earlier successes and failures",
  "No test injects an allocation failure.",
  CONT + TYPES + TREE + BC, [("vector based building of results", "ssz/ssz_container.cpp, ssz/hashtree.cpp, common/*.hpp")],
  None, ["exception or result", "live allocations", "later results"])

p("C07", "Independent and read-only concurrent use gives sequential results",
  "Threads that each work on their own objects, and threads that only read a shared object (encode, root, compare, copy, print), get exactly the results they would get alone, under every interleaving, including the very first uses after start-up. "
  "No such operation disturbs process-wide state another thread may be using, such as the formatting state of the standard streams.",
  ["schedules", "histories"],
  "all interleavings, at the granularity of individual memory accesses, of operations of all types on private objects and const operations on shared objects",
  "All existing tests are single threaded.",
  CONT + TYPES + TREE + BC + ["ssz/hasher.cpp"], [("absence of mutable shared state", "ssz/hashtree.cpp, ssz/ssz_container.cpp, common/*.hpp")],
  [("std::cout formatting flags", "must not be touched by conversions", "common/bitlist.cpp, common/bitvector.hpp")], ["results of every operation", "std::cout.flags()"])

p("C08", "Fresh objects hold the SSZ default; results never depend on stale memory",
  "A newly created object of any type has the SSZ default value (its encoding, root and comparison say so), and every result is a function of the values involved only, never of what the memory of objects, heap blocks or stack frames held before.",
  ["histories", "configurations"],
  "all types and operation histories, all previous contents of the heap blocks and stack memory the library is given",
  "Tests see whatever fresh, usually zero, memory the process happens to start with.",
  TYPES + CONT + TREE + BC, [("member initialisation", "common/*.hpp, beacon-chain/*.hpp"), ("scratch arrays", "ssz/hashtree.cpp")],
  None, ["serialize() and hash_tree_root() of new objects", "all results under different memory poison"])

p("C09", "Text form round-trips and damaged text is contained",
  "The YAML text of any object, as the object writes it or in the spelling of the consensus specification tests (maps, sequences, decimal integers, 0x strings), decodes to an equal object with the same encoding and root. "
  "Text that denotes no value of the type (a field missing, more elements, bits or bytes than fit, an integer outside 64 bits, another kind of node) is never accepted. "
  "Text that was truncated, garbled or spliced never causes memory errors, hangs or process termination: decoding returns false, throws a standard exception, or yields an object that encodes canonically within its capacities and can be hashed, and a later decode of intact text into the same object is exact.",
  ["inputs", "fault_sequences", "histories"],
  "all types and values, all spellings, all damage to the text, all sequences of damaged and intact texts into one object",
  "Upstream compares well-formed vectors only, and none of it runs here.",
  TYPES + CONT + BC + ["helpers/bytes_to_int.hpp"], [("encode/decode, hexadecimal conversion", "common/bitlist.cpp, common/bitvector.hpp, common/bytes.hpp, helpers/bytes_to_int.hpp, ssz/ssz_container.cpp")],
  None, ["result or exception of decode", "encode() text"])

p("C10", "Replicas compare equal exactly when they hold the same value",
  "Two objects of the same type compare equal if and only if their encodings are equal, and their roots are equal in exactly the same cases; so a replica that diverged in any single field through corruption, a torn snapshot or a missed update is always told apart, and a repaired replica is again equal.",
  ["fault_sequences", "histories", "inputs"],
  "all types, all pairs of values produced by corruption, torn or stale snapshots, partial updates and repair",
  "No test compares two different objects of a container type.",
  CONT + TYPES + BC, [("operator==", "ssz/ssz_container.hpp, common/*.hpp, beacon-chain/*.hpp"), ("hash_tree", "all types")],
  None, ["operator==, operator!=, hash_tree_root()"])

p("C11", "Every node convicts exactly the validators that broke the rules",
  "Whatever the network loses, repeats, reorders or damages, and through crashes, restarts and wrong clocks, every node judges what reached it by the phase0 rules: "
  "two votes break the rules exactly when they differ and have the same target epoch, or the first surrounds the second (earlier source epoch and later target epoch); "
  "an indexed attestation counts exactly when its indices are not empty and strictly increasing; "
  "and at any epoch a validator is active exactly when activation_epoch <= epoch < exit_epoch, slashable exactly when not slashed and activation_epoch <= epoch < withdrawable_epoch, "
  "and eligible for the activation queue exactly when its eligibility epoch is unset (2^64-1) and its effective balance is 32*10^9. "
  "So an honest validator is never convicted, and nodes that hold the same evidence convict the same validators.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of honest and equivocating votes, all orders, losses, repetitions and damage of their delivery, all crash points and clock errors, all 64-bit epochs and validator records",
  "No test in the repository calls any of these functions.",
  ["beacon-chain/attestation.hpp", "beacon-chain/attestation.cpp", "beacon-chain/validator.hpp", "beacon-chain/validator.cpp", "common/slot.hpp", "common/bytes.hpp", "common/containers.hpp", "config/constants.hpp"],
  [("AttestationData::is_slashable", "beacon-chain/attestation.cpp"), ("IndexedAttestation::is_valid", "beacon-chain/attestation.cpp"), ("Validator::is_active, is_slashable, is_eligible_for_activation_queue", "beacon-chain/validator.cpp")],
  None, ["the verdict on every pair of votes a node holds", "the validity of every attestation received", "the status of every validator at the node's own epoch"])

p("C12", "Repeated work leaves nothing behind",
  "Whatever a node does with messages, objects, hash trees and text, intact or damaged, and whatever fails on the way, the memory it takes is given back once the objects involved are gone: "
  "repeating the same work any number of times never makes the process hold more than it held after the first rounds, whether the work was accepted, refused, interrupted by an exception or ended by a failed allocation.",
  ["histories", "fault_sequences", "inputs"],
  "all types, all histories of intact and damaged messages and texts, copies, comparisons and hash computations, all allocation failures, any number of repetitions",
  "Tests run an operation once and end; what it leaves behind goes with the process.",
  TYPES + CONT + TREE + BC, [("deserialize, decode, from_hexstring, hash_tree", "common/*.hpp, common/bitlist.cpp, ssz/ssz_container.cpp, ssz/hashtree.cpp, beacon-chain/*")],
  None, ["memory held by the process between rounds of the same work"])

# ---- properties this family cannot decide here -------------------------------------------------
PURE = "Sampled inputs could exercise it, but there is no test of it at all in the buildable suite; it must hold for every input."
p("N04", "Integer helpers are exact",
  "integer_squareroot(x) is the largest r with r*r <= x, and log2ceil(n) is the smallest k with 2^k >= n, for every value of every unsigned type.",
  ["inputs"], "all integers", PURE, ["helpers/math.hpp"], [("integer_squareroot, log2ceil", "helpers/math.hpp")])
p("N05", "Fixed byte strings: conversions and operators",
  "Integer and hexadecimal construction, concatenation, xor and indexing of fixed byte strings follow their mathematical definition for every value.",
  ["inputs"], "all byte strings and integers", PURE, ["common/bytes.hpp", "helpers/bytes_to_int.hpp"], [("Bytes", "common/bytes.hpp")])
p("N06", "Network constants match the published presets",
  "Every constant of the minimal and mainnet configuration has the value of the corresponding eth2 phase0 preset.",
  ["configurations"], "both presets, every constant", "No test compares them with the published presets.", ["config/minimal.hpp.in", "config/mainnet.hpp.in", "config/constants.hpp"], [("constants", "config/*")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
