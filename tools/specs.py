"""What each check runs."""

import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "64-bit little-endian target and the pinned compiler's layout of Vec/String/Box (as the repository itself assumes)",
    "num-bigint 0.4.3 stores digits in a Vec<u64>",
]

GEN = ("Each case is a pure function of a recorded sequence of pseudo-random draws (seeded by VERIF_SEED, property and case number), "
       "run half in a build with and half in one without debug assertions. ")

PROGS = ("Programs of 60 generated type definitions each (named/tuple/unit structs, enums of any mix of variants, hostile and raw names, generics, attributes, "
         "contexts) are compiled with the derive - not compiling, while a control with hand-written implementations does, is a violation - in builds with and without "
         "debug assertions, then run over values drawn as a pure function of a recorded sequence of draws. ")
GENTECH = "property-based testing: generated programs and values, model oracle, shrinking of both to a replay file"

SPECS = {
    "C01": {"bin": "deep", "big": 4, "cases": 600000, "rule": GEN + "A value of a drawn type (recursive enum with every supported container, plain types up to 1 MiB, tuples of all arities, alignments 1 to 4096) is serialized by the complete serializer, into drawn storage configurations, made in a drawn way, with a drawn plan of buffer moves, and compared with the input field by field. A few cases have a single piece of data of 4 GiB or more. Non-trivial: the value owns at least one other piece of data."},
    "C02": {"bin": "deep", "cases": 500000, "rule": GEN + "As C01; pointers, capacities, empty containers and disjointness are examined in the output, then the input is overwritten/dropped and the output read again. Non-trivial: the value owns at least one other piece of data."},
    "C03": {"bin": "deep", "cases": 800000, "rule": GEN + "A session of 1 to n values, raw pushes, reserves and shrinks under a drawn plan of buffer moves (up, down, back to a previous address, stay), some with positions beyond 4 GiB, some of hundreds of steps with as many moves. Non-trivial: the buffer moved while pointers had already been written."},
    "C04": {"bin": "deep", "big": 4, "cases": 700000, "rule": GEN + "Pointer-offset output is copied elsewhere, the input dropped, and decoded from offsets alone; some start beyond 4 GiB. A few cases have a single piece of data of 4 GiB or more. Non-trivial: the value owns at least one other piece of data."},
    "C05": {"bin": "deep", "big": 4, "cases": 600000, "rule": GEN + "Pure-copy output compared with the predicted sequence of pieces and bytes. A few cases have a single piece of data of 4 GiB or more. Non-trivial: the value owns at least one other piece of data."},
    "C06": {"bin": "deep", "cases": 300000, "rule": GEN + "Same value by all kinds of serializer, repeated and with other initial capacities and buffer moves; positions, lengths and bytes compared. Non-trivial: the value owns at least one other piece of data."},
    "C07": {"bin": "deep", "cases": 450000, "rule": GEN + "Sessions of several values with raw pushes between, and the same values again, up to hundreds, after existing contents, for each kind. Non-trivial: at least two values."},
    "C08": {"bin": "store", "big": 4, "cases": 1000000, "rule": GEN + "Histories of storage operations over types of sizes 0 to 8192 and alignments 1 to 4096, against a byte-level model. A few cases have a single piece of data of 4 GiB or more. Non-trivial: at least some pushes with data stayed in the storage while it was changed."},
    "C09": {"bin": "store", "cases": 700000, "rule": GEN + "Histories of storage operations with amounts chosen around capacity limits, against a model of the capacity rules, including the calls which must panic. Non-trivial: capacity changed or a limit was hit."},
    "C10": {"bin": "store", "cases": 900000, "rule": GEN + "Histories of storages (creation to drop, moves, panics, use by serializers) under an allocator which checks sizes, alignments, double and missing releases and guard bytes; and histories where the allocator refuses one request, which must end in the allocation error handler (each in a process of its own). Non-trivial: the storage allocated."},
    "C11": {"bin": "deep", "cases": 400000, "rule": GEN + "Same value(s) into fresh storage and into one with a history (used, cleared, shrunk, pre-sized, lent, left behind by a session which ended in a panic; up to 300 rounds). Non-trivial: the value owns at least one other piece of data."},
    "C12": {"special": "types_check", "programs": 3, "types": 60, "cases": 300000, "technique": GENTECH, "rule": PROGS + "Each value is serialized by every kind of serializer and compared with the generator's own account of the fields. Non-trivial: the value owns at least one other piece of data."},
    "C13": {"special": "types_check", "programs": 3, "types": 20, "cases": 120000, "technique": "property-based testing: generated programs and operation trees, simulated output as oracle, shrinking of both to a replay file",
            "rule": "Programs of 20 generated serializer definitions each (derived as each kind or written by hand from the required methods; hostile names, field orders, extra fields, generics, where-clauses, storage types named in many ways, storage held by value, mutable reference, Box or a type of the user's), compiled - not compiling, while a control with the expansion written by hand does, is a violation - in builds with and without debug assertions. Each serializer then runs drawn operation trees and serializes drawn values which ask for their own output position, against a simulated output. Non-trivial: at least two pointers and four operations, or a value of at least three pieces."},
    "C14": {"bin": "low", "cases": 300000, "rule": GEN + "A tree of serializer operations (push, push_slice, push_and_process[_slice], raw pushes, push_empty[_slice], overwrite, overwrite_with, reserve, shrink) run by every kind of serializer (built-in, derived, hand-written from the required methods or from the building blocks; values of up to 560 bytes overwritten, a few outputs of more than 1 MiB) over AlignedVec and a storage which moves on every reserve, against a simulated output. Non-trivial: at least two pointers and four operations."},
    "C15": {"special": "types_check", "programs": 3, "types": 60, "cases": 300000, "technique": GENTECH, "rule": PROGS + "Half of the fields are tagged with proxies, named in many ways; which implementation was called for which field, in which order, and the output, are compared with the generator's own account. Non-trivial: at least one proxy had to be called."},
    "C16": {"special": "rejects_check", "legal": 300, "batches": 3, "illegal": 2400, "technique": "property-based testing: generated programs with an oracle saying whether they may compile", "rule": "Whole programs, each creating a storage or serializer with drawn parameters (around every documented limit, written in several ways) or storing a value of drawn alignment in a drawn position through a drawn operation. The documented rules, stated once more in the generator, say whether it must be rejected by the compiler (each illegal one compiled by itself, without and with optimization and debug assertions) or compile and run. Non-trivial: all; distinct by program text."},
    "C17": {"bin": "util", "cases": 8000000, "rule": GEN + "Helper function, position and alignment drawn (edge values favoured), compared with 128-bit arithmetic. Non-trivial: inside the documented domain."},
    "C18": {"bin": "low", "cases": 1500000, "rule": GEN + "Position mappings and address trackers with real and made-up addresses; pointer groups (up to 130,000 pointers) with histories of push_pos, set_addr and correct_ptrs over buffers of 4 KiB and of more than 4 GiB, every byte near a pointer (or all bytes) compared. Non-trivial: mapping within range, or at least two pointers recorded."},
    "C19": {"bin": "deep", "cases": 1000000, "rule": GEN + "Values made of or containing BigInt/BigUint (up to tens of thousands of digits), by every kind of serializer. Non-trivial: all (each holds at least one big integer or is a tree which may)."},
    "C20": {"bin": "deep", "cases": 1200000, "rule": GEN + "Values with many empty and zero-sized parts by every kind of serializer; output lengths, emptiness rules and read-back. Non-trivial: at least one empty or zero-sized part."},
    "C21": {"bin": "deep", "cases": 600000, "rule": GEN + "Every byte of the input and all it owns (incl. lengths, capacities, pointers) compared before/after sessions, repeated and from several threads. Non-trivial: the value owns at least one other piece of data."},
    "C22": {"bin": "store", "cases": 250000, "rule": GEN + "Histories and serializations over storages which implement only the required operations: moving on each reservation, skipping to the next page (its start, or a place congruent to the position), segmented. Non-trivial: data was pushed."},
    "C23": {"special": "rejects_check", "legal": 300, "batches": 3, "illegal": 2400, "technique": "property-based testing: generated programs with an oracle saying whether they may compile", "rule": "Whole programs, each with one definition for the Serialize or Serializer derive and a use of it: complete and unambiguous, or such a one with one thing changed which makes it incomplete, ambiguous or unserializable (the generator knows which). Each wrong one is compiled by itself and must be refused; the good ones must compile and run. Non-trivial: all; distinct by program text."},
    "C24": {"special": "mem_check", "cases": 500000, "miri": 1600, "technique": "property-based testing under instrumented execution: generated sessions and storage histories, interpreted (Miri) or with AddressSanitizer, shrinking of failures",
            "rule": "Each case is a pure function of a recorded sequence of pseudo-random draws (seeded by VERIF_SEED, property and case number): a session of values of drawn types, raw pushes, reserves, shrinks and panics in serialize_data, by built-in and derived serializers over new, pre-sized, lent and used storage; a history of storage operations incl. requests which must panic, reads and writes; or a value serialized on two threads. The output is read through offsets and compared with the input. Most cases run with AddressSanitizer, some interpreted by Miri, which knows about uninitialised, freed, misaligned and concurrently used memory; half of each with debug assertions. Non-trivial: the session put at least one owned piece of data in the output and it was read back, or a storage changed capacity with data in it."},
    "C25": {"special": "elsewhere_check", "miri": 600, "technique": "property-based testing under instrumented execution: generated sessions, storage histories and limit arithmetic, interpreted (Miri) as on 32-bit and big-endian platforms, shrinking of failures",
            "rule": "Each case is a pure function of a recorded sequence of pseudo-random draws (seeded by VERIF_SEED, property and case number), interpreted by Miri as the machine code of i686 (32-bit, little-endian, 8-byte integers aligned to 4), powerpc (32-bit, big-endian) or s390x (64-bit, big-endian), with and without debug assertions: sessions of values of drawn types by all kinds of serializers with the output read through its pointers as that platform represents data, and compared with the input; histories of a storage; alignment helpers and requests for space near the limits of addresses, against 128-bit arithmetic and what the allocator's Layout accepts. Non-trivial: owned data was put in the output and read back, a storage changed capacity with data in it, or a limit was tried."},
    "C26": {"special": "configs_check", "cases": 400000, "technique": "property-based testing over build configurations: generated sessions, storage histories and limit arithmetic, with every combination of features and several profiles",
            "rule": "Each case is a pure function of a recorded sequence of pseudo-random draws (seeded by VERIF_SEED, property and case number), run in a program built with one of the combinations of cargo features (none, derive, num_bigint, both; without derive, implementations are written by hand) and one of the profiles dev (no optimisation), o3 (optimisation level 3, whole-program) and os (level s, overflow checks but no debug assertions): sessions of values of drawn types by all kinds of serializers, output read back and compared; histories of a storage; helpers and requests near limits. Non-trivial: owned data was put in the output and read back, a storage changed capacity with data in it, or a limit was tried."},
    "C27": {"special": "layouts_check", "cases": 400000, "technique": "property-based testing over memory layouts: generated sessions, storage histories and limit arithmetic, with the standard library and all else built with fields in shuffled orders",
            "rule": "Each case is a pure function of a recorded sequence of pseudo-random draws (seeded by VERIF_SEED, property and case number), run in a program in which the compiler shuffled the fields of every type whose layout is left to it (-Zrandomize-layout), those of the standard library and dependencies (rebuilt) as those of the library and the test's own types; several programs, with different shuffles, such that the parts of a vector come in four different orders: sessions of values of drawn types by all kinds of serializers, output read back as the types are laid out there and compared; histories of a storage; helpers and requests near limits. Non-trivial: owned data was put in the output and read back, a storage changed capacity with data in it, or a limit was tried."},
    "C28": {"special": "mem_check", "cases": 160000, "miri": 240, "technique": "property-based testing under instrumented execution: generated sessions cut into parts which run on different threads, interpreted (Miri, data races included) or with AddressSanitizer, shrinking of failures",
            "rule": "Each case is a pure function of a recorded sequence of pseudo-random draws (seeded by VERIF_SEED, property and case number): 1 to 3 sessions over the same values at the same time, by built-in and derived serializers of all kinds with owned and boxed storage, each cut at drawn points with the next part run on a new thread, ended on another, output then read by several threads at once, changed and dropped on yet another. Non-trivial: several sessions or several parts, and owned data was read back."},
}
