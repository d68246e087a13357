"""What each check builds and runs."""
TYPES_SRC = ["mc.cpp", "p_types.cpp", "adapt_a.cpp", "adapt_b.cpp", "adapt_c.cpp",
             ("adapt_d.cpp", ["-DPART=0"]), ("adapt_d.cpp", ["-DPART=1"]), ("adapt_d.cpp", ["-DPART=2"])]
PROGRAMS = {
    "types": {"src": TYPES_SRC, "own": ["mc.cpp", "p_types.cpp"]},
    "guarded": {"src": TYPES_SRC + ["guard.cpp"], "own": ["mc.cpp", "p_types.cpp", "guard.cpp"],
                "link": ["-Wl,--wrap=sha256_shani,--wrap=sha256_8_avx2,--wrap=sha256_4_avx"], "fallback": "types"},
    "hash": {"src": ["mc.cpp", "p_hash.cpp"]},
    "merkle": {"src": ["mc.cpp", "p_merkle.cpp"], "defs": ["-DCUSTOM_HASHER"], "libdefs": ["-DCUSTOM_HASHER"], "fallback": "merkle_default"},
    "merkle_default": {"src": ["mc.cpp", "p_merkle.cpp"]},
    "giant": {"src": ["mc.cpp", "p_giant.cpp"], "fallback": "giant_public"},
    "giant_public": {"src": ["mc.cpp", "p_giant.cpp"], "defs": ["-DMC_NO_CONTAINER"]},
    "prims": {"src": ["mc.cpp", "p_prims.cpp"]},
    "fields": {"src": ["mc.cpp", "p_fields.cpp"]},
    "conc": {"src": ["mc.cpp", "p_conc.cpp"]},
    "wide": {"src": ["mc.cpp", "p_wide.cpp"] + TYPES_SRC[2:], "own": ["mc.cpp", "p_wide.cpp"], "link": ["-Wl,-z,now"]},
    "oom": {"src": ["mc.cpp", "p_oom.cpp", "alloc.cpp"] + TYPES_SRC[2:], "own": ["mc.cpp", "p_oom.cpp", "alloc.cpp"]},
    "mem": {"src": ["mc.cpp", "p_types.cpp", "alloc.cpp"] + TYPES_SRC[2:], "own": ["mc.cpp", "p_types.cpp", "alloc.cpp"]},
    "work": {"src": ["mc.cpp", ("p_work.cpp", ["-fno-builtin"])] + TYPES_SRC[2:], "own": ["mc.cpp", "p_work.cpp"], "defs": ["-DMC_WORK"],
             "link": ["-Wl," + ",".join("--wrap=" + x for x in ("sha256_shani", "sha256_8_avx2", "sha256_4_avx"))]},
    "life": {"src": ["p_life.cpp"] + TYPES_SRC[2:], "own": ["p_life.cpp"]},
    "lifedrv": {"src": ["mc.cpp", "p_lifedrv.cpp"], "lib": False},
    "cpu": {"src": ["mc.cpp", "p_cpu.cpp"], "archive": True},
}


def both(program, flavor="opt"):
    return [{"program": program, "preset": p, "flavor": flavor, "tag": p} for p in ("minimal", "mainnet")]


DISTINCT = " distinct_nontrivial counts the different inputs among them, by a 64-bit hash."
CHECKS = {}


def add(p, runs, rule, level="exploration", assumptions=(), evaluations=None):
    CHECKS[p] = {"runs": runs, "level": level, "rule": rule + DISTINCT, "assumptions": list(assumptions), "evaluations": evaluations}


GIANT = {"program": "giant", "tag": "giant"}
REF = "the reference is written from the phase0 specification and FIPS 180-4, independently of the code under test"
BOUND = "sizes beyond the stated bounds are not explored"
TYPES = ("Every case is one value or byte string for one of the library's types (all phase0 containers of both presets, Bytes, Bitlist, Bitvector, Vector and List "
         "templates over several element types, sizes and limits), made by nested enumeration of list lengths, contents and single edits; ")
add("C01", [{"program": "hash", "tag": "native"}],
    "Every case is one call, or a short sequence of calls, of one SHA-256 implementation on enumerated numbers of blocks, alignments and contents, compared with a reference; non-trivial: at least one block was hashed.",
    assumptions=[REF, BOUND, "the instruction sets of this processor: implementations it lacks are not run"])
add("C02", [{"program": "hash", "tag": "native"}],
    "Every case is one call with enumerated implementation, number of blocks and placement against inaccessible pages; non-trivial: all.",
    assumptions=[BOUND, "accesses beyond a page away from the buffers that hit mapped memory without changing it are not seen"])
add("C03", [{"program": "cpu", "tag": "qemu"}],
    "Every case is one simulated processor (an x86-64 model of QEMU with enumerated feature bits and cpuid leaves) on which the library is run: what it reports against cpuid, all it reports and its default then executed; non-trivial: all.",
    assumptions=["QEMU's user mode answers cpuid and refuses instructions as the processors it models do"])
add("C04", [{"program": "wide", "tag": "all-types", "budget": 240}, {"program": "conc", "tag": "opt", "budget": 450}],
    "Every evaluation is one schedule: thread A executed instruction by instruction, preempted at one enumerated instruction, thread B run there to its end or up to one of its own instructions; results compared with those of a lone thread. In the family independence a case is one operation executed with all memory it could share read-only (counters operations_*): one that writes none commutes with every other such operation and needs no schedules; the others are explored at their accesses. Elsewhere a case is a range of such schedules; distinct_nontrivial counts cases.",
    evaluations="schedules",
    assumptions=["sequentially consistent memory: A and B run one at a time", "the C and C++ libraries are thread-safe where their documentation says so, and are not preempted",
                 "at most one preemption of A (and one of B for short operations)"])
add("C05", [{"program": "merkle", "tag": "all-implementations"}, GIANT],
    "Every case is a number of chunks or bytes x limit x content x SHA-256 implementation; all nodes of the tree compared with a reference tree; non-trivial: all.", assumptions=[REF, BOUND])
add("C06", [{"program": "merkle", "tag": "all-implementations"}, GIANT],
    "Every case is a list, bitlist, vector or bitvector with enumerated size, limit, content and SHA-256 implementation; root compared with the reference; non-trivial: all.", assumptions=[REF, BOUND])
add("C07", both("types"), TYPES + "each is decoded, encoded again and compared. Non-trivial: all.", assumptions=[REF, BOUND])
add("C08", both("types") + [GIANT], TYPES + "the encoding is compared with the reference's. Non-trivial: all.", assumptions=[REF, BOUND])
add("C09", both("types") + [GIANT], TYPES + "each byte string is accepted iff the reference decoder accepts it, and then has the reference's value. Non-trivial: all but the repeated ones.", assumptions=[REF, BOUND])
add("C10", both("guarded", "asan"), TYPES + "each byte string is decoded from an exactly sized heap buffer under address and undefined behaviour sanitizers; then the object is used in every way. Non-trivial: all but the repeated ones.",
    assumptions=[BOUND, "the sanitizers see the memory errors"])
add("C11", both("types"), TYPES + "the root is compared with the reference's. Non-trivial: all.", assumptions=[REF, BOUND])
add("C12", both("types"), "Every case is a pair of values of one type that differ in one enumerated place or not at all: == and != in both directions. Non-trivial: all.", assumptions=[REF, BOUND])
add("C13", both("types"), TYPES + "written to YAML, compared with the reference's document, read back; and documents with one enumerated damage are refused. Non-trivial: all.",
    assumptions=[REF, BOUND, "yaml-cpp parses and prints as specified"])
add("C14", [{"program": "prims", "tag": "opt"}, {"program": "prims", "flavor": "asan", "tag": "asan"}],
    "Every evaluation is one text or value converted and judged; texts are all strings over a small alphabet up to a length, all digit positions and values, all lengths.", assumptions=[BOUND], evaluations="operations_judged")
PR = "Every evaluation is one operation on enumerated operands judged against the specification's formula; a case is a group of them, distinct_nontrivial counts cases."
for p in ("C15", "C16", "C17", "C18"):
    add(p, [{"program": "prims", "tag": "opt"}], PR, assumptions=[BOUND], evaluations="operations_judged")
add("C19", [{"program": "types", "preset": "minimal", "tag": "minimal"}],
    "Every case is one sequence of operations on two objects of one type, extended by each operation; the model says which value each object has. Non-trivial: all.", level="model_checking",
    assumptions=[REF, "four to six values and two invalid encodings per type; objects whose value is unspecified (moved from, failed decode) are only used again, not inspected"])
add("C20", both("types"), "Every case is one type constructed over two of five memory contents. Non-trivial: all.", assumptions=[REF])
add("C21", both("prims"), "Every case is one constant as compiled for one preset, compared with the phase0 tables. Non-trivial: all.", evaluations="operations_judged",
    assumptions=["the tables in mc/p_prims.cpp were copied from the phase0 specification by hand"])
add("C23", both("fields"), PR, assumptions=[REF, BOUND], evaluations="operations_judged")

add("C25", [{"program": "oom", "tag": "minimal"}, {"program": "oom", "flavor": "o0", "tag": "O0"}],
    "Every evaluation is one execution of one operation with one of its memory allocations refused, and the use of what is left; a case is a range of such allocations, distinct_nontrivial counts cases.",
    evaluations="allocations_refused",
    assumptions=["memory is allocated with operator new", "what yaml-cpp itself leaks when memory runs out is not judged"])
add("C26", [{"program": "mem", "tag": "minimal"}], TYPES + "each is decoded, encoded, hashed and destroyed with all allocations counted. Non-trivial: all but the repeated ones.",
    assumptions=["memory is allocated with operator new", BOUND])

add("C28", [{"program": "work", "flavor": "count", "tag": "minimal"}],
    "Every evaluation is one operation on one value or byte string with its work counted; a case is a sequence of growing values of one type, or of repetitions; distinct_nontrivial counts cases.",
    evaluations="operations_measured",
    assumptions=["work is control flow edges of the library (with the templates it instantiates), bytes moved by memcpy and the like, and blocks hashed by the assembly routines", "the work of yaml-cpp is not counted", BOUND])
add("C27", [{"program": "lifedrv", "tag": tag, "orders": ("life", "minimal", fl, [c])} for tag, fl, c in (("clang-O3", "opt", "clang++"), ("gcc-O0", "o0", "g++"))],
    "Every case is one run of a program, linked in one order of its object files, that uses one type at one enumerated time; non-trivial: all.",
    assumptions=["programs linked statically with the library's object files", "the linker initializes files in link order, as GNU ld and lld do"])

BUILDS = [("clang-O0", "o0", "clang++"), ("clang-O2-PIC", "pic", "clang++"), ("gcc-O3", "opt", "g++"), ("gcc-O0", "o0", "g++"), ("gcc-O2-strict", "strict", "g++")]
add("C24", [{"program": prog, "preset": "minimal", "flavor": fl, "comps": [c], "tag": "%s-%s" % (prog, t)} for t, fl, c in BUILDS for prog in ("types", "prims")],
    TYPES + "each is encoded, decoded, hashed and compared with the reference in each build; and the operations of C14 to C18 on enumerated operands. Non-trivial: all but the repeated ones.",
    assumptions=[REF, BOUND, "the compilers installed here"])
