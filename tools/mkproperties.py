#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": hook}})


CONT = ["ssz/ssz_container.cpp", "ssz/ssz_container.hpp", "common/bytes.hpp", "common/slot.hpp", "common/boolean.hpp", "common/bitlist.cpp", "common/bitvector.hpp",
        "common/containers.hpp", "beacon-chain/attestation.cpp", "beacon-chain/validator.cpp", "beacon-chain/deposits.hpp", "beacon-chain/eth1data.hpp",
        "beacon-chain/beacon_block.hpp", "beacon-chain/beacon_state.hpp"]

p("C01", "SHA-256 of 64-byte blocks is right for every implementation and block count",
  "For every SHA-256 implementation the library offers and every number of 64-byte input blocks, output block i is the SHA-256 digest (padding included) of input block i. The result depends on nothing but that input block: not on the other blocks, their number, buffer alignment, or earlier calls.",
  ["inputs", "configurations"], "all implementations x all numbers of blocks x all block contents x all alignments of input and output",
  "The four tests hash one fixed set of up to 8 blocks; the assembly switches code paths by number of blocks (16, 8, 4, 2, 1 lanes), so remainders, mixed contents, unaligned buffers and long inputs are never reached.",
  ["ssz/hasher.hpp", "ssz/hasher.cpp", "ssz/sha256_avx.asm", "ssz/sha256_avx2.asm", "ssz/sha256_avx_one_block.asm", "ssz/sha256_shani.asm", "ssz/transpose_avx2.asm"],
  [("dispatch", "ssz/hasher.cpp: Hasher::Hasher(IMPL), Hasher::hash_64b_blocks"), ("lane loops and padding block constants", "ssz/*.asm")],
  observe=["Hasher::hash_64b_blocks output"])
p("C02", "Hashing reads only its input, writes only its output, keeps the ABI",
  "Hashing n blocks reads at most the 64n input bytes, writes exactly the 32n output bytes, and with n = 0 touches no memory of the caller. The input, all memory around both buffers, and every register and the stack the calling convention protects are unchanged afterwards.",
  ["inputs", "configurations"], "all implementations x all numbers of blocks x all placements of the buffers",
  "Tests only compare digests; an over-read of a few bytes, a store beyond the output or a clobbered callee-saved register stays invisible unless the neighbouring page is unmapped or the caller happens to use the register.",
  ["ssz/hasher.cpp", "ssz/sha256_avx.asm", "ssz/sha256_avx2.asm", "ssz/sha256_avx_one_block.asm", "ssz/sha256_shani.asm", "ssz/transpose_avx2.asm", "ssz/reg_sizes.asm"],
  [("remainder loops", "ssz/*.asm"), ("prologues and epilogues that save registers", "ssz/*.asm")], observe=["memory around the buffers", "registers after the call"])
p("C03", "Only SHA-256 implementations the processor can run are reported and chosen",
  "On every processor the library reports an implementation only if the processor has the instructions it needs, and reports every implementation it can use of the SHA-extension, AVX2 and AVX ones. Each reported implementation runs and hashes correctly, and so does the default one whenever any is reported.",
  ["configurations"], "all x86-64 processors, as combinations of cpuid feature bits and available leaves",
  "Tests run on the build machine's single processor; the decision concerns processors that lack features.",
  ["ssz/hasher.cpp", "ssz/hasher.hpp"], [("cpuid decoding", "ssz/hasher.cpp: Hasher::implemented"), ("choice of the default", "ssz/hasher.cpp: Hasher::best_sha256_implementation")],
  observe=["Hasher::implemented()", "default Hasher's digests", "SIGILL"])
p("C04", "Concurrent use gives the results of sequential use",
  "Threads that hash, encode, decode, compare or compute roots at the same time, each on its own objects or all reading the same unmodified objects, get exactly the results they would get alone, under every interleaving. This includes the first use in a process.",
  ["schedules"], "all interleavings of two threads' operations, on distinct objects or on shared const objects",
  "All tests are single-threaded; static scratch memory in assembly or C++ only shows when a thread is preempted inside the few instructions that use it.",
  ["ssz/sha256_shani.asm", "ssz/sha256_avx.asm", "ssz/sha256_avx2.asm", "ssz/hasher.cpp", "ssz/hashtree.cpp"] + CONT,
  [("no mutable static storage after initialization", "ssz/*.asm, ssz/hashtree.cpp"), ("const member functions do not modify", "common/*.hpp, ssz/ssz_container.hpp")],
  state=[("zero_hash_array", "roots of empty trees, computed during static initialization", "ssz/hashtree.cpp"), ("HashTree::hasher", "shared hasher", "ssz/hashtree.cpp")],
  observe=["results of the operations of each thread"])
p("C05", "Merkle trees are right for every number of chunks and every limit",
  "For every non-empty sequence of chunks, or byte string, and every limit that admits it, the computed root is that of the complete binary tree of 32-byte chunks padded with zero chunks to the limit's next power of two, and the exposed nodes are that tree's nodes level by level. An empty sequence of chunks, and more chunks than a nonzero limit, are refused.",
  ["inputs", "configurations"], "all numbers and contents of chunks x all limits up to 2^64-1 x all SHA-256 implementations",
  "No test builds a tree that is run by the build; off-by-one errors depend on the parity of every level and on how far the limit exceeds the number of chunks.",
  ["ssz/hashtree.cpp", "ssz/hashtree.hpp", "helpers/math.hpp"],
  [("level loop with zero-hash padding", "ssz/hashtree.cpp: merkleize"), ("preallocation", "ssz/hashtree.cpp: HashTree::HashTree"), ("packing of bytes", "ssz/hashtree.cpp: pack_and_pad")],
  state=[("zero_hash_array", "roots of empty trees by depth", "ssz/hashtree.cpp")], observe=["HashTree::hash_tree", "HashTree::hash_tree_root"])
p("C06", "Roots of lists and bit fields pack, pad and mix in the length as SSZ says",
  "The root of a list or bit list of any length and limit is the root of its packed elements (or element roots) padded to the limit, hashed with its length; that of a vector, bit vector or byte string has no length mixed in. This holds for every limit, also one that is not a power of two or not a multiple of what fits in a chunk.",
  ["inputs", "configurations"], "all lengths x limits x contents x element kinds x SHA-256 implementations",
  "No running test computes a list's root; limits, packing and lengths interact at chunk boundaries only.",
  ["common/containers.hpp", "common/bitlist.cpp", "common/bitvector.hpp", "ssz/hashtree.cpp"],
  [("limit in chunks", "common/containers.hpp: ListFixedSizedParts::hash_tree_x, common/bitlist.cpp: Bitlist::hash_tree"), ("length mix-in", "ssz/hashtree.cpp: HashTree::mix_in")],
  observe=["hash_tree_root"])
p("C07", "Decoding an object's encoding gives an equal object",
  "For every value of every type, decoding its SSZ encoding succeeds and gives an object equal to it, with the same encoding and root. This holds whether the target is a new object or one that held another value, and wherever the bytes lie in a larger buffer.",
  ["inputs", "configurations"], "all values of all types of both presets",
  "The repository's SSZ test needs a checkout of the specification's vectors that is not there and samples a few random values per type.",
  CONT, [("encoder", "ssz/ssz_container.cpp: Container::serialize_"), ("decoder", "ssz/ssz_container.cpp: Container::deserialize_"), ("lists", "common/containers.hpp")],
  observe=["serialize", "deserialize", "operator==", "hash_tree_root"])
p("C08", "Encodings are those of the phase0 specification",
  "For every value of every type the encoding is byte for byte the one the SSZ and phase0 specifications define: fields in order, little-endian integers, offsets, delimiter bits. The reported fixed size is the length of the encoding for fixed-size types and zero for the others.",
  ["inputs", "configurations"], "all values of all types of both presets",
  "Round trips cannot see two fields exchanged in encoder and decoder alike; only comparison with an independent encoder over all shapes does.",
  CONT, [("encoder", "ssz/ssz_container.cpp: Container::serialize_"), ("field lists", "beacon-chain/*.hpp, *.cpp: serialize")], observe=["serialize", "get_ssz_size"])
p("C09", "Decoders accept exactly the canonical encodings within the limits",
  "Decoding a byte string succeeds if and only if it is the encoding of some value of the type, list limits included; the decoded object then has that value. Truncated or extended input, wrong, overlapping or decreasing offsets, gaps, missing delimiters, padding bits, non-boolean bytes and overlong lists are refused.",
  ["inputs"], "all byte strings for all types",
  "The test vectors contain valid encodings only.", CONT,
  [("offset checks", "ssz/ssz_container.cpp: Container::deserialize_, common/containers.hpp: ListVariableSizedParts::deserialize"), ("size checks", "deserialize of the basic types"), ("delimiter and padding checks", "common/bitlist.cpp, common/bitvector.hpp")],
  observe=["result of deserialize", "serialize afterwards"])
p("C10", "Decoding is memory safe on any bytes and leaves a usable object",
  "Decoding any byte string into any object never reads outside the given range, has no undefined behaviour, and does not allocate out of proportion to the input. Whatever the outcome, the object can afterwards be read, compared, copied, encoded, hashed, decoded into and destroyed.",
  ["inputs", "histories"], "all byte strings for all types, into new and used objects",
  "Tests decode valid data only, without guarding the range's ends.", CONT,
  [("distance checks before each read", "ssz/ssz_container.cpp: Container::deserialize_, common/containers.hpp, common/bitlist.cpp")], observe=["sanitizer reports", "serialize, root, equality after a failed decode"])
p("C11", "Hash tree roots are those of the phase0 specification",
  "For every value of every type the hash tree root is the one the SSZ and phase0 specifications define, for both presets and their list limits.",
  ["inputs", "configurations"], "all values of all types of both presets",
  "The build's tests do not compute roots; the specification's vectors (absent here) sample a few values whose lists are short.", CONT + ["ssz/hashtree.cpp", "config/mainnet.hpp.in", "config/minimal.hpp.in"],
  [("container roots", "ssz/ssz_container.cpp: Container::hash_tree_"), ("list roots", "common/containers.hpp: hash_tree_x"), ("limits", "config/*.hpp.in")], observe=["hash_tree_root"])
p("C12", "Objects are equal exactly when they have the same value",
  "Two objects of a type compare equal if and only if all their fields and list elements have the same values, and unequal otherwise, in either order.",
  ["inputs"], "all pairs of values of all types", "No test compares unequal objects; a field left out of the comparison changes no other result.",
  CONT, [("defaulted operator== of each type and of the base", "ssz/ssz_container.hpp, common/*.hpp, beacon-chain/*.hpp")], observe=["operator==", "operator!="])
p("C13", "YAML documents round-trip and incomplete or overlong ones are refused",
  "For every value of every type the YAML form names every field of the specification with its value (integers in decimal, byte strings and bit fields as 0x-prefixed hexadecimal), and reading it back, also as text, gives the same value. A document that lacks a field, has one of the wrong kind, has a list longer than its limit, or a bit field that is no encoding of one is refused.",
  ["inputs"], "all values of all types; all single damages of a document", "The YAML test needs absent files and samples valid values.",
  CONT + ["helpers/bytes_to_string.hpp", "helpers/bytes_to_int.hpp"], [("field names", "beacon-chain/*: encode, decode"), ("document walk", "ssz/ssz_container.cpp: Container::encode_, Container::decode_")], observe=["encode", "decode"])
p("C14", "Hexadecimal text converts exactly, whatever the text",
  "Every byte string and bit field is written as 0x and two lowercase digits per byte of its encoding, and every such text in either case is read back to the same value. A text without 0x, too long, of odd length (bit fields), with padding bits set (bit vectors), without delimiter or above the limit (bit lists) is refused with an exception; no text causes a memory error.",
  ["inputs"], "all texts x all types with a text form", "The tests check two literals.",
  ["common/bytes.hpp", "common/bitlist.cpp", "common/bitvector.hpp", "helpers/bytes_to_int.hpp", "helpers/bytes_to_string.hpp"],
  [("digit table", "helpers/bytes_to_int.hpp: Table, hextoint, strhex2int"), ("writers", "helpers/bytes_to_string.hpp"), ("readers", "common/bytes.hpp: bytes_from_str, common/bitlist.cpp: from_hexstring, common/bitvector.hpp: from_hexstring")],
  observe=["from_string", "from_hexstring", "to_string"])
p("C15", "Byte strings, integers and booleans compute as their operators say",
  "Byte strings made from integers hold their little-endian bytes padded with zeros and convert back; xor, concatenation, element access and comparison with byte strings of any size work bytewise. Slots, epochs and the other integers behave as unsigned 64-bit integers, booleans as truth values, in comparison, arithmetic, assignment and conversion.",
  ["inputs"], "all operands of all these operations", "The tests in common/bytes_test.cpp are not built and try single literals.",
  ["common/bytes.hpp", "common/slot.hpp", "common/boolean.hpp", "helpers/bytes_to_int.hpp"],
  [("conversion from integers", "common/bytes.hpp: bytes_from_int"), ("operators", "common/bytes.hpp, common/slot.hpp, common/boolean.hpp")], observe=["results of the operators"])
p("C16", "Validator predicates are those of the phase0 specification",
  "For every validator and epoch: active iff activation <= epoch < exit; eligible for the activation queue iff its eligibility epoch is FAR_FUTURE_EPOCH and its effective balance is the maximum; slashable iff not slashed and activation <= epoch < withdrawable.",
  ["inputs"], "all validators x all epochs", "There are no tests of these predicates; mistakes live at the boundaries and at epochs above 2^63.",
  ["beacon-chain/validator.cpp", "common/slot.hpp", "config/constants.hpp"], [("predicates", "beacon-chain/validator.cpp: is_active, is_eligible_for_activation_queue, is_slashable")], observe=["the predicates' results"])
p("C17", "Attestation slashability and index validity follow the specification",
  "Two attestations are slashable iff they differ and have the same target epoch, or the first surrounds the second (earlier source, later target). An indexed attestation is valid only if its indices are not empty, sorted and without duplicates, and (signatures aside) always then.",
  ["inputs"], "all pairs of attestation data; all index sequences", "There are no tests of either; they depend on orderings of four epochs and on a defect anywhere in a long sequence.",
  ["beacon-chain/attestation.cpp", "common/containers.hpp"], [("double and surround votes", "beacon-chain/attestation.cpp: AttestationData::is_slashable"), ("sorted and unique", "beacon-chain/attestation.cpp: IndexedAttestation::is_valid")], observe=["results"])
p("C18", "Integer square root and binary logarithm are exact",
  "For every unsigned integer n of every width the square root returned is the largest r with r*r <= n, also where rounding in floating point or overflow of squares threatens. The rounded-up binary logarithm of n > 0 is the least k with 2^k >= n.",
  ["inputs"], "all values of 8, 16, 32 and 64 bits", "No test calls them; errors occur only at squares beyond 2^53 or near the type's maximum.",
  ["helpers/math.hpp"], [("correction loops", "helpers/math.hpp: integer_squareroot"), ("leading zeros", "helpers/math.hpp: log2ceil")], observe=["results"])
p("C19", "An object's behaviour depends on its value, not on its history",
  "After any sequence of decoding (also failed), reading YAML, copying, moving, swapping, assigning and reading, an object with a defined value encodes, hashes and compares exactly like a new object given that value. Copies are independent, and the source of a copy is unchanged. Nor does it depend on what was done before with other objects of the same or any other type.",
  ["histories"], "all sequences of operations on two objects of every type, and on objects of two types", "Tests use each object once; leftovers from earlier values need particular sequences.",
  CONT, [("clearing before decoding", "common/bitlist.cpp, common/containers.hpp: deserialize, decode"), ("defaulted copy and move operations", "ssz/ssz_container.hpp and all types")],
  state=[("list elements and limits", "survive or are replaced by each operation", "common/containers.hpp, common/bitlist.hpp")], observe=["serialize", "hash_tree_root", "operator==", "decode"])
p("C20", "A default-constructed object has the type's zero value",
  "Every object that is constructed without arguments has the specification's default value: zeros, empty lists, false. Its encoding, root, YAML form and comparisons do not depend on what its memory held before.",
  ["inputs", "configurations"], "all types of both presets x previous contents of the memory", "Fresh memory tends to be zero, which hides uninitialized members.",
  CONT, [("member initializers and constructors", "common/*.hpp, beacon-chain/*.hpp")], observe=["serialize", "hash_tree_root", "encode", "operator=="])
p("C21", "Both presets define the phase0 constants",
  "Built for mainnet or minimal, every constant of that preset, of the shared configuration and of the SSZ layer has the value of the phase0 specification.",
  ["configurations"], "all constants x both presets", "Tests compile with one preset and use none of most constants; a wrong limit changes roots only.",
  ["config/mainnet.hpp.in", "config/minimal.hpp.in", "config/constants.hpp", "ssz/ssz.hpp"], [("constants", "config/*")], observe=["values as compiled"])
p("C22", "The transaction demonstration prints the root of the transaction's bytes",
  "The client program prints the bytes of its transaction and the SSZ hash tree root of the transaction type that holds them, for every transaction put into it.",
  ["inputs"], "all transactions", "No test reaches it: the header that defines the transaction type is not in this tree.",
  ["beacon-chain/main.cpp"], [("program", "beacon-chain/main.cpp")], observe=["program output"])
p("C23", "Fields, accessors and list elements agree with the encoding",
  "Reading a field or list element by name, accessor or iterator gives what is encoded at its place, and assigning one changes exactly that part of the value and nothing else: encoding, root and equality follow. Sizes, elements added or removed through the exposed container, and changed limits are reflected likewise.",
  ["inputs", "histories"], "all values x all fields and elements of all types with accessible fields", "No test reads or assigns a field.",
  ["common/containers.hpp", "common/bitlist.hpp", "beacon-chain/attestation.hpp", "beacon-chain/beacon_block.hpp", "beacon-chain/beacon_state.hpp", "beacon-chain/deposits.hpp", "beacon-chain/eth1data.hpp"],
  [("accessors", "beacon-chain/beacon_block.hpp, beacon-chain/beacon_state.hpp"), ("iterators and data()", "common/containers.hpp")], observe=["fields", "serialize", "hash_tree_root"])
p("C24", "Results do not depend on compiler or optimization level",
  "Built with clang or gcc, at any optimization level, with or without -ffast-math and position-independent code, the library gives the encodings, decisions, roots and numeric results of the specification.",
  ["configurations", "inputs"], "all supported builds x all values", "The tests are one build, and run hardly any of the C++ code; unaligned loads, aliasing, uninitialized members and floating point show in some builds only.",
  CONT + ["ssz/hasher.cpp", "ssz/hashtree.cpp", "helpers/math.hpp", "helpers/bytes_to_int.hpp", "CMakeLists.txt"],
  [("integer loads", "helpers/bytes_to_int.hpp: to_integer_little_endian"), ("floating point square root", "helpers/math.hpp: integer_squareroot")], observe=["serialize", "deserialize", "hash_tree_root", "integer_squareroot"])
p("C25", "Running out of memory is reported, and harms nothing else",
  "When a memory allocation of any operation (constructing, copying, moving, assigning, decoding, encoding, comparing, computing a root, reading and writing YAML) fails, the operation throws a C++ exception or gives its right result; it never crashes, terminates the process or returns a wrong result. Objects it only reads are unchanged; the object it was changing can still be used, decoded into, assigned to and destroyed, with right results afterwards; and nothing leaks. (YAML: the standard streams yaml-cpp uses may swallow the exception, so its results and leaks are not judged.)",
  ["faults", "inputs"], "all failures of one allocation of every operation on values of every type",
  "No test makes an allocation fail; which of the dozens of allocations of an operation fails decides what state it leaves, and a noexcept function, a catch-all handler or a raw pointer only shows then.",
  CONT + ["ssz/hashtree.cpp", "ssz/hashtree.hpp"],
  [("vectors as the only owners of memory", "common/containers.hpp, ssz/hashtree.cpp, common/bitlist.hpp"), ("decoding member by member into the object", "ssz/ssz_container.cpp: Container::deserialize")],
  observe=["exceptions", "serialize, hash_tree_root and operator== of the objects involved", "blocks allocated and released"])
p("C26", "Memory used is proportional to the input, and all of it is released",
  "For every byte string, canonical or not, decoding it, and encoding, hashing, copying and comparing what was decoded, takes memory proportional to the length of the bytes (a small factor, plus the fixed size of the type), whatever offsets and lengths the bytes claim; and everything allocated is released when the object is destroyed, also after refused input.",
  ["inputs"], "all byte strings for all types", "Tests decode well-formed files of ordinary size and do not measure memory; a few hostile bytes that claim huge offsets or limits decide how much a decoder reserves.",
  CONT + ["ssz/hashtree.cpp"],
  [("number of elements from the first offset", "common/containers.hpp: List of variable sized parts"), ("size checks before reserving", "common/containers.hpp, common/bitlist.cpp"), ("size of the tree from chunks and limit", "ssz/hashtree.cpp: HashTree::HashTree")],
  observe=["bytes allocated at peak and left over"])
p("C27", "The library works at any time of the program and in any link order",
  "Values of every type can be constructed, decoded, encoded, hashed, compared and read from YAML, with right results, from the initializers and destructors of static objects of other files, from exit handlers, from main and from other threads, in whatever order the object files were linked.",
  ["configurations", "schedules"], "all types x all times of first use x all link orders of the object files",
  "The tests use the library from main of one program linked in one order; static objects that are initialized too late only show in other orders.",
  CONT + ["ssz/hashtree.cpp", "ssz/hasher.cpp"],
  [("initialization of the hasher and the zero hashes", "ssz/hashtree.cpp: zero_hash_array, HashTree::hasher")],
  state=[("zero_hash_array", "roots of empty trees by depth", "ssz/hashtree.cpp"), ("HashTree::hasher", "shared hasher", "ssz/hashtree.cpp")], observe=["results of the operations", "exit status"])
p("C28", "Time used is proportional to the input, also after long use",
  "For every type, decoding n bytes (canonical or not), and encoding, hashing, copying, assigning, comparing, destroying and reading or writing as YAML what n bytes encode, takes work proportional to n (up to a constant for the type and a logarithmic factor), whatever list grows and whatever the offsets claim; and an operation done again and again on objects of the same size does not become more expensive.",
  ["inputs", "histories"], "all types x lists growing without bound", "The tests hash two inputs of a fixed size; work that grows with the square of the length shows only when operations are measured on large lists of every kind.",
  CONT + ["ssz/hashtree.cpp", "helpers/bytes_to_string.hpp"],
  [("loops over elements and offsets", "common/containers.hpp, common/bitlist.cpp"), ("loops over chunks", "ssz/hashtree.cpp: pack_and_pad, merkleize"), ("appending the parts' encodings", "ssz/ssz_container.cpp: Container::serialize_")],
  observe=["control flow edges executed, bytes moved and blocks hashed by each operation"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
