"""What each property's check analyses."""
Q = ["20n"]; QA = ["17a", "20n"]
VECNOTE = ("Every obligation (scenario assertion, memory access, element lifetime event, loop invariant) is proved for all inputs of the scenario by abstract interpretation of the IR clang generates from the current headers; "
           "scenarios start from a container filled with a symbolic number of symbolic elements. Trusts clang's front end, the interpreter in nzsa/ and its models of allocation, exceptions and probe elements. ")
BITNOTE = ("Every obligation is proved bit by bit (exact Boolean polynomials over the symbolic contents) by abstract interpretation of the IR clang generates from the current headers. Contents are arbitrary; sizes are the concrete ones listed in the driver, around the block boundaries of 8 to 64-bit blocks. "
           "Trusts clang's front end and the interpreter in nzsa/. ")
SPEC = {
 "C30": dict(level="proof", note=VECNOTE + "Capacity, size, positions and contents are unbounded symbols.", ai=[("C30_stackvector.cpp", QA)]),
 "C32": dict(level="proof", note=VECNOTE + "Inline capacities 1, 6 and 40; size, positions and contents symbolic.", ai=[("C32_fixedvector.cpp", QA)]),
 "C33": dict(level="proof", note=VECNOTE + "Inline capacities 1, 3 and 40; the fallback container is a model with std::vector's contract; size, positions and contents symbolic.", ai=[("C33_hybridvector.cpp", Q)]),
 "C35": dict(level="proof", note=VECNOTE + "Sizes and contents symbolic.", ai=[("C35_stackarray.cpp", QA)]),
 "C36": dict(level="proof", note=VECNOTE + "Every element operation may throw at each call; both kinds of element (nothing throws on move, everything may throw).", ai=[("C36_exceptions.cpp", Q)]),
 "C37": dict(level="proof", note=VECNOTE + "Every occupancy of pools of up to 6 entries in up to 3 blocks, then each operation, with the whole observable state compared afterwards; a 70-entry block with one entry freed. Larger pools are covered only through the bitset properties.", ai=[("C37_memorypool.cpp", QA)]),
 "C40": dict(level="proof", note=BITNOTE, ai=[("C40_bitset_tail.cpp", QA)]),
 "C41": dict(level="proof", note=BITNOTE, ai=[("C41_bitset_ops.cpp", QA)]),
 "C42": dict(level="proof", note=BITNOTE + "Distances: all up to a block beyond the size, and huge ones.", ai=[("C42_bitset_shift.cpp", QA)]),
 "C43": dict(level="proof", note=BITNOTE + "Strings: lengths up to 5 with every content, longer ones with one arbitrary character.", ai=[("C43_bitset_extend.cpp", QA)]),
 "C44": dict(level="proof", note=BITNOTE + "Searches: one case per position of the start and of the bit to find.", ai=[("C44_bitset_search.cpp", QA)]),
}
NA = {}
MATHNOTE = ("Every obligation is proved for every value of the type by abstract interpretation of the IR clang generates from the current headers (exact Boolean polynomials over the bits of the value, linear forms where the code does arithmetic). "
            "Both the run-time implementation and the one used in constant evaluation are analysed (the latter by making std::is_constant_evaluated true). Trusts clang's front end and the interpreter in nzsa/. ")
HISTNOTE = ("Every obligation is proved for all stored values by abstract interpretation of the IR clang generates from the current headers; object states are enumerated and every operation is applied to every combination of them, so longer histories follow by induction over the states. "
            "Trusts clang's front end and the interpreter in nzsa/ and its models of allocation, exceptions and probe objects. ")
CE = ["-DNZ_CONSTEVAL"]
SPEC.update({
 "C10": dict(level="proof", note=MATHNOTE + "All integer types, floats and doubles; buffers of symbolic length. The big-endian configuration is the same code with the platform macro set.", ai=[("C10_bytes.cpp", QA), ("C10_bytes.cpp", Q, QA, CE), ("C10_bytes.cpp", Q, QA, ["-DNAZARA_BIG_ENDIAN"])]),
 "C11": dict(level="proof", note=MATHNOTE + "Constant evaluation of the population count of types wider than 8 bits is proved on families of values only (runs of ones, one arbitrary byte).", ai=[("C11_bits.cpp", QA), ("C11_bits.cpp", Q, QA, CE)]),
 "C12": dict(level="proof", note=MATHNOTE + "Alignment: every offset, alignments from the list in the driver; powers: every base for exponents up to 3 in the narrow types.", ai=[("C12_pow2.cpp", Q)]),
 "C13": dict(level="proof", note=MATHNOTE, ai=[("C13_singlebit.cpp", QA)]),
 "C14": dict(level="proof", note=MATHNOTE + "Checked casts are analysed in the configuration where they check (debug, assertions on), for every pair of 8 integer and 4 enumeration types; out-of-range and NaN floating-point sources are covered entirely, accepted ones at 14 integral values each. Floating-point arithmetic itself is uninterpreted.", ai=[("C14_compare.cpp", QA), ("C14_safecast.cpp", ["17a", "20a"], ["17a", "20a"], ["-DNAZARA_DEBUG"])]),
 "C56": dict(level="proof", note="Proved by abstract interpretation of the IR clang generates for each entry point in each configuration of the assertion switches (NDEBUG, NAZARA_ENABLE_ASSERTS, NAZARA_NO_ASSERT), for all condition values. Trusts clang's front end and the interpreter in nzsa/; abort and the failed-assert handler are taken not to return.", ai=[("C56_assert.cpp", ["17a", "20n", "20a", "17n"]), ("C56_assert.cpp", Q, ["20n", "17n"], ["-DNAZARA_ENABLE_ASSERTS"]), ("C56_assert.cpp", ["20a"], ["20a", "17a"], ["-DNAZARA_NO_ASSERT"]), ("C56_assert.cpp", ["20a"], ["20a", "20n"], ["-DNAZARA_NO_ASSERT", "-DNAZARA_ENABLE_ASSERTS"])]),
 "C50": dict(level="proof", note=HISTNOTE, ai=[("C50_movable.cpp", QA)]),
 "C51": dict(level="proof", note=HISTNOTE + "Every throw point of the copies.", ai=[("C51_privateimpl.cpp", QA)]),
 "C52": dict(level="proof", note=HISTNOTE + "Every throw point of the function and of its moves.", ai=[("C52_callonexit.cpp", QA)]),
 "C53": dict(level="proof", note=HISTNOTE, ai=[("C53_functionref.cpp", QA)]),
 "C54": dict(level="proof", note=HISTNOTE, ai=[("C54_result.cpp", QA)]),
 "C55": dict(level="proof", note="Histories are enumerated (up to four slots, any slot disconnecting or connecting any other during an emission), arguments are symbolic: each is proved by abstract interpretation of the IR clang generates from the current headers. Longer histories are not covered. Trusts clang's front end and the interpreter in nzsa/.", ai=[("C55_signal.cpp", Q)]),
})

SPEC.update({
 "C15": dict(level="proof", note=MATHNOTE + "Lengths are unbounded: the state of the checksum loop is compared, one byte further each time, with the state of the bitwise reference loop at the same index.", ai=[("C15_crc32.cpp", QA)]),
 "C16": dict(level="proof", note=MATHNOTE + "Lengths are unbounded: the state of each hash loop is compared, one byte further each time, with the state of the reference loop at the same index. The standard hashes that HashCombine mixes are uninterpreted.", ai=[("C16_fnv.cpp", QA)]),
 "C20": dict(level="proof", note=MATHNOTE + "Enumerations are those of the driver: 1 to 64 values, and enumerators holding bits.", ai=[("C20_flags.cpp", QA)]),
 "C21": dict(level="proof", note=HISTNOTE + "Enumerations are those of the driver; contents, enumerators and offsets are symbolic.", ai=[("C21_enumarray.cpp", QA)]),
 "C22": dict(level="proof", note=MATHNOTE + "Bases and indices are symbolic; strides are the concrete positive and negative ones of the driver.", ai=[("C22_sparseptr.cpp", QA)]),
})
SPEC.update({
 "C18": dict(level="proof", note=HISTNOTE + "Writing is any store, copy or release into memory that existed before the call (the object itself, what it owns, its arguments, global variables); atomic counters, thread-local data and guarded initialisation of statics do not count. Sizes and contents of views, stack arrays and vectors are symbolic; the other objects have the states of the driver.", ai=[("C18_readonly.cpp", QA)]),
 "C34": dict(level="proof", note=HISTNOTE + "Allocating is reaching the global or a sized operator new or malloc, directly or through the standard containers' models. Sizes and contents of stack arrays and vectors are symbolic; fixed vectors hold up to 6 elements, the other objects have the states of the driver.", ai=[("C34_noalloc.cpp", QA)]),
 "C31": dict(level="proof", note=HISTNOTE + "The platform without alloca is the same code with NAZARA_ALLOCA_SUPPORT undefined before the containers' headers. Sizes and contents are symbolic; every throw point of the elements.", ai=[("C31_heapstack.cpp", QA)]),
 "C38": dict(level="proof", note=HISTNOTE + "Receivers record the category and address of what they get; arguments are an lvalue, a const lvalue, an rvalue and a const rvalue.", wit=[("C38_forward.cpp", {})], ai=[("C38_forward.cpp", QA)]),
 "C09": dict(level="other", technique="lint over the clang syntax tree (clang-query), the linkage in the LLVM IR, the preprocessor output and both compilers' type layouts", note="Rules over clang's syntax tree, IR, preprocessor output and both compilers' layouts of all headers together, and of every public template instantiated (witness/C01_instantiate.cpp).", lint=True),
 "C62": dict(level="proof", technique="static assertions and algorithm instantiations decided by the compilers' type checkers; abstract interpretation of LLVM IR for what the algorithms compute", note=HISTNOTE + "The traits and operations of every iterator type are decided by the type checkers. What algorithms compute is proved for all contents of ranges of up to 5 elements; strided pointers for strides of 8, 24 and -16 bytes.", wit=[("C62_iterators.cpp", {})], ai=[("C62_algorithms.cpp", QA)]),
 "C57": dict(level="proof", note=HISTNOTE + "Stopping means reaching the failed-assertion handler or abort. The preconditions covered are those of the driver, with assertions on (debug configuration); sizes, capacities and out-of-range values are symbolic, fixed-capacity vectors hold up to three elements, bitsets up to 70 bits.", ai=[("C57_preconditions.cpp", ["20a"], ["20a", "17a"])]),
 "C60": dict(level="proof", note=HISTNOTE + "Views and typed accesses are of unbounded symbolic length and offset; owning strings have the lengths of the driver (around the small-string limit) or any symbolic length below 100000.", ai=[("C60_memory.cpp", QA), ("C60_memory.cpp", ["20a"], ["20a", "17a"], ["-DNAZARA_DEBUG"])]),
 "C61": dict(level="proof", note=HISTNOTE + "std::filesystem::path is a stand-in with the contract of the POSIX implementation (its conversions live in the shared library): native text kept as given, generic text of its own. Lengths are those of the driver or any symbolic length below 100000.", ai=[("C61_paths.cpp", QA, None, ["-I{VERIF}/drivers/stub"])]),
})

WITNOTE = "Decided by the type checkers of clang and gcc, in C++17 and C++20, on witness programs that include the current headers: every static assertion must hold and every program of the must-be-rejected set must be rejected. No program is run. "
WITTECH = "type-level witnesses and compile-fail witnesses decided by the compilers' type checkers"
AS = [[], ["-DNDEBUG"], ["-DNAZARA_ENABLE_ASSERTS", "-DNDEBUG"], ["-DNAZARA_DEBUG"]]
SPEC.update({
 "C01": dict(level="other", technique="explicit instantiation of every class template and use of every public member, decided by the compilers' type checkers", note=WITNOTE + "Members are instantiated for the argument types listed in the witness (trivial, owning, move-only, not default constructible, over-aligned); other argument types are not covered.", wit=[("C01_instantiate.cpp", dict(std=["c++17", "c++20", "c++23"], defs=AS)), ("C01_header.cpp", dict(headers=True))]),
 "C02": dict(level="proof", technique="type-level enumeration of lists decided by the compilers' type checkers; abstract interpretation of LLVM IR for the application of functors", note=WITNOTE + "Exhaustive over lists of up to four types from an alphabet of three (and of pairs up to length 3), with lists of 100 and 200 types; the operations are parametric in the types. The order and the arguments of functor application are proved by abstract interpretation of the IR for all argument values.", wit=[("C02_typelist.cpp", {})], ai=[("C02_apply.cpp", QA)]),
 "C03": dict(level="other", technique=WITTECH, note=WITNOTE + "Every combination of const, volatile, reference and noexcept, for about 40 signatures of 0 to 8 parameters.", wit=[("C03_traits.cpp", {})]),
 "C04": dict(level="other", technique=WITTECH, note=WITNOTE + "What the types show for the element types listed in the witness.", wit=[("C04_guarantees.cpp", {})]),
 "C05": dict(level="other", technique=WITTECH, note=WITNOTE + "Names are checked against the spelling of the type, up to spaces, and against the names of the same type nested up to 22 times in templates.", wit=[("C05_typename.cpp", {})]),
 "C06": dict(level="other", technique=WITTECH, note=WITNOTE + "The reference values are decimal expansions of 50 digits written as literals of the type.", wit=[("C06_constants.cpp", {})]),
 "C07": dict(level="other", technique=WITTECH + " and constant evaluators", note=WITNOTE + "Whether a call is a constant expression is decided by the compilers for the argument types and a few values each; the values for all arguments are the subject of the other properties.", wit=[("C07_constexpr.cpp", dict(defs=[[], ["-DNDEBUG"]]))]),
})
SPEC.update({
 "C08": dict(level="other", technique=WITTECH, note=WITNOTE + "Only the compilers, language versions and target of this sandbox: the branches for other platforms are not compiled.", wit=[("C08_macros.cpp", dict(std=["c++17", "c++20", "c++23"], defs=[[], ["-DNDEBUG"], ["-O2"]]))]),
 "C17": dict(level="proof", note=MATHNOTE + "Classification is proved for every float and double (zeros of either sign, and values of one class, are only told apart by comparison). The integer forms of the helpers are proved for every argument in the ranges of the driver; their floating-point forms are folded for all combinations of the driver's constants, chosen so that every intermediate result is exact.", ai=[("C17_float.cpp", QA), ("C17_float.cpp", Q, QA, CE)]),
})
