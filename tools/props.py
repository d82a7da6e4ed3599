# Source of properties.jsonl and MANIFEST.json: one entry per property.
H = "include/NazaraUtils/"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[H+f for f in files],
                          mechanism=[dict(name=n, where=H+w) for n, w in mech],
                          observe_at=observe or ["public API of the component"], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=H+w) for n, m, w in state]
    return d

PROPS = [
P("C01", "Every public header and every public template member instantiates",
  "Every header compiles on its own, and every public member of every public class template and every public function template compiles when instantiated with suitable argument types, in C++17 and C++20, with both compilers installed. This includes const overloads, reverse iterators, conversions between const and non-const iterators, and the members no test calls.",
  ["programs","configurations"], "all public entities x {C++17, C++20} x {asserts on, off} x {gcc, clang}",
  "A template member that no test calls is never instantiated, so it can be ill-formed while every test passes.",
  ["Bitset.hpp","EnumArray.hpp","FixedVector.hpp","Flags.hpp","MemoryPool.hpp","Result.hpp","Signal.hpp","SparsePtr.hpp","StackArray.hpp","StackVector.hpp"],
  [("template definitions","*.inl")]),
P("C02", "Type list operations obey the algebra of lists",
  "For every type list, concatenation, append, prepend, indexing, search, size, membership, removal, transformation, uniqueness and instantiation follow the algebra of lists: size is the number of types, the type at index i is the i-th type (an index past the end does not compile), search gives the index of the first occurrence, removal drops every occurrence, uniqueness keeps the first of each, concatenation is associative with the empty list as identity. Applying a functor calls it for every type exactly once, in order, forwarding the arguments given.",
  ["programs"], "all type lists, including empty lists and lists with duplicates",
  "Type-level facts hold per instantiation; tests check a few lists.",
  ["TypeList.hpp"], [("TypeList metafunctions","TypeList.inl")]),
P("C03", "Function and type traits report the exact signature they are given",
  "For every function, function pointer, member function pointer and functor type, with any combination of const, volatile, reference and noexcept qualifiers, the function traits report exactly its return type and argument types, and for every such type that is not volatile the overload helper selects exactly the overload with the named arguments, rejecting argument types that no overload has. The other type traits (enumeration sizes, completeness, pointed types, function pointers, first type of a pack, hidden copies, functors, arithmetic types) classify every type category as their names say.",
  ["programs"], "all qualifier combinations of callable types and all type categories",
  "Tests cover some qualifier combinations with one arity each.",
  ["FunctionTraits.hpp","TypeTraits.hpp","Concepts.hpp"], [("partial specialisations","FunctionTraits.hpp")]),
P("C04", "Ownership, constness and no-throw guarantees are visible in the types",
  "Types that own a resource exclusively cannot be copied, copyable types stay copyable, and moves documented as non-throwing are declared so. Const containers hand out only const access to their elements, and misuse the interface is meant to reject (mixing flags of different enumerations, implicit conversion of an error into a value, assigning through a const view) does not compile.",
  ["programs"], "all programs using the public API",
  "A test only contains programs that compile; that a program is rejected is not tested at all.",
  ["MovablePtr.hpp","PrivateImpl.hpp","CallOnExit.hpp","Signal.hpp","Flags.hpp","Result.hpp","EnumArray.hpp","StackVector.hpp","FixedVector.hpp","MemoryPool.hpp"],
  [("declarations of special members","*.hpp")]),
P("C05", "The name of a type is complete and contains nothing else",
  "For every type, however long its name and however deeply it is nested in templates and namespaces, the type name reported at compile time is the whole qualified spelling of that type, with nothing before or after it; different types have different names, and the name is a constant expression.",
  ["programs"], "all types, with both compilers",
  "Tests name a handful of short types.",
  ["TypeName.hpp"], [("NzDetailTypeName","TypeName.inl")]),
P("C06", "Numeric constants are exact in every type",
  "In every floating-point type the mathematical constants (pi, its half and double, the square roots of 2, 3 and 5) are the representable value nearest to the real number, and in every arithmetic type the limits, infinity, NaN and the bit count are those of the type, with the same value whether the type is named or deduced from where the constant is used. Constants an integer type cannot hold do not compile for it.",
  ["inputs","programs"], "all arithmetic types and all constants",
  "Tests compare a few constants in float and double with a tolerance.",
  ["Constants.hpp"], [("MathConstants","Constants.hpp"),("casters","Constants.inl")]),
P("C07", "Functions declared constexpr are usable in constant expressions",
  "Every function declared constexpr can be called in a constant expression with suitable arguments, in every type it is instantiated with, and gives its specified result there: bit and number functions, endian conversions, hashes, checked casts, flags, enumeration arrays, results and movable values in C++17 and C++20 (operations built on standard functions that only became constexpr in C++20, and bitsets, in C++20). A failed check or an access to the wrong alternative is not a constant expression.",
  ["programs"], "all constexpr functions and overloads x {C++17, C++20} x {gcc, clang}",
  "A constexpr template that cannot be evaluated at compile time is not an error until a program needs it; tests mostly call at run time.",
  ["MathUtils.hpp","Hash.hpp","Flags.hpp","EnumArray.hpp","Result.hpp","MovableValue.hpp","Bitset.hpp","Algorithm.hpp","ConstantEvaluated.hpp"],
  [("constexpr declarations","*.hpp"),("compile-time and run-time paths","MathUtils.inl")]),
P("C08", "Configuration macros describe the build and leave the code's meaning alone",
  "The compiler, language version, architecture, platform and byte order macros describe the actual build, and exactly one of each exclusive kind is defined; version checks compare with the actual version and are false for other compilers. The sized integer types have the size and signedness they name. Branch hints keep the truth value of their condition in every statement form, assumptions, inlining and warning macros change no result, token macros expand their arguments where documented, constraint macros constrain where the language can, and the constant-evaluation macros tell the two evaluations apart.",
  ["programs"], "the two installed compilers x {C++17, C++20, C++23} on this platform",
  "Tests compile under one configuration and look at few of the macros.",
  ["Prerequisites.hpp","ConstantEvaluated.hpp","Concepts.hpp","TypeTag.hpp","DebugBreak.hpp"], [("compiler, platform and attribute macros","Prerequisites.hpp"),("evaluation macros","ConstantEvaluated.hpp")]),
P("C09", "The headers coexist with any program and with each other",
  "The public headers can be included together, in any order, several times and in several translation units of one program, without duplicate definitions. They run no code at startup and keep no global mutable state, declare nothing outside the library's namespaces, and define no macro outside its prefix. They leave the compiler's diagnostic and packing state as they found it, and the layout of the public types does not depend on assertion or debug settings, so objects built with different settings can be linked together.",
  ["programs","configurations"], "all headers in each order, every function and variable they define, every configuration of the assertion and debug switches",
  "The test program includes each header from one file in one configuration; a definition that clashes or a setting that leaks only shows in other programs.",
  ["Algorithm.hpp","Assert.hpp","Bitset.hpp","Hash.hpp","MathUtils.hpp","MemoryHelper.hpp","PathUtils.hpp","Prerequisites.hpp","StringUtils.hpp","TypeName.hpp"],
  [("inline and constexpr definitions","*.inl"),("NAZARA_WARNING_PUSH, NAZARA_WARNING_POP","Prerequisites.hpp"),("s_crc32Table","Hash.inl")]),
P("C10", "Byte swapping reverses bytes, and endian conversions agree with it",
  "For every integer width and every value, swapping bytes moves byte i to byte n-1-i, is its own inverse, and gives the same result at compile time and at run time; on a buffer of any length it reverses the bytes in place and touches nothing else. Floats are swapped bitwise, and host-to-little, host-to-big and the reverse conversions swap exactly when the byte orders differ.",
  ["inputs"], "all values of all arithmetic types; buffers of any length",
  "Tests check a few constants per type.",
  ["MathUtils.inl","Endianness.inl"], [("ByteSwap","MathUtils.inl"),("SwapBytes","Endianness.inl")]),
P("C11", "Bit scans, population counts and bit reversal are exact for every value",
  "For every integer type, signed or not, and every value (of any sign for the scans, counts and reversal, non-negative for the logarithm): the first (last) set bit is the 1-based position of the least (most) significant one bit, or 0 when there is none; the bit count is the number of one bits; reversal moves bit i to bit n-1-i; the integer logarithm is the position of the highest set bit. The constant-evaluated and the run-time implementation give the same answer.",
  ["inputs"], "all values of all integer types, both evaluation modes",
  "Tests check a few values and mostly one evaluation mode; narrow signed types and values above 32 bits are rarely covered.",
  ["MathUtils.inl"], [("FindFirstBit, FindLastBit, CountBits, ReverseBits, IntegralLog2, IntegralLog2Pot","MathUtils.inl")]),
P("C12", "Power-of-two tests, power-of-two rounding and alignment are exact",
  "For every positive value whose result is representable, rounding up to a power of two gives the least power of two not below it, and the power-of-two test accepts exactly the powers of two. Aligning an offset gives the least multiple of the alignment not below it (as long as offset plus alignment minus one does not overflow), the power-of-two variant and the general one agree, and the arithmetic right shift and integer power equal their mathematical definition.",
  ["inputs"], "all values in range of all integer types",
  "Tests check a few values.",
  ["MathUtils.inl"], [("Align, AlignPow2, RoundToPow2, GetNearestPowerOfTwo, IsPow2","MathUtils.inl")]),
P("C13", "Single-bit operations change exactly the bit they name",
  "For every integer type, value and valid bit index: setting, clearing and toggling a bit changes that bit as named and leaves every other bit alone, and testing a bit reports exactly that bit.",
  ["inputs"], "all values and all valid bit indices of all integer types",
  "Tests check a few bit indices.",
  ["MathUtils.inl"], [("SetBit, ClearBit, ToggleBit, TestBit","MathUtils.inl")]),
P("C14", "Comparison-based helpers return the result their definition names",
  "For every input without NaN: clamping returns the nearest value in range, approaching moves towards the objective by at most the increment and never past it, and approximate equality of integers holds exactly when the difference is within the tolerance, whatever the signs and widths. Checked casts to an integer or enumeration accept every value the target type represents and return it unchanged, and refuse the others when assertions are on; those between floating-point types refuse exactly what is out of the target's range; checked downcasts accept exactly the objects of the target type.",
  ["inputs"], "all values of all arithmetic types",
  "Tests check a few values, and no value near the limits of the types.",
  ["MathUtils.inl","Algorithm.inl"], [("Clamp, Approach, NumberEquals","MathUtils.inl"),("SafeCast","Algorithm.inl")]),
P("C15", "CRC-32 is the standard CRC for every input and every entry point",
  "For every input and every length, the CRC-32 equals the bitwise CRC of the reflected IEEE polynomial with initial and final complement. Passing the same bytes as a raw buffer, a string view, a NUL-terminated string or through the hash functor gives the same value.",
  ["inputs"], "all byte sequences, including bytes at or above 0x80 and the empty one",
  "Tests check a few ASCII strings.",
  ["Hash.inl","Hash.hpp"], [("CRC32","Hash.inl")]),
P("C16", "FNV-1a is the published hash for every input and every entry point",
  "For every input, the 32-bit and 64-bit FNV-1a hashes equal the published definition over its bytes. Passing the same bytes as a raw buffer, a string view, a NUL-terminated string or through the hash functor gives the same value, and the transparent string hash gives equal strings equal hashes whatever their form.",
  ["inputs"], "all byte sequences, including bytes at or above 0x80 and the empty one",
  "Tests hash a few ASCII strings.",
  ["Hash.inl","Hash.hpp","StringHash.inl"], [("FNV1a32, FNV1a64","Hash.inl"),("StringHash","StringHash.inl")]),
P("C17", "Floating-point classification is exact; arithmetic helpers match their formula",
  "Every floating-point value is exactly one of finite, infinite (of either sign) and not-a-number, and the classification functions say which, the same in constant expressions and at run time. Linear interpolation gives from + t * (to - from), so the first end at 0 and the second at 1; the remainder is that of the truncated division, with the sign of the dividend; multiply-add is the product plus the third operand; degrees and radians convert into each other with 180 degrees being pi.",
  ["inputs"], "all floats and doubles for the classification; all integers of the driver's ranges and a grid of exactly representable floating-point values for the helpers",
  "Tests check a few values of a few helpers, and only at run time.",
  ["MathUtils.inl","MathUtils.hpp"], [("IsFinite, IsInfinity, IsNaN","MathUtils.inl"),("Lerp, Mod, MultiplyAdd, DegreeToRadian, RadianToDegree","MathUtils.inl")]),
P("C18", "Reading changes nothing, so concurrent readers are safe",
  "Const members of every container and wrapper, comparisons, conversions, iteration over a const object, copies made from a source, views, lookups, and hashing and number functions of their arguments write neither to the object they read, nor to what it owns, nor to their arguments, nor to any global state (thread-local data, atomic counters and the once-only initialisation of statics aside). So several threads may read the same object, or call such functions, at the same time. Emitting a signal is the exception: it is declared const but needs exclusive access.",
  ["schedules","inputs"], "every reading operation of every type, every content; schedules follow because nothing shared is written",
  "Single-threaded tests cannot see a cache or a scratch variable that two readers share.",
  ["Bitset.hpp","EnumArray.hpp","FixedVector.hpp","Flags.hpp","FunctionRef.hpp","Hash.hpp","MemoryPool.hpp","MovablePtr.hpp","PrivateImpl.hpp","Result.hpp","Signal.hpp","SparsePtr.hpp","StackArray.hpp","StackVector.hpp","StringHash.hpp"],
  [("const members","*.hpp"),("CRC32 table, FNV1a","Hash.inl")]),
P("C20", "Flag sets behave as sets of enumerators",
  "For every enumeration of 1 to 64 values, whether its enumerators are bit positions or hold the bits themselves: a flag set built from enumerators contains exactly those enumerators, union, intersection, difference, symmetric difference and complement are the set operations over the enumeration's values and never set a bit outside it, and testing, setting, clearing and comparing agree with set membership. The conversion to an integer and back loses nothing and the hash of equal sets is equal.",
  ["inputs"], "all flag values, enumerations with 8, 16, 32 and 64 bit fields",
  "Tests use one small enumeration and a few combinations.",
  ["Flags.hpp","Flags.inl"], [("operators","Flags.inl")], [("m_value","one bit per enumerator","Flags.hpp")]),
P("C21", "Enumeration arrays map each enumerator to exactly one element",
  "For every enumeration and contents: indexing by an enumerator reaches the element with that index and no other, size is the number of enumerators, and filling, swapping and iterating act on every element exactly once, in order. The key-value iteration pairs each enumerator with its own element, and its iterators' steps, offsets, subscripts and comparisons follow the index.",
  ["inputs","histories"], "all contents, all enumerators, all iterator offsets in range",
  "Tests check a few elements; iterator arithmetic is mostly not exercised.",
  ["EnumArray.hpp","EnumArray.inl"], [("EnumArray, iterators","EnumArray.inl")]),
P("C22", "Strided pointers address base plus index times stride",
  "For every base, every signed stride and every index in range, a strided pointer's dereference, indexing, increment, decrement and offset arithmetic all reach the address base plus index times stride, whatever the integer type of the index. Differences invert offsets, comparisons order by address, and conversion to a pointer to const or to a base class keeps designating the same objects.",
  ["inputs"], "all bases and indices of each integer type, positive and negative strides",
  "Tests use a few small positive strides and indices.",
  ["SparsePtr.hpp","SparsePtr.inl"], [("operators","SparsePtr.inl")]),
P("C30", "Fixed-storage vector holds the sequence its history produces",
  "For every capacity, size and contents, each operation of the vector over caller-provided storage (append, insert, emplace, erase, resize, pop, clear, swap, assignment, move) yields exactly the sequence its contract names, constructs and destroys each element exactly once, never touches storage outside its capacity, and keeps every untouched element's value. A moved-from vector is empty and reusable.",
  ["inputs","histories"], "all capacities, sizes, positions and contents",
  "Tests use a few short sequences of one element type.",
  ["StackVector.hpp","StackVector.inl"], [("StackVector members","StackVector.inl")], [("m_size","number of live elements","StackVector.hpp"),("m_ptr","storage","StackVector.hpp")]),
P("C31", "Without alloca, stack containers own their heap storage",
  "On a platform without alloca, stack arrays and vectors made by their macros work as elsewhere, and the heap storage they use is released exactly once, by its last owner: when the container is destroyed, when another one is moved into it, or when the construction of an element throws, never while it is in use (assigning a container to itself keeps it).",
  ["inputs","configurations","fault_sequences"], "all sizes and contents, moves, swaps and throw points, in the configuration without alloca",
  "The tests only run where alloca exists; that code is not even compiled.",
  ["StackArray.hpp","StackArray.inl","StackVector.hpp","StackVector.inl","MemoryHelper.hpp"], [("NazaraStackArray, destructor, move assignment","StackArray.inl"),("NazaraStackVector, destructor, move assignment","StackVector.inl")]),
P("C32", "Fixed-capacity vector holds the sequence its history produces",
  "For every size and contents up to its capacity, each operation of the fixed-capacity vector (construction, append, insert, emplace, erase, resize, pop, clear, comparison, copy and move) yields exactly the sequence its contract names, constructs and destroys each element exactly once, never touches memory outside its inline storage, and keeps every untouched element's value. Copies are independent and moves transfer the elements.",
  ["inputs","histories"], "all sizes, positions and contents, for capacities 1, 6 and 40",
  "Tests use a few short sequences.",
  ["FixedVector.hpp","FixedVector.inl"], [("FixedVector members","FixedVector.inl")]),
P("C33", "Hybrid vector keeps one sequence across its switch to dynamic storage",
  "For every size and contents, below, at and above the inline capacity, each operation of the vector with a dynamic fallback yields exactly the sequence its contract names; elements move to the fallback once, when the inline capacity is exceeded, with their values and order. Every element is constructed and destroyed exactly once, and none is left in both or in neither storage.",
  ["inputs","histories"], "all sizes, positions and contents, inline capacities 1, 3 and 40",
  "Tests cross the boundary at a few sizes only.",
  ["FixedVector.hpp","FixedVector.inl"], [("FixedVector fallback paths","FixedVector.inl")]),
P("C34", "Fixed storage never allocates; other types only when they need more room",
  "Stack vectors and arrays, fixed vectors, enumeration arrays, flags, sparse pointers, function references, scope guards, in-place private implementations, results, movable values, hashes and string views never allocate dynamic memory, whatever is done with them. Vectors with a fallback do not use it up to their inline capacity. Moving and swapping any container never allocates. A memory pool allocates only for a new block, a bitset only to grow beyond its capacity (in-place operations and queries never), and emitting, disconnecting and moving signals never do.",
  ["inputs","histories"], "every operation of those types, every size within the capacity and every content",
  "Tests look at values; an allocation is invisible to them.",
  ["StackVector.hpp","StackArray.hpp","FixedVector.hpp","EnumArray.hpp","Flags.hpp","FunctionRef.hpp","CallOnExit.hpp","PrivateImpl.hpp","Result.hpp","MemoryPool.hpp","Bitset.hpp","Signal.hpp"],
  [("MoveStorageToFallback, move assignment","FixedVector.inl"),("Allocate","MemoryPool.inl")]),
P("C35", "Stack array constructs, exposes and destroys every element once",
  "For every size, a stack array constructs exactly that many elements in the given storage (none when told not to), exposes them all through its iterators and accessors in order, and destroys each exactly once. Filling, swapping and moving keep the contents, and a moved-from array owns nothing.",
  ["inputs","histories"], "all sizes and contents",
  "Tests use small arrays.",
  ["StackArray.hpp","StackArray.inl"], [("StackArray members","StackArray.inl")]),
P("C36", "An element operation that throws leaves containers consistent",
  "If any element constructor, copy, move or assignment throws at any point of any vector, stack array or pool operation, every live element is still owned exactly once, none is destroyed twice or leaked, the reported size matches the live elements, and the container can be destroyed. A failed append leaves the vector as it was.",
  ["fault_sequences","inputs"], "every throw point of every operation, all sizes",
  "Tests use types that never throw.",
  ["StackVector.inl","FixedVector.inl","StackArray.inl","MemoryPool.inl"], [("order of construction and of size updates","StackVector.inl")]),
P("C37", "Memory pool entries are unique, stable and destroyed exactly once",
  "For every history of allocations, frees, resets, clears and moves, the pool hands out indices not currently live, keeps every live entry's address, value and index until it is freed, counts allocated and free entries exactly, and destroys each entry exactly once. Iteration visits exactly the live entries in index order, and index and pointer lookups are inverse to each other.",
  ["histories"], "all occupancy subsets of small pools with every operation applied; one block of any occupancy for large ones",
  "Tests use a few histories.",
  ["MemoryPool.hpp","MemoryPool.inl"], [("Allocate, Free, Reset, Clear, iterator","MemoryPool.inl")], [("m_blocks, occupied and free bitsets","which entries are live","MemoryPool.hpp")]),
P("C38", "Arguments reach their receiver exactly as the caller gave them",
  "Wherever the interface forwards arguments (emplacing in stack, fixed and hybrid vectors, allocating from a pool, placement construction, private implementations, results and their functors, movable values, function references, hash functors, type list application, overload sets, checked casts, and signals whose arguments are references), the receiver gets the very objects given, in the order given, each with the constness and value category it was given with; nothing is copied, moved from or bound to a temporary on the way, and the result comes back untouched.",
  ["programs","inputs"], "every forwarding function x every constness and value category of its arguments and functor",
  "Losing a value category copies instead of moving (or moves what is still needed); values look right in tests with plain types.",
  ["StackVector.inl","FixedVector.inl","MemoryPool.inl","MemoryHelper.inl","PrivateImpl.inl","Result.inl","MovableValue.inl","FunctionRef.inl","Hash.inl","TypeList.inl","Signal.inl","TypeTraits.hpp"],
  [("forwarding constructors and calls","*.inl")]),
P("C40", "Bitset never exposes a bit beyond its size",
  "After any operation on a bitset (construction, resize, append, shift, flip, set, write, logical operations, move), the bits of its last block beyond its size are zero, and its block count is exactly what its size needs. So counting, comparing, testing all bits, searching and extracting integers never see bits that do not exist.",
  ["inputs","histories"], "all contents at sizes around block boundaries, for 8, 32 and 64 bit blocks",
  "Tests mostly use sizes and operations that keep the tail clean.",
  ["Bitset.hpp","Bitset.inl"], [("ResetExtraBits","Bitset.inl")], [("m_blocks, m_bitCount","blocks and number of bits","Bitset.hpp")]),
P("C41", "Bitset logical operations act bit by bit for operands of any sizes",
  "For any two bitsets, of equal or different sizes, union, intersection, exclusive or and complement have at each position the value of that operation on the operands' bits (missing bits count as zero), set, reset, flip and test act on exactly the bits named, and the in-place forms agree with the others. Comparison, equality and intersection tests agree with the bits.",
  ["inputs"], "all contents at sizes around block boundaries, all pairs of sizes there",
  "Tests use few sizes and small values.",
  ["Bitset.hpp","Bitset.inl"], [("PerformsAND, PerformsOR, PerformsXOR, PerformsNOT","Bitset.inl")]),
P("C42", "Bitset shifts and rotations move every bit by exactly the distance",
  "For every contents, size and distance (zero, a multiple of the block size, or beyond the size included), shifting moves bit i to i plus or minus the distance, fills with zeros and drops the bits shifted out. Reversal moves bit i to position size-1-i.",
  ["inputs"], "all contents at sizes around block boundaries, all distances",
  "Tests use a few distances.",
  ["Bitset.inl"], [("ShiftLeft, ShiftRight, Reverse","Bitset.inl")]),
P("C43", "Bitset append, resize and write keep the bits and add exactly those given",
  "Appending bits to a bitset of any size keeps the existing bits and puts the appended ones right after them, in order, with nothing else set; resizing keeps the common bits and fills the others with the given value. Writing a byte sequence gives the bits of the bytes in order, reading back any range returns them, and converting to and from integers and strings, or printing, loses nothing.",
  ["inputs"], "all contents, sizes around block boundaries, all bit counts appended",
  "Tests use sizes that are multiples of the block.",
  ["Bitset.inl"], [("AppendBits, Resize, Write, Read","Bitset.inl")]),
P("C44", "Bitset searches and counts agree with the bits",
  "For every contents, the first and next set bit searches return the least set position (after the given one) or the not-found value, iteration over set bits yields exactly the set positions in increasing order, and counting, testing all, any and none agree with the bits.",
  ["inputs"], "all contents at sizes around block boundaries",
  "Tests use a few patterns.",
  ["Bitset.inl"], [("FindFirst, FindNext, Count, TestAll, TestAny, TestNone","Bitset.inl")]),
P("C50", "Movable wrappers transfer their value exactly once",
  "Moving a movable pointer, value or literal gives the destination the source's value and leaves the source null or at its default (move assignment may leave it the destination's previous value); assigning from a value stores exactly it and, for an lvalue, leaves it untouched. No other operation changes the stored value, and moving onto itself keeps it.",
  ["inputs","histories"], "all stored values",
  "Tests move a few values once.",
  ["MovablePtr.inl","MovableValue.inl"], [("move operations","MovablePtr.inl")]),
P("C51", "Private implementations are deep-copied and destroyed exactly once",
  "For every history of constructions, copies, moves, assignments (self-assignment and empty operands included), a private implementation is constructed and destroyed exactly once per owner, copies are deep, accessors reach the owned object with the constness of the owner, and moves leave the source empty or moved-from. A copy that throws leaves the destination holding its previous object or nothing, never a destroyed one.",
  ["histories","fault_sequences"], "all operand states, every throw point",
  "Tests never self-assign, copy empty objects or throw.",
  ["PrivateImpl.hpp","PrivateImpl.inl"], [("copy and move operations","PrivateImpl.inl")]),
P("C52", "A scope guard calls its function exactly once, unless it is cancelled",
  "On every path out of its scope, exceptions included, a scope guard calls its function exactly once; after a reset, a call-and-reset or a move-from, it does not call it again. Moving a guard into another hands over its function and drops the replaced one uncalled, and an empty function is never called.",
  ["histories","fault_sequences"], "all sequences of guard operations, every throw point",
  "Tests do not throw from the function or move the guard around.",
  ["CallOnExit.hpp","CallOnExit.inl"], [("destructor, CallAndReset, Reset","CallOnExit.inl")]),
P("C53", "A function reference calls its target with the arguments given",
  "A function reference made from any callable (const or not, function pointer, functor, lambda) calls exactly that object once per call, forwards every argument with its value category, returns its result, and neither copies nor moves the target. A copy of a function reference calls the same target, and one made from nothing is empty.",
  ["inputs","programs"], "all argument values and callable kinds",
  "Tests use a few callables.",
  ["FunctionRef.hpp","FunctionRef.inl"], [("FunctionRef","FunctionRef.inl")]),
P("C54", "A result holds exactly one of value and error at any time",
  "For every history of construction, copy, move, assignment and mapping, a result is either a value or an error and says which (as long as the payloads' moves do not throw), its accessors reach the object stored, and each stored object is constructed and destroyed exactly once. Value-or returns the value when there is one and the fallback otherwise, mapping applies the function once to the value and passes errors on unchanged, an error built from an lvalue leaves it untouched, and expecting a value throws exactly for an error, with the message given.",
  ["histories","inputs"], "all states of both operands, all values",
  "Tests use trivially copyable payloads and few transitions.",
  ["Result.hpp","Result.inl"], [("Result members","Result.inl")]),
P("C55", "A signal calls exactly its connected slots, once each, in order",
  "For every history of connections, disconnections, copies, moves and destructions of signals, connections and guards, emitting calls each connected slot exactly once with the arguments given and no disconnected one, also when slots disconnect themselves or others, or connect new ones, during the emission; slots are called in connection order as long as none was disconnected. No slot is used after it is destroyed, a connection outliving its signal reports disconnected, and a guard disconnects when it is destroyed or replaced.",
  ["histories"], "histories over up to four slots, any slot disconnected by any other during emission",
  "Tests run a few histories and do not observe use of freed memory.",
  ["Signal.hpp","Signal.inl"], [("Connect, Disconnect, operator()","Signal.inl")]),
P("C56", "A failed assertion never returns and a true one has no effect",
  "When a checked condition is false the program stops and never continues past the check, with or without a message and whatever the build configuration's debug settings. It first writes the failure to the error stream: the message with its arguments formatted (a message without arguments is written as it is), and the place when it is given. When the condition is true nothing else happens. The checking macro evaluates its condition exactly once when assertions are on and not at all when they are off.",
  ["programs","configurations"], "all conditions, asserts on and off, all entry points",
  "Tests compile without failing assertions.",
  ["Assert.hpp","Assert.inl"], [("NazaraAssert, Assert, AssertFailure","Assert.inl")]),
P("C57", "Breaking a checked precondition stops the program when assertions are on",
  "With assertions enabled, a call that breaks a precondition the library checks never returns and reads or writes nothing outside the object: indexes past the end of a vector, array, bitset or pool, access to an empty container, growth past a fixed capacity, positions and ranges outside the container, freeing or looking up a pool entry that is not allocated, comparing iterators of different containers, moving past the end of flags, bit positions outside the type, alignments that are not powers of two, a missing key, an empty slot function, a second emplacement.",
  ["inputs"], "all contents, sizes and out-of-range values",
  "The test suite never breaks a precondition, so a weakened or lost check goes unnoticed.",
  ["StackVector.inl","FixedVector.inl","StackArray.inl","Bitset.inl","MemoryPool.inl","EnumArray.inl","MathUtils.inl","Algorithm.inl","Signal.inl"], [("assert, NazaraAssert","StackVector.inl")]),
P("C60", "UTF-8 and raw memory helpers keep every byte",
  "Converting a string or view between the plain and the UTF-8 character type keeps the length and every byte, the empty string included, and views refer to the same memory. Typed access at a byte offset reaches exactly base plus offset, the offset of a member is its distance from the start of the object (inherited and array members included), in-place construction and destruction act once on the given memory, and bit-casting and pointer-integer round trips keep every bit.",
  ["inputs"], "all strings and lengths, all offsets and values",
  "Tests use a few strings.",
  ["StringUtils.inl","Algorithm.inl","MemoryHelper.inl","OffsetOf.hpp"], [("FromUtf8String, ToUtf8String","StringUtils.inl"),("AccessByOffset, BitCast","Algorithm.inl"),("PlacementNew, PlacementDestroy","MemoryHelper.inl")]),
P("C61", "Paths and UTF-8 strings convert both ways without changing a byte",
  "Converting a path to a string gives the path's generic UTF-8 text, whole and byte for byte, and leaves the path as it was; building a path from a UTF-8 string uses exactly the characters of the view given, whatever its length and content. A string without repeated separators is given back by the round trip, in every language version the library supports.",
  ["inputs"], "all strings and lengths, C++17 and C++20",
  "The only test converts one short name there and back.",
  ["PathUtils.inl","StringUtils.inl"], [("PathToString, Utf8Path","PathUtils.inl")]),
P("C62", "Iterators are what they tell the standard library they are",
  "Every iterator of the library gives the standard library complete and truthful traits: its reference type is what dereferencing gives, its value, pointer and difference types match, and every operation of the category it declares exists with the standard's result types. So standard algorithms accept every pair of iterators and compute over them exactly what a direct computation over the contents gives: distances, searches, copies, sums and advances visit each element once, in order (strided pointers: for positive strides where the algorithm compares positions, since they order by address).",
  ["programs","inputs"], "every iterator type; all contents of small containers, all pairs of positions",
  "Tests use range-based loops, which need neither traits nor the rest of the category.",
  ["Bitset.hpp","EnumArray.hpp","FixedVector.hpp","Flags.hpp","MemoryPool.hpp","SparsePtr.inl","StackArray.hpp","StackVector.hpp"],
  [("BitIterator","Bitset.hpp"),("EnumArrayKvIterator","EnumArray.hpp"),("iterator_traits of SparsePtr","SparsePtr.inl"),("Flags::iterator","Flags.hpp"),("MemoryPoolIterator","MemoryPool.hpp")]),
]
