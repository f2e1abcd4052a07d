#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": "state the property speaks about", "where": files[0]}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = ["src/Vector.c", "include/Zycore/Vector.h"]
prop("V01", "Every vector operation has its sequence meaning",
  "For every valid vector and every in-range request, push, insert, insert-range, emplace, set, swap, delete, delete-range, pop, clear and resize leave exactly the elements, order and size that the same edit of a mathematical sequence leaves, and every element not named by the edit keeps its bytes. Get returns the element at the index, also after the storage moved.",
  ["inputs", "histories"], "every valid pre-state (any size, content, element size, growth/shrink setting, dynamic or fixed storage), every operation and every argument; one step from an arbitrary valid state covers all histories",
  "The suite pushes and deletes fixed values in growing vectors; off-by-one shifts at particular index/count/size/capacity combinations and at reallocation boundaries are not sampled.",
  V, [("insertion and shifting", "src/Vector.c ZyanVectorInsertRange/EmplaceEx/ShiftRight"), ("deletion", "src/Vector.c ZyanVectorDeleteRange/PopBack/ShiftLeft"), ("resize", "src/Vector.c ZyanVectorResizeEx")], "size, capacity, element_size, data")
prop("V02", "Vector operations never leave their storage, whatever the arguments",
  "For every vector and every index and count, including values whose sum wraps around, an operation either addresses only elements inside the vector or is refused with an out-of-range or invalid-argument status and leaves the vector untouched. No operation reads or writes outside the vector's storage or the caller's buffers.",
  ["inputs"], "all 2^64 index and count values against every valid vector within the size bound, dynamic and fixed storage",
  "Tests use a handful of small indices; wrap-around and one-past-the-end combinations are rare inputs and an overrun usually goes unnoticed without instrumentation.",
  V, [("range checks", "src/Vector.c ZyanVectorDeleteRange/FindEx/BinarySearchEx/Get*/Set/SwapElements/EmplaceEx/InsertRange")])
prop("V03", "Vector capacity follows the documented growth and shrink policy",
  "A dynamic vector reallocates exactly when the size would exceed the capacity (to needed size times growth factor), or when size times shrink threshold drops below the capacity on a removal or resize (to size times growth factor, at least one element); a threshold of zero never shrinks, reserve never shrinks and shrink-to-fit gives capacity equal to the size (at least one). The reported capacity is always what the allocator granted. A vector on a caller-supplied buffer never changes its buffer or capacity and reports an insufficient-buffer status when it would have to grow.",
  ["inputs", "configurations"], "every size/capacity pair, growth factor, shrink threshold and operation within the bound",
  "One test checks the policy for one growing and shrinking run with the same settings; thresholds, boundaries and fixed buffers are not covered.",
  V, [("growth/shrink decision", "src/Vector.c ZYCORE_VECTOR_SHOULD_GROW/SHOULD_SHRINK"), ("reallocation", "src/Vector.c ZyanVectorReallocate")])
prop("V04", "Element destructors run exactly once per removed element",
  "For every vector with a destructor, each element that leaves the vector (delete, pop, clear, shrinking resize, overwrite by set, destroy of the vector) is passed to the destructor exactly once, while its bytes are still intact, and no other element is. Operations that are refused destroy nothing, and an element is never destroyed again by a later operation, even if a reallocation failed in between.",
  ["inputs", "histories", "fault_sequences"], "every valid vector, removal and argument, with every allocator failure schedule, followed by destroying the vector",
  "The suite never installs a destructor that counts, and never makes an allocation fail.",
  V, [("destructor calls", "src/Vector.c ZyanVectorDeleteRange/PopBack/Set/ResizeEx/Destroy")])
prop("V05", "A failed allocation or constructor leaves the vector usable and complete",
  "When growing storage fails, or the constructor passed to emplace fails, the operation reports that failure and the vector keeps its size and every element exactly as before (and its storage and capacity, if the storage could not grow). When a removal cannot give memory back, the removal may report the failure but the vector stays valid and holds exactly the remaining or the original elements.",
  ["fault_sequences", "inputs"], "every allocator failure schedule and constructor outcome at every operation from every valid vector within the bound",
  "Tests run with the default allocator, which never fails, and with constructors that always succeed.",
  V, [("reallocation order", "src/Vector.c ZyanVectorReallocate"), ("constructor result", "src/Vector.c ZyanVectorEmplaceEx")])
prop("V06", "Vector find and binary search give the mathematically right answer",
  "For every vector and every valid sub-range, find returns true with the lowest matching index in the range, or false with index -1 if nothing matches. On a range sorted by the comparison, binary search returns true exactly if an equal element is in the range, with the index of the first one, and otherwise false with the index at which inserting keeps the order.",
  ["inputs"], "every content (including duplicates), sub-range and key within the bound",
  "The suite searches one sorted vector of distinct values over its full range.",
  V, [("search loops", "src/Vector.c ZyanVectorFindEx/ZyanVectorBinarySearchEx")])
prop("V07", "Creating and duplicating vectors yields an independent exact copy",
  "A new vector is empty with at least the requested capacity (minimum one element) and the requested settings. A duplicate holds exactly the source's elements in order in storage of its own with at least the requested capacity, later changes to either do not affect the other, the source is unchanged, and a caller buffer that is too small, an invalid argument or a failed allocation is refused.",
  ["inputs", "fault_sequences"], "every source vector, requested capacity, setting and allocator outcome within the bound",
  "No test duplicates a vector.",
  V, [("construction", "src/Vector.c ZyanVectorInitEx/InitCustomBuffer"), ("duplication", "src/Vector.c ZyanVectorDuplicateEx/DuplicateCustomBuffer")])
prop("A01", "Containers use their allocator correctly and leak nothing",
  "For every sequence of operations on a vector, string, bitset or list, each block obtained from the container's allocator is reallocated and released only while live, with the element size and count it was obtained with, by the same allocator, and never with zero sizes. After the container is destroyed, or after its construction failed, no block is left allocated and none was released twice; containers on caller buffers never call an allocator.",
  ["histories", "fault_sequences"], "all operation sequences up to the stated length with arbitrary arguments and every allocator failure schedule",
  "The default allocator ignores the sizes it is given, so a wrong count or a leak is invisible to the tests.",
  ["src/Vector.c", "src/List.c", "src/String.c", "src/Bitset.c", "src/Allocator.c"], [("vector storage", "src/Vector.c ZyanVectorReallocate/Destroy"), ("list nodes", "src/List.c ZyanListAllocateNode/DeallocateNode/Destroy")])
prop("A02", "The default allocator requests exactly the right number of bytes",
  "For every element size and count, the default allocator either provides a block of at least element size times count bytes, preserving the old content on reallocation, or fails with a not-enough-memory status and leaves the old block untouched; a product that overflows always fails. Initialising an allocator stores the three given callbacks and refuses a missing one.",
  ["inputs", "fault_sequences"], "all element sizes and counts (64-bit), every libc allocation outcome",
  "Overflowing products cannot be reached by realistic test sizes and out-of-memory does not happen in tests.",
  ["src/Allocator.c"], [("default callbacks", "src/Allocator.c ZyanAllocatorDefaultAllocate/Reallocate/Deallocate")])
S = ["src/String.c", "include/Zycore/String.h"]
prop("S01", "String edits have their text meaning and stay NUL-terminated",
  "For every string and every in-range request, append, insert, delete, truncate, clear, resize, set-char and the sub-range variants leave exactly the text that the edit describes, with the text outside the edit unchanged. After every operation, successful or not, the data is followed by a NUL terminator at the reported size and the size is within the capacity.",
  ["inputs", "histories"], "every valid string (any length, capacity, content, dynamic or fixed storage), every edit and argument within the bound",
  "The repository has no test for strings at all (tests/String.cpp is empty).",
  S, [("edits", "src/String.c ZyanStringAppend/Insert/Delete/Truncate/Clear/Resize and *Ex variants")])
prop("S02", "Impossible string edits are refused without damage",
  "For every string, view, index and count (including values whose sum wraps around), a request outside the text is refused with an out-of-range status, and a request that needs more room than a fixed buffer has or than the allocator grants is refused with the corresponding status. After a refusal the string's text, size and terminator are what they were, and no memory outside the string and its source was touched.",
  ["inputs", "fault_sequences"], "all 64-bit indices and counts, every fixed-buffer capacity and allocator failure within the bound",
  "No tests exist; full fixed buffers and wrap-around arguments are rare inputs.",
  S, [("range checks", "src/String.c *Ex functions"), ("room checks", "src/Vector.c ZyanVectorReallocate")])
prop("S03", "New, duplicated and concatenated strings have the right text",
  "A new string is empty with at least the requested capacity. A duplicate equals the source text and a concatenation equals the first text followed by the second, in storage of their own with at least the requested capacity, NUL-terminated, for sources that are whole strings or views into the middle of other text; a caller buffer that cannot hold the text plus terminator is refused.",
  ["inputs"], "every pair of source texts and requested capacity or buffer size within the bound",
  "No tests exist for string construction.",
  S, [("construction", "src/String.c ZyanStringInitEx/InitCustomBuffer"), ("copies", "src/String.c ZyanStringDuplicate*/ZyanStringConcat*")])
prop("S04", "String views show exactly the requested text and nothing else",
  "A view of a view, of a C string or of a buffer with explicit length has exactly the requested length and characters, for every valid index and count including the empty range, and an out-of-range request is refused. Reading a character through a view gives that character for every index inside the view and an out-of-range status otherwise, and no function taking views reads a byte outside them, even when no NUL terminator follows.",
  ["inputs"], "every text, index and count (64-bit) within the length bound; views not followed by a terminator",
  "No tests exist; a read one byte past a view is harmless in most test memory layouts.",
  S, [("view construction", "src/String.c ZyanStringViewInside*"), ("character access", "src/String.c ZyanStringGetChar/GetCharMutable/SetChar")])
prop("S05", "Substring search finds the first or last match, and only real ones",
  "Left search returns true with the lowest, right search with the highest index in the given range at which the whole needle lies inside the range, and false with index -1 if there is none or the needle is empty. The case-insensitive variants do the same, treating exactly the ASCII letters that differ only in case as equal.",
  ["inputs"], "every haystack, needle, start index and count within the length bound, as strings or unterminated views",
  "No tests exist; overlapping prefixes, matches at range ends and non-letter characters need particular inputs.",
  S, [("search", "src/String.c ZyanStringLPosEx/LPosIEx/RPosEx/RPosIEx")])
prop("S06", "String comparison is a consistent total order",
  "Comparison reports equality (status true, result 0) exactly if both texts have the same length and characters, for the case-insensitive variant up to the case of ASCII letters; otherwise the status is false and the result is non-zero. The result is antisymmetric and transitive, and for texts of equal length it has the sign of the first differing ASCII character.",
  ["inputs"], "every pair (and triple, for transitivity) of texts within the length bound, as strings or unterminated views",
  "Order laws relate several calls and fail only for particular character pairs; no tests exist.",
  S, [("comparison", "src/String.c ZyanStringCompare/CompareI")])
prop("S07", "Case conversion changes exactly the letters in the range",
  "Lower- and upper-case conversion of a range replaces every ASCII letter of the other case inside the range by its counterpart and changes no other byte, no byte outside the range and not the size; a range outside the text is refused without a change. ",
  ["inputs"], "every text (all byte values), index and count (64-bit) within the length bound",
  "No tests exist; the boundary characters next to the letter ranges need exact inputs.",
  S, [("conversion", "src/String.c ZyanStringToLowerCaseEx/ToUpperCaseEx")])
F = ["src/Format.c", "include/Zycore/Format.h"]
prop("F01", "Decimal formatting appends the exact shortest decimal text",
  "Appending any 64-bit value in decimal appends its digits without leading zeros, left-padded with zeros to the requested width, after an optional prefix and a sign (minus for negative values including the smallest, plus only if forced) in front of it. The text already in the string is kept, the result is NUL-terminated, and if there is no room the string of an unsigned append is left unchanged.",
  ["inputs", "fault_sequences"], "all 2^64 values, paddings 0..255 within the stated sub-ranges, flags, string fill levels, allocator failures and fixed buffers",
  "No tests exist for formatting; digit-count boundaries and capacity boundaries multiply to far more cases than samples reach.",
  F, [("decimal", "src/Format.c ZyanStringAppendDecU64/AppendDecU/AppendDecS")])
prop("F02", "Hexadecimal formatting appends the exact shortest hex text",
  "Appending any 64-bit value in hexadecimal appends its digits in the requested letter case without leading zeros, left-padded with zeros to the requested width, after an optional prefix and a sign (minus for negative values, plus only if forced) in front of it. The text already in the string is kept, the result is NUL-terminated, and if there is no room the string of an unsigned append is left unchanged.",
  ["inputs", "fault_sequences"], "all 2^64 values, paddings within the stated sub-ranges, flags, string fill levels, allocator failures and fixed buffers",
  "No tests exist for formatting.",
  F, [("hexadecimal", "src/Format.c ZyanStringAppendHexU64/AppendHexU/AppendHexS")])
prop("F03", "printf-style appending yields the full text or no change",
  "Appending a formatted text of any length leaves the old text followed by the complete formatted text and a terminator, growing the string if needed with any growth setting, and passes the caller's arguments to the formatter intact every time it formats. If the string cannot grow or the formatter fails, the error is reported and the string keeps its old text, size and terminator.",
  ["inputs", "fault_sequences"], "every output length and content within the bound, every fill level, growth factor and failure",
  "No tests exist; the retry after a too small buffer is taken only for particular fill levels.",
  F, [("format and retry", "src/Format.c ZyanStringAppendFormat")])
B = ["src/Bitset.c", "include/Zycore/Bitset.h"]
prop("B01", "Bit operations act on exactly the addressed bit",
  "For every bitset and index, set, reset, assign and toggle change exactly that bit as named, test reports its value, and an index outside the bitset is refused without a change. Creating a bitset of any bit count gives that many zero bits, on dynamic or caller-supplied storage, and a caller buffer too small for the bits is refused.",
  ["inputs"], "every bit count and index (64-bit index) within the size bound, every content",
  "The repository has no test for bitsets.",
  B, [("bit access", "src/Bitset.c ZyanBitsetSet/Reset/Assign/Toggle/Test*"), ("construction", "src/Bitset.c ZyanBitsetInitEx/InitBuffer")])
prop("B02", "Bits pushed and popped behave like a stack of bits",
  "Push appends exactly the given bit, pop removes the last bit, clear removes all, reserve and shrink-to-fit change no bit, and in every case all remaining bits and the size are as for a sequence of bits; pop on an empty bitset is refused. If storage cannot grow, push is refused and size and bits stay as they were.",
  ["inputs", "histories", "fault_sequences"], "every bitset within the size bound, every operation, every allocator failure; size always equals the bits stored",
  "No tests exist; only every eighth push or pop touches the storage.",
  B, [("size management", "src/Bitset.c ZyanBitsetPush/Pop/Clear/Reserve/ShrinkToFit")])
prop("B03", "Count, all, any and none consider exactly the bits in the bitset",
  "For every bitset, count returns the number of set bits, all is true exactly if every bit is set, any exactly if at least one is set and none exactly if no bit is set. Bits outside the bitset, such as leftovers in the last byte after set-all, flip or pop, never influence them.",
  ["inputs"], "every size (including 0 and sizes not divisible by 8) and content, including arbitrary unused bits, within the size bound",
  "No tests exist; wrong masks show only for particular sizes and contents.",
  B, [("aggregates", "src/Bitset.c ZyanBitsetCount/All/Any/None")])
prop("B04", "AND, OR, XOR, flip, set-all and reset-all are bitwise",
  "For two bitsets, AND, OR and XOR store in every bit of the destination that both have the Boolean combination of both bits, and leave the source, the sizes and whole bytes beyond the shorter one unchanged. Flip, set-all and reset-all invert, set or clear every bit of the bitset.",
  ["inputs"], "every pair of sizes and contents within the bound, including a bitset combined with itself",
  "No tests exist for bitset logic.",
  B, [("logic", "src/Bitset.c ZyanBitsetPerformByteOperation/AND/OR/XOR/Flip/SetAll/ResetAll")])
L = ["src/List.c", "include/Zycore/List.h"]
prop("L01", "The list is a faithful sequence under every operation",
  "For every sequence of push, emplace, pop, remove, remove-range, resize, clear and set on a list, the items and their order, read forwards from the head or backwards from the tail, and the reported size are those of the same edits on a sequence; popping an empty list is refused. Node neighbours are mutually consistent and nodes that were not removed keep their address and data.",
  ["histories", "inputs"], "all operation sequences up to the stated length with arbitrary values, on dynamic and fixed storage",
  "The repository has no test for lists; link errors appear only after particular sequences.",
  L, [("insertion", "src/List.c ZyanListPushBack/PushFront/EmplaceBack/EmplaceFront"), ("removal", "src/List.c ZyanListPopBack/PopFront/Remove/RemoveRange/ResizeEx")])
prop("L02", "A list on a caller buffer never overlaps nodes or leaves the buffer",
  "A list on a caller-supplied buffer holds as many items as fit completely into the buffer, whatever sequence of insertions and removals came before, and refuses further items with an insufficient-buffer status and no change. Nodes never overlap each other or extend beyond the buffer, and space of removed items is reused.",
  ["histories"], "all operation sequences up to the stated length and every buffer capacity within the bound",
  "No tests exist; reuse of freed nodes depends on the order of removals and insertions.",
  L, [("node allocation", "src/List.c ZyanListAllocateNode/DeallocateNode")])
prop("L03", "List destructors and failed insertions are exact",
  "Every item that leaves a list (pop, remove, clear, shrinking resize, overwrite by set, destroy) is passed to the destructor exactly once with its data intact, and no other item is. An insertion whose allocation or constructor fails reports the failure and leaves list, size and items unchanged, without keeping memory.",
  ["fault_sequences", "histories"], "all operation sequences up to the stated length, every allocator failure and constructor outcome",
  "No tests exist; failures are never injected.",
  L, [("destructor calls", "src/List.c ZyanListPop*/RemoveRange/ResizeEx/Destroy/SetNodeData"), ("constructor result", "src/List.c ZyanListEmplaceBack/EmplaceFront")])
G = ["src/ArgParse.c", "include/Zycore/ArgParse.h"]
prop("P01", "Accepted command lines are parsed into exactly their arguments",
  "For every accepted command line the result lists, in order, one entry per named flag, per named option with its value (attached to a single-dash option or taken from the next token) and per unnamed argument, each with the right definition, value flag and value text. A double dash alone ends option parsing, and a lone dash is an unnamed argument.",
  ["inputs"], "every argument vector up to the stated number and length of tokens, every set of definitions from the stated family",
  "The suite parses about eight fixed command lines.",
  G, [("token loop", "src/ArgParse.c ZyanArgParseEx")])
prop("P02", "Command lines are rejected exactly when the grammar says so",
  "Parsing succeeds exactly if all dash tokens are defined, every value option has a value, all required arguments are present and the number of unnamed arguments is within the limits; otherwise the status names the first problem and the error token, if there is one, points to the offending argument. Malformed definitions or limits are refused as invalid arguments.",
  ["inputs"], "every argument vector, definition set and limit within the bound",
  "Each rejection is tested with one command line.",
  G, [("error paths", "src/ArgParse.c ZyanArgParseEx failure label")])
prop("P03", "Argument parsing is memory-safe and leaves nothing behind on failure",
  "For every argument vector, parsing never reads outside the argument strings and definitions. On every failure, including an allocation failing at any point, no memory remains allocated and the parser reports the failure; on success exactly the result vector is allocated.",
  ["inputs", "fault_sequences"], "every argument vector within the bound and every allocator failure schedule",
  "Leaks and over-reads do not fail the tests, and allocations never fail there.",
  G, [("failure label", "src/ArgParse.c failure"), ("token access", "src/ArgParse.c main loop")])
prop("C01", "Comparison callbacks implement equality and a total order",
  "The equality comparisons for pointers, booleans and integers of 8 to 64 bits return true exactly for equal values, and the comparisons return -1, 0 or 1 as the first value is less than, equal to or greater than the second, signed for signed and unsigned for unsigned types. They read exactly the given number of bytes.",
  ["inputs"], "all pairs of values of every type",
  "Extreme values (sign boundary, large unsigned) are not sampled; the tests use one of the callbacks.",
  ["include/Zycore/Comparison.h"], [("macros", "include/Zycore/Comparison.h ZYAN_DECLARE_COMPARISON*")])
prop("C02", "Arithmetic, status and version helpers are exact for all inputs",
  "Minimum, maximum, absolute value, power-of-two test, alignment test, align up and down, bits-needed and the overflow-free 64-bit absolute value compute their mathematical definition for every input for which it is representable. Status codes compose and decompose losslessly with the error bit deciding success, the predefined codes are distinct with success, true and false counting as success, and version numbers round-trip through their encoding and accessors.",
  ["inputs"], "all 32- and 64-bit values",
  "Edge values such as the smallest integer or already aligned addresses are not sampled; there are no tests for these helpers.",
  ["include/Zycore/Defines.h", "include/Zycore/Status.h", "include/Zycore/Zycore.h", "include/Zycore/Format.h", "src/Zycore.c"],
  [("arithmetic macros", "include/Zycore/Defines.h"), ("status macros", "include/Zycore/Status.h"), ("ZyanAbsI64", "include/Zycore/Format.h")])
prop("N01", "The libc-free string and memory routines match the C standard",
  "Built without libc, the replacements for memchr, memcmp, memcpy, memmove, memset and the str* family return what the C standard prescribes for every input, write exactly the bytes it prescribes, and read no byte beyond the terminator or the given length.",
  ["inputs", "configurations"], "every content, length, overlap and alignment within the length bound, in the no-libc configuration",
  "The tests are built with libc, so this code is never executed by them.",
  ["include/Zycore/LibC.h"], [("fallback routines", "include/Zycore/LibC.h ZYAN_NO_LIBC section")])
prop("T01", "Atomic operations are indivisible and return what they promise",
  "For every value, compare-and-swap stores the new value exactly if the old one matched and returns the old one, increment and decrement return the new value wrapping at the word size, for the 32-bit, 64-bit and pointer-sized variants. Concurrent operations of several threads on the same variable take effect one after the other, so no update is lost.",
  ["schedules", "inputs"], "all values and all interleavings of two threads with the stated number of operations",
  "There is no test for atomics, and lost updates depend on the schedule.",
  ["include/Zycore/Atomic.h", "include/Zycore/Internal/AtomicGNU.h"], [("builtins", "include/Zycore/Internal/AtomicGNU.h")])
prop("T02", "Critical sections map the mutex contract faithfully",
  "A critical section is initialised as a recursive mutex; enter, try-enter, leave and delete operate on the given mutex and on no other, and report success exactly if the operating system did, with each documented error mapped to its status. Thread-local storage allocation, free, get and set likewise pass index, destructor and data through unchanged and report each failure as its documented status.",
  ["fault_sequences", "inputs"], "every return value of every pthread call involved",
  "Operating-system failures cannot be provoked in unit tests; there are no tests for this code.",
  ["src/API/Synchronization.c", "src/API/Thread.c"], [("mutex calls", "src/API/Synchronization.c"), ("TLS calls", "src/API/Thread.c")])
prop("T03", "Memory, process and terminal wrappers report the system's verdict",
  "Changing page protection, freeing virtual memory and flushing the instruction cache pass address, size and protection through unchanged and report success exactly if the system call succeeded; the page size and allocation granularity are those of the system. The terminal query asks about exactly the requested standard stream and distinguishes terminal, no terminal and invalid stream.",
  ["fault_sequences", "inputs"], "every argument and every outcome of the system calls",
  "System-call failures cannot be provoked in unit tests; there are no tests for this code.",
  ["src/API/Memory.c", "src/API/Process.c", "src/API/Terminal.c"], [("memory calls", "src/API/Memory.c"), ("flush", "src/API/Process.c"), ("terminal", "src/API/Terminal.c")])
prop("T04", "Thread identifiers are unique among running threads",
  "The current thread handle and thread id obtained in different running threads differ, and repeated queries in one thread agree.",
  ["schedules"], "all sets of concurrently running threads",
  "Uniqueness is a property of the platform's thread library, which tests only sample.",
  ["src/API/Thread.c"], [("thread id", "src/API/Thread.c ZyanThreadGetCurrentThreadId")])
for p in P:
    p["statement"] = p["statement"].strip()
    assert len(p["title"]) <= 80, p["id"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
