#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json.  A property is claimed when some harness/*.cc names it."""
import json, os, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na))

p("C01", "Raw memory primitives copy, fill, move and rotate exactly the requested bytes",
  "copy, copy_n, copy_backward, fill, fill_n, swap_ranges and rotate over arrays of any element type produce exactly the element sequence the standard algorithm defines, for every length, alignment and value, read only the source range and write no byte outside the destination range. Copies between the ranges for which the standard allows overlap (destination start before source start for copy; destination end after source end for copy_backward) give the right result, and the CPU is left in its normal state (direction flag clear, FPU usable).",
  ["inputs"], "all byte contents, all lengths and alignments of both ranges up to the bounds (which straddle every SIMD block and head/tail threshold), all element widths",
  "tests copy a handful of fixed strings of one alignment; the block loops, head/tail handling and widths multiply into thousands of cases",
  ["ualgobase.h","ualgobase.cc"], [("SIMD copy","ualgobase.cc:copy_n_fast"),("backward copy","ualgobase.cc:copy_backward_fast"),("fills","ualgobase.cc:fill_n8_fast, fill_n16_fast, fill_n32_fast"),("rotate","ualgobase.cc:rotate_fast"),("typed front ends","ualgobase.h:copy, copy_n, copy_backward, fill, fill_n")])

p("C02", "memblock owns, grows, links and edits its storage without corruption",
  "After any sequence of operations a memblock shows exactly the bytes that the same edits on a plain byte array give (contents up to the smaller of old and new size survive reserve, resize, insert, erase, copy_link, shrink_to_fit and assignment), a linked block is read but never written, resized in place or freed through another owner, and every owned allocation is freed exactly once. capacity() is never below size(), reserve never shrinks, and no operation reads or writes outside the storage it owns or was linked to.",
  ["histories","inputs"], "all operation sequences up to the length bound, with symbolic sizes, offsets and contents",
  "the test runs one fixed history; ownership errors appear only for particular link/copy/resize orders and sizes around the growth boundary",
  ["memblock.h","memblock.cc","memlink.h","cmemlink.h"], [("growth","memblock.cc:memblock::reserve, memblock::resize"),("edits","memblock.cc:memblock::insert, memblock::erase"),("copy on link","memblock.cc:memblock::copy_link, memblock::manage, memblock::unlink")])

p("C03", "cmemlink and memlink are faithful views with safe in-place edits",
  "A link always denotes exactly the pointer and size it was given, at, iat, begin, end and comparisons are consistent with it, and equality holds exactly when sizes and bytes are equal. insert, erase, fill and swap on a memlink, and reading one from a stream, change exactly the bytes their description names and keep everything inside the linked block.",
  ["inputs","histories"], "all block contents and sizes up to the bound and all offsets, counts and element widths",
  "tests use one constant string; offsets at the edges and fill element sizes are not swept",
  ["cmemlink.h","cmemlink.cc","memlink.h","memlink.cc"], [("views","cmemlink.h:cmemlink"),("in place edits","memlink.h:memlink::insert, memlink::erase"),("fill","memlink.cc:memlink::fill"),("stream","cmemlink.cc:cmemlink::write, memlink.cc:memlink::read")])

p("C04", "vector behaves as a sequence under every history of operations",
  "After any history of constructions, assignments, insertions, removals, resizes, swaps and moves, a vector holds exactly the sequence a mathematical list would, iterators and references returned by the operations denote the element the standard says, and comparison operators agree with the sequences. size() never exceeds capacity() of an owning vector, an element of the vector may itself be the value inserted, and copies are independent of their source.",
  ["histories","inputs"], "all sequences of operations up to the bound from all small starting sizes and capacities, all positions, counts and element values",
  "tests follow single fixed scripts; wrong behaviour needs a position, count and capacity combination, e.g. insertion exactly when the buffer is full",
  ["uvector.h","memblock.cc"], [("insertion","uvector.h:vector::insert, vector::emplace, insert_space"),("removal","uvector.h:vector::erase, vector::resize"),("growth","uvector.h:vector::reserve")])

p("C05", "Containers construct and destroy each element exactly once",
  "For every history of operations on vector, list, queue, stack, set, map and their multi versions and array-backed helpers, each element object is constructed before use and destroyed exactly once, no destroyed element is used and none is destroyed while still in a container. All memory obtained is released when the containers are gone.",
  ["histories"], "all operation sequences up to the bound on containers of elements that own memory, so that a lost, doubled or early destruction is a leak, double free or use after free",
  "tests use trivially copyable elements or print a single script; a skipped or doubled destructor needs a particular shift distance or reallocation",
  ["uvector.h","umemory.h","ulist.h","umap.h","uset.h"], [("construction and destruction","umemory.h:construct, destroy, uninitialized_copy, uninitialized_fill"),("vector lifetimes","uvector.h:vector::resize, vector::insert_space, vector::erase")])

p("C06", "string edits produce the right text and keep it NUL terminated",
  "After any history of constructions, assignments, insertions, erasures, replacements, appends, resizes, substr, swap, moves and concatenations, a string holds exactly the characters the same edits on a character sequence give, and c_str() is that text followed by a NUL. Linked strings are never written through, and copies are independent of their source.",
  ["histories","inputs"], "all edit sequences up to the bound with all positions, lengths and character values, from owned, linked and empty strings",
  "tests apply each overload once; position, count and npos edge cases and capacity boundaries are not swept",
  ["ustring.h","ustring.cc"], [("editing","ustring.cc:string::assign, string::append, string::insert, string::erase, string::replace"),("termination","ustring.cc:string::resize, ustring.h:string::c_str"),("concatenation","ustring.h:operator+")])

p("C07", "string searches return exactly the standard positions",
  "find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of, for characters and strings and from any starting position, return exactly the position the C++ standard defines, or npos when there is none; uSTL never finds an empty pattern. They read only the two texts.",
  ["inputs"], "all texts and patterns up to the length bounds over all byte values, all starting positions including beyond the end",
  "tests try a few fixed phrases; self-overlapping patterns, empty operands and edge positions are not tried",
  ["ustring.h","ustring.cc"], [("forward search","ustring.cc:string::find, string::find_first_of, string::find_first_not_of"),("reverse search","ustring.cc:string::rfind, string::find_last_of, string::find_last_not_of")])

p("C08", "string comparison is a consistent total order on byte contents",
  "Comparison of strings, character pointers and views is lexicographic by unsigned byte with shorter prefixes first; equality and the six relational operators agree with it, whatever mixture of string and C string is compared. Equal strings have equal hash values, and the same text always hashes to the same value.",
  ["inputs"], "all pairs (and triples for transitivity) of texts up to the length bound over all byte values",
  "sampled pairs cannot show antisymmetry or transitivity, nor find the pairs with high-bit or NUL bytes that break them",
  ["ustring.h","ustring.cc"], [("order","ustring.cc:string::compare"),("operators","ustring.h:operator==, operator<"),("hash","ustring.cc:string::hash")])

p("C09", "string formatting and number conversion are exact",
  "string::format and vformat produce exactly the text vsnprintf defines whatever its length relative to the current buffer, and to_string and stoi-style conversions agree with the C library for every value, round trip every integer, and report the number of characters consumed.",
  ["inputs"], "all integer values of every width, all output lengths up to the bound against every starting capacity",
  "tests convert a few numbers; extreme values and outputs that exactly fill the buffer are the ones that break",
  ["ustring.h","ustring.cc"], [("format","ustring.cc:string::vformat, string::format"),("conversions","ustring.h:to_string, stoi, stol, stoul, stoll, stoull")])

p("C10", "UTF-8 encoding and decoding are inverse and measure correctly",
  "Every code point in the encodable range is encoded to the byte sequence UTF-8 defines and decoded back to itself, and the byte counts reported for a code point and for a lead byte equal the bytes actually written and consumed. Iterating a string by UTF-8 characters visits exactly the code points it was built from.",
  ["inputs"], "all code points, all strings of up to a few code points",
  "tests print one sample text; the length boundaries 0x80, 0x800, 0x10000 and beyond are single values among millions",
  ["utf8.h","ustring.h","ustring.cc"], [("encoder","utf8.h:utf8out_iterator"),("decoder","utf8.h:utf8in_iterator"),("lengths","utf8.h:Utf8Bytes, Utf8SequenceBytes")])

p("C11", "Binary streaming round trips and writes exactly stream_size bytes",
  "For every streamable value (integers, floats, bool, enums, strings, vectors, nested containers, maps, sets, lists, pairs, tuples, arrays, bitsets, memory blocks and user types with read/write/stream_size), writing it to a stream advances the stream by exactly stream_size_of the value, and reading it back yields an equal value and consumes the same bytes. As documented, values hold this from a 4 byte aligned position (8 byte elements need an 8 byte aligned one).",
  ["inputs"], "all values of the element types with all container lengths up to the bound",
  "tests stream one object each; sizes depend on alignment padding and on element counts, so a wrong pad shows only for particular lengths",
  ["mostream.h","mistream.h","uctrstrm.h","strmsize.h","ustring.cc"], [("output","mostream.h:ostream::iwrite, ostream::write"),("input","mistream.h:istream::iread"),("containers","uctrstrm.h:container_read, container_write, container_stream_size"),("strings","ustring.cc:string::read, string::write, string::stream_size")])

p("C12", "Reading malformed binary input never goes out of bounds",
  "Reading any sequence of values from a stream over any bytes of any length never reads outside the stream's block, never writes outside the destination and either yields a value or reports the failure by exception or error state. A length field larger than the remaining data never causes a large allocation or an out-of-bounds access, and writing past the end of an output block is refused without touching memory beyond it.",
  ["inputs"], "all byte contents and lengths of the input up to the bound, all length prefixes, for every streamable type",
  "tests read only data written by the same program; hostile length prefixes and truncation at every byte are input spaces of 2^64 and up",
  ["mistream.h","mistream.cc","mostream.h","mostream.cc","uctrstrm.h","ustring.cc","memblock.cc"], [("bounds","mistream.cc:ios_base::overrun, mistream.h:istream::verify_remaining"),("length checks","uctrstrm.h:container_read, ustring.cc:string::read, memblock.cc:memblock::read")])

p("C13", "Binary stream cursors move, align, seek and report positions consistently",
  "pos, remaining, seek, skip, align, eof and iterator positions of input and output streams always satisfy pos()+remaining() equal to the block size with the cursor inside the block; align moves to the next multiple of the grain by less than a grain, and aligned() and align_size() agree with it. A seek or skip outside the block is refused and leaves the cursor valid.",
  ["histories","inputs"], "all sequences of cursor operations up to the bound with symbolic offsets, grains and block sizes",
  "tests stream sequentially; offsets beyond the block or wrapping past 2^32 are never tried",
  ["mistream.h","mistream.cc","mostream.h","mostream.cc","uios.h"], [("input cursor","mistream.h:istream::seek, skip, align"),("output cursor","mostream.h:ostream::seek, skip, align")])

p("C14", "Text input parses tokens and numbers exactly and never overreads",
  "istringstream extraction of characters, words, quoted and delimited text, booleans and numbers from any text consumes exactly the delimiters and the token, yields the value that text denotes, sets the stream state at end of input, and reads no byte outside the text. get, getline, read, ignore and putback return exactly the bytes at the cursor.",
  ["inputs"], "all texts up to the length bound over all bytes, with every delimiter set used",
  "tests parse one script; tokens touching the end of the buffer and adjoining delimiters are the cases that overrun",
  ["sistream.h","sistream.cc"], [("tokenizer","sistream.cc:istringstream::skip_delimiters, istringstream::iread"),("numbers","sistream.cc:istringstream number readers"),("lines","sistream.cc:istringstream::get, istringstream::getline")])

p("C15", "Text output writes the exact formatted text for every value and flag",
  "ostringstream insertion of integers of every width, characters, booleans, strings, pointers and floating point values writes exactly the text defined by the current base, width, fill, precision and show flags, whatever the room left in the buffer. flush, str, format, write and put append exactly their text and never write past the buffer.",
  ["inputs"], "all integer values, all flag combinations supported, all fill states of the buffer up to the bound",
  "tests print a few values; extremes and buffers with exactly too little room are not tried",
  ["sostream.h","sostream.cc"], [("integers","sostream.cc:ostringstream::iwrite"),("growth","sostream.cc:ostringstream::overflow, ostringstream::write"),("format","sostream.cc:ostringstream::vformat")])

p("C16", "File streams transfer every byte exactly once despite short transfers and errors",
  "fstream, ofstream and ifstream reads and writes transfer exactly the requested bytes in order when the operating system returns short counts or EINTR, return the short count at end of file, and turn every other error into the stream state and exception it is documented as, without losing or repeating bytes. Files opened by a stream are closed exactly once and open modes map to the right system flags.",
  ["fault_sequences","inputs"], "all sequences of short counts, EINTR, EAGAIN, end of file and errors from the system calls up to the bound",
  "tests read and write a real file in which no call is ever short or fails",
  ["fstream.h","fstream.cc","ofstream.h","ofstream.cc"], [("raw transfer","fstream.cc:fstream::read, fstream::write, fstream::readsome"),("buffered output","ofstream.cc:ofstream::overflow, ofstream::flush"),("buffered input","ofstream.cc:ifstream::underflow"),("open and close","fstream.cc:fstream::open, fstream::attach, fstream::close")])

p("C17", "set and multiset stay sorted and agree with the mathematical (multi)set",
  "After any history of insertions, erasures, assignments and swaps a set holds each distinct key once and a multiset each key with its multiplicity, iteration is in nondecreasing order under operator< and find, count, lower_bound, upper_bound, equal_range and the value returned by insert are exactly those of the mathematical object.",
  ["histories","inputs"], "all operation sequences up to the bound over all key values",
  "tests insert one list of numbers; order and duplicates relative to existing keys matter in combination",
  ["uset.h","umultiset.h","upredalgo.h","ualgo.h"], [("set","uset.h:set::insert, set::erase, set::find"),("multiset","umultiset.h:multiset::insert, multiset::erase, multiset::count"),("search","ualgo.h:lower_bound, upper_bound")])

p("C18", "map and multimap associate keys with values as a mathematical map",
  "After any history of insertions, subscripting, erasures by key or position, assignments and swaps a map holds for each key exactly the value last associated with it (a multimap all of them), iteration is in key order, find, at, count, lower_bound, upper_bound and equal_range answer for the mathematical object, and at() of a present key refers to its value.",
  ["histories","inputs"], "all operation sequences up to the bound over all keys and values",
  "tests use one month table; replace, erase and duplicate-key behaviour depends on neighbouring keys",
  ["umap.h","umultimap.h"], [("map","umap.h:map::operator[], map::insert, map::erase, map::find, map::at"),("multimap","umultimap.h:multimap::insert, multimap::erase, multimap::equal_range")])

p("C19", "list, queue and stack keep the order and content of their elements",
  "After any history, a list holds the sequence a mathematical list would through push, pop, insert, erase, remove, unique, splice, merge, sort, reverse and resize; a queue yields elements first in first out and a stack last in first out. size and empty agree with the number of elements, and swap exchanges whole contents.",
  ["histories","inputs"], "all operation sequences up to the bound over all element values",
  "tests run fixed scripts; queue compaction and list merges depend on the pattern of pushes and pops",
  ["ulist.h","uqueue.h","ustack.h"], [("list","ulist.h:list::merge, list::splice, list::unique, list::remove"),("queue","uqueue.h:queue::push, queue::pop"),("stack","ustack.h:stack::push, stack::pop")])

p("C20", "Heap algorithms and priority_queue always deliver the greatest element",
  "make_heap, push_heap, pop_heap, sort_heap, is_heap and is_heap_until permute their range and keep or test the heap property for the given order, and a priority_queue with any comparator delivers, at every pop, an element no other is greater than, over any history of pushes and pops.",
  ["inputs","histories"], "all element values and lengths up to the bound, default and custom comparators",
  "tests heapify one array; sift paths depend on the relative order of all elements",
  ["uheap.h"], [("heap","uheap.h:make_heap, push_heap, pop_heap, sort_heap, is_heap_until"),("queue","uheap.h:priority_queue::push, priority_queue::pop")])

p("C21", "Non-mutating algorithms return what the standard defines",
  "find, find_if, find_first_of, adjacent_find, count, count_if, equal, mismatch, lexicographical_compare, search, search_n, find_end, for_each, min_element, max_element, minmax_element, min, max, minmax, clamp and is_sorted return exactly the result of their standard definition for every input, including empty and single-element ranges, and do not modify or read beyond their ranges.",
  ["inputs"], "all contents and lengths of both ranges up to the bound, with and without predicates",
  "tests call each once or twice on a fixed array",
  ["ualgo.h","upredalgo.h","ualgobase.h"], [("searches","ualgo.h:find, search, find_end, search_n, adjacent_find"),("comparison","ualgo.h:equal, mismatch, lexicographical_compare"),("predicates","upredalgo.h")])

p("C22", "Mutating sequence algorithms produce exactly the standard result",
  "transform, replace, replace_copy, generate, remove, remove_copy, unique, unique_copy, reverse, reverse_copy, rotate, rotate_copy, swap_ranges, iter_swap, partition, stable_partition, copy_if and random_shuffle, with values or predicates, leave exactly the sequence the standard defines (stable where stated, a permutation where order is unspecified), return the iterator it defines and touch nothing outside the ranges.",
  ["inputs"], "all contents and lengths up to the bound, all values and predicate outcomes",
  "tests call each once on a fixed array; results depend on where matches fall",
  ["ualgo.h","upredalgo.h"], [("removal","ualgo.h:remove, unique, remove_copy"),("partition","upredalgo.h:partition, stable_partition"),("reordering","ualgo.h:reverse, rotate, rotate_copy, random_shuffle")])

p("C23", "Sorting, merging, set operations and binary search are correct",
  "sort, stable_sort, partial_sort, nth_element, merge, inplace_merge, includes, set_union, set_intersection, set_difference, set_symmetric_difference, lower_bound, upper_bound, equal_range, binary_search, next_permutation and prev_permutation give exactly the standard result for every input and comparator, stable where stated, and stay inside their ranges.",
  ["inputs"], "all contents and lengths up to the bound, default and custom comparators",
  "tests sort one array; stability, duplicates and multiplicities in set operations depend on value patterns",
  ["ualgo.h","upredalgo.h"], [("sorting","ualgo.h:sort, stable_sort, partial_sort, nth_element"),("merging","ualgo.h:merge, inplace_merge, set_union"),("search","ualgo.h:lower_bound, upper_bound, equal_range"),("permutation","ualgo.h:next_permutation, prev_permutation")])

p("C24", "bitset operations are exact for every size and bit",
  "For every size, including those that are not a multiple of the word, set, reset, flip, test, count, any, none, comparison, bitwise operators, bit-range access and conversion to and from strings and integers give the result of the mathematical bit vector of capacity() bits (the size rounded up to whole words; whole-set set, flip and ~ act on all of them, as the existing test pins), and each operation changes only the bits it names.",
  ["inputs"], "all bit patterns and all indices for sizes on both sides of every word boundary",
  "tests print a few patterns; the untested patterns are 2^n",
  ["ubitset.h","ubitset.cc"], [("bits","ubitset.h:bitset::set, bitset::flip, bitset::test"),("strings","ubitset.cc:convert_to_bitstring, convert_from_bitstring")])

p("C25", "Smart pointers and scope guards release each resource exactly once",
  "Under every history of constructions, copies, moves, assignments (including to self), resets, releases, swaps and destructions, unique_ptr, shared_ptr, auto_ptr style owners and scope guards release each owned object exactly once, at the moment its last owner lets go, and never release one that was released or moved from. use_count equals the number of owners, get, operators and comparisons denote the owned object, and shared owners in different threads may let go in any order.",
  ["histories"], "all operation sequences up to the bound over several owners sharing several objects, including self assignment, and two or three threads preempted at any atomic operation",
  "tests run one script; double release and leak need aliasing or self assignment",
  ["umemory.h"], [("unique ownership","umemory.h:unique_ptr"),("shared ownership","umemory.h:shared_ptr"),("guards","umemory.h:scope_exit, unique_resource, make_scope_exit")])

p("C26", "Exception objects describe, copy and serialize themselves faithfully",
  "Every exception type reports its own name and the text it was built with, survives copying and being thrown and caught by base, formats its information without writing outside the message, and after being written to and read from a stream is an exception with the same contents, using exactly stream_size bytes.",
  ["inputs"], "all message texts up to the length bound and all field values",
  "tests throw one of each; message lengths and serialization alignment are not swept",
  ["uexception.h","uexception.cc","ustdxept.h","ustdxept.cc","uerror.h"], [("core","uexception.cc:exception::read, exception::write, exception::info"),("derived","ustdxept.cc:error_message, libc_exception, file_exception, stream_bounds_exception")])

p("C27", "Integer and bit utilities are exact over their whole range",
  "Align, AlignDown, NextPow2, FirstBit, DivRU, absv, sign, gcd, lcm, Rol, Ror, bswap and byte-order conversions, popcount, pack_type, BitMask, min, max, advance and distance return the mathematically defined result for every argument in their domain (NextPow2 of 1 is 2, as the tests pin), and atomic operations performed in sequence return and store what their definition says.",
  ["inputs"], "all values of each operand width (no sampling)",
  "a test can visit a handful of 2^32 or 2^64 arguments",
  ["uutility.h","ualgobase.h","uatomic.h","uios.h"], [("alignment","uutility.h:Align, AlignDown, DivRU"),("bits","uutility.h:FirstBit, NextPow2, popcount, Rol, Ror, bswap"),("atomics","uatomic.h:atomic")])

p("C28", "Compile-time ratios and durations follow exact rational arithmetic",
  "ratio arithmetic and comparison are exact and reduced, and duration and time_point construction, conversion, arithmetic, comparison and duration_cast give the exactly scaled value (truncated toward zero when the target is coarser) for every count that does not overflow, and the clocks are built from what the system clock reports.",
  ["inputs"], "all tick counts within the overflow-free range for each pair of periods used",
  "tests use a few fixed durations; rounding and sign cases need particular remainders",
  ["uratio.h","uchrono.h"], [("ratio","uratio.h:ratio_add, ratio_multiply, ratio_less"),("durations","uchrono.h:duration, duration_cast, time_point")])

p("C29", "tuple, array, matrix and SIMD operations compute elementwise exact results",
  "For every element value, tuple, array and matrix construction, element access, arithmetic, comparison, swap and iteration, and the simd packed operations and conversions (accelerated or generic) give, element by element, the value of the scalar operation, leave other elements alone and leave the FPU state usable. Matrix products, transposes, identities and row or column access obey their linear algebra definitions.",
  ["inputs"], "all integer element values (all float values for operations decided in floating point) for each specialised shape",
  "tests try one vector of values per operation; saturation and sign boundaries are single values",
  ["utuple.h","uarray.h","umatrix.h","ulaalgo.h","simd.h"], [("packed operations","simd.h:packop, passign, pconvert"),("tuples","utuple.h:tuple"),("matrices","umatrix.h:matrix, ulaalgo.h")])

p("C30", "Iterator adaptors and function objects are transparent",
  "reverse_iterator, move_iterator, insert and back/front insert iterators and index or member-access iterators traverse, compare, subtract and dereference exactly as their definition over the underlying sequence, and function objects, binders, negators, composers and member adaptors return exactly the underlying operation's result.",
  ["inputs"], "all sequences up to the bound, all positions and offsets, all operand values",
  "tests use adaptors in one direction once",
  ["uiterator.h","ufunction.h"], [("iterators","uiterator.h:reverse_iterator, move_iterator, insert_iterator, index_iterator"),("functors","ufunction.h:bind1st, bind2nd, not1, not2, compose")])

p("C31", "Numeric algorithms compute the standard folds",
  "accumulate, inner_product, partial_sum, adjacent_difference, iota style generators and power-style helpers return and write exactly the fold the standard defines for every input, including empty ranges and in-place output, and write only their output range.",
  ["inputs"], "all contents and lengths up to the bound with symbolic elements and operations",
  "tests evaluate each once on a fixed array",
  ["unumeric.h"], [("folds","unumeric.h:accumulate, inner_product, partial_sum, adjacent_difference")])

p("C32", "Allocation failure surfaces as bad_alloc and leaves objects intact",
  "When any allocation fails during an operation on a string, memory block, vector or container, the operation throws bad_alloc (also for sizes that can not be represented), the object keeps a valid state in which it can be read, reused and destroyed, no memory is leaked or freed twice, and previously held contents that the operation had not begun to change are unchanged.",
  ["fault_sequences","histories"], "failure of every allocation of every operation sequence up to the bound",
  "the tests never see malloc fail",
  ["memblock.cc","unew.cc","unew.h","ustring.cc","uvector.h"], [("reserve","memblock.cc:memblock::reserve"),("operator new","unew.cc:throwing_malloc")])

def main():
    claimed = {}
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.cc"))):
        m = re.search(r"//@ property=(\w+)", open(f).read())
        if m: claimed.setdefault(m.group(1), []).append(os.path.basename(f))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as o:
        for q in P:
            o.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]]))) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] in claimed:
            checks.append(dict(property=q["id"], quick_cmd="python3 check.py %s --tier quick" % q["id"], thorough_cmd="python3 check.py %s --tier thorough" % q["id"], evidence_file="evidence/%s.json" % q["id"],
                technique="symbolic execution of the real code's LLVM IR, assertions decided by z3", level="model_checking",
                level_note="Bounded: every value within the bounds printed in the evidence file; counterexamples are replayed on the g++ build of /repo."))
        else: na.append(dict(property=q["id"], reason=q["na"] or "check not built yet"))
    json.dump(dict(version=1, setup_cmd="make -C engine", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not")

def design():
    import shlex
    out = []
    for q in P:
        out.append("### %s %s\n" % (q["id"], q["title"]))
        fs = [f for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.cc"))) if "//@ property=%s" % q["id"] in open(f).read()]
        if not fs: out.append("Not claimed: %s.\n" % (q["na"] or "check not built yet")); continue
        for f in fs:
            rows = []
            for l in open(f):
                if not l.startswith("//@"): continue
                d = dict(t.partition("=")[::2] for t in shlex.split(l[3:]))
                if "oracle" in d: rows.append("Oracle: %s.\n" % d["oracle"])
                elif "entry" in d: rows.append("- `%s` (%s): %s" % (d["entry"], "t" if d.get("tier") == "thorough" else "q", d.get("bound", "")))
                elif "outside" in d: rows.append("- outside the claim: %s" % d["outside"])
                elif "trusted" in d: rows.append("- trusted: %s" % d["trusted"])
            out.append("`harness/%s`. " % os.path.basename(f) + "\n".join(rows) + "\n")
    sd = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m)); sd.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"], d.get("caught_by", "")))
    p = os.path.join(HERE, "DESIGN.md"); s = open(p).read()
    def put(s, a, b, t): i = s.index(a) + len(a); j = s.index(b); return s[:i] + "\n" + t + "\n" + s[j:]
    s = put(s, "<!-- properties -->", "<!-- end -->", "\n".join(out)); s = put(s, "<!-- seeded -->", "<!-- end seeded -->", "\n".join(sd))
    open(p, "w").write(s)
main(); design()
