#!/usr/bin/env python3
"""Writes ../properties.jsonl. Kept as a script so that the statements are readable and diffable."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/utki/" + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


prop("C01", "base64 decoding inverts encoding and contains malformed text",
     "For every byte string, decoding its standard base64 text, with or without trailing padding, gives back exactly those bytes. "
     "Any other text is either rejected with an invalid-argument exception or decoded to some bytes (at most 3 per started group of 4 characters); decoding never accesses memory outside of the given text.",
     ["inputs"], "all byte strings; all texts, of any length and any characters",
     "The stable tests never decode; the unit tests use a handful of literals. Tail lengths, all 64 symbols in each position and non-ASCII or truncated text need generated input and a sanitizer.",
     ["base64.cpp", "base64.hpp"], [("base64_decode", "src/utki/base64.cpp:base64_decode"), ("decode table", "src/utki/base64.cpp:decode_table")])

prop("C02", "UTF-32 to UTF-8 to UTF-32 conversion is lossless and well-formed",
     "Every sequence of non-zero character codes up to 0x7fffffff survives conversion to UTF-8 and back, through every conversion entry point (single character, string, span, iterator, zero-terminated, with length). "
     "Each character is encoded in the shortest standard form of 1 to 6 bytes whose lead and continuation bytes have the standard bit patterns, and the encoding of a sequence is the concatenation of the encodings of its characters.",
     ["inputs"], "all character sequences without the zero character, all entry points",
     "Unit tests convert a few literals up to 4 bytes; code points at the 1/2/3/4/5/6 byte borders and all bit patterns within are not covered.",
     ["unicode.cpp", "unicode.hpp"], [("to_utf8", "src/utki/unicode.cpp"), ("utf8_iterator", "src/utki/unicode.cpp:utf8_iterator::operator++"), ("to_utf32", "src/utki/unicode.cpp")])

prop("C03", "Decoding malformed UTF-8 terminates and stays within the input",
     "For every byte sequence, well-formed or not, iterating over its UTF-8 characters and converting it to UTF-32 terminates after at most one step per byte, and never reads beyond the end of a sized range or beyond the terminating zero of a zero-terminated string. "
     "Well-formed characters which precede the first malformed byte are decoded correctly, and a sequence which ends in the middle of a character yields only the complete characters before it.",
     ["inputs"], "all byte sequences, sized and zero-terminated, including truncation at each byte",
     "Unit tests have no malformed input; an over-read of one byte is invisible without a sanitizer and exact-size buffers.",
     ["unicode.cpp", "unicode.hpp"], [("utf8_iterator::operator++", "src/utki/unicode.cpp"), ("utf8_iterator::is_end", "src/utki/unicode.hpp")])

prop("C04", "Fixed byte order serialization is exact, portable and reversible",
     "Writing any 16, 32 or 64 bit integer or any float in little or big endian order produces the bytes of the value in that order, touches exactly as many bytes as the value has and returns the position right after them. "
     "Reading these bytes back from any alignment gives the same value bit by bit, also for NaN payloads, infinities and negative zero.",
     ["inputs"], "all values of all supported types, both byte orders, all alignments",
     "Unit tests use a few constants; per byte position mistakes and sign or NaN handling need many values.",
     ["utility.hpp"], [("serialize_*/deserialize_*", "src/utki/utility.hpp")])

prop("C05", "Sequential reading of binary data follows the data; failed reads consume nothing",
     "For every byte sequence and every history of read, skip, string, span and query operations, each operation returns what a plain cursor over those bytes would return (value, content, remaining size, position) and advances by exactly the size of what was read. "
     "An operation for which not enough data remains throws an invalid-argument exception and leaves the reading position unchanged, so that the history can go on.",
     ["histories", "inputs"], "all byte sequences and all operation histories on them, including failing ones",
     "Unit tests run one happy-path history; failing reads at each distance from the end and recovery after them are unreachable with samples.",
     ["deserializer.cpp", "deserializer.hpp"], [("deserializer", "src/utki/deserializer.cpp")])

prop("C06", "Integers survive conversion to text and back in every base and width",
     "Converting any value of any integer type to text in a supported base (2, 8, 10, 16 for unsigned, 10 for signed) gives the canonical lower-case text of the number without leading zeros, with prefix 0b, 0 or 0x for base 2, 8 or 16 of unsigned types and with a minus sign for negative numbers, and parsing that text with its base gives back the same value and consumes all of it. "
     "Parsing digits whose value does not fit the requested type consumes the digits and gives zero, never a wrapped value.",
     ["inputs"], "all values of all integer types 8..64 bit, all bases, out-of-range texts",
     "Unit tests use about a dozen numbers; limits of each type, all bases and off-by-one overflow need generated values.",
     ["string.cpp", "string.hpp"], [("to_string", "src/utki/string.hpp"), ("string_parser::read_number", "src/utki/string.cpp")])

prop("C07", "Parsed real numbers are correctly rounded and independent of locale",
     "For every decimal real number text, parsing to float or double gives the value closest to the exact decimal value (ties to even) and consumes exactly the longest prefix which is a number; a number out of range of the type gives zero. "
     "The result does not depend on the current C locale or on what follows the number, and long double gives the same value as double.",
     ["inputs", "configurations"], "all decimal texts in fixed and scientific notation, all locales",
     "Unit tests parse a few short literals in the C locale; rounding hard cases, long mantissas, subnormals and other locales are out of reach.",
     ["string.cpp", "string.hpp"], [("string_parser::read_number<float, double, long double>", "src/utki/string.cpp")])

prop("C08", "Text parser histories conserve text: returned pieces plus rest equal the input",
     "For every text and every history of parser operations, each operation consumes exactly the prefix its description names, returns it (or the number it denotes), and what has been consumed followed by what is still to be parsed is always the original text. "
     "Operations which need more text than there is throw an invalid-argument exception and a failing operation consumes at most leading whitespace; whitespace and comma skipping never skips more than one comma, and number parsing detects the base prefix and stops at the first character which does not belong to the number.",
     ["histories", "inputs"], "all texts and all histories of parser operations",
     "Unit tests run fixed histories on fixed strings; interplay of operations at the end of text and odd separators is unbounded.",
     ["string.cpp", "string.hpp"], [("string_parser", "src/utki/string.cpp")])

prop("C09", "Splitting text and joining the parts are inverse",
     "Splitting any text at a delimiter character and joining the parts with this delimiter gives back the text; the parts contain no delimiter and there is one more part than delimiters. "
     "Splitting into words gives exactly the maximal runs of non-space characters in order, and joining any sequence of strings of any character type puts the delimiter exactly between adjacent parts.",
     ["inputs"], "all texts, delimiters and sequences of strings, all supported character types",
     "Unit tests use a few sentences; leading, trailing, repeated and only delimiters in all combinations need generation.",
     ["string.cpp", "string.hpp"], [("split", "src/utki/string.cpp"), ("join", "src/utki/string.hpp")])

prop("C10", "Word wrapping loses no text and respects the width",
     "For every text and width, no wrapped line is longer than the width, the lines are substrings of the text in order, and what is left out between consecutive lines is only spaces or a single newline, so that every non-space character is kept. "
     "Every newline of the text ends a line, a word is only broken at the full width of a line which holds no other word, a line is ended before a word only when the word together with the space after it, if any, does not fit, a line ended after a space leaves that space out, and with zero width the text is not broken by length.",
     ["inputs"], "all texts and all widths",
     "Unit tests wrap about twenty short literals; the interplay of long words, runs of spaces, newlines and widths is combinatorial.",
     ["string.cpp", "string.hpp"], [("word_wrap", "src/utki/string.cpp")])

prop("C11", "Trimming, affix tests and string assembly are exact for all texts",
     "Trimming removes exactly the leading and/or trailing whitespace of any text and nothing else, and affix tests tell exactly whether the text begins or ends with the given text, also when it occurs elsewhere. "
     "Concatenation, indentation and conversions between byte ranges, views and strings reproduce all the characters, including embedded zeros, in order.",
     ["inputs"], "all texts, affixes, pieces and sizes",
     "Unit tests check a few literals per function; repeated affixes, all-space texts, embedded zeros and large indentation need generation.",
     ["string.hpp", "string.cpp"], [("trim*, starts_with, ends_with, cat, make_string, make_string_view, make_indentation", "src/utki/string.hpp")])

prop("C12", "Formatted strings are complete at every length",
     "Formatting with a printf-like format gives exactly the text which the C library formats for the same arguments, for results of any length from zero on, including those near and beyond internal buffer sizes. "
     "An earlier call never affects the result of a later one.",
     ["inputs", "histories"], "all formats and arguments, all result lengths",
     "Unit tests format short strings; truncation at a buffer border shows only at specific lengths.",
     ["string.cpp", "string.hpp"], [("make_string(const char* format, ...)", "src/utki/string.cpp")])

prop("C13", "Tree traversal visits every node exactly once, in order, in both directions",
     "For every forest, forward traversal visits each node exactly once in depth-first order with parents before children, backward traversal is the exact reverse, and at each step depth, ancestors and last-child information are right. "
     "Conversion between an iterator and its index path is a bijection on the nodes, validity of an index path is reported exactly, and the order of iterators is the order of traversal, for constant and mutable traversal alike.",
     ["inputs", "histories"], "all forests (shape, depth, fan-out) and all walks on them",
     "Unit tests walk one or two fixed trees; shapes such as chains, empty levels and last-child combinations are unbounded.",
     ["tree.hpp"], [("traversal::basic_iterator", "src/utki/tree.hpp"), ("traversal", "src/utki/tree.hpp")])

prop("C14", "Tree edits through traversal change exactly the addressed place",
     "For every forest and every history of insertions before, insertions after and erasures through traversal iterators, the forest afterwards equals a model edited at the same place; nothing else is moved, lost or duplicated. "
     "The returned iterator addresses the inserted node, or the node which follows the erased subtree in traversal order, and can be used to go on.",
     ["histories"], "all edit histories on all forests",
     "Unit tests make single edits on a fixed tree; returned iterators at last children and at the end of the forest need histories.",
     ["tree.hpp"], [("traversal::insert, insert_after, erase", "src/utki/tree.hpp")])

prop("C15", "Trees have value semantics",
     "Trees compare equal exactly when their values and shapes are equal, copies are equal to and independent of the original, and moving transfers the whole tree without copying values. "
     "Construction from values, children or both gives a tree with exactly these, and each value lives exactly as long as its tree.",
     ["inputs", "histories"], "all trees and all histories of construction, copy, move and assignment",
     "Unit tests construct a few literal trees; aliasing between copies shows only after later mutations.",
     ["tree.hpp"], [("tree", "src/utki/tree.hpp")])

prop("C16", "Spans are exact windows over contiguous data",
     "A span made of any contiguous container, array, pair of pointers or other span addresses exactly those elements, sub-spans address exactly the requested range, and reads and writes go to the original data and nowhere else. "
     "Checked access throws an out-of-range exception exactly for invalid indices, content comparison agrees with element-wise lexicographic comparison, a pointer test is true exactly for pointers to elements, and conversion to text, vector or bytes keeps all the elements.",
     ["inputs"], "all contents, sizes, sources, sub-ranges, and indices (also out of range)",
     "Unit tests use small fixed arrays; empty ranges, nested sub-ranges and border indices are missed.",
     ["span.hpp"], [("span", "src/utki/span.hpp"), ("make_span, deep_equals, overlaps, to_vector", "src/utki/span.hpp")])

prop("C17", "Flag sets obey the algebra of sets for every enumeration size",
     "For every enumeration and every history of set, clear, invert and combine operations, a flag set contains exactly the members which the same operations give on a plain set, with bits outside of the enumeration never observable. "
     "Set-wide queries (all set, all clear, equality, size) and printing agree with the members.",
     ["histories", "inputs"], "all operation histories for enumerations of 1 to over 100 items, at and around machine word borders",
     "Unit tests use one or two enumerations with a few items; unused bits of the storage matter only for particular sizes and after particular operations.",
     ["flags.hpp"], [("flags", "src/utki/flags.hpp")])

prop("C18", "Enumeration-indexed containers cover every item exactly once",
     "Iterating over an enumeration visits each item exactly once in declaration order, backwards in the reverse order, for every enumeration size and underlying type. "
     "An array indexed by enumeration has one independent element per item, constructed from the value given for that item, and pairing it with its enumeration yields every item with its own element.",
     ["inputs", "configurations"], "all enumeration sizes and underlying types, all element values",
     "Unit tests use a three item enumeration of default type; wrap-around of narrow underlying types is not reached.",
     ["enum_array.hpp", "enum_iterable.hpp"], [("enum_array", "src/utki/enum_array.hpp"), ("enum_iterable", "src/utki/enum_iterable.hpp")])

prop("C19", "Views present the underlying ranges faithfully",
     "Zipping ranges gives the tuples of elements at the same position up to the shortest range, reversing gives the elements in reverse order, and skipping leaves out exactly the given number of elements of a range which has at least as many. "
     "Elements are references to the originals: writes through a view change exactly those elements of the underlying range.",
     ["inputs"], "all ranges, lengths, container kinds and skip counts",
     "Unit tests zip two ranges of equal length; unequal lengths, empty ranges and non-random-access containers in combination need generation.",
     ["views.hpp"], [("zip, reverse, skip_front", "src/utki/views.hpp")])

prop("C20", "Container helpers agree with their definitions",
     "Membership tests tell exactly whether an element, key or matching item is present; flipping a pair or map gives exactly the swapped pairs (one of them per value when values repeat); stepping helpers, the end pointer and offset index sequences address exactly the stated position. "
     "None of the helpers changes the container.",
     ["inputs"], "all container kinds, contents and keys",
     "Unit tests check a few literals on a few container kinds.",
     ["utility.hpp"], [("contains, flip_map, flip_pair, next, prev, end_pointer, offset_sequence", "src/utki/utility.hpp")])

prop("C21", "Query pipelines compute map, filter, group and order exactly",
     "For every sequence and pipeline of projection, filtering, grouping and ordering, the result equals what the textbook definition of the operations gives on the sequence: projection keeps order and count and passes the right index, filtering keeps exactly the matching elements in order, grouping puts every element into exactly its group in order, and ordering is an ordered permutation. "
     "A source given by reference is left unchanged.",
     ["inputs", "histories"], "all sequences and pipelines",
     "Unit tests run a few fixed pipelines.",
     ["linq.hpp"], [("linq_collection_aggregator", "src/utki/linq.hpp")])

prop("C22", "Sorting yields an ordered permutation of the input",
     "For every random access range and every strict weak order, sorting leaves the range ordered and a permutation of its former content: nothing is lost, duplicated or invented, also with many equal elements and for any length. "
     "Elements outside of the range are not touched, the result is the same when computed at compile time, and no order of the elements makes the use of the stack grow with the length of the range.",
     ["inputs"], "all sequences, lengths and comparison functions",
     "Unit tests sort one fixed array.",
     ["sort.hpp"], [("sort", "src/utki/sort.hpp")])

prop("C23", "Signals call every connected callback once per emission, with intact arguments",
     "For every history of connect, disconnect and emit, an emission calls exactly the callbacks connected at that moment, each once, in the order they were connected, and each gets the emitted argument values regardless of what other callbacks did with theirs. "
     "Disconnecting removes exactly the callback of that connection, and the reported number of callbacks is the number of connections.",
     ["histories"], "all histories of connect, disconnect and emit, all argument kinds (values, references, const references); connecting and disconnecting happens between emissions",
     "Unit tests connect one or two callbacks with plain integers; callbacks which consume their arguments are not covered.",
     ["signal.hpp"], [("signal", "src/utki/signal.hpp")])

prop("C24", "Scope guards run their action exactly once, however the scope is left",
     "The action of a scope guard runs exactly once when the scope is left, by normal exit, early return or exception, in reverse order of guard construction, and not at all once the guard was released; releasing gives the action to the caller. "
     "An exception thrown by the action never leaves the guard, and the action is destroyed together with the guard.",
     ["histories", "fault_sequences"], "all nestings of guards, releases and throws at any point",
     "Unit tests leave a scope normally once.",
     ["utility.hpp"], [("scope_exit", "src/utki/utility.hpp")])

prop("C25", "Non-null references keep their object alive and cast soundly",
     "For every history of creating, copying, moving, assigning, casting and weakening shared and unique references, each reference always addresses the object which a model of ownership says it addresses, and each object is destroyed exactly once, exactly when its last owner goes. "
     "Weak references lock exactly while the object is alive, and a dynamic cast succeeds exactly when the object has the requested type and otherwise throws a bad-cast exception; references compare and order by the objects they refer to.",
     ["histories"], "all histories of reference operations over a class hierarchy",
     "Unit tests exercise single operations; lifetime errors need histories and a sanitizer.",
     ["shared_ref.hpp", "unique_ref.hpp", "shared.hpp", "destructable.hpp"], [("shared_ref, make_shared, dynamic_reference_cast", "src/utki/shared_ref.hpp"), ("unique_ref", "src/utki/unique_ref.hpp"), ("shared", "src/utki/shared.hpp")])

prop("C26", "At most one instance of a singleton exists at any time",
     "For every history of creating and destroying singletons of different types, creating a second instance while one exists fails with a logic-error exception and leaves the first one in place, and access returns exactly the living instance. "
     "After destruction, also after a constructor which failed, there is no instance and a new one can be created; different types do not affect each other.",
     ["histories", "fault_sequences"], "all histories of creation, failed creation, access and destruction",
     "The stable test only checks one instance shared with a library; repeated and failed creation are not covered.",
     ["singleton.hpp"], [("intrusive_singleton, singleton", "src/utki/singleton.hpp")])

prop("C27", "Exception descriptions report the whole chain of nested exceptions",
     "For every chain of nested exceptions, of standard, own and foreign types and by either way of nesting, the description contains every exception of the chain, outermost first, with its type name and, for standard exceptions, its message; for chains nested by the standard way, or by the own way above the standard way, it is exactly one line per exception: the indentation, the type name, and, for standard exceptions, a colon and the message. "
     "Making a description never ends the program; the description of a current exception which is not a standard one does the same, and asking for it outside of exception handling throws a logic error.",
     ["inputs", "histories"], "all chains of nested exceptions, all indentations",
     "Unit tests check three fixed chains.",
     ["exception.cpp", "exception.hpp"], [("to_string, current_exception_to_string", "src/utki/exception.cpp"), ("stacked_exception, throw_with_nested", "src/utki/exception.hpp")])

prop("C28", "Assertions stop the program exactly when violated; logs come out complete",
     "An assertion ends the program abnormally, after printing its source location and message, exactly when its condition is false, and does nothing when it holds; debug-only assertions and logs have no effect at all in release builds, not even calling their condition or message function, while the always-on ones act in both. "
     "Log output on standard output is exactly the messages written, in order, and is flushed after each of them.",
     ["inputs", "configurations"], "all conditions, messages and histories, debug and release builds",
     "A test which aborts is no test; only the passing side of assertions is exercised.",
     ["debug.hpp", "debug.cpp", "log.cpp", "log.hpp"], [("assert, assert_always, ASSERT, log_debug, logcat_debug, run_debug", "src/utki/debug.hpp"), ("log, logcat", "src/utki/log.cpp")])

prop("C29", "The spin lock gives mutual exclusion and visibility under every schedule",
     "For every number of threads and every interleaving of lock and unlock, at most one thread holds the lock, and everything written by a holder before unlock is visible to the next holder. "
     "A free lock is given to a thread which asks for it, and after unlock some waiting thread gets the lock.",
     ["schedules", "histories"], "all schedules of threads using the lock",
     "Unit tests take the lock in one thread; missing ordering shows only under particular schedules or in a race detector.",
     ["spin_lock.hpp"], [("spin_lock", "src/utki/spin_lock.hpp")])

prop("C30", "Versions order and pack consistently; small math helpers are exact",
     "Version comparison is the lexicographic total order on major and minor numbers, consistent between both comparison operators, packing to an integer keeps both numbers and their order, and the text is the two numbers with a dot between. "
     "Sign (of zero: 1), powers 2 to 6 and angle conversion helpers and unit constants agree with their definitions for every argument whose result is in range, exactly for integers and within a few units of precision for reals.",
     ["inputs"], "all versions and pairs of versions; all arguments of math helpers",
     "Unit tests compare a few literal versions and constants.",
     ["version.hpp", "math.hpp"], [("version_duplet", "src/utki/version.hpp"), ("sign, pow*, deg_to_rad, rad_to_deg", "src/utki/math.hpp")])

prop("C31", "Terminal detection reports each standard stream independently",
     "For each of the standard input, output and error streams, the program is told it is a terminal exactly when that stream is connected to one at the time of asking, whatever the other streams are connected to. "
     "The message of a failed assertion is coloured exactly when standard error is a terminal.",
     ["configurations", "histories"], "all combinations of terminal, pipe, file, socket, null device and closed for the three streams, also when changed at run time",
     "Unit tests run with one configuration of streams.",
     ["utility.cpp", "utility.hpp", "debug.cpp"], [("is_terminal_cin, is_terminal_cout, is_terminal_cerr", "src/utki/utility.cpp"), ("assert_always", "src/utki/debug.cpp")])

prop("C32", "Millisecond ticks follow the clock and wrap around",
     "The tick counter advances by exactly the elapsed whole milliseconds of its clock, never goes back while the clock does not, and wraps around at 32 bits, so that unsigned differences of ticks are elapsed times.",
     ["inputs", "histories"], "all clock values and histories, including wrap-around",
     "A test cannot wait 49 days or choose the clock value.",
     ["time.cpp", "time.hpp"], [("get_ticks_ms", "src/utki/time.cpp")])

prop("C33", "Compile-time type utilities select exactly the stated type or index",
     "For every list of distinct types, of any kind, the index of a type in a variant is the position of that very type, regardless of conversions between the types, and a set of overloaded handlers dispatches each alternative to its own handler, or to the generic one if it has none. "
     "Integer-of-size utilities give the smallest integer type of the stated signedness which holds that many bytes (1 to 8), and the type traits (const, reference and pointer removal, template specialization, scoped enumeration, type-or-void, bit masks) are what their names say.",
     ["programs", "inputs"], "type lists and values of their alternatives",
     "Unit tests instantiate one or two type lists.",
     ["variant.hpp", "type_traits.hpp"], [("index_of, overloaded", "src/utki/variant.hpp"), ("uint_size, int_size, remove_const_reference, is_specialization_of, is_scoped_enum, type_or_void", "src/utki/type_traits.hpp")])

prop("C34", "Configuration macros tell the truth about every compilation target",
     "For every target, compiler, language standard and compiler version the configuration macros give exactly one value each, and it is right: operating system family and name, compiler and its version (MSVC: its toolset), C++ standard, processor with its bits and version, byte order, and the DLL export attribute. "
     "Where the processor is not recognised it is reported as unknown, never as another one. "
     "The Windows header of the library includes the system one on Windows only, without winsock, leaves the include guards of winsock as they were and no macros named min, max and DELETE.",
     ["configurations"], "all targets the compilers know, x86, ARM, WebAssembly and others, Linux, Android, Windows, macOS, iOS, BSD, Solaris, Emscripten and none; GCC, Clang, MSVC and unknown compilers; C++98 to C++23",
     "A test is built for one target by one compiler.",
     ["config.hpp", "windows.hpp"], [("CFG_OS, CFG_OS_NAME, CFG_COMPILER, CFG_CPP, CFG_CPU, CFG_CPU_BITS, CFG_ENDIANNESS, DLLEXPORT", "src/utki/config.hpp")])

prop("C35", "Public headers compose in any combination, order and number of translation units",
     "Every public header compiles on its own and is sufficient for using what it declares; any set of them compiles in any order and amid standard headers, and translation units which include them link together into one program. "
     "This holds for GCC and Clang, C++17, C++20 and C++23, debug and release builds.",
     ["programs", "configurations"], "all programs made of the public headers",
     "The unit tests include headers in a few fixed orders, so that a missing include or an accidental order dependency stays hidden.",
     ["*.hpp"], [("all public headers", "src/utki")])

prop("C36", "Debug builds stop every use outside of the bounds by an assertion",
     "With DEBUG defined, use outside of the documented bounds never goes on with a wrong result: it ends the program by an assertion failure before anything comes out of it. "
     "This is so for element access, front, back and subspan of a span for any index, offset and count, enumeration arrays and flag sets given a value which is not an item, null pointers given to references and access through references whose object was moved away, tree nodes by a path which does not exist, a singleton which is not there, skipping more than there is, nesting an exception outside of a catch block and destroying a signal which still has connections. "
     "Use within the bounds, up to the very last index, is never stopped.",
     ["inputs", "histories"], "all sizes, indices, offsets and counts (up to the largest integers), paths and histories",
     "A test which aborts is no test, so that the assertions themselves are never tried.",
     ["span.hpp", "enum_array.hpp", "flags.hpp", "shared_ref.hpp", "unique_ref.hpp", "tree.hpp", "singleton.hpp", "views.hpp", "exception.hpp", "signal.hpp"],
     [("span::operator[], front, back, subspan", "src/utki/span.hpp"), ("enum_array::operator[]", "src/utki/enum_array.hpp"), ("flags::get, set, clear", "src/utki/flags.hpp"), ("shared_ref, unique_ref", "src/utki/shared_ref.hpp"), ("traversal::operator[]", "src/utki/tree.hpp"), ("singleton::inst", "src/utki/singleton.hpp")])

prop("C37", "Out of memory and throwing elements are reported and leave nothing half done",
     "For every operation and every point in it at which memory runs out or the copy of an element throws, the failure reaches the caller as that exception (what() of an exception, which may not throw, tells of the lack of memory instead of giving a part of its text); a result which is given nevertheless is the complete one, never a truncated one. "
     "Nothing leaks, arguments and sources stay as they were, and objects worked on are either as before or have the operation done completely: reading positions, trees and forests under copying, assignment, insertion and removal, connections of a signal, singletons, references and guards. The same operation done again afterwards succeeds.",
     ["faults", "inputs", "histories"], "all inputs, and each allocation and element copy of the operation as the point of fault",
     "A unit test has no way to make the n-th allocation within an operation fail, so that none of the paths taken then is ever run.",
     ["string.cpp", "string.hpp", "unicode.cpp", "base64.cpp", "deserializer.cpp", "tree.hpp", "signal.hpp", "linq.hpp", "exception.cpp", "exception.hpp", "shared_ref.hpp", "singleton.hpp", "utility.hpp"],
     [("cat, join, split, word_wrap, make_string", "src/utki/string.hpp"), ("to_utf8", "src/utki/unicode.cpp"), ("tree::operator=, traversal::insert, erase", "src/utki/tree.hpp"), ("signal::connect", "src/utki/signal.hpp"), ("stacked_exception::what, to_string", "src/utki/exception.hpp"), ("deserializer::read_string, read_span, skip", "src/utki/deserializer.cpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
