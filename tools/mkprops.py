#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the prose stays readable)."""
import json, os
INC = "include/configor/"
J, P, S, E, ST, V, I, CV, W, X = [INC + f for f in (
    "json.hpp", "details/parser.hpp", "details/serializer.hpp", "details/encoding.hpp", "details/stream.hpp",
    "details/value.hpp", "details/iterator.hpp", "details/conversion.hpp", "details/wrapper.hpp", "details/exception.hpp")]
TESTS = "The 59 existing tests each check a handful of fixed literals; "
props = []
def P_(id, title, statement, over, text, why, files, mech, observe, state=()):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why,
                      anchors=dict(files=files,
                                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   mechanism=[dict(name=a, where=b) for a, b in mech],
                                   observe_at=observe, hook_needed=None)))

P_("C01", "Dumping a value and parsing the text gives the same value back",
   "For every value whose floats are finite and whose strings and keys are well-formed Unicode, dumping it and parsing the text gives a value of the same shape: identical nulls, booleans, integers, strings, keys and element order, with every float still a float and equal to within the precision the text was written with. "
   "This holds for compact and whitespace-indented output, with Unicode escaping on or off, for narrow and wide text, and for every float precision and notation.",
   ["inputs", "configurations"], "all values (any nesting, size, string content, integer, finite double) x all dump options",
   TESTS + "no test parses back what was dumped except one float; control characters, non-ASCII below U+1000, floats whose text has no fraction, INT64_MIN and long or deep values are never dumped.",
   [J, S, P, E, ST], [("json_serializer::put_string / put_float / next", J), ("json_parser::scan_*", J), ("basic_parser::do_parse", P)],
   ["json::dump return value", "json::parse return value"])

P_("C02", "Dumped text is always well-formed JSON that denotes the value",
   "Whenever dumping succeeds, the text (with default or whitespace indentation) is well-formed JSON by RFC 8259, read by any independent JSON reader as exactly the dumped value; with Unicode escaping enabled it is pure ASCII, and compact text has no whitespace outside strings. "
   "A value JSON cannot represent (a non-finite float, a string that is not well-formed in the source encoding) gives a serialization error, never malformed text presented as success.",
   ["inputs", "configurations"], "all values x all dump options",
   TESTS + "dumped strings contain only the short escapes and characters whose escape has four significant hex digits; no independent reader is applied.",
   [J, S, E], [("json_serializer::next / put_*", J), ("json_hex", J), ("basic_serializer::do_dump", S)],
   ["json::dump return value"])

P_("C03", "Every well-formed JSON text parses to the value it denotes",
   "Every RFC 8259 document in well-formed Unicode whose integers fit the integer type and whose nesting fits the stack parses to exactly the value it denotes, whatever its whitespace, escape spelling, number spelling, size or key order (an exponent that follows a bare zero or whose unsigned digits start with zero excepted); integers without fraction or exponent become integers, other numbers floats, and of repeated keys the first is kept. "
   "Line comments, block comments (wherever whitespace may appear) and a leading plus sign on numbers are accepted too and change nothing.",
   ["inputs"], "all documents of the extended grammar",
   TESTS + "a few documents with one spelling each: comment bodies ending in several asterisks, long numbers, exponents at their limits, long runs of comments and every escape spelling are not sampled.",
   [J, P, E], [("json_parser::scan, skip_comments, scan_string, scan_number", J), ("basic_parser::do_parse", P)],
   ["json::parse return value"])

P_("C04", "Malformed text is always rejected with the library's error",
   "A text that is not a complete document of the accepted grammar - truncated anywhere, with any token damaged, missing, repeated or trailing, with an incomplete or invalid number, literal, escape, comment or string, or with an integer that does not fit - is rejected with the library's deserialization error and never yields a value. "
   "In particular, no proper prefix of a document whose root is an array, object or string is accepted.",
   ["inputs", "fault_sequences"], "all texts outside the accepted grammar; all truncation points of all documents",
   TESTS + "about 25 malformed literals; sign without digits, exponent without digits, look-alike code points, lone trail surrogates and truncations are not tried.",
   [J, P, X], [("json_parser::fail", J), ("basic_parser::do_parse / fail", P)], ["exception type thrown by json::parse"])

P_("C05", "Arbitrary input never crashes, hangs, leaks or corrupts the process",
   "Whatever characters are fed to the parser, from any kind of source and under any supported encoding, parsing terminates with a value or a library exception after reading, allocating and working in proportion to the input, without abort, undefined behaviour, out-of-bounds or stale memory access, or leak. "
   "A value it returns can be inspected, copied, compared, dumped and destroyed.",
   ["inputs", "configurations"], "all byte and wide-character sequences (nesting bounded by the stack) x source kinds x encodings",
   TESTS + "run unsanitized on benign text; UB and aborts on hostile text need sanitizers and volume.",
   [J, P, E, ST], [("json_parser::read_next / scan", J), ("utf8/utf16/utf32/ignore::decode", E), ("fast_*_istreambuf", ST)],
   ["process status", "sanitizer reports", "live allocation count", "characters requested from the source"])

P_("C06", "Unicode text survives parsing, escaping and transcoding exactly",
   "Every Unicode scalar value, alone or in any sequence, in a key or a string, written raw or escaped, in UTF-8, UTF-16 or UTF-32 text, is parsed into and dumped from values of any character width as exactly that scalar value. "
   "Ill-formed text (overlong, stray, truncated or out-of-range sequences, unpaired surrogates, raw or escaped) is rejected with an error on parsing and on dumping, never altered or passed on; the pass-through encoding copies characters unchanged, and what it lets in beyond U+10FFFF no other encoding or escape writes as something else.",
   ["inputs", "configurations"], "all code points and code-unit sequences x source encoding x target encoding x escaping",
   TESTS + "one Chinese/emoji sample in two encodings out of 1,112,064 scalar values and all ill-formed sequences.",
   [E, J], [("utf8/utf16/utf32/auto_utf encode+decode", E), ("encode_surrogates/decode_surrogates", E), ("read_escaped_codepoint", J)],
   ["parsed string content", "dumped text", "exceptions"])

P_("C07", "All input sources and output sinks give the same result",
   "The same text gives the same value, or is rejected, whether it comes as a string, a C string, a stream with any buffering, a C file, a character adapter or through stream extraction of a wrapped value or datum, narrow or wide, in the library's encodings or one of the user's own; and a value dumped with the same options gives the same characters to a string, a stream with any buffering, an adapter or through stream insertion of a wrapped value. "
   "The whole input is consumed and nothing is written twice or lost.",
   ["inputs", "configurations"], "all texts and values x all sources/sinks x buffer sizes",
   TESTS + "C files are never used, adapters see one ASCII document, buffers always hold everything.",
   [P, S, ST, W], [("parsable::parse overloads", P), ("serializable::dump overloads", S), ("fast_string/buffer/cfile_istreambuf, adapters", ST), ("ostream_wrapper / iostream_wrapper", W)],
   ["parse results", "bytes received by each sink"])

P_("C08", "Locale and stream formatting state never change what is read or written",
   "Parsing and dumping give the same result whatever the global locale, the locale imbued in the stream and the stream's formatting flags, fill and base; only width and fill (indentation) and float notation and precision are honoured on output. "
   "Apart from resetting the width, the caller's stream keeps its flags, fill, precision and locale, its buffer too.",
   ["configurations", "inputs"], "all locales (digit grouping, decimal point, boolean names) and stream states x values",
   TESTS + "always run in the classic locale, with width, fill, fixed and precision only.",
   [S, P, J], [("basic_serializer/basic_parser constructors imbue classic numeric facets", S), ("json_serializer constructor", J), ("basic_parser constructor", P)],
   ["text written", "value parsed", "stream state before/after"])

P_("C09", "Values behave as independent values under copy, move, assignment and swap",
   "After any sequence of copies, moves, assignments and swaps of whole values or of their parts - including self-assignment, assigning a part of a value to the whole or the whole to its part, and self-swap - each value holds exactly the content an independent deep value would hold; a moved-from value is null, and later changes to one value never show in another. "
   "All memory is released exactly once.",
   ["histories", "inputs"], "all operation histories over a pool of values",
   TESTS + "one copy and no move, aliasing or mutate-after-copy.",
   [V], [("basic_value copy/move constructors, operator=, swap, destructor", V), ("value_constructor::reset/destroy/create_data", V)],
   ["value contents after every step", "live allocation count", "ASan reports"],
   [("type_ / data_", "tag and owning pointer of a value", V)])

P_("C10", "Element access and container operations behave as a list and a dictionary",
   "For every history of building from lists, reading and writing by index and key, checked access, appending, erasing by index, key, iterator or range, finding, counting, clearing, sizing and testing for emptiness, an array behaves as a sequence, an object as a dictionary with unique keys in its container's order, and a scalar or null as a one- or zero-element thing. "
   "Writing to a null value makes it the container asked for, writing past the end of an array pads with nulls, and an invalid index, key or kind of value throws the documented exception and changes nothing; a list builder may be kept and used more than once.",
   ["histories", "inputs"], "all operation histories on values",
   TESTS + "containers of at most three elements with one operation each.",
   [V], [("operator[] / at / find / count / erase / push_back / emplace_back / clear / size / empty", V), ("value_maker::object/array, make_object/make_array", V)],
   ["results, exceptions and full contents after each step"])

P_("C11", "Typed access yields exactly the stored data or fails without side effects",
   "Type queries always agree with the stored kind; pointer access gives the stored datum or null, reference access the stored datum or a type error, and value access the stored data converted or a type error, never data of another kind or a reinterpretation. "
   "The non-throwing getter reports success exactly when value access would succeed, never throws, and leaves a scalar or string target untouched on failure; no failed access changes the value, and writes through a pointer or reference show in the value.",
   ["inputs", "histories"], "all values x all requested types",
   TESTS + "most pairs of stored kind and requested type, and the failure paths, are not tried.",
   [V, CV, X], [("get / get_ptr / do_get_ref / do_get_ptr", V), ("from_value overloads", CV)], ["results, exceptions, value before/after"])

P_("C12", "Comparison operators are consistent with content and with each other",
   "Values of the same kind are equal exactly when their contents are equal and ordered as their contents (lexicographically for arrays and objects); an integer and a float compare as floats, and values of different kinds are otherwise unequal. "
   "For all values and scalars on either side, != is the negation of ==, > is < with sides exchanged, <= and >= are the negations of > and <, equality is reflexive (absent NaN) and symmetric, < is irreflexive and asymmetric, and comparing a value with a scalar equals comparing it with the value made from that scalar.",
   ["inputs"], "all pairs and triples of values and scalars",
   TESTS + "a dozen comparisons on scalars; arrays, objects, nulls, booleans and the <=, >=, != forms are not compared.",
   [V], [("operator==, !=, <, <=, >, >=", V)], ["comparison results"])

P_("C13", "C++ data survives conversion to a value and back",
   "Every supported C++ datum - booleans, integers of every width and signedness, floats, narrow and wide strings, smart pointers, fixed arrays, vectors, deques, lists, forward lists, sets, unordered sets, string-keyed maps and unordered maps, types with user-supplied conversions (a value_binder that fills or returns the datum, or functions beside the type), and their nestings - converts to a value of the matching kind and size with the matching elements in order, and converting back gives an equal datum, also when the target already held other data; an array of another length than a fixed array is read as far as both reach. "
   "Null converts to and from empty pointers, and a value of the wrong kind throws a library or range error instead of producing data.",
   ["inputs", "programs"], "all data of the supported types and their compositions",
   TESTS + "one- to three-element containers into freshly emptied targets.",
   [CV, V], [("to_value / from_value overloads", CV), ("value_binder", CV)], ["converted values and data", "exceptions"])

P_("C14", "A failing allocation or throwing conversion leaves no leak and no damage",
   "If an allocation fails or a user conversion throws at any point inside constructing, copying, assigning, modifying, converting, parsing or dumping, the exception is reported (or the library's own error, or the error handler is called), nothing leaks, every value involved can still be used and destroyed, and copy assignment leaves its target unchanged. "
   "Moving and swapping never throw.",
   ["fault_sequences", "inputs"], "all failure points of all operations",
   TESTS + "no fault is ever injected.",
   [V, P, S, CV], [("value_constructor::create_data/reset, converting constructor", V), ("copy-and-swap assignment", V)],
   ["exceptions", "live allocation count", "ASan reports", "contents after the failure"])

P_("C15", "A failing source or sink is never reported as success",
   "If the sink refuses or throws on any write, dumping reports an error instead of returning normally with text missing; if the source fails or ends early at any point before the document is complete, parsing reports an error instead of a value. "
   "What reached a failing sink is a prefix of the full text.",
   ["fault_sequences", "inputs"], "all positions and modes of failure (short write, exception, end of data) x documents x options",
   TESTS + "every stream is healthy.",
   [S, J, P], [("stream state checks in json_serializer/basic_serializer", J), ("read_next state check", J), ("basic_parser::parse", P)],
   ["exceptions", "bytes the sink accepted"])

P_("C16", "An error handler sees every failure exactly once and nothing else",
   "With an error handler installed, parsing or dumping that fails calls it exactly once, with the exception that would otherwise have been thrown, and a strict handler rethrows it, a recording handler keeps its message and an ignoring handler swallows it, so that nothing escapes from the latter two; when nothing fails the handler is not called and the result is the same as without one. "
   "This holds wherever in the text the failure lies, including its first character.",
   ["inputs"], "all failing and succeeding inputs x policies x parse/dump",
   TESTS + "one failing input per policy.",
   [P, S, X], [("basic_parser::parse / basic_serializer::dump try-catch", P), ("error_handler_with", X)], ["handler calls", "exceptions", "results"])

P_("C17", "Concurrent use of separate or read-only shared values is race-free",
   "Threads that parse, dump, convert, copy and modify values of their own, and any number of threads that only read, iterate, compare, copy or dump one shared value, run without data races and each obtains the result it would obtain alone.",
   ["schedules"], "all schedules of threads obeying that rule",
   TESTS + "single-threaded.",
   [V, J, E, ST], [("no shared mutable state; function-local static tables and allocators", E), ("create_data / destroy static allocators", V)],
   ["ThreadSanitizer reports", "per-thread results"])

P_("C18", "Numbers are read and written without silent error",
   "Every integer of the integer type, including both extremes, is written and read exactly, and one that does not fit is rejected rather than wrapped. "
   "Every decimal or exponent number whose result is a normal float is read to within a relative error of 1e-12, one that underflows reads as a value near zero, none reads as NaN, and finite floats are written to the requested notation and precision (those with an integral value below 2^63 exactly) and always in a form read back as a float.",
   ["inputs"], "all integers; all decimal spellings (digits, fraction, exponent); all doubles x precision x notation",
   TESTS + "about 30 small numbers with at most three digits, and INT64_MAX.",
   [J], [("scan_number / scan_integer / scan_float / scan_exponent", J), ("put_integer / put_float / with_precision", J)],
   ["parsed numbers", "dumped numbers"])

P_("C19", "Iteration visits every element exactly once, in order, both ways",
   "Forward, reverse, const and range iteration of any value visit each element exactly once in container order (a scalar once, null never), with keys and values that refer to the stored elements; stepping forwards and back, offsets, distances, comparison and iterator conversions obey the usual algebra. "
   "Dereferencing the end, asking the key of a non-object element, offsets on objects and comparing iterators of different values throw the documented exception; erasing through iterators returns the next element.",
   ["inputs", "histories"], "all values x all iterator walks",
   TESTS + "walks over at most three elements.",
   [I, V], [("iterator, reverse_iterator, primitive_iterator", I), ("begin/end/find/erase", V)], ["visited keys/values/addresses", "exceptions"])

P_("C20", "Adapter streams deliver every character exactly once and in order",
   "Through an input adapter stream, any mixture of peeking, single-character and bulk reads delivers the adapter's characters each exactly once and in order, with the correct count, before end of data. "
   "Through an output adapter stream, any mixture of character, bulk and formatted writes reaches the adapter each exactly once and in order.",
   ["histories"], "all sequences of stream operations over all character sequences, narrow and wide",
   TESTS + "two short read sequences and one write sequence of ASCII text.",
   [ST], [("basic_iadapterstream / basic_oadapterstream streambufs", ST)], ["characters delivered vs produced", "counts, stream state"])

P_("C21", "Indented output is the compact output laid out by depth",
   "With indentation the text is the compact text plus only line breaks, one space-like indent character after each colon, and at the start of each line exactly depth times step indent characters, every element and closing bracket on a line of its own at its depth. "
   "This holds for any step from 1 to 255, any indent character, any depth and any content, equally through options and through stream width and fill; step 0 gives the compact text.",
   ["inputs", "configurations"], "all values x steps x indent characters",
   TESTS + "one two-level document with two steps.",
   [S, J, W], [("indent", S), ("json_serializer::next / output_indent / output_newline", J)], ["dumped text"])

P_("C22", "The guarantees hold for customised value types",
   "Values customised with another integer, float or character type or another dictionary type keep round-tripping, comparing, iterating and converting as the default ones do: integers outside the customised type are rejected, floats keep the customised precision, and an order-preserving dictionary keeps insertion order through parsing, building, copying and dumping.",
   ["configurations", "inputs"], "instantiations with other template arguments x inputs",
   TESTS + "one two-element ordered map, never parsed or dumped.",
   [INC + "configor.hpp", V, J, P], [("basic_value<Args>, basic_json<Args>", V), ("scan_integer limits", J)], ["values and text per instantiation"])

P_("C23", "Bound structures convert field by field, honouring REQUIRED and OPTIONAL",
   "Converting a bound structure to a value writes every required field and every optional field that differs from its default under its bound name and nothing else; converting back from a value sets every field present with a fitting type, throws when one of the structure's required names is missing (as it is in any value that is not an object), and leaves an absent optional field untouched. "
   "A structure converted to a value, or through text and streams, and back equals the original, for any number of fields, names and nesting.",
   ["inputs", "programs"], "all field values x all subsets of present names x bindings",
   TESTS + "three structures with one complete instance each; no missing field.",
   [CV, W], [("CONFIGOR_BIND, REQUIRED/OPTIONAL macros", CV), ("wrap operators", W)], ["values, structures, exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
