#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (and from which harnesses exist)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLIN = "inputs"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], na=na))

prop("C01", "Overflow-tracking arithmetic is exact",
 "Arithmetic, bitwise, shift and conversion operations on overflow-tracking integers yield the mathematically exact result modulo the word size. The overflow flag is set exactly when the exact result is not representable or an operand was already flagged, and the checked, wrapping and strict accessors report exactly that.",
 ["inputs"], "every pair of operand values at full width, with either prior flag, for the supported integer types",
 "The tests evaluate a handful of constants; the guarantee is over all 2^128 operand pairs, and mistakes live at extreme values and mixed signedness.",
 ["best/math/overflow.h"], [("compiler overflow builtins plus flag propagation", "best/math/overflow.h")])
prop("C02", "Division and saturating arithmetic round and clamp correctly",
 "Ceiling division returns the exact quotient rounded toward positive infinity, and division by zero always crashes instead of returning. Saturating addition, subtraction and multiplication return the exact result clamped to the range of the result type.",
 ["inputs"], "every operand pair at full width, same and mixed integer types",
 "Tests sample a few constants; rounding and clamping errors appear only for particular sign combinations and near the limits.",
 ["best/math/overflow.h"], [("quotient/remainder correction and clamp on overflow", "best/math/overflow.h")])
prop("C03", "Integer comparison and narrowing respect mathematical values",
 "Comparing integers of different width and signedness orders them by their mathematical value. A checked conversion crashes exactly when the value does not fit the target type and otherwise preserves it; minimum and maximum pick the mathematically smallest and largest argument.",
 ["inputs"], "every value pair at full width for mixed-signedness type pairs",
 "Sign and width confusion only shows for particular values of particular type pairs, which constant tests do not enumerate.",
 ["best/math/int.h"], [("common type computation and int_cmp/checked_cast", "best/math/int.h")])
prop("C04", "Bit counting, shifting, rotation and powers of two are correct",
 "Counting set, leading and trailing bits, masking, shifting and rotating, and rounding to powers of two agree with their bit-by-bit definitions for every word, including zero, all-ones and out-of-range shift amounts.",
 ["inputs"], "every word and every shift amount, per supported width",
 "Tests try a few words; the edge cases (zero, top bit, shift by width) are specific values out of 2^64.",
 ["best/math/bit.h"], [("compiler bit builtins with zero special cases", "best/math/bit.h")])
prop("C05", "Integer parsing accepts exactly the representable numerals",
 "Parsing a numeral in any radix from 2 to 36 succeeds exactly when the text is an optional sign followed by one or more digits of that radix whose value fits the requested type, and then yields that value. Anything else is an error, prefixed literals select the radix their prefix names, and an unsupported radix crashes.",
 ["inputs"], "every byte string up to the bound and every radix, for several signed and unsigned widths",
 "Tests parse a few literals; overflow detection depends on the joint value of length, radix, sign and digits.",
 ["best/math/conv.h"], [("overflow-tracking digit accumulation", "best/math/conv.h")])
prop("C06", "Range expressions are resolved to exactly the elements they denote",
 "Resolving any combination of inclusive/exclusive start and end, or count, against a sequence length yields the number of elements denoted when the range lies inside the sequence. Otherwise the resolution fails (or crashes, for the crashing form) and never yields a range that reaches outside.",
 ["inputs"], "every start, end, count and length at full machine width, for every form of range expression",
 "Out-of-range detection hinges on wrap-around at extreme indices, which tests never reach.",
 ["best/iter/bounds.h"], [("bounds resolution with overflow checks", "best/iter/bounds.h")])
prop("C07", "Iterating an integer range yields each integer once, in order",
 "Iterating a range of integers produces exactly the consecutive integers it denotes, in increasing order, and its count, size hint and last element agree with that sequence, including empty ranges and ranges that touch the limits of the type.",
 ["inputs"], "every start and end of the range's integer type with lengths up to the bound",
 "Edge cases are at the ends of the integer type and for empty ranges; tests iterate a few small constants.",
 ["best/iter/bounds.h"], [("range iterator", "best/iter/bounds.h")])
prop("C08", "Runes are exactly the Unicode values, with correct classification",
 "A rune can be made from an integer exactly when it is a Unicode scalar value (or a code point, where surrogates are explicitly allowed). Classification, digit conversion and case predicates agree with their ASCII/Unicode definitions for every rune, and digit conversions round-trip for every radix up to 36 and crash beyond it.",
 ["inputs"], "every 32-bit integer, every rune, every radix",
 "There are 1.1 million runes and 2^32 integers; tests try a few.",
 ["best/text/rune.h"], [("validated construction and classification ranges", "best/text/rune.h")])
prop("C09", "UTF-8 decoding and encoding are exact and stay in bounds",
 "Validation accepts exactly well-formed UTF-8; decoding a buffer from either end returns the first (last) scalar value exactly when that end is a well-formed sequence, consumes exactly its length, reports an error otherwise, and never reads outside the buffer. Encoding is the inverse of decoding and refuses runes the encoding cannot represent or that do not fit the output.",
 ["inputs"], "every byte string up to the bound, every rune, every output capacity",
 "Malformed sequences (overlong, surrogate, truncated, stray continuation) are a combinatorial space that tests only spot-check; over-reads are invisible without instrumented memory.",
 ["best/text/utf8.h", "best/text/internal/utf.h", "best/text/encoding.h", "best/text/rune.h"], [("lead byte length and continuation masking", "best/text/internal/utf.h")])
prop("C10", "UTF-16, UTF-32, WTF-8, ASCII and Latin-1 codecs are exact",
 "For each of these encodings, decoding from either end returns the rune exactly when that end of the buffer is well formed, consumes exactly its code units, reports an error otherwise, and never reads outside. Encoding inverts decoding and refuses runes that the encoding cannot represent or that do not fit.",
 ["inputs"], "every code-unit string up to the bound, every rune, every output capacity",
 "The same combinatorial space as UTF-8, per encoding, of which tests sample a few strings.",
 ["best/text/utf16.h", "best/text/utf32.h", "best/text/internal/utf.h", "best/text/ascii.h", "best/text/encoding.h"], [("per-encoding encode/decode/undecode", "best/text/encoding.h")])
prop("C11", "Slicing text never escapes it or splits a rune",
 "Slicing a validated string by code-unit range succeeds exactly when the range lies inside the string and both ends are rune boundaries; otherwise the optional form reports absence and the indexing form crashes. Boundary queries agree with decoding, and the result of a slice is itself validated text.",
 ["inputs"], "every string up to the bound in several encodings and every range of machine-width offsets",
 "Requires relating all offsets to all multi-byte layouts; tests try a few offsets of a few strings.",
 ["best/text/str.h"], [("is_rune_boundary and at/operator[]", "best/text/str.h")])
prop("C12", "Iterating a string yields exactly its runes and indices",
 "Iterating over a string's runes, forward or with indices, yields exactly the decoded runes in order with their offsets, and for unvalidated text the replacement or error behaviour at the first malformed position is as documented; iteration terminates and never reads outside the string.",
 ["inputs"], "every code-unit string up to the bound, valid or not, in several encodings",
 "Tests iterate a few literals; malformed tails and mixed-length runes form the interesting cases.",
 ["best/text/str.h", "best/text/rune.h"], [("rune iterators", "best/text/str.h")])
prop("C13", "Text search, splitting and affix operations match their definitions",
 "Finding, splitting, and testing or stripping prefixes and suffixes, by rune, string (of the same or another encoding) or predicate, give the result of the naive definition over the decoded runes of valid text. Whether or not the text is valid, results are always subranges of the haystack in bounds and every search and split terminates.",
 ["inputs"], "every haystack and needle up to the bound, in same and mixed encodings",
 "Search bugs depend on overlaps, repeated matches and empty needles; tests try a few strings.",
 ["best/text/str.h"], [("find/contains/starts_with/split/strip", "best/text/str.h")])
prop("C14", "String buffers hold valid text equal to the edits applied",
 "After any sequence of appends (of runes, strings in any encoding, or the buffer itself), clears, truncations, copies and moves, a string buffer holds exactly the text of the corresponding model sequence. An append that fails leaves the contents unchanged, lossy appends substitute the replacement rune exactly for what is unrepresentable, and no memory is leaked or read out of bounds. A buffer keeps the allocator it was given.",
 ["inputs", "histories"], "every short sequence of edits over arbitrary runes and strings up to the bound",
 "Tests follow single scripted histories; the guarantee is over all edit sequences, including growth boundaries.",
 ["best/text/strbuf.h"], [("strbuf over vec with encode-and-truncate", "best/text/strbuf.h")])
prop("C15", "Text comparison is the order of decoded runes",
 "Two strings of valid text, in the same or different encodings and held as validated text or not, compare equal exactly when their decoded rune sequences are equal, and order lexicographically by rune. A rune compares as the string of just that rune, and on any input equality is consistent with ordering within one encoding.",
 ["inputs"], "every pair of strings up to the bound, in same and mixed encodings",
 "Cross-encoding order bugs show only for runes whose encodings sort differently; tests compare a few ASCII strings.",
 ["best/text/str.h"], [("operator== and operator<=>", "best/text/str.h")])
prop("C16", "Span access never escapes the span",
 "Indexing or slicing a span with any index or range succeeds exactly when it lies inside, and then designates exactly those elements; otherwise the crashing form crashes and the optional form reports absence. First/last/size/split operations obey the same rule for every length.",
 ["inputs"], "every machine-width index, start, end and count, for spans of length up to the bound, of static and dynamic extent",
 "Out-of-range detection is about extreme and wrapping indices; tests try small ones.",
 ["best/memory/span.h", "best/iter/bounds.h"], [("bounds-checked at/operator[]", "best/memory/span.h")])
prop("C17", "Span search, affix and splitting operations match their definitions",
 "Finding, containing, prefix/suffix tests and stripping, and splitting of spans, by element, subsequence or predicate, give the naive definition's result for all element types, for any length and alignment. They terminate and read only inside the two sequences.",
 ["inputs"], "every haystack and needle content up to the bound, for byte-comparable, multi-byte and class element types",
 "Optimised search paths depend on overlapping matches, alignment and element size; tests try a few arrays.",
 ["best/memory/span.h", "best/memory/internal/bytes.h"], [("byte search fast paths and generic fallback", "best/memory/internal/bytes.h")])
prop("C18", "Span ordering, bisection, sorting and copying are correct",
 "Comparison of spans is element-wise lexicographic comparison with the element order. Bisection on a sorted span finds the element exactly when present or else an insertion point; sorting yields an ordered permutation (stable where promised); reverse, fill, swap and copies do exactly what they say, including between overlapping ranges.",
 ["inputs"], "every content of spans up to the bound, with overlapping source and destination where allowed",
 "Byte-wise shortcuts for multi-byte integers and off-by-one in bisection show only for specific contents.",
 ["best/memory/span.h", "best/memory/internal/bytes.h"], [("comparison shortcuts, bisect, sort", "best/memory/span.h")])
prop("C19", "Bulk element transfer preserves values and lifetimes",
 "Copying, moving or relocating a run of elements through pointers transfers exactly that run's values, also when source and destination overlap. Each destination element is constructed or assigned exactly once, each relocated source element ends its lifetime exactly once, and nothing outside the two runs is touched.",
 ["inputs"], "every count and overlap offset up to the bound, for trivially and non-trivially copyable elements",
 "Overlap direction and double-destruction bugs depend on offset and count; tests run single cases without lifetime checks.",
 ["best/memory/ptr.h", "best/memory/internal/ptr.h"], [("copy/move/relo dispatch", "best/memory/internal/ptr.h")])
prop("C20", "Allocation honours size and alignment, and crashes instead of wrapping",
 "A block obtained from the allocator has at least the requested size and the requested alignment, reallocation preserves the common prefix of the contents, zeroed allocation is zero, and every block is returned to the system exactly once. Size computations for arrays and composites are exact or reported as overflow, never silently wrapped.",
 ["inputs", "histories"], "every size and element count at full machine width, every power-of-two alignment up to the bound, sequences of allocate/reallocate/free",
 "Over-aligned reallocation and size overflow are outside what tests execute.",
 ["best/memory/allocator.cc", "best/memory/allocator.h", "best/memory/layout.h"], [("cookie header for over-aligned blocks", "best/memory/allocator.cc"), ("layout size arithmetic", "best/memory/layout.h")])
prop("C21", "A vector behaves as a sequence under every edit history",
 "After any sequence of pushes, inserts, splices, removals, truncations, resizes, clears, copies, moves and capacity changes, a vector holds exactly the elements of the corresponding mathematical sequence. Operations given a position outside the vector crash, splicing or assigning a part of the vector itself works, and the guarantee is independent of whether elements are stored inline or on the heap.",
 ["inputs", "histories"], "every edit sequence up to the bound with arbitrary values and positions, for several inline capacities",
 "Tests follow scripted histories; the inline-to-heap boundary and aliasing appear only in particular sequences.",
 ["best/container/vec.h"], [("inline/heap storage switch and splice", "best/container/vec.h")])
prop("C22", "Vectors construct and destroy each element exactly once",
 "Under any edit history, including growth, copies, moves, assignments and clears, every element a vector holds is constructed once and destroyed once, moved-from vectors are empty and reusable, and all memory is returned. This holds for trivially relocatable, non-trivially movable and aliasing element types.",
 ["inputs", "histories"], "every edit sequence up to the bound, for elements with checked lifetimes and several inline capacities",
 "Lifetime mistakes are silent in ordinary tests; they occur only on specific storage transitions.",
 ["best/container/vec.h", "best/memory/ptr.h"], [("move_construct/assign and destroy", "best/container/vec.h")])
prop("C23", "Optional values obey their algebra",
 "An optional is either empty or holds one value, for objects, references, pointers and void; every combinator, comparison and conversion gives the result its definition prescribes, and accessing an empty optional crashes. Compact representations never confuse an empty optional with a present value.",
 ["inputs"], "every emptiness combination and value of the operands, for object, reference, pointer, niche and void payloads",
 "The cross product of states, payload kinds and combinators is far larger than the tests' samples.",
 ["best/container/option.h"], [("niche-based and tagged storage", "best/container/option.h")])
prop("C24", "Results carry exactly one of success and error",
 "A result is either a success or an error, and its queries, accessors, combinators, comparisons and conversions to optionals return what that state prescribes; accessing the wrong side crashes. Copying, moving and assigning between states preserve the value and side.",
 ["inputs"], "every state and payload of the operands, including void and reference payloads",
 "Tests check a few states of each combinator only.",
 ["best/container/result.h"], [("choice-backed state", "best/container/result.h")])
prop("C25", "A choice holds exactly the alternative it was given",
 "A choice always holds exactly one alternative: the index, access, matching, mapping, comparison and assignment results are those of the alternative stored, accessing another one crashes or reports absence, and permuting alternatives preserves the value. Representation tricks never change which alternative is observed.",
 ["inputs", "histories"], "every alternative and payload value, and every pair of states across assignment",
 "The number of state pairs and representations exceeds the sampled ones.",
 ["best/container/choice.h", "best/container/internal/choice.h", "best/container/pun.h"], [("tag and niche storage", "best/container/internal/choice.h")])
prop("C26", "Rows are faithful heterogeneous sequences",
 "Accessing, slicing, updating, inserting, removing, joining, and applying functions to rows yields rows with exactly the values, in order, that the corresponding list operation yields. Equality and ordering of rows are lexicographic over elements.",
 ["inputs"], "every field value of rows up to the bound",
 "Tests use a few constants per operation; misplaced elements can coincide on equal test values.",
 ["best/container/row.h", "best/container/internal/row.h"], [("index-sequence based rebuilding", "best/container/internal/row.h")])
prop("C27", "An owning pointer owns exactly one value",
 "An owning pointer holds one live value (of object, array or polymorphic type) until it is destroyed, moved from or leaked explicitly; copying clones deeply, moving transfers, self-assignment is harmless, and the allocation is returned exactly once. Moved-from pointers are recognised as empty.",
 ["inputs", "histories"], "every value and every operation sequence up to the bound",
 "Ownership errors do not show up as wrong values in tests.",
 ["best/container/box.h", "best/memory/ptr.h"], [("allocator-backed ownership", "best/container/box.h")])
prop("C28", "Sum types manage lifetimes across all state changes",
 "Assigning, moving, emplacing and destroying optionals, results and choices constructs and destroys each held value exactly once, whatever the states of source and target, including self-assignment. No value is used after its lifetime and none is lost.",
 ["inputs", "histories"], "every pair of states and every operation sequence up to the bound, with lifetime-checked payloads",
 "State-pair transitions are quadratic in the alternatives and lifetime errors are silent.",
 ["best/container/internal/choice.h", "best/container/internal/pun.h", "best/container/option.h", "best/container/result.h", "best/container/object.h"], [("conditional construct/assign/destroy", "best/container/internal/choice.h")])
prop("C29", "Function references, dynamic interfaces and scope guards call the right target",
 "Calling through a function reference, a dynamically typed interface object, or a composed callable invokes exactly the bound target, once, with the given arguments, and returns its result. Owned dynamic objects are copied and destroyed exactly once, and a scope guard runs its action exactly once unless it is cancelled.",
 ["inputs", "histories"], "every argument value, every binding kind and short histories of rebinding, copying and cancelling",
 "Tests call a few targets with constants.",
 ["best/func/fnref.h", "best/func/dyn.h", "best/func/tap.h", "best/func/defer.h"], [("type-erased thunk and vtable", "best/func/internal/fnref.h")])
prop("C30", "Iterator adapters compute their sequence definitions",
 "Mapping, enumerating, taking, skipping, counting, collecting and last-element queries over any iterator give the result of the corresponding operation on the sequence it yields. Size hints always bound the true number of remaining elements and stay exact when the source's are, and no element is consumed or produced twice.",
 ["inputs"], "every source sequence up to the bound and every machine-width adapter argument",
 "Adapter arguments beyond the sequence length and partially consumed iterators are rarely tested.",
 ["best/iter/iter.h"], [("adapter implementations", "best/iter/iter.h")])
prop("C31", "Formatting an integer yields its exact numeral",
 "Formatting any integer in any supported base, with any width, fill, alignment, sign and alternate-form option, yields the exact numeral in that base with exactly the requested decoration, and reading the digits back gives the integer. Nothing outside the output is written.",
 ["inputs"], "every integer value at full width and every combination of format options within the bound on width",
 "Extreme values (minimum signed values), wide padding and option combinations are too many to sample.",
 ["best/text/format.cc", "best/text/format.h", "best/text/internal/format_impls.h"], [("digit generation and padding", "best/text/format.cc")])
prop("C32", "Format templates are parsed exactly as documented",
 "A format template is accepted exactly when it follows the documented grammar and refers only to existing arguments, and its literal text, escapes, argument indices and options are rendered in order. Malformed templates are rejected, and parsing never reads outside the template.",
 ["inputs"], "every template string up to the bound",
 "The grammar's error cases are combinatorial; tests list a few templates.",
 ["best/text/internal/format_parser.h", "best/text/format.h"], [("template parser", "best/text/internal/format_parser.h")])
prop("C33", "Quoted and debug formatting escape exactly and reversibly",
 "Formatting a rune or string in plain form reproduces it, and in debug form quotes it such that every quote, backslash, ASCII control rune and zero-width joiner is escaped and the original is recoverable. Formatting of containers, optionals and results renders each element exactly once in order.",
 ["inputs"], "every rune and every string up to the bound",
 "There are 1.1 million runes; tests try a few.",
 ["best/text/internal/format_impls.h", "best/text/rune.h", "best/text/str.h"], [("escape table", "best/text/rune.h")])
prop("C34", "Command-line parsing assigns every argument as declared",
 "Parsing an argument vector sets exactly the fields that the declared flags, aliases, groups, positionals and subcommands assign to those arguments, with exactly the given values. Missing required arguments, excess repetitions, unknown flags and malformed values are reported as errors rather than ignored, and no argument content makes the parser read out of bounds or crash.",
 ["inputs"], "every argument vector up to the bound on count and length, over a representative declaration",
 "Tests parse a few scripted command lines.",
 ["best/cli/parser.cc", "best/cli/parser.h", "best/cli/cli.h"], [("token classification and flag lookup", "best/cli/parser.cc")])
prop("C35", "Ordering values and combinators form a consistent algebra",
 "Ordering literals convert to the ordering value they name, and chaining orders consults the second comparison exactly when the first is equal. The generic equality and comparison helpers follow their documented fallback rules for every pair of operands, and all predicates derived from an order, including the orders of composite values, are mutually consistent.",
 ["inputs"], "every ordering value and combination of operands",
 "Tests check a few combinations only.",
 ["best/base/ord.h", "best/base/internal/ord.h"], [("ord wrapper over comparison categories", "best/base/ord.h")])
prop("C36", "Compile-time type computation has no run-time behaviour to check",
 "Type lists, type traits, name reflection and initialisation traits compute the type-level facts that they document, for every program that instantiates them.",
 ["programs"], "every program instantiating the type-level facilities",
 "Tests instantiate a few types.",
 ["best/meta/tlist.h", "best/meta/init.h", "best/meta/names.h", "best/meta/traits"], [("template metaprogramming", "best/meta/internal/tlist.h")],
 na="The facts are fully evaluated by the compiler at instantiation: there is no code left to execute symbolically, and 'every program' is not a set of values a solver can quantify over.")
prop("C37", "Error codes name and describe exactly the errno they wrap",
 "An I/O error code holds exactly the positive errno it was built from, and crashes on any other. Its name and its message are those of that errno on this platform, and both are absent exactly for codes the platform does not define. The current error is ok exactly when errno is zero and otherwise carries it, leaving errno as it was. Codes compare by value, survive being wrapped in options and results, and format as the name and message, or as a number when unknown.",
 ["inputs"], "every int as a code and every value of errno",
 "A table of 130 entries with gaps is only correct entry by entry; the repository has no test for it.",
 ["best/io/ioerr.h", "best/io/ioerr.cc", "best/io/errnos.inc"], [("errno table lookup", "best/io/ioerr.cc"), ("errno table", "best/io/errnos.inc")])
prop("C38", "Reflection reaches each reflected field and enum value exactly once",
 "Visiting, zipping or projecting the fields of a reflected struct touches exactly the declared, unhidden fields, each once, in order, as references to the object's own subobjects. Looking a field or enum value up by name finds the one with exactly that name, and looking an enum up by value finds exactly that value; anything else takes the not-found case, without reading outside the tables. Tags are found on exactly the items they were attached to, and debug formatting follows the reflection. The operators generated for bit enums compute on the underlying bits.",
 ["inputs"], "every lookup key up to the bound and every enum value and field content at full width",
 "Lookup misses are one value or one short name among all others; tests look up items that exist.",
 ["best/meta/reflect.h", "best/meta/internal/reflect.h", "best/meta/bit_enum.h", "best/text/internal/format_impls.h"], [("lookup tables", "best/meta/reflect.h")])
prop("C39", "Crashes report where and why, and printing writes exactly the text",
 "An operation that crashes ends the process with status 128 after writing one report to standard error and nothing to standard output. The report names the location passed or captured at the call, wherever it was copied since, and then the reason, whose numbers are those of the failed operands and whose stated relation holds; a message of any length is printed without reading outside it. The print functions write exactly the formatted text to their stream, and nothing to the other.",
 ["inputs"], "every operand of each crashing operation at full width, and every message length around the report buffer's size",
 "Death is not exercised by the tests at all, and reports depend on the operands and the message length.",
 ["best/log/internal/crash.cc", "best/log/location.h", "best/log/wtf.h", "best/iter/bounds.cc", "best/text/format.h", "best/math/overflow.h"], [("crash report", "best/log/internal/crash.cc"), ("bounds-check report", "best/iter/bounds.cc"), ("location capture", "best/log/location.h")])
prop("C40", "An application starts once, with exactly its arguments, and its result becomes the exit status",
 "Starting a declared app runs its main function exactly once. app::exe() and app::argv() are then exactly the process's first and remaining arguments, byte for byte and in order, and are empty when there are none. The process ends with the status main returned: 0 for void, ok and a result<int> that is ok; an err is reported on standard error with status 128. When the app takes flags, main runs only if the arguments parse, with what they parsed to; otherwise the help goes to standard output with status 0, or the error in red to standard error with status 128 (or the status given to print_and_exit). Declaring two apps, none, or starting twice crashes.",
 ["inputs", "histories"], "every argument vector within the bound of arbitrary non-zero bytes, every exit status, and every way of declaring main",
 "The tests never start an app: the test driver is one.",
 ["best/cli/app.cc", "best/cli/app.h", "best/cli/cli.cc"], [("app::start", "best/cli/app.cc"), ("app shims", "best/cli/app.h"), ("error::print_and_exit", "best/cli/cli.cc")])
prop("C41", "Help shows everything visible, and nothing that is not",
 "The usage text requested by -h, --help, --help-hidden and a group's or subcommand's own help lists each documented Public flag, alias, group and subcommand of what it describes exactly once, under its letter, names and argument, with every line of its help text verbatim and in order; Hidden and undocumented flags appear only in --help-hidden, and Invisible and Deleted ones in neither, in the summary line as in the lists. It starts with the executable's base name, the path of subcommands or group, and the positionals with their counts, and ends with the declared version, website and licence. Visibility never changes what parses, except that Deleted names are unknown.",
 ["inputs", "programs"], "twelve declarations combining every visibility, letter, name, alias, count and help shape, every way of asking, every executable name and every help text within the bound",
 "One golden page is compared in the tests; it has no Invisible or Deleted flag, no hidden group, and no group with only a letter.",
 ["best/cli/parser.cc", "best/cli/parser.h"], [("cli::usage", "best/cli/parser.cc"), ("cli::init", "best/cli/parser.cc")])
NOTBUILT = "No check has been built for this property yet."

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         **({"observe_at": p["observe"]} if p["observe"] else {}))), ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    h = os.path.join(V, "harness", p["id"] + ".cc")
    if not os.path.exists(h):
        na.append(dict(property=p["id"], reason=p["na"] or NOTBUILT)); continue
    b = [l[len("// BOUND:"):].strip() for l in open(h) if l.startswith("// BOUND:")]
    checks.append(dict(property=p["id"], quick_cmd=f"./run.py {p['id']} --tier quick", thorough_cmd=f"./run.py {p['id']} --tier thorough",
        technique="symbolic execution of the compiled (LLVM IR) implementation, decided by SMT (z3/cvc5)", level="model_checking",
        level_note="Every path of the real functions within the bounds is enumerated symbolically and each assertion (and memory-safety condition) is decided by the solver for all values on it; counterexamples are replayed on a native build before being reported. Trusts clang's IR, the executor and the solvers. Bounds: " + "; ".join(b)))
json.dump(dict(version=1, setup_cmd="make -s -C engine", checks=checks, not_applicable=na,
   notes="No hooks were needed in /repo: harnesses use the public API, and fix: commits are listed in known_findings.json."),
   open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
