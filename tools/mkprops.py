#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": observe, "hook_needed": hook}})
BUF, IMPLS, VEC, LIB = "nommy/src/buffer.rs", "nommy/src/impls.rs", "nommy/src/vec.rs", "nommy/src/lib.rs"
TXT = ["nommy/src/text/tag.rs", "nommy/src/text/one_of.rs", "nommy/src/text/many.rs", "nommy/src/text/mod.rs"]
BYT = ["nommy/src/bytes/tag.rs", "nommy/src/bytes/one_of.rs", "nommy/src/bytes/many.rs"]
FN, ATTR = "nommy-derive/src/fn_impl.rs", "nommy-derive/src/attr.rs"
ST = ["nommy-derive/src/struct_impl/named.rs", "nommy-derive/src/struct_impl/unnamed.rs", "nommy-derive/src/struct_impl/unit.rs"]
EN = ["nommy-derive/src/enum_impl/mod.rs", "nommy-derive/src/enum_impl/named.rs", "nommy-derive/src/enum_impl/unnamed.rs", "nommy-derive/src/enum_impl/unit.rs"]
bufstate = [("Buf.buffer", "elements pulled from the source by peeking and not yet read", BUF),
            ("Cursor.base / Cursor.index", "where the cursor started and how far it has gone, relative to the root buffer", BUF)]

prop("C01", "A buffer hands out every source element exactly once, in order",
 "However reads (by any of the iterator's operations: next, nth, take, find, fold, last, count, ...), peeks at any distance, skips of any size and cursors are interleaved on a buffer, and however far the source has delivered when each happens, the elements read from the buffer are the source's elements in order, each exactly once, except those explicitly skipped. Peeking i ahead returns what the (i+1)-th next read would return and changes nothing that is read later. Skipping n is the same as reading and discarding n elements, stopping at the end of the input.",
 ["histories", "schedules"], "all sequences of buffer operations interleaved with arrivals and the close of the source",
 "The two buffer unit tests run one fixed history each on sources that are always ready; look-ahead state depends on the whole operation history and on what had arrived.",
 [BUF], [("look-ahead queue", BUF + ": Buf::{next,peek_ahead,fast_forward}")], ["Buffer::next/peek_ahead/fast_forward results"], bufstate)
prop("C02", "A cursor reads ahead without disturbing its parent",
 "A cursor at any nesting depth sees exactly the elements its parent would read next, by whichever of the iterator's operations it reads them. Whatever it reads, peeks, skips, resets or delegates to sub-cursors, abandoning it at any point, including by a panic unwinding through it, leaves everything its parent (and every outer ancestor) reads afterwards unchanged.",
 ["histories", "schedules", "crash_points"], "all operation histories on stacks of nested cursors, with arrivals in between and abandonment at every point",
 "One unit test nests two cursors once; isolation must hold for every depth, history and abandonment point.",
 [BUF], [("cursors address the root buffer by absolute offset and only peek", BUF + ": Cursor")], ["reads of parent after the cursor is dropped"], bufstate)
prop("C03", "A cursor's position commits exactly the elements it consumed",
 "A cursor's position is the number of elements it has read or been told to skip since it was created or last reset; a read that finds no element does not count. Skipping the parent forward by that position, immediately or after more input has arrived, leaves the parent exactly where the cursor stood, at any nesting depth. Resetting a cursor returns it to where it started, position zero.",
 ["histories", "schedules"], "all histories of nested cursors with commits, resets, ends of input and arrivals at arbitrary points",
 "Tests commit a couple of mid-input positions; the end of the input, resets, nested commits and arrivals between reading and committing are never combined.",
 [BUF], [("position counting", BUF + ": Cursor::{next,position,fast_forward,reset_internal}")], ["Cursor::position, parent reads after fast_forward"], bufstate)
prop("C04", "Transient source faults lose, repeat and reorder nothing",
 "If the source has nothing to give for a while and later resumes, or panics while producing an element or while an element is being cloned and the caller catches the panic and continues, then the buffer and its cursors carry on exactly where they were: no element is lost, duplicated or reordered, and the operation that was hit can simply be retried.",
 ["fault_sequences", "histories", "crash_points"], "all placements of stalls, source panics and clone panics inside operation histories",
 "No test uses a source that stalls or fails.",
 [BUF], [("queue updated only with complete elements; stalled reads leave state alone", BUF + ": Buf::peek_ahead, Cursor::next")], ["reads after recovery"], bufstate)
prop("C05", "A failed attempt consumes nothing",
 "When an optional part, a further repetition, a further list element or an enum alternative is attempted and fails, by mismatch, by the input being cut off, or by a failed conversion, after any number of elements, parsing continues as if that attempt had never been made: whatever comes next starts at the same element. An attempt made on a cursor that fails or is torn down by a panic in the source or in a user-written parser leaves the input itself untouched.",
 ["inputs", "fault_sequences", "crash_points"], "all grammars built from the combinators, and all inputs with a cut, corruption, failure or panic at any element of a speculative attempt",
 "Tests only fail alternatives on their first element, and never by truncation, conversion or panic.",
 [IMPLS, VEC, FN, "nommy/src/text/many.rs"] + EN, [("attempt on a cursor, commit by position", IMPLS + ": Option/Vec/Vec1; " + VEC + "; " + FN + ": start_variants/finish_variants")], ["what remains in the buffer after the combinator returns"])
prop("C06", "Peek and parse agree",
 "For every built-in parser, container and derived type, and every input including inputs cut off at any element, peeking reports true exactly when parsing the same input succeeds (failed conversions of an already recognised value aside), and when they succeed both consume the same number of elements.",
 ["inputs", "programs", "fault_sequences"], "all parser types (incl. all derive attributes) and all delivered inputs, truncated or corrupted anywhere",
 "Peek is written separately from parse in every implementation and in the generated code, and is tested on four inputs.",
 [IMPLS, VEC, FN] + TXT + BYT + EN, [("hand-written and generated peek implementations", "every Parse::peek")], ["Parse::peek result and consumption vs Parse::parse"])
prop("C07", "Text and byte primitives recognise exactly their language",
 "A tag succeeds exactly when the next elements are its characters (or bytes), consuming just those; the one-of, any-of, any-of-at-least-one and while-not parsers take exactly one, respectively the longest possible run of, elements inside (or outside) their set, for any Unicode characters or bytes, and return the very elements consumed; line ending, space and white space accept exactly newline / CR LF, space / tab, and their union. This holds wherever the input ends, stalls or arrives while the parse is running.",
 ["inputs", "fault_sequences", "schedules"], "all inputs, cut-offs and arrival schedules for each primitive",
 "Tests use short ASCII inputs that are complete and, mostly, match.",
 TXT + BYT, [("primitive parse/peek", "nommy/src/text, nommy/src/bytes")], ["parse/peek result, value and remaining input"])
prop("C08", "Containers repeat greedily, in order, exactly as often as stated",
 "An optional parser yields the value if its parser succeeds here and nothing otherwise, and never fails; a vector yields all consecutive successes in input order and never fails; the non-empty vector does the same but fails when there is not even one; an array of N takes exactly N consecutive values in order or fails; a box behaves as its content. On success, exactly the elements of the collected values have been consumed, wherever the input is cut off.",
 ["inputs", "programs", "fault_sequences"], "all element parsers, nestings, lengths and truncation points",
 "Tests repeat a one-character tag up to 12 times.",
 [IMPLS], [("repetition loops", IMPLS)], ["values and remaining input"])
prop("C09", "List parsers honour maximum, separators, trailing and ignored parts",
 "The list parsers return the converted elements in input order, at most the given maximum, with ignorable parts allowed between elements and around separators. A separator is required between elements; in the plain form one that no element follows is left unconsumed; in the trailing form an element counts only if a separator follows it; in the maybe-trailing form a final separator is consumed if present. After success the input stands after the last accepted element (plus what its form consumes after it), and a conversion error fails the list.",
 ["inputs", "fault_sequences"], "all element/separator/ignore parsers, maxima and delivered inputs with cuts, stray separators and failed conversions",
 "Seven fixed inputs are tested, all complete and convertible.",
 [VEC, FN], [("list loops", VEC), ("derived list fields", FN + ": parser_parse_vec_tokens")], ["values and remaining input"])
prop("C10", "A derived struct is the exact sequence its definition states",
 "A derived struct, named, tuple or unit, parses its prefix, then for every field in declaration order the field's prefix, value (through the configured parser and conversion) and suffix, then its suffix; ignorable parts are skipped after each of these and nowhere else. It succeeds exactly when all of them succeed in that order on the delivered input, yields exactly the parsed values in their fields, and consumes exactly those elements, wherever the input is cut off or damaged.",
 ["programs", "inputs", "fault_sequences"], "all struct definitions over the derive attributes, and all delivered inputs",
 "A handful of definitions with one good input each.",
 [FN, ATTR] + ST, [("code generation per field and fix", FN)], ["parse result, field values, remaining input"])
prop("C11", "A derived enum takes the first variant that parses",
 "A derived enum parses its prefix, then yields the first variant in declaration order that parses at that point (each attempted afresh from there, with the variant's own prefix, suffix and ignored parts in addition to the enum's), then its suffix, and fails if none does. The variant, its field values and the consumed elements are exactly those of that one attempt, also when earlier variants failed after consuming much of the input or by reaching its end.",
 ["programs", "inputs", "fault_sequences"], "all enum definitions over the derive attributes, and all delivered inputs",
 "Variants in tests differ in their first character and are parsed from good inputs.",
 [FN, ATTR] + EN, [("cursor reset between variants, commit of the winner", FN + ": start_variants/add_variant/finish_variants")], ["variant chosen, values, remaining input"])
prop("C12", "The entry points parse the whole story",
 "Parsing an iterator through the top-level function gives the same result as running the parser on a buffer over it. The terminated form succeeds exactly when that succeeds and not a single input element is left, whatever look-ahead the parser did and however late the left-over element arrives, and gives the same value.",
 ["inputs", "fault_sequences", "schedules"], "all parsers and inputs, with surplus elements, cuts and late arrivals",
 "One doc test with a surplus of one element.",
 [LIB], [("remaining-input check", LIB + ": parse_terminated")], ["Result of parse / parse_terminated"])
prop("C13", "Every value and element is dropped exactly once",
 "Every input element taken from the source and every value produced while parsing is either handed to the caller or dropped, exactly once, and nothing that was never created is dropped. This holds for all containers and derived types on success, on failure at any point, and when a user-written parser, conversion, clone or the source panics at any point and the panic is caught.",
 ["crash_points", "fault_sequences", "inputs"], "all failure and panic points inside every container and derived type",
 "Tests parse zero-sized or plain values and never fail midway, so neither leaks nor invalid drops can show.",
 [IMPLS, BUF, VEC], [("array initialisation", IMPLS + ": [P; N]::parse"), ("element queue", BUF)], ["drop counts of elements and values"])
prop("C14", "Parsing never demands input it does not need",
 "Creating a buffer or cursor, and peeking or parsing, never pull an element from the source beyond those the grammar must look at: reads pull one, a peek i ahead pulls up to that element, a tag at most its length, a run or repetition only what it takes to see that it ends, a list at its maximum nothing more. On a live source, parsing therefore returns as soon as the deciding elements have arrived, without waiting for further input.",
 ["schedules", "inputs", "histories"], "all parsers, inputs and arrival times; all buffer histories",
 "All tests have the whole input ready, so over-reading is invisible.",
 [BUF, LIB, IMPLS, VEC, FN] + TXT + BYT, [("on-demand pulling", BUF + ": Buf::peek_ahead"), ("max check before look-ahead", VEC)], ["number of elements pulled, simulated completion time"])
prop("C15", "Parsing terminates on every finite input, wherever it is cut off",
 "On every finite input, cut off at any element, parsing and peeking with parsers that consume at least one element per repetition return after a bounded number of reads of the source. In debug builds a vector, non-empty vector or ignored part whose parser succeeds without consuming an element is reported by a panic instead of looping forever, also at the end of the input.",
 ["inputs", "fault_sequences", "crash_points"], "all parsers and all truncation points",
 "Loops are tested on inputs that end with a non-matching element, hardly ever at the end of the input.",
 [IMPLS, VEC, FN] + TXT + BYT, [("stop on failed attempt; zero-progress panic", IMPLS)], ["return within the read budget"])
prop("C16", "Errors name the component that failed first",
 "When a derived struct fails because one of its parts cannot be parsed, its error names, by field name or element number, the first component that failed and whether it was a field, a prefix or a suffix; the chain of causes names the failing components inwards, and arrays name the index of the element that failed. An enum none of whose variants parses says so by the enum's name.",
 ["inputs", "programs", "fault_sequences"], "all derived types and all cut or damaged inputs",
 "Three error messages are tested, each at the first or second element.",
 [FN, IMPLS], [("wrap_err per component", FN + ": add_fix/add_field/finish_variants; " + IMPLS + ": [P; N]")], ["error chain text"])
prop("C17", "Concurrent parses do not influence one another",
 "Parses running on separate buffers, in different threads under every interleaving of their reads, one from within the source or a user-written parser of another on the same thread, or one after another any number of times, and sessions moved between threads from one parse to the next, each give exactly the result they give alone. A failure, panic or abandonment in one never changes the outcome of another.",
 ["schedules", "crash_points"], "all interleavings and nestings of several parsing sessions at their source reads and user-written steps, with faults in some",
 "All tests are single-threaded over one buffer.",
 [BUF, IMPLS, VEC, LIB], [("no shared state: all state is in the buffer and on the stack", "nommy/src")], ["per-session results vs solo results"])
prop("C18", "The result does not depend on how the input is delivered",
 "The result of parsing depends only on the sequence of elements, not on how or when they arrive: delivering them one at a time, in bursts, or late, parsing from a buffer or from a cursor at any depth, after earlier peeks, or after earlier attempts on cursors that were given up because the input had not arrived completely or the source failed, gives the same value, consumption and verdict as parsing the complete input at once.",
 ["schedules", "histories", "fault_sequences"], "all chunkings, delays, prior look-ahead and retry histories",
 "Every test parses a complete in-memory input once, from a fresh buffer.",
 [BUF, LIB, IMPLS, VEC, FN], [("look-ahead queue and cursor offsets", BUF)], ["value and remaining input per delivery history"], bufstate)
prop("C19", "The derive macro rejects what it does not support at compile time",
 "Deriving on a union, or with a malformed or unknown attribute parameter, is a compile error that points at the offending tokens, and never silently yields a parser that ignores the request.",
 ["programs"], "all attribute token sequences",
 "No compile-fail tests exist.",
 ["nommy-derive/src/lib.rs", ATTR], [("attribute parsing", ATTR)], ["compiler diagnostics"])
prop("C20", "A number read from a stream is the one its digits spell",
 "Wherever a recognised run of characters is converted to an unsigned number (a struct's or variant's field, a list element), the value is the decimal number the run spells, all of it, with zeros in front and up to the largest number there is. A run that spells none or too large a one is an error, never a wrong number or a panic: a struct or list fails, and of an enum the next variant is taken. This holds however the run was damaged, cut off, continued late, attempted before or torn down half-way.",
 ["inputs", "programs", "schedules", "fault_sequences"], "all types with numbers in them, all runs, damaged and cut-off inputs, delivery schedules and earlier attempts",
 "One fixed list of small numbers is tested, delivered at once.",
 ["nommy/src/text/many.rs", VEC, FN], [("TryFrom<AnyOf1> for usize", "nommy/src/text/many.rs"), ("field and element conversion", FN + ": parser_parse_tokens")], ["values, verdict and end of parses"])
prop("C21", "Memory stays bounded on endless streams",
 "However long the stream and however many parses, peeks, skips, failed or abandoned attempts and source faults there have been on a buffer, what it holds is bounded by how far ahead of its position it was made to look: elements that were read, skipped or committed are released, and the memory in use does not grow with what has already been consumed or given up.",
 ["histories", "fault_sequences"], "all programs of operations repeated along streams of any length, with faults in some",
 "The tests' inputs are a few dozen elements long and no test looks at memory.",
 [BUF, IMPLS, VEC], [("elements leave the look-ahead queue when they are read or skipped", BUF + ": Buf::{next,fast_forward}"), ("attempts keep their place in the cursor only", BUF + ": Cursor")],
 ["bytes of the heap in use after each round of operations"], bufstate)
prop("C22", "Work grows in proportion to what has to be looked at",
 "The work of a parse or peek, in operations on buffers and cursors and in memory asked for, is at most a small fixed multiple of the elements its definition makes it look at and the parts it makes it attempt, counted once for every attempt. In particular runs of characters, repetitions and lists cost work linear in their length, and nesting types in one another does not multiply it. It does not depend on what was read, skipped or attempted before, on how much the buffer holds already, or on how deep the cursor is.",
 ["inputs", "histories", "schedules"], "all types, long and deeply nested inputs, delivery schedules and earlier uses of the buffer",
 "The tests' inputs are a few dozen elements long, where quadratic or exponential work goes unnoticed.",
 [BUF, IMPLS, VEC, FN] + TXT + BYT, [("one attempt per part, on a cursor that is committed or dropped", IMPLS), ("commit and skip in one step", BUF + ": Cursor::fast_forward")],
 ["number of operations on buffers and cursors per call", "bytes asked of the allocator per call"], bufstate, "count operations on Buf and Cursor (cfg nommy_sim, nommy/src/sim.rs)")
prop("C23", "A failure carries the user's own error to the caller",
 "When parsing fails because a user-written parser, or the conversion of a value into a field's or list element's type, returned an error and no alternative was left, that very error, with its type and contents, is the innermost in the chain of causes of the error that reaches the caller. This holds through any nesting of structs, boxes, arrays, non-empty vectors and lists and through the entry points, however the input was delivered and whatever attempts failed, panicked or were abandoned before. (Enums, prefixes, suffixes and ignored parts only report that nothing fitted.)",
 ["inputs", "programs", "fault_sequences", "histories"], "all derived and composed types with user-written parsers and conversions in them, all damaged or cut inputs and earlier attempts",
 "No test looks at an error's cause; only three messages are compared.",
 [IMPLS, VEC, LIB, FN], [("context is wrapped around the error", FN + ": parser_parse_tokens"), ("conversion errors are passed on", VEC)], ["innermost error of the chain, by type and contents"])
prop("C24", "Stack use depends on nesting, not on length",
 "The stack a parse or peek uses is bounded by how deeply the parts of the definition nest in what is being parsed. It does not grow with the length of runs, repetitions, lists and ignored parts, with how much was read, skipped or looked ahead at, nor with the attempts that were given up or torn down before.",
 ["inputs", "histories", "schedules"], "all types, long flat and deeply nested inputs, delivery schedules and earlier uses of the buffer",
 "The tests' inputs are a few dozen elements long and no test looks at the stack.",
 [BUF, IMPLS, VEC, FN] + TXT + BYT, [("repetitions and lists are loops", IMPLS), ("cursors refer to the root buffer, not to one another", BUF + ": Cursor")], ["distance of stack addresses at operations on buffers, reads of the source and user code"], bufstate, "see the stack at operations on Buf and Cursor (cfg nommy_sim, nommy/src/sim.rs)")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
