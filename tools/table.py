#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

D = "binread_derive/src/"
CG = D + "codegen/read_options.rs"
CGS = D + "codegen/read_options/struct.rs"
CGE = D + "codegen/read_options/enum.rs"
B = "binread/src/"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  _t=technique, _n=note, _l=level))


REF = "online monitors + offline reference oracle over generated programs and inputs"
NOTE = ("Every execution runs the real macro output and library on an instrumented reader; value, error, reader position, callback trace and "
        "requested byte ranges are compared with an independent reference interpreter. Holds for the programs and inputs explored; trusts the "
        "reference semantics (vk/model.py), which was written from the documentation.")

prop("C01", "A failed read of a derived type leaves the reader where it started",
     "Whenever reading a type that derives BinRead returns an error, of whatever kind and at whatever depth, the reader's position is the one it had before that read began.",
     ["inputs", "programs", "fault_sequences"], "all derived types, inputs and points of failure of the data (truncation, bad magic, failed assertion or map, reader faults)",
     "Tests fail a handful of types at one point each; the promise is for every type and every failing byte.",
     [CGS, CGE, CG, B + "binread_impls.rs"], [("save position, rewind on error", CG), ("rewind between enum variants", CGE)],
     ["reader position after an Err"], REF, NOTE)
prop("C02", "Built-in types decode exactly the bytes they occupy",
     "Reading a number, char, unit, array, tuple, vector, box, option or a struct of them gives exactly the value encoded at the reader's position in the requested byte order, elements in order, and leaves the reader directly behind it. "
     "With too little data it is an unexpected-end error and never a value.",
     ["inputs", "programs", "configurations"], "all built-in types and nestings, all byte contents and lengths, every byte order, all chunkings of the reader, with and without std and const generics",
     "Tests decode a few constants per type; sign bits, high bytes, array and tuple lengths and nestings are sampled at most once.",
     [B + "binread_impls.rs", B + "lib.rs"], [("primitive impls", B + "binread_impls.rs"), ("array and tuple impls", B + "binread_impls.rs")],
     ["decoded value", "reader position"], REF + ", exhaustive over 8-bit types", NOTE)
prop("C03", "Byte order follows the closest directive",
     "Every multi-byte value is decoded in the byte order given by the closest of: the field's own directive (conditional ones by their condition's value), its variant's, its type's, and otherwise the one its reader was asked for; native means that of the host. "
     "The order reaches nested types, elements, strings and magic values alike.",
     ["inputs", "programs"], "all placements and combinations of byte-order directives over nested types, and all requested orders",
     "The combinations of directive placements, conditions and nesting are unbounded; tests fix a few.",
     [CG, CGS, CGE, B + "endian.rs", B + "binread_impls.rs"], [("endian of the options passed on", CG)], ["decoded value", "options seen by custom parsers"], REF, NOTE)
prop("C04", "Magic values gate the read",
     "A type, variant or field with a magic value is read only if the bytes at its position hold that value in the byte order in force (floating-point magics compare as numbers), and then goes on directly behind it; a variant's own magic replaces that of its enum. "
     "Otherwise the read fails with a bad-magic error that holds the value found and the position of the magic.",
     ["inputs", "programs"], "all magic literals, placements and inputs", "Tests use few literals and inputs; one wrong byte at any place must be rejected and reported.",
     [B + "error.rs", CG, CGE], [("magic check", B + "error.rs"), ("magic codegen", CG)], ["result", "error payload", "reader position"], REF, NOTE)
prop("C05", "Assertions decide success, in order, with their own error",
     "A read succeeds only if every assertion on the type, its variant and its fields holds for the values read; the first one to fail decides the error: an assertion error with its formatted message, or the given custom error, at the start of the type. "
     "A pre-assertion fails the read before any field is read.",
     ["inputs", "programs"], "all assertion placements, kinds, conditions over fields and arguments, and all inputs",
     "Which assertion fails first, with which values, depends on the data; tests try one failing value each.",
     [CG, CGS, CGE, D + "codegen/read_options.rs"], [("assertion codegen", CG)], ["result", "error payload", "evaluation trace"], REF, NOTE)
prop("C06", "Enums take the first variant that parses and explain failure",
     "Reading an enum tries its variants in declaration order, each from the enum's start, and gives the first that reads successfully. "
     "If none does, the error lists every variant's error in that order, or is the plain no-variant error if that was asked for.",
     ["inputs", "programs"], "all enums over data, unit, magic, asserting and nested variants, and all inputs",
     "Which variants fail, how far each gets and what it leaves behind depends on the data.",
     [CGE], [("variant loop", CGE)], ["value", "error list", "reader position", "evaluation trace"], REF, NOTE)
prop("C07", "Unit enums map values to variants one to one",
     "A unit enum read as an integer gives the variant whose discriminant (explicit or counted on) equals the integer read, and one with magic values gives the first variant whose magic (and pre-assertions) match; anything else is the no-variant error at its start. "
     "The byte order, magic and arguments of the enum apply as they do to other types.",
     ["inputs", "programs"], "all discriminant assignments, representations, magic values and inputs", "Tests use two small enums; implicit, negative and extreme discriminants and all other values are untested.",
     [CGE, D + "codegen/sanitization.rs"], [("unit enum codegen", CGE)], ["value", "error"], REF + ", exhaustive over 8-bit representations", NOTE)
prop("C08", "File pointers read what they point to and come back",
     "After reading a type, each file pointer in it, however nested, holds the value found at the pointer's value relative to the offset in force, read with the byte order and arguments in force, and reading it does not move the reader from directly behind the pointer. "
     "Pointers are followed after all fields of their type unless immediate dereferencing is asked for, and a failure there fails the read. A pointer whose target cannot exist never reads from some other place.",
     ["inputs", "programs"], "all pointer widths and signs, offsets, nestings in collections and wrappers, placements, and pointer values including ones outside of the file",
     "Tests follow a few forward pointers; nesting, ordering, negative and dangling pointers and the position afterwards are combinations tests do not reach.",
     [B + "file_ptr.rs", B + "binread_impls.rs", CG, CGS], [("second stage", CG), ("pointer reading", B + "file_ptr.rs")], ["value", "reader position", "callback trace"], REF, NOTE)
prop("C09", "An optional try field never fails the read nor moves the reader",
     "A field marked as tried is Some of the value if it reads successfully; otherwise it is None, no error is reported, and the following field is read from where the tried field began.",
     ["inputs", "programs", "fault_sequences"], "all types of tried fields, all failing points inside of them, and all inputs", "Where inside a nested value a try fails, and what is read after it, depends on the data.",
     [CG], [("try codegen", CG)], ["value", "reader position"], REF, NOTE)
prop("C10", "Padding, alignment and seeking place fields exactly",
     "Each field is read at the position which its seek, then padding, then alignment directives give, and the next one after it starts where size padding, then trailing padding, then trailing alignment lead; alignment is to absolute multiples and moves forward by less than one unit, and size padding never moves back.",
     ["inputs", "programs"], "all combinations, orders, amounts (also computed from fields, also negative) and start positions, also beyond 4 GiB",
     "Positions are functions of unbounded amounts and start positions; tests use one each.",
     [CG], [("before and after read codegen", CG)], ["reader positions", "requested byte ranges", "value"], REF, NOTE)
prop("C11", "Conditional, computed and temporary fields touch only what they should",
     "A field whose condition is false, or which is computed or defaulted, consumes no input, and has the alternate, computed or default value; one whose condition is true is read as usual. "
     "Temporary fields are usable by later directives and absent from the result, and a position-restoring field leaves the reader where it was before the field.",
     ["inputs", "programs"], "all conditions over fields and arguments, all values and combinations with other directives, and all inputs", "Both sides of every condition in every combination are out of reach of single examples.",
     [CG, CGS, D + "codegen/mod.rs"], [("condition and default codegen", CG)], ["value", "reader position", "evaluation trace"], REF, NOTE)
prop("C12", "Arguments reach the type they are given to, unchanged",
     "The arguments which a field passes are evaluated once, over the earlier fields and imports and arrive in the field's type in order and unchanged, also through every collection, wrapper, pointer and helper around it, for every element, and in every directive of that type.",
     ["inputs", "programs"], "all import lists (named and tuple), nestings of wrappers and argument expressions", "Argument passing through nested wrappers multiplies; tests cover single levels.",
     [CG, B + "binread_impls.rs", B + "helpers.rs"], [("args codegen", CG)], ["value", "callback trace"], REF, NOTE)
prop("C13", "Maps and custom parsers see the value and decide the field",
     "A mapped field or type is exactly the result of its function on the value read as the function's input type; a fallible map's error fails the read as a custom error holding that error at the start of the type, or as the I/O error if it is one. "
     "A custom parser is called once at the field's position with the options and arguments in force, and its result is the field.",
     ["inputs", "programs"], "all functions, input types, placements, and inputs", "Functions and positions of failure are arbitrary; tests use one of each.",
     [CG, CGS], [("map codegen", CG)], ["value", "error payload", "callback trace"], REF, NOTE)
prop("C14", "Counted and repeated reads give exactly the right items",
     "A counted collection holds exactly that many items, consecutive and in order; until-reads stop directly behind the first item that satisfies the condition, with it or without it; read-to-end takes every whole item to the end; separated lists alternate items and separators, with or without a last one. "
     "Items are complete values, pointers within them included, and the element's failure is the collection's.",
     ["inputs", "programs"], "all counts, item types, predicates, collections and inputs", "Counts, predicates and truncation points vary with the data.",
     [B + "helpers.rs", B + "punctuated.rs", B + "binread_impls.rs", CG], [("helpers", B + "helpers.rs"), ("separated lists", B + "punctuated.rs")],
     ["value", "reader position", "callback trace"], REF, NOTE)
prop("C15", "Null-terminated strings hold exactly the units before the terminator",
     "Reading a narrow or wide null-terminated string gives the units up to the first null one, in the byte order in force for wide ones, and leaves the reader directly behind the terminator; without a terminator it is an unexpected-end error. "
     "Conversions give the standard lossy or strict decoding of these units, and never panic.",
     ["inputs", "programs"], "all contents including invalid UTF-8 and UTF-16, lengths, byte orders and nestings", "Tests read three ASCII strings; content is arbitrary.",
     [B + "strings.rs"], [("string impls", B + "strings.rs")], ["value", "reader position", "conversions"], REF, NOTE)
prop("C16", "Reader behaviour and reader errors pass through faithfully",
     "How the reader splits its data, short reads and interrupted calls included, never changes a result. "
     "If a read or seek fails for good, the read fails with that very error unless an optional or enum parse absorbs it, never panics, and never gives a value that needed the missing bytes.",
     ["inputs", "programs", "fault_sequences"], "all programs and inputs with a fault at every read and every seek operation, lasting or once, and every chunking",
     "Tests use in-memory cursors that never fail.",
     [CG, CGS, CGE, B + "helpers.rs", B + "io/no_std.rs", B + "strings.rs"], [("error propagation", CG)], ["result", "error identity", "reader position", "operation trace"],
     "fault injection at every reader operation, with a propagation monitor and the reference oracle", NOTE, "fault_enumeration")
prop("C17", "Hostile data cannot panic, hang or exhaust memory",
     "For any input, reading a type whose counted items occupy input and which does not contain itself through pointers ends after work bounded by the input, returns a value or an error and does not panic, and never allocates much more than a constant factor of the bytes read, whatever counts, sizes and positions the data declares.",
     ["inputs", "programs"], "all inputs, in particular extreme counts, pointers, paddings and discriminants", "Tests feed well-formed data.",
     [B + "binread_impls.rs", B + "helpers.rs", B + "punctuated.rs", B + "strings.rs", B + "file_ptr.rs", CG], [("incremental growth", B + "helpers.rs")],
     ["peak allocation", "number of reader operations", "panics"], "allocation meter, operation budget and panic monitor over hostile inputs", NOTE)
prop("C18", "No undefined behaviour or leak for any input",
     "No safe use of the library, with any type and input, and with any failing or panicking element type, causes undefined behaviour, a leak, or a value dropped twice or never.",
     ["inputs", "programs", "configurations"], "all types, inputs and failure points, in all feature configurations, on one and several threads", "Tests would pass on uninitialised or doubly dropped memory.",
     [B + "lib.rs", B + "binread_impls.rs", B + "strings.rs", B + "helpers.rs"], [("unsafe blocks", B + "lib.rs"), ("array construction", B + "binread_impls.rs")],
     ["Miri", "AddressSanitizer", "drop counts"], "Miri and AddressSanitizer on generated programs, drop-count monitor", NOTE)
prop("C19", "Reading behaves the same without the standard library",
     "Without the standard library every read gives the same value, position and kind of error as with it, and the replacement reader interface behaves operation for operation like the standard one, also at and beyond the ends and on interrupted and failing readers.",
     ["inputs", "programs", "histories", "configurations"], "all programs, inputs and sequences of reader operations", "The test suite only runs fixed short sequences on the replacement.",
     [B + "io/cursor.rs", B + "io/no_std.rs", B + "io/error.rs"], [("replacement reader", B + "io/cursor.rs")], ["result of every operation", "position"],
     "lock-step differential monitor over operation histories, plus the reference oracle on both configurations", NOTE)
prop("C20", "Debug templates observe reads without changing them, and are accurate",
     "With template output enabled every read has the same result, position and callbacks as without. "
     "The template written lists the numbers, strings, arrays, vectors and pointers of the type's fields in the order read, each at the position, in the byte order, with the type, name and count with which it was read, and declares the number types of up to 64 bits which it uses with their size and sign; the numbers and strings of a listed array or vector are not listed again one by one, its other elements need not be. Where a failing struct notes the error as a comment, it is the error which the read returns.",
     ["inputs", "programs", "configurations"], "all programs and inputs", "Tests check one program's template.",
     [B + "binary_template.rs", B + "binread_impls.rs", CGS, D + "codegen/read_options/debug_template.rs"], [("template writer", B + "binary_template.rs")], ["result", "template text"],
     "differential runs with the feature on, and an offline checker of the template against the reference's read log", NOTE)
prop("C21", "Const-generic arrays behave like the fixed-size ones",
     "With const generics enabled, arrays of every length and of every element type read as elements in order, with the same results, errors and second-stage reads as the fixed-size implementation, and every element constructed is dropped exactly once, also when an element fails.",
     ["inputs", "programs", "configurations"], "all lengths, element types and failure points", "Tests read a few short arrays.",
     [B + "binread_impls.rs"], [("array impls", B + "binread_impls.rs")], ["value", "error", "reader position", "drop counts"], "reference oracle on both configurations, drop-count monitor", NOTE)
prop("C22", "All entry points read the same value",
     "Every way to start a read gives the same value, error and position for the same type, byte order and arguments; those on the reader also complete the second stage. "
     "Types without arguments need none, and types with arguments report that they do.",
     ["inputs", "programs"], "all types, entry points, byte orders and inputs", "Tests use one entry point per type.",
     [B + "lib.rs"], [("reader extension", B + "lib.rs")], ["value", "error", "reader position"], REF + " over every entry point", NOTE)
prop("C23", "The macro accepts what is documented and rejects the rest at its place",
     "Every documented directive is accepted at every place where it is documented, in every combination that makes sense, and the generated code compiles. "
     "Unknown, misplaced, repeated or contradictory directives are refused by the macro itself, with compile errors that point at the offending directive; the macro itself never crashes.",
     ["programs"], "all type definitions with well-formed and ill-formed directives", "Compile-fail tests sample a few mistakes.",
     [D + "lib.rs", D + "parser/mod.rs", D + "parser/macros.rs", D + "parser/field_level_attrs.rs", D + "parser/top_level_attrs.rs"], [("attribute parser", D + "parser/mod.rs")], ["compiler diagnostics"],
     "monitoring the macro's diagnostics over generated valid and mutated definitions", NOTE)
prop("C24", "The spelling and order of directives do not matter",
     "The same directives written in any order, in one or several attributes, with either form of assignment and with or without trailing commas give the same reads; only the order of assertions among each other counts.",
     ["programs", "inputs"], "all permutations and spellings of all directive lists", "Tests write each directive in one way.",
     [D + "parser/mod.rs", D + "parser/meta_types.rs", CG], [("attribute parser", D + "parser/mod.rs")], ["value", "error", "callback trace"], REF + " over respelled programs", NOTE)
prop("C25", "Reads are independent of history and of other threads",
     "What a read gives depends only on its input, options and arguments: not on earlier reads, failed ones included, nor on reads which run at the same time on other threads.",
     ["histories", "schedules", "programs"], "all sequences and interleavings of reads of all types", "Tests run each read once, in a fixed order.",
     [B + "lib.rs", B + "binary_template.rs", CG], [("no shared state in reads", CG)], ["value", "error", "reader position"],
     "history and schedule monitor: repeated, shuffled and multi-threaded runs against the reference, ThreadSanitizer and Miri", NOTE)
prop("C26", "Options reach every nested read, and only the right ones do",
     "A nested read sees the byte order and offset of the closest directive around it, and the count only where one was given to it; one field's directives never change the options of its siblings, and what a caller passed in stays unchanged.",
     ["inputs", "programs"], "all nestings of types, wrappers, collections, pointers and helpers with directives at any level", "Tests cannot see options; leaks from field to field show only in combinations.",
     [CG, CGS, B + "options.rs", B + "binread_impls.rs"], [("options per field", CG)], ["options seen by a recording type"], REF + " with a recording element type", NOTE)
prop("C27", "A positioned value carries its value and where it was read",
     "A positioned value has the position at which its value's read began, absolute in the reader, and otherwise reads, compares, prints, dereferences and clones as the value itself, within any wrapper and at any position.",
     ["inputs", "programs"], "all types, positions and nestings", "One test at one position.", [B + "pos_value.rs"], [("position capture", B + "pos_value.rs")], ["value", "position"], REF, NOTE)
prop("C28", "Reads touch only their own bytes",
     "A read asks the reader for no byte outside of what its type occupies at that place, its pointers' targets included: bytes elsewhere do not influence the result, and nothing is read ahead.",
     ["inputs", "programs"], "all types and inputs", "In-memory tests cannot tell what was read.", [B + "binread_impls.rs", B + "helpers.rs", B + "strings.rs", CG], [("exact reads", B + "binread_impls.rs")],
     ["byte ranges asked for"], REF + ", footprint monitor", NOTE)
prop("C29", "Errors say what failed, where, and give custom errors back",
     "Every error of a failing read can be printed and names its kind and position or message, within enum errors also the variants; a custom error can be taken back out as the type it was, and only as that.",
     ["inputs", "programs", "fault_sequences"], "all error kinds, nestings and failing reads", "Tests print one or two errors.", [B + "error.rs"], [("error type", B + "error.rs")], ["error text", "custom error"], REF, NOTE)
prop("C30", "Directives bring no compiler warnings, in any edition",
     "A definition which compiles without warnings when its directives are left out compiles without warnings with them: in every edition from 2018 on the code which the macro generates "
     "gives rise to no warning of the compiler, neither by default nor with the common lints for unused code, naming, unsafe code, idioms and the compatibility with later editions, "
     "whatever the names of types, fields, variants and parameters are and whether they are deprecated, must-use or private. A crate which denies warnings can use the macro.",
     ["programs", "configurations"], "all definitions, directives and editions", "Tests are built with warnings allowed and in one edition.",
     [D + "codegen/mod.rs", CG, CGS, CGE, D + "codegen/sanitization.rs"], [("generated impl", D + "codegen/mod.rs")], ["compiler diagnostics"],
     "monitoring the compiler's lints over documented and generated definitions in three editions",
     "Every definition goes through the real macro and compiler; any warning or error which points into it is a violation. Holds for the definitions explored; the compiler hides some lints inside of macros of other crates, from users as well.")
prop("C31", "The type stays as it was written",
     "Deriving BinRead, or using derive_binread, leaves the type as it was written but for the directives and the temporary fields: the same fields and variants with the same names, types, order and visibility, the same generics, "
     "bounds, discriminants and layout, the same documentation, deprecation and other attributes, the same other trait implementations with the same results, and nothing else in its module.",
     ["programs", "configurations"], "all type definitions, attributes and placements of directives and temporary fields", "Tests look at values of a few types only.",
     [D + "lib.rs", D + "parser/mod.rs"], [("attribute macro", D + "lib.rs")], ["type definition", "trait results"],
     "monitoring the compiler's account of each definition, and the values at run time, beside those of the same definition written without directives",
     "Each definition is compiled with the real macro beside a twin without directives and temporary fields; the two are compared item by item as the compiler describes them (rustdoc's JSON), and at run time by layout, debug output, comparisons and defaults of values which were read.")


def main():
    from vk import checks, every
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    have = [p for p in P if p["id"] in checks.CHECKS]
    man = {
        "version": 1,
        "setup_cmd": "./setup",
        "checks": [{
            "property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_t"], "level": p["_l"], "level_note": p["_n"]} for p in have],
        "not_applicable": [{"property": p["id"], "reason": "its check is not finished"} for p in P if p not in have],
        "notes": "No hooks in /repo: the monitors see everything through readers, element types, directives' expressions and the allocator.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
