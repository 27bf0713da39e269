#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that it stays readable)."""
import json, os
OUT = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

WIP = "facet-reflect/src/wip/mod.rs"
ENU = "facet-reflect/src/wip/enum_.rs"
HV = "facet-reflect/src/wip/heap_value.rs"
ISET = "facet-reflect/src/wip/iset.rs"
PF = "facet-reflect/src/wip/put_f64.rs"
FM = "facet-reflect/src/wip/flat_map.rs"
st = [("frames", "stack of the values being filled in, outermost first", WIP),
      ("istates", "what is known of values that were left and may be entered again", WIP)]

p("W01", "Building a value never leaks, double-drops or corrupts memory",
  "Whatever sequence of steps is applied to an incremental builder, and whether it ends in a finished value, a rejected step, a failed build, or the builder being abandoned at any point, every value handed to it is dropped exactly once or handed out in the finished value. All memory allocated along the way is released exactly once with the layout it was allocated with, and nothing that was released is used again.",
  ["histories"], "all finite sequences of builder steps (valid and invalid) over any type, stopped at any point",
  "The tests run a few dozen straight-line sequences, mostly the happy path, and cannot see a leak or a double drop of most values; the bad cases need a re-entered field, a replaced variant, an abandoned temporary or an error half way.",
  [WIP, ENU, HV, FM, "facet-core/src/impls_alloc/vec.rs", "facet-core/src/impls_core/option.rs", "facet-core/src/impls_std/hashmap.rs"],
  [("deinit/evict/track/Drop", WIP), ("variant reselection", ENU), ("materialize and drop of the finished value", HV)],
  ["drop counters of the values put", "the global allocator", "the finished value"], st)
p("W02", "A value can be built exactly when it is completely initialized",
  "Building succeeds if and only if every field of the root value, of the selected variant of every enum in it, and so on recursively, has been given a value, whatever the order, the number of visits and the nesting in which that happened. No part of a value that was handed out was left uninitialized.",
  ["histories"], "all sequences of builder steps over any type, in particular fields left half done and resumed, variants reselected, elements and entries abandoned",
  "Tests leave out one field of a few flat types; completeness after re-entry, reselection, discarded temporaries, wide structs, or nested enums is not sampled.",
  [WIP, ISET, ENU], [("build's traversal", WIP), ("field sets", ISET)], ["result of building"], st)
p("W03", "The built value is exactly what the steps said",
  "The value a builder hands out equals the value denoted by the accepted steps: each field holds what was last put there, a list its completed elements in order, a map the last value for each completed key, an option and an enum the last selection. Nothing else is changed by a step, and steps on one part never show in another.",
  ["histories"], "all sequences of accepted builder steps over any type",
  "Tests compare a handful of results; orderings and combinations of steps (re-entry, overwriting, reselection, discarding) are not covered.",
  [WIP, ENU, HV, "facet-core/src/impls_alloc/vec.rs", "facet-core/src/impls_alloc/btreemap.rs", "facet-core/src/impls_std/hashmap.rs", "facet-core/src/impls_core/option.rs"],
  [("put/push/pop/insert", WIP), ("variant selection", ENU)], ["the finished value, natively and through a peek"], st)
p("W04", "Builder steps that do not fit the type or the state are refused",
  "A step is accepted exactly when it makes sense for the type and state of the current position: a value of exactly the expected type (or the payload of an option), an existing field or variant, list steps in lists, map steps in maps, option steps in options, and no second value for a field that is already set. A refused step never changes or reinterprets any data, and a finished value can only be taken out as its own type.",
  ["histories", "inputs"], "all states reachable by builder steps, and every step with every argument type in each of them",
  "Tests try two or three mismatches; the full matrix of steps against positions, and refusals in odd states (None frames, half-built keys, after popping the root), is not sampled.",
  [WIP, ENU, HV], [("shape comparison in put_shape", WIP), ("checks at the head of every step", WIP), ("materialize's type check", HV)], ["result of each step"], st)
p("W05", "The builder reports its position and progress truthfully",
  "At every point the builder's answers (depth, type and kind of the current position, path, whether a field is set, the selected variant, index of a field by name) describe the steps taken so far. In particular, progress on a field survives leaving and re-entering it, and never leaks from a discarded or moved value to another one.",
  ["histories"], "all sequences of accepted builder steps over any type",
  "Tests query these on a few fixed points of straight-line sequences; stale progress needs leaving, re-entering, moving out of, or reusing memory.",
  [WIP, ENU, ISET], [("saved states", WIP), ("is_field_set/path/mode/in_option/selected_variant", WIP)], ["the introspection calls after each step"], st)
p("W06", "A value that breaks its declared invariants is never handed out",
  "When a type declares invariants, building a value of that type succeeds only if all of them hold for the finished value, whichever way and in whichever order its fields were given. If one fails, the build is refused and everything is dropped exactly once.",
  ["histories", "inputs"], "all ways of building, all field values, any number of declared invariants",
  "One test builds one violating value; that every declared invariant is evaluated, on the final values, for every way of building, is not tested.",
  [WIP, "facet-derive-emit/src/process_struct.rs"], [("invariant check in build", WIP), ("generated conjunction of invariants", "facet-derive-emit/src/process_struct.rs")], ["result of building"])
p("W07", "Numbers given to the builder are stored exactly or refused",
  "Putting a floating-point number into a position of any integer, non-zero integer or float type stores that very number (rounded to the nearest for the narrower float type) or is refused; it is refused exactly when the type cannot hold it: fractional, out of range, zero for a non-zero type, not finite for integers. It never truncates, wraps or saturates. (128-bit integers may refuse every number, and the narrower float type may refuse what is not finite or beyond its largest value.)",
  ["inputs"], "all 64-bit floats against all numeric types",
  "Tests put a few small whole numbers; the boundaries of each width and sign, fractions, infinities and NaN are not sampled.",
  [PF], [("range check", PF)], ["result of the step and stored value"])

CORE = "facet-core/src"
p("R01", "The reflected description of a type matches its declaration",
  "For every supported type, the reflected shape lists exactly the declared fields and variants, in order, with their names, types, kinds, discriminants, documentation and attributes, and with the size, alignment and field offsets the compiler actually uses. Field offsets lie inside the type, are aligned, and never overlap.",
  ["programs"], "all type declarations the derive accepts, and all compositions of library types",
  "Tests check names and offsets of a few small structs and enums; combinations of representation, variant kind, explicit discriminants, generics, nesting and attributes are not covered.",
  ["facet-derive-emit/src/process_struct.rs", "facet-derive-emit/src/process_enum.rs", "facet-derive-emit/src/lib.rs", "facet-derive-parse/src/lib.rs", CORE + "/types/mod.rs", CORE + "/impls_core/tuple.rs"],
  [("derive output", "facet-derive-emit/src"), ("library impls", CORE)], ["the shape constants"])
p("R02", "Reading a value through reflection shows the value",
  "For every value of every supported type, walking it through the reflective reader yields exactly its contents: every field by index and by name, the active variant, every list element in order, every map entry once with lookups by key agreeing, the payload of an option. Asking for something that is not there gives nothing rather than something else.",
  ["inputs", "programs"], "all values of all supported types, all indices and names",
  "Tests read a few fixed values; agreement of counts, orders, lookups, iteration and absent cases over arbitrary nested values is not checked.",
  ["facet-reflect/src/peek/mod.rs", "facet-reflect/src/peek/value.rs", "facet-reflect/src/peek/struct_.rs", "facet-reflect/src/peek/enum_.rs", "facet-reflect/src/peek/list.rs", "facet-reflect/src/peek/map.rs", "facet-reflect/src/peek/option.rs"],
  [("peek accessors", "facet-reflect/src/peek"), ("list/map/option vtables", CORE)], ["everything a peek returns"])
p("R03", "Type-erased operations agree with the type's own",
  "Comparing, ordering, hashing, cloning, defaulting, parsing and formatting a value through its shape gives the same result as the type's own implementation where it has one, for every value. An operation is offered only when the contents of the type support it, and it never changes the values it reads.",
  ["inputs", "programs"], "all values and pairs of values of all supported scalar, container, tuple and derived types",
  "Tests exercise each operation on one or two values per type and mostly only check that it is present; agreement of equality, order and hash over nested values is not checked.",
  [CORE + "/types/value.rs", CORE + "/spez/mod.rs", CORE + "/macros.rs", CORE + "/impls_alloc/vec.rs", CORE + "/impls_core/array.rs", CORE + "/impls_core/option.rs", CORE + "/impls_core/slice.rs", CORE + "/impls_core/tuple.rs", CORE + "/impls_core/scalar.rs", CORE + "/impls_std/hashmap.rs", CORE + "/impls_alloc/btreemap.rs"],
  [("value vtables", CORE + "/macros.rs"), ("hand-written container vtables", CORE + "/impls_alloc")], ["vtable calls"])
p("R04", "Typed access is granted only to the value's own type",
  "Two shapes compare equal exactly when they describe the same type, and typed access to a reflected value (reading it as a concrete type, taking a finished value out, putting a value in) is granted exactly for its own type, except that what an option contains may be put where the option is wanted. Values keep a distinct identity per address and type.",
  ["programs"], "all ordered pairs of supported types",
  "Tests check one or two mismatching pairs; the pairs most likely to be confused (same layout, same name, same structure, generic instances) are not sampled.",
  [CORE + "/typeid.rs", CORE + "/types/mod.rs", "facet-reflect/src/peek/value.rs", HV, WIP], [("shape equality", CORE + "/types/mod.rs"), ("type check before access", "facet-reflect/src/peek/value.rs")], ["result of typed access"])
p("R05", "Reflected smart pointers keep reference counts right",
  "Creating, borrowing, downgrading, upgrading and dropping reference-counted pointers through their shapes has the effect it has on the native type: the pointee stays alive exactly as long as a strong pointer exists, upgrading succeeds exactly while one does, and it is dropped exactly once.",
  ["histories"], "all sequences of smart pointer operations over any number of pointers to any number of values",
  "Tests call each operation once or twice; sequences mixing strong and weak pointers, and their drops, are not sampled.",
  [CORE + "/impls_alloc/smartptr.rs", CORE + "/types/smartptr.rs"], [("smart pointer vtables", CORE + "/impls_alloc/smartptr.rs")], ["liveness of the pointee, native counts"])
p("R06", "Collections edited through their shapes hold what was put in",
  "Creating, filling, replacing, looking up, iterating, counting, cloning and dropping lists, maps and options through their shapes has the effect it has on the native type: they hold exactly what was put in, a list in order, a map one value per key with the last one put in, an option the last value set. What is displaced or dropped is dropped once, and nothing else is.",
  ["histories", "programs"], "all sequences of collection operations on all supported list, map and option types, over any number of collections",
  "Tests push a few elements and call an operation once or twice; sequences in which keys repeat, options are replaced, and iterators and clones coexist with drops are not sampled.",
  [CORE + "/impls_alloc/vec.rs", CORE + "/impls_std/hashmap.rs", CORE + "/impls_alloc/btreemap.rs", CORE + "/impls_core/option.rs", CORE + "/types/list.rs", CORE + "/types/map.rs", CORE + "/types/option.rs"],
  [("list vtable", CORE + "/impls_alloc/vec.rs"), ("map vtables", CORE + "/impls_std/hashmap.rs"), ("option vtable", CORE + "/impls_core/option.rs")], ["contents, answers, liveness and memory after every operation"])

JD, JS = "facet-json/src/deserialize.rs", "facet-json/src/serialize.rs"
p("J01", "JSON output is well formed and denotes the value",
  "The JSON written for a value is valid JSON that denotes exactly that value: every field under its name in order, strings with all characters preserved, integers digit for digit, floats exactly recoverable, absent options as null, enums tagged by variant name. This holds for compact output of every supported type, whatever characters, numbers and nesting it contains.",
  ["inputs", "programs"], "all values of all types the serializer supports",
  "Tests compare a few outputs of simple values; control characters, quotes in keys, extreme numbers, empty and nested containers, and every variant kind are not sampled.",
  [JS], [("iterative serializer", JS), ("string escaping", JS)], ["the text written"])
p("J02", "Reading JSON yields the value the document denotes",
  "Reading a valid JSON document into a type that can represent it yields exactly the value it denotes, independent of whitespace, member order, escape spelling and number spelling. A number that the target type cannot hold is refused rather than rounded to another integer, wrapped or saturated.",
  ["inputs", "programs"], "all valid JSON documents against all supported target types",
  "Tests read a few dozen documents written in one style; escapes, surrogates, exponents, extreme integers, whitespace placement and nesting depth are not sampled.",
  [JD, PF], [("iterative deserializer", JD), ("string unescaping", JD), ("number scanning", JD)], ["value or error"])
p("J03", "JSON written for a value reads back as the same value",
  "For every value of every type that JSON can both write and read, writing it and reading the result into the same type gives back an equal value, and writing that gives the same text. (Two things JSON has no notation for are excepted: an absent option inside a present one, and floats that are not finite.)",
  ["inputs", "programs"], "all values of all types supported in both directions",
  "Round trips are tested for a couple of values of a couple of types.",
  [JD, JS], [("serializer", JS), ("deserializer", JD)], ["value after a round trip"])
p("J04", "Malformed or mismatched JSON is refused, never crashes",
  "For every byte sequence and every target type, reading JSON terminates with a value or an error: it never panics, overflows the stack, reads out of bounds or leaves memory behind. It gives a value only for a well-formed document whose structure fits the type; truncated, garbled or trailing input is refused, and so is every error's report printable.",
  ["inputs"], "all byte sequences, including truncations and mutations of valid documents and deep nesting, against all target types",
  "Tests try a handful of malformed documents; truncation at every position, byte mutations, invalid UTF-8, hostile nesting are not sampled.",
  [JD, "facet-json/src/deserialize/error.rs"], [("error paths of the deserializer", JD), ("error report", "facet-json/src/deserialize/error.rs")], ["value, error, or crash; drop counters"])
p("J05", "JSON field rules: missing, unknown, duplicate, default, renamed",
  "An object read into a struct gives each field the value of the member with its name (its declared other name if it has one), a declared default if the member is absent, and is refused if a field without default is absent or a member appears twice. Members no field claims are skipped whatever they contain, unless the type denies unknown fields, in which case they are refused.",
  ["inputs", "programs"], "all member subsets, orders, duplicates and unknown members against all combinations of field attributes",
  "Each attribute has one or two tests; combinations (default with container default, rename with deny, unknown nested values, duplicates, order) are not sampled.",
  [JD], [("field lookup and defaults", JD), ("skipping unknown members", JD)], ["value or error"])

MD, MS = "facet-msgpack/src/from_msgpack.rs", "facet-msgpack/src/to_msgpack.rs"
p("M01", "MessagePack output is valid and denotes the value",
  "The bytes written for a value of a type the writer supports are one valid MessagePack object denoting exactly that value: structs as maps from field names with every field in order, integers with their exact value and sign, strings byte for byte, booleans and nested structs in full. Lengths and integers use encodings wide enough for them.",
  ["inputs", "programs"], "all values of all types the writer supports",
  "Tests compare output of small values; the boundaries of each length and integer encoding, negative numbers and nesting are not sampled.",
  [MS], [("iterative writer", MS)], ["the bytes written"])
p("M02", "Reading MessagePack yields the value the bytes denote",
  "Reading valid MessagePack into a type that can represent it yields exactly the denoted value, whichever of the equivalent encodings was used for lengths and integers and whatever the order of map entries; numbers that do not fit are refused. In particular, whatever was written for a value reads back as an equal value.",
  ["inputs", "programs"], "all valid encodings of all documents against all supported types",
  "Tests read a few documents in the encodings one writer produces; other encodings of the same value, boundaries and entry orders are not sampled.",
  [MD], [("reader", MD), ("integer decoding", MD)], ["value or error"])
p("M03", "Malformed or mismatched MessagePack is refused, never crashes",
  "For every byte sequence and every target type, reading MessagePack terminates with a value or an error: no panic, no stack overflow, no runaway allocation, nothing left behind. Truncated input, wrong types, missing or repeated fields are refused, and unknown entries are skipped whatever they contain.",
  ["inputs"], "all byte sequences, including truncations and mutations of valid ones, against all target types",
  "Two or three error tests exist; truncation at every byte, every marker byte, hostile lengths, skipping of every kind of value are not sampled.",
  [MD, "facet-msgpack/src/errors.rs"], [("error paths", MD), ("skipping values", MD)], ["value, error, or crash; drop counters"])

TD, YD = "facet-toml/src/lib.rs", "facet-yaml/src/lib.rs"
p("T01", "Reading TOML yields the value the document denotes",
  "Reading a TOML document into a struct gives every field the value the document assigns to it, however the document spells it: order of keys, tables, dotted keys or inline tables, number bases and string styles; enums by variant name with or without data, absent optional fields as none.",
  ["inputs", "programs"], "all documents over the supported constructs against all supported types",
  "Each construct has one or two tests; the position of optional and enum fields among others, spelling variants and nesting combinations are not sampled.",
  [TD], [("document walk", TD)], ["value"])
p("T02", "TOML that does not fit the type is refused, never crashes",
  "For every document and every target type, reading TOML gives a value or an error and never panics. Missing fields, wrong types, unknown variants and numbers out of range are refused, and nothing is wrapped or truncated.",
  ["inputs", "programs"], "all documents (malformed, mismatched, extreme) against all supported types",
  "A few error tests exist per construct; mismatches of every construct against every type are not sampled.",
  [TD], [("error paths", TD)], ["value, error, or crash; drop counters"])
p("Y01", "Reading YAML yields the denoted value or is refused",
  "Reading a YAML mapping into a struct of unsigned integers, strings and nested structs gives every field the value of its key, independent of order and scalar style. Anything else (missing or unknown keys, wrong types, negative or fractional numbers, unsupported types, malformed text) is refused without a panic.",
  ["inputs", "programs"], "all documents against all types over the supported constructs",
  "Three tests exist.",
  [YD], [("document walk", YD)], ["value, error, or crash; drop counters"])
UD, AD = "facet-urlencoded/src/lib.rs", "facet-args/src/lib.rs"
p("U01", "Reading a url-encoded form yields the denoted value or is refused",
  "Reading url-encoded pairs into a struct gives every field the decoded value of its key, with bracketed keys going to nested structs, independent of the order of pairs; unknown keys are ignored and of repeated keys the last wins. Missing fields and values that do not parse are refused, and no input causes a panic.",
  ["inputs", "programs"], "all query strings (escapes, plus signs, brackets, duplicates, garbage) against all structs of strings, integers and nested structs",
  "A few query strings are tested; escapes, bracket garbage, duplicates and order are not sampled.",
  [UD], [("nested value tree", UD), ("field walk", UD)], ["value, error, or crash; drop counters"])
p("A01", "Command-line arguments end up in the right fields",
  "Arguments given by long name or by position end up in the field they name, whatever their order: positional arguments fill the positional fields in order, a flag consumes the value that follows it, and a boolean flag is true exactly when given. Arguments that name no field, lack a value, or do not parse never produce a value.",
  ["inputs", "programs"], "all argument lists against all structs of argument fields",
  "Four tests with fixed lists; order, mixtures of styles, missing values and unknown names are not sampled.",
  [AD], [("argument loop", AD)], ["value or refusal"])
PP = "facet-pretty/src/printer.rs"
p("P01", "Pretty-printing never shows sensitive data",
  "The contents of a field marked sensitive never appear in pretty-printed output, wherever the field is (structs, variants, nested in lists, options, arrays, tuples) and whatever the printer settings; the output does not depend on them at all. All other printed fields still show.",
  ["inputs", "programs", "configurations"], "all values of all types with sensitive fields, all printer settings",
  "One test with one sensitive field of a flat struct.",
  [PP], [("redaction", PP)], ["the text printed"])
p("P02", "Pretty-printing shows the whole value, in every setting",
  "Pretty-printed output shows every non-sensitive field, element and payload of the value in order with its name, documentation and nesting, for every value and indentation; colors only add color codes, and everything they color is reset. Printing terminates, and cuts off only when asked for a depth limit. (Maps, arrays and smart pointers are shown by their type only; what this printer does not support it says so about.)",
  ["inputs", "programs", "configurations"], "all acyclic values of supported types, all printer settings",
  "Tests compare a few snapshots.",
  [PP, "facet-pretty/src/display.rs", "facet-pretty/src/color.rs"], [("iterative printer", PP)], ["the text printed"])
with open(OUT, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
