#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Plain scalars resolve by one fixed grammar, the same for every target type",
  "An untagged plain scalar is null iff it is empty or one of null/Null/NULL/~ , a boolean iff one of true/True/TRUE/false/False/FALSE, an integer iff it is an optionally signed decimal without redundant leading zeros, or 0x/0o/0b digits, that fits the target's range (with exactly that value; an unsigned type takes no minus sign), a float iff it is .inf/.nan in the accepted spellings or a finite Rust float literal that is not a zero-prefixed digit string, and otherwise a string with exactly its own text. "
  "Requesting bool, an integer or unit accepts exactly the scalars of that row and reports an error on every other one, a float type accepts the float row and every decimal numeral, and quoted or block scalars are always strings. "
  "Number's own text parser accepts exactly the integer and float rows.",
  ["inputs"], "every scalar text of every length, for every requested primitive type, style and core tag (!!str, !!int, !!bool, !!float, !!null)",
  "Tests sample about forty literals (test_numbers, test_nan, test_bools ...); a resolver that misclassifies one more spelling, sign, radix prefix, width boundary or leading-zero form still passes them.",
  ["src/de.rs", "src/number.rs"],
  [("visit_untagged_scalar", "src/de.rs"), ("visit_scalar", "src/de.rs"), ("visit_int", "src/de.rs"), ("parse_unsigned_int / parse_signed_int / parse_negative_int", "src/de.rs"),
   ("parse_null / parse_bool / parse_f64 / digits_but_not_number", "src/de.rs"), ("Deserializer::deserialize_bool/i*/u*/f*/str/unit for DeserializerFromEvents", "src/de.rs"), ("Number: FromStr", "src/number.rs")],
  ["serde_yaml::from_str::<T>", "serde_yaml::from_str::<Value>", "str::parse::<Number>"])

p("C02", "Every string survives serialization: it reads back as the same string",
  "Serializing any string or char, in any position (document root, sequence item, mapping key or value, variant payload), and deserializing the produced text yields the identical string, both when asked for a string and when asked for a Value. "
  "A string displayed in pieces (collect_str) is written like the whole string, except that the key of a one-entry map displayed as '!' and then one more piece is a tag. In particular no string is ever read back as null, a boolean, a number, an alias, a tag or a comment. ",
  ["inputs"], "every sequence of Unicode scalar values, in every position and nesting depth",
  "Tests round-trip a few dozen fixed strings (test_string_escapes, test_strings_needing_quote ...); the quoting decision must agree with the resolver for every spelling, and with the emitter for every character.",
  ["src/ser.rs", "src/de.rs", "src/libyaml/emitter.rs"],
  [("serialize_str / InferScalarStyle", "src/ser.rs"), ("emit_scalar", "src/ser.rs"), ("ambiguous_string / digits_but_not_number", "src/de.rs"), ("ScalarStyle mapping", "src/libyaml/emitter.rs")],
  ["serde_yaml::to_string", "serde_yaml::from_str"])

p("C03", "Integers, floats, booleans and unit survive serialization exactly",
  "Serializing any integer of any width, any f32 or f64 (bitwise, except that every NaN reads back as NaN), any bool, unit or None and deserializing the text at the same type returns the same value; a Value holding the number reads back as the equal number of the same kind. "
  "Byte strings are refused rather than altered.",
  ["inputs"], "every value of i8..i128, u8..u128, f32, f64, bool, ()",
  "Tests check boundary constants such as u64::MAX and i64::MIN and a handful of floats, out of 2^64 or more values per type.",
  ["src/ser.rs", "src/de.rs", "src/number.rs"],
  [("serialize_i*/u*/f*/bool/unit/none", "src/ser.rs"), ("parse_* / visit_int", "src/de.rs"), ("Number Serialize/Deserialize", "src/number.rs")],
  ["serde_yaml::to_string", "serde_yaml::from_str"])

p("C04", "A Number holds its value exactly and its accessors never lie",
  "A Number built from a primitive reports exactly that value: as_u64/as_i64/as_f64 return Some with the exact value precisely when it is representable (as_f64 always, as the nearest float), the is_* predicates agree with them, and the integer zero, positive and negative ranges have one canonical form each so equal integers are equal Numbers. "
  "is_nan, is_infinite and is_finite classify the held value, and printing a Number and parsing the text gives it back.",
  ["inputs"], "every u64, i64 and f64 (and the narrower types) the Number can be built from",
  "Only a few constants are tested; errors at sign or width boundaries (i64::MAX+1, i64::MIN, 0, -0.0) need all values.",
  ["src/number.rs", "src/value/mod.rs"],
  [("enum N and From impls", "src/number.rs"), ("is_*/as_* accessors", "src/number.rs"), ("Display / FromStr", "src/number.rs"), ("Value::as_*/is_*", "src/value/mod.rs")],
  ["Number::from", "Number::as_i64", "Number::as_u64", "Number::as_f64", "Number::to_string", "Value::as_i64"])

p("C05", "Equality, ordering and hashing of Value, Number, Mapping and Tag are lawful",
  "Equality on Value, Number, Mapping and Tag is an equivalence (all NaN Numbers equal each other), equal values hash equally, and the partial order is antisymmetric, transitive and reports Equal exactly for equal values. "
  "Mapping equality and order do not depend on insertion order, sequence order is lexicographic, integers and floats each order numerically, and values of different kinds (integers and floats included) never compare equal.",
  ["inputs"], "all pairs and triples of values, arbitrarily nested",
  "The tests compare a handful of pairs; laws quantify over pairs and triples, and only ill-ordered nested or NaN/zero cases break them.",
  ["src/value/mod.rs", "src/mapping.rs", "src/number.rs", "src/value/tagged.rs"],
  [("derive(PartialEq, PartialOrd), Hash for Value", "src/value/mod.rs"), ("Hash, PartialOrd for Mapping", "src/mapping.rs"), ("PartialEq, PartialOrd, Hash for N", "src/number.rs"), ("Eq/Ord/Hash for Tag", "src/value/tagged.rs")],
  ["PartialEq/PartialOrd/Hash impls of the public types", "Mapping lookups by Value key"])

p("C06", "Tags: the leading ! is insignificant and tagged data keeps tag and payload",
  "Two Tags are equal, ordered and hashed alike iff their names agree after removing one leading '!' from each (a lone '!' is kept), a Tag cannot be empty, and it displays with a leading '!'. "
  "A tagged value round-trips through text and through to_value with its tag and payload unchanged, and enum variants (unit, newtype, tuple, struct) are written as and read from tagged values named after the variant. "
  "A tagged value nested directly inside a tagged value or enum variant is rejected with an error when written as text, never silently flattened.",
  ["inputs"], "all tag strings and all payloads, for every variant kind",
  "test_tag etc. check a few spellings of a few tags.",
  ["src/value/tagged.rs", "src/ser.rs", "src/de.rs"],
  [("nobang, Tag eq/cmp/hash/Display", "src/value/tagged.rs"), ("check_for_tag / CheckForTag::write_str", "src/value/tagged.rs"), ("State / take_tag / serialize_*_variant", "src/ser.rs"), ("deserialize_enum, parse_tag", "src/de.rs")],
  ["Tag::new", "TaggedValue", "to_string/from_str of enums"],
  [("State", "tag pending for the next node", "src/ser.rs"), ("CheckForTag", "which prefix of the tag text has been seen", "src/value/tagged.rs")])

p("C07", "Mapping behaves as an insertion-ordered map; string lookups match Value keys",
  "After any sequence of operations a Mapping answers get/contains_key/remove/entry/iter/len like a map from Value to Value with unique keys, iterating in insertion order except for the documented effect of (swap) removal. "
  "Looking up, inserting over or removing by a &str, String or Value::String with the same text always address the same entry, and never an entry of another kind.",
  ["histories", "inputs"], "every sequence of public Mapping operations over all keys",
  "Tests insert a few keys; order and key-equivalence after arbitrary interleavings of insert, shift_remove, swap_remove, retain and entry cannot be sampled.",
  ["src/mapping.rs"],
  [("methods delegating to IndexMap", "src/mapping.rs"), ("Index for Value/str/String, HashLikeValue", "src/mapping.rs"), ("Entry/OccupiedEntry/VacantEntry", "src/mapping.rs")],
  ["Mapping's public methods", "iterators"])

p("C08", "Indexing a Value reads and writes exactly the addressed element",
  "get, get_mut, [] and []= with an integer, string or Value index reach exactly the element a sequence position or mapping key denotes, looking through tags, and touch nothing else. "
  "A missing element gives None from get and Null from read indexing; write indexing of a mapping (or Null, which becomes a mapping) inserts exactly that key, and every other unsupported access panics or returns None as documented without changing the value.",
  ["inputs", "histories"], "every Value and every index of every kind",
  "Tests index a couple of documents with present keys; integer index into mapping, tagged containers, Null auto-creation and out-of-range cases are open-ended.",
  ["src/value/index.rs", "src/value/mod.rs", "src/mapping.rs"],
  [("Index::index_into/index_into_mut/index_or_insert", "src/value/index.rs"), ("ops::Index/IndexMut for Value and Mapping", "src/value/index.rs")],
  ["Value::get", "Value::get_mut", "value[index]"])

p("C09", "Merge keys add exactly the missing entries and nothing else",
  "After apply_merge succeeds, each mapping that had a '<<' entry has it removed and holds its own entries unchanged plus, for each mapping merged (in order, each with its own '<<' already resolved), exactly the entries whose keys it lacked; this applies at every depth, including inside sequences and tagged values, and mappings without '<<' are unchanged. "
  "A '<<' whose value is a scalar, a tagged value, or a sequence containing anything but mappings is reported as an error.",
  ["inputs"], "every Value tree",
  "test_merge covers one document and a few error shapes.",
  ["src/value/mod.rs"], [("Value::apply_merge", "src/value/mod.rs")], ["Value::apply_merge"])

p("C10", "Every alias stands for the latest earlier node with its anchor name",
  "In every document, each alias deserializes to the same data as the most recent preceding node carrying that anchor name, whatever kind of node it is, however often names are redefined, and wherever it is used. "
  "An alias with no preceding anchor of that name in the same document is an error, and anchors never leak between documents.",
  ["inputs", "histories"], "every document with any number of anchors, redefinitions and aliases",
  "test_alias has one anchor used once; only particular interleavings of definitions and redefinitions exercise the id bookkeeping.",
  ["src/loader.rs", "src/de.rs"],
  [("anchors / aliases tables", "src/loader.rs"), ("DeserializerFromEvents::jump", "src/de.rs")],
  ["serde_yaml::from_str"],
  [("anchors", "name -> id of the latest node", "src/loader.rs"), ("aliases", "id -> event index", "src/loader.rs")])

p("C11", "Nesting and alias expansion are bounded, and legitimate input is not",
  "Deserialization of collections nested more than 128 deep (counting through aliases, and counting a newtype struct the target reads around a node as one level) fails with a recursion-limit error rather than exhausting the stack, and up to that depth succeeds; the limit concerns depth only, never the number of siblings. "
  "Alias expansion fails with a repetition-limit error once the number of alias jumps exceeds 100 times the number of events in the document, so work stays bounded, and is never refused below that.",
  ["inputs"], "every document, in particular deeply nested, cyclic and exponentially aliased ones",
  "Tests have one billion-laughs, one self-referential and one deep-sequence document; they do not settle that every entry into a collection is counted and uncounted exactly once.",
  ["src/de.rs"],
  [("recursion_check", "src/de.rs"), ("jump / jumpcount", "src/de.rs"), ("visit_sequence, visit_mapping, deserialize_enum, ...", "src/de.rs")],
  ["serde_yaml::from_str"],
  [("remaining_depth", "nesting budget", "src/de.rs"), ("jumpcount", "alias expansions so far", "src/de.rs")])

p("C12", "Each node is consumed exactly once: nothing skipped, duplicated or misread",
  "Deserializing any node, including one that is ignored, consumes exactly the text of that node, so that every sequence element and mapping entry reaches the visitor once, in document order, with each key paired with its own value. "
  "If the target takes fewer or more elements than the document has (tuples, structs read as sequences, fixed-length visitors), an invalid-length error is reported, and duplicate keys in a Mapping or repeated struct fields are errors rather than silently dropped data.",
  ["inputs"], "every document and every target type, including those that skip or stop early",
  "Tests deserialize a few structs; skipping nested unknown content, or stopping early, at arbitrary shapes is unbounded.",
  ["src/de.rs", "src/mapping.rs"],
  [("ignore_any", "src/de.rs"), ("visit_sequence/visit_mapping, end_sequence/end_mapping", "src/de.rs"), ("SeqAccess / MapAccess", "src/de.rs"), ("Mapping Deserialize (duplicate keys)", "src/mapping.rs")],
  ["serde_yaml::from_str into Value, structs, IgnoredAny, tuples"])

p("C13", "A stream yields each of its documents once, in order, then ends",
  "Iterating a Deserializer yields exactly one item per YAML document, in order, each deserializing as that document alone would, and then ends; a parse error is yielded once, in place of the rest of the stream. "
  "Deserializing a single value accepts exactly one document: an empty stream reads as Null into a Value or unit and is an end-of-stream error for every other scalar type, and a second document is a more-than-one-document error. Iterated, an empty stream is one such empty document.",
  ["inputs", "histories"], "every stream of documents, from every input source, with every consumption pattern",
  "Two tests iterate two short streams; errors in later documents and partial consumption are not covered.",
  ["src/de.rs", "src/loader.rs"],
  [("Deserializer::next / de", "src/de.rs"), ("Loader::next_document", "src/loader.rs")],
  ["Deserializer as Iterator", "from_str", "from_slice", "from_reader"],
  [("Progress", "input source or shared fallible document", "src/de.rs")])

p("C14", "Serialization emits one well-formed document per value that re-reads as it",
  "Whatever sequence of serialization calls a value makes, the emitter receives a balanced event stream, with every element, key, value and tag in call order, so the text parses back to the same structure; several values written through one Serializer give a multi-document stream yielding them in order. "
  "A struct is written as a mapping of its field names in declaration order, and a failing element serialization is reported as an error, never as truncated success.",
  ["histories", "inputs"], "every sequence of nested serializer calls a Serialize impl can make",
  "Tests serialize a dozen fixed types; interleavings of nested variants, empty containers and multi-document output are unbounded.",
  ["src/ser.rs", "src/libyaml/emitter.rs"],
  [("Serializer impl, SerializeSeq/Map/Struct/...", "src/ser.rs"), ("depth / State", "src/ser.rs"), ("Emitter::emit", "src/libyaml/emitter.rs")],
  ["serde_yaml::to_string", "serde_yaml::to_writer", "serde_yaml::Serializer"],
  [("depth", "open containers; document markers at zero", "src/ser.rs")])

p("C15", "from_str, from_slice and from_reader agree, and borrowed text is genuine",
  "For every input text, deserializing it as a string, as bytes or through any reader, however it chunks its data, gives the same value or the same error. "
  "A string lent out to the target (borrowed deserialization) equals the scalar's value and lies inside the input; when the value is not literally present in the input it is never lent.",
  ["inputs", "schedules"], "every byte string and every chunking of the reader",
  "Tests use from_str nearly everywhere and one from_reader call; chunkings and borrow eligibility over all escapes, folds and styles are not sampled.",
  ["src/de.rs", "src/loader.rs", "src/libyaml/parser.rs"],
  [("Progress", "src/de.rs"), ("Loader::new", "src/loader.rs"), ("parse_borrowed_str", "src/de.rs"), ("Parser", "src/libyaml/parser.rs")],
  ["from_str", "from_slice", "from_reader", "from_str::<&str>"])

p("C16", "Errors point at the right place and never at a wrong one",
  "When a document fails to deserialize or parse, the error's location, if present, has a byte index inside the input with the line and column (1-based, counted in characters; the end of input may count as a new line) of that very index, and the reported path names the keys and indices leading to the node that failed, starting at the root. "
  "A message-only error gains location and path at the first event it passes through and an already located error is never relocated.",
  ["inputs"], "every failing document and target type",
  "Tests check around twenty exact messages; the location arithmetic and path rendering must hold for every shape and nesting.",
  ["src/de.rs", "src/error.rs", "src/path.rs", "src/libyaml/error.rs"],
  [("error::fix_mark", "src/error.rs"), ("Location::from_mark", "src/error.rs"), ("Path Display", "src/path.rs"), ("Error Display", "src/libyaml/error.rs")],
  ["Error::location", "Error Display"])

p("C17", "to_value(x) is the Value that x's YAML text denotes",
  "For every serializable x for which both succeed, to_value(x) equals from_str of to_string(x) as a Value (integers beyond 64 bits aside, f32 up to f32 precision). "
  "Integers map to integer Numbers of the same value, floats to floats, strings and chars to strings, structs and maps to Mappings in order, sequences and tuples to Sequences, unit and None to Null, variants to strings or tagged values.",
  ["inputs"], "every Serialize implementation and value",
  "Tests compare to_value on the types of test_serde only.",
  ["src/value/ser.rs", "src/value/mod.rs"],
  [("value::ser::Serializer and its compound serializers", "src/value/ser.rs"), ("Serialize for Value", "src/value/ser.rs")],
  ["serde_yaml::to_value", "serde_yaml::to_string"])

p("C18", "from_value(v), &v and the text of v deserialize alike",
  "Deserializing a type from an owned Value, from a reference to it, or from its YAML text gives the same result: the same data on success, and failure together (except that a Null Value also reads as an empty collection, and that text can always read a non-string scalar as a string). "
  "Leftover or missing elements are invalid-length errors, unsupported kinds are invalid-type errors, and tags are looked through except where an enum is requested.",
  ["inputs"], "every Value and every target type",
  "Tests cover de of a few types from Value; two parallel 400-line implementations must stay in step method by method.",
  ["src/value/de.rs", "src/value/tagged.rs", "src/de.rs"],
  [("Deserializer for Value / for &Value", "src/value/de.rs"), ("visit_sequence(_ref), visit_mapping(_ref)", "src/value/de.rs"), ("EnumDeserializer/EnumRefDeserializer", "src/value/de.rs"), ("Deserializer for TaggedValue", "src/value/tagged.rs")],
  ["from_value", "T::deserialize(&value)", "from_str"])

p("C19", "singleton_map(_recursive) round-trips enums as one-entry maps",
  "A type using singleton_map or singleton_map_recursive serializes each variant as a plain string (unit) or a one-entry map from the variant name to its payload, at top level only or at every depth respectively, leaves all other data unchanged, and deserializes back to the same value. "
  "Tagged (!Variant) input is not needed for it, and maps with zero or several entries are rejected.",
  ["inputs"], "every data type and value, every nesting of enums inside collections, options and structs",
  "with.rs is exercised by three or four tests although it holds about a hundred forwarding methods.",
  ["src/with.rs"],
  [("singleton_map::SingletonMap (Serializer, Deserializer, Visitor)", "src/with.rs"), ("singleton_map_recursive", "src/with.rs")],
  ["serde_yaml::with::singleton_map", "serde_yaml::with::singleton_map_recursive"])

p("C20", "I/O failures surface as errors; output bytes reach the writer once, in order",
  "If the writer given to to_writer or Serializer fails at any write, serialization returns that I/O error (never success), and the bytes accepted before it are a prefix of the text to_string would give; with a working writer the bytes are exactly that text, however the writer splits them. "
  "Serializer::flush hands everything written so far to the writer and flushes it. If a reader fails, deserializing from it (single value or iterated) yields that error.",
  ["fault_sequences", "inputs"], "every failure position, every kind of short or failing write and read, every value",
  "No test uses a failing or short-writing writer or a failing reader.",
  ["src/libyaml/emitter.rs", "src/ser.rs", "src/loader.rs", "src/error.rs"],
  [("write_handler / Emitter::error", "src/libyaml/emitter.rs"), ("From<emitter::Error> for Error", "src/ser.rs"), ("read_to_end in Loader::new", "src/loader.rs")],
  ["to_writer", "Serializer::new(...)", "from_reader"])

p("C21", "No input makes the library panic, overflow or fail to terminate",
  "Deserializing any bytes into any Value, and serializing any Value, returns Ok or Err: it never panics, overflows an integer, indexes out of bounds, hits an unreachable arm, or loops forever. "
  "Documented panics of the indexing operators are the only exceptions.",
  ["inputs"], "all byte strings as input, all Values as output",
  "A finite test suite cannot show absence of panics.",
  ["src/de.rs", "src/loader.rs", "src/ser.rs", "src/number.rs", "src/libyaml/parser.rs", "src/libyaml/cstr.rs"],
  [("event matching in de.rs (unreachable! arms)", "src/de.rs"), ("Parser::next / convert_event", "src/libyaml/parser.rs"), ("CStr display", "src/libyaml/cstr.rs")],
  ["from_slice::<Value>", "to_string(&Value)"])

p("C22", "Value's conversions, kind tests and primitive comparisons are exact",
  "Value::from of any primitive, string, sequence or mapping has the matching kind and content; is_*/as_*/as_*_mut return the content exactly for that kind and None otherwise, looking through tags. "
  "Comparing a Value with a bool, string or integer is true iff the Value holds a scalar of that kind with exactly that value, and comparing it with a float iff as_f64 is that float.",
  ["inputs"], "every primitive value and every Value",
  "A few conversions are tested; numeric comparison across signedness and width needs all values.",
  ["src/value/from.rs", "src/value/partial_eq.rs", "src/value/mod.rs"],
  [("From impls", "src/value/from.rs"), ("PartialEq impls", "src/value/partial_eq.rs"), ("is_*/as_*", "src/value/mod.rs"), ("untag/untag_ref/untag_mut", "src/value/tagged.rs")],
  ["Value::from", "Value == primitive", "Value::as_*"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
