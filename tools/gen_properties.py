#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to review)."""
import json, os
R='prost-reflect/src/'
D=R+'dynamic/'; DE=R+'descriptor/'; B=DE+'build/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("W01","Wire round trip of dynamic messages",
  "Encoding any dynamic message and decoding the bytes with the same message type gives back an equal message: same set fields, extensions, map and list contents, oneof members and unknown fields (nesting limited only by the decoder's recursion limit). The encoded length the message reports equals the number of bytes it writes.",
  ["inputs","programs"],"every message type and every value that can be stored in a message of that type, nested to any depth",
  "Tests sample a handful of messages of fixed types; the guarantee ranges over all schemas, all scalar kinds at all varint widths, cardinalities, groups, maps, extensions and nesting.",
  [D+'message.rs',D+'fields.rs',D+'unknown.rs'],
  [("prost::Message for DynamicMessage / Value::{encode,merge,encoded_len}",D+"message.rs"),("DynamicMessageFieldSet iteration",D+"fields.rs"),("UnknownField encode/decode",D+"unknown.rs")],
  "field set of a dynamic message","encode_to_vec, encoded_len, DynamicMessage::decode")
p("W02","Encoded bytes follow the protobuf wire format",
  "The bytes a dynamic message encodes to are the protobuf encoding of its contents: each set field once (or once per element), with its number and the wire type of its declared kind, packed exactly when the schema says so, zigzag and sign extension as declared, declared fields in increasing field number, and nothing for unset fields. Generated code for the same schema therefore reads the same values.",
  ["inputs","programs"],"every message type and every value of that type",
  "A round trip test cannot see an encoder and decoder that agree with each other but not with the format; only an independent statement of the format over all kinds and values can.",
  [D+'message.rs',D+'fields.rs',DE+'api.rs'],
  [("Value::encode_field and encoded_len",D+"message.rs"),("packed / kind / group facts",DE+"api.rs"),("DynamicMessageFieldSet::iter order",D+"fields.rs")],
  None,"encode_to_vec")
p("W03","Decoding accepts exactly well-formed input and yields its meaning",
  "For every byte string, decoding a dynamic message either fails because the bytes are malformed (truncated, bad tag or wire type, bad length, unbalanced group, invalid UTF-8, over-deep nesting) or produces the values the wire format prescribes: packed and unpacked elements both accepted in order, last value wins for singular scalars, singular messages merged, last map entry per key wins, missing map key or value defaulted, last oneof member wins.",
  ["inputs"],"every byte string and every message type",
  "The space of byte strings is unbounded and the interesting ones (interleaved repeats, mixed packing, overlong varints, partial entries) are those encoders never produce.",
  [D+'message.rs',D+'unknown.rs',D+'fields.rs'],
  [("DynamicMessage::merge_field / Value::merge_field",D+"message.rs"),("UnknownField::decode_value",D+"unknown.rs")],
  None,"DynamicMessage::decode")
p("W04","Decoding concatenated encodings is merging",
  "Decoding the concatenation of two encodings equals decoding the first and then merging the second into it: repeated fields append, maps overlay, singular messages merge recursively, everything else is replaced and unknown fields accumulate. Merging into a message never disturbs fields the merged bytes do not mention.",
  ["inputs","histories"],"every pair of encodings of the same message type, and every message already holding values",
  "Holds over all pairs of messages and all prior states of the target; tests merge a few fixed ones.",
  [D+'message.rs',D+'fields.rs'],[("Value::merge_field into existing values",D+"message.rs"),("get_mut / add_unknown",D+"fields.rs")],
  "field set of the target message","Message::merge, DynamicMessage::decode")
p("W05","Unknown fields survive decoding and re-encoding",
  "A field whose number the message type does not know is kept when decoding, whatever its wire type and however nested, is reported by the unknown-field accessors in arrival order per number, and is written back with the same tag and payload. Passing a message through an older schema therefore loses nothing a newer schema would read.",
  ["inputs","programs"],"every pair of schemas where one lacks fields or extensions of the other, and every encoded message",
  "Needs pairs of schemas and all payload shapes (all wire types, nested groups, repeats interleaved with known fields).",
  [D+'unknown.rs',D+'message.rs',D+'fields.rs'],[("UnknownFieldSet / UnknownField",D+"unknown.rs"),("add_unknown and encode order",D+"fields.rs")],
  "unknown entries of the field set","unknown_fields, take_unknown_fields, encode_to_vec")
p("M01","A dynamic message behaves as a map from fields to values",
  "After any sequence of set, try-set, get, mutable get, clear, take, field-iterator and drain operations, by descriptor, number or name, every field and extension holds exactly the value last stored in it (or its default when unset), and no operation changes a field it does not name except through oneof exclusivity. Iterators yield exactly the set fields, in field-number order for declared fields.",
  ["histories"],"every finite history of accessor operations on messages of every field shape",
  "Bugs need a particular order of operations (drain then set, mutate after take, unknown then set); tests run a few short scripts.",
  [D+'mod.rs',D+'fields.rs'],[("DynamicMessageFieldSet",D+"fields.rs"),("DynamicMessage accessors",D+"mod.rs")],
  "field set of a dynamic message","accessors and iterators of DynamicMessage")
p("M02","At most one member of a oneof is ever set",
  "After any history of accessor operations, decoding, merging, JSON parsing or text parsing, at most one field of each oneof is set, it is the one most recently written, and writing a member clears the others without touching fields outside the oneof. Proto3 optional fields never interfere with each other.",
  ["histories","inputs"],"every history mixing all ways of writing a field, over every oneof shape",
  "The invariant must survive every route by which a value can be written, in every order.",
  [D+'fields.rs',D+'message.rs',D+'serde/de/kind.rs',D+'text_format/parse/mod.rs'],[("clear_oneof_fields",D+"fields.rs"),("oneof checks in the JSON and text parsers",D+"serde/de/mod.rs")],
  "field set of a dynamic message","has_field, fields, encode")
p("M03","Presence, defaults and serialized fields agree",
  "A field is reported as set exactly when it is encoded to the wire and shown by default JSON and text output: fields with presence once stored even if default-valued, fields without presence only when different from their default, lists and maps only when non-empty. Reading an unset field yields its declared or kind default and never makes it set.",
  ["histories","programs"],"every field shape (proto2, proto3, optional, required, oneof, repeated, map, extension) and every value",
  "Depends on the product of syntax, label, oneof membership, kind, default and stored value, over all serializers.",
  [D+'fields.rs',D+'mod.rs',DE+'api.rs'],[("FieldDescriptorLike::has / is_default_value",D+"fields.rs"),("supports_presence, default_value",DE+"api.rs")],
  None,"has_field, get_field, encode, serialize, to_text_format")
p("M04","Checked setters store only values of the field's type",
  "A checked set succeeds exactly when the value fits the field: right scalar type, list for repeated, map with matching key and value types for maps, a message for message fields, and every element valid. On failure it names the problem and leaves the message exactly as it was, and the value-validity queries agree with it. A value or map key is seen unchanged through the typed view of its own type and through no other, and converts to a map key exactly when its type may be one.",
  ["inputs","histories"],"every pair of field shape and value, and every prior message state",
  "The cross product of field shapes and value shapes, including nested invalid elements, is far larger than the sampled cases.",
  [D+'mod.rs',D+'fields.rs'],[("try_set_field / Value::is_valid_for_field / is_valid",D+"mod.rs")],
  "field set of a dynamic message","try_set_field*, is_valid*, is_default*, as_*, into_map_key")
p("M05","Extensions behave like fields once registered",
  "Any extension known to the pool is found from its extendee by number, by full name and by JSON name, and can be set, read, cleared, encoded, decoded, merged and printed like a declared field, keeping the declared kind, packing and default. Extensions of one message are never visible on another.",
  ["histories","programs","inputs"],"every extension declaration (scope, kind, cardinality) in every pool, and every message using it",
  "Needs pools with several extendees and extension scopes, added in several orders, crossed with all serializers.",
  [DE+'api.rs',D+'fields.rs',D+'message.rs',B+'names.rs',B+'resolve.rs'],[("MessageDescriptor::get_extension*",DE+"api.rs"),("merge_field extension lookup",D+"message.rs")],
  None,"get_extension*, extension accessors, encode/decode/JSON/text")
p("J01","JSON round trip of dynamic messages",
  "Serializing a dynamic message to JSON with any combination of options either reports that it has no JSON form or succeeds; deserializing the result with the same message type gives back the same field values, except for content JSON cannot carry: unknown fields, explicit list or map emptiness, and the presence of fields emitted only because defaults were requested.",
  ["inputs","programs","configurations"],"every message whose content has a JSON form, every option combination, all well-known types",
  "Ranges over all values (64-bit limits, non-finite floats, escapes, nested Any/Struct), all field shapes and all option combinations.",
  [D+'serde/ser/mod.rs',D+'serde/ser/wkt.rs',D+'serde/de/mod.rs',D+'serde/de/kind.rs',D+'serde/de/wkt.rs'],[("Serialize for DynamicMessage",D+"serde/ser/mod.rs"),("deserialize_message",D+"serde/de/mod.rs")],
  None,"serialize_with_options, deserialize_with_options")
p("J02","JSON output is the canonical proto3 JSON mapping",
  "JSON output uses exactly the representation of the proto3 JSON mapping for each kind (64-bit integers as strings, bytes as base64, enums by name with unknown numbers kept as numbers, non-finite floats as strings, maps as objects, extensions in bracketed names) under the field's JSON name. Each serializer option changes exactly what it documents: number form of 64-bit integers, enum numbers, original field names, inclusion of default-valued fields without presence.",
  ["inputs","programs","configurations"],"every message of every type under all option combinations",
  "A round trip cannot detect a wrong but self-consistent representation; other implementations would.",
  [D+'serde/ser/mod.rs',D+'serde/mod.rs'],[("SerializeOptions",D+"serde/mod.rs"),("SerializeWrapper impls",D+"serde/ser/mod.rs")],
  None,"serialize_with_options")
p("J03","JSON input is accepted exactly when the mapping allows it",
  "Deserializing a JSON document succeeds exactly when every member is permitted for its field: known JSON or original name (unknown ones only if the option allows), value type and range right for the kind, integers as numbers or strings, exact integral floats, enum names or numbers, standard or URL-safe base64, null meaning unset, no two members of a oneof. On success the stored values are those written, independent of member order.",
  ["inputs","programs","configurations"],"every JSON document, message type and deserializer option",
  "Accept/reject behaviour at every boundary for every kind cannot be sampled by hand-picked documents.",
  [D+'serde/de/mod.rs',D+'serde/de/kind.rs',D+'serde/mod.rs'],[("MessageVisitor / KindSeed visitors",D+"serde/de/kind.rs"),("DeserializeOptions",D+"serde/mod.rs")],
  None,"deserialize_with_options")
p("J04","Well-known types have their special JSON forms",
  "Timestamp, Duration, FieldMask, wrappers, Struct, Value, ListValue, Empty and Any are written in and read from their special JSON forms with the documented ranges and precision: 0, 3, 6 or 9 fractional digits, camel-case masks, wrapper value alone, plain JSON for structs, '@type' members for Any wherever they appear in the object. Values with no such form are rejected rather than written wrongly.",
  ["inputs"],"every value of each well-known type and every JSON document offered for one",
  "Calendar arithmetic, ranges, sign rules, fractions and member orders are unbounded input spaces.",
  [D+'serde/ser/wkt.rs',D+'serde/de/wkt.rs',D+'serde/case.rs',D+'serde/mod.rs'],[("get_well_known_type_serializer",D+"serde/ser/wkt.rs"),("get_well_known_type_deserializer",D+"serde/de/wkt.rs"),("snake/camel case",D+"serde/case.rs")],
  None,"serialize/deserialize of well-known types")
p("T01","Text format round trip of dynamic messages",
  "Formatting any dynamic message in text format, with any combination of pretty printing, field order, default inclusion and Any expansion, and parsing the result with the same type gives back the same field values, except unknown fields and explicit emptiness or default values. Strings and bytes of any content, extreme integers, non-finite floats, groups, extensions and maps included.",
  ["inputs","programs","configurations"],"every message of every type and every formatting option combination",
  "Escaping, number forms and separators interact with all values and options.",
  [D+'text_format/format.rs',D+'text_format/parse/mod.rs',D+'text_format/parse/lex.rs',D+'mod.rs'],[("Writer",D+"text_format/format.rs"),("Parser",D+"text_format/parse/mod.rs"),("fmt_string escaping",D+"mod.rs")],
  None,"to_text_format_with_options, parse_text_format")
p("T02","Text input is accepted exactly when the grammar allows it",
  "Parsing text format accepts every spelling the grammar allows (comments, separators, decimal, octal and hex integers, float suffixes, all string escapes and adjacent strings, angle or curly messages, list shorthand, boolean and enum spellings, group and extension and Any names) with its prescribed value. It rejects everything else: out-of-range numbers, unknown or repeated singular fields, two members of a oneof, malformed tokens.",
  ["inputs","programs"],"every text and every message type",
  "The set of spellings is infinite and tests list a few of each.",
  [D+'text_format/parse/mod.rs',D+'text_format/parse/lex.rs'],[("Token lexer",D+"text_format/parse/lex.rs"),("Parser",D+"text_format/parse/mod.rs")],
  None,"parse_text_format")
p("T03","Text output shows exactly what the message holds",
  "Text output lists each set field once per element under its name (message name for groups, bracketed full name for extensions), with enum names and unknown fields, defaults, field order, layout and Any expansion exactly as the options say. Unknown fields are shown with their number and payload when requested and omitted otherwise.",
  ["inputs","configurations"],"every message and every formatting option combination",
  "Combinations of nested messages, unknown fields and five options are not enumerable by hand.",
  [D+'text_format/format.rs',D+'text_format/mod.rs',D+'fields.rs'],[("Writer",D+"text_format/format.rs"),("FormatOptions",D+"text_format/mod.rs")],
  None,"to_text_format_with_options, Display of Value")
p("R01","No input makes a decoder panic",
  "Whatever bytes or text are given to the wire, JSON, text-format or descriptor-set decoders, and whatever file descriptors are added to a pool, the call returns a value or an error; it does not panic (inputs nested beyond the wire decoder's recursion limit excepted). A pool or message obtained successfully can then be inspected, printed and re-encoded without panicking.",
  ["inputs"],"every input to every decoding entry point",
  "Robustness is a universal claim over malformed inputs; tests list known bad ones.",
  [D+'message.rs',D+'serde/de/wkt.rs',D+'text_format/parse/lex.rs',B+'names.rs',B+'resolve.rs',B+'options.rs'],[("wire, JSON and text decoders",D),("pool building",B)],
  None,"all decode and add entry points")
p("D01","A failed addition leaves the descriptor pool unchanged",
  "If adding one or more files fails for any reason, the pool is observably the same as before: same files, messages, enums, services, extensions, names and numbers, with every existing type still usable. The same or corrected files can be added afterwards with the result they would have had on a fresh copy of the pool.",
  ["histories","fault_sequences"],"every history of additions in which some fail, at any validation stage and any position within a batch",
  "Needs failures at each stage, at each position of a batch, on pools with prior content, followed by further use.",
  [B+'mod.rs',B+'names.rs',B+'resolve.rs',DE+'mod.rs'],[("build_files / rollback",B+"mod.rs")],
  "tables of the descriptor pool","all listing and lookup functions of the pool")
p("D02","Pool contents do not depend on how files were delivered",
  "Adding a set of files one at a time, in batches, as decoded bytes or as structures, in any dependency-respecting order, or again after they are already present, gives pools with the same definitions and descriptor facts. Adding identical files again changes nothing, and a different file under an existing name is handled by the documented rule of the entry point used.",
  ["histories"],"every file set and every delivery schedule of it",
  "Equivalence over all partitions and orders of additions; tests add files in one way.",
  [DE+'api.rs',B+'mod.rs',DE+'global.rs'],[("add_file_descriptor_* / decode_file_descriptor_* / build_files",DE+"api.rs")],
  "tables of the descriptor pool","all listing and lookup functions of the pool")
p("D03","Pools are isolated values and handles stay valid",
  "Cloning a pool and then adding to either copy never changes the other. Descriptors and dynamic messages obtained before an addition keep reporting the same facts after it, and growing the process-wide pool never changes a snapshot taken earlier.",
  ["histories"],"every history of clone, add, lookup and drop over several pool copies, including the process-wide one",
  "Sharing bugs appear only for particular interleavings of clone and add.",
  [DE+'api.rs',DE+'mod.rs',DE+'global.rs',B+'mod.rs'],[("Arc copy-on-write in build_files",B+"mod.rs"),("DescriptorPool::global",DE+"global.rs")],
  "shared pool tables","descriptors held across additions")
p("D04","Type names resolve by protobuf scoping and import visibility",
  "A type name written in a file resolves as protobuf prescribes: absolute names as given, relative names in the innermost enclosing scope that defines their first component, only to definitions in the file itself, its direct imports, or files those publicly import at any depth. Names that resolve to nothing visible, to a non-type where a type is required, or that are shadowed by an inner scope are rejected.",
  ["programs"],"every arrangement of packages, nesting, imports and references",
  "The space of scope and import graphs is combinatorial; wrong answers need several files with clashing names.",
  [B+'resolve.rs',B+'mod.rs'],[("resolve_relative_name / resolve_name",B+"mod.rs"),("resolve_public_dependencies",B+"resolve.rs")],
  None,"kind, input/output and extendee of descriptors, or the error")
p("D05","Invalid schemas are rejected, valid ones accepted",
  "A file is accepted exactly when it satisfies the rules the library enforces: required names present, no duplicate full name, field number, JSON name, enum number (without alias) or import, numbers in range and outside reserved and extension ranges, extension numbers declared, imports known, indices valid, proto3 enums starting at zero, defaults of the field's type. No valid file is refused and no file breaking a rule is let in, wherever in the file the breach occurs.",
  ["programs"],"every file descriptor, including breaches deep in nested messages and across files",
  "Each rule must hold at every nesting level and for every boundary value, in combination.",
  [B+'names.rs',B+'resolve.rs',B+'mod.rs',DE+'error.rs'],[("NameVisitor",B+"names.rs"),("ResolveVisitor",B+"resolve.rs")],
  None,"Result of adding files")
p("D06","Descriptor facts agree with the schema",
  "Every definition in an accepted file is reachable by full name and by iteration exactly once, and reports the facts its schema states: short and full name, package, file, parent, path, number, JSON name (given or derived), kind, cardinality, packing, presence, default value, oneof membership, map entry types, reserved and extension ranges, enum values, service methods with their types and streaming flags. Lookups by number, name and JSON name agree with iteration, and unknown names or numbers find nothing.",
  ["programs"],"every accepted schema, at every nesting level",
  "The facts form a large product over all schema shapes; tests inspect a few definitions.",
  [DE+'api.rs',B+'names.rs',B+'resolve.rs',DE+'types.rs'],[("descriptor accessors",DE+"api.rs"),("descriptor table construction",B+"names.rs")],
  "tables of the descriptor pool","all accessors of descriptors")
p("D07","Descriptor pools re-encode without loss, options included",
  "Encoding a pool, or one of its files, and decoding the bytes gives the same files, including custom options whose extensions the pool may not know. Options read back from any descriptor are exactly those its file carries, and options still in source form are resolved to the same values as if they had been written as extension fields.",
  ["programs","inputs"],"every accepted file set, every kind of option holder and option value",
  "Custom options are unknown to the fixed option types, so loss shows only for particular option shapes on particular holders.",
  [DE+'api.rs',DE+'types.rs',B+'options.rs'],[("Options raw bytes",DE+"types.rs"),("resolve_options",B+"options.rs"),("DescriptorPool::encode",DE+"api.rs")],
  None,"encode, options(), file_descriptor_proto")
p("D08","A refused addition is reported at the breach",
  "When adding files is refused, the error names a file of that addition and the path of a definition part in it where a rule is actually broken: of two clashing definitions the later one, of a reference the referring part, of an option the option itself. The line and column it gives are those the file's own source locations record for that path, and none if they record none; breaches without a place (a file given twice, an index outside its list) name no place at all.",
  ["programs","inputs"],"every refused batch, every rule broken at every place, with and without source locations",
  "Tests look at the text of a few errors; the place is right only if every rule at every nesting level builds its path correctly.",
  [DE+'error.rs',B+'names.rs',B+'resolve.rs',B+'options.rs',B+'visit.rs'],[("Label",DE+"error.rs"),("NameVisitor",B+"names.rs"),("ResolveVisitor",B+"resolve.rs")],
  None,"DescriptorError::file, path, line, column")
p("G01","Concurrent use of the process-wide pool is atomic",
  "Threads reading and extending the process-wide pool concurrently see each successful addition as one atomic step: a snapshot contains whole batches only, later snapshots contain everything earlier ones did, an addition that returned is visible to every later snapshot, and a failed or repeated addition changes nothing.",
  ["schedules"],"every interleaving of snapshots, successful, failing and repeated additions from several threads",
  "Races and lost updates need particular interleavings.",
  [DE+'global.rs',B+'mod.rs'],[("global pool mutex and initialisation",DE+"global.rs")],
  "process-wide pool","DescriptorPool::global, decode_global_file_descriptor_set, add_global_file_descriptor_proto")
p("X01","Transcoding between generated and dynamic messages loses nothing",
  "Converting a generated message to a dynamic one and back gives an equal generated message, and its dynamic form has exactly the fields, values and descriptor the generated type declares. Derived reflection and the build helper attach to every generated message, nested ones included, the descriptor of its own full name.",
  ["inputs","programs"],"every value of the generated and well-known types, every proto file given to the build helper",
  "All values of all generated types; nested and oddly named messages in generated code.",
  ['prost-reflect-derive/src/lib.rs','prost-reflect-build/src/lib.rs',R+'reflect/mod.rs',R+'reflect/wkt.rs',D+'mod.rs'],[("transcode_from/transcode_to",D+"mod.rs"),("ReflectMessage derive","prost-reflect-derive/src/lib.rs"),("Builder::configure","prost-reflect-build/src/lib.rs")],
  None,"transcode_to_dynamic, transcode_to, descriptor()")

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
