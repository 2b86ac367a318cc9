#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json. The text of every property lives here once."""
import json, os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)

BP = "src/binary_parser/mod.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or ["nrbf::RemotingMessage::parse"]))


TRUST = ("Bounded search: everything explored held; inputs outside the generators' reach are not covered. Trusts the "
         "harness's generator, its reference decoder and its model of values, which were written from MS-NRBF and share no "
         "code with the crate.")

prop("C01", "Untrusted bytes never make the parser panic, abort or hang",
     "For every byte string, parsing it and deserializing it into any type comes to an end with either a value or an error; "
     "it never panics, overflows, aborts the process or loops, as long as objects are nested no more than a few hundred "
     "levels deep. Every resulting message and error can be printed, cloned, compared and dropped without panicking, and "
     "every error has a text which is not empty.",
     ["inputs"], "every byte string: valid messages, damaged messages, sequences of arbitrary record fragments, random bytes, "
     "all prefixes and all single-byte changes of small messages; every target type",
     "The tests parse about twenty well-formed messages; a panic needs a particular malformed length, count, ID or cut.",
     [BP, "src/record/", "src/common/", "src/data_type/", "src/value/"],
     [("checked conversions of counts and IDs, errors instead of panics", "src/combinator.rs, src/common/, src/record/"),
      ("resolution of references and reshaping of arrays", BP)],
     "structured and mutational fuzzing, exhaustive single-byte changes", TRUST +
     " Deep nesting (about 100000 levels) overflows the stack: known finding K1.",
     ["nrbf::RemotingMessage::parse", "nrbf::from_slice"])

prop("C02", "Memory and work of parsing are bounded by the size of the message",
     "The memory needed while parsing is at most a constant plus a constant times the length of the message and the number of "
     "nulls its null runs really contribute, and none of it is kept once the result is dropped; a count or length which the bytes "
     "do not back up never leads to an allocation of that size. For messages of n similar records the bytes allocated, the number of allocations and the "
     "instructions executed grow linearly with n, whatever the kind of record.",
     ["inputs"], "every message, in particular those with wrong, huge or overflowing counts, and families of messages of "
     "growing size for each kind of record",
     "No test measures anything; a quadratic step or a trusted count needs large or hostile messages.",
     [BP, "src/record/array_single_object.rs", "src/record/binary_array.rs", "src/common/class_info.rs"],
     [("elements are read one by one and null runs are checked against the missing elements", BP),
      ("rectangular arrays are split by moving their elements", BP)],
     "property-based testing with a counting allocator, and instruction counts under callgrind", TRUST +
     " Limits: 512 KiB plus 1 KiB per byte or null; factor 6.5 from n to 4n.")

prop("C03", "A message is accepted only as a whole, from its header to its end",
     "Parsing accepts only messages which start with a stream header of version 1.0 and a root ID which is not negative, go on "
     "with complete records, and finish with an end record after which there is nothing; every proper prefix and every "
     "extension of an accepted message is rejected, as is any other record kind or order at the top level. The value of the "
     "message is the object or string whose ID the header names, wherever it is among the records, null if the header "
     "names ID zero, and an error if no such object exists; the header ID has no influence.",
     ["inputs"], "every message, every prefix, every suffix, every change of the header, of record kinds and of their order",
     "Every test message is complete, has the root first and nothing after the end.",
     [BP, "src/record/serialization_header.rs", "src/record/message_end.rs"],
     [("header checks", "src/record/serialization_header.rs"),
      ("end record, trailing data, choice of the root", BP + " deserialize")],
     "property-based testing against a reference decoder; all prefixes", TRUST)

prop("C04", "Primitive values are read bit for bit in every position",
     "Every value of each of the fifteen primitive types is read back exactly as it was written, bit for bit (including "
     "all NaNs, negative zero and extreme values), in every place a primitive may occur: typed and untyped members of objects, "
     "elements of primitive arrays and binary arrays of any shape, typed values in object arrays, and method arguments "
     "and return values. Booleans other than 0 and 1, characters which are not exactly one UTF-8 encoded scalar value, text "
     "which is not a number where a decimal is expected, unknown type codes and values cut short are rejected.",
     ["inputs"], "every value of each primitive type (all values of the 8- and 16-bit types and all Unicode characters "
     "exhaustively), every position",
     "The tests contain one or two values per type in one or two places, mostly small.",
     ["src/data_type/", "src/enumeration.rs", BP, "src/record/member_primitive_typed.rs", "src/record/member_primitive_untyped.rs"],
     [("one parser per primitive type, little endian", "src/data_type/"),
      ("dispatch on the type code", "src/record/member_primitive_untyped.rs, src/record/value_with_code.rs")],
     "exhaustive enumeration and property-based round trips", TRUST)

prop("C05", "Strings are read exactly, whatever the encoding of their length",
     "Every UTF-8 string, of any length and content, is read back unchanged wherever a string occurs (string objects, "
     "elements, class, member and library names, method names, arguments), with its length in one to five bytes, minimal or "
     "padded. All strings of a parsed message are slices of the input itself, not copies. Lengths above 31 bits, lengths "
     "beyond the end of the input and text which is not UTF-8 are rejected.",
     ["inputs"], "every string, every length up to several hundred thousand around all boundaries of the length encoding, "
     "every encoding of the length, every position, every ill-formed UTF-8 sequence",
     "The tests use short ASCII strings with a one-byte length, and one of two bytes.",
     ["src/data_type/length_prefixed_string.rs", "src/record/string_value_with_code.rs", "src/record/binary_object_string.rs"],
     [("variable-length length and UTF-8 check", "src/data_type/length_prefixed_string.rs")],
     "exhaustive length boundaries and property-based round trips", TRUST)

prop("C06", "Objects keep their class, library and members, typed or not",
     "An object comes out with exactly the class name, library name (or none for a system class) and members it was "
     "written with: every member name is paired with its own value, whatever the number, order and types of the members. "
     "This holds for all four kinds of class records, for members which are primitives, strings, nulls, references, or "
     "further objects written in place, nested in any way, and for objects anywhere in the message.",
     ["inputs"], "every object graph within the generator's bounds, every kind of class record and member type",
     "Two test messages contain one class each.",
     ["src/record/class_with_members.rs", "src/record/class_with_members_and_types.rs", "src/record/system_class_with_members.rs",
      "src/record/system_class_with_members_and_types.rs", "src/common/class_info.rs", "src/common/member_type_info.rs", BP],
     [("member names and types are read in order and zipped with the values", "src/common/, " + BP)],
     "property-based testing: generated message and expected value built side by side", TRUST)

prop("C07", "Objects that reuse the metadata of an earlier class are read like it",
     "An object which names an earlier class object as the source of its metadata is read with the class name, the library, "
     "the member names, the member order and the declared member types of that class, and with its own values; any number of "
     "objects can share metadata, also from within the object which defined it. A metadata ID which names no earlier "
     "class object, or the object itself, is rejected.",
     ["inputs", "histories"], "every sequence of class definitions and reuses, at the top level, in arrays, in members, "
     "nested and interleaved with other classes",
     "No test message contains such an object.",
     ["src/record/class_with_id.rs", BP],
     [("table of classes by object ID", BP + " parse_classes, class_with_id")],
     "property-based testing of definition and reuse histories", TRUST)

prop("C08", "Every reference resolves to exactly the object or string it names",
     "A reference in a member or element stands for the object, array or string which has that ID, no matter whether it is "
     "defined before or after the reference (in depth-first order), how many other objects there are, which values the "
     "IDs have, and how deep the referring object is; a string may be referenced any number of times. A "
     "reference whose ID belongs to nothing in the message is rejected.",
     ["inputs", "histories"], "every order of definitions and references within the generator's bounds: chains, fans, "
     "mixed backward and forward references, shared strings, arbitrary positive IDs",
     "The tests have a few forward references to single strings or arrays.",
     [BP, "src/record/member_reference.rs"],
     [("table of objects and strings by ID, forward references read on demand", BP + " resolve_member_reference")],
     "property-based testing of reference histories", TRUST +
     " Forward references in another than depth-first order and repeated references to objects that are not strings: "
     "known findings K2 and K3.")

prop("C09", "Arrays keep their elements, order and shape",
     "Every array comes out with exactly its elements in their order: object, string and primitive arrays, and binary arrays "
     "(single, jagged and rectangular, with and without lower bounds, of every element type). A rectangular array of "
     "lengths n1 to nk becomes nested arrays of these lengths in row-major order, a jagged one an array of its inner "
     "arrays; lower bounds, also negative ones, change nothing.",
     ["inputs"], "every kind and element type of array, every rank up to 8 and every combination of lengths within the "
     "bounds, any lower bounds",
     "The tests contain one array per kind, of rank at most two and a handful of elements.",
     [BP, "src/record/array_single_object.rs", "src/record/array_single_primitive.rs", "src/record/array_single_string.rs",
      "src/record/binary_array.rs"],
     [("number of elements is the product of the lengths", BP), ("rectangular arrays are split by the lengths", BP)],
     "exhaustive small shapes and property-based testing", TRUST +
     " Rectangular arrays with a length of zero after the first: known finding K5.")

prop("C10", "Null runs stand for exactly their number of elements",
     "A null record, a run of up to 255 nulls and a run of up to 2^31-1 nulls each stand for exactly the number of null "
     "elements they state, in object, string and binary arrays alike, and in any mixture with other elements, so that "
     "every way of writing the same array gives the same value. A run of zero or a negative number, a run which "
     "goes beyond the end of the array, and a run of more than one in place of a single member are rejected.",
     ["inputs"], "every array with nulls, every way to write its nulls, every wrong count",
     "Two test messages contain one short run each.",
     ["src/record/object_null.rs", "src/record/object_null_multiple.rs", "src/record/object_null_multiple_256.rs", BP],
     [("runs are compared with the missing elements and expanded", BP)],
     "metamorphic property-based testing: equal arrays written differently", TRUST)

prop("C11", "Library classes always get the library which they name",
     "A class of a library comes out with the name of the library whose ID it states, whether the library was "
     "defined right before it, earlier in the message, before a member or element, or before an array; unused libraries change "
     "nothing, and several libraries never get mixed up. A class, a member type or an element type with a library ID "
     "which is not defined is rejected, as are library IDs which are not positive or which are defined twice.",
     ["inputs", "histories"], "every history of library definitions and uses within the generator's bounds, arbitrary IDs and "
     "names, every wrong ID",
     "Only two test messages have a library, with one class.",
     ["src/record/binary_library.rs", BP],
     [("table of libraries by ID", BP + " parse_binary_library")],
     "property-based testing and mutation against a reference decoder", TRUST)

prop("C12", "Values have to fit the type which a member or element declares",
     "For members of typed classes and elements of binary arrays the declared type decides which records are accepted: raw "
     "primitives of the declared type, strings for strings, anything for objects, objects of exactly the declared class "
     "and library, and references or nulls for everything but primitives. An object written in place which is of another class or "
     "library, a string or typed primitive in place of an object of a declared class, and any other record which cannot be of the declared "
     "type are rejected; a declared type never changes the value.",
     ["inputs"], "every pair of a declared type and a supplied record, exhaustively, in members and elements; random types "
     "and values",
     "The tests use matching types only.",
     [BP, "src/common/member_type_info.rs", "src/common/additional_type_info.rs"],
     [("member parser selected by the declared type, comparison of class and library", BP + " parse_member")],
     "exhaustive pairs and property-based testing against a reference decoder", TRUST)

prop("C13", "Method calls keep their name, type, context and arguments",
     "A method call comes out with exactly the method name, the type name, the call context (if it is written in place) and the "
     "arguments it was written with, in their order: none, arguments in place, a call array which is the argument list, or "
     "an argument list as the first item of a call array. Values in place keep their type and value, including null "
     "and strings, and records before and after the call record do not change the result.",
     ["inputs"], "every combination of the flags of a call, any arguments, surrounding records",
     "One test message holds one call.",
     ["src/record/binary_method_call.rs", "src/record/array_of_value_with_code.rs", "src/record/value_with_code.rs", BP],
     [("parts present by flags", "src/record/binary_method_call.rs"), ("arguments from the call array", BP + " deserialize")],
     "property-based testing: generated call and expected result built side by side", TRUST)

prop("C14", "Method returns keep their return value, context and arguments",
     "A method return comes out with exactly the return value (if it is written in place), the call context (if it is written in place) "
     "and the output arguments it was written with: none, in place, a call array which is the argument list, or an "
     "argument list as the first item of a call array. A return value of null is kept apart from no return value, and "
     "records before and after the return record do not change the result.",
     ["inputs"], "every combination of the flags of a return, any values, surrounding records",
     "One test message holds one return.",
     ["src/record/binary_method_return.rs", "src/record/array_of_value_with_code.rs", "src/record/value_with_code.rs", BP],
     [("parts present by flags", "src/record/binary_method_return.rs"), ("arguments from the call array", BP + " deserialize")],
     "property-based testing: generated return and expected result built side by side", TRUST +
     " A return value in the call array is dropped: known finding K4.")

prop("C15", "Method messages with contradictory flags are rejected, others accepted",
     "A method call or return is rejected if its flags name more than one way to pass arguments, more than one kind of call "
     "context or more than one kind of return value, or combine a return value with an exception, arguments with an exception, or "
     "a method signature with a return value or an exception. Each of the other combinations that makes sense for "
     "the record is accepted, if the parts which the flags announce follow, and decides which parts are read.",
     ["inputs"], "all 65536 combinations of the defined flags, for calls and returns, with the parts they announce; exhaustive",
     "The tests use three combinations of flags.",
     ["src/record/message_flags.rs", "src/enumeration.rs", "src/record/binary_method_call.rs", "src/record/binary_method_return.rs"],
     [("validation of flag categories", "src/enumeration.rs or src/record/message_flags.rs")],
     "exhaustive enumeration of flags against a reference decoder", TRUST)

prop("C16", "Out-of-range IDs and counts are rejected wherever they occur",
     "A negative length, rank or count, an ID of zero, a negative ID of anything but a class object, a reference which is not "
     "positive, an ID which two class objects share, an unknown code for a type, array kind or record, and a count which does not match the data are "
     "rejected in every record in which they can occur. All other values of these fields are accepted as far as the rest of the message agrees "
     "with them, including the extreme ones.",
     ["inputs"], "every ID, count, length and code field of generated messages, replaced by boundary, neighbouring and random "
     "values",
     "The tests contain no malformed message with a wrong ID or count except in a few unit tests of single records.",
     ["src/combinator.rs", "src/common/", "src/record/", "src/enumeration.rs", BP],
     [("checked IDs and lengths", "src/combinator.rs"), ("codes", "src/enumeration.rs")],
     "field-directed mutation against a reference decoder", TRUST)

serde = ["nrbf::from_slice", "serde::Deserializer for nrbf::RemotingMessage"]

prop("C17", "Deserializing dynamically shows every value as it is",
     "A target type which accepts anything sees each value of a message as the serde value of the same kind: every primitive "
     "with its own type and value (time spans and date-times as 64-bit integers, decimals as text), strings "
     "borrowed from the input, null as unit, arrays as sequences with all elements in order, and objects as maps of all "
     "members with borrowed names, apart from boxed primitives and lists. Deserializing from bytes and from a parsed message "
     "give the same, whichever kind of number, text, sequence or map is asked for, and members nobody looks at can always be skipped.",
     ["inputs"], "every value within the bounds of the generators, in every position",
     "The tests deserialize about twenty values into matching types.",
     ["src/value/mod.rs", "src/value/object.rs", "src/remoting_message.rs", "src/lib.rs"],
     [("one visitor call per kind of value", "src/value/mod.rs")],
     "property-based testing with a recording visitor against a model", TRUST, serde)

prop("C18", "Structs and maps get exactly the members of an object",
     "Deserializing an object into a struct fills each field from the member of that name, ignores members the struct does not "
     "have, leaves optional fields empty if their member is missing, and fails if a required one is missing or a value "
     "does not fit; into a map it gives one entry per member. A struct always sees the members themselves, also those of a boxed primitive "
     "or list; an object with a library, or of any class which is not special, can be read as map and struct alike, however deep it is.",
     ["inputs"], "every pair of a generated object graph and a generated target type which fits, nearly fits or does not fit; "
     "derived types with borrowing, renaming, defaults, flattening and denied fields",
     "One test deserializes one object into one struct.",
     ["src/value/object.rs", "src/value/mod.rs"],
     [("map access over the members", "src/value/object.rs")],
     "property-based testing of random shapes against a model; derived types", TRUST, serde)

prop("C19", "Boxed primitives and lists are unwrapped, defective ones are errors",
     "An object without library of class System.Boolean, Byte, SByte, Char, Double, Single or (U)Int16/32/64 whose only "
     "member is m_value of that type deserializes as that primitive, and one of class System.Collections.Generic.List with "
     "exactly the members _items, _size and _version (also with generic arguments after a backtick) as the sequence of "
     "its first _size items. If such an object has missing, extra or wrongly typed members, or a negative size or one beyond its items, "
     "deserializing it that way fails; objects of any other class name or with a library are never treated so.",
     ["inputs"], "every boxed type and value, every list size and capacity, every defect, in every position and into every "
     "fitting and unfitting target",
     "The tests have one list and one boxed value per type.",
     ["src/value/object.rs", "src/data_type/mod.rs"],
     [("class name before the backtick selects the special treatment", "src/value/object.rs"),
      ("a single member m_value", "src/data_type/mod.rs")],
     "exhaustive sizes and property-based testing against a model", TRUST, serde)

prop("C20", "Options, nulls and lengths of sequences are exact",
     "Null deserializes as None or unit and as nothing else; any other value deserializes into an option as Some of what it gives "
     "without the option, at the root as well as inside. A tuple, fixed-size array or visitor which takes k items succeeds on an "
     "array or list of exactly k items, and fails on fewer and on more items instead of dropping or inventing any; the error for more items states both numbers.",
     ["inputs"], "all lengths up to 15 against all tuple sizes up to 15, for arrays and lists, in every position; random values "
     "into optional targets",
     "The tests have two options and one tuple of matching length.",
     ["src/value/mod.rs", "src/value/object.rs", "src/remoting_message.rs"],
     [("remaining items are counted after the visitor", "src/value/mod.rs, src/value/object.rs"),
      ("null is none", "src/value/mod.rs")],
     "exhaustive lengths and property-based testing against a model", TRUST, serde)

prop("C21", "Numbers deserialize without any change of value",
     "An integer of any type, boxed or not, a time span or a date-time deserializes into any integer type which can hold its value as the same "
     "number, and fails for any other integer type; a single deserializes into a double without a change. Floating point numbers never "
     "deserialize into integers, and Booleans, characters, decimals and strings never into numbers.",
     ["inputs"], "all values of the 8- and 16-bit types, boundaries and random values of the others, into all numeric types",
     "Each test deserializes one number into its own type.",
     ["src/value/mod.rs", "src/data_type/mod.rs"],
     [("each value is visited with its own type", "src/value/mod.rs")],
     "exhaustive enumeration and property-based testing", TRUST, serde)

prop("C22", "What is not a valid value message never deserializes",
     "Deserializing a method call or a method return, into whatever type, is an error which says that it is a method call or a "
     "method return. Deserializing bytes which cannot be parsed is an error whose text contains the text of the parser's error.",
     ["inputs"], "every method message and every malformed message within the generators' reach, every target type",
     "No test deserializes a method message or a malformed message.",
     ["src/remoting_message.rs", "src/lib.rs"],
     [("method messages are of an invalid type", "src/remoting_message.rs"), ("parse errors are passed on", "src/lib.rs")],
     "property-based testing", TRUST, serde)

prop("C23", "The error for a single fault names that fault",
     "The error for a message with a single fault states its cause: invalid root ID, versions, missing header, missing root, "
     "trailing data, wrong null counts, object and library IDs which are invalid, duplicate or missing, metadata IDs which are invalid or missing, lengths, codes of types and "
     "array kinds, primitives which cannot be read, unexpected classes, flags, call arrays and arguments, or a missing end. "
     "What surrounds the fault does not matter.",
     ["inputs"], "faults in every record and field in any surroundings; forty kinds of single faults with random contents after random well-formed records",
     "No test looks at the error of a whole message.",
     ["src/error.rs", "src/combinator.rs", BP],
     [("errors are failures which end parsing at their cause", "src/combinator.rs, src/error.rs")],
     "property-based fault injection", TRUST + " Faults inside objects written in place of a member of a declared class are "
     "reported as a missing end by design of the grammar and are not claimed.")

prop("C24", "Date-times, time spans and decimals report exactly what was written",
     "The ticks of a date-time are its lower 62 bits and its kind is UTC for 1, local for 2 and none for 0 in its upper two "
     "bits, the value of a time span is the written number, and both deserialize as the raw 64-bit number. A decimal written the "
     "way .NET does keeps every digit, its sign and its scale, up to the largest decimal, and decimals are equal exactly if their numbers are.",
     ["inputs"], "every single bit and pair of bits of the 64-bit numbers and their complements, limits, random numbers; every "
     "number of digits and scale",
     "The tests contain no date-time, time span or decimal value at all.",
     ["src/value/date_time.rs", "src/value/time_span.rs", "src/value/decimal.rs", "src/data_type/datetime.rs",
      "src/data_type/timespan.rs", "src/data_type/decimal.rs"],
     [("bit fields of a date-time", "src/value/date_time.rs")],
     "exhaustive bit patterns and property-based testing", TRUST + " The kind bits 3 are not claimed.",
     ["nrbf::value::DateTime", "nrbf::value::TimeSpan", "nrbf::from_slice"])

prop("C25", "Parsing does not depend on the serde feature",
     "A build with the serde feature and one without it parse every byte string with the same result, the same value or the "
     "same error text.",
     ["inputs", "configurations"], "every byte string within the generators' reach, both settings of the feature",
     "The tests run with one setting of the feature at a time and compare nothing.",
     ["Cargo.toml", "src/lib.rs", "src/value/", "src/data_type/"],
     [("the feature only adds implementations", "src/value/, src/data_type/, src/remoting_message.rs")],
     "differential fuzzing of two builds", TRUST)

prop("C26", "The same value written differently parses to the same value",
     "Messages which denote the same value but differ in what is not part of it, like object and library IDs, the order of "
     "definitions, records before the root, inline or referenced objects and strings, kinds of class and array records, declared types, "
     "null runs, lower bounds, reuse of metadata and the encoding of lengths, parse to equal values.",
     ["inputs"], "every value within the generator's bounds and several random encodings of each",
     "Each test has one encoding of its value.",
     [BP, "src/record/", "src/common/"],
     [("the value has no trace of its encoding", BP)],
     "metamorphic testing with a second, independent encoder", TRUST)

prop("C27", "The parser agrees with an independent decoder of the format",
     "For every byte string whose meaning the format specification settles, the parser accepts it exactly if it is a well-formed message of the record grammar of "
     "MS-NRBF, and the result is the value, method call or method return that the message denotes.",
     ["inputs"], "every byte string within the reach of the generators, of mutation of generated messages and of random "
     "sequences of record fragments",
     "The tests compare twenty messages with hand-written values.",
     ["src/"],
     [("the whole parser", BP)],
     "differential fuzzing against a reference decoder", TRUST + " Where the specification is silent, or a known finding "
     "applies, the reference decoder gives no verdict; DESIGN.md lists these cases.")

prop("C28", "Parsing depends on nothing but the bytes",
     "Parsing the same bytes gives the same result each time: in any order with other messages, on any thread, at the same time as others, from any "
     "address, and whatever surrounds the bytes in memory; results of earlier parses never change, and equal messages "
     "compare equal.",
     ["inputs", "histories", "schedules"], "every history of up to 40 parses of up to 8 messages with results kept or dropped, "
     "in one or more threads",
     "Each test parses one message once.",
     ["src/"],
     [("a parser per call, no global state", "src/remoting_message.rs, " + BP)],
     "stateful property-based testing of parse histories", TRUST)

prop("C29", "Messages are equal exactly if they denote the same",
     "Two messages compare equal exactly if they are of the same kind and everything which their public fields and accessors show is the "
     "same: names, type, context, whether arguments and a return value are there, arguments in order, class, library, the set of members, elements in order, the type and "
     "value of each primitive (floats by IEEE). Equality is symmetric, `!=` is its opposite, a clone is equal to its original as long as "
     "no NaN is in it, and errors of different texts are not equal while those of the same bytes are.",
     ["inputs"], "every pair of messages which differ in one place, or in nothing but their encoding; names which are nearly the "
     "same",
     "The tests only compare for equality with what they expect; nothing checks that different messages are different.",
     ["src/remoting_message.rs", "src/value/mod.rs", "src/value/object.rs", "src/value/date_time.rs", "src/value/time_span.rs",
      "src/value/decimal.rs", "src/error.rs"],
     [("equality and cloning of the result types", "src/remoting_message.rs, src/value/, src/error.rs")],
     "metamorphic property-based testing with single changes", TRUST + " Decimals which differ only in their scale and date-times which "
     "differ only in kind bits which no accessor shows are not claimed.",
     ["nrbf::RemotingMessage", "nrbf::Value", "nrbf::Error"])

prop("C30", "What a target type reports reaches the caller unchanged",
     "When a target type, a seed or a visitor fails while a message is deserialized, at any depth and at any step, deserializing "
     "ends there with an error of the same text, from the bytes and from the parsed message alike, and the target is not asked for "
     "anything more. A value which does not fit its target gives the standard error of serde for what the value is and what "
     "was expected; a target which does not fail is served completely.",
     ["inputs", "fault_sequences"], "every value within the generator's bounds, a fault at every step of taking it (being asked, a value, a key, the end of a "
     "sequence or map), nine kinds of errors, every way of asking at each depth; every target type which does not fit",
     "The tests deserialize into types which fit; none looks at an error of a target.",
     ["src/value/mod.rs", "src/value/object.rs", "src/remoting_message.rs", "src/lib.rs"],
     [("errors of visitors are passed on", "src/value/mod.rs, src/value/object.rs")],
     "fault injection into target types; differential testing against a deserializer over the model", TRUST + " The texts of the crate's own errors (malformed "
     "boxes and lists, items which were not taken) are not claimed.",
     ["nrbf::from_slice", "nrbf::RemotingMessage (Deserializer)"])

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]

with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./run.sh build",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick ./run.sh check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "No hooks: every check uses the public interface of the crate. run.sh rebuilds the harness from /repo's "
                 "working tree whenever its contents change.",
    }, f, indent=1, ensure_ascii=False)
    f.write("\n")
