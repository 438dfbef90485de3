#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

p("C01", "A complete JSON value parses to exactly the tree it denotes",
  "Parsing any text that starts with a complete JSON value (possibly after whitespace) succeeds and yields a tree with that value's structure: the same kinds, the same members and elements in source order (duplicate keys kept), and every number, string and key with exactly its source spelling. The returned tail is exactly the text that follows the value. Parsing into a document that already holds values neither disturbs them nor is influenced by them.",
  ["inputs", "histories"], "every byte string with a complete JSON value as prefix, any nesting, any document the text is parsed into",
  "The tests parse a few dozen well-behaved texts and one benchmark corpus; inputs are unbounded (escape sequences before a closing quote, nesting shapes, whitespace placement, number delimiters) and the parser switches between several hand-optimised scanning loops.",
  ["parser.go", "document.go", "bytemaps.go"], [("pushdown scanner over the input string", "parser.go parseValue/parseArray/parseObject"), ("node and value slot allocation", "parser.go node/appendV")],
  ["Document.Parse result, tail and error", "Node.Type/Raw/Values/AppendJSON walk of the tree"])

p("C02", "Malformed text is rejected at the offending token, without side effects",
  "Text whose brackets, separators, object keys, literals or value starts break the JSON structure is always rejected with a parse error whose position is the offset of the first offending token (for a misspelled literal, where the literal starts) and whose type is the kind of value being read; neither a node nor a tail is returned. Number and string bodies are only delimited at this point and are not a reason for rejection. No byte string makes parsing panic or hang, and a rejected parse leaves every value already in the document unchanged.",
  ["inputs", "histories"], "every byte string that no continuation could turn into an accepted text, over any document contents",
  "About twenty malformed texts are tested; each (parser state, byte) pair is a separate rejection, at unbounded nesting, and nothing checks what an aborted parse leaves behind in a populated document.",
  ["parser.go", "error.go"], [("abort with position and type", "parser.go abort call sites"), ("parse works on spare slots and commits at the end", "parser.go Document.Parse")],
  ["error value: kind, Pos, Type", "serialization of pre-existing nodes after the failure"])

p("C03", "Input is reported incomplete exactly when more bytes could complete it",
  "Parsing reports unexpected end of input, giving back the whole input as the tail and no node, if and only if the text is not itself accepted but is a prefix of some text that is. Hence when a complete object, array, string or literal arrives in pieces and the accumulated text is re-parsed after each piece, every earlier cut reports incomplete and the last one yields the same tree as parsing it in one go. The error names the kind of value that was cut short.",
  ["inputs", "histories"], "every proper prefix of every acceptable text, every chunking of a text, re-parsed into the same document",
  "Tests hold about ten truncated texts; the guarantee is over every cut point of every text and over malformed text that must not be reported as merely incomplete.",
  ["parser.go", "error.go"], [("end-of-input returns in each scanner state", "parser.go eof call sites"), ("tail handed back on UnexpectedEOF", "parser.go Document.Parse")],
  ["error kind and tail of Parse for every cut of a text"])

p("C04", "Serialization is the exact compact form and a fixed point",
  "Serializing a parsed value appends, after whatever the given buffer already holds, exactly the source text without its insignificant whitespace. Parsing that output gives an equal tree, and serializing it again gives the same bytes. The node, document and writer forms produce the same bytes, and serializing an invalid reference reports an error and leaves the buffer's existing contents in place.",
  ["inputs", "histories"], "every accepted text, every node of its tree, every initial buffer content and capacity",
  "The tests compare a handful of texts into empty buffers; sub-nodes, non-empty buffers, empty containers and unusual number or string spellings are not sampled.",
  ["document.go", "node.go"], [("recursive append of the tree", "document.go appendJSON"), ("pooled buffer writer", "node.go PrintJSON")],
  ["Node.AppendJSON", "Document.AppendJSON", "PrintJSON"])

p("C05", "Lookups, iteration and conversion to Go values agree with the tree",
  "Getting a member by key (the first whose source spelling matches), an element by index, or a node by path (decimal positions for arrays) gives the very node that iterating the parent shows at that place, and a path gives the same as its single steps one after another; a missing key, a position that is out of range or not a decimal number, or a step below a scalar gives an empty reference that behaves as invalid. Iterating visits every child once, in order, with its key and position, and can be restarted or closed. Conversion to a plain Go value gives the same structure with unescaped keys and strings, the last of duplicate keys winning, and fails exactly when it meets an invalid node or a number that is not one.",
  ["inputs", "histories"], "every tree, every node in it, every path, key and position, present or absent",
  "The tests look up one path, two indices and one iteration; absent paths, positions with odd spellings or beyond the integer range, duplicate and escaped keys are not covered.",
  ["node.go", "document.go"], [("path walk", "document.go lookup"), ("Get/Index scans", "node.go Get, Index"), ("iterator", "node.go IterV"), ("Go value conversion", "document.go toInterface*")],
  ["ids, types and serializations of the nodes returned", "iterator Key/Index/Value/Len", "ToInterface result"])

p("C06", "Edits change exactly what they name",
  "Under any sequence of edits (setting or deleting a key, appending, replacing, removing or slicing elements, stripping a key at every depth, overwriting a node with a scalar or string) every node serializes as in an ordered tree to which the same edits were applied; deleting a member puts the last member in its place and all other order is kept. An edit on the wrong kind of node, with a position out of range, a key that is absent or an invalid value changes nothing. Every other reference keeps designating the node it designated before.",
  ["histories", "inputs"], "every sequence of edits, through any references, in any documents",
  "Each edit is tested once or twice in isolation on tiny documents; interactions (edits while storage grows, repeated removal, edits of detached nodes, slice then append) need sequences.",
  ["node.go", "document.go"], [("in-place edits of value lists", "node.go Set/Append/Slice/Replace/Remove/Strip/Del/SetX"), ("node storage growth", "document.go grow")],
  ["serialization, type and raw text of every live reference after every step"])

p("C07", "Inserting values never creates sharing or cycles",
  "Whatever is inserted where (a node into itself, an ancestor into its descendant, the same node twice, a copy, a detached node, a node of another document), every node ends up with at most one parent and serializing any node terminates. A value is linked in place only if it was created free-standing in the same document, is not its first node, was never inserted before and does not contain the place it is inserted at; otherwise a deep copy of its state at that moment is inserted. A copy and its original never affect each other afterwards.",
  ["histories"], "every sequence of creations, parses, insertions and edits across several documents",
  "Tests insert an object into itself once and copy one node; sharing and cycles need specific insertion sequences (copy, fetch, re-insert; mutual insertion).",
  ["document.go", "node.go"], [("adopt-or-copy decision by a root mark", "document.go copyOrAdopt"), ("deep copy", "document.go ncopy")],
  ["serialization of all references after each insertion and after probing edits"])

p("C08", "References from before a reset are inert",
  "Once a document has been reset or closed, every reference obtained from it before, and everything derived from such a reference, behaves as an invalid reference from then on: it reports no document, no type, empty text and failed conversions. Editing through it, or inserting it anywhere, changes nothing and nothing panics, whatever the document holds by then. Reset and close themselves leave no value reachable in the document.",
  ["histories"], "every history of uses, resets, closes and re-uses of documents with references kept from any earlier life",
  "One test checks that one accessor is nil after one reset; every operation on a stale reference against every later content is a separate case.",
  ["document.go", "node.go"], [("revision number checked on each access", "node.go get/Document"), ("revision bumped on reset", "document.go Reset, Pool.Put")],
  ["all accessors and edits on stale references, interleaved with new content"])

p("C09", "A reused document behaves like a new one",
  "After a reset, or after being closed and borrowed again from a pool, a document responds to every later sequence of operations exactly as a brand-new document would, and after a failed parse exactly as if that parse had not been attempted. No key, element, text or insertion state of the earlier contents is ever observable. This holds for any sizes and shapes of the earlier and later contents.",
  ["histories", "inputs"], "every pair of earlier history and later history of one document",
  "One test parses two texts around a reset and counts nodes; storage is recycled slot by slot, so residue depends on the combination of old and new shapes.",
  ["document.go", "parser.go"], [("slot and value slice recycling", "parser.go done/readValue/parseObject, document.go grow/ncopy"), ("pool", "document.go Pool")],
  ["serialization and structure after reuse, compared with the specification that has no memory"])

p("C10", "Escaped text is a valid JSON string body that decodes back",
  "For any byte string, escaping gives text that is valid between JSON quotes: no raw quote, lone backslash, control character, line or paragraph separator or malformed UTF-8, and in HTML mode no raw <, > or &. Decoding it by the JSON rules gives the original, with U+FFFD for each malformed byte. The string-returning and the appending form give the same text, the quoted form only adds the quotes, and appending keeps what the buffer held.",
  ["inputs"], "every byte string, both HTML modes, quoted or not, any destination buffer",
  "Tests try a dozen strings; the output depends on every adjacent pair of byte classes and on UTF-8 well-formedness at each offset.",
  ["strjson/escape.go", "strjson/bytemaps.go"], [("byte class table plus UTF-8 decoding", "strjson/escape.go Escaped, AppendEscaped")],
  ["strjson.Escaped", "strjson.AppendEscaped", "Document.Text/TextHTML, Node.SetString/SetStringHTML"])

p("C11", "Unescaping follows the JSON rules in all its forms",
  "For any text made of plain characters and valid JSON escapes, unescaping gives what the JSON rules define: surrogate pairs are combined, and a surrogate without its partner gives U+FFFD without consuming what follows it. A backslash that starts no known escape, a truncated \\u and a final backslash are kept as they are. On every input whatsoever the three forms (into a buffer of the same size, appending, returning a string) agree, never panic, never produce more bytes than they read, and keep what the destination held.",
  ["inputs"], "every byte string, every destination buffer length and capacity allowed by the documentation",
  "Tests try eleven strings; surrogate combinations, truncated escapes at each position and the two separately written copies of the decoder are not compared.",
  ["strjson/unescape.go", "strjson/bytemaps.go"], [("escape state machine, written twice", "strjson/unescape.go Unescape, Unescaped"), ("buffer sizing", "strjson/unescape.go AppendUnescaped")],
  ["strjson.Unescape/AppendUnescaped/Unescaped", "Node.Unescaped"])

p("C12", "Integer conversion is exact or refused",
  "Converting number text to a 64-bit signed or unsigned integer succeeds exactly when the text is a number (an optional minus, digits, optional fraction, optional exponent) whose value is an integer representable in the target type, and then gives exactly that integer, however the number is spelled (42, 42.0, 4.2e1, 9223372036854775807). In every other case it reports failure. Nodes convert as their text does.",
  ["inputs"], "every text, every magnitude up to and beyond both ranges, every spelling of the same number",
  "Tests use 42, -42, 42.01 and a few small values; the hard cases are beyond 2^53, at the range ends and in fraction/exponent spellings.",
  ["numjson/numjson.go", "node.go"], [("text to integer", "numjson/numjson.go ParseInt/ParseUint"), ("node conversions", "node.go ToInt/ToUint")],
  ["numjson.ParseInt/ParseUint", "Node.ToInt/ToUint"])

p("C13", "Float conversion is correctly rounded and formatting is lossless",
  "Converting the text of a number to a 64-bit float gives the nearest representable value, ties to even (infinity beyond the range), and any text that is not a number is reported as not a number. Formatting a finite float gives a valid JSON number, plain for zero and magnitudes from 1e-6 up to below 1e21 and in exponent form otherwise, that converts back to the very same float; the 32-bit form does so for 32-bit floats. Appending keeps what the buffer held.",
  ["inputs"], "every text and every finite float of both widths",
  "Tests compare about sixty texts and three floats; rounding depends on all digits and the exponent, and the fast path differs from the fallback only on specific digit counts and exponents.",
  ["numjson/numjson.go", "numjson/format.go", "node.go"], [("fast path and fallback", "numjson/numjson.go ParseFloat"), ("format selection", "numjson/format.go AppendFloat")],
  ["numjson.ParseFloat/FormatFloat/AppendFloat", "Node.ToFloat"])

p("C14", "A scalar written to a node is read back unchanged",
  "Creating a node from, or overwriting a node with, an integer, unsigned integer, finite float, boolean, null or valid string, and reading it back through the matching conversion, gives the same value and kind. The serialized document is then valid JSON in which an independent decoder finds that value at that place. This holds for every value and whatever the node held before, including containers with children.",
  ["inputs", "histories"], "every scalar value of each kind, over every previous node content",
  "One test writes one small value of each kind; large integers, extreme floats and strings needing escapes are not read back.",
  ["node.go", "document.go", "numjson/numjson.go", "strjson/escape.go"], [("setters", "node.go SetInt/SetUint/SetFloat/SetString*/SetTrue/SetFalse/SetNull"), ("constructors", "document.go Text/Number/True/False/Null")],
  ["Node.ToInt/ToUint/ToFloat/ToBool/Unescaped/Type", "AppendJSON"])

p("C15", "Reflective encoding represents the Go value",
  "Encoding a Go value of a supported type gives valid JSON that represents it: exported fields in declaration order under their tag name or field name, '-' fields skipped, fields of embedded structs inlined with an outer field hiding a deeper one of the same name, nil pointers, maps and interfaces as null, nil slices as empty arrays, strings and map keys escaped, numbers in the full precision of their type; non-finite floats are an error unless allowed. A field marked omitempty (or any field when that is forced) is left out exactly when its value is empty for its type or its own omit method says so. Existing buffer contents are kept, and unsupported types and nil values are handled with an error or null, never a panic.",
  ["inputs", "programs", "configurations"], "every supported Go type (any nesting), value and options",
  "Tests encode about ten struct types; types compose without bound and each option, hint and embedding interacts with the others.",
  ["unjson/encode.go", "unjson/codec.go", "unjson/omit.go", "unjson/options.go"], [("per-kind encoders", "unjson/encode.go newEncoder"), ("field collection", "unjson/codec.go merge"), ("emptiness rules", "unjson/omit.go newOmiter"), ("tag parsing", "unjson/options.go")],
  ["unjson.Marshal/AppendJSON", "unjson.NewTypeEncoder(...).Encode"])

p("C16", "Reflective decoding stores what the JSON denotes or reports an error",
  "Decoding JSON into a Go value of a supported type either returns an error or stores exactly what the JSON denotes: members go to the field that encoding would use for that key, unknown members and unmentioned fields are left alone, pointers (embedded ones too) are allocated as needed, maps are created and merged under their unescaped keys, slices take the array's length, arrays are zero-filled, and null clears scalars, pointers, structs and slices. A kind mismatch at any depth, a number that is not an integer or does not fit the target type, malformed text or trailing data is reported as an error. It never panics.",
  ["inputs", "programs", "histories"], "every supported destination type and initial content, every JSON text",
  "Tests decode about thirty type/text pairs; mismatches below the top level, narrow integer types, nil maps and embedded pointers are not sampled.",
  ["unjson/decode.go", "unjson/codec.go", "unjson/unjson.go"], [("per-kind decoders", "unjson/decode.go newDecoder"), ("struct decoding", "unjson/codec.go decode")],
  ["unjson.Unmarshal*/NewTypeDecoder(...).Decode error and resulting value"])

p("C17", "Encoding then decoding gives the value back",
  "For every supported Go type and every value of it without non-finite floats, encoding it and decoding the result into a fresh value of the same type succeeds and gives an equal value, except that nil and empty slices are interchangeable, omitted empty values come back as zero values, and embedded or interface-typed parts come back in their canonical form. The same text decodes to the same value through a parsed document decoded any number of times. The result is independent of what was encoded or decoded before with the same codecs.",
  ["inputs", "programs", "histories"], "every supported type and value, every order of earlier encodes and decodes",
  "No test round-trips a value; encoder and decoder choose fields, keys, escapes and precision independently.",
  ["unjson/encode.go", "unjson/decode.go", "unjson/codec.go", "unjson/cache.go"], [("shared field table", "unjson/codec.go structCodec"), ("codec registry", "unjson/cache.go")],
  ["unjson.Marshal then unjson.Unmarshal"])

p("C18", "Custom marshalers are used wherever their type appears, and fed exactly",
  "A type that defines its own JSON, text or node marshaling or unmarshaling methods, on the value or on its pointer, has them used wherever the type appears (top level, field, element, map value, behind pointers) when the value is reachable for the method. The unmarshaling method receives exactly the serialized JSON of its node, the unescaped text, or the node itself, a text method's output is escaped and quoted, and nil pointers are allocated on decoding and encoded as null. An error it returns is returned to the caller.",
  ["programs", "inputs", "histories"], "every placement of custom types of each kind, every payload and every error",
  "One JSON type and one text type are tested at top level only.",
  ["unjson/encode.go", "unjson/decode.go", "node.go"], [("interface dispatch", "unjson/encode.go newTypeEncoder/newEncoder, unjson/decode.go newDecoder"), ("wrapping calls", "node.go WrapUnmarshalJSON/WrapUnmarshalText")],
  ["recorded calls and payloads of instrumented types", "resulting JSON or value, returned error"])

p("C19", "A line stream delivers each value once, in order",
  "Writing values with the line encoder produces one line per value in one write, and reading a stream with the line decoder yields the values of its lines once each and in order, for any line length, any fragmentation of the reads, and with or without a final newline. A malformed line, trailing data after its value or a value of the wrong kind is an error for that line only; the following lines are still delivered. End of stream and reader or writer failures are reported to the caller, and nothing of an earlier line shows in a later result.",
  ["inputs", "histories", "fault_sequences"], "every sequence of lines, every fragmentation of the reader, every read or write failure point",
  "The stream types have no test at all.",
  ["unjson/stream.go"], [("line assembly and parse", "unjson/stream.go LineDecoder.Decode"), ("buffered line write", "unjson/stream.go LineEncoder.Encode")],
  ["sequence of Decode results and errors", "sequence of Write calls"])

p("C20", "The codec registry is safe and stable under concurrency",
  "However many goroutines request, from one registry, codecs for the same or different types at the same moment, each gets a fully built codec for exactly the type (and options) it asked for, and every request for a type returns the one codec first published for it. Encoding and decoding through the registry from many goroutines gives the same results as doing so one at a time. There is no data race, deadlock or crash.",
  ["schedules", "histories"], "every interleaving of lookups and uses over any set of types, recursive ones included",
  "No test uses the registry from two goroutines.",
  ["unjson/cache.go", "unjson/unjson.go"], [("read-lock fast path, build outside the lock, re-check under the write lock", "unjson/cache.go Cache.Decoder/Encoder")],
  ["codec identity per request", "race detector", "results of concurrent Marshal/Unmarshal"])

p("C21", "A pooled document has one holder at a time and arrives blank",
  "A document obtained from a pool is never handed to anyone else until its holder returns it, whatever the interleaving of borrowers, and it arrives blank: no value of any earlier holder is reachable in it. What one holder does never changes what another reads. References kept from an earlier holding stay inert while others use the document.",
  ["schedules", "histories"], "every interleaving of borrow, use and return by any number of goroutines, over the default pool and private pools",
  "Tests borrow and close documents one at a time only.",
  ["document.go"], [("sync.Pool with reset on return", "document.go Pool.Get/Put, Blank, Close")],
  ["document identity and contents per holder", "race detector"])

p("C22", "Concurrent readers and nested callbacks do not interfere",
  "Any number of goroutines may read one parsed document at the same time (lookups, iteration, conversions, serialization, decoding) and each gets the results it would get alone, without data races. The bytes handed to a custom unmarshaler or to a writer stay unchanged for the whole call, even when that call itself serializes, decodes or prints other values or other goroutines do so. A failed call leaves later calls unaffected.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of read operations, every nesting of callbacks, every failing callback or writer",
  "No test reads concurrently, nests callbacks or fails a writer; buffers are recycled through a shared pool.",
  ["node.go", "document.go"], [("shared buffer pool", "node.go PrintJSON/WrapUnmarshalJSON/WrapUnmarshalText"), ("read paths do not write to the document", "node.go accessors")],
  ["payloads seen at start and end of callbacks and writes", "race detector", "results per goroutine"])

p("C23", "Generated marshaling code is reproducible, compiles and is faithful",
  "For every struct type built from supported field types, the code generator succeeds, gives the same code on every run, and the code compiles. The generated methods encode each selected field once, in declaration order, under its tag or transformed name with outer fields hiding embedded ones and empty omitempty fields left out, and decode JSON back into the fields (allocating pointers, maps and slices; null at the top leaves the value alone) or return an error on a kind mismatch. Options that filter fields, force omitempty, change the tag key, the name case, the method set or the names of the methods written and consulted do exactly that, whether the types are in a directory, in one file or in a test package, and a generator that was reset writes what a new one would.",
  ["programs", "inputs", "configurations"], "every struct declaration over the supported field types, every option combination, every value and JSON text",
  "Three struct types are generated by the generator tests, which are not even part of the stable test set because field order is not reproducible.",
  ["internal/generator/append.go", "internal/generator/unmarshal.go", "internal/generator/options.go", "internal/generator/generator.go", "cmd/njson/njson.go"], [("field collection and ordering", "internal/generator/append.go StructAppender, unmarshal.go StructUnmarshaler"), ("per-type code templates", "append.go TypeAppender, unmarshal.go TypeUnmarshaler"), ("option filtering", "options.go parseField")],
  ["output of the njson command", "behaviour of the compiled generated methods"])

p("C24", "The test kit passes a type exactly when it behaves as stated",
  "A test case of the test kit fails if and only if there is no value to test, the method under test is missing or of the wrong shape, its input or expectation cannot be had, its result differs from the expected JSON or value, or its error differs from the expected error outcome. The options to choose the method, the input, the value to unmarshal into and the expected error are all honoured, the last of a kind being the one that counts, and every run of a case gives the same verdict. A failing case reports a failure rather than panicking.",
  ["inputs", "programs", "configurations"], "every combination of conforming or faulty implementations, expectations and options",
  "The kit is only used by the generator tests, with conforming types, and never with an implementation that must fail.",
  ["njsontest/t.go", "njsontest/option.go"], [("case verdicts", "njsontest/t.go AppendJSON/Unmarshal"), ("error matchers", "njsontest/option.go Error")],
  ["verdict of each generated subtest"])

p("C25", "Kinds and errors are reported truthfully",
  "A node's reported kind is exactly the kind of JSON value it holds, kind masks decompose into exactly their member kinds and name them, and reading a node as the wrong kind yields the empty result and the failure flag rather than a converted value. A type-mismatch error names the node's actual kind and all the kinds that were wanted. Parse errors describe the position, the token found and what was expected.",
  ["inputs"], "every kind and kind mask, every accessor on every kind of node, every failing parse",
  "The tests check a few masks and two messages; the accessor by kind matrix and the message contents are not covered.",
  ["types.go", "error.go", "node.go"], [("kind bit masks", "types.go"), ("error rendering", "error.go")],
  ["Type.Types/String/IsValue", "error strings", "accessor matrix"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
