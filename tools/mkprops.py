#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = []


def p(pid, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": ["src/geoarrow/" + f if not f.startswith(("src", "python")) else f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


p("P01", "Reading arbitrary bytes as WKB is memory-safe, terminating and stateless",
  "For every byte string, reading it as well-known binary ends with success or an error code, touches no memory outside the supplied bytes and the reader's own storage, and on success every coordinate handed out lies inside the supplied bytes. Whatever an earlier input did (including failing half way), the same reader treats the next input exactly as a fresh reader would.",
  ["inputs", "histories"], "all byte strings up to the bound, and all pairs of consecutive inputs on one reader",
  "Tests read a fixed set of well-formed files and a few truncations; a count field or header combination that makes a size computation wrap is never among them.",
  ["wkb_reader.c", "geometry.c", "geoarrow_type_inline.h"],
  [("remaining-size checks before every read", "wkb_reader.c: ReadEndian/ReadUInt32/ReadNodeCoordinates"),
   ("node list reset per read", "wkb_reader.c: GeoArrowWKBReaderRead")], ["return code", "geometry view nodes", "visitor callbacks"])
p("P02", "WKB decoding yields exactly the encoded geometry",
  "Well-formed ISO WKB or EWKB, in either byte order and with byte order changing between nested parts, decodes to exactly the encoded geometry type, dimensions, nesting, sizes and coordinate bit patterns, an embedded SRID being skipped. Truncated input and input with an unknown geometry type code are rejected with an error code.",
  ["inputs"], "all byte strings up to the bound, compared with an independent decoder",
  "The test files cover one encoding per geometry type; mixed byte orders, flag combinations and NaN payloads are combinatorial.",
  ["wkb_reader.c", "geometry.c"], [("header decoding and swap flag", "wkb_reader.c: WKBReaderReadNodeGeometry"),
                                   ("sequence export", "geometry.c: GeoArrowGeometryVisitSequence")],
  ["visitor callbacks", "geometry view nodes"])
p("P03", "Geometry written as WKB reads back identical, one element per feature",
  "Whatever sequence of features (geometries of every type, dimension and nesting, empty geometries, nulls) is written through the WKB writer, the finished binary array has one element per feature, null exactly where the feature was null, and each element is a complete valid WKB encoding of that feature: same type, dimensions, structure and coordinate bits. Writing a geometry value directly and writing it through the visitor interface give the same meaning.",
  ["inputs", "histories"], "all feature sequences up to the bound, coordinates any 64-bit pattern",
  "Tests write a few fixed geometries; nested sizes back-patched at each level and null/empty interleavings are not enumerated.",
  ["wkb_writer.c", "array_writer.c"], [("size back-patching per nesting level", "wkb_writer.c: ring_end_wkb, geom_end_wkb"),
                                       ("offsets and validity", "wkb_writer.c: feat_start_wkb, feat_end_wkb, Finish")],
  ["finished ArrowArray buffers"])
p("P04", "Reading arbitrary text as WKT is memory-safe and terminating",
  "For every character string (not necessarily NUL-terminated), reading it as well-known text ends with success or an error code with a message, and touches no memory outside the supplied characters and the reader's own storage. Whatever an earlier input did, the same reader treats the next input exactly as a fresh reader would.",
  ["inputs", "histories"], "all character strings up to the bound and all pairs of consecutive inputs on one reader",
  "Tests feed correct WKT and a handful of typos from NUL-terminated literals; the parser's behaviour at every possible end of buffer is not reachable that way.",
  ["wkt_reader.c", "double_parse_fast_float.cc"], [("bounded cursor helpers", "wkt_reader.c"), ("coordinate cache flush", "wkt_reader.c: ReadCoordinates")],
  ["return code", "visitor callbacks"])
p("P05", "WKT reading reports exactly the geometry in the text, or rejects the text",
  "Text in the supported WKT grammar (any type, Z/M/ZM or none, EMPTY anywhere a geometry or part may be, any whitespace between tokens, flat or nested multipoints) produces exactly the events of the geometry it denotes: type, dimensions, nesting and coordinates in order. Any other text - unknown type word, missing or extra punctuation, wrong number of ordinates, malformed numbers, trailing characters - is rejected with an error code.",
  ["inputs"], "all strings up to the bound over the grammar's alphabet, compared with an independent parser",
  "The tests list about twenty accepted strings and a dozen rejected ones.",
  ["wkt_reader.c", "double_parse_fast_float.cc", "double_parse_std.c"], [("recursive-descent parser", "wkt_reader.c")], ["visitor callbacks", "return code"])
p("P06", "WKT writing prints exactly the visited geometry, one element per feature",
  "Every feature written through the WKT writer yields one array element: null exactly for null features, otherwise the WKT text of exactly the visited type, dimensions, nesting and ordinates, which reads back as the same geometry. Writing several batches from one writer keeps the batches independent.",
  ["inputs", "histories"], "all feature sequences up to the bound",
  "Tests write a few fixed geometries; separators, nesting and empty parts combine freely.",
  ["wkt_writer.c", "double_print.c"], [("separator bookkeeping per nesting level", "wkt_writer.c"), ("null bitmap", "wkt_writer.c: null_feat_wkt")],
  ["finished ArrowArray buffers"])
p("P07", "WKT size limit truncates every element and never corrupts the batch",
  "With a maximum element size set, every element of the output is a prefix of the element that would be written without the limit and is never longer than the limit (an element that does not fit is cut at exactly the limit); elements within the limit, nulls and the number of elements are unchanged.",
  ["inputs", "histories", "configurations"], "all feature sequences and limits up to the bound",
  "Tests try two or three limits on single features without nulls.",
  ["wkt_writer.c", "kernel.c"], [("EAGAIN early stop and truncation", "wkt_writer.c: WKTWriterCheck..., feat_end_wkt")], ["finished ArrowArray buffers"])
p("P08", "Type identifiers and their parts are mutually consistent",
  "Composing a geometry type, dimension and coordinate layout into a type identifier and taking it apart again gives back the same three parts, and combinations that name no GeoArrow type give the uninitialised type; type identifiers, extension names, Arrow storage layouts and names agree with each other for every identifier. Geometry types, dimensions, coordinate layouts, edge types and CRS types have their documented names, which no value outside the enumeration gets.",
  ["configurations"], "all type identifiers and all (geometry, dimension, layout) triples",
  "Tests sample a subset of the table.",
  ["geoarrow_type_inline.h", "schema.c", "schema_view.c"], [("arithmetic on type identifiers", "geoarrow_type_inline.h")], ["return values"])
p("P09", "Coordinate copies map dimensions and byte order exactly",
  "Copying coordinates between dimension layouts keeps every ordinate's bit pattern, fills ordinates missing in the source with NaN and drops ordinates missing in the destination, for separated and interleaved layouts, any stride and either byte order, writing nothing outside the destination. Coordinate counts and required sizes are computed without wrap-around, and nothing is written when the destination is too small.",
  ["inputs", "configurations"], "all dimension pairs, coordinate values, strides and sizes up to the bound",
  "Tests use a few dimension pairs with small ordinary values.",
  ["geoarrow_type_inline.h"], [("dimension map", "geoarrow_type_inline.h: GeoArrowMapDimensions"), ("sequence copy", "geoarrow_type_inline.h: NodeWriteSequence, CopyCoordsGeneric, CoordViewCopy")],
  ["destination bytes"])
p("P10", "A copied geometry equals its source and a deep copy is independent of it",
  "Copying any geometry view gives a geometry that exports exactly the same events as the source; after a deep copy (including copies of byte-swapped or strided sources) the result stays valid and unchanged when the source's memory changes or is freed, and copying over an existing geometry leaves nothing of the old one.",
  ["inputs", "histories"], "all geometry trees up to the bound",
  "Tests copy a few native-endian geometries once.",
  ["geometry.c"], [("coordinate relocation", "geometry.c: GeoArrowGeometryDeepCopy")], ["visitor callbacks of the copy"])
p("P11", "A geometry built from visitor events exports those same events",
  "Building a geometry value from any well-formed visitor event sequence and exporting it reproduces the sequence: types, dimensions, nesting, empty parts and coordinates, however the coordinates were split over calls; reusing the geometry for another feature leaves nothing behind. Sequences longer than the internal chunk are exported completely and in order.",
  ["inputs", "histories"], "all event sequences up to the bound",
  "Tests build the fixed WKT examples only.",
  ["geometry.c"], [("back-to-front size recovery", "geometry.c: feat_end_geometry"), ("coordinate buffer growth with pointer relocation", "geometry.c: GeoArrowGeometryReallocCoords")],
  ["visitor callbacks"])
p("P12", "Exporting any node list is memory-safe and rejects inconsistent trees",
  "Exporting a geometry view whose node list is inconsistent (counts promising more nodes than are present, leftover nodes, unknown geometry types) returns an error without reading beyond the node list; a consistent node list exports successfully with correctly nested events.",
  ["inputs"], "all node lists up to the bound",
  "Tests cover two hand-made bad trees.",
  ["geometry.c"], [("node budget", "geometry.c: GeoArrowGeometryVisitNode")], ["return code", "visitor callbacks"])
p("P13", "Writers survive visitor callbacks in any order",
  "For every sequence of visitor callbacks, in any order and nesting depth, each writer (WKB, WKT, native builders, geometry values) either accepts the call or returns an error, and never reads or writes outside its own storage or uses uninitialised state; the writer can be released afterwards without leaks.",
  ["histories"], "all callback sequences up to the bound",
  "Tests only issue well-nested sequences plus a few single misuses.",
  ["wkb_writer.c", "wkt_writer.c", "native_writer.c", "geometry.c"], [("level checks", "wkb_writer.c, wkt_writer.c, geometry.c"), ("state checks", "native_writer.c")],
  ["return codes", "memory safety"])
p("P14", "Arrays are read identically whatever the offset and slice",
  "Reading a range of features of an array (native, WKB or WKT) reports, for each feature, exactly the null flag, type, nesting and coordinates stored for it; a non-zero array offset or a sub-range selects the same features as the equivalent unsliced array, for every geometry type, dimension and coordinate layout.",
  ["inputs", "configurations"], "all arrays up to the bound with any offsets, lengths and validity bits",
  "Tests use one slice per type at most.",
  ["array_view.c"], [("offset arithmetic per nesting level", "array_view.c"), ("validity bit lookup", "array_view.c: GeoArrowArrayViewVisitNative*")],
  ["visitor callbacks"])
p("P15", "Arrays that do not match the declared type are refused without being read",
  "Attaching an Arrow array to a view succeeds only if its child and buffer structure is the one the declared geometry type requires; otherwise an error code is returned, nothing outside the array's own structures is touched, and the view can still be used with a matching array.",
  ["inputs", "configurations"], "all geometry types against arrays with any child and buffer counts up to the bound",
  "Tests try three or four malformed arrays for selected types.",
  ["array_view.c", "array_reader.c"], [("structural checks", "array_view.c: GeoArrowArrayViewSetArrayInternal")], ["return code"])
p("P16", "Native arrays written through the visitor read back the same features",
  "Any sequence of features of a compatible type written through a native array writer (every geometry type, dimension and layout, with empty features, nulls and any splitting of coordinates over calls) finishes to a valid Arrow array that reads back the same features (parts without coordinates may be left out of a feature that has coordinates); ordinates the source lacks are NaN, extra ones dropped, and features the type cannot hold (a collection of several parts for a single-part type) are refused with an error.",
  ["inputs", "histories", "configurations"], "all feature sequences up to the bound",
  "Tests write one or two features per type.",
  ["native_writer.c", "builder.c", "array_view.c"], [("offset bookkeeping", "native_writer.c"), ("child lengths at finish", "builder.c: GeoArrowBuilderFinish")],
  ["finished ArrowArray", "visitor callbacks"])
p("P17", "Builder buffers hold exactly what was appended",
  "Appending buffers, offsets and coordinates to a builder in any order and amount keeps every earlier value, never writes outside the reserved capacity, and finishing gives an array whose buffers, lengths and null count are exactly those of the appended data; afterwards the builder starts an independent batch.",
  ["inputs", "histories"], "all append sequences up to the bound for every native type",
  "Tests append a few fixed buffers once.",
  ["builder.c", "geoarrow_type_inline.h"], [("capacity/size synchronisation", "builder.c: GeoArrowBuilderSyncBufferToView / SyncViewToBuffers")], ["finished ArrowArray"])
p("P18", "Parsing extension metadata is memory-safe, terminating and faithful",
  "For every metadata string (not necessarily NUL-terminated), parsing ends with success or an error without touching memory outside the string; on success the reported edge type, CRS type and CRS value are exactly those of the top-level JSON members, unknown members being ignored. Valid JSON with an unknown edge type, a member that is a number or boolean, or a CRS that is a list is refused; an unknown CRS type is reported as unknown. For text that is not JSON or repeats a key only safety is claimed.",
  ["inputs"], "all strings up to the bound, compared with an independent JSON scanner",
  "Tests parse a dozen literals; nested and escaped values, and the end of the buffer at every position, are not covered.",
  ["metadata.c"], [("bounded JSON scanner", "metadata.c: ParseJSONMetadata and Find*")], ["metadata view", "return code"])
p("P19", "Extension metadata survives serialising and parsing",
  "Serialising any metadata value and parsing it back yields the same edge type, CRS type and CRS; the reported length is the length of the complete text, output never exceeds the given buffer, and unescaping an escaped CRS string restores the original characters.",
  ["inputs", "configurations"], "all edge types, CRS types and CRS strings up to the bound, all output sizes",
  "Tests round-trip a handful of CRS strings into a large buffer.",
  ["metadata.c"], [("two-pass serialiser", "metadata.c: GeoArrowMetadataSerializeInternal"), ("quote-aware unescape", "metadata.c: GeoArrowUnescapeCrs")],
  ["serialised text", "return values"])
p("P20", "Schemas are created and recognised consistently; wrong storage is refused",
  "For every type identifier, the schema created for it is recognised as that same type (with and without extension metadata, and with metadata set or copied from another schema preserved); a schema whose extension name or storage does not denote a GeoArrow type is refused with an error code.",
  ["configurations", "inputs"], "all type identifiers, and all single-field perturbations of formats, child names and counts up to the bound",
  "Tests cover the valid types and a few bad formats.",
  ["schema.c", "schema_view.c", "metadata.c"], [("storage format matching", "schema_view.c"), ("storage construction", "schema.c")],
  ["schema view", "return code"])
p("P21", "Bounding-box kernels report the exact 2D bounds of each feature",
  "For every batch, the per-feature kernel outputs one box per feature - null for null features, the exact minimum and maximum of the feature's x and y otherwise, and the inverted infinite box when the feature has no coordinates - and the aggregate kernel outputs the bounds of all features over all batches.",
  ["inputs", "histories"], "all coordinate values (NaN included as not contributing) and feature sequences up to the bound",
  "Tests use small positive coordinates.",
  ["kernel.c"], [("running min/max", "kernel.c: coords_box, feat_end_box")], ["finished ArrowArray"])
p("P22", "Conversion and inspection kernels keep features, nulls and batches aligned",
  "Scalar kernels output, for every batch, one element per input feature holding the same geometry (or null) in the requested encoding, independent of earlier batches; aggregate kernels report exactly the set of geometry types seen. Unknown kernel names, types or missing options are refused with an error, and schema metadata such as the CRS is carried to the output schema.",
  ["inputs", "histories", "configurations"], "all source/target encodings and short batches up to the bound",
  "Tests run each kernel on one or two batches.",
  ["kernel.c", "array_writer.c", "array_reader.c"], [("per-batch reader/writer lifecycle", "kernel.c: push_batch, finish")], ["output arrays and schemas"])
p("P23", "Allocation failure and early exit never leak or corrupt memory",
  "If any single memory allocation fails during reading, building, writing, kernel execution or schema handling, the call returns an error (or the allocation was optional), no memory is leaked once the documented release functions are called, and nothing is freed twice or used after being freed.",
  ["fault_sequences"], "every allocation position within each exercised scenario",
  "No test injects allocation failures.",
  ["builder.c", "kernel.c", "array_writer.c", "array_reader.c", "geometry.c", "schema.c", "wkt_writer.c", "wkb_writer.c", "scalar_udf.c"],
  [("cleanup on error paths", "all Init and Finish functions")], ["live allocations", "return code"])
p("P24", "Numbers in WKT are parsed as whole tokens and printed so they read back",
  "A number token is accepted only if all its characters form one decimal floating-point literal and its value is the nearest double; printing a finite double at a given precision never overruns the output buffer, the text is plain decimal notation within half a unit of the last printed decimal (scientific notation beyond 1e17), and values of magnitude 1 and above printed at full precision parse back to the same value.",
  ["inputs"], "all tokens up to the bound and all doubles representable by the stated families",
  "Tests sample a few numbers.",
  ["double_parse_fast_float.cc", "double_parse_std.c", "double_print.c"], [("token conversion", "double_parse_*.c*"), ("shortest printing", "ryu/d2s.c, double_print.c")], ["value", "return code", "text"])
p("P25", "The C++ WKB parser is memory-safe and decodes exactly",
  "For every byte string, the C++ WKB parser terminates without touching memory outside it, returns success only for a complete well-formed geometry, and then exposes exactly the encoded type, dimensions, nesting and coordinate bits; its status distinguishes truncated input, unknown byte orders, unknown types and trailing bytes. Nesting deeper than 255 levels may be refused. A parser and a geometry used for one input after another treat each as fresh ones would, and an array of blobs gives each element's geometry.",
  ["inputs", "histories"], "all byte strings up to the bound, compared with an independent decoder",
  "Tests parse a few literals.",
  ["hpp/wkb_util.hpp"], [("bounded cursor", "hpp/wkb_util.hpp: WKBParser"), ("sequence views", "hpp/wkb_util.hpp: WKBSequence")], ["status", "geometry"])
p("P26", "C++ array views agree with the underlying native array",
  "Element access, iteration and slicing of the C++ array views give exactly the null flags, sizes, nesting and coordinates of the underlying array, for every offset, length and coordinate layout; iterator arithmetic and indexing agree with element access, visiting the vertices or edges of an array yields exactly its coordinates or its consecutive pairs of coordinates within each sequence, and box arrays report exactly the stored corners.",
  ["inputs", "configurations"], "all arrays up to the bound",
  "Tests use one fixed array per type.",
  ["hpp/array_util.hpp"], [("offset arithmetic", "hpp/array_util.hpp"), ("strided iterators", "hpp/array_util.hpp")], ["returned values"])
p("P27", "C++ type descriptors compose and decompose without losing information",
  "A C++ geometry type descriptor built from any valid type identifier or schema reports the same geometry type, dimensions, layout, CRS and edge type, its with-modifiers change exactly the requested part, and copies, moves and exporting to a schema or to extension name and metadata and reading that back keep all of them; requests naming no valid type raise an error.",
  ["configurations", "histories"], "all type identifiers, modifier arguments and sequences of two operations",
  "Tests cover a few combinations.",
  ["hpp/geometry_data_type.hpp"], [("type arithmetic", "hpp/geometry_data_type.hpp")], ["returned values"])
p("P28", "Scalar functions and array readers/writers honour the Arrow C contracts",
  "Scalar functions return one value per input row with nulls preserved and computed exactly, reject unsupported names and types, and release each structure exactly once; array writers and readers accept every type they declare, reject the rest with an error, and leave released structures marked as released. A reader gives exactly the content of the array attached last, and a writer starts every array afresh.",
  ["histories", "configurations"], "all type identifiers and call sequences up to the bound",
  "Tests call each function once in the normal order.",
  ["scalar_udf.c", "array_reader.c", "array_writer.c"], [("release callbacks", "scalar_udf.c"), ("type dispatch", "array_reader.c, array_writer.c")], ["release pointers", "return codes"])
p("P29", "Python bindings keep exported buffers alive and raise on every C error",
  "Python objects that expose buffers of an array keep that array alive for as long as they exist, and every error code of the C library reaches Python as an exception.",
  ["histories"], "all object lifetimes and calls",
  "Lifetime orders are not enumerated by tests.",
  ["python/geoarrow-c/src/geoarrow/c/_lib.pyx"], [("base references", "_lib.pyx")], ["Python objects"])
p("P30", "C++ readers, writers and builders own, forward and release exactly once",
  "The C++ array reader, array builder and array writer raise an exception for every request the library refuses and leave nothing behind then; an array given to a reader is taken over and released exactly once, one merely lent is never released, and visiting or viewing shows exactly the array attached last; objects wrapped as builder buffers are destroyed exactly once, whether the buffer was accepted, refused, exported or abandoned, and exported arrays contain exactly the buffers given; the settings of a writer are the ones its output shows.",
  ["histories", "configurations"], "all call sequences up to the bound, coordinates any 64-bit pattern",
  "Tests call each class once in the normal order.",
  ["hpp/array_reader.hpp", "hpp/array_writer.hpp", "hpp/internal.hpp", "hpp/exception.hpp"],
  [("ownership of the array", "hpp/array_reader.hpp: SetArray"), ("wrapped buffers", "hpp/array_writer.hpp: SetBufferWrapped")], ["release callbacks", "exceptions", "finished ArrowArray buffers"])

p("P31", "A failed call says why, needs no error object and leaves its outputs alone",
  "Every function of the C library that takes an error object gives the same result when none is supplied; when one is supplied and the call fails, it holds a non-empty message terminated inside the object, however long the offending input. After a failed call the output arguments are as they were before it (an output that owns resources may instead be marked as released), and nothing needs to be released because of the call.",
  ["inputs", "configurations"], "every schema, metadata string, WKB or WKT input, array structure, kernel option or callback sequence up to the bound that makes a call fail",
  "Tests check the text of a few messages, always with an error object, and never look at outputs after a failure.",
  ["schema_view.c", "metadata.c", "schema.c", "kernel.c", "wkb_reader.c", "wkt_reader.c", "array_reader.c", "array_view.c", "builder.c", "util.c", "geoarrow.h (utility and error handling)"],
  [("documented contract", "geoarrow.h: geoarrow-utility"), ("the message", "util.c: GeoArrowErrorSet"), ("outputs of views", "schema_view.c: GeoArrowSchemaViewInit"), ("kernel errors", "kernel.c: kernel_push_batch")], ["return codes", "GeoArrowError.message", "output arguments"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
