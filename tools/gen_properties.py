#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Package round trip preserves the core model",
 "Saving any representable model as a 3MF package and reading the package back yields an equal model: units, language, thumbnail, metadata, base materials, mesh and component objects, triangle properties, build items, transforms, declared namespaces and every child model part. Only numeric rounding to the precision chosen for coordinates, and to three decimals for transforms, may differ. The same holds for encoding a single model document and decoding it again.",
 ["inputs", "configurations"], "for all representable models (root plus any number of child parts) and all float precisions",
 "Existing tests encode and decode one hand-written model per feature; they cannot cover the combinations of defaults, omitted attributes, names needing escapes and child parts.",
 ["encoder.go", "decoder.go", "read.go", "core.go", "opc.go"],
 [("Encoder.Encode / writeModel / writeObject", "encoder.go"), ("Decoder.Decode / decodeModelFile", "read.go"), ("element decoders and property defaults", "decoder.go")],
 ["public API: NewEncoder/Encode, NewDecoder/Decode, MarshalModel, UnmarshalModel"])

prop("P02", "Round trip preserves extension resources and attributes",
 "Color groups, textures, texture coordinates, composites, multiproperties, slice stacks, slice references, beam lattices and production UUID/path attributes survive a save and reload with every field unchanged, in the root and in child parts. Values that equal an inherited default may be omitted from the file but must decode to the same value; numbers may only change by rounding to the chosen precision.",
 ["inputs", "configurations"], "for all representable extension resources in any model part and all float precisions",
 "Existing tests use one sample of each resource; default-omission logic (beam radii and caps, segment properties, tile styles) depends on value combinations the samples never take.",
 ["materials/encoder.go", "materials/decoder.go", "slices/encoder.go", "slices/decoder.go", "beamlattice/encoder.go", "beamlattice/decoder.go", "production/encoder.go", "production/decoder.go"],
 [("Marshal3MF of each resource", "*/encoder.go"), ("element decoders", "*/decoder.go")])

prop("P03", "Content of unknown extensions survives unchanged",
 "Elements and attributes from namespaces the library has no support for, wherever the format allows them, are kept when a model is read and written back with the same names, attribute values, text (white space alone between tags aside), nesting and order. Reading them, or elements out of their place, never changes how the rest of the document is understood.",
 ["inputs"], "for all unknown element trees (any depth, repeated and self-similar names, text with escapes) and unknown attributes at every extension point",
 "Tests contain one flat unknown element; nested elements with the same name as an ancestor, long text, and several unknown siblings are never tried.",
 ["spec/unknown.go", "read.go", "decoder.go", "encoder.go", "internal/xml/printer.go", "spec/spec.go"],
 [("UnknownTokensDecoder", "spec/unknown.go"), ("token dispatch", "read.go decodeModelFile"), ("Any/AnyAttr marshalling", "spec/spec.go")])

prop("P04", "Saved packages are valid and correct for any other 3MF reader",
 "Every file produced by a successful save is a readable OPC/ZIP package whose model parts are well-formed, namespace-correct XML, with declared content types and a 3D-model start-part relationship. An independent XML reader finds in it exactly the elements and attributes the 3MF specifications prescribe for the model, with coordinates accurate to the requested precision.",
 ["inputs", "configurations"], "for all representable models and all float precisions",
 "Tests compare with the library's own decoder or fixed strings; an encoder and decoder that agree on a wrong spelling pass them.",
 ["encoder.go", "internal/xml/printer.go", "opc.go", "materials/encoder.go", "slices/encoder.go", "beamlattice/encoder.go", "production/encoder.go"],
 [("token printer and namespace prefixes", "internal/xml/printer.go"), ("package writer", "opc.go, encoder.go")])

prop("P05", "Decoding depends only on the document's meaning, not its spelling",
 "Two model documents with the same XML content (differing in namespace prefixes, attribute order, quoting, whitespace, character references, empty-element form, processing instructions, comments or explicit default values) decode to equal models, and that model is the one the 3MF specifications prescribe, including inherited triangle, segment and beam properties.",
 ["inputs"], "for all valid model documents and all equivalent spellings of each",
 "The tests use a single spelling per document; the space of equivalent spellings is unbounded and the tokenizer is hand written.",
 ["internal/xml/xml.go", "read.go", "decoder.go", "materials/decoder.go", "slices/decoder.go", "beamlattice/decoder.go", "production/decoder.go"],
 [("tokenizer and namespace translation", "internal/xml/xml.go"), ("attribute defaulting", "decoder.go triangleDecoder, beamlattice/decoder.go, slices/decoder.go")])

prop("P06", "Hostile or damaged input never crashes or hangs decoding",
 "Decoding arbitrary bytes, as a model document or as a package, with or without strict mode and whatever registered extension names occur in unexpected places, always terminates with a model or an error: no panic, no endless loop, no memory use out of proportion to the input.",
 ["inputs"], "for all byte strings given as model documents, and all packages with arbitrary part contents and relationships",
 "Tests contain a fixed list of bad documents; misplaced known elements, odd nesting and corrupted containers are unbounded.",
 ["read.go", "decoder.go", "internal/xml/xml.go", "opc.go", "spec/spec.go", "materials/decoder.go", "slices/decoder.go", "beamlattice/decoder.go", "production/decoder.go"],
 [("decode loop and element stack", "read.go"), ("extension dispatch", "decoder.go, spec/spec.go")])

prop("P07", "Bad attribute values are reported once, at the right place",
 "When attribute values cannot be parsed, lenient decoding reports each of them exactly once, in document order, with the attribute's name, whether it is required, and the location (element path and index) where it occurs, and still decodes everything else. Strict decoding fails with the first of those errors, and either mode reports no error for a document whose values are all valid.",
 ["inputs", "configurations"], "for all documents with any number of corrupted attributes in core and extension elements, in strict and lenient mode",
 "Tests check one fixed document per package with low indices; index and path bookkeeping depends on siblings, nesting and error positions.",
 ["read.go", "decoder.go", "errors/errors.go", "errors/list.go", "materials/decoder.go", "slices/decoder.go", "beamlattice/decoder.go", "production/decoder.go"],
 [("error wrapping with the element stack", "read.go"), ("per-attribute parse errors", "*/decoder.go")])

prop("P08", "A truncated or unreadable document is never accepted as complete",
 "If the data of any model part ends early, is cut inside an element, has mismatched or malformed tags, fails its checksum or its source returns a read error, decoding returns an error rather than reporting success with part of the model.",
 ["inputs", "fault_sequences"], "for all valid packages and documents, all truncation points, and read faults at every offset",
 "Tests inject a failing open only; the cut point ranges over every byte of every part.",
 ["read.go", "internal/xml/xml.go", "opc.go"],
 [("RawToken end-of-input handling", "internal/xml/xml.go"), ("error propagation", "read.go")])

prop("P09", "A failed write is always reported when saving",
 "If the destination stops accepting data at any point, the content stream of an attachment fails, or an asset cannot be encoded, saving returns an error; success means that every byte of a complete package was handed to the destination.",
 ["inputs", "fault_sequences"], "for all models and a write fault at every offset of the produced output, and stream faults at every offset of each attachment",
 "Tests use mocks that fail on a single call; the position of the fault ranges over the whole output, including buffered data.",
 ["encoder.go", "opc.go", "internal/xml/printer.go"],
 [("Flush and Close error propagation", "encoder.go")])

prop("P10", "Decoding packages with many model parts is race free and deterministic",
 "Decoding a package with any number of model parts gives the same model, or reports a failure, no matter how the parts' decoding is scheduled: no data race, no mixing of content between parts, and each part's resources, unknown content, and relationships end up under that part's own path. If any part is invalid, the whole decode reports an error from the invalid content itself.",
 ["schedules", "inputs"], "for all packages with 0..n child parts of any content and all interleavings of their decoding",
 "Tests decode at most two tiny children and run without the race detector.",
 ["read.go", "decoder.go"],
 [("concurrent child decoding", "read.go processNonRootModels/readChildModel")])

prop("P11", "Cancellation is honoured and never invented",
 "Decoding a package or an STL file under a context that is already cancelled, or that is cancelled while enough input remains, returns the context's error promptly; if the caller never cancels, a context error is never returned, and an uncancelled context gives the same result as decoding without one.",
 ["inputs", "schedules", "fault_sequences"], "for all inputs larger than the documented check interval and every cancellation point, and for all inputs without cancellation",
 "Tests cancel before start with one input and an altered check interval.",
 ["read.go", "importer/stl/decoder.go", "importer/stl/ascii.go", "importer/stl/binary.go"],
 [("periodic context check", "read.go decodeModelFile, importer/stl")])

prop("P12", "Saving is repeatable and leaves the model untouched",
 "Saving a model does not modify it, and saving the same model again produces the same document; saving a reloaded model reproduces the same document text. One value is never affected by what was written before it in the same document.",
 ["inputs", "histories"], "for all models and repeated or alternated save/load sequences",
 "Tests encode each model once and never compare the model before and after.",
 ["encoder.go", "spec/spec.go", "materials/encoder.go", "slices/encoder.go", "beamlattice/encoder.go"],
 [("shared attribute buffers", "encoder.go writeTriangles, slices/encoder.go marshalPolygons"), ("relationship collection", "encoder.go writeChildModels")])

prop("P13", "Core validation accepts conformant models and pinpoints every violation",
 "Validating a model reports an error exactly when a core 3MF rule is broken (identifiers, references, property indices, metadata names, relationships, content types, mesh indices and sizes, components, build items, required extensions), one error per violation, each carrying the part and element location of the offending item. Conformant models validate without error.",
 ["inputs"], "for all models, conformant or with any combination of violations in root and child parts",
 "Tests check a fixed list of broken models, each with few violations at small indices; combinations, boundary indices and child-part locations are not covered.",
 ["validate.go", "errors/errors.go", "errors/list.go", "core.go"],
 [("Model.Validate and helpers", "validate.go"), ("error wrapping", "errors/errors.go")])

prop("P14", "Extension validation applies every extension rule exactly when broken",
 "With an extension declared on the model, validation reports each broken rule of the materials, production, slice and beam lattice extensions (missing or dangling references, out-of-range indices, ordering, open polygons, non-planar transforms, invalid UUIDs, illegal layers) at the location of the offending element, and reports nothing for content that respects them. Without the declaration those rules are not applied.",
 ["inputs", "configurations"], "for all models with extension resources in root and child parts, conformant or with any combination of violations",
 "Tests use single hand-written violations; boundary indices, the extension resources of child parts and valid-but-unusual content are not covered.",
 ["materials/validate.go", "production/validate.go", "slices/validate.go", "beamlattice/validate.go", "validate.go", "uuid/uuid.go"],
 [("per-extension Validate", "*/validate.go")])

prop("P15", "Every model operation is total on any model that can be decoded",
 "Validation, coherency validation, bounding boxes, walking, lookups, UUID completion, saving and document encoding terminate without crashing on every model, including models with dangling references, missing parts, empty objects and components that directly or indirectly contain themselves.",
 ["inputs"], "for all models obtainable by decoding or by construction, including cyclic component graphs across parts",
 "Tests never build cyclic or dangling graphs beyond a direct self reference.",
 ["core.go", "validate.go", "slices/validate.go", "production/production.go", "encoder.go"],
 [("recursive traversals", "core.go boundingBox, slices/validate.go validateObjectTransforms")])

prop("P16", "Mesh coherency holds exactly for closed, manifold, oriented meshes",
 "A mesh passes the coherency check exactly when it has enough vertices and triangles and every edge is shared by exactly two triangles that traverse it in opposite directions; a model passes exactly when all its solid mesh objects in all parts do, and every failing object is reported with its part and index regardless of order or scheduling.",
 ["inputs", "schedules"], "for all meshes and all models with any number of objects and parts",
 "Tests use three or four fixed meshes; the set of near-manifold meshes is combinatorial and the model check is concurrent.",
 ["validate.go", "math.go"],
 [("edge pair matching", "validate.go Mesh.ValidateCoherency, math.go pairMatch"), ("concurrent object checks", "validate.go Model.ValidateCoherency")])

prop("P17", "Bounding boxes enclose exactly the built geometry",
 "The bounding box of a mesh is the smallest box containing its vertices, and the bounding box of a model contains every vertex of every object reachable from its build items after applying all transforms along the way, in whichever part the object lives, and is the tightest box when transforms only move, scale, mirror or turn by right angles. The result does not depend on scheduling, and objects that are not built do not influence it.",
 ["inputs", "schedules"], "for all models, component trees across parts, and affine transforms",
 "Tests use translations only, and positive coordinates with a few vertices.",
 ["core.go", "math.go"],
 [("recursive bounding box", "core.go"), ("box transformation", "math.go MulBox")])

prop("P18", "The mesh builder keeps geometry and merges only coincident vertices",
 "Adding points with connectivity enabled returns an index whose stored vertex coincides with the point within the documented micron accuracy, returns the same index for equal points and different indices for points that are further apart than the accuracy, and never moves or removes vertices added before. With connectivity disabled each point gets a new vertex, in order.",
 ["histories", "inputs"], "for all sequences of points of any magnitude and all switches of the connectivity option",
 "Tests add a handful of small points; coordinate overflow and long histories are not exercised.",
 ["core.go", "math.go"],
 [("MeshBuilder.AddVertex", "core.go"), ("vertex quantisation", "math.go newvec3IFromVec3/vectorTree")])

prop("P19", "Importing an STL file adds exactly its triangles to the model",
 "Importing a valid binary or ASCII STL appends one mesh object whose triangles, with their vertex positions, order and orientation, are exactly those of the file, together with a build item that references it under an unused identifier, and leaves everything already in the model unchanged. The binary and ASCII forms of the same mesh import to the same object.",
 ["inputs"], "for all triangle lists, header texts, number spellings and pre-existing models",
 "Tests import two fixed files and compare few values.",
 ["importer/stl/decoder.go", "importer/stl/ascii.go", "importer/stl/binary.go", "core.go"],
 [("format detection", "importer/stl/decoder.go"), ("triangle decoding", "importer/stl/ascii.go, importer/stl/binary.go")])

prop("P20", "A damaged STL file is rejected cleanly and changes nothing",
 "Importing arbitrary, truncated or unreadable STL data terminates with an error or a complete import, never crashes, hangs or uses memory out of proportion to the data, reports a truncated binary file or a read error as an error, and leaves the model exactly as it was whenever it returns an error.",
 ["inputs", "fault_sequences"], "for all byte strings, truncation points and read faults",
 "Tests try an empty reader and one broken file.",
 ["importer/stl/decoder.go", "importer/stl/ascii.go", "importer/stl/binary.go"],
 [("header peek loop", "importer/stl/decoder.go"), ("face count handling", "importer/stl/binary.go")])

prop("P21", "UUIDs are well formed, checked correctly and completed without loss",
 "Generated UUIDs are well-formed random (version 4) UUIDs that the library itself accepts; the checker accepts exactly the documented textual forms. Completing a model gives every build, item, object and component lacking a UUID a fresh one, changes no UUID or path that was already there, is idempotent, and leaves a model that passes the production rules about UUIDs.",
 ["inputs", "histories"], "for all random sources, all strings, and all models with any subset of UUIDs present",
 "Tests use a few strings and one model.",
 ["uuid/uuid.go", "production/production.go", "production/validate.go"],
 [("uuid.New / uuid.Validate", "uuid/uuid.go"), ("SetMissingUUIDs", "production/production.go")])

prop("P22", "Resource lookup, traversal and free identifiers are consistent",
 "Looking up an object or asset by part path and identifier finds the first matching resource of exactly that part, with the empty path and the root path denoting the root; traversal visits every resource of every part once, child parts in lexical order and then the root, and stops at the first callback error. The proposed free identifier is the lowest positive identifier not used by any asset or object. Every resource reports its own identifier, qualified name and number of properties, and the accessors of extension data return exactly the value attached to that element, or nothing.",
 ["inputs", "histories"], "for all models with any identifiers (unordered, sparse, duplicated, maximal) in any parts",
 "Tests use a few small sorted identifier lists.",
 ["core.go", "validate.go"],
 [("UnusedID, Find*, Walk*", "core.go")])

prop("P23", "Attachments and relationships survive saving and loading byte for byte",
 "Every attachment that some saved relationship refers to is found after reload under its path with identical bytes and content type, once, no matter how many relationships point to it; the relationships of the package and of every model part come back attached to the same owner with the same target, type and identifier, and relationships implied by thumbnails, textures and child parts are added without duplicating existing ones.",
 ["inputs"], "for all sets of attachments, contents, relationships and owners (package, root part, child parts)",
 "Tests use mocks for the package layer or one small attachment.",
 ["encoder.go", "read.go", "opc.go"],
 [("writeAttachements / AddRelationship", "encoder.go, opc.go"), ("extractCoreAttachments / addAttachment", "read.go")])

prop("P24", "Registered extensions are consulted for exactly their own content",
 "For any namespace an application registers, attributes of that namespace on every extensible element and elements of that namespace at every extension point are handed to that extension once each with exact names, values, text and nesting, its results are stored on the owning element and written back through it, and its validation is invoked for the model, every object and every asset when the namespace is declared, with its errors located at the right element. Extensions that decline an element or attribute do not disturb decoding of the rest.",
 ["inputs", "configurations"], "for all registered extensions, document positions and mixtures of registered and unknown namespaces",
 "Tests register one fake extension with one element and one attribute.",
 ["spec/spec.go", "spec/encoding.go", "decoder.go", "read.go", "validate.go", "encoder.go"],
 [("registry and dispatch", "spec/spec.go"), ("AnyAttr/Any handling", "decoder.go")])

prop("P25", "Error collection and location keep every error and address",
 "Combining errors keeps every non-nil error once and in order, flattening nested collections and yielding no error when there is none; wrapping adds exactly one location level to each contained error so that the reported path lists levels from the outermost to the innermost with their indices, keeps the original cause retrievable, and records the part path when given.",
 ["histories", "inputs"], "for all sequences of append and wrap operations over plain, located and collected errors",
 "Tests check single operations on small literals.",
 ["errors/errors.go", "errors/list.go"],
 [("Append/Wrap/WrapIndex/WrapPath", "errors/errors.go, errors/list.go")])

prop("P26", "Numeric, color and transform values convert and compose exactly",
 "Parsing the text form of a color gives back the same color, colors and transforms are accepted exactly in their documented syntax, parsing a transform's text gives the transform to three decimals, enumerated values round-trip through their names, and applying a product of transforms to a point equals applying them one after the other while the identity changes nothing.",
 ["inputs"], "for all colors, strings, matrices, points and enumeration values",
 "Tests use a few literals per function.",
 ["spec/encoding.go", "math.go", "core.go", "materials/materials.go", "slices/slices.go", "beamlattice/beamlattice.go"],
 [("ParseRGBA/FormatRGBA/ParseMatrix", "spec/encoding.go"), ("Matrix", "math.go")])

prop("P27", "Independent operations never influence each other",
 "The outcome of decoding, saving, validating, measuring, looking up, completing or importing a given input is the same no matter which other operations the process performed before or performs at the same time on other models, or, for operations that only read, on the same model. There is no data race, results handed out earlier are not changed by later operations, and identifiers generated at the same time are all different.",
 ["histories", "schedules"], "for all sequences and concurrent mixtures of operations over any inputs, including failing ones",
 "Tests run one operation at a time on fresh values; caches, pools and reused buffers only show when operations follow or overlap each other.",
 ["read.go", "encoder.go", "validate.go", "core.go", "math.go", "internal/xml/xml.go", "internal/xml/printer.go", "spec/spec.go", "uuid/uuid.go", "importer/stl/decoder.go"],
 [("shared state: extension registry, tokenizer buffers, builders", "spec/spec.go, internal/xml/xml.go, math.go"), ("concurrent part decoding and bounding boxes", "read.go, core.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
