#!/usr/bin/env python3
"""The properties; writes properties.jsonl and MANIFEST.json for those that have a check (config.CHECKS)."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import config

A = "packages/apib-parser/src/"
D = "packages/drafter/src/"
P = []


def prop(id, title, statement, text, why, files, mechanism, technique, note, observe=None, over=("inputs",)):
    mech = [{"name": n, "where": w} for n, w in mechanism]
    a = {"files": files, "mechanism": mech, "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    P.append((id, dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text},
                       why_tests_cant=why, anchors=a), technique, note))


# ---------------------------------------------------------------- whole pipeline
prop("P01", "Parsing, checking and serialising never crash, hang or leak",
     "For every NUL-terminated input text and every combination of parse and serialise options, parsing, checking and serialising "
     "return normally: no memory error, no undefined arithmetic, no leak, no exception leaving the API and no endless computation. "
     "The returned code agrees with the presence of an error annotation, and the serialised result is well-formed JSON or YAML.",
     "all input byte strings, all option combinations", "fixtures hold some hundred well-behaved documents; none is malformed at byte level or crossed with every option set",
     [D + "drafter.cc", D + "ConversionContext.cc", D + "RefractDataStructure.cc", A + "snowcrash/snowcrash.cc"],
     [("C API entry points", D + "drafter.cc"), ("sections of the parser", A + "snowcrash")],
     "structured and byte-level fuzzing of the public C API under ASan/UBSan with allocation accounting",
     "bounded random search; the missing third-party submodules (sundown, variant, PEGTL, cmdline) are replaced with stand-ins written for this work")
prop("P02", "Results depend only on the input and the options",
     "Parsing the same text with the same options gives the same result however often and in whatever order it is done, whatever was parsed "
     "before, and through each of the public entry points; checking a blueprint reports exactly the annotations that parsing it reports.",
     "all inputs, all histories of earlier calls", "tests parse each fixture once per process and never compare entry points",
     [D + "drafter.cc", D + "ConversionContext.cc", D + "NamedTypesRegistry.cc"],
     [("no state kept between calls", D + "drafter.cc")],
     "metamorphic property-based testing over histories of public API calls", "bounded random search; stand-ins for the absent submodules", over=("inputs", "histories"))
prop("P03", "Source maps and annotation positions lie inside the document",
     "Every source map range of an element, in bytes, lies within the document and cuts no character; every range of an annotation, in characters, "
     "lies within the document and carries the line and column of its first and last character, or column 1 for an end in an unterminated last line. "
     "The text an element's ranges select contains the words the element holds.",
     "all valid UTF-8 documents", "fixtures compare whole trees for a few documents; almost none has multi-byte text or unusual nesting",
     [D + "RefractSourceMap.cc", D + "SourceMapUtils.cc", A + "snowcrash/CodeBlockUtility.h", A + "markdown-parser/ByteBuffer.cc"],
     [("byte to character ranges", A + "markdown-parser/ByteBuffer.cc"), ("source map elements", D + "RefractSourceMap.cc")],
     "property-based testing with an independent line/column model", "bounded random search; stand-ins for the absent submodules")
prop("P04", "Mistakes in a blueprint are each reported once, where they are",
     "Each documented mistake in an otherwise valid blueprint is reported exactly once, as an annotation with its code and message at the line of the mistake, "
     "and nothing else is reported. A document with something unacceptable is refused with that error alone beside the warnings; one with lesser mistakes only is accepted, and what has no mistake is in its result as if the others had none.",
     "all blueprints of the documented structure, all places and combinations of mistakes", "tests make one mistake at a time in a minimal document and rarely look at where it is reported",
     [A + "snowcrash/BlueprintParser.h", A + "snowcrash/ResourceParser.h", A + "snowcrash/ActionParser.h", A + "snowcrash/PayloadParser.h", A + "snowcrash/HeadersParser.h",
      A + "snowcrash/ParameterParser.h", A + "snowcrash/URITemplateTokenizer.h", A + "snowcrash/MSONUtility.h"],
     [("section parsers", A + "snowcrash"), ("annotations to elements", D + "SerializeResult.cc")],
     "model-based generation of blueprints with mistakes put into them, against the expected list of annotations", "bounded random search; stand-ins for the absent submodules")
prop("P05", "JSON and YAML output, with and without source maps, describe the same result",
     "Serialising one parse result as JSON and as YAML gives the same tree. Asking for source maps adds source map attributes and changes nothing else.",
     "all inputs, all option combinations", "each fixture is serialised in one or two fixed ways",
     [D + "refract/SerializeSo.cc", D + "utils/so/JsonIo.cc", D + "utils/so/YamlIo.cc", D + "drafter.cc"],
     [("one simple-object tree behind both writers", D + "refract/SerializeSo.cc")],
     "differential property-based testing of the two writers and the two source map settings", "bounded random search; stand-ins for the absent submodules")
prop("P06", "The result is a faithful image of the blueprint's structure",
     "A blueprint's API name, metadata, description, groups, resources, URI templates, actions, methods, parameters, headers, requests, "
     "responses, status codes, bodies and schemas appear in the result exactly as written, in order and nested as written, and nothing else does.",
     "all blueprints of the documented structure", "fixtures cover a handful of shapes; combinations and orders are open-ended",
     [D + "RefractAPI.cc", D + "ConversionContext.cc", A + "snowcrash/BlueprintParser.h", A + "snowcrash/ResourceParser.h", A + "snowcrash/ActionParser.h", A + "snowcrash/PayloadParser.h"],
     [("section parsers", A + "snowcrash"), ("conversion to elements", D + "RefractAPI.cc")],
     "model-based generation of blueprints compared against the model's expected tree", "bounded random search; stand-ins for the absent submodules")
prop("P07", "Data structures described in MSON come out as described",
     "Each property, item, value, type, nesting, requiredness, default, sample, variable marker, enumeration member, one-of choice, mixin and "
     "description written in a data structure or attributes section appears in the resulting element tree as described by the format, in order, and nothing else does.",
     "all data structure descriptions in the documented syntax", "fixtures cover single constructs, seldom their combinations",
     [D + "RefractDataStructure.cc", D + "MsonTypeSectionToApie.cc", D + "MsonOneOfSectionToApie.cc", D + "RefractElementFactory.cc", A + "snowcrash/MSON.cc"],
     [("MSON to elements", D + "RefractDataStructure.cc")],
     "model-based generation of MSON compared against the model's expected tree", "bounded random search; stand-ins for the absent submodules")
prop("P08", "Named types are resolved independently of their order, cycles included",
     "The order in which named types are declared changes neither any type's element nor any asset derived from it. Types which take their members from one "
     "another in a cycle, by inheritance or mixins, are reported as an error in every order, types which hold one another in a cycle are accepted, and processing ends in both cases.",
     "all sets of named types and all orders of them", "fixtures declare types in one order and contain few cycles",
     [D + "NamedTypesRegistry.cc", D + "refract/Registry.cc", D + "refract/ExpandVisitor.cc"],
     [("dependency order of named types", D + "NamedTypesRegistry.cc")],
     "metamorphic property-based testing over permutations of type declarations", "bounded random search; stand-ins for the absent submodules", over=("inputs", "programs"))
prop("P09", "JSON bodies and schemas are generated when called for, and agree",
     "A body and a schema are generated exactly for payloads of a JSON media type which have attributes of their own or, in requests, of the action, do not state them "
     "explicitly, and are not switched off by an option. The generated body is well-formed JSON, the value which the expanded attributes describe, and valid against the "
     "generated schema, which is a well-formed JSON schema.",
     "all attribute sections and named types, all payloads and options", "fixtures pin single outputs; nothing ever validates a body against its schema",
     [D + "RefractAPI.cc", D + "Render.cc", D + "refract/JsonValue.cc", D + "refract/JsonSchema.cc"],
     [("body generation", D + "refract/JsonValue.cc"), ("schema generation", D + "refract/JsonSchema.cc"), ("when assets are generated", D + "RefractAPI.cc")],
     "model-based generation of attributes against a reference model of the value and an independent JSON schema validator", "bounded random search; stand-ins for the absent submodules")

prop("P10", "The command line tool gives what the library gives",
     "The tool writes exactly the library's serialisation of its input in the format and with the source maps asked for, to the place asked for and nowhere else, and nothing when validating; "
     "it returns the library's code. Its report lists every annotation of the result once and in order, with the positions of the result, by character or by line. "
     "Where input or output cannot be opened or the call is malformed it fails without output.",
     "all documents, all combinations, orders and spellings of options", "the feature tests run a few calls on two documents",
     [D + "main.cc", D + "config.cc", D + "reporting.cc", D + "stream.h"],
     [("the tool", D + "main.cc"), ("the report", D + "reporting.cc"), ("options", D + "config.cc")],
     "differential property-based testing of the tool against the library", "bounded random search; the absent option parser (cmdline) is a stand-in, as are the other absent submodules")
prop("P11", "Calls from several threads do not disturb one another",
     "Parsing, checking, serialising and freeing different documents and results in several threads at the same time gives exactly what the same calls give one after another, "
     "whatever the schedule, and touches no memory of another call without synchronisation. Option objects which are only read may be shared, and a result may be serialised and freed "
     "by another thread than the one which made it.",
     "all documents, all interleavings of calls", "the tests run in one thread",
     [D + "drafter.cc", D + "utils/log/Trivial.cc", D + "NodeInfo.h", A + "snowcrash"],
     [("C API entry points", D + "drafter.cc"), ("shared log", D + "utils/log/Trivial.h"), ("shared constants", D + "NodeInfo.h")],
     "differential property-based testing of concurrent call plans against sequential calls, under ThreadSanitizer",
     "schedules are those the machine happens to give; state shared through the log's lock may look ordered; stand-ins for the absent submodules", over=("inputs", "schedules"))
# ---------------------------------------------------------------- element trees
prop("R01", "Copies of elements are exact and independent; equality is structural",
     "Cloning or copying an element, of any kind and however deeply nested, yields exactly the parts the clone flags select, all of them by default. "
     "The copy and the original share nothing: changing or destroying one never shows in the other, and destroying all of them leaves no memory behind. "
     "Two elements are equal exactly when they agree in kind, presence of a value, value, meta and attributes, recursively, order included.",
     "all element trees, all clone flag combinations, all later changes", "unit tests clone a few two-level elements with one flag at a time and compare trivially different elements",
     [D + "refract/Element.h", D + "refract/ElementIfc.h", D + "refract/InfoElements.cc", D + "refract/dsd"],
     [("clone with flags", D + "refract/Element.h"), ("comparison", D + "refract/Element.h")],
     "property-based testing against a value model of element trees", "bounded random search over trees of up to some 40 elements")
prop("R02", "Element values behave like the containers and scalars they stand for",
     "Arrays, objects, selects, options and extends keep exactly the children inserted, in order, through every sequence of insertion, erasure, clearing, copying and moving; "
     "adding a member to an object removes the earlier member of the same string key. "
     "Members, enums, holders, references, strings, numbers and booleans give back what they were given, and what is removed is destroyed.",
     "all operation histories on element values", "unit tests apply one or two operations to fresh values",
     [D + "refract/dsd"], [("container values", D + "refract/dsd/Array.cc"), ("unique members", D + "refract/dsd/Object.cc")],
     "model-based stateful property-based testing", "bounded random histories", over=("histories",))
prop("R03", "Meta and attributes form an ordered map of named elements",
     "The named elements of meta and attributes behave as a map in insertion order through every sequence of setting, finding, erasing, claiming, merging, copying and clearing: "
     "setting an existing name replaces its element in place, finding returns the element last set, and erasing removes exactly the named one. "
     "Appending a sample or enumeration or setting a type attribute keeps everything set before.",
     "all operation histories", "unit tests set and look up one or two names",
     [D + "refract/InfoElements.h", D + "refract/InfoElements.cc", D + "refract/ElementUtils.h", D + "refract/Utils.h"],
     [("info elements", D + "refract/InfoElements.cc")],
     "model-based stateful property-based testing", "bounded random histories", over=("histories",))
prop("R04", "The type registry resolves names exactly and finds the root of every chain",
     "A named type is registered exactly once, under its identifier, and found again under exactly that name; reserved names, duplicates and elements "
     "without a textual identifier are refused. The root ancestor of an element is the base at the end of its chain of registered types, and searching for it ends for circular types too.",
     "all registries and inheritance graphs", "unit tests use one or two registered types",
     [D + "refract/Registry.cc", D + "refract/Registry.h"], [("registry", D + "refract/Registry.cc")],
     "model-based property-based testing over generated inheritance graphs", "bounded random graphs", over=("inputs", "histories"))
prop("R05", "Merging inherited elements overrides and appends, losing nothing",
     "Merging a chain of elements from base to derived yields one element in which a later scalar value, meta or attribute replaces an earlier one, "
     "a later object member replaces the earlier member of the same key in its place and other members are appended in order, and array items and enumerations accumulate. "
     "The inputs stay unchanged, and elements of different kinds are refused.",
     "all chains of elements", "unit tests merge pairs of small elements",
     [D + "refract/dsd/Extend.cc", D + "refract/dsd/Extend.h"], [("merge", D + "refract/dsd/Extend.cc")],
     "model-based property-based testing against a reference merge", "bounded random chains; recorded finding: items of an array derived from an array type without a value are lost")
prop("R06", "Expansion resolves every type and reference, and terminates",
     "Expanding an element replaces each use of a named type with the chain of its ancestors and each reference with its resolution, at every depth, leaving unrelated content untouched; "
     "an element that uses no named type expands to nothing new. Circular use is cut at the repeated type, which is kept as a mark, so that expansion always ends.",
     "all elements over all registries, cyclic ones included", "unit tests expand single elements with one registered ancestor",
     [D + "refract/ExpandVisitor.cc", D + "refract/IsExpandableVisitor.cc", D + "refract/Registry.cc"],
     [("expansion", D + "refract/ExpandVisitor.cc")],
     "model-based property-based testing against a reference expander", "bounded random registries and elements")
prop("R07", "Visiting reaches every element exactly once, in document order, as its own kind",
     "Visiting an element calls the visitor for exactly its own kind; iterating over children visits each direct child once in order, and iterating recursively visits every nested element once in document order. "
     "A query returns exactly the elements that match its condition, in that order.",
     "all element trees", "unit tests query a few fixed trees",
     [D + "refract/Iterate.h", D + "refract/Query.h", D + "refract/Query.cc", D + "refract/Visitor.h", D + "refract/TypeQueryVisitor.cc", D + "refract/FilterVisitor.h", D + "refract/PrintVisitor.cc"],
     [("iteration", D + "refract/Iterate.h"), ("query", D + "refract/Query.h")],
     "property-based testing against a walk of the value model", "bounded random trees")
prop("R08", "Sizes of data structures are sound and saturate",
     "Adding and multiplying cardinalities is commutative, associative and monotone, treats open sizes as absorbing, and never wraps around. "
     "The size computed for a data structure counts its possible values: empty is one, scalars, choices, enumerations, arrays and objects combine as sums and products of their parts.",
     "all cardinalities up to the largest number, all elements", "unit tests use single-digit sizes and shallow elements",
     [D + "refract/Cardinal.h", D + "refract/Cardinal.cc", D + "refract/ElementSize.cc"], [("cardinal", D + "refract/Cardinal.h"), ("sizeOf", D + "refract/ElementSize.cc")],
     "algebraic property-based testing and a reference model of sizes", "bounded random search, boundary values included")
prop("R09", "Value, default, sample, literal, key and flags are found by fixed precedence",
     "The value that represents an element is its own value if it has one, else its first usable sample, else its default, in the documented precedence and through references and inherited types. "
     "Type attributes, variable markers, descriptions, keys of members and members of objects are found exactly when present, under exactly their name.",
     "all elements with any combination of value, samples, default, enumerations and attributes", "unit tests set one attribute at a time",
     [D + "refract/VisitorUtils.h", D + "refract/VisitorUtils.cc", D + "refract/Utils.cc", D + "refract/ElementUtils.h", D + "refract/ComparableVisitor.cc"],
     [("value precedence", D + "refract/VisitorUtils.h")],
     "property-based testing against a reference lookup on the value model", "bounded random elements")
prop("R10", "Reports, options and serialised keys say exactly what they are given",
     "The report of a parse result holds exactly its annotations, in order, errors before warnings and with their codes and positions. "
     "Option objects give back exactly what was set, independently of each other, with the documented defaults. Each serialised key keeps its text.",
     "all annotation lists, all option histories", "unit tests set one option at a time",
     [D + "reporting.cc", D + "options.cc", D + "SerializeKey.cc", D + "drafter.cc"], [("reports", D + "reporting.cc"), ("options", D + "options.cc")],
     "property-based testing against a reference formatter and a model of options", "bounded random search", over=("inputs", "histories"))

# ---------------------------------------------------------------- serialisation
prop("S01", "JSON output is well-formed and reads back as the value written",
     "Writing any value as JSON, compact or indented, yields well-formed JSON that an independent parser reads back as exactly that value: strings character by character, numbers, key order and nesting included.",
     "all value trees", "unit tests write short ASCII strings and shallow trees",
     [D + "utils/so/JsonIo.cc", D + "utils/so/Value.cc"], [("escaping and indentation", D + "utils/so/JsonIo.cc")],
     "round-trip property-based testing with an independent strict JSON reader", "bounded random trees; strings that are not valid UTF-8 are only required to pass through unchanged")
prop("S02", "YAML output is well-formed and reads back as the value written",
     "Writing any value as YAML yields well-formed YAML that an independent reader reads back as exactly that value, with the same types, key order and nesting.",
     "all value trees", "unit tests write short ASCII strings and shallow trees",
     [D + "utils/so/YamlIo.cc", D + "utils/so/Value.cc"], [("quoting and indentation", D + "utils/so/YamlIo.cc")],
     "round-trip property-based testing with an independent strict YAML reader", "bounded random trees; the reader covers the block and flow styles written here")
prop("S03", "Serialisable objects keep unique keys in order; equality is that of the value",
     "Inserting into a serialisable object or array uniquely keeps one entry per key or item in insertion order, and values compare equal exactly when they are the same value.",
     "all histories of insertions, all pairs of values", "unit tests insert two or three keys",
     [D + "utils/so/Value.cc", D + "utils/so/Value.h"], [("unique insertion", D + "utils/so/Value.cc")],
     "model-based stateful property-based testing", "bounded random histories", over=("histories", "inputs"))
prop("S04", "Serialised elements keep kind, meta, attributes and content",
     "The serialised form of an element tree names each element, and holds its meta, attributes and content completely, in order and at the place they belong; "
     "empty parts are left out, and source map attributes are present exactly when asked for.",
     "all element trees, both source map settings", "unit tests serialise a few fixed elements",
     [D + "refract/SerializeSo.cc"], [("element serialisation", D + "refract/SerializeSo.cc")],
     "property-based testing against a reference serialiser", "bounded random trees")
prop("S05", "JSON schemas are well-formed and describe exactly the data structure",
     "For every expanded data structure the generated JSON schema is a well-formed draft 7 schema of which the JSON value generated for the same structure is an instance. "
     "It allows exactly the values the structure describes: types, nullability, fixed values, fixed types, required and forbidden properties, tuples, item types and enumerations.",
     "all expanded data structures, and all JSON values near the generated one", "unit tests pin single outputs and never validate one with the other",
     [D + "refract/JsonSchema.cc", D + "refract/JsonValue.cc", D + "refract/ElementSize.cc", D + "refract/ElementUtils.cc"], [("schema", D + "refract/JsonSchema.cc"), ("value", D + "refract/JsonValue.cc")],
     "property-based testing: independent JSON schema validator, and a denotational model of which values a structure describes", "bounded random structures and value edits; choices, variable names and inclusions only as far as the generated value goes")
prop("S06", "The JSON value generated from a data structure is the one it stands for",
     "The value generated from a data structure takes its content, else its first sample, else its default, else null where it is nullable, else an empty value of its type, at every level. "
     "Properties keep their order and one value per name, optional ones without a value and items that are only types are left out, and of a choice the first option with properties is taken.",
     "all element trees", "unit tests pin single values of shallow elements",
     [D + "refract/JsonValue.cc", D + "refract/JsonUtils.cc", D + "utils/so/Value.cc"], [("value", D + "refract/JsonValue.cc")],
     "property-based testing against a reference value model", "bounded random structures and trees")

# ---------------------------------------------------------------- text
prop("T01", "Byte ranges convert to character ranges exactly",
     "For every text and every set of byte ranges, the character ranges denote exactly the characters covered, in order, whether converted through the text or through the character index; "
     "truncated or invalid UTF-8 never makes the conversion read or point outside the text. "
     "Appending range sets and mapping them back to text covers exactly the concatenated positions.",
     "all byte strings and range sets", "unit tests convert a few ranges in three short strings",
     [A + "markdown-parser/ByteBuffer.cc", A + "markdown-parser/ByteBuffer.h"], [("character index", A + "markdown-parser/ByteBuffer.cc")],
     "property-based testing against a per-byte reference", "bounded random texts under ASan/UBSan")
prop("T02", "UTF-8 is decoded and encoded by the standard",
     "Every code point encodes to its standard octets and decodes back; iterating over well-formed text yields exactly its code points. "
     "Over ill-formed text decoding always advances, stays inside the text and yields the replacement character.",
     "all code points, all byte strings", "unit tests decode a few characters",
     [D + "utils/Utf8.h"], [("decoder and encoder", D + "utils/Utf8.h")],
     "property-based testing against a reference codec", "all code points are drawn in blocks; byte strings are bounded")
prop("T03", "Character ranges become exact line and column positions",
     "The line and column reported for both ends of a character range are those obtained by counting line ends and characters in the text, for every text, "
     "multi-byte characters included. An end in an unterminated last line, or past the text, is on the last line, whose first column stands for it.",
     "all valid UTF-8 texts and ranges", "unit tests use a few fixed ranges",
     [D + "SourceMapUtils.cc", D + "SourceMapUtils.h"], [("line index", D + "SourceMapUtils.cc")],
     "property-based testing against a counting reference", "bounded random texts")
prop("T04", "Media types are classified and written by the standard",
     "A media type is recognised as JSON or JSON schema exactly by its type, subtype and suffix, in whatever letter case. "
     "Writing a media type gives its type, subtype, suffix and parameters in order, with parameter values quoted exactly where the grammar requires it.",
     "all media types", "unit tests write a few media types without special characters",
     ["packages/apib/src/MediaType.cc", D + "backend/MediaTypeS11n.cc"], [("classification", "packages/apib/src/MediaType.cc"), ("writing", D + "backend/MediaTypeS11n.cc")],
     "property-based testing against a reference of the media type grammar", "bounded random media types")
prop("T05", "Media type text is parsed into its components and survives writing and parsing",
     "A valid media type text is parsed into exactly its type, subtype, suffix and parameters; writing the result and parsing it again gives the same media type. "
     "Any other text is refused or parsed without reading outside it.",
     "all texts", "unit tests parse a few media types",
     [A + "MediaTypeParser.cc", D + "backend/MediaTypeS11n.cc"], [("grammar", A + "MediaTypeParser.cc")],
     "round-trip property-based testing and fuzzing", "bounded random texts; PEGTL is a stand-in; recorded finding T05-double-escape")
prop("T06", "URI templates are split exactly and each unsupported construct is warned about",
     "A URI is split into exactly its scheme, host and path. Each unsupported operator, modifier or character and each mismatched brace of a URI template is reported by its own warning at the given place, "
     "and a valid template gives none; any text is processed to its end.",
     "all URI templates", "unit tests check one template per warning",
     [A + "snowcrash/UriTemplateParser.cc", A + "snowcrash/UriTemplateParser.h"], [("parser", A + "snowcrash/UriTemplateParser.cc")],
     "property-based testing against a reference of the expected warnings", "bounded random templates")
prop("T07", "Markdown nodes are deep values; pattern matching is exact",
     "Copying or assigning a markdown node, from itself or one of its own descendants included, yields an independent equal tree whose parent links point into it. "
     "Pattern matching and its captured groups agree with POSIX extended regular expressions.",
     "all histories of node operations, all patterns and texts", "unit tests build one small tree",
     [A + "markdown-parser/MarkdownNode.cc", A + "snowcrash/posix/RegexMatch.cc", A + "snowcrash/Section.cc"], [("node copy", A + "markdown-parser/MarkdownNode.cc"), ("regex", A + "snowcrash/posix/RegexMatch.cc")],
     "model-based stateful property-based testing", "bounded random histories", over=("histories", "inputs"))


def main():
    P.sort(key=lambda p: p[0])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for id, p, _, _ in P:
            if id in config.CHECKS:
                f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo. See DESIGN.md."}
    for id, p, technique, note in P:
        if id in config.CHECKS:
            m["checks"].append({"property": id, "quick_cmd": "python3 tools/check.py %s --tier quick" % id,
                                "thorough_cmd": "python3 tools/check.py %s --tier thorough" % id,
                                "technique": technique, "level": "exploration", "level_note": note})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    missing = set(config.CHECKS) - set(x[0] for x in P)
    if missing:
        sys.exit("no text for %s" % missing)


main()
