#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here, in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

LP = "lib/src/parse/"
LG = "lib/src/gen/"
CC = "app/commsdsl2comms/src/"

prop("C01", "The parsed protocol is exactly the protocol the schema declares",
 "For every valid CommsDSL schema, the object model the library exposes contains exactly the declared namespaces, fields, interfaces, messages, frames and layers, in order, each with the kind, type, length, endianness, default value, valid values / ranges, special / enum / bit values, units, scaling, prefixes, conditions, aliases, sender, id and version information that the schema text (with the documented DSL defaults and inheritance) prescribes. Values are exact over their whole range (signed and unsigned 64 bit included) and nothing is lost, merged into something else, duplicated or invented.",
 ["inputs"], "every valid schema: any nesting of the 12 field kinds, any property combination and any numeric value representable by the selected types",
 "The lib/test suite parses about 400 fixed schema files and asserts a few accessors of each; combinations of properties, boundary values and nesting are never compared with an independent reading of the schema.",
 [LP+"ParseFieldImpl.cpp", LP+"ParseIntFieldImpl.cpp", LP+"ParseEnumFieldImpl.cpp", LP+"ParseSetFieldImpl.cpp", LP+"ParseFloatFieldImpl.cpp", LP+"ParseBitfieldFieldImpl.cpp", LP+"ParseBundleFieldImpl.cpp", LP+"ParseStringFieldImpl.cpp", LP+"ParseDataFieldImpl.cpp", LP+"ParseListFieldImpl.cpp", LP+"ParseOptionalFieldImpl.cpp", LP+"ParseVariantFieldImpl.cpp", LP+"ParseMessageImpl.cpp", LP+"ParseInterfaceImpl.cpp", LP+"ParseFrameImpl.cpp", LP+"ParseLayerImpl.cpp", LP+"ParseNamespaceImpl.cpp", LP+"ParseSchemaImpl.cpp"],
 [("parseUpdate*() steps of every element", LP+"Parse*Impl.cpp"), ("numeric / bool / range / unit string conversions", LP+"parse_common.cpp")],
 ["lib/include/commsdsl/parse/*.h accessors"])

prop("C02", "Reported min / max lengths are the exact bounds of the wire encoding",
 "For every field and message, the minimal and maximal serialization lengths (and bit lengths inside bitfields) reported by the parser are the minimum and maximum number of bytes over all encodings the schema allows, saturating at the documented 'unlimited' value, and a validateMinLength expectation is accepted exactly when it equals that minimum.",
 ["inputs"], "every field / message of every valid schema, including nested lists, prefixed sequences, optionals, variants and version dependent members",
 "Only a few fixed fields have their lengths asserted; the arithmetic (accumulate, multiply, saturate, optional / variant minimum) is composed recursively over arbitrary nesting.",
 [LP+"ParseListFieldImpl.cpp", LP+"ParseBundleFieldImpl.cpp", LP+"ParseStringFieldImpl.cpp", LP+"ParseDataFieldImpl.cpp", LP+"ParseVariantFieldImpl.cpp", LP+"ParseOptionalFieldImpl.cpp", LP+"ParseMessageImpl.cpp", LP+"parse_common.cpp"],
 [("parseMinLengthImpl / parseMaxLengthImpl", LP+"Parse*FieldImpl.cpp"), ("parseAddToLength / parseMulLength saturation", LP+"parse_common.cpp")],
 ["ParseField::parseMinLength/parseMaxLength/parseBitLength", "ParseMessage::parseMinLength/parseMaxLength"])

prop("C03", "Equivalent notations of the same schema parse to the same model",
 "The parsed model does not depend on how a schema is written down: a property given as an XML attribute, as a child element with a value attribute or as a child element with text, letter case of keywords and of named types, attribute order, comments, insignificant white space, number base, unit synonyms, wrapper elements such as <fields>/<members>/<frames>/<messages>, and CDATA / entity spelling never change any exposed value.",
 ["inputs"], "every valid schema and every combination of equivalent spellings of its properties",
 "The fixed schema files each use one spelling; no test parses two spellings of one schema and compares.",
 [LP+"ParseXmlWrap.cpp", LP+"parse_common.cpp", LP+"ParseFieldImpl.cpp", LP+"ParseNamespaceImpl.cpp", LP+"ParseMessageImpl.cpp"],
 [("parseChildrenAsProps / parseNodeValue", LP+"ParseXmlWrap.cpp"), ("parseToLower, parseStrToUnits, parseStrToIntMax", LP+"parse_common.cpp")],
 ["lib/include/commsdsl/parse/*.h accessors"])

prop("C04", "Reuse and copying equal writing the definition out in full",
 "A field using reuse (with or without overriding properties and <replace>), a message / interface using copyFieldsFrom, copied aliases and copied conditions expose the same model and generate the same wire encoding as the element with the reused content written out explicitly, and reusing never alters the element that was reused.",
 ["inputs"], "every reusable element of every kind and every set of permitted overrides, including chains of reuse",
 "Tests reuse one field per kind with one override; aliasing between original and copy and chains are not explored.",
 [LP+"ParseFieldImpl.cpp", LP+"ParseObject.cpp", LP+"ParseMessageImpl.cpp", LP+"ParseInterfaceImpl.cpp", LP+"ParseBundleFieldImpl.cpp", LP+"ParseBitfieldFieldImpl.cpp", LP+"ParseVariantFieldImpl.cpp", LP+"ParseListFieldImpl.cpp"],
 [("parseCheckReuse / parseReuseImpl / parseCloneImpl / parseCheckReplace", LP+"ParseFieldImpl.cpp"), ("copyFieldsFrom handling", LP+"ParseMessageImpl.cpp")],
 ["lib/include/commsdsl/parse/*.h accessors"])

prop("C05", "Splitting a schema over files or blocks does not change the protocol",
 "Distributing the elements of a schema over several input files (given in order), over several <ns>, <fields>, <messages> or <frames> blocks, or referencing them through fully qualified or unqualified names yields the same protocol as a single file with single blocks; namespaces with equal names are merged, and later elements see all earlier ones.",
 ["inputs", "configurations"], "every valid schema and every order preserving partition of its top level content into files and blocks",
 "Two or three hand written multi-file cases exist; partitions and their interaction with nested namespaces are not explored.",
 [LP+"ParseProtocolImpl.cpp", LP+"ParseSchemaImpl.cpp", LP+"ParseNamespaceImpl.cpp"],
 [("parseValidateSchema / parseValidateNamespaces merge", LP+"ParseProtocolImpl.cpp"), ("parseProcessMultipleFields etc.", LP+"ParseNamespaceImpl.cpp")],
 ["ParseProtocol::parseSchemas", "generated files"])

prop("C06", "Every schema that breaks a DSL rule is rejected with an error",
 "A schema that breaks a CommsDSL rule (missing or repeated mandatory property, malformed value, value outside its type, invalid or duplicate name, dangling or wrong-kind reference, duplicate message id, bit index or enum value clash, inconsistent versions, bitfield not multiple of 8 bits, conflicting prefix / suffix / fixed length properties, invalid conditions, illegal frame layering, etc.) is refused: parsing reports failure, at least one error naming file and line is logged, and no code generator reports success for it. The same schema without the violation is accepted.",
 ["inputs"], "every valid schema with any single rule violation injected at any place where it can occur",
 "Each rule has at most one fixed negative file, in one context; violations inside members, prefixes, reused fields, second files or deeper namespaces are not exercised.",
 [LP+"ParseXmlWrap.cpp", LP+"ParseFieldImpl.cpp", LP+"ParseMessageImpl.cpp", LP+"ParseFrameImpl.cpp", LP+"ParseLayerImpl.cpp", LP+"ParseOptCondImpl.cpp", LP+"ParseNamespaceImpl.cpp", LP+"ParseProtocolImpl.cpp"],
 [("parseLogError() + return false in every parseUpdate step", LP+"*Impl.cpp"), ("parseVerifySiblings / parseVerify / parseCheckVersions", LP)],
 ["ParseProtocol::parse/parseValidate result and error callback", "exit status of generators"])

prop("C07", "No input makes the parser crash, hang or touch invalid memory",
 "For any sequence of input files of arbitrary bytes (well formed XML or not), parsing, validation and then reading every accessor of the resulting model terminates without crash, failed internal assertion, undefined behaviour, uncaught exception, unbounded recursion or memory error; bad input only leads to a reported failure.",
 ["inputs"], "arbitrary byte strings and arbitrary mutations of valid schemas, one or several files",
 "Tests use well behaved files only, without sanitizers.",
 [LP+"ParseXmlWrap.cpp", LP+"parse_common.cpp", LP+"ParseProtocolImpl.cpp", LP+"ParseSetFieldImpl.cpp", LP+"ParseIntFieldImpl.cpp", LP+"ParseOptCondImpl.cpp"],
 [("input validation before use", LP)],
 ["ParseProtocol::parse / parseValidate / all accessors under ASan and UBSan"])

prop("C08", "Generating for an older version equals generating the older schema",
 "Code generated with a forced schema version contains exactly the elements that exist in that version: it behaves as the code generated from the schema from which every element introduced later has been deleted, and the version numbers it reports are the forced ones. A declared minimal remote version changes only whether members introduced up to that version are optional, never the encoding of data of any version at or above it.",
 ["inputs", "configurations"], "every schema with version annotations, every version from 0 to the schema version, every minimal remote version",
 "Tests generate with a forced version for one or two schemas and never inspect the outcome.",
 [LG+"GenGenerator.cpp", LG+"GenSchema.cpp", LG+"GenNamespace.cpp", LG+"GenElem.cpp", CC+"CommsField.cpp", CC+"CommsEnumField.cpp", CC+"CommsSetField.cpp", CC+"CommsIntField.cpp", CC+"CommsMessage.cpp"],
 [("genDoesElementExist / genIsElementOptional", LG+"GenGenerator.cpp"), ("genSchemaVersion", LG+"GenSchema.cpp")],
 ["generated files"])

prop("C09", "Generated field and message classes encode exactly as the schema says",
 "For every schema and every message / field value, the code generated by commsdsl2comms serializes to exactly the byte string the schema prescribes (order, endianness, length, serialization offset, bit packing, length / count / element-length prefixes, terminators, optional presence, variant selection, version dependence), reads every such byte string back to the same value consuming exactly those bytes, and reports the same serialization length; truncated input is reported as not enough data and never accepted.",
 ["inputs"], "every valid schema, every representable value of every field, every prefix of every encoding",
 "The stable tests only check that code is generated; it is never compiled or executed here.",
 [CC+"CommsIntField.cpp", CC+"CommsEnumField.cpp", CC+"CommsSetField.cpp", CC+"CommsFloatField.cpp", CC+"CommsBitfieldField.cpp", CC+"CommsBundleField.cpp", CC+"CommsStringField.cpp", CC+"CommsDataField.cpp", CC+"CommsListField.cpp", CC+"CommsOptionalField.cpp", CC+"CommsVariantField.cpp", CC+"CommsRefField.cpp", CC+"CommsMessage.cpp", CC+"CommsField.cpp"],
 [("options and base classes written into the generated classes", CC), ("read / refresh bodies generated for conditions, detached prefixes and variants", CC+"CommsBundleField.cpp, CommsMessage.cpp, CommsVariantField.cpp")],
 ["compiled generated headers: read / write / length / refresh"])

prop("C10", "Generated classes carry the declared values and validity rules",
 "For every schema, a default constructed generated field / message holds the declared default values and presence, valid() is true exactly for the values the schema declares valid (ranges, values, enum values, reserved bits, valid conditions, for the version in use), invalid data is refused exactly where failOnInvalid or a fixed value demands it, and names, special values, enum value names, bit names and positions, scaling, units and display hints equal the declared ones.",
 ["inputs"], "every valid schema and every value of every field",
 "The stable tests never compile or run the generated code.",
 [CC+"CommsIntField.cpp", CC+"CommsEnumField.cpp", CC+"CommsSetField.cpp", CC+"CommsFloatField.cpp", CC+"CommsStringField.cpp", CC+"CommsDataField.cpp", CC+"CommsOptionalField.cpp", CC+"CommsField.cpp", CC+"CommsMessage.cpp", LG+"GenEnumField.cpp"],
 [("DefaultNumValue / ValidNumValueRange / BitmaskReservedBits / InvalidByDefault options", CC), ("generated valid(), name(), special value and valueNamesMap functions", CC)],
 ["compiled generated headers: value / valid / name / special accessors"])

prop("C11", "Every message is reachable by id: bundles, factories and dispatch agree",
 "For every schema, the generated message id enumeration, the all / client / server / platform / extra input message bundles, the message factories and the dispatch functions of a namespace contain exactly its messages (with those of the namespaces inside it) which the sender, platform or list of names select, each under its declared id (and order, for non-unique ids): a message created or dispatched by id is the declared one, and unknown ids create nothing and go to the generic handler.",
 ["inputs", "configurations"], "every set of messages with any ids, senders, platforms, orders, namespaces and extra bundles",
 "Generated bundles, factories and dispatchers are never compiled or inspected by the stable tests.",
 [CC+"CommsMsgFactory.cpp", CC+"CommsDispatch.cpp", CC+"CommsInputMessages.cpp", CC+"CommsMsgId.cpp", CC+"CommsNamespace.cpp", LG+"GenNamespace.cpp", LG+"GenSchema.cpp", LP+"ParseProtocolImpl.cpp"],
 [("bundle construction", CC+"CommsInputMessages.cpp"), ("per id switch generation", CC+"CommsDispatch.cpp, CommsMsgFactory.cpp")],
 ["compiled generated headers: factory createMsg, dispatch, tuples"])

prop("C12", "Generated frames frame and unframe messages as declared",
 "For every valid frame definition, writing any message through the generated frame produces the declared layers in order (sync, size, id, value, checksum over the declared layers with the declared algorithm, payload), reading it back yields an equal message with the same transport values and consumes the whole frame, and any truncated, corrupted-checksum, wrong-sync or unknown-id input is reported as an error and yields no message.",
 ["inputs"], "every legal layer sequence and field choice, every message, every truncation and single corruption of the frame",
 "The stable tests never compile or run generated frames.",
 [CC+"CommsFrame.cpp", CC+"CommsLayer.cpp", CC+"CommsSyncLayer.cpp", CC+"CommsSizeLayer.cpp", CC+"CommsIdLayer.cpp", CC+"CommsValueLayer.cpp", CC+"CommsChecksumLayer.cpp", CC+"CommsInterface.cpp", LP+"ParseFrameImpl.cpp"],
 [("layer stack generation", CC+"CommsFrame.cpp"), ("layer ordering and checksum range validation", LP+"ParseFrameImpl.cpp, ParseChecksumLayerImpl.cpp")],
 ["compiled generated headers: frame read / write"])

prop("C13", "Generated output is a function of the schema and options only",
 "Running a generator again on the same schemas and options produces byte identical files regardless of output directory, working directory, absolute or relative schema paths, prior contents of the output directory, the environment, or the way inputs are listed (arguments or list file with prefix), and never writes outside the output directory or modifies its inputs.",
 ["inputs", "configurations", "histories"], "every schema, every generator, every equivalent invocation and repeated invocation",
 "Each generator is run once per fixed schema; outputs of two runs are never compared.",
 [LG+"GenGenerator.cpp", LG+"GenProgramOptions.cpp", LG+"util.cpp"],
 [("genCreateDirectory / file writing", LG+"GenGenerator.cpp"), ("input list processing", LG+"GenGenerator.cpp, app/*/src/*ProgramOptions.cpp")],
 ["output directory tree"])

prop("C14", "Injected custom code appears exactly where it was asked for, once",
 "For every generated file and every documented injection suffix offered for it, supplying the corresponding file makes its content appear verbatim at the place of the advertised hook in the matching file (replacing the default where the suffix says replace, extending or appending otherwise), all other generated text stays the same, files without a special suffix are copied unchanged to the same relative path (with the main namespace renamed when -n asks for it), and injected code for one element never leaks into another unless copying of code is requested by the schema.",
 ["inputs", "configurations"], "every schema, generator, generated file and injection suffix",
 "The tests inject code for a few fixed elements and never look at the resulting text.",
 [LG+"GenGenerator.cpp", LG+"util.cpp", CC+"CommsCustomCode.cpp", CC+"CommsField.cpp", CC+"CommsMessage.cpp", CC+"CommsInterface.cpp"],
 [("genReadCodeInjectCode", "lib/src/gen/util.cpp"), ("genCopyExtraSourceFiles", LG+"GenGenerator.cpp")],
 ["generated files with and without -c"])

prop("C15", "Generated projects are complete, self consistent and compile",
 "For every valid schema every generator that succeeds produces a self contained project: every project file that is included, listed or referenced by another generated file exists, every generated source and header is part of the build or of a file which is, every header generated by commsdsl2comms and commsdsl2c compiles on its own, the code generated by commsdsl2comms, commsdsl2test and commsdsl2c compiles and links against the API of the COMMS library and against each other for the same options, and every C function which is declared is defined. (The sources of SWIG, emscripten and Qt projects are followed as references here, not compiled.)",
 ["inputs", "configurations"], "every valid schema and every generator option set",
 "The stable tests only check that generation succeeds; no generated C++ is compiled.",
 [CC, "app/commsdsl2c/src", "app/commsdsl2test/src", "app/commsdsl2emscripten/src", "app/commsdsl2swig/src", "app/commsdsl2tools_qt/src", LG+"comms.cpp"],
 [("include collection (genCommsIncludes etc.)", LG+"comms.cpp"), ("scope / header path computation", LG+"comms.cpp")],
 ["generated project files, compiler"])

prop("C16", "The C interface behaves like the C++ classes it wraps",
 "For every schema, the functions generated by commsdsl2c give access to every field and message of the selected set, and through them values set are the values got, serialized bytes, lengths, validity, names, ids, dispatch to the assigned handler functions (else to the one of the interface), creation of messages by id, writing and processing of framed input and the reported frame values are those of the wrapped C++ classes; with a prefix, a selection of messages, a forced platform or interface, or a chosen input bundle likewise.",
 ["inputs", "configurations"], "every valid schema, every value, every selection of messages / interface / prefix",
 "The generated C interface is never compiled or run by the stable tests.",
 ["app/commsdsl2c/src"],
 [("CField / CMessage / CFrame / CMsgHandler writers", "app/commsdsl2c/src")],
 ["compiled generated C library"])

prop("C17", "Script bindings expose every selected element exactly once",
 "For every schema, the SWIG and emscripten projects expose every message, interface, frame and every field class reachable from them for the selected messages, with the value, validity, length and field access functions, each declared exactly once, before use, and consistently with the protocol code generated by commsdsl2comms; nothing that is not selected or does not exist in the protocol code is referenced.",
 ["inputs", "configurations"], "every valid schema and every message selection",
 "The tests only check that the generators exit with success.",
 ["app/commsdsl2swig/src", "app/commsdsl2emscripten/src"],
 [("swigAddDef / include ordering", "app/commsdsl2swig/src"), ("emscriptenAddSourceFiles / EMSCRIPTEN_BINDINGS", "app/commsdsl2emscripten/src")],
 ["generated .i, .h and .cpp files"])

prop("C18", "The LaTeX specification documents every element and always typesets",
 "For every valid schema, with arbitrary text in names, descriptions, units and string values, the commsdsl2latex project typesets without errors, every cross reference resolves, and the text states each message, frame, interface and field with its declared id, length, encoding, valid values and version facts, with special characters shown literally.",
 ["inputs"], "every valid schema, any printable text in free text properties",
 "The fixed schemas contain almost no special characters and the produced text is never compared with the schema.",
 ["app/commsdsl2latex/src"],
 [("escape of special characters", "app/commsdsl2latex/src/LatexGenerator.cpp"), ("per kind info writers", "app/commsdsl2latex/src/Latex*Field.cpp")],
 ["generated .tex files, pdflatex"])

prop("C19", "Exit status and diagnostics tell the truth",
 "Every generator exits 0 exactly when it parsed the whole input without errors and wrote its whole output; unreadable, missing or invalid input, an output file or directory which cannot be written completely, option values which cannot be honoured, override code which the schema requires but is not provided, and, with --warn-as-err, any warning about the options or the schemas, give a non-zero status and an error on the error stream; an unknown option or property gives a warning there. Verbosity options change only what is printed.",
 ["inputs", "configurations", "fault_sequences"], "every invocation: any schema, any option combination, I/O failure of any output file",
 "The stable tests run successful command lines only.",
 [LG+"GenGenerator.cpp", LG+"GenLogger.cpp", LG+"GenProgramOptions.cpp", "app/*/src/main.cpp"],
 [("GenLogger warn-as-err latch", LG+"GenLogger.cpp"), ("status propagation from genWrite", LG+"GenGenerator.cpp")],
 ["process exit status and stderr"])

prop("C20", "References always resolve to the element they name",
 "Looking up any field, message, interface or frame by its external reference returns that very element; every <ref>, reuse, alias, prefix reference and frame or message reference resolves to the element its full path names, counted from the root of the schema it is written in or of the schema named with @Schema, and never to another element whose path or schema name merely resembles it (longer, shorter, same name in another namespace or schema); references to what does not exist are refused; and a property whose value is a reference to another field's value, special, enum value or bit takes exactly that value.",
 ["inputs"], "every schema with references across and within namespaces and schemas, equal and similar names at different places and every referencing property",
 "A handful of fixed references is asserted.",
 [LP+"ParseProtocolImpl.cpp", LP+"ParseNamespaceImpl.cpp", LP+"ParseRefFieldImpl.cpp", LP+"ParseOptCondImpl.cpp", LP+"ParseFieldImpl.cpp"],
 [("parseFindField / parseFindMessage / parseStrToNumeric", LP+"ParseProtocolImpl.cpp"), ("parseProcessInnerRef / parseFindSibling", LP+"ParseFieldImpl.cpp")],
 ["ParseProtocol::parseFindField", "ParseRefField::parseField", "accessor values"])

prop("C21", "Customization options never change the wire format",
 "For every schema, the customization level, the predefined option bundles (default, data view, bare metal, client / server) and the main namespace chosen at generation time affect only storage, naming and available hooks: for equal values all variants serialize to the same bytes, accept the same input and agree on validity, within the declared storage limits.",
 ["inputs", "configurations"], "every schema, every customization level, option bundle and main namespace",
 "Generated option structures are never compiled or used by the stable tests.",
 [CC+"CommsDefaultOptions.cpp", CC+"CommsGenerator.cpp", CC+"CommsField.cpp", CC+"CommsMessage.cpp"],
 [("option struct generation", CC+"CommsDefaultOptions.cpp"), ("commsIsCustomizable", CC+"CommsField.cpp")],
 ["compiled generated headers under different options"])

prop("C22", "Visualization plugin and fuzz-test projects cover the whole protocol",
 "For every schema, commsdsl2tools_qt generates a plugin for every selected frame / interface combination whose factory and message list contain every message of the protocol for that input, with wrappers that compile against the generated protocol, and commsdsl2test generates a harness which compiles and handles every message of the chosen input (by default every message of the namespace of the frame); names, namespaces and versions agree with the protocol code.",
 ["inputs", "configurations"], "every valid schema and plugin configuration",
 "The tests only check that the generators exit with success.",
 ["app/commsdsl2tools_qt/src", "app/commsdsl2test/src"],
 [("ToolsQtPlugin / ToolsQtMsgFactory / ToolsQtFrame writers", "app/commsdsl2tools_qt/src"), ("Test writers", "app/commsdsl2test/src")],
 ["generated project files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
