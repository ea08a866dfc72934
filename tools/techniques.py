CLAIMED = {
 "C01": ("property-based testing: random schemas against an independent reference model of the DSL",
         "randomised search over generated schemas (shrinking, replay), no exhaustive bound; quick about 39000 schemas, thorough 1-2 million"),
 "C02": ("property-based testing: reported lengths against an independent length computation, validateMinLength accepted / refused around it",
         "randomised search over generated schemas; lengths computed separately by the reference model"),
 "C03": ("metamorphic testing: random respelling of random schemas",
         "randomised search over schemas and over sets of equivalent spellings"),
 "C04": ("metamorphic / differential testing: reusing schema against the schema written out in full, models and generated C++",
         "randomised search; generated C++ compared textually after removal of comments and ordering of valid value options"),
 "C05": ("metamorphic testing: random partitions of random schemas over blocks and files",
         "randomised search; models compared for all, output of generators for a part"),
 "C06": ("property-based testing: one violation of one rule put into a random valid schema (23 families of violations), shrunk on failure",
         "randomised search; the valid schema must be accepted, the broken one refused by the parser (and the generators) with an error naming the place"),
 "C07": ("structured mutation fuzzing, grammar fuzzing and coverage guided fuzzing (libFuzzer) of the parser under AddressSanitizer, UBSan and assertions",
         "about 70000 mutated, grammar made and raw inputs plus 16 coverage guided runs per quick check"),
 "C20": ("property-based testing: random schemas full of equal and similar names, every reference resolved by an independent resolver, lookups compared element by element",
         "randomised search over generated schemas, multi schema inputs and lookup strings"),
}
CLAIMED["C09"] = ("property-based testing: generated C++ compiled (against a small stand-in of the COMMS library) and driven with random values and bytes, compared with an independent codec",
         "about 260 random schemas per quick check, each with hundreds of writes, reads (canonical, damaged and random bytes) and all prefixes")
CLAIMED["C10"] = ("property-based testing: generated C++ compiled (against a small stand-in of the COMMS library), its static information, default state, validity and accessors compared with the schema model",
         "about 260 random schemas per quick check, each with hundreds of values, byte strings and accessor results")
CLAIMED["C11"] = ("property-based testing: generated bundles, factories and dispatch functions compiled and called with known, unknown and repeated ids, compared with the messages of the schema model",
         "about 200 random schemas per quick check; every bundle of every namespace with frames, every id and index")
CLAIMED["C12"] = ("property-based testing: generated frames compiled (against a small stand-in of the COMMS library) and fed with written, damaged, truncated and random bytes, compared with an independent framing model",
         "random frames (sync, size, id, value, checksum, custom, payload in any legal order, prefix and suffix layers) over random messages; hundreds of reads each")
CLAIMED["C13"] = ("metamorphic testing: the same schemas and options given to every generator in different ways (directories, spellings, list files, environment, used output directory), output trees compared byte by byte",
         "about 1400 random projects per quick check, each generated in four ways; everything outside of the output directory is compared too")
CLAIMED["C21"] = ("metamorphic testing: the same schema generated and compiled with different customization levels, option bundles and main namespaces, behaviour compared on random values and bytes",
         "random schemas, each compiled in several variants; bytes, statuses, validity and dispatch compared")
CLAIMED["C19"] = ("property-based testing with fault injection: random schemas with random invocations which must succeed, warn or fail (unwritable files, full disk, size limits, bad options and inputs, broken rules, missing code)",
         "about 3000 random invocation groups per quick check over all seven generators; exit status, error stream and output are compared with what the invocation deserves")
CLAIMED["C15"] = ("property-based testing: the projects of all seven generators made from random schemas and options; every generated header compiled alone, C, C++ and test projects compiled, includes, lists and build files followed",
         "about 130 random projects per quick check: 24 header by header, 24 test programs, 24 C libraries with every declared function referenced, 60 projects whose references and CMake lists are followed")
CLAIMED["C16"] = ("differential testing: a generated program performs random histories of operations through the generated C functions and through the C++ classes and compares every observation",
         "about 50 random schemas per quick check, 40 histories of 12 operations for each message and 160 histories of writing, damaging and processing input for each frame")
CLAIMED["C22"] = ("property-based testing: plugins and test harnesses generated from random schemas and configurations, compiled (against small stand-ins of cc_tools_qt, Qt and COMMS) and driven with written, damaged and random input, compared with an independent codec and framing model",
         "about 24 random plugin projects (several plugins each) and 24 harnesses per quick check; lists of messages, identification, description, configuration and every message and frame through the plugin")
CLAIMED["C08"] = ("property-based testing against a reference model: code generated from random versioned schemas with a forced schema version and / or a minimal remote version, compiled (against a small stand-in of the COMMS library) and compared with a model from which the missing elements were removed",
         "about 290 random projects per quick check: encodings, refused input, values, names, validity, lists of messages, dispatch and frames of the older version")
CLAIMED["C14"] = ("property-based testing: random custom code for randomly chosen hooks of random schemas given to every generator; the output is compared with the output without the code and with an explicit model of copied and overridden code",
         "about 1150 random projects per quick check over all seven generators: every advertised hook, plain files, copied code, override types")
CLAIMED["C17"] = ("property-based testing: the emscripten and SWIG projects of random schemas and message selections, compiled against a stand-in of embind and read by an imitation of SWIG, compared with the required set of classes and functions and, in random histories of calls, with the C++ classes of commsdsl2comms",
         "about 40 emscripten and 40 SWIG projects per quick check; every class, function, enumerator and handler, and about 15000 histories of fields, messages and frames")
NOT = {"C18": "no check was built for the LaTeX documents as such (the technique applies; labels and references of the LaTeX output are covered by C15, its injected code by C14, its determinism by C13)"}
