"""technique, level and level_note per property (used by tools/mkmanifest.py)."""

GENERAL = ("Runtime monitoring and sanitizers throughout. run.py compiles the harnesses of harness/ against the headers of /repo's "
           "working tree (content-hashed cache in .build), runs them in shards under the configurations of jobs.py, attributes crashes, "
           "hangs and leaks to the case that was running, and writes evidence/<id>.json. No hooks in /repo are needed: the library is "
           "header-only, and everything observed is public API, iterators, operator new and compiler instrumentation.")

NOTES = {}
NA = {}

NOTES["P01"] = (
    "AddressSanitizer/UBSan + guard pages + checked iterators + valgrind over exhaustive small, generated, mutated, truncated, deep and big texts",
    "exploration",
    "Every parse of the workload is watched for out-of-sequence reads (exact heap blocks with redzones, page-end placement without "
    "instrumentation, iterators that count and bound every step), undefined behaviour, exceptions, hangs and dependence on placement. "
    "All texts of up to 3-5 bytes over structural alphabets, all truncations and a grid of string lengths x special bytes x alignments are covered; beyond that it is "
    "sampled. Nesting beyond 1000 is a recorded finding.")
NOTES["P02"] = (
    "sanitized runs of the real parser against an independent recogniser of RFC 8259 + unique keys (exhaustive small texts, grammar generated texts, mutants)",
    "exploration",
    "Acceptance is compared with an independently written recogniser, itself cross-checked; exhaustive for short texts over "
    "structural alphabets, for all bytes in all kinds of places, and for all \\u escapes and pairs of escapes at the surrogate borders; sampled beyond.")
NOTES["P03"] = (
    "sanitized runs with an oracle of the known content (model walk), exhaustive over escapes, surrogate pairs and raw bytes",
    "exploration",
    "Values are walked through the public accessors and compared with content known before rendering. All 65536 escapes and all "
    "surrogate pairs (a subset in quick) are decoded; structure and sizes are sampled.")
NOTES["P04"] = (
    "sanitized runs against an independent JSONC recogniser, cross-checked against textual comment removal",
    "exploration",
    "As P02, for comments and trailing commas in every position between tokens; exhaustive for short texts over the comment alphabet.")
NOTES["P05"] = (
    "offline comparison of outcome logs recorded by a dozen builds and, inside each, by every container and packed-byte trait",
    "exploration",
    "Outcomes are digests of whole values; builds differ in compiler, level, standard, instruction set, char signedness and packed-byte macros. The code for ARM NEON is run under ASan with stand-ins for the intrinsics.")

NOTES["P06"] = (
    "sanitized runs of every dumping function judged by an independent parser and by the library's own, over generated values and histories",
    "exploration",
    "Every serialisation is read back by the independent recogniser and by json::parse; exhaustive over bytes, byte pairs and their places in short strings, sampled over structure, lengths and indents.")
NOTES["P07"] = (
    "trace monitor: values produced by random operation histories compared with the reference layout and with each other",
    "exploration",
    "Compact and formatted texts are compared token by token with a reference serialiser; equal contents by different histories must be equal with the same text, contents that differ in one place must not be.")
NOTES["P08"] = (
    "sanitized runs against independent integer and C-locale conversions, in four process locales",
    "exploration",
    "All 16-bit integers, limits and samples of wider ones; floating-point numbers of every binade, subnormals, ties; both precision modes; "
    "process locales with a decimal comma (a C++ locale and a compiled de_DE).")
NOTES["P09"] = (
    "sanitized runs against 128-bit integers and the C library's correctly rounding conversions, by every reading route, in four process locales",
    "exploration",
    "Exhaustive for short literals; limits, exact halfway points and extreme literals; refusal, exception type, is<T>() and result are all checked on each reading.")

NOTES["P10"] = (
    "sanitized runs with an independent description of 106 target types: is<T>(), every conversion route and the result are checked against it and each other",
    "exploration",
    "For each of 106 types (scalars, sequences, maps, tuples, pairs, optionals, smart pointers, variants, enums, reflected structs and nestings) JSON that fits, "
    "JSON with one place changed, and a fixed grid of values are judged by a structural description written independently of the library.")
NOTES["P11"] = (
    "sanitized round trips of generated data of 106 types (const, lvalue, rvalue; five ways back), against an independent description of their JSON",
    "exploration",
    "The JSON of every datum is compared with an independent rendering and read back by every route; moved-from sources are looked at for copy-only and move-only types. Values are sampled; types are a fixed list.")
NOTES["P12"] = (
    "sanitized runs of 100 generated reflected structs under a monitor that knows which fields, keys and modifiers each has",
    "exploration",
    "Structs of 1 to 64 arguments with all modifiers are generated by gen/structs.py, compiled against the tree, and read from complete, reduced, mismatched and extended objects; "
    "every field of the result is compared, including the ones that have to keep their prior content.")
NOTES["P13"] = (
    "generated enums (every wide underlying type, borders of the range, scoped and not, declared ranges), all enumerators, near misses and neighbouring numbers, by every route, in several builds",
    "exploration",
    "All enumerators of 19 generated enums are named, parsed, written and read in all builds (two compilers, several ranges, numbers mode), with hundreds of near misses for each name.")
NOTES["P14"] = (
    "trace monitor: random histories of copies, moves, swaps and aliased assignments over a world of slots, all compared with models after every step, under AddressSanitizer/UBSan and leak checking",
    "exploration",
    "After each step every slot, not only the touched one, is walked and compared with its model, so sharing shows; overlap between operands (self, part, whole) is generated on purpose and counted per kind.")
NOTES["P15"] = (
    "trace monitor: random operation histories over arrays, objects and values against std::vector and std::map models, all results and contents compared after every step, under sanitizers",
    "exploration",
    "Every operation's result and, through every accessor and all iterator kinds, the contents are compared after each step of long random histories; all sequences of up to three to four operations on an empty value are enumerated.")
NOTES["P16"] = (
    "sanitized runs of get, find, find_value, contains, exists, at and [] along chains that are right, spoiled or lead elsewhere, judged by a walk of the model",
    "exploration",
    "For 106 result types, all common kinds of keys and defaults, and chains of up to five links the result must be the converted element or the default, exactly as the model says; the value is compared with its model afterwards.")
NOTES["P17"] = (
    "fault injection: operator new replaced, each allocation of ~130 operations fails in turn (once, or from then on), monitors for leaks, sources, targets and usability after it, under AddressSanitizer/UBSan",
    "exploration",
    "Per operation and operands all allocations (a sample of 40 or 400 when there are more) are made to fail; operands are random, the operations a fixed list covering every public operation that allocates.")
NOTES["P18"] = (
    "ThreadSanitizer (gcc and clang) over unsynchronised threads in fresh processes, plus comparison of every thread's log with the same program run alone",
    "exploration",
    "About 240 operations (all const operations, conversions, first uses of enums and reflected structs, parsing, building) are run by 2 to 6 threads without any synchronisation by the harness, so every conflicting access pair of a run is visible to the race detector; schedules are sampled, overlapping pairs of operations are counted.")
NOTES["P19"] = (
    "sanitized differential runs: every content through files, streams (slow, short, breaking, positioned anywhere, reused) and literals against the same bytes in memory; fault injection on paths, permissions, descriptors and stream buffers",
    "exploration",
    "Contents are sampled (with exhaustive sets of byte order marks and single bytes, and sizes around all buffer borders up to 1 MiB); the kinds of unreadable source are a fixed list.")

NOTES["P21"] = (
    "call monitors inside of user conversions of 17 types in every position, both ways, plus contradicting, partial and move-only conversions, under AddressSanitizer",
    "exploration",
    "The user functions count their calls and make JSON nothing else would make; every route of every position is checked for data, for calls of the right functions and for none of the moving ones on lvalues.")
NOTES["P22"] = (
    "trace monitor: every const member, mutable operation, operator and conversion (106 types) applied to values it does not fit; exception type, text and the value afterwards checked against a model, under AddressSanitizer/UBSan",
    "exploration",
    "All operations meet all kinds of values, empty and not, in a grid and in random histories; conversions to 106 types by all routes on fitting and unfitting JSON; contents are sampled.")
NOTES["P20"] = (
    "deterministic cost monitors (executed edges by coverage instrumentation, bytes moved/set/compared by replaced memory functions, allocations by replaced operator new, iterator steps of a counting source) over families of growing inputs",
    "exploration",
    "About 200 fixed families of texts x 4 kinds of source, 20 operations, reflected structs in one another, plus random texts pumped at random places, measured at sizes up to 100 times apart (1000 in thorough); cost per byte may grow fourfold. Loops inside of the compiled C++ library count by bytes moved only.")
