"""The configurations, and per property the jobs (harness x configuration) of its check."""
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))

from gen import enums, structs

TEST = ["-DMEOJSON_FS_PATH_EXTENSION", "-DMEOJSON_KEEP_FLOATING_PRECISION"]
WARN = ["-w"]
SAN = ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]
TSAN = ["-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]


def cfg(cxx, *flags):
    return dict(cxx=cxx, flags=WARN + list(flags))


CONFIGS = {
    # the options the tests are built with, under address + undefined-behaviour sanitizers
    "asan": cfg("g++", "-std=c++17", "-O1", *SAN, *TEST, "-msse4.1"),
    "asan0": cfg("g++", "-std=c++17", "-O0", *SAN, *TEST, "-msse4.1"),
    # the default options of a user of the library
    "asan-def": cfg("g++", "-std=c++17", "-O1", *SAN),
    "asan-fs": cfg("g++", "-std=c++17", "-O1", *SAN, "-DMEOJSON_FS_PATH_EXTENSION"),
    "asan-avx2": cfg("g++", "-std=c++20", "-O1", *SAN, *TEST, "-mavx2"),
    "asan-clang": cfg("clang++", "-std=c++17", "-O1", *SAN, *TEST, "-msse4.1"),
    "asan-scalar": cfg("g++", "-std=c++17", "-O1", *SAN, *TEST, "-DMEOJSON_DISABLE_PACKED_BYTES"),
    "tsan": cfg("g++", "-std=c++17", "-O1", *TSAN, *TEST, "-msse4.1", "-pthread"),
    "tsan-clang": cfg("clang++", "-std=c++17", "-O1", *TSAN, *TEST, "-msse4.1", "-pthread"),
    "o2": cfg("g++", "-std=c++17", "-O2", *TEST, "-msse4.1"),
    "asan-only": cfg("g++", "-std=c++17", "-O0", "-fsanitize=address", *TEST, "-msse4.1"),
    "o1": cfg("g++", "-std=c++17", "-O1", *TEST, "-msse4.1"),
    "o0": cfg("g++", "-std=c++17", "-O0", *TEST, "-msse4.1"),
    "o2-avx2": cfg("g++", "-std=c++20", "-O2", *TEST, "-mavx2"),
    "o2-clang": cfg("clang++", "-std=c++17", "-O2", *TEST, "-msse4.1"),
    # counts what is executed
    "edges": cfg("clang++", "-std=c++17", "-O1", "-fsanitize-coverage=trace-pc-guard", "-fno-builtin", *TEST, "-msse4.1", "-pthread"),
    "edges-def": cfg("clang++", "-std=c++17", "-O1", "-fsanitize-coverage=trace-pc-guard", "-fno-builtin", "-pthread"),
    # guided by coverage: libFuzzer makes the decisions of the generators
    "fuzz": cfg("clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DVF_FUZZ", *TEST, "-msse4.1"),
    "fuzz-avx2": cfg("clang++", "-std=c++20", "-O1", "-g1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all", "-DVF_FUZZ", *TEST, "-mavx2"),
    "o1-g": cfg("g++", "-std=c++17", "-O1", "-g1", *TEST, "-msse4.1"),
}


def have(tool):
    return lambda: any(os.access(os.path.join(d, tool), os.X_OK) for d in os.environ.get("PATH", "").split(":"))


def fuzz_runtime():
    try:
        p = subprocess.run(["clang++", "-print-file-name=libclang_rt.fuzzer_no_main-%s.a" % os.uname().machine], stdout=subprocess.PIPE, text=True).stdout.strip()
    except OSError:
        p = ""
    return p if os.path.isabs(p) and os.path.exists(p) else None


FUZZ_RUNTIME = fuzz_runtime()


def fuzz(src, sections, quick=None, thorough=1200, cfg="fuzz", name="fuzz", **more):
    """a job in which libFuzzer makes the decisions (or the text, of sections called fuzzed); seconds per shard"""
    j = dict(name=name, src=src, cfg=cfg, section=sections, shards=4 if quick else 8, shards_thorough=8, leaks=False,
             fuzz=dict(quick="400000,%d" % (quick or 0), thorough="100000000,%d" % thorough), needs=lambda: FUZZ_RUNTIME is not None,
             link=[FUZZ_RUNTIME or "", "-lpthread"], **more)
    if not quick:
        j["tier"] = "thorough"
    return j


VALGRIND = ["valgrind", "-q", "--error-exitcode=27", "--leak-check=no", "--track-origins=no"]

PROPS = {}

PROPS["P01"] = dict(
    rule="a case is a text (generated document, mutated, truncated, exhaustive small text, grid of string lengths x special "
         "bytes, deep or big text) given to every entry point at several places in memory; distinct by the hash of the text; "
         "non-trivial when it reaches the parser from outside the exhaustive families",
    assumptions=["nesting up to 1000", "the source containers have random-access iterators over char"],
    require=["parses", "accepted", "refused", "prefixes", "exhaustive texts", "depths", "big texts", "string lengths"],
    jobs=[dict(name="flood", src="p01.cpp", cfg="o2", defs=["VF_GUARD"], section="mutants,garbage", shards=8, scale=40),
        fuzz("p01.cpp", "fuzzed"),
        
        dict(name="asan", src="p01.cpp", cfg="asan", shards=8),
        dict(name="asan-avx2", src="p01.cpp", cfg="asan-avx2", shards=2, scale=0.25),
        dict(name="guard-avx2", src="p01.cpp", cfg="o2-avx2", defs=["VF_GUARD"], shards=2),
        dict(name="guard-sse41", src="p01.cpp", cfg="o2", defs=["VF_GUARD"], shards=2, tier="thorough"),
        dict(name="valgrind", src="p01.cpp", cfg="o1-g", shards=2, section="mutants", scale=0.02, wrap=VALGRIND, needs=have("valgrind")),
        dict(name="deep1", src="p01.cpp", cfg="o0", defs=["VF_DEEP"], shards=1, section="deep_array_1000000"),
        dict(name="deep2", src="p01.cpp", cfg="o0", defs=["VF_DEEP"], shards=1, section="deep_unclosed_array_1000000"),
        dict(name="deep3", src="p01.cpp", cfg="o0", defs=["VF_DEEP"], shards=1, section="deep_object_1000000"),
    ],
)

PROPS["P02"] = dict(
    rule="a case is a text judged by the independent recogniser and by json::parse from an exact string_view (accelerated) and "
         "from a deque (scalar); distinct by the hash of the text; the exhaustive families are not counted as non-trivial",
    assumptions=["texts with a NUL after the root are not judged", "bytes >= 0x80 are taken as they are"],
    require=["valid texts", "invalid texts", "exhaustive texts", "documents with every edit tried", "numbers with every edit tried", "unicode escapes", "texts with a repeated key", "bytes placed in strings", "big texts"],
    jobs=[dict(name="flood", src="p02.cpp", cfg="o2", section="documents,keys", shards=8, scale=50),
        fuzz("p02.cpp", "fuzzed"),
        
        dict(name="asan", src="p02.cpp", cfg="asan", shards=8),
        dict(name="edits", src="p02.cpp", cfg="o2", defs=["VF_EDITS"], section="every_edit,number_edits", shards=8),
        dict(name="avx2", src="p02.cpp", cfg="o2-avx2", shards=2, scale=0.5),
        dict(name="default", src="p02.cpp", cfg="asan-def", shards=4, scale=0.25),
        dict(name="clang", src="p02.cpp", cfg="o2-clang", shards=2, tier="thorough"),
    ],
)

PROPS["P03"] = dict(
    rule="a case is a valid text whose content is known in advance (generated value, every \\u escape, every surrogate pair, every "
         "raw byte, every size) and the parsed value is walked and compared with it from three kinds of source; distinct by text "
         "or by the code point / size under test",
    require=["values compared", "distinct documents", "valid mutants", "valid edits", "code points escaped", "surrogate pairs", "raw bytes", "numbers", "container sizes", "depths", "big documents"],
    jobs=[dict(name="flood", src="p03.cpp", cfg="o2", section="documents,mutated,numbers", shards=8, scale=50),
        fuzz("p03.cpp", "fuzzed"),
        
        dict(name="asan", src="p03.cpp", cfg="asan", shards=8),
        dict(name="edits", src="p03.cpp", cfg="o2", defs=["VF_EDITS"], section="every_edit", shards=8),
        dict(name="avx2", src="p03.cpp", cfg="o2-avx2", shards=2, scale=0.5),
        dict(name="default", src="p03.cpp", cfg="asan-def", shards=2, scale=0.2),
        dict(name="scalar", src="p03.cpp", cfg="asan-scalar", shards=2, scale=0.2, tier="thorough"),
    ],
)

PROPS["P04"] = dict(
    rule="a case is a text judged by the independent JSONC recogniser (itself cross-checked against stripping comments and "
         "commas textually) and by parse and parsec from contiguous and other memory; distinct by the hash of the text, exhaustive "
         "families not counted",
    assumptions=["texts with a NUL after the root are not judged"],
    require=["valid texts", "invalid texts", "texts valid in both modes", "oracle cross-checks", "exhaustive texts", "documents with every edit tried", "strings with comment marks", "big texts"],
    jobs=[dict(name="flood", src="p04.cpp", cfg="o2", section="documents,gaps,two_gaps", shards=8, scale=25),
        fuzz("p04.cpp", "fuzzed"),
        
        dict(name="asan", src="p04.cpp", cfg="asan", shards=8),
        dict(name="edits", src="p04.cpp", cfg="o2", defs=["VF_EDITS"], section="every_edit", shards=8),
        dict(name="avx2", src="p04.cpp", cfg="o2-avx2", shards=2, scale=0.5),
        dict(name="default", src="p04.cpp", cfg="asan-def", shards=2, scale=0.2),
        dict(name="clang", src="p04.cpp", cfg="o2-clang", shards=2, tier="thorough"),
    ],
)


def compare_outcomes(rdir, jobs, dones):
    """the logs of outcomes of all builds must be the same, record for record"""
    import struct
    viols, per, errors = [], {}, []
    rec = struct.Struct("<24sQQQQII")

    def load(j):
        out = []
        for s in range(64):
            p = os.path.join(rdir, "%s.%d.outcomes" % (j, s))
            if not os.path.exists(p):
                break
            with open(p, "rb") as fh:
                out.append(fh.read())
        return out

    base, base_name, compared = None, None, 0
    for j in jobs:
        logs = load(j)
        if not logs:
            continue
        per[j] = sum(len(x) for x in logs)
        if base is None:
            base, base_name = logs, j
            continue
        for shard, (a, b) in enumerate(zip(base, logs)):
            if a == b:
                compared += 1
                continue
            pa = 0
            while pa + rec.size <= len(a) and pa + rec.size <= len(b):
                ra, rb = rec.unpack_from(a, pa), rec.unpack_from(b, pa)
                kept = ra[6]
                if pa + rec.size + kept > min(len(a), len(b)):  # the log ends here: the process did not get further
                    errors.append("%s: the logs are of different length" % j)
                    break
                if ra != rb or a[pa:pa + rec.size + kept] != b[pa:pa + rec.size + kept]:
                    text = a[pa + rec.size:pa + rec.size + kept]
                    if ra[2] != rb[2]:
                        errors.append("%s: the logs are not of the same texts" % j)
                        break
                    what = "outcome (strict %x, jsonc %x) in build %s but (strict %x, jsonc %x) in build %s for %r" % (ra[3], ra[4], base_name, rb[3], rb[4], j, text)
                    viols.append(dict(key="build-differs:" + j, what=what, section=ra[0].split(b"\0")[0].decode(), case=ra[1],
                                      input=text.decode("latin1"), job=j, shard=shard))
                    break
                pa += rec.size + kept
            else:
                errors.append("%s: the logs are of different length" % j)
    return viols, errors, dict(builds_compared=sorted(per), log_bytes=per, equal_log_pairs=compared)


def cpu(flag):
    def f():
        try:
            return flag in open("/proc/cpuinfo").read().split()
        except OSError:
            return False
    return f


CONFIGS.update({
    "b-o0": cfg("g++", "-std=c++17", "-O0"),
    "b-o2": cfg("g++", "-std=c++17", "-O2", *TEST),
    "b-o3-sse41": cfg("g++", "-std=c++17", "-O3", "-msse4.1"),
    "b-20-avx2": cfg("g++", "-std=c++20", "-O2", "-mavx2"),
    "b-o3-avx2": cfg("g++", "-std=c++17", "-O3", "-mavx2", "-fno-inline-functions", *TEST),
    "b-disable": cfg("g++", "-std=c++17", "-O2", "-DMEOJSON_DISABLE_PACKED_BYTES"),
    "b-disable20": cfg("g++", "-std=c++20", "-O2", "-DMEOJSON_DISABLE_PACKED_BYTES"),
    "b-uchar": cfg("g++", "-std=c++20", "-O2", "-funsigned-char", "-msse4.1"),
    "b-clang-o2": cfg("clang++", "-std=c++17", "-O2"),
    "b-clang20-avx2": cfg("clang++", "-std=c++20", "-O3", "-mavx2"),
    "b-clang-o0": cfg("clang++", "-std=c++17", "-O0", "-msse4.1"),
    "b-clang-disable": cfg("clang++", "-std=c++17", "-O1", "-DMEOJSON_DISABLE_PACKED_BYTES"),
    "b-clang-uchar": cfg("clang++", "-std=c++17", "-O2", "-funsigned-char"),
    # the code for NEON, with the intrinsics replaced by their definitions
    "b-neon": cfg("g++", "-std=c++17", "-O1", *SAN, "-I" + os.path.join(HERE, "lib", "neon"), "-include", os.path.join(HERE, "lib", "neon", "prelude.hpp")),
    "b-os": cfg("g++", "-std=c++17", "-Os", "-msse4.1"),
})

PROPS["P05"] = dict(
    rule="a case is a text parsed in both modes by every build (compiler x level x standard x instruction set x macro) and, inside "
         "of each build, from every container, at random alignments and with every explicit packed-byte trait; outcomes are "
         "digests of the whole value; distinct by the hash of the text",
    assumptions=["x86-64 only: the NEON traits are run with stand-ins for the intrinsics; char signedness of other targets is imitated by -funsigned-char"],
    require=["texts", "parses", "distinct texts", "big texts"],
    offline=compare_outcomes,
    jobs=[dict(name=c, src="p05.cpp", cfg=c, shards=2, needs=cpu("avx2") if "avx2" in c else (lambda: True),
               **(dict(optional=True) if c == "b-neon" else {}),
               **(dict(tier="thorough") if c in ("b-os", "b-clang-uchar", "b-disable20", "b-o3-avx2") else {}))
          for c in CONFIGS if c.startswith("b-")]
    + [dict(name="traits-asan", src="p05.cpp", cfg="asan-avx2", defs=["VF_TRAITS"], shards=2, optional=True, needs=cpu("avx2")),
       dict(name="traits-sse2", src="p05.cpp", cfg="asan-def", defs=["VF_TRAITS"], shards=2, optional=True)],
)

PROPS["P06"] = dict(
    rule="a case is a value (generated, built by a random history, every byte and byte pair in strings and keys, string lengths, "
         "deep, wide, from C++ numbers) serialised by every function of value, array and object; the text is judged by the "
         "independent parser and by the library's; distinct by the compact text of the content",
    assumptions=["non-finite floating-point numbers are outside of the property (they have no JSON form)"],
    require=["serialisations", "parsed back", "distinct values", "small values", "byte positions", "deep values", "wide indents", "floating numbers", "history steps", "big values"],
    jobs=[dict(name="flood", src="p06.cpp", cfg="o2", section="values,histories,numbers", shards=8, scale=20),
        fuzz("p06.cpp", "fuzzed"),
        
        dict(name="asan", src="p06.cpp", cfg="asan", shards=8),
        dict(name="default", src="p06.cpp", cfg="asan-def", shards=2, scale=0.2),
        dict(name="small", src="p06.cpp", cfg="o2", defs=["VF_EDITS"], section="small", shards=8),
        dict(name="clang-o2", src="p06.cpp", cfg="o2-clang", shards=2, scale=0.5),
    ],
)

PROPS["P07"] = dict(
    rule="a case is a content: serialised by every function and compared with the reference layout, built by several random "
         "histories (all equal, same text) and compared with contents that differ in one place (unequal); distinct by compact text",
    assumptions=["how an empty container is laid out in formatted form is not prescribed"],
    require=["serialisations", "comparisons", "histories", "history steps", "perturbed pairs", "key sets", "layouts", "wide indents", "deep formats", "big values"],
    jobs=[dict(name="flood", src="p07.cpp", cfg="o2", section="documents,histories,keys,shapes", shards=8, scale=60),
        fuzz("p07.cpp", "documents,histories,keys,shapes"), 
        dict(name="asan", src="p07.cpp", cfg="asan", shards=8),
        dict(name="uchar", src="p07.cpp", cfg="b-uchar", shards=2, scale=0.5),
        dict(name="clang-o2", src="p07.cpp", cfg="o2-clang", shards=2, scale=0.5),
    ],
)

PROPS["P08"] = dict(
    rule="a case is a C++ number (all 16-bit integers, limits, powers, random; floating-point numbers of every kind and binade) made "
         "into a value in one of four locales; the text is compared with an independent conversion; distinct by number and type",
    assumptions=["non-finite floating-point numbers are outside of the property", "de_DE is compiled by the check from /usr/share/i18n (if that is missing, only a C++ locale with "
                 "changed facets is used)"],
    require=["integers", "floating numbers kept", "floating numbers rounded", "cases in a C++ locale with a comma", "values written to an odd stream"],
    jobs=[dict(name="flood", src="p08.cpp", cfg="o2", section="floats,rounding,integers", shards=8, scale=20),
        fuzz("p08.cpp", "floats,rounding,integers"), 
        dict(name="asan-keep", src="p08.cpp", cfg="asan", shards=4, leaks=False),
        dict(name="asan-six", src="p08.cpp", cfg="asan-def", shards=4, leaks=False),
        dict(name="o2-clang", src="p08.cpp", cfg="o2-clang", shards=2, scale=0.5),
    ],
)

PROPS["P09"] = dict(
    rule="a case is a number literal (exhaustive short ones, limits, exact halfway points, extreme magnitudes and lengths, random), "
         "parsed or constructed, read as each of nine types by four routes; distinct by literal",
    assumptions=["whether '-0' reads as an unsigned 0 or is refused is left open", "the C library's strtof/strtod/strtold round to nearest"],
    require=["readings", "refusals", "successes", "distinct literals", "exhaustive literals", "halfway points", "long literals", "readings of other types",
             "cases in a C++ locale with a comma"],
    jobs=[dict(name="flood", src="p09.cpp", cfg="o2", section="random_numbers,limits,halfway", shards=8, scale=20, leaks=False),
        fuzz("p09.cpp", "random_numbers,limits"), 
        dict(name="asan", src="p09.cpp", cfg="asan", shards=8, leaks=False),
        dict(name="default", src="p09.cpp", cfg="asan-def", shards=2, scale=0.2, leaks=False),
        dict(name="o2-clang", src="p09.cpp", cfg="o2-clang", shards=2, scale=0.3),
        # the way of reading floating-point numbers for libraries without std::from_chars
        dict(name="fallback", src="p09.cpp", cfg="o2-clang", defs=["VF_FALLBACK"], shards=1, scale=0.3, optional=True,
             flags=["-include", os.path.join(HERE, "lib", "no_from_chars.hpp")]),
    ],
)

GROUPS = ["scalars", "sequences", "maps", "tuples", "nullable", "variants", "structs"]

PROPS["P10"] = dict(
    rule="a case is a value and one of %d types: JSON of the right kind, the same with one place changed, any JSON, and a fixed grid; "
         "is<T>() is compared with an independent description of the type and with the outcome of every route of conversion; "
         "distinct by type and text" % 106,
    assumptions=["reflected structs with only optional fields are not asked about non-objects", "narrow integer types (short, char) do not compile as targets",
                 "casts to std::optional<T> and std::tuple<T> prefer a constructor of the target (language rule), so only as<T>() is judged for these"],
    require=["fitting values", "values that do not fit", "conversions", "successes", "refusals", "grid values", "big values"],
    jobs=[dict(name=n, src="p10.cpp", cfg="asan", defs=["VF_GROUP=%d" % i], shards=2) for i, n in enumerate(GROUPS)]
    + [dict(name="flood-" + n, src="p10.cpp", cfg="o1", defs=["VF_GROUP=%d" % i], section="near,any", shards=2, scale=20) for i, n in enumerate(GROUPS)]
    + [dict(name=n + "-clang", src="p10.cpp", cfg="o2-clang", defs=["VF_GROUP=%d" % i], shards=2, tier="thorough") for i, n in enumerate(GROUPS)]
    + [dict(name=n + "-c++20", src="p10.cpp", cfg="asan-avx2", defs=["VF_GROUP=%d" % i], shards=2, tier="thorough") for i, n in enumerate(GROUPS)],
)

PROPS["P11"] = dict(
    rule="a case is generated data of one of 106 types, converted as const lvalue, lvalue and rvalue, in containers, and back by five "
         "routes, compared with an independent description of its JSON; distinct by type and text",
    assumptions=["a variant reads back as the first alternative that accepts the JSON", "nested empty optionals are not distinguished",
                 "with the default options floating-point numbers are kept to six decimals"],
    require=["distinct data", "trips", "one-way sources", "big data"],
    jobs=[dict(name=n, src="p11.cpp", cfg="asan", defs=["VF_GROUP=%d" % i], shards=2) for i, n in enumerate(GROUPS)]
    + [dict(name="flood-" + n, src="p11.cpp", cfg="o1", defs=["VF_GROUP=%d" % i], section="trips", shards=2, scale=10) for i, n in enumerate(GROUPS)]
    + [dict(name=n + "-default", src="p11.cpp", cfg="asan-def", defs=["VF_GROUP=%d" % i], shards=1, tier="thorough", scale=0.5) for i, n in enumerate(GROUPS)]
    + [dict(name=n + "-clang20", src="p11.cpp", cfg="b-clang20-avx2", defs=["VF_GROUP=%d" % i, "MEOJSON_FS_PATH_EXTENSION"], shards=1, tier="thorough") for i, n in enumerate(GROUPS)],
)

PROPS["P12"] = dict(
    rule="a case is an object for one of 100 generated reflected structs (1 to 64 arguments of the macro, modifiers, keys that are swapped, "
         "empty or special): made from data, with fields dropped, mismatched or joined by similar names, and each field alone; distinct by struct and text",
    assumptions=["a struct has at least one required field (what one of only optional fields does with a non-object is left open)",
                 "keys given to MEO_KEY are C strings without NUL"],
    require=["distinct objects", "readings", "accepted", "refused", "absent optional fields", "unknown members", "single fields"],
    jobs=[dict(name="part%d" % i, src="p12.cpp", cfg="asan", shards=1, gen=(lambda i=i: structs.generate(i, 8))) for i in range(8)]
    + [dict(name="flood%d" % i, src="p12.cpp", cfg="o1", shards=1, scale=40, gen=(lambda i=i: structs.generate(i, 8))) for i in range(8)]
    + [dict(name="clang%d" % i, src="p12.cpp", cfg="o2-clang", shards=1, tier="thorough", gen=(lambda i=i: structs.generate(i, 8, 2))) for i in range(8)],
)

PROPS["P13"] = dict(
    rule="a case is an enumerator (all of 19 generated enums: dense, at the border of the range, of every wide underlying type, scoped and not, "
         "with declared ranges) with hundreds of near misses of its name, or a number near any border; distinct by enum and name",
    assumptions=["underlying types narrower than int do not compile as targets", "aliases and the marks of a declared range have no name of their own"],
    require=["enumerators", "conversions", "strings matched", "strings refused", "numbers converted", "numbers refused", "raw values", "other kinds"],
    jobs=[
        dict(name="asan%d" % i, src="p13.cpp", cfg="asan", shards=2, gen=(lambda i=i: enums.generate(part=(i, 4)))) for i in range(4)
    ] + [
        dict(name="as-number", src="p13.cpp", cfg="o0", defs=["MEOJSON_ENUM_AS_NUMBER"], shards=2, scale=0.25, gen=lambda: enums.generate()),
        dict(name="clang", src="p13.cpp", cfg="b-clang-o0", shards=2, scale=0.5, gen=lambda: enums.generate()),
        dict(name="range", src="p13.cpp", cfg="o0", defs=["MEOJSON_ENUM_REFLECTION_MIN_ENUMS=-20", "MEOJSON_ENUM_REFLECTION_MAX_ENUMS=300"], shards=2, scale=0.5,
             gen=lambda: enums.generate(-20, 300, 2)),
        dict(name="range+", src="p13.cpp", cfg="o2", defs=["MEOJSON_ENUM_REFLECTION_MIN_ENUMS=10", "MEOJSON_ENUM_REFLECTION_MAX_ENUMS=60"], shards=2, tier="thorough",
             gen=lambda: enums.generate(10, 60, 3)),
    ],
)

PROPS["P14"] = dict(
    rule="a case is a history of up to 44 copies, moves, swaps, assignments, merges and changes between random nodes of four values, an "
         "array and an object (overlapping, equal or apart), all compared with their models after every step; distinct by the sequence of operations",
    assumptions=["a whole is not moved into a part of itself (there is no such result)", "what a moved-from value holds is open, but it has to be a value"],
    require=["steps", "comparisons", "moved-from values", "paths assigned to the root", "op self-copy", "op self-move", "op copy of a part", "op move of a part",
             "op copy of the whole into a part", "op object |= its own member", "op array = part", "op object = part", "big values"],
    jobs=[dict(name="flood", src="p14.cpp", cfg="o2", section="histories,aliasing", shards=8, scale=12),
        fuzz("p14.cpp", "histories,aliasing"), 
        dict(name="asan", src="p14.cpp", cfg="asan", shards=8),
        dict(name="clang", src="p14.cpp", cfg="asan-clang", shards=2, scale=0.3),
        dict(name="o2", src="p14.cpp", cfg="o2-avx2", shards=2, tier="thorough"),
    ],
)

PROPS["P15"] = dict(
    rule="a case is a history of up to 64 operations over three arrays, three objects and three values, all results and (through every "
         "accessor and iterator) the contents compared with std::vector and std::map models after each; distinct by the sequence of operations",
    assumptions=["keys repeated in one initializer list or C++ multimap are not judged", "erase() on an empty value may leave it or make it an empty container",
                 "const + and | on an empty value that is no container may refuse or give the other operand"],
    require=["steps", "comparisons", "arrays compared", "objects compared", "values compared", "exhaustive sequences", "big elements", "own parts inserted", "own parts inserted at a likely border", "huge containers"],
    jobs=[dict(name="flood", src="p15.cpp", cfg="o2", section="histories", shards=8, scale=9),
        fuzz("p15.cpp", "histories"), 
        dict(name="asan", src="p15.cpp", cfg="asan", shards=8),
        dict(name="clang", src="p15.cpp", cfg="asan-clang", shards=2, scale=0.2),
        dict(name="o2-20", src="p15.cpp", cfg="o2-avx2", shards=2, scale=0.5, tier="thorough"),
    ],
)

PROPS["P16"] = dict(
    rule="a case is a document with an element placed at the end of a chain of keys and positions, looked up along this chain and along spoiled ones "
         "(other kinds, keys, positions, longer, shorter) for one of the types; distinct by type, chain and document",
    assumptions=["a default that is a string of any kind gives a std::string", "-0 as an unsigned number is left open"],
    require=["get()", "find()", "links looked up", "elements found and converted", "elements of another type", "absent elements", "key kinds", "lookups through scalars", "key bytes", "big values", "big lookups"],
    jobs=[dict(name="flood", src="p16.cpp", cfg="o2", section="kinds", shards=8, scale=300, defs=["VF_KEYS=1"]),
        fuzz("p16.cpp", "kinds", defs=["VF_KEYS=1"]), fuzz("p16.cpp", "chains,through_scalars", name="fuzz-chains", defs=["VF_KEYS=2"]), dict(name="kinds", src="p16.cpp", cfg="asan0", defs=["VF_KEYS=1"], shards=2), dict(name="chains", src="p16.cpp", cfg="asan0", defs=["VF_KEYS=2"], shards=3)]
    + [dict(name=n, src="p16.cpp", cfg="asan0", defs=["VF_GROUP=%d" % i], shards=1) for i, n in enumerate(GROUPS)]
    + [dict(name="flood-" + n, src="p16.cpp", cfg="o1", defs=["VF_GROUP=%d" % i], section="types_", shards=1, scale=40) for i, n in enumerate(GROUPS)]
    + [dict(name=n + "-clang", src="p16.cpp", cfg="o2-clang", defs=["VF_GROUP=%d" % i], shards=1, tier="thorough") for i, n in enumerate(GROUPS)],
)

PROPS["P17"] = dict(
    rule="a case is one of 130 operations on random operands; its allocations are counted, then each (or a sample of 40, resp. 400) is made to fail, alone and with "
         "all later ones; distinct by operation and number of allocations",
    assumptions=["failures of allocation inside of iostreams may be reported by the stream's state instead of std::bad_alloc",
                 "long double literals of more than 512 digits are not used (the C++ library reports their failures of allocation as unreadable numbers)",
                 "operators new other than aligned ones are replaced"],
    require=["failures injected", "operations that allocate", "allocations counted"],
    jobs=[
        dict(name="asan", src="p17.cpp", cfg="asan", shards=8),
        dict(name="clang", src="p17.cpp", cfg="o2-clang", shards=2, tier="thorough"),
    ],
)

PROPS["P18"] = dict(
    rule="a case is a fresh process in which 2 to 6 threads run programs of up to 16 of 240 operations on shared const values and on their own, "
         "followed by the same programs alone; distinct counts the unordered pairs of operations seen overlapping in time",
    assumptions=["the C++ library itself is not instrumented by ThreadSanitizer", "x86-64 time stamp counter"],
    require=["processes", "operations run in threads", "operations that overlapped in time", "mixed", "lockstep", "nothing used before", "first uses of enums and structs"],
    jobs=[
        dict(name="tsan", src="p18.cpp", cfg="tsan", shards=6),
        dict(name="tsan-clang", src="p18.cpp", cfg="tsan-clang", shards=3, scale=0.3),
        dict(name="o2", src="p18.cpp", cfg="o2", flags=["-pthread"], shards=3),
        dict(name="asan", src="p18.cpp", cfg="asan", flags=["-pthread"], shards=3, scale=0.3, tier="thorough"),
    ],
)

PROPS["P19"] = dict(
    rule="a case is a content (document, mutant, size at a border, byte order mark, single bytes) given as file, stream and literal by all routes and flags and compared with "
         "the same bytes in memory, or a source that cannot be read, breaks or is short; distinct by the bytes",
    assumptions=["a stream that cannot be seeked in, or is in a failed state, may be refused or read", "exceptions() of the stream are off", "files do not change while they are read"],
    require=["comparisons", "accepted", "refused", "files opened", "repeated parses of one stream", "literals", "valid literals", "sizes", "marks", "bytes placed", "sources that cannot be read",
             "faulty streams", "written literals", "long streams", "giant streams"],
    jobs=[dict(name="flood", src="p19.cpp", cfg="o2", section="documents,faults", shards=8, scale=40),
        dict(name="asan", src="p19.cpp", cfg="asan", shards=6),
        dict(name="fs", src="p19.cpp", cfg="asan-fs", shards=2, scale=0.2),
        dict(name="clang", src="p19.cpp", cfg="asan-clang", shards=2, scale=0.3),
        dict(name="giant", src="p19.cpp", cfg="o2", defs=["VF_GIANT"], shards=1, memory_mb=24000, section="giant_streams"),
    ],
)

P21_PARTS = dict(member=10, spec=11, vec=12, map=13, text=14, tags=15, pair=16, seconds=17, mover=18, struct=2, odd_member=3, odd_spec=5, odd_mover=6, partial=4)

PROPS["P21"] = dict(
    rule="a case is an object of one of 17 types with conversions of their own (members, specialisations, moving ones, derived from or standing in for standard types) in one of "
         "the positions, converted both ways by every route with its calls counted and its JSON compared, or a JSON value given to types whose check and loading contradict each other; "
         "distinct by type and text",
    assumptions=["a default for get() that is convertible to std::string stands for that string", "enums and std::filesystem::path with a specialisation do not compile",
                 "json::array::as<T>() and object::as<T>() are about the elements of T", "the loading of a type with only the moving functions compiles for rvalues and for casts",
                 "what get(), find() and the fields of structs do for a type whose check and loading contradict each other is open, as long as it is no half-loaded object"],
    require=["checks counted", "conversions counted", "odd checks", "odd loads", "odd lookups", "odd fields", "one-way conversions", "moves only", "overridden types", "casts of arrays and objects", "whole conversions", "whole refusals",
             "fitting values", "trips", "get()", "find()"],
    jobs=[dict(name=n, src="p21.cpp", cfg="asan-only", defs=["VF_PART=%d" % i], shards=1) for n, i in P21_PARTS.items()]
    + [dict(name="%s-%d" % (p, i), src=p + ".cpp", cfg="asan-only", defs=["VF_GROUP=%d" % i], shards=1, scale=0.3) for p in ("p10", "p11", "p16") for i in (7, 8)]
    + [dict(name=n + "-clang", src="p21.cpp", cfg="b-clang-o0", defs=["VF_PART=%d" % i, "MEOJSON_KEEP_FLOATING_PRECISION"], shards=1, tier="thorough") for n, i in P21_PARTS.items()]
    + [dict(name="%s-%d-ub" % (p, i), src=p + ".cpp", cfg="asan0", defs=["VF_GROUP=%d" % i], shards=2, tier="thorough") for p in ("p10", "p11", "p16") for i in (7, 8)],
)

PROPS["P22"] = dict(
    rule="a case is a value with a const member, mutable operation, conversion or operator that does not fit it (or fits, as the control), or a history of them; the exception, its "
         "text and the value afterwards are compared with the model; distinct by type and text, resp. by state",
    assumptions=["[position] out of the range of an array, also of one that was just made from an empty value, is undefined and not used",
                 "erasing from, or appending nothing to, an empty value may leave it or turn it into a container", "the message about a bad element need not name its type",
                 "an empty value that is no container may be refused or taken as an empty one by + and |",
                 "a failed conversion of an rvalue may have used up parts of it unless its own kind was wrong"],
    require=["mismatches", "refusals", "harmless uses", "values compared afterwards", "empty values opened", "uses that fit", "bad enumerators"],
    jobs=[dict(name="flood", src="p22.cpp", cfg="o2", section="constants,histories,moved_operands", shards=8, scale=50),
        fuzz("p22.cpp", "constants,histories,moved_operands"), dict(name="ops", src="p22.cpp", cfg="asan", shards=4), dict(name="ops-clang", src="p22.cpp", cfg="asan-clang", shards=2, scale=0.3)]
    + [dict(name=n, src="p22.cpp", cfg="asan-only", defs=["VF_GROUP=%d" % i], shards=1) for i, n in enumerate(GROUPS)],
)

PROPS["P20"] = dict(
    rule="a case is a family of texts or values (fixed, or a random text pumped or repeated) measured at sizes that differ by 64 and more, from one kind of source or under one "
         "operation; what is counted per byte may grow fourfold at most; distinct by family",
    assumptions=["work inside of the C and C++ libraries is counted by bytes moved, set and compared and by allocations only", "nests are at most 30000 deep, on a stack that is big enough",
                 "a constant factor is not judged, only growth with the size"],
    require=["measurements", "cost comparisons", "edges counted", "bytes moved", "bytes allocated", "iterator steps", "accepted families", "refused families", "families x sources", "operations measured",
             "pumped texts", "repeated structures", "loops of operations", "families of structs in structs"],
    jobs=[
        dict(name="edges", src="p20.cpp", cfg="edges", shards=8),
        dict(name="edges-def", src="p20.cpp", cfg="edges-def", shards=4, tier="thorough", scale=0.2),
    ],
)
