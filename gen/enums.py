"""Generates the enums of P13 with their enumerators."""
import random

INT = "int"


def emit(name, base, pairs, lo, hi, tail="", scoped=True, struct_of=None, anon=False, args=""):
    """pairs: (enumerator, value)"""
    body = ",\n    ".join("%s = %s" % (n, lit(v, base)) for n, v in pairs)
    head = "enum %s%s%s" % ("class " if scoped else "", name.split("::")[-1], " : " + base if base else "")
    out = "%s\n{\n    %s%s\n};\n" % (head, body, (",\n    " + tail) if tail else "")
    if struct_of:
        out = "%sstruct %s\n{\n%s};\n" % ("template <typename...>\n" if args else "", struct_of, out)
    elif "::" in name:
        out = "namespace %s\n{\n%s}\n" % ("::".join(name.split("::")[:-1]), out)
    if anon:
        out = "namespace\n{\n" + out + "}\n"
    full = name if not struct_of else struct_of + args + "::" + name
    ident = "".join(c if c.isalnum() else "_" for c in full)
    out += "namespace\n{\nstruct Info_%s\n{\n    using E = %s;\n    static const char* name() { return \"%s\"; }\n" % (ident, full, full)
    out += "    static const std::vector<Enumerator<E>>& list()\n    {\n        static const Enumerator<E> all[] = {\n"
    for n, v in pairs:
        # a value above the range that an int in the range converts to (-1 of an unsigned type) is left open
        wraps = v >= 2**63 or (base == "unsigned" and v >= 2**31)
        out += "            { %s::%s, \"%s\", %s },\n" % (full, n, n, "Open" if wraps else "Yes" if lo <= v <= hi else "No")
    out += "        };\n        static const std::vector<Enumerator<E>> r(std::begin(all), std::end(all));\n        return r;\n    }\n    static constexpr bool marked = %s;\n    static constexpr bool fixed = %s;\n    static constexpr long long lo = %s, hi = %s;\n};\n" % (
        "true" if tail else "false", "true" if scoped or base else "false", ll(lo), ll(hi))
    out += "} // namespace\n"
    return out, ident


def ll(v):
    return "(-9223372036854775807LL - 1)" if v == -2**63 else "%dLL" % v


def lit(v, base):
    if v == -2**63:
        return "(-9223372036854775807LL - 1)"
    if v == -2**31:
        return "(-2147483647 - 1)"
    suf = "ULL" if v > 2**63 - 1 else "LL" if abs(v) > 2**31 - 1 else ""
    return "%d%s" % (v, suf)


WORDS = ["Red", "green", "BLUE", "a", "Z", "A_", "_x", "x__y", "Idle1", "Idle10", "Idle100", "none", "None_", "null_", "True", "FALSE", "enum_", "value",
         "name", "V", "E", "very_long_enumerator_name_that_goes_on_and_on_for_more_than_sixty_four_bytes_0123456789", "with", "size_t_", "operator_",
         "begin", "end", "min", "max", "min_", "MAX_", "unknown", "Unknown1", "not_", "I", "l", "O0", "invalid", "int_", "string", "number"]


def generate(lo=-128, hi=128, seed=1, marks=True, part=None):
    rng = random.Random(seed)
    out, ids = [], []

    def add(*a, **k):
        t, i = emit(*a, **k)
        out.append(t)
        ids.append(i)

    def some(n, vals):
        w = WORDS[:]
        rng.shuffle(w)
        return list(zip(w[:n], vals))

    # dense: each value of the default range
    add("Dense", None, [("v%s%d" % ("m" if v < 0 else "", abs(v)), v) for v in range(lo, hi + 1)], lo, hi)
    # the border, inside and outside
    add("Border", None, [("lowest", lo), ("below", lo - 1), ("highest", hi), ("above", hi + 1), ("zero", 0) if lo <= 0 else ("z", lo + 1), ("far", hi + 5000), ("minus", lo - 5000)], lo, hi)
    add("Plain", None, some(20, rng.sample(range(lo, hi), 20)), lo, hi)
    add("One", None, [("only", lo + (hi - lo) // 2)], lo, hi)
    # names that begin or end with each other, or differ in case only
    add("Names", None, list(zip(["a", "ab", "abc", "b", "Abc_", "ABC__", "aBcD", "x", "X", "xX", "XX", "xx"], range(max(lo, 0), hi + 1))), lo, hi)
    add("ns::inner::Scoped", None, some(9, rng.sample(range(lo, hi), 9)), lo, hi)
    add("Member", None, some(5, rng.sample(range(lo, hi), 5)), lo, hi, struct_of="Holder")
    # underlying types
    add("Unsigned", "unsigned", some(10, [v for v in rng.sample(range(max(lo, 0), hi), 9)] + [2**32 - 1]), lo, hi)
    add("Long", "long", some(10, rng.sample(range(lo, hi), 8) + [2**40, -2**63]), lo, hi)
    add("LongLong", "long long", some(12, rng.sample(range(lo, hi), 6) + [2**32 + max(lo, 1), 2**63 - 1, -2**63, -2**32, 2**32 + hi, 2**31]), lo, hi)
    add("ULongLong", "unsigned long long", some(9, rng.sample(range(max(lo, 0), hi), 5) + [2**64 - 1, 2**63, 2**32 + max(lo, 0) + 1, 2**64 - 100]), lo, hi)
    add("ULong", "unsigned long", some(6, rng.sample(range(max(lo, 0), hi), 4) + [2**64 - 2, 2**33]), lo, hi)
    add("Unscoped", "int", [("un_" + n, v) for n, v in some(8, rng.sample(range(lo, hi), 8))], lo, hi, scoped=False)
    add("Global", "int", [(n + "_g", v) for n, v in some(7, rng.sample(range(lo, hi), 7))], lo, hi, scoped=False)
    add("Hidden", None, some(6, rng.sample(range(lo, hi), 6)), lo, hi, anon=True)
    add("HiddenPlain", "int", [("hp_" + n, v) for n, v in some(6, rng.sample(range(lo, hi), 6))], lo, hi, anon=True, scoped=False)
    add("Kind", None, some(6, rng.sample(range(lo, hi), 6)), lo, hi, struct_of="Template", args="<int, std::string>")
    add("V", None, some(4, rng.sample(range(lo, hi), 4)), lo, hi)
    add("E_V", None, some(4, rng.sample(range(lo, hi), 4)), lo, hi)
    # declared ranges: from the first to the last enumerator, and not
    if marks:
        add("Ranged", None, [("first", -300), ("second", -299), ("mid", 0), ("almost", 299), ("last", 300), ("outside", 301), ("under", -301)], -300, 300, tail="MEOJSON_ENUM_RANGE(first, last)")
        add("Narrow", None, [("n%d" % i, i) for i in range(12)], 3, 7, tail="MEOJSON_ENUM_RANGE(n3, n7)")
        add("OnlyOne", None, [("single", 4000), ("other", 4001)], 4000, 4000, tail="MEOJSON_ENUM_RANGE(single, single)")
        add("High", "unsigned long long", [("h%d" % i, i) for i in (70000, 70001, 70100)] + [("out", 62999), ("huge", 2**32 + 70050), ("top", 2**64 - 1)], 70000, 70100, tail="MEOJSON_ENUM_RANGE(h70000, h70100)")
        add("Low", "long long", [("far_down", -70100), ("near", -70001), ("up", -70000), ("out", -62999), ("wide", -2**33 - 70050)], -70100, -70000, tail="MEOJSON_ENUM_RANGE(far_down, up)")
        add("OldStyle", None, [("os_a", 0), ("os_b", 1), ("os_c", 2), ("os_d", 7)], 0, 7, tail="MEOJSON_ENUM_RANGE(os_a, os_d)", scoped=False)
    if part is not None:
        out = [o for i, o in enumerate(out) if i % part[1] == part[0]]
        ids = [o for i, o in enumerate(ids) if i % part[1] == part[0]]
    return "\n".join(out) + "\n#define ALL(X) \\\n" + " \\\n".join("    X(%s)" % i for i in ids) + "\n"


if __name__ == "__main__":
    print(generate())
