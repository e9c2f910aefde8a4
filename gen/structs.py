"""Generates reflected structs of 1..64 macro arguments with known fields (for P12)."""
import random

TYPES = ["int", "unsigned", "long long", "double", "bool", "std::string", "std::vector<int>", "std::optional<int>",
         "std::map<std::string, bool>", "types::Color", "types::Point", "json::value", "std::shared_ptr<std::string>",
         "std::tuple<int, std::string>", "std::array<int, 2>", "std::variant<bool, std::string>", "json::object", "json::array"]
CHEAP = ["int", "bool", "std::string", "double", "std::vector<int>", "json::value"]
INIT = {"int": ["7", "-1"], "unsigned": ["9"], "long long": ["-5000000000LL"], "double": ["0.5"], "bool": ["true", "false"],
        "std::string": ['"default"'], "std::vector<int>": ["{ 4, 5 }"], "std::optional<int>": ["3"], "types::Color": ["types::Color::Green"],
        "json::value": ['"dv"'], "std::variant<bool, std::string>": ["true"], "std::tuple<int, std::string>": ['{ 1, "t" }'], "std::array<int, 2>": ["{ 1, 2 }"]}


def quote(s):
    out = ""
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif " " <= c <= "~":
            out += c
        else:
            out += "".join("\\%03o" % b for b in c.encode())
    return '"' + out + '"'


def names(rng, n):
    pool = ["a", "b", "ab", "A", "B", "id", "name", "x1", "x10", "_v", "value", "key", "result", "in", "error_key", "state", "rest",
            "to", "Name", "NAME", "f_", "list", "array_", "object_", "val", "i", "is_optional", "override_key"]
    rng.shuffle(pool)
    k = min(n, rng.randrange(0, len(pool)))
    r = pool[:k] + ["f%d" % i for i in range(n - k)]
    rng.shuffle(r)
    return r


def keys(rng, fields):
    """MEO_KEY names: special text, or the name of another field that has itself another key (a swap)"""
    special = ["", " ", "a b", "\u00e9\u4e2d\U0001F600", 'q"\\', "0", "null", "tab\there", "\x01", "a.b", "k" * 40, "{}", "//", "nested/key", "-", "__proto__"]
    rng.shuffle(special)
    out = {}
    chosen = [f for f in fields if rng.random() < 0.3]
    if len(chosen) >= 2 and rng.random() < 0.6:
        a, b = chosen[0], chosen[1]
        out[a], out[b] = b, a
        chosen = chosen[2:]
    for f in chosen:
        if special:
            out[f] = special.pop()
    return out


def struct(rng, name, nargs, types):
    """a struct whose macro has exactly nargs arguments"""
    fields = names(rng, nargs)
    ks = keys(rng, fields)
    out, args, used = [], [], 0
    desc = []
    plain = rng.random() < 0.3
    present = set()
    for f in fields:
        cost = 1
        key = None if plain else ks.get(f)
        opt = not plain and rng.random() < 0.3
        cost += (key is not None) + opt
        if used + cost > nargs:
            key, opt, cost = None, False, 1
        if used + cost > nargs:
            break
        # a swap needs both halves
        used += cost
        desc.append([f, key, opt])
    actual = set()
    for d in desc:
        k = d[1] if d[1] is not None else d[0]
        while k in actual:
            # no key twice: a private one instead
            if d[1] is None:
                k = None
                break
            d[1] = k = d[1] + "_"
        if k is None:
            d[0] = d[0] + "_u"
            k = d[0]
            while k in actual:
                d[0] += "_"
                k = d[0]
        actual.add(k)
    if all(d[2] for d in desc):
        desc[-1][2] = False  # (one argument less then: fine)
    members = []
    for f, key, opt in desc:
        t = rng.choice(types)
        init = ""
        if t in INIT and rng.random() < 0.7:
            init = " = " + rng.choice(INIT[t])
        elif t in ("int", "unsigned", "long long", "double", "bool"):
            init = " = 0"
        elif t == "types::Color":
            init = " = types::Color::Red"
        members.append((t, f, init))
        mods = []
        if opt:
            mods.append("MEO_OPT")
        if key is not None:
            mods.append("MEO_KEY(%s)" % quote(key))
        rng.shuffle(mods)
        args.append(" ".join(mods + [f]))
    out.append("struct %s\n{" % name)
    order = list(members)
    rng.shuffle(order)  # the order of the list counts, not that of the declarations
    for t, f, init in order:
        out.append("    %s %s%s;" % (t, f, init))
    out.append("    MEO_JSONIZATION(%s);" % ", ".join(args))
    out.append("};")
    out.append("template <> const std::vector<Field>& fields<%s>()\n{" % name)
    out.append("    static const std::vector<Field> f = {")
    for (t, f, _), (_, key, opt) in zip(members, desc):
        out.append("        field<%s>(offsetof(%s, %s), %s, %s)," % (t, name, f, quote(key if key is not None else f), "true" if opt else "false"))
    out.append("    };\n    return f;\n}")
    return "\n".join(out), len(desc)


def generate(part, parts, seed=1):
    rng = random.Random(1000 * seed + part)
    out, reg = [], []
    for n in range(1, 65):
        if n % parts != part:
            continue
        for rep in range(2 if n <= 8 else 1):
            name = "S%d_%d" % (n, rep)
            text, nf = struct(rng, name, n, TYPES if n <= 20 or n in (63, 64) else CHEAP)
            out.append(text)
            reg.append("    X(%s)" % name)
    # without any modifier, so that every argument is a field
    n = 64 - part
    r2 = random.Random(5000 * seed + part)
    name = "P%d" % n
    r2.random = lambda: 0.0  # plain
    text, nf = struct(r2, name, n, CHEAP)
    out.append(text)
    reg.append("    X(%s)" % name)
    return "\n\n".join(out) + "\n\n#define ALL(X) \\\n" + " \\\n".join(reg) + "\n"


if __name__ == "__main__":
    print(generate(1, 4))
