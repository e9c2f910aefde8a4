// P06: every serialisation is valid JSON with the content of the value, and parses back to an equal one.
#include "hist.hpp"

using namespace conv;
using ref::Ref;
using vf::u64;

namespace
{
void high_bytes(std::string& r, const std::string& s)
{
    for (const char c : s) {
        if (static_cast<unsigned char>(c) >= 0x80) {
            r += c;
        }
    }
}

void high_bytes(std::string& r, const MV& m)
{
    if (m.k == MV::Str) {
        high_bytes(r, m.s);
    }
    for (auto& x : m.a) {
        high_bytes(r, x);
    }
    for (auto& [k, x] : m.o) {
        high_bytes(r, k);
        high_bytes(r, x);
    }
}

enum Fn
{
    ToString,
    Dumps,
    DumpsIndent,
    Format,
    FormatIndent,
    Stream,
    COUNT
};

const char* const fn_name[] = { "to_string()", "dumps()", "dumps(indent)", "format()", "format(indent)", "operator<<" };

template <typename V>
std::string text_of(const V& v, Fn f, size_t indent)
{
    switch (f) {
    case ToString:
        return v.to_string();
    case Dumps:
        return v.dumps();
    case DumpsIndent:
        return v.dumps(indent);
    case Format:
        return v.format();
    case FormatIndent:
        return v.format(indent);
    default: {
        std::ostringstream os;
        os << v;
        return os.str();
    }
    }
}

template <typename V>
void judge_text(const V& v, const MV& m, const std::string& highs, Fn f, size_t indent)
{
    const bool container = m.k == MV::Arr || m.k == MV::Obj;
    const std::string t = text_of(v, f, indent);
    VF_COUNT("serialisations");
    auto where = [&] { return std::string(fn_name[f]) + " with indent " + std::to_string(indent) + " gives " + vf::printable(t); };
    const Ref r = ref::parse(container ? t : "[" + t + "]", false);
    if (r.v != Ref::accept) {
        vf::violation("not-json", where(), t);
        return;
    }
    if (r.val != (container ? m : MV::arr({ m }))) {
        vf::violation("other-content", where(), t);
        return;
    }
    std::string h;
    high_bytes(h, t);
    if (h != highs) {
        vf::violation("not-transparent", where(), t);
    }
    if (container) {
        const auto p = json::parse(t);
        if (!p) {
            vf::violation("not-parsed-back", where(), t);
            return;
        }
        if (!(*p == v) || *p != v) {
            vf::violation("not-equal-after-parsing", where(), t);
        }
        if (text_of(*p, f, indent) != t) {
            vf::violation("text-not-stable", where(), t);
        }
        const std::string d = differs(*p, m);
        if (!d.empty()) {
            vf::violation("content-after-parsing", d + "; " + where(), t);
        }
        VF_COUNT("parsed back");
        if (f == ToString || f == FormatIndent) {
            const auto c = json::parsec(t);
            if (!c || !(*c == v)) {
                vf::violation("not-equal-after-parsec", where(), t);
            }
        }
    }
}

void judge(Rng& g, const json::value& v, const MV& m, bool all = true)
{
    vf::input(ref::dump(m));
    VF_COUNT("evaluations");
    if (vf::distinct(vf::hash_bytes(ref::dump(m)))) {
        VF_COUNT("distinct values");
    }
    std::string highs;
    high_bytes(highs, m);
    static const size_t widths[] = { 0, 1, 2, 3, 4, 7, 8, 15, 33 };
    for (int f = 0; f < COUNT; ++f) {
        if (!all && f != ToString && f != FormatIndent) {
            continue;
        }
        const size_t indent = g.pick(widths);
        judge_text(v, m, highs, static_cast<Fn>(f), indent);
        if (m.k == MV::Arr) {
            judge_text(v.as_array(), m, highs, static_cast<Fn>(f), indent);
        }
        else if (m.k == MV::Obj) {
            judge_text(v.as_object(), m, highs, static_cast<Fn>(f), indent);
        }
    }
}
}

#ifdef VF_FUZZ
[[maybe_unused]] const bool seeded = [] {
    vf::seed_text = [](vf::Rng& g) {
        const bool jsonc = false;
        const std::string t = ref::render_doc(g, ref::gen_doc(g, 20, 5, 40), ref::gen_style(g, jsonc));
        return g.chance(1, 3) ? ref::mutate(g, t, jsonc) : t;
    };
    return true;
}();
#endif

// bytes as they come; guided by coverage in the fuzzing builds
SECTION(fuzzed, 4000, 200000)
{
    const std::string t = rng.rest();
    const Ref r = ref::parse(t, false);
    if (r.v == Ref::accept) {
        vf::Rng g(vf::hash_bytes(t));
        judge(g, build(r.val), r.val, idx % 8 == 0);
    }
}

SECTION(values, 4000, 150000)
{
    MV m = ref::gen_doc(rng, 40, 6, 300);
    if (rng.chance(1, 6)) {
        m = ref::gen_scalar(rng);
    }
    if (idx < 3) {
        vf::sample(vf::printable(ref::dump(m), 200));
    }
    judge(rng, build(m), m);
}

#ifdef VF_EDITS // in a build without sanitizers, which is faster
// many small ones
SECTION(small, 400000, 8000000)
{
    const MV m = ref::gen_doc(rng, 12, 4, 3);
    judge(rng, build(m), m, idx % 16 == 0);
    VF_COUNT("small values");
}
#endif

SECTION(histories, 2500, 100000)
{
    MV m = ref::gen_doc(rng, 25, 5, 80);
    judge(rng, hist::make(rng, m), m, rng.chance(1, 3));
    vf::ctx().counters["history steps"] += hist::steps();
    hist::steps() = 0;
}

// every byte, at every place of small strings and keys, next to every kind of neighbour
SECTION(bytes, 256, 256)
{
    const char b = static_cast<char>(idx);
    for (size_t len = 1; len <= 40; len += len < 18 ? 1 : 7) {
        for (size_t pos = 0; pos < len; ++pos) {
            std::string s(len, 'x');
            s[pos] = b;
            const MV m = MV::arr({ MV::str(s), MV::obj({ { s, MV::null() } }) });
            judge(rng, build(m), m, false);
            VF_COUNT("byte positions");
        }
    }
    static const char next[] = { '"', '\\', 'u', 'n', '\n', '\x01', '\x7f', '\x1f', '0', '/', '\0', '\xe4', '\xff' };
    for (const char c : next) {
        for (const char d : next) {
            const std::string s { c, b, d };
            const MV m = MV::arr({ MV::str(s), MV::str({ b, b, c }) });
            judge(rng, build(m), m, false);
        }
    }
}

// every pair of bytes
SECTION(byte_pairs, 256, 256)
{
    MV m = MV::arr();
    MV o = MV::obj();
    for (int c = 0; c < 256; ++c) {
        const std::string s { static_cast<char>(idx), static_cast<char>(c) };
        m.a.push_back(MV::str(s));
        o.o[s] = MV::boolean(c % 2);
    }
    judge(rng, build(m), m);
    judge(rng, build(o), o);
}

SECTION(string_lengths, 700, 3000)
{
    std::string s(idx, 'a');
    for (char& c : s) {
        if (rng.chance(1, 8)) {
            c = static_cast<char>(rng.below(256));
        }
    }
    const MV m = MV::arr({ MV::str(s), MV::str(s + "\""), MV::obj({ { s, MV::str("\n" + s) } }) });
    judge(rng, build(m), m, false);
}

SECTION(nesting, 40, 200)
{
    const size_t depth = idx < 20 ? idx + 1 : idx < 30 ? idx * idx : 1000;
    MV m = rng.chance(1, 2) ? MV::arr() : MV::num("1");
    for (size_t i = 0; i < depth; ++i) {
        MV up = rng.chance(1, 2) ? MV::arr() : MV::obj();
        if (up.k == MV::Arr) {
            if (rng.chance(1, 3)) {
                up.a.push_back(MV::null());
            }
            up.a.push_back(std::move(m));
            if (rng.chance(1, 3)) {
                up.a.push_back(MV::str("after"));
            }
        }
        else {
            up.o.emplace(ref::gen_string(rng, 5), std::move(m));
            if (rng.chance(1, 3)) {
                up.o.emplace("zz", MV::arr());
            }
        }
        m = std::move(up);
    }
    const json::value v = build(m);
    std::string highs;
    high_bytes(highs, m);
    vf::input("nesting");
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(ref::dump(m)));
    judge_text(v, m, highs, ToString, 0);
    judge_text(v, m, highs, FormatIndent, rng.below(4));
    judge_text(v, m, highs, Stream, 0);
    VF_COUNT("deep values");
}

SECTION(sizes, 300, 2000)
{
    MV m = idx % 2 ? MV::arr() : MV::obj();
    const size_t n = idx < 260 ? idx : 1000 + rng.below(20000);
    for (size_t i = 0; i < n; ++i) {
        if (m.k == MV::Arr) {
            m.a.push_back(MV::num(std::to_string(i)));
        }
        else {
            m.o.emplace("k" + std::to_string(i), MV::num(std::to_string(i)));
        }
    }
    judge(rng, build(m), m, n < 100);
}

SECTION(indents, 64, 400)
{
    static const size_t wide[] = { 5, 9, 16, 31, 63, 64, 100, 255, 256, 1000, 4095, 10000, 65536 };
    const MV m = ref::gen_doc(rng, 8, 3, 20);
    const json::value v = build(m);
    std::string highs;
    high_bytes(highs, m);
    vf::input(ref::dump(m));
    for (const size_t w : wide) {
        VF_COUNT("evaluations");
        judge_text(v, m, highs, DumpsIndent, w);
        judge_text(v, m, highs, FormatIndent, w);
        VF_COUNT("wide indents");
    }
}

// values from C++ data, numbers above all: what comes out must be valid JSON
namespace
{
template <typename F>
void number(F x)
{
    if (!std::isfinite(x)) {
        return;
    }
    const json::value v = json::array { x, json::object { { "n", x } } };
    const std::string t = v.dumps();
    vf::input(t);
    VF_COUNT("evaluations");
    VF_COUNT("floating numbers");
    const Ref r = ref::parse(t, false);
    if (r.v != Ref::accept) {
        vf::violation("number-not-json", t, t);
        return;
    }
    const auto p = json::parse(t);
    if (!p || !(*p == v) || p->dumps() != t) {
        vf::violation("number-not-equal-after-parsing", t, t);
    }
    vf::distinct(vf::hash_bytes(t));
}
}

SECTION(numbers, 20000, 500000)
{
    u64 bits = rng.next();
    if (rng.chance(1, 3)) {
        bits = (bits & 0x800fffffffffffffull) | (static_cast<u64>(1023 - 40 + static_cast<int>(rng.below(120))) << 52);
    }
    double d;
    std::memcpy(&d, &bits, 8);
    number(d);
    const auto b32 = static_cast<uint32_t>(bits);
    float f;
    std::memcpy(&f, &b32, 4);
    number(f);
    number(static_cast<long double>(d) * 3.14159265358979323846L);
    number(static_cast<double>(static_cast<int64_t>(rng.next())));
    number(std::ldexp(1.0, static_cast<int>(rng.below(2000)) - 1000));
    number(static_cast<double>(rng.below(1000000)) / 1000);
}

// past the borders of 8 and 16 bit counters and of buffers, in one respect each
SECTION(big, ref::big_quick, ref::big_thorough)
{
    const MV m = ref::big(idx, rng);
    judge(rng, build(m), m, false);
    VF_COUNT("big values");
}
