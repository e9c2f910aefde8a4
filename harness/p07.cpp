// P07: serialisation is canonical; equality is equality of the compact serialisations.
#include "hist.hpp"

using namespace conv;
using ref::Ref;
using vf::u64;

namespace
{
// the text with every string literal written in the reference's way, `[ ]` and `{ }` without anything
// in between, and no blank after a colon: what the documentation leaves open is made equal
std::string normal(const std::string& t)
{
    std::string r;
    for (size_t i = 0; i < t.size();) {
        const char c = t[i];
        if (c == '"') {
            size_t e = i + 1;
            bool esc = false;
            while (e < t.size() && t[e] != '"') {
                if (t[e] == '\\') {
                    ++e;
                    esc = true;
                }
                ++e;
            }
            const std::string lit = t.substr(i, e + 1 - i);
            if (!esc) {
                r += lit;
            }
            else {
                const Ref x = ref::parse("[" + lit + "]", false);
                if (x.v == Ref::accept) {
                    ref::escape(r, x.val.a[0].s);
                }
                else {
                    r += "<bad literal>" + lit;
                }
            }
            i = e + 1;
            continue;
        }
        r += c;
        ++i;
        if (c == ':' && i < t.size() && t[i] == ' ') {
            ++i;
        }
        if (c == '[' || c == '{') {
            size_t k = i;
            while (k < t.size() && (t[k] == ' ' || t[k] == '\n')) {
                ++k;
            }
            if (k < t.size() && (t[k] == ']' || t[k] == '}')) {
                i = k;
            }
        }
    }
    return r;
}

template <typename V>
void canonical(const V& v, const MV& m, size_t indent)
{
    const std::string compact = v.to_string();
    VF_COUNT("serialisations");
    const std::string want = ref::dump(m);
    if (normal(compact) != want) {
        vf::violation("compact-form", "compact form " + vf::printable(compact) + " of " + vf::printable(want), want);
    }
    if (ref::strip_ws(compact) != compact) {
        vf::violation("white-space", "compact form has white space: " + vf::printable(compact), want);
    }
    if (v.dumps() != compact) {
        vf::violation("dumps-differs", "dumps() is not to_string(): " + vf::printable(v.dumps()), want);
    }
    const std::string pretty = v.format(indent);
    if (normal(pretty) != normal(ref::pretty(m, indent))) {
        vf::violation("formatted-form", "format(" + std::to_string(indent) + ") gives " + vf::printable(pretty) + " of " + vf::printable(want), want);
    }
    if (ref::strip_ws(pretty) != compact) {
        vf::violation("other-tokens", "format(" + std::to_string(indent) + ") has other tokens: " + vf::printable(pretty), want);
    }
    if (v.dumps(indent) != pretty) {
        vf::violation("dumps-differs", "dumps(n) is not format(n)", want);
    }
    std::ostringstream os;
    os << v;
    if (os.str() != v.format()) {
        vf::violation("stream-differs", "operator<< is not format()", want);
    }
    if (v.format() != v.format(4)) {
        vf::violation("default-indent", "format() is not format(4)", want);
    }
}

void compare(const json::value& a, const json::value& b, bool equal, const std::string& what)
{
    VF_COUNT("comparisons");
    if ((a == b) != equal || (b == a) != equal) {
        vf::violation(equal ? "unequal" : "equal", what + ": " + vf::printable(a.dumps(), 400) + " and " + vf::printable(b.dumps(), 400), a.dumps());
    }
    if ((a != b) == (a == b) || (b != a) == (b == a)) {
        vf::violation("negation", what + ": != is not the negation of == for " + vf::printable(a.dumps()), a.dumps());
    }
    if (a.is_array() && b.is_array() && ((a.as_array() == b.as_array()) != equal || (a.as_array() != b.as_array()) == equal)) {
        vf::violation("array-comparison", what + ": " + vf::printable(a.dumps()), a.dumps());
    }
    if (a.is_object() && b.is_object() && ((a.as_object() == b.as_object()) != equal || (a.as_object() != b.as_object()) == equal)) {
        vf::violation("object-comparison", what + ": " + vf::printable(a.dumps()), a.dumps());
    }
    if ((a.dumps() == b.dumps()) != equal) {
        vf::violation("texts-disagree", what + ": " + vf::printable(a.dumps(), 400) + " and " + vf::printable(b.dumps(), 400), a.dumps());
    }
}

void forms(Rng& g, const json::value& v, const MV& m)
{
    static const size_t widths[] = { 0, 1, 2, 3, 4, 8, 20 };
    const size_t indent = g.pick(widths);
    canonical(v, m, indent);
    if (m.k == MV::Arr) {
        canonical(v.as_array(), m, indent);
    }
    else if (m.k == MV::Obj) {
        canonical(v.as_object(), m, indent);
    }
}
}

SECTION(documents, 6000, 200000)
{
    MV m = ref::gen_doc(rng, 40, 6, 120);
    if (rng.chance(1, 8)) {
        m = ref::gen_scalar(rng);
    }
    vf::input(ref::dump(m));
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(ref::dump(m)));
    if (idx < 3) {
        vf::sample(vf::printable(ref::dump(m), 200));
    }
    forms(rng, build(m), m);
}

// the same content by several histories
SECTION(histories, 6000, 200000)
{
    const MV m = rng.chance(1, 8) ? ref::gen_scalar(rng, 60) : ref::gen_doc(rng, 25, 5, 60);
    const std::string text = ref::dump(m);
    vf::input(text);
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(text));
    std::vector<json::value> all;
    all.push_back(build(m));
    const std::string canon = all[0].dumps();
    for (int i = 0; i < 3; ++i) {
        all.push_back(hist::make(rng, m));
        VF_COUNT("histories");
        const std::string d = differs(all.back(), m);
        if (!d.empty()) {
            vf::violation("history-content", d + " after a history that should give " + vf::printable(text), text);
        }
        if (all.back().dumps() != canon) {
            vf::violation("history-text", vf::printable(all.back().dumps()) + " instead of " + vf::printable(canon), text);
        }
    }
    forms(rng, all[1], m);
    for (auto& x : all) {
        for (auto& y : all) {
            compare(x, y, true, "same content");
        }
    }
    // and what differs in one place is not equal
    for (int i = 0; i < 3; ++i) {
        const MV p = hist::perturb(rng, m);
        const json::value w = rng.chance(1, 2) ? build(p) : hist::make(rng, p);
        compare(all[rng.below(all.size())], w, false, "content that differs");
        VF_COUNT("perturbed pairs");
    }
    vf::ctx().counters["history steps"] += hist::steps();
    hist::steps() = 0;
}

// every pair of a set of values that are easily confused
namespace
{
std::vector<MV> confusable()
{
    std::vector<MV> r = { MV::null(), MV::boolean(false), MV::boolean(true), MV::num("0"), MV::num("-0"), MV::num("0.0"), MV::num("0e0"), MV::num("1"),
                          MV::num("1.0"), MV::num("1e0"), MV::num("1E0"), MV::num("10"), MV::num("1e1"), MV::num("12"), MV::str(""), MV::str("null"),
                          MV::str("true"), MV::str("false"), MV::str("0"), MV::str("1"), MV::str("[]"), MV::str("{}"), MV::str("\""), MV::str("\\"),
                          MV::str("\\\""), MV::str("\\u0000"), MV::str(std::string(1, '\0')), MV::str(std::string(2, '\0')), MV::str("a"),
                          MV::str(std::string("a\0", 2)), MV::str(std::string("a\0b", 3)), MV::str("A"), MV::str("\x1f"), MV::str("\\u001f"), MV::str("\x7f"),
                          MV::str("\x80"), MV::str("\xc3\xa4"), MV::str("\n"), MV::str("\\n"), MV::str("n"), MV::str("a,b"), MV::str("a\",\"b"),
                          MV::str("/"), MV::str("\\/"), MV::str("\xff") };
    const std::vector<MV> scalars = r;
    r.push_back(MV::arr());
    r.push_back(MV::obj());
    for (auto& x : scalars) {
        r.push_back(MV::arr({ x }));
        r.push_back(MV::obj({ { "a", x } }));
        if (x.k == MV::Str) {
            r.push_back(MV::obj({ { x.s, MV::null() } }));
        }
    }
    r.push_back(MV::arr({ MV::num("1"), MV::num("2") }));
    r.push_back(MV::arr({ MV::num("2"), MV::num("1") }));
    r.push_back(MV::arr({ MV::str("a"), MV::str("b") }));
    r.push_back(MV::arr({ MV::null(), MV::null() }));
    r.push_back(MV::arr({ MV::arr() }));
    r.push_back(MV::arr({ MV::obj() }));
    r.push_back(MV::arr({ MV::arr({ MV::num("1") }), MV::num("2") }));
    r.push_back(MV::arr({ MV::arr({ MV::num("1"), MV::num("2") }) }));
    r.push_back(MV::obj({ { "a", MV::num("1") }, { "b", MV::num("2") } }));
    r.push_back(MV::obj({ { "a", MV::num("2") }, { "b", MV::num("1") } }));
    r.push_back(MV::obj({ { "a", MV::obj({ { "b", MV::num("2") } }) } }));
    r.push_back(MV::obj({ { "ab", MV::num("2") } }));
    r.push_back(MV::obj({ { "b", MV::num("1") } }));
    r.push_back(MV::obj({ { "a", MV::num("1") }, { "c", MV::num("2") } }));
    r.push_back(MV::obj({ { "a", MV::num("1") }, { "b", MV::num("2") }, { "c", MV::num("3") } }));
    std::vector<MV> unique;
    for (auto& x : r) {
        if (std::find(unique.begin(), unique.end(), x) == unique.end()) {
            unique.push_back(x);
        }
    }
    return unique;
}
}

SECTION(pairs, 180, 180)
{
    static const std::vector<MV> all = confusable();
    if (idx >= all.size()) {
        return;
    }
    const json::value a = hist::make(rng, all[idx]);
    vf::input(ref::dump(all[idx]));
    forms(rng, a, all[idx]);
    for (size_t j = 0; j < all.size(); ++j) {
        compare(a, hist::make(rng, all[j]), j == idx, "pair of " + ref::dump(all[idx]) + " and " + ref::dump(all[j]));
        VF_COUNT("evaluations");
    }
    vf::distinct(idx + 1);
}

// keys in ascending order of their bytes, whatever the bytes are
SECTION(keys, 3000, 60000)
{
    MV m = MV::obj();
    const size_t n = 1 + rng.below(rng.chance(1, 10) ? 300 : 12);
    const std::string prefix = rng.chance(1, 2) ? std::string(rng.below(20), 'p') : "";
    for (size_t i = 0; i < n; ++i) {
        std::string k = prefix;
        for (size_t l = rng.below(4); l-- > 0;) {
            k += static_cast<char>(rng.below(256));
        }
        m.o.emplace(k, MV::num(std::to_string(i)));
    }
    vf::input(ref::dump(m));
    VF_COUNT("evaluations");
    VF_COUNT("key sets");
    vf::distinct(vf::hash_bytes(ref::dump(m)));
    forms(rng, hist::make(rng, m), m);
}

SECTION(shapes, 600, 20000)
{
    // nested mixtures with empty containers in all places, for the layout
    MV m = rng.chance(1, 2) ? MV::arr() : MV::obj();
    for (unsigned d = 0; d < 1 + rng.below(12); ++d) {
        MV up = rng.chance(1, 2) ? MV::arr() : MV::obj();
        const auto fill = [&](MV x) {
            if (up.k == MV::Arr) {
                up.a.push_back(std::move(x));
            }
            else {
                up.o.emplace(std::string(1 + rng.below(3), static_cast<char>('a' + rng.below(26))), std::move(x));
            }
        };
        for (size_t i = rng.below(3); i-- > 0;) {
            fill(rng.chance(1, 2) ? MV::arr() : MV::obj());
        }
        fill(std::move(m));
        for (size_t i = rng.below(3); i-- > 0;) {
            fill(rng.chance(1, 2) ? MV::str(" { [ , : \n ") : MV::null());
        }
        m = std::move(up);
    }
    vf::input(ref::dump(m));
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(ref::dump(m)));
    const json::value v = build(m);
    for (size_t w = 0; w <= 9; ++w) {
        canonical(v, m, w);
    }
    VF_COUNT("layouts");
}

// wide, and deep
SECTION(indents, 40, 400)
{
    static const size_t wide[] = { 5, 31, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 100000 };
    const MV m = ref::gen_doc(rng, 8, 3, 20);
    const json::value v = build(m);
    vf::input(ref::dump(m));
    for (const size_t w : wide) {
        VF_COUNT("evaluations");
        VF_COUNT("wide indents");
        canonical(v, m, w);
        if (m.k == MV::Arr) {
            canonical(v.as_array(), m, w);
        }
        else if (m.k == MV::Obj) {
            canonical(v.as_object(), m, w);
        }
    }
    // every level has something before and behind what goes deeper
    MV deep = ref::gen_doc(rng, 4, 2, 10);
    static const size_t depths[] = { 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300 };
    const size_t depth = rng.pick(depths);
    for (size_t i = 0; i < depth; ++i) {
        MV around;
        if (rng.chance(1, 2)) {
            around.k = MV::Arr;
            around.a = { MV::num("1"), std::move(deep), MV::null() };
        }
        else {
            around.k = MV::Obj;
            around.o["k"] = std::move(deep);
            around.o["a"] = MV::null();
            around.o["z"] = MV::num("2");
        }
        deep = std::move(around);
    }
    vf::input(ref::dump(deep));
    const json::value d = build(deep);
    for (const size_t w : { 0, 1, 2, 3, 4, 5, 8, 16, 64, 257 }) {
        VF_COUNT("evaluations");
        VF_COUNT("deep formats");
        canonical(d, deep, w);
    }
}

// past the borders of 8 and 16 bit counters and of buffers, in one respect each
SECTION(big, ref::big_kinds * 2, ref::big_thorough)
{
    const MV m = ref::big(idx, rng);
    vf::input(ref::dump(m));
    VF_COUNT("evaluations");
    const json::value v = build(m);
    canonical(v, m, idx % 3);
    // one that differs only at its end
    json::value w = v;
    compare(v, w, true, "a copy of something big");
    if (w.is_array()) {
        json::array& a = w.as_array();
        const json::value last = a[a.size() - 1];
        a[a.size() - 1] = json::value();
        compare(v, w, false, "its last element replaced");
        a[a.size() - 1] = last;
        compare(v, w, true, "its last element put back");
        a.emplace_back(0);
        compare(v, w, false, "one more element");
    }
    else {
        json::object& o = w.as_object();
        const std::string k = std::prev(o.end())->first;
        const json::value last = o.at(k);
        o[k] = json::value();
        compare(v, w, last.is_null(), "its last member replaced");
        o[k] = last;
        compare(v, w, true, "its last member put back");
        o.erase(k);
        compare(v, w, false, "one member less");
        o[k + "x"] = last;
        compare(v, w, false, "its last key longer");
    }
    VF_COUNT("big values");
}
