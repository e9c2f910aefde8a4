// P03: a parsed value has exactly the content of its text. Oracle: ref::parse and expected values that are
// known before their text is made.
#include "conv.hpp"

using namespace conv;
using ref::Ref;
using vf::u64;

namespace
{
void judge(const std::string& t, const MV& want, const char* kind = "content")
{
    vf::input(t);
    VF_COUNT("evaluations");
    for (const int how : { 0, 1, 2 }) {
        std::optional<json::value> v;
        if (how == 0) {
            Exact e(t, 0);
            v = json::parse(e.view());
        } // the source is gone by now
        else if (how == 1) {
            v = json::parse(std::deque<char>(t.begin(), t.end()));
        }
        else {
            std::string s = t;
            v = json::parse(s);
            s.assign(s.size(), '#');
        }
        if (!v) {
            vf::violation(std::string("refused:") + kind, "a valid text was refused: " + vf::printable(t), t);
            continue;
        }
        const std::string d = differs(*v, want);
        if (!d.empty()) {
            vf::violation(std::string("wrong-") + kind, (how == 1 ? "from a deque: " : "") + d + " of " + vf::printable(t), t);
        }
        VF_COUNT("values compared");
    }
}
}

#ifdef VF_FUZZ
[[maybe_unused]] const bool seeded = [] {
    vf::seed_text = [](vf::Rng& g) {
        const bool jsonc = false;
        const std::string t = ref::render_doc(g, ref::gen_doc(g, 20, 5, 40), ref::gen_style(g, jsonc));
        return g.chance(1, 3) ? ref::mutate(g, t, jsonc) : t;
    };
    return true;
}();
#endif

// bytes as they come; guided by coverage in the fuzzing builds
SECTION(fuzzed, 4000, 200000)
{
    const std::string t = rng.rest();
    const Ref r = ref::parse(t, false);
    if (r.v == Ref::accept) {
        vf::distinct(vf::hash_bytes(t));
        judge(t, r.val, "document");
    }
}

SECTION(documents, 25000, 1000000)
{
    const MV m = ref::gen_doc(rng, 80, 7, 300);
    const std::string t = ref::render_doc(rng, m, ref::gen_style(rng, false));
    if (idx < 3) {
        vf::sample(vf::printable(t, 200));
    }
    if (vf::distinct(vf::hash_bytes(t))) {
        VF_COUNT("distinct documents");
    }
    judge(t, m, "document");
}

// mutated documents that happen to stay valid
SECTION(mutated, 25000, 1000000)
{
    const MV m = ref::gen_doc(rng, 30, 6, 100);
    const std::string t = ref::mutate(rng, ref::render_doc(rng, m, ref::gen_style(rng, false)), false);
    const Ref r = ref::parse(t, false);
    if (r.v == Ref::accept) {
        VF_COUNT("valid mutants");
        vf::distinct(vf::hash_bytes(t));
        judge(t, r.val, "document");
    }
}

#ifdef VF_EDITS // in a build without sanitizers, which is faster
// what stays valid of every edit in every place of small documents
SECTION(every_edit, 8000, 200000)
{
    const MV m = ref::gen_doc(rng, 10, 4, 10);
    ref::Style st = ref::gen_style(rng, false);
    st.ws = std::min(st.ws, 1u);
    const std::string t = ref::render_doc(rng, m, st);
    ref::edits(t, 0, std::min<size_t>(t.size(), 90), ref::edit_frags(false), [&](const std::string& x) {
        const Ref r = ref::parse(x, false);
        if (r.v == Ref::accept) {
            VF_COUNT("valid edits");
            judge(x, r.val, "document");
        }
    });
}
#endif

// every \u escape, alone, as a key, among others
SECTION(bmp, 256, 256)
{
    std::string all = "[", hex;
    MV want = MV::arr();
    for (unsigned lo = 0; lo < 256; ++lo) {
        const unsigned u = static_cast<unsigned>(idx) * 256 + lo;
        if (u >= 0xD800 && u < 0xE000) {
            continue;
        }
        std::string s;
        ref::put_utf8(s, u);
        hex.clear();
        ref::put_u(hex, rng, u);
        judge("[\"" + hex + "\"]", MV::arr({ MV::str(s) }), "unicode-escape");
        if (rng.chance(1, 4)) {
            judge("{\"" + hex + "\":\"" + hex + "x\"}", MV::obj({ { s, MV::str(s + "x") } }), "unicode-escape");
        }
        const std::string a(rng.below(40), 'a'), b(rng.below(40), 'b');
        all += (want.a.empty() ? "\"" : ",\"") + a + hex + b + hex + "\"";
        want.a.push_back(MV::str(a + s + b + s));
        VF_COUNT("code points escaped");
    }
    judge(all + "]", want, "unicode-escape");
    vf::distinct(idx + 1);
}

// every surrogate pair: 1024 texts with the 1024 pairs of one high surrogate each
SECTION(pairs, 1024, 1024)
{
    const unsigned high = 0xD800 + static_cast<unsigned>(idx);
    std::string t = "[\"", s, one;
    for (unsigned low = 0xDC00; low < 0xE000; ++low) {
        one.clear();
        ref::put_u(one, rng, high);
        ref::put_u(one, rng, low);
        t += one;
        ref::put_utf8(s, 0x10000 + (high - 0xD800) * 0x400 + (low - 0xDC00));
        if (low % 64 == 63 && rng.chance(1, 2)) {
            const std::string fill(rng.below(40), 'z');
            t += fill;
            s += fill;
        }
        VF_COUNT("surrogate pairs");
    }
    t += "\"]";
    judge(t, MV::arr({ MV::str(s) }), "surrogate-pair");
    vf::distinct(idx + 100000);
}

// every raw byte a string may hold, at every place of every small length, and both of the short escapes
SECTION(bytes, 256, 256)
{
    const auto b = static_cast<unsigned char>(idx);
    for (size_t len = 1; len <= 68; ++len) {
        const size_t step = len > 20 ? 1 + rng.below(5) : 1;
        for (size_t pos = 0; pos < len; pos += step) {
            std::string s(len, 'x'), lit;
            s[pos] = static_cast<char>(b);
            ref::Style st;
            st.esc = 0;
            ref::render_string(lit, rng, s, st);
            judge("[" + lit + "]", MV::arr({ MV::str(s) }), "string");
        }
    }
    // neighbours
    for (int k = 0; k < 200; ++k) {
        std::string s(2 + rng.below(60), static_cast<char>(b)), lit;
        for (size_t j = rng.below(4); j; --j) {
            s[rng.below(s.size())] = static_cast<char>(rng.next());
        }
        ref::Style st;
        st.esc = static_cast<unsigned>(rng.below(3));
        ref::render_string(lit, rng, s, st);
        judge("[" + lit + "," + lit + "]", MV::arr({ MV::str(s), MV::str(s) }), "string");
    }
    vf::distinct(idx + 200000);
    VF_COUNT("raw bytes");
}

// strings of every length with escapes at any places
SECTION(string_lengths, 400, 1200)
{
    const size_t len = idx < 330 ? idx : (static_cast<size_t>(1) << (8 + rng.below(9))) + rng.below(5) - 2;
    for (int k = 0; k < (len < 330 ? 20 : 4); ++k) {
        std::string s = ref::gen_plain(rng, len), lit;
        for (size_t j = rng.below(5); j && len; --j) {
            s[rng.below(len)] = "\n\"\\\t\x01\x7f\x80\xff/"[rng.below(9)];
        }
        ref::Style st;
        st.esc = static_cast<unsigned>(rng.below(3));
        ref::render_string(lit, rng, s, st);
        judge("[" + lit + "]", MV::arr({ MV::str(s) }), "string");
        judge("{" + lit + ":" + lit + "}", MV::obj({ { s, MV::str(s) } }), "string");
    }
    vf::distinct(len + 300000);
    VF_COUNT("string lengths");
}

// numbers keep their characters
SECTION(numbers, 12000, 500000)
{
    const std::string n = ref::gen_number(rng), n2 = ref::gen_number(rng);
    vf::distinct(vf::hash_bytes(n));
    judge("[" + n + "]", MV::arr({ MV::num(n) }), "number");
    judge("{\"n\":" + n + ",\"m\": " + n2 + " }", MV::obj({ { "n", MV::num(n) }, { "m", MV::num(n2) } }), "number");
    judge("[" + n + "," + n2 + "\n,[" + n2 + "],{\"\":" + n + "}]",
          MV::arr({ MV::num(n), MV::num(n2), MV::arr({ MV::num(n2) }), MV::obj({ { "", MV::num(n) } }) }), "number");
    VF_COUNT("numbers");
}

SECTION(long_numbers, 100, 400)
{
    const size_t len = idx < 60 ? idx * 8 + rng.below(8) : (static_cast<size_t>(1) << (8 + rng.below(9))) + rng.below(3);
    const std::string d = ref::gen_digits(rng, len + 1, true);
    for (const std::string& n : { d, "-" + d, "0." + d, d + "." + d, "1e" + d, "-0." + d + "E-" + d, d + "e+" + d }) {
        judge("[" + n + "]", MV::arr({ MV::num(n) }), "number");
    }
    vf::distinct(len + 400000);
}

// arrays and objects of every size up to some hundred, then powers of two
SECTION(counts, 420, 900)
{
    const size_t n = idx < 360 ? idx : (static_cast<size_t>(1) << (9 + rng.below(vf::ctx().thorough ? 9 : 7))) + rng.below(5) - 2;
    MV a = MV::arr(), o = MV::obj();
    for (size_t i = 0; i < n; ++i) {
        const unsigned k = static_cast<unsigned>(rng.below(6));
        MV x = k == 0 ? MV::null() : k == 1 ? MV::boolean(true) : k == 2 ? MV::str(std::to_string(i)) : k == 3 ? MV::arr({ MV::num(std::to_string(i)) }) : k == 4 ? MV::obj({ { "i", MV::num(std::to_string(i)) } }) : MV::num(std::to_string(i));
        o.o[(rng.chance(1, 2) ? "k" : "") + std::to_string(i * 7919 % 100003)] = x;
        a.a.push_back(std::move(x));
    }
    const ref::Style st = ref::gen_style(rng, false);
    judge(ref::render_doc(rng, a, st), a, "array");
    judge(ref::render_doc(rng, o, st), o, "object");
    VF_COUNT("container sizes");
    vf::distinct(n + 500000);
}

// chains of every depth
SECTION(depths, 150, 1000)
{
    const size_t n = vf::ctx().thorough ? idx + 1 : idx < 60 ? idx + 1 : 60 + rng.below(940);
    std::string open, close;
    MV m = MV::num(std::to_string(n));
    std::vector<unsigned> ks(n);
    for (auto& k : ks) {
        k = static_cast<unsigned>(rng.below(3));
    }
    for (size_t i = n; i-- > 0;) {
        if (ks[i] == 0) {
            m = MV::arr({ std::move(m) });
        }
        else if (ks[i] == 1) {
            MV o = MV::obj();
            o.o.emplace("k", std::move(m));
            m = std::move(o);
        }
        else {
            MV a = MV::arr();
            a.a.push_back(MV::num("1"));
            a.a.push_back(std::move(m));
            a.a.push_back(MV::str("x"));
            m = std::move(a);
        }
    }
    for (size_t i = 0; i < n; ++i) {
        open += ks[i] == 0 ? "[" : ks[i] == 1 ? "{\"k\":" : "[1,";
        close.insert(0, ks[i] == 0 ? "]" : ks[i] == 1 ? "}" : ",\"x\"]");
    }
    judge(open + std::to_string(n) + close, m, "nesting");
    VF_COUNT("depths");
    vf::distinct(n + 600000);
}

// past the borders of 8 and 16 bit counters and of buffers, in one respect each
SECTION(big, ref::big_quick, ref::big_thorough)
{
    const MV m = ref::big(idx, rng);
    judge(rng.chance(1, 3) ? ref::dump(m) : ref::render_doc(rng, m, ref::gen_style(rng, false)), m, "big");
    vf::distinct(idx + 700000);
    VF_COUNT("big documents");
}
