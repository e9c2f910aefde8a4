// P02: strict parsing accepts exactly the RFC 8259 texts with an array or object as the root and unique
// keys. Oracle: the independent recogniser ref::parse.
#include "conv.hpp"

using namespace conv;
using ref::Ref;
using vf::u64;

namespace
{
bool accepts(std::string_view t, bool scalar)
{
    if (scalar) { // no packed loads from a deque
        const std::deque<char> d(t.begin(), t.end());
        return json::parse(d).has_value();
    }
    Exact e(t, 0);
    return json::parse(e.view()).has_value();
}

void judge(const std::string& t, bool nontrivial = true)
{
    vf::input(t);
    const Ref r = ref::parse(t, false);
    VF_COUNT("evaluations");
    if (r.v == Ref::unspecified) {
        VF_COUNT("skipped: NUL after the root");
        return;
    }
    const bool want = r.v == Ref::accept;
    if (want) {
        VF_COUNT("valid texts");
    }
    else {
        VF_COUNT("invalid texts");
    }
    if (nontrivial) {
        vf::distinct(vf::hash_bytes(t));
    }
    for (const bool scalar : { false, true }) {
        const bool got = accepts(t, scalar);
        if (got != want) {
            vf::violation(
                want ? "valid-text-refused" : "invalid-text-accepted",
                std::string(want ? "valid but refused" : "invalid but accepted") + (scalar ? " from a deque" : "")
                    + (want ? "" : ", error at byte " + std::to_string(r.err_pos)) + ": " + vf::printable(t, 300),
                t);
        }
    }
}
}

#ifdef VF_FUZZ
[[maybe_unused]] const bool seeded = [] {
    vf::seed_text = [](vf::Rng& g) {
        const bool jsonc = g.chance(1, 4);
        const std::string t = ref::render_doc(g, ref::gen_doc(g, 20, 5, 40), ref::gen_style(g, jsonc));
        return g.chance(1, 3) ? ref::mutate(g, t, jsonc) : t;
    };
    return true;
}();
#endif

// bytes as they come; guided by coverage in the fuzzing builds
SECTION(fuzzed, 4000, 200000)
{
    judge(rng.rest());
}

// generated documents, strict and JSONC, each as it is and mutated
SECTION(documents, 40000, 1500000)
{
    const bool jsonc = rng.chance(1, 4);
    const ref::MV m = ref::gen_doc(rng, 40, 6, 120);
    std::string t = ref::render_doc(rng, m, ref::gen_style(rng, jsonc));
    if (!jsonc) {
        // the recogniser must agree with the generator: a check of the oracle itself
        const Ref r = ref::parse(t, false);
        if (r.v != Ref::accept || r.val != m) {
            std::fprintf(stderr, "the oracle disagrees with the generator: %s\n", t.c_str());
            _exit(98);
        }
    }
    if (idx < 3) {
        vf::sample(vf::printable(t, 200));
    }
    if (rng.chance(1, 4)) {
        judge(t);
    }
    for (int k = 0; k < 3; ++k) {
        judge(ref::mutate(rng, t, false));
    }
}

#ifdef VF_EDITS // in a build without sanitizers, which is faster
// every edit in every place of small documents
SECTION(every_edit, 12000, 300000)
{
    const ref::MV m = ref::gen_doc(rng, 10, 4, 6);
    ref::Style st = ref::gen_style(rng, false);
    st.ws = std::min(st.ws, 1u);
    const std::string t = ref::render_doc(rng, m, st);
    judge(t);
    ref::edits(t, 0, std::min<size_t>(t.size(), 80), ref::edit_frags(false), [&](const std::string& x) { judge(x, false); });
    VF_COUNT("documents with every edit tried");
}

// every edit in every place of numbers
SECTION(number_edits, 12000, 300000)
{
    static const char* const around[][2] = { { "[", "]" }, { "[", ",1]" }, { "{\"a\":", "}" }, { "[ ", " ]" }, { "[null,", "\n,\"\"]" } };
    const auto& a = around[rng.below(std::size(around))];
    const std::string pre = a[0], n = ref::gen_number(rng).substr(0, 30);
    ref::edits(pre + n + a[1], pre.size(), pre.size() + n.size(), ref::number_frags(), [&](const std::string& x) { judge(x, false); });
    VF_COUNT("numbers with every edit tried");
}
#endif

// every text of a few grammar symbols
SECTION(symbols, 3610, 3610) // 19 * 19 * 10
{
    static const char* const al[] = { "[", "]", "{", "}", ":", ",", "\"", "\"a\"", "\\n", "0", "1", "-", ".5", "e1", "/", "//", "null", "tru", " " };
    static const char* const pre[] = { "", "[", "{", "[[", "[1,", "{\"a\":", "{\"a\":1,", "[\"", "[]", "{\"k\"" };
    const std::string head = std::string(pre[idx % 10]) + al[idx / 10 % 19] + al[idx / 190];
    const size_t depth = vf::ctx().thorough ? 4 : 3;
    size_t total = 1;
    for (size_t d = 0; d <= depth; ++d, total *= 19) {
        if (d == 3 && !vf::ctx().thorough && idx % 7) {
            break;
        }
        for (size_t k = 0; k < total; ++k) {
            std::string t = head;
            size_t r = k;
            for (size_t j = 0; j < d; ++j, r /= 19) {
                t += al[r % 19];
            }
            judge(t, false);
        }
        VF_COUNT_N("exhaustive texts", total);
    }
}

// every text of number characters
SECTION(numbers, 343, 2401)
{
    static const char al[] = { '0', '1', '-', '+', '.', 'e', 'E' };
    std::string head;
    size_t r = idx;
    const int hn = vf::ctx().thorough ? 4 : 3;
    for (int j = 0; j < hn; ++j, r /= 7) {
        head += al[r % 7];
    }
    size_t total = 1;
    for (size_t d = 0; d <= (vf::ctx().thorough ? 4u : 3u); ++d, total *= 7) {
        for (size_t k = 0; k < total; ++k) {
            std::string t = head;
            size_t q = k;
            for (size_t j = 0; j < d; ++j, q /= 7) {
                t += al[q % 7];
            }
            judge("[" + t + "]", false);
            if (rng.chance(1, 8)) {
                static const char* const around[][2] = { { "{\"a\":", "}" }, { "[", " ]" }, { "[1,", ",2]" }, { "[", "" }, { "[", "\n]" }, { "[", "\"\"]" }, { "", "" }, { "[", "x]" }, { "[", ",]" }, { "[", "/**/]" }, { "[", "}" } };
                auto& a = around[rng.below(std::size(around))];
                judge(a[0] + t + a[1], false);
            }
        }
        VF_COUNT_N("exhaustive texts", total);
    }
    // shorter ones
    if (idx < 7) {
        judge(std::string("[") + al[idx] + "]");
    }
    if (idx < 49) {
        judge(std::string("[") + al[idx % 7] + al[idx / 7] + "]");
    }
}

SECTION(long_numbers, 3000, 100000)
{
    std::string n = ref::gen_number(rng);
    judge("[" + n + "]");
    n = ref::mutate(rng, n, false);
    judge("[" + n + "]");
    judge("{\"n\":" + n + ",\"m\":1}");
}

// every byte after a backslash; \u with every combination of boundary characters; every pair of halves
SECTION(escapes, 256, 256)
{
    const char b = static_cast<char>(idx);
    for (const char* tail : { "", "0", "00", "000", "0000", "00000", "n", "\"" }) {
        judge(std::string("[\"\\") + b + tail + "\"]");
        judge(std::string("{\"\\") + b + tail + "\":1}");
        judge(std::string("[\"a long enough plain string in front of \\") + b + tail + " and behind, also long enough\"]");
    }
    for (int p = 0; p < 4; ++p) { // this byte as one of the digits
        for (const char* base : { "0041", "d83d", "DC00", "ffff", "0000" }) {
            std::string h = base;
            h[static_cast<size_t>(p)] = b;
            judge("[\"\\u" + h + "\"]");
            judge("[\"\\ud83d\\u" + h + "\"]");
            judge("[\"\\u" + h + "\\udca9\"]");
        }
    }
}

SECTION(unicode, 256, 256)
{
    char buf[64];
    for (unsigned lo = 0; lo < 256; ++lo) {
        const unsigned u = static_cast<unsigned>(idx) * 256 + lo;
        std::snprintf(buf, sizeof buf, rng.chance(1, 2) ? "[\"\\u%04x\"]" : "[\"\\u%04X\"]", u);
        judge(buf);
        std::snprintf(buf, sizeof buf, "[\"\\uD800\\u%04x\"]", u);
        judge(buf);
        std::snprintf(buf, sizeof buf, "[\"\\u%04x\\uDFFF\"]", u);
        judge(buf);
        std::snprintf(buf, sizeof buf, "[\"\\u%04x\\u%04x\"]", u, static_cast<unsigned>(rng.below(65536)));
        judge(buf);
        std::snprintf(buf, sizeof buf, "{\"\\u%04x\":\"\"}", u);
        judge(buf);
    }
    VF_COUNT_N("unicode escapes", 256 * 5);
}

// a high surrogate followed by anything
SECTION(surrogates, 400, 4000)
{
    static const char* const next[] = { "",     "a",      "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\\n",    "\\\"", "\\\\", "\\/",        "\\u0041", "\\ud83d", "\\udc",
                                        "\\u",  "\\udca9x", "\\udca9",                                  "\\udca9\\udca9", "\\ud83d\\udca9", " ",    "\xc3\xa9", "\\b",     "udca9",   "\n", "\\uDCA9aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" };
    for (const char* n : next) {
        char h[16];
        std::snprintf(h, sizeof h, "\\u%04x", static_cast<unsigned>(0xD800 + rng.below(0x800)));
        const std::string pre = ref::gen_plain(rng, rng.below(40));
        std::string clean;
        for (char c : pre) {
            if (c != '"' && c != '\\') {
                clean += c;
            }
        }
        judge("[\"" + clean + h + n + "\"]");
        judge("[\"" + clean + h + n + "\\udca9\"]");
        judge("{\"" + clean + h + n + clean + "\":1}");
        judge("[\"" + clean + n + h + "\"]");
    }
}

// every byte at every place of a string of every small length, then with a second copy of the string behind
SECTION(string_bytes, 256, 256)
{
    const char b = static_cast<char>(idx);
    for (size_t len = 1; len <= 70; len += 1 + (len > 36 ? 2 : 0)) {
        for (size_t pos = 0; pos < len; pos += 1 + rng.below(len > 20 ? 5 : 2)) {
            std::string s(len, 'x');
            s[pos] = b;
            judge("[\"" + s + "\"]", false);
            if (rng.chance(1, 4)) {
                judge("{\"" + s + "\":\"" + s + "\"}", false);
            }
        }
    }
    vf::distinct(idx + 1000);
    VF_COUNT("bytes placed in strings");
}

// every byte and fragment in every gap between tokens, in front and behind
SECTION(gaps, 400, 400)
{
    static const char* const frag[] = { "//", "/**/", "/* x */", "//\n", "/", "/*", ",", ",,", "null", "1", "\"\"", "[]", "{}", "\xef\xbb\xbf", "\xc2\xa0", "\xe2\x80\xa8", "\xfe\xff", "\x0b\x0c", "#", "'", "\r\n\t ", "\\n", "\\", "\\u0020", "0", "-", "+", "NaN", "Infinity", "undefined", "]", "}", "[", "{", ":", ";", "=", "(", ")", "true", "false", "True", "NULL", "0x1", "1.", ".1", "a", "\"", "\"a", "''" };
    static const char* const docs[][16] = {
        { "[", "]", nullptr },
        { "{", "}", nullptr },
        { "[", "1", ",", "-2.5e+1", ",", "\"s\"", ",", "null", ",", "true", ",", "[", "]", "]", nullptr },
        { "{", "\"a\"", ":", "false", ",", "\"b\"", ":", "{", "\"c\"", ":", "[", "{", "}", "]", "}", "}" },
        { "[", "[", "1", "]", ",", "{", "\"\"", ":", "\"\"", "}", ",", "0", "]", nullptr },
    };
    const std::string x = idx < 256 ? std::string(1, static_cast<char>(idx)) : frag[(idx - 256) % std::size(frag)];
    for (auto& d : docs) {
        size_t n = 0;
        while (n < 16 && d[n]) {
            ++n;
        }
        for (size_t gap = 0; gap <= n; ++gap) {
            for (const char* pad : { "", " " }) {
                std::string t;
                for (size_t i = 0; i < n; ++i) {
                    if (i == gap) {
                        t += pad + x + pad;
                    }
                    t += d[i];
                }
                if (gap == n) {
                    t += pad + x + pad;
                }
                judge(t);
            }
            // and in the place of a token
            if (gap < n) {
                std::string t;
                for (size_t i = 0; i < n; ++i) {
                    t += i == gap ? x.c_str() : d[i];
                }
                judge(t);
            }
        }
    }
}

// words close to the literals
SECTION(literals, 3, 3)
{
    const std::string w = idx == 0 ? "true" : idx == 1 ? "false" : "null";
    auto put = [&](const std::string& x) {
        judge("[" + x + "]");
        judge("[" + x);
        judge("{\"a\":" + x + "}");
        judge("[1," + x + ",2]");
        judge(x);
    };
    put(w);
    for (size_t i = 0; i <= w.size(); ++i) {
        put(w.substr(0, i));
        put(w.substr(i));
        for (int c = 0; c < 256; ++c) {
            std::string a = w;
            a.insert(i, 1, static_cast<char>(c));
            put(a);
            if (i < w.size()) {
                a = w;
                a[i] = static_cast<char>(c);
                put(a);
            }
        }
    }
    for (const char* o : { "True", "TRUE", "nil", "none", "None", "undefined", "NaN", "-NaN", "Infinity", "-Infinity", "inf", "nan", "yes", "on", "0x10", "1_000", "1,000", "١", "½", "'a'", "`a`", "b\"a\"" }) {
        put(o);
    }
}

// repeated keys, however they are written
SECTION(keys, 8000, 200000)
{
    const size_t n = 1 + (rng.chance(1, 30) ? rng.below(400) : rng.below(8));
    std::map<std::string, int> keys;
    while (keys.size() < n) {
        keys[ref::gen_string(rng, 12)];
    }
    std::vector<std::string> ks;
    for (auto& [k, _] : keys) {
        ks.push_back(k);
    }
    const unsigned kind = static_cast<unsigned>(rng.below(4));
    if (kind == 1) { // the same key again
        ks.push_back(ks[rng.below(ks.size())]);
    }
    else if (kind == 2) { // nearly the same
        std::string k = ks[rng.below(ks.size())];
        k += rng.chance(1, 2) ? std::string(1, '\0') : std::string(" ");
        if (!keys.count(k)) {
            ks.push_back(k);
        }
    }
    else if (kind == 3) {
        std::string k = ks[rng.below(ks.size())];
        if (!k.empty()) {
            k[0] = static_cast<char>(k[0] ^ 0x20);
            if (!keys.count(k)) {
                ks.push_back(k);
            }
        }
    }
    for (size_t i = ks.size(); i > 1; --i) {
        std::swap(ks[i - 1], ks[rng.below(i)]);
    }
    ref::Style st = ref::gen_style(rng, false);
    std::string t = "{";
    for (size_t i = 0; i < ks.size(); ++i) {
        t += i ? "," : "";
        st.esc = static_cast<unsigned>(rng.below(3));
        ref::render_string(t, rng, ks[i], st);
        t += ":";
        t += rng.chance(1, 2) ? "null" : rng.chance(1, 2) ? "{\"a\":1}" : "[\"a\",\"a\"]";
    }
    t += "}";
    if (rng.chance(1, 3)) {
        t = "[" + t + "," + t + "]"; // equal keys in different objects are fine
    }
    judge(t);
    if (kind == 1) {
        VF_COUNT("texts with a repeated key");
    }
}

// long tokens and many elements, valid and with one flaw
SECTION(sizes, 600, 6000)
{
    const size_t n = idx < 280 ? idx / 4 : (static_cast<size_t>(1) << rng.below(15)) + rng.below(3);
    std::string t;
    switch (idx % 4) {
    case 0:
        t = "[\"" + ref::gen_plain(rng, n) + "\"]";
        break;
    case 1:
        t = "[";
        for (size_t i = 0; i < n; ++i) {
            t += std::to_string(i) + ",";
        }
        t += "0]";
        break;
    case 2:
        t = "{";
        for (size_t i = 0; i < n; ++i) {
            t += "\"" + std::to_string(i) + "\":[],";
        }
        t += "\"\":{}}";
        break;
    default: {
        const size_t d = std::min<size_t>(n, 900);
        for (size_t i = 0; i < d; ++i) {
            t += i % 2 ? "{\"a\":" : "[";
        }
        t += "0";
        for (size_t i = d; i > 0; --i) {
            t += (i - 1) % 2 ? "}" : "]";
        }
    }
    }
    judge(t);
    judge(ref::mutate(rng, t, false));
    judge(t.substr(0, t.size() - 1));
    judge(t + " \n\t\r" + std::string(n, ' '));
    judge(t + std::string(n, ' ') + "1");
}

// past the borders of 8 and 16 bit counters and of buffers, in one respect each
SECTION(big, ref::big_quick, ref::big_thorough)
{
    const ref::MV m = ref::big(idx, rng);
    std::string t = rng.chance(1, 2) ? ref::dump(m) : ref::render_doc(rng, m, ref::gen_style(rng, false));
    while (t.back() != ']' && t.back() != '}') {
        t.pop_back();
    }
    const char close = t.back();
    const std::string open = t.substr(0, t.size() - 1);
    judge(t);
    judge(open);
    judge(t + t[0]);
    judge(open + "," + close);
    judge(open + ",01" + close);
    judge(open + ",\"\x1f\"" + close);
    judge(open + ",\"\\ud800\"" + close);
    if (m.k == ref::MV::Obj) {
        const std::string first = ref::dump(ref::MV::str(m.o.begin()->first)), last = ref::dump(ref::MV::str(m.o.rbegin()->first));
        judge(open + "," + first + ":1" + close);
        judge(open + "," + last + ":1" + close);
        judge(open + ",\"not there\":1" + close);
    }
    for (int i = 0; i < 2; ++i) {
        std::string u = t;
        u[rng.below(u.size())] = "\"\\x\x01,:]}0"[rng.below(9)];
        judge(u);
    }
    VF_COUNT("big texts");
}
