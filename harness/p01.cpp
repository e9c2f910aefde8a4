// P01: parsing any bytes is total and memory-safe; the outcome depends on the bytes only
#include "conv.hpp"

using namespace conv;
using vf::u64;

namespace
{
template <typename C>
std::optional<json::value> go(const C& c, bool jsonc)
{
    return jsonc ? json::parsec(c) : json::parse(c);
}

// parse from an exact place in memory; exceptions are violations
u64 outcome_view(std::string_view v, bool jsonc)
{
    VF_COUNT("parses");
    try {
        auto r = go(v, jsonc);
        if (r) {
            VF_COUNT("accepted");
        }
        else {
            VF_COUNT("refused");
        }
        return digest(r);
    }
    catch (const std::exception& e) {
        vf::violation("exception-from-parse", std::string("parse threw ") + e.what(), v);
    }
    catch (...) {
        vf::violation("exception-from-parse", "parse threw something", v);
    }
    return 0;
}

template <typename C>
void same_from(const C& c, bool jsonc, u64 expect, std::string_view text, const char* name)
{
    VF_COUNT("parses");
    try {
        const u64 d = digest(go(c, jsonc));
        VF_CHECK(d == expect, std::string("outcome-differs:") + name, std::string("another outcome from ") + name + (jsonc ? " (jsonc)" : ""), text);
    }
    catch (const std::exception& e) {
        vf::violation("exception-from-parse", std::string("parse from ") + name + " threw " + e.what(), text);
    }
}

void checked(std::string_view text, bool jsonc, u64 expect)
{
    Checked c { text };
    Checked::fault = nullptr;
    same_from(c, jsonc, expect, text, "a container with checked iterators");
    if (Checked::fault) {
        vf::violation("iterator-out-of-range", Checked::fault, text);
    }
}

const char* const suffixes[] = { "", "\"", "]", "}", " ", "0", "9e9", "/", "/*", "*/", "//\n", "\\", "u0041\"]", "\"]\"]\"]", "\0", "ll]", "rue]", ",1]", "\n", "]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]", "\"}\"}\"}\"}\"}\"}\"}\"}\"}\"}\"}\"}\"}\"}\"}", "dca9\"]                                  " };

// every entry point, several places in memory
void everywhere(std::string_view text, vf::Rng& rng, bool all)
{
    vf::input(text);
    if (vf::distinct(vf::hash_bytes(text))) {
        VF_COUNT("distinct texts");
    }
    for (const bool jsonc : { false, true }) {
        u64 expect;
        {
            Exact e(text, 0);
            expect = outcome_view(e.view(), jsonc);
        }
        {
            const size_t shift = 1 + rng.below(63);
            Exact e(text, shift);
            const u64 d = outcome_view(e.view(), jsonc);
            VF_CHECK(d == expect, "outcome-differs:alignment", "another outcome at alignment offset " + std::to_string(shift), text);
        }
        { // inside of something longer
            const char* suf = suffixes[rng.below(std::size(suffixes))];
            std::string big(rng.below(40), '[');
            const size_t at = big.size();
            big += text;
            big += suf;
            big.append(rng.below(40), "\"]} 0/"[rng.below(6)]);
            const u64 d = outcome_view(std::string_view(big).substr(at, text.size()), jsonc);
            VF_CHECK(d == expect, "outcome-differs:suffix", std::string("the outcome depends on what follows the text (") + vf::printable(suf) + ")", text);
        }
        checked(text, jsonc, expect);
        if (all) {
            same_from(std::string(text), jsonc, expect, text, "std::string");
            same_from(std::vector<char>(text.begin(), text.end()), jsonc, expect, text, "std::vector");
            std::deque<char> dq(text.begin(), text.end());
            same_from(dq, jsonc, expect, text, "std::deque");
            if (text.find('\0') == text.npos) {
                const std::string z(text);
                same_from(z.c_str(), jsonc, expect, text, "const char*");
            }
        }
    }
}

void quickly(std::string_view text)
{
    for (const bool jsonc : { false, true }) {
        Exact e(text, 0);
        const u64 d = outcome_view(e.view(), jsonc);
        checked(text, jsonc, d);
    }
}

std::string some_doc(vf::Rng& rng, bool jsonc, size_t nodes = 40, size_t maxstr = 200)
{
    const ref::MV m = ref::gen_doc(rng, nodes, 6, maxstr);
    return ref::render_doc(rng, m, ref::gen_style(rng, jsonc));
}
}

#ifdef VF_FUZZ
[[maybe_unused]] const bool seeded = [] {
    vf::seed_text = [](vf::Rng& g) {
        const bool jsonc = g.chance(1, 2);
        const std::string t = ref::render_doc(g, ref::gen_doc(g, 20, 5, 40), ref::gen_style(g, jsonc));
        return g.chance(1, 3) ? ref::mutate(g, t, jsonc) : t;
    };
    return true;
}();
#endif

// bytes as they come; guided by coverage in the fuzzing builds
SECTION(fuzzed, 4000, 200000)
{
    const u64 a = rng.next();
    vf::Rng g(a);
    everywhere(rng.rest(), g, idx % 8 == 0);
}

SECTION(mutants, 40000, 2000000)
{
    const bool jsonc = rng.chance(1, 2);
    std::string t = some_doc(rng, jsonc);
    if (!rng.chance(1, 6)) {
        t = ref::mutate(rng, t, jsonc);
    }
    if (idx < 3) {
        vf::sample(vf::printable(t, 200));
    }
    everywhere(t, rng, rng.chance(1, 4));
}

SECTION(garbage, 16000, 1000000)
{
    std::string t(rng.skewed(400), ' ');
    static const char st[] = "[]{}:,\"\\/*-+.eEu0123456789abcdf \t\n\rtruefalsnl";
    for (auto& c : t) {
        c = rng.chance(1, 8) ? static_cast<char>(rng.next()) : st[rng.below(sizeof st - 1)];
    }
    if (rng.chance(2, 3)) {
        t.insert(0, rng.chance(1, 2) ? "[" : "{\"");
    }
    everywhere(t, rng, rng.chance(1, 8));
}

// every prefix, cut exactly at the end of its memory
SECTION(truncations, 800, 40000)
{
    const bool jsonc = rng.chance(1, 2);
    const std::string t = some_doc(rng, jsonc, 25, 60);
    const size_t n = std::min<size_t>(t.size(), 500);
    for (size_t k = 0; k <= n; ++k) {
        const std::string_view v = std::string_view(t).substr(0, k);
        vf::input(v);
        quickly(v);
    }
    vf::distinct(vf::hash_bytes(t));
    VF_COUNT_N("prefixes", n + 1);
}

// all texts of up to two bytes, and all texts of up to 5 (6) symbols that matter to the grammar
SECTION(tiny_bytes, 257, 257)
{
    std::string t;
    if (idx == 256) {
        quickly("");
        for (int a = 0; a < 256; ++a) {
            quickly(std::string(1, static_cast<char>(a)));
        }
        return;
    }
    for (int a = 0; a < 256; ++a) {
        t = { static_cast<char>(idx), static_cast<char>(a) };
        vf::input(t);
        quickly(t);
        // and as content
        for (const char* pre : { "[", "[\"", "{\"", "[1", "[\"\\", "[-", "[1.", "[1e", "[t", "[ ", "[[]", "[]", "[]/", "[\"\\u00", "[\"\\ud83d\\", "[\"\\ud83d\\udc" }) {
            quickly(pre + t);
        }
    }
    VF_COUNT_N("exhaustive texts", 256 * 17);
}

SECTION(tiny_symbols, 2400, 2400) // = 20 * 20 * 6
{
    static const char* const al[] = { "[", "]", "{", "}", ":", ",", "\"", "\\", "u", "d83d", "0", "7", "-", ".", "e", "/", "*", " ", "\n", "null" };
    static const char* const pre[] = { "", "[", "{\"", "[\"", "[1", "{\"\":" };
    const std::string head = std::string(pre[idx % 6]) + al[idx / 6 % 20] + al[idx / 120];
    const size_t depth = vf::ctx().thorough ? 4 : 2;
    size_t total = 1;
    for (size_t d = 0; d <= depth; ++d, total *= 20) {
        if (d == 1 && depth > 1) {
            continue; // a prefix of the next anyway, but for acceptance
        }
        for (size_t k = 0; k < total; ++k) {
            std::string t = head;
            size_t r = k;
            for (size_t j = 0; j < d; ++j, r /= 20) {
                t += al[r % 20];
            }
            vf::input(t);
            quickly(t);
        }
        VF_COUNT_N("exhaustive texts", total);
    }
}

// strings of every length with one interesting thing at every place, at every alignment
SECTION(string_grid, 140, 140)
{
    static const char* const special[] = { "", "\\n", "\\u00e9", "\\ud83d\\udca9", "\"", "\n", "\x1f", "\\", "\x7f", "\xff", "\\ud83d", "\\u12", "\x80" };
    const size_t len = idx;
    for (size_t pos = 0; pos <= len; pos += len > 70 ? 1 + rng.below(7) : 1) {
        for (const char* sp : special) {
            std::string t = "[\"" + std::string(pos, 'a') + sp + std::string(len - pos, 'b') + "\"]";
            for (const size_t cut : { t.size(), t.size() - 1, t.size() - 2 }) {
                const std::string_view v = std::string_view(t).substr(0, cut);
                vf::input(v);
                Exact e(v, rng.below(64));
                const u64 d = outcome_view(e.view(), false);
                checked(v, false, d);
            }
        }
    }
    VF_COUNT("string lengths");
}

// depth up to 1000
SECTION(nesting, 240, 1000)
{
    const size_t n = vf::ctx().thorough ? idx + 1 : idx < 20 ? idx + 1 : idx == 239 ? 1000 : 1 + rng.below(1000);
    static const char* const open_[] = { "[", "{\"a\":", "[{\"k\":", "[1,", "{\"a\":1,\"b\":" };
    static const char* const close_[] = { "]", "}", "}]", "]", "}" };
    const size_t f = rng.below(5);
    const size_t levels = f == 2 ? (n + 1) / 2 : n;
    std::string t;
    for (size_t i = 0; i < levels; ++i) {
        t += open_[f];
    }
    const std::string half = t;
    t += f == 0 || f == 3 ? "" : "null";
    if (f == 3) {
        t += "2";
    }
    for (size_t i = 0; i < levels; ++i) {
        t += close_[f];
    }
    vf::input(t);
    vf::distinct(vf::hash_bytes(t));
    for (const std::string& x : { t, half, t.substr(0, t.size() - 1), t + close_[f], half + "1", half + close_[(f + 1) % 5] }) {
        for (const bool jsonc : { false, true }) {
            Exact e(x, 0);
            const u64 d = outcome_view(e.view(), jsonc);
            checked(x, jsonc, d);
            vf::alive();
            VF_CHECK(d != 0 || x != t, "nesting-refused", "a text nested " + std::to_string(n) + " deep was refused", t);
        }
    }
    VF_COUNT("depths");
}

// big tokens, whole and cut
SECTION(big, 80, 800)
{
    const size_t n = vf::ctx().thorough ? (static_cast<size_t>(1) << (10 + rng.below(12))) + rng.below(5) : (static_cast<size_t>(1) << (10 + rng.below(10))) + rng.below(5);
    std::string t;
    const char* what = "";
    switch (idx % 20) {
    case 0:
        t = "[\"" + std::string(n, 'x') + "\"]";
        what = "string";
        break;
    case 1:
        t = "[" + std::string(n, '7') + "]";
        what = "digits";
        break;
    case 2:
        t = "[0." + std::string(n, '0') + "1]";
        what = "fraction";
        break;
    case 3:
        t = std::string(n, ' ') + "[" + std::string(n, '\n') + "]" + std::string(n, '\t');
        what = "white space";
        break;
    case 4:
        t = "[/*" + std::string(n, '*') + "*/]//" + std::string(n, '/');
        what = "comments";
        break;
    case 5:
        t = "[";
        for (size_t i = 0; i < n / 4; ++i) {
            t += "1,";
        }
        t += "1]";
        what = "elements";
        break;
    case 6:
        t = "{";
        for (size_t i = 0; i < n / 16; ++i) {
            t += "\"" + std::to_string(i) + "\":" + std::to_string(i) + ",";
        }
        t += "\"\":0}";
        what = "members";
        break;
    case 7:
        t = "[\"";
        for (size_t i = 0; i < n / 2; ++i) {
            t += "\\n";
        }
        t += "\"]";
        what = "escapes";
        break;
    case 8:
        t = "[\"";
        for (size_t i = 0; i < n / 12; ++i) {
            t += "\\ud83d\\udca9";
        }
        t += "\"]";
        what = "surrogate pairs";
        break;
    case 9:
        t = "[1e" + std::string(n, '9') + "]";
        what = "exponent";
        break;
    case 10:
        t = "{\"" + std::string(n, 'k') + "\":1}";
        what = "key";
        break;
    case 11:
        t = "[";
        for (size_t i = 0; i < n / 16; ++i) {
            t += "[],{},";
        }
        t += "[]]";
        what = "empty containers";
        break;
    case 12:
        t = "[" + std::string(n, ',') + "]";
        what = "commas";
        break;
    case 13:
        t = "[\"" + std::string(n, '\\') + "\"]";
        what = "backslashes";
        break;
    case 14:
        t = "[";
        for (size_t i = 0; i < n / 8; ++i) {
            t += "/**/";
        }
        t += "//x\n]";
        what = "many comments";
        break;
    case 15:
        t = "[" + std::string(n, '"') + "]";
        what = "quotes";
        break;
    case 16:
        t = std::string(n, '/');
        what = "slashes";
        break;
    case 17:
        t = "[\"" + std::string(n, '\xff') + "\"]";
        what = "high bytes";
        break;
    case 18:
        t = "[-" + std::string(n, '-') + "]";
        what = "minus signs";
        break;
    default:
        t = std::string(n, '\0');
        what = "zero bytes";
    }
    vf::note(what);
    vf::distinct(vf::hash_bytes(t));
    if (idx < 2) {
        vf::sample(std::to_string(n) + " bytes of " + what);
    }
    everywhere(t, rng, true);
    std::string cut = t.substr(0, t.size() - 1 - rng.below(3));
    everywhere(cut, rng, false);
    everywhere(t.substr(0, rng.below(t.size())), rng, false);
    VF_COUNT("big texts");
}

// views of nothing, default views, embedded zeros
SECTION(edges, 1, 1)
{
    for (const bool jsonc : { false, true }) {
        VF_CHECK(!go(std::string_view(), jsonc), "empty-accepted", "a default string_view was accepted", "");
        VF_CHECK(!go(std::string(), jsonc), "empty-accepted", "an empty string was accepted", "");
        VF_CHECK(!go(std::vector<char>(), jsonc), "empty-accepted", "an empty vector was accepted", "");
        VF_CHECK(!go(std::deque<char>(), jsonc), "empty-accepted", "an empty deque was accepted", "");
        VF_CHECK(!go("", jsonc), "empty-accepted", "an empty literal was accepted", "");
        VF_CHECK(!go(static_cast<const char*>(" "), jsonc), "empty-accepted", "a blank was accepted", "");
    }
    vf::distinct(1);
}

// far beyond the covered depth: run only by jobs of their own, each expected to exhaust the stack
#ifdef VF_DEEP
SECTION(deep_array_1000000, 1, 1)
{
    const std::string t = std::string(1000000, '[') + std::string(1000000, ']');
    vf::input("[ x 1000000");
    (void)json::parse(t);
}
SECTION(deep_unclosed_array_1000000, 1, 1)
{
    const std::string t(1000000, '[');
    vf::input("[ x 1000000, not closed");
    (void)json::parse(t);
}
SECTION(deep_object_1000000, 1, 1)
{
    std::string t;
    for (int i = 0; i < 1000000; ++i) {
        t += "{\"\":";
    }
    vf::input("{\"\": x 1000000");
    (void)json::parsec(t);
}
#endif
