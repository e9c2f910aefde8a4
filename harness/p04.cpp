// P04: JSONC parsing adds only comments and trailing commas. Oracle: ref::parse with jsonc, and the strict
// parse of the text with its comments and trailing commas taken out.
#include "conv.hpp"

using namespace conv;
using ref::Ref;
using vf::u64;

namespace
{
// the strict text that a JSONC text stands for, found without parsing: comments outside strings become one
// blank, then a comma whose next token is a closing bracket goes, unless it follows an opening one or a comma.
// nullopt if a block comment does not end.
std::optional<std::string> strip(const std::string& t)
{
    std::string r;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == '"') {
            size_t j = i + 1;
            while (j < t.size() && t[j] != '"') {
                j += t[j] == '\\' ? 2 : 1;
            }
            j = std::min(j + 1, t.size());
            r.append(t, i, j - i);
            i = j;
        }
        else if (t.compare(i, 2, "//") == 0) {
            const size_t e = t.find('\n', i);
            i = e == t.npos ? t.size() : e;
            r += ' ';
        }
        else if (t.compare(i, 2, "/*") == 0) {
            const size_t e = t.find("*/", i + 2);
            if (e == t.npos) {
                return std::nullopt;
            }
            i = e + 2;
            r += ' ';
        }
        else {
            r += t[i++];
        }
    }
    std::string s;
    char prev = 0;
    for (size_t i = 0; i < r.size(); ++i) {
        const char c = r[i];
        if (c == '"') {
            size_t j = i + 1;
            while (j < r.size() && r[j] != '"') {
                j += r[j] == '\\' ? 2 : 1;
            }
            j = std::min(j + 1, r.size());
            s.append(r, i, j - i);
            i = j - 1;
            prev = '"';
            continue;
        }
        if (c == ',' && prev != '[' && prev != '{' && prev != ',' && prev != 0) {
            const size_t n = r.find_first_not_of(" \t\r\n", i + 1);
            if (n != r.npos && (r[n] == ']' || r[n] == '}')) {
                s += ' ';
                continue; // prev stays: a second comma is not taken out
            }
        }
        if (c != ' ' && c != '\t' && c != '\r' && c != '\n') {
            prev = c;
        }
        s += c;
    }
    return s;
}

void judge(const std::string& t, bool nontrivial = true)
{
    vf::input(t);
    VF_COUNT("evaluations");
    const Ref r = ref::parse(t, true);
    if (r.v == Ref::unspecified) {
        VF_COUNT("skipped: NUL after the root");
        return;
    }
    const bool want = r.v == Ref::accept;
    if (want) {
        VF_COUNT("valid texts");
    }
    else {
        VF_COUNT("invalid texts");
    }
    if (nontrivial) {
        vf::distinct(vf::hash_bytes(t));
    }
    // two independent statements of the same thing: the oracle must agree with itself
    const auto st = strip(t);
    if (t.find('\0') == t.npos && st) {
        const Ref q = ref::parse(*st, false);
        if ((q.v == Ref::accept) != want || (want && q.val != r.val)) {
            std::fprintf(stderr, "the oracle disagrees with itself: %s\n=> %s\n", vf::printable(t, 2000).c_str(), vf::printable(*st, 2000).c_str());
            _exit(98);
        }
        VF_COUNT("oracle cross-checks");
    }
    const Ref strict = ref::parse(t, false);
    for (const bool scalar : { false, true }) {
        std::optional<json::value> v, s;
        if (scalar) {
            const std::deque<char> d(t.begin(), t.end());
            v = json::parsec(d);
            s = json::parse(d);
        }
        else {
            Exact e(t, 0);
            v = json::parsec(e.view());
            s = json::parse(e.view());
        }
        if (v.has_value() != want) {
            vf::violation(want ? "valid-jsonc-refused" : "invalid-jsonc-accepted",
                          std::string(want ? "valid but refused: " : "invalid but accepted: ") + vf::printable(t), t);
        }
        else if (want) {
            const std::string d = differs(*v, r.val);
            VF_CHECK(d.empty(), "wrong-jsonc-value", d + " of " + vf::printable(t), t);
        }
        if (s && !(v && *v == *s && v->to_string() == s->to_string())) {
            vf::violation("modes-differ", "parse() gives a value, parsec() another outcome: " + vf::printable(t), t);
        }
        if (strict.v == Ref::reject && s) {
            vf::violation("strict-mode-tolerates", "strict mode accepts what only JSONC allows: " + vf::printable(t), t);
        }
        if (strict.v == Ref::accept) {
            VF_COUNT("texts valid in both modes");
        }
    }
}
}

#ifdef VF_FUZZ
[[maybe_unused]] const bool seeded = [] {
    vf::seed_text = [](vf::Rng& g) {
        const bool jsonc = !g.chance(1, 6);
        const std::string t = ref::render_doc(g, ref::gen_doc(g, 20, 5, 40), ref::gen_style(g, jsonc));
        return g.chance(1, 3) ? ref::mutate(g, t, jsonc) : t;
    };
    return true;
}();
#endif

// bytes as they come; guided by coverage in the fuzzing builds
SECTION(fuzzed, 4000, 200000)
{
    judge(rng.rest());
}

SECTION(documents, 30000, 1200000)
{
    const MV m = ref::gen_doc(rng, 40, 6, 100);
    ref::Style st = ref::gen_style(rng, !rng.chance(1, 6));
    const std::string t = ref::render_doc(rng, m, st);
    if (idx < 4) {
        vf::sample(vf::printable(t, 300));
    }
    const Ref r = ref::parse(t, true);
    if (r.v != Ref::accept || r.val != m) {
        std::fprintf(stderr, "the oracle disagrees with the generator: %s\n", t.c_str());
        _exit(98);
    }
    judge(t);
    for (int k = 0; k < 3; ++k) {
        judge(ref::mutate(rng, t, true));
    }
}

#ifdef VF_EDITS // in a build without sanitizers, which is faster
// every edit in every place of small documents
SECTION(every_edit, 8000, 200000)
{
    const MV m = ref::gen_doc(rng, 8, 4, 5);
    ref::Style st = ref::gen_style(rng, !rng.chance(1, 4));
    st.ws = std::min(st.ws, 1u);
    const std::string t = ref::render_doc(rng, m, st);
    judge(t);
    ref::edits(t, 0, std::min<size_t>(t.size(), 70), ref::edit_frags(true), [&](const std::string& x) { judge(x, false); });
    VF_COUNT("documents with every edit tried");
}
#endif

// all texts of a few symbols
SECTION(symbols, 2890, 2890) // 17 * 17 * 10
{
    static const char* const al[] = { "[", "]", "{", "}", ":", ",", "\"", "\"a\"", "1", "/", "*", "//", "/*", "*/", "\n", " ", "\\" };
    static const char* const pre[] = { "", "[", "{", "[1", "[1,", "{\"a\":1", "{\"a\":1,", "[/*", "[]", "[//" };
    const std::string head = std::string(pre[idx % 10]) + al[idx / 10 % 17] + al[idx / 170];
    const size_t depth = vf::ctx().thorough ? 4 : 3;
    size_t total = 1;
    for (size_t d = 0; d <= depth; ++d, total *= 17) {
        if (d == 3 && !vf::ctx().thorough && idx % 7) {
            break;
        }
        for (size_t k = 0; k < total; ++k) {
            std::string t = head;
            size_t r = k;
            for (size_t j = 0; j < d; ++j, r /= 17) {
                t += al[r % 17];
            }
            judge(t, false);
        }
        VF_COUNT_N("exhaustive texts", total);
    }
}

// comments and commas in every gap of documents
SECTION(gaps, 3000, 60000)
{
    static const char* const frag[] = { "//\n", "// x\n", "/**/", "/***/", "/*/*/", "/*/ */", "/* // */", "// /* \n", "//\\\n", "/*\n*/", "/*\"*/", "//\"\n", "//", "/*", "/", "*/", "/ /", "/ *", "/* *", "/*/", "//*\n", "/**", ",", ",,", ",/**/", "/**/,", "//,\n", ", ,", "/*,*/", ",//\n", "/*]*/", "//]\n", "/*}*/", "\r//\r", "//\r\n", "/*a*//*b*/", "//a\n//b\n", "///\n", "////", "/*\0*/", "#\n", "--\n", "<!---->", "/*\xff*/", "//\xf0\x9f\x92\xa9\n" };
    const std::string f = frag[idx % std::size(frag)];
    const MV m = ref::gen_doc(rng, 10, 4, 12);
    ref::Style st;
    st.ws = 0;
    st.esc = 0;
    const std::string t = ref::render_doc(rng, m, st);
    bool in = false;
    for (size_t i = 0; i <= t.size() && i < 300; ++i) {
        judge(t.substr(0, i) + f + t.substr(i)); // inside strings and tokens, too
        if (rng.chance(1, 6)) {
            judge(t.substr(0, i) + f + frag[rng.below(std::size(frag))] + t.substr(i));
        }
        (void)in;
    }
    VF_COUNT("documents with every gap tried");
}

// two gaps at once
SECTION(two_gaps, 8000, 200000)
{
    static const char* const frag[] = { "//\n", "/**/", "/*/*/", "/* // */", "//", "/*", "/", ",", ",,", ",/**/", "/**/,", " ", "\"", "*/" };
    const MV m = ref::gen_doc(rng, 8, 4, 8);
    ref::Style st = ref::gen_style(rng, true);
    std::string t = ref::render_doc(rng, m, st);
    for (int k = 0; k < 2; ++k) {
        t.insert(rng.below(t.size() + 1), frag[rng.below(std::size(frag))]);
    }
    judge(t);
}

// strings that hold comment marks stay as they are
SECTION(marks_in_strings, 4000, 100000)
{
    static const char* const mark[] = { "//", "/*", "*/", "/**/", "// \"", ",]", ",}", "/", "*", "\\", "\\\"", "/*\"*/", "\n", "http://x/*y*/" };
    MV m = MV::arr();
    for (size_t n = 1 + rng.below(5); n; --n) {
        std::string s;
        for (size_t k = 1 + rng.below(4); k; --k) {
            s += ref::gen_plain(rng, rng.below(rng.chance(1, 4) ? 40 : 4));
            s += mark[rng.below(std::size(mark))];
        }
        if (rng.chance(1, 2)) {
            m.a.push_back(MV::str(s));
        }
        else {
            m.a.push_back(MV::obj({ { s, MV::str(s) } }));
        }
    }
    judge(ref::render_doc(rng, m, ref::gen_style(rng, true)));
    judge(ref::render_doc(rng, m, ref::gen_style(rng, false)));
    VF_COUNT("strings with comment marks");
}

// trailing commas behind every kind of element, in every kind of container, with things between
SECTION(trailing, 156, 156)
{
    static const char* const el[] = { "1", "-0.5e1", "null", "true", "\"\"", "\"x\"", "[]", "{}", "[1]", "{\"a\":1}", "[1,]", "{\"a\":[],}" };
    static const char* const between[] = { "", " ", "\n", "//\n", "/**/", "\t/* , */ ", ",", "/*", "//", "/", "\"\"", ":", "1" };
    static const char* const rest[] = { "", " ", "//", "//\n", "/**/", "/* */ //", "/", "/*", ",", "]", "}", "1", "\0" };
    const std::string e = el[idx % 12];
    for (const char* b1 : between) {
        for (const char* b2 : between) {
            for (int form = 0; form < 6; ++form) {
                std::string t;
                switch (form) {
                case 0:
                    t = "[" + e + b1 + "," + b2 + "]";
                    break;
                case 1:
                    t = "{\"k\":" + e + b1 + "," + b2 + "}";
                    break;
                case 2:
                    t = std::string("[") + b1 + "," + b2 + "]";
                    break;
                case 3:
                    t = std::string("{") + b1 + "," + b2 + "}";
                    break;
                case 4:
                    t = "[" + e + b1 + "," + b2 + e + "," + b1 + "]";
                    break;
                default:
                    t = "{\"a\":" + e + b1 + "," + b2 + "\"b\"" + b1 + ":" + e + b2 + "," + "}";
                }
                t += rest[idx / 12 % std::size(rest)];
                judge(t);
            }
        }
    }
    VF_COUNT("trailing comma grids");
}

// big comments, many comments, comments as the last bytes, cut anywhere
SECTION(big_comments, 300, 3000)
{
    const size_t n = idx < 150 ? idx : (static_cast<size_t>(1) << rng.below(17)) + rng.below(3);
    std::string body(n, "x*/ \n\""[rng.below(6)]);
    for (size_t p; (p = body.find("*/")) != body.npos;) {
        body[p] = ' ';
    }
    if (!body.empty() && body.back() == '/') {
        body.back() = '-';
    }
    std::string line = body;
    for (auto& c : line) {
        c = c == '\n' ? '\r' : c;
    }
    for (const std::string& t : { "[/*" + body + "*/1]", "[1//" + line + "\n]", "[1]/*" + body + "*/", "[1]//" + line, "/*" + body + "*/{\"a\":/*" + body + "*/1//" + line + "\n,}", "[1]/*" + body, "[1]/*" + body + "*" }) {
        judge(t, false);
        judge(t.substr(0, t.size() - 1), false);
        judge(t.substr(0, rng.below(t.size())), false);
    }
    std::string many = "[";
    for (size_t i = 0; i < n / 8; ++i) {
        many += i % 2 ? "//\n" : "/**/";
    }
    judge(many + "1]", false);
    VF_COUNT("comment sizes");
    vf::distinct(n);
}

// past the borders of 8 and 16 bit counters and of buffers, in one respect each
SECTION(big, ref::big_quick, ref::big_thorough)
{
    const ref::MV m = ref::big(idx, rng);
    std::string t = ref::render_doc(rng, m, ref::gen_style(rng, true));
    judge(t);
    t = ref::dump(m);
    const char close = t.back();
    t.pop_back();
    const std::string c(1, close);
    judge(t + "," + c);
    judge(t + ",," + c);
    judge(t + "/**/,//\n" + c + "//");
    judge(t + "/*/" + c);
    judge("//" + std::string(1, t[0]) + "\n" + t + "/" + c);
    VF_COUNT("big texts");
}
