// P05: parsing gives the same result in every configuration. Every build parses the same texts and writes a
// log of outcomes, one record per text; the logs of all builds are compared offline (jobs.py). Within a
// build, containers, alignments and (VF_TRAITS) the explicit packed-byte traits are compared.
#include "conv.hpp"

using namespace conv;
using vf::u64;

namespace
{
FILE* log_file()
{
    static FILE* f = [] {
        // next to the log of the harness: <job>.<shard>.log -> <job>.<shard>.outcomes
        std::string p = vf::ctx().out;
        if (p.empty()) {
            return static_cast<FILE*>(nullptr);
        }
        p.replace(p.rfind(".log"), 4, ".outcomes");
        return std::fopen(p.c_str(), "wb");
    }();
    return f;
}

struct Closer
{
    ~Closer()
    {
        if (FILE* f = log_file()) {
            std::fclose(f);
        }
    }
};

void record(std::string_view text, u64 strict, u64 jsonc)
{
    static Closer closer;
    if (FILE* f = log_file()) {
        struct
        {
            char section[24];
            u64 index, hash, strict, jsonc;
            uint32_t len, kept;
        } r {};
        std::snprintf(r.section, sizeof r.section, "%s", vf::ctx().cur->section);
        r.index = vf::ctx().cur->index;
        r.hash = vf::hash_bytes(text);
        r.strict = strict;
        r.jsonc = jsonc;
        r.len = static_cast<uint32_t>(text.size());
        r.kept = std::min<uint32_t>(r.len, 160);
        std::fwrite(&r, sizeof r, 1, f);
        std::fwrite(text.data(), 1, r.kept, f);
    }
}

template <typename C>
u64 run(const C& c, bool jsonc)
{
    VF_COUNT("parses");
    return digest(jsonc ? json::parsec(c) : json::parse(c));
}

#ifdef VF_TRAITS
template <typename Tr>
void with_trait(std::string_view v, u64 strict, u64 jsonc, const char* name)
{
    if constexpr (Tr::available) {
        const u64 s = digest(json::parser<false, std::string_view, Tr>::parse(v));
        const u64 c = digest(json::parser<true, std::string_view, Tr>::parse(v));
        VF_COUNT("parses with explicit traits");
        VF_CHECK(s == strict && c == jsonc, std::string("trait-differs:") + name, std::string("another outcome with ") + name + " of " + vf::printable(v), v);
    }
}
#endif

void compare(std::string_view t, vf::Rng& rng)
{
    vf::input(t);
    VF_COUNT("texts");
    if (vf::distinct(vf::hash_bytes(t))) {
        VF_COUNT("distinct texts");
    }
    // not accelerated: iterators over a deque
    const std::deque<char> dq(t.begin(), t.end());
    const u64 strict = run(dq, false), jsonc = run(dq, true);
    record(t, strict, jsonc);
    auto same = [&](u64 s, u64 c, const std::string& what) {
        VF_CHECK(s == strict && c == jsonc, "container-differs:" + what.substr(0, what.find(' ')), "another outcome from " + what + " than from a deque: " + vf::printable(t), t);
    };
    {
        const std::string s(t);
        same(run(s, false), run(s, true), "std::string");
    }
    {
        const std::vector<char> s(t.begin(), t.end());
        same(run(s, false), run(s, true), "std::vector<char>");
    }
    {
        const size_t sh = rng.below(64);
        Exact e(t, sh);
        same(run(e.view(), false), run(e.view(), true), "string_view at offset " + std::to_string(sh));
#ifdef VF_TRAITS
        using namespace json::_packed_bytes;
        with_trait<packed_bytes_trait_uint32>(e.view(), strict, jsonc, "packed_bytes_trait_uint32");
        with_trait<packed_bytes_trait_uint64>(e.view(), strict, jsonc, "packed_bytes_trait_uint64");
        with_trait<packed_bytes_trait<16>>(e.view(), strict, jsonc, "packed_bytes_trait<16>");
        with_trait<packed_bytes_trait<32>>(e.view(), strict, jsonc, "packed_bytes_trait<32>");
        {
            const u64 s = digest(json::parser<false, std::string_view, packed_bytes_trait_none>::parse(e.view()));
            VF_CHECK(s == strict, "trait-differs:none", "another outcome without acceleration of " + vf::printable(t), t);
        }
#endif
    }
    if (rng.chance(1, 8)) {
        std::array<char, 256> a {};
        if (t.size() <= 256) {
            Checked c { t };
            same(run(c, false), run(c, true), "checked iterators");
        }
        (void)a;
    }
}
}

SECTION(documents, 12000, 400000)
{
    const bool jsonc = rng.chance(1, 3);
    const MV m = ref::gen_doc(rng, 40, 6, 200);
    const std::string t = ref::render_doc(rng, m, ref::gen_style(rng, jsonc));
    if (idx < 3) {
        vf::sample(vf::printable(t, 200));
    }
    compare(t, rng);
    compare(ref::mutate(rng, t, jsonc), rng);
}

// strings are where the packed loads work: every length, special bytes at every place, at any offset
SECTION(strings, 150, 150)
{
    static const char* const sp[] = { "\"", "\\n", "\\\"", "\\u0041", "\\ud83d\\udca9", "\\ud83d", "\x1f", "\n", "\t", "\x7f", "\x80", "\xa2", "\xdc", "\xff", "\x1e", "\x20", "\x21", "\x22\x22", "\x5b", "\x5d", "\x9f", "\xa0", "\0x", "\x01" };
    const size_t len = idx;
    const std::string before(rng.below(33), ' ');
    for (size_t pos = 0; pos <= len; pos += len > 64 ? 1 + rng.below(6) : 1) {
        for (const char* x : sp) {
            const char f1 = "az\x80\xff "[rng.below(5)];
            const char f2 = "by\xc0\xfe!"[rng.below(5)];
            std::string t = before + "[\"" + std::string(pos, f1) + x + std::string(len - pos, f2) + "\"]";
            if (rng.chance(1, 3)) {
                t += std::string(rng.below(40), ' ');
            }
            if (rng.chance(1, 6)) {
                t.resize(t.size() - 1 - rng.below(3));
            }
            compare(t, rng);
        }
        vf::alive();
    }
}

// every pair of neighbouring bytes inside of a string, in every lane
SECTION(lanes, 256, 256)
{
    for (int k = 0; k < 256; ++k) {
        std::string s(40, 'm');
        const size_t at = rng.below(38);
        s[at] = static_cast<char>(idx);
        s[at + 1] = static_cast<char>(k);
        compare("[\"" + s + "\"]", rng);
    }
}

// random bytes >= 0x80 and plain ones: nothing special for long stretches
SECTION(long_strings, 500, 10000)
{
    std::string s(rng.below(2000), 'a');
    const bool high = rng.chance(1, 2);
    for (auto& c : s) {
        do {
            c = static_cast<char>(high ? rng.next() | 0x80 : rng.next());
        } while (c == '"' || c == '\\' || static_cast<unsigned char>(c) < 0x20);
    }
    if (rng.chance(1, 2) && !s.empty()) {
        s[rng.below(s.size())] = "\"\\\n\x1f"[rng.below(4)];
    }
    compare("{\"" + s + "\":\"" + s + "\"}", rng);
    compare("[\"" + s + "\",\"" + s, rng);
}

SECTION(numbers_and_words, 3000, 100000)
{
    std::string n = ref::gen_number(rng);
    if (rng.chance(1, 2)) {
        n = ref::mutate(rng, n, false);
    }
    compare("[" + n + "]", rng);
    compare("[true,false,null," + n, rng);
}

SECTION(escapes, 256, 256)
{
    char b[48];
    for (unsigned lo = 0; lo < 256; lo += 1 + static_cast<unsigned>(rng.below(8))) {
        std::snprintf(b, sizeof b, "[\"\\u%02x%02x\\u%04X\"]", static_cast<unsigned>(idx), lo, static_cast<unsigned>(0xDC00 + rng.below(1024)));
        compare(b, rng);
        std::snprintf(b, sizeof b, "[\"\\u%02X%02x\"]", static_cast<unsigned>(idx), lo);
        compare(b, rng);
    }
}

// past the borders of 8 and 16 bit counters and of buffers, in one respect each
SECTION(big, ref::big_kinds * 2, ref::big_thorough)
{
    const ref::MV m = ref::big(idx, rng);
    std::string t = ref::render_doc(rng, m, ref::gen_style(rng, rng.chance(1, 4)));
    compare(t, rng);
    t[rng.below(t.size())] = "\"\\x\x01,:]}0"[rng.below(9)];
    compare(t, rng);
    VF_COUNT("big texts");
}
