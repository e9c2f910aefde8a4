// ref.hpp - the reference model, written from RFC 8259 and independent of the library: a model
// value, a table-and-stack recogniser/decoder for JSON and JSONC, a serialiser, and generators.
#pragma once

#include "vf.hpp"

#include <cmath>
#include <map>
#include <memory>
#include <set>

namespace ref
{
using vf::Rng;
using vf::u64;

struct MV
{
    enum K
    {
        Null,
        Bool,
        Num,
        Str,
        Arr,
        Obj
    } k = Null;

    bool b = false;
    std::string s; // bytes of a string, characters of a number
    std::vector<MV> a;
    std::map<std::string, MV> o;

    static MV null() { return {}; }

    static MV boolean(bool x)
    {
        MV m;
        m.k = Bool;
        m.b = x;
        return m;
    }

    static MV num(std::string x)
    {
        MV m;
        m.k = Num;
        m.s = std::move(x);
        return m;
    }

    static MV str(std::string x)
    {
        MV m;
        m.k = Str;
        m.s = std::move(x);
        return m;
    }

    static MV arr(std::vector<MV> x = {})
    {
        MV m;
        m.k = Arr;
        m.a = std::move(x);
        return m;
    }

    static MV obj(std::map<std::string, MV> x = {})
    {
        MV m;
        m.k = Obj;
        m.o = std::move(x);
        return m;
    }

    bool operator==(const MV& r) const
    {
        if (k != r.k) {
            return false;
        }
        switch (k) {
        case Null:
            return true;
        case Bool:
            return b == r.b;
        case Num:
        case Str:
            return s == r.s;
        case Arr:
            return a == r.a;
        case Obj:
            return o == r.o;
        }
        return false;
    }

    bool operator!=(const MV& r) const { return !(*this == r); }

    bool empty() const // json::value::empty()
    {
        return k == Null || (k == Str && s.empty()) || (k == Arr && a.empty()) || (k == Obj && o.empty());
    }

    size_t nodes() const
    {
        size_t n = 1;
        for (auto& x : a) {
            n += x.nodes();
        }
        for (auto& [_, x] : o) {
            n += x.nodes();
        }
        return n;
    }
};

// ---------------------------------------------------------------- lexer
struct Tok
{
    // one of [ ] { } : ,   'S' string, 'N' number, 't' 'f' 'n' literals, 'E' end, 'Z' a NUL, '!' error
    char t;
    std::string s;
    size_t pos;
};

inline void put_utf8(std::string& r, uint32_t c)
{
    if (c < 0x80) {
        r += static_cast<char>(c);
        return;
    }
    unsigned char tmp[4];
    int n = c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    static const unsigned char lead[5] = { 0, 0, 0xC0, 0xE0, 0xF0 };
    for (int i = n - 1; i > 0; --i) {
        tmp[i] = static_cast<unsigned char>(0x80 + c % 64);
        c /= 64;
    }
    tmp[0] = static_cast<unsigned char>(lead[n] + c);
    r.append(reinterpret_cast<char*>(tmp), static_cast<size_t>(n));
}

struct Lexer
{
    std::string_view x;
    bool jsonc;
    size_t i = 0;

    int at(size_t k) const { return k < x.size() ? static_cast<unsigned char>(x[k]) : -1; }

    static bool dig(int c) { return c >= '0' && c <= '9'; }

    int hex4(size_t k) const // value of 4 hex digits at k or -1
    {
        int v = 0;
        for (size_t j = k; j < k + 4; ++j) {
            const int c = at(j);
            const int d = dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 87 : c >= 'A' && c <= 'F' ? c - 55 : -1;
            if (d < 0) {
                return -1;
            }
            v = v * 16 + d;
        }
        return v;
    }

    Tok err(size_t p) const { return { '!', "", p }; }

    Tok next()
    {
        for (;;) {
            const int c = at(i);
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r') {
                ++i;
                continue;
            }
            if (jsonc && c == '/' && at(i + 1) == '/') {
                const size_t e = x.find('\n', i);
                i = e == x.npos ? x.size() : e + 1;
                continue;
            }
            if (jsonc && c == '/' && at(i + 1) == '*') {
                const size_t e = x.find("*/", i + 2);
                if (e == x.npos) {
                    return err(i);
                }
                i = e + 2;
                continue;
            }
            break;
        }
        const size_t p = i;
        const int c = at(i);
        switch (c) {
        case -1:
            return { 'E', "", p };
        case 0:
            return { 'Z', "", p };
        case '[':
        case ']':
        case '{':
        case '}':
        case ':':
        case ',':
            ++i;
            return { static_cast<char>(c), "", p };
        case '"':
            return string();
        default:
            break;
        }
        if (c == '-' || dig(c)) {
            return number();
        }
        for (const char* lit : { "true", "false", "null" }) {
            const size_t n = std::strlen(lit);
            if (x.substr(i, n) == lit) {
                i += n;
                return { lit[0], "", p };
            }
        }
        return err(p);
    }

    Tok number()
    {
        const size_t p = i;
        size_t j = i;
        if (at(j) == '-') {
            ++j;
        }
        if (!dig(at(j))) {
            return err(p);
        }
        if (at(j) == '0') {
            ++j;
        }
        else {
            while (dig(at(j))) {
                ++j;
            }
        }
        if (at(j) == '.' && dig(at(j + 1))) {
            ++j;
            while (dig(at(j))) {
                ++j;
            }
        }
        if (at(j) == 'e' || at(j) == 'E') {
            size_t q = j + 1;
            if (at(q) == '+' || at(q) == '-') {
                ++q;
            }
            if (dig(at(q))) {
                while (dig(at(q))) {
                    ++q;
                }
                j = q;
            }
        }
        i = j; // anything left over ("1.", "01", "1e") is an error for the next token
        return { 'N', std::string(x.substr(p, j - p)), p };
    }

    Tok string()
    {
        const size_t p = i;
        std::string r;
        size_t j = i + 1;
        for (;;) {
            const int c = at(j);
            if (c < 0x20) { // includes the end
                return err(p);
            }
            if (c == '"') {
                i = j + 1;
                return { 'S', std::move(r), p };
            }
            if (c != '\\') {
                r += static_cast<char>(c);
                ++j;
                continue;
            }
            static const char from[] = "\"\\/bfnrt";
            static const char to[] = "\"\\/\b\f\n\r\t";
            const int e = at(j + 1);
            if (e > 0) {
                if (const char* q = std::strchr(from, e)) {
                    r += to[q - from];
                    j += 2;
                    continue;
                }
            }
            if (e != 'u') {
                return err(p);
            }
            const int h = hex4(j + 2);
            if (h < 0) {
                return err(p);
            }
            j += 6;
            if (h >= 0xDC00 && h < 0xE000) {
                return err(p);
            }
            if (h >= 0xD800 && h < 0xDC00) {
                const int l = at(j) == '\\' && at(j + 1) == 'u' ? hex4(j + 2) : -1;
                if (l < 0xDC00 || l > 0xDFFF) {
                    return err(p);
                }
                j += 6;
                put_utf8(r, 0x10000u + static_cast<uint32_t>(h - 0xD800) * 0x400u + static_cast<uint32_t>(l - 0xDC00));
                continue;
            }
            put_utf8(r, static_cast<uint32_t>(h));
        }
    }
};

// ---------------------------------------------------------------- grammar (explicit stack)
struct Ref
{
    enum V
    {
        reject,
        accept,
        unspecified // a NUL after the root: the text is taken to end there
    } v = reject;

    MV val;
    size_t err_pos = 0;
};

inline Ref parse(std::string_view text, bool jsonc = false)
{
    Lexer lx { text, jsonc };
    Ref out;
    struct Frame
    {
        MV v;
        std::string key;
    };

    std::vector<Frame> st;
    enum S
    {
        want_value,         // a value
        want_value_or_close, // first element, or ]
        want_key,
        want_key_or_close,
        want_colon,
        want_comma_or_close,
        done
    } s = want_value;

    Tok t = lx.next();
    if (t.t != '[' && t.t != '{') {
        out.err_pos = t.pos;
        return out;
    }
    for (;; t = lx.next()) {
        bool have = false; // a complete value is in v
        MV v;
        switch (s) {
        case done:
            if (t.t == 'E') {
                out.v = Ref::accept;
                return out;
            }
            if (t.t == 'Z') {
                out.v = Ref::unspecified;
                return out;
            }
            out.err_pos = t.pos;
            return out;
        case want_value:
        case want_value_or_close:
            switch (t.t) {
            case '[':
                st.push_back({ MV::arr(), "" });
                s = want_value_or_close;
                continue;
            case '{':
                st.push_back({ MV::obj(), "" });
                s = want_key_or_close;
                continue;
            case 'S':
                v = MV::str(std::move(t.s));
                break;
            case 'N':
                v = MV::num(std::move(t.s));
                break;
            case 't':
            case 'f':
                v = MV::boolean(t.t == 't');
                break;
            case 'n':
                break;
            case ']':
                if (s == want_value_or_close) {
                    v = std::move(st.back().v);
                    st.pop_back();
                    break;
                }
                [[fallthrough]];
            default:
                out.err_pos = t.pos;
                return out;
            }
            have = true;
            break;
        case want_key:
        case want_key_or_close:
            if (t.t == 'S') {
                st.back().key = std::move(t.s);
                s = want_colon;
                continue;
            }
            if (t.t == '}' && s == want_key_or_close) {
                v = std::move(st.back().v);
                st.pop_back();
                have = true;
                break;
            }
            out.err_pos = t.pos;
            return out;
        case want_colon:
            if (t.t != ':') {
                out.err_pos = t.pos;
                return out;
            }
            s = want_value;
            continue;
        case want_comma_or_close: {
            const bool arr = st.back().v.k == MV::Arr;
            if (t.t == ',') {
                // jsonc: a closing bracket may follow directly
                s = arr ? (jsonc ? want_value_or_close : want_value) : (jsonc ? want_key_or_close : want_key);
                continue;
            }
            if (t.t != (arr ? ']' : '}')) {
                out.err_pos = t.pos;
                return out;
            }
            v = std::move(st.back().v);
            st.pop_back();
            have = true;
            break;
        }
        }
        if (have) {
            if (st.empty()) {
                out.val = std::move(v);
                s = done;
            }
            else {
                Frame& f = st.back();
                if (f.v.k == MV::Arr) {
                    f.v.a.push_back(std::move(v));
                }
                else if (!f.v.o.emplace(f.key, std::move(v)).second) {
                    out.err_pos = t.pos;
                    return out;
                }
                s = want_comma_or_close;
            }
        }
    }
}

// ---------------------------------------------------------------- serialiser
inline void escape(std::string& r, std::string_view s)
{
    char buf[8];
    r += '"';
    for (unsigned char c : s) {
        switch (c) {
        case '"':
            r += "\\\"";
            break;
        case '\\':
            r += "\\\\";
            break;
        case 8:
            r += "\\b";
            break;
        case 9:
            r += "\\t";
            break;
        case 10:
            r += "\\n";
            break;
        case 12:
            r += "\\f";
            break;
        case 13:
            r += "\\r";
            break;
        default:
            if (c < 0x20) {
                std::snprintf(buf, sizeof buf, "\\u%04x", c);
                r += buf;
            }
            else {
                r += static_cast<char>(c);
            }
        }
    }
    r += '"';
}

inline void dump(std::string& r, const MV& v)
{
    bool first = true;
    switch (v.k) {
    case MV::Null:
        r += "null";
        break;
    case MV::Bool:
        r += v.b ? "true" : "false";
        break;
    case MV::Num:
        r += v.s;
        break;
    case MV::Str:
        escape(r, v.s);
        break;
    case MV::Arr:
        r += '[';
        for (auto& x : v.a) {
            if (!first) {
                r += ',';
            }
            first = false;
            dump(r, x);
        }
        r += ']';
        break;
    case MV::Obj:
        r += '{';
        for (auto& [k, x] : v.o) {
            if (!first) {
                r += ',';
            }
            first = false;
            escape(r, k);
            r += ':';
            dump(r, x);
        }
        r += '}';
        break;
    }
}

inline std::string dump(const MV& v)
{
    std::string r;
    dump(r, v);
    return r;
}

inline void pretty(std::string& r, const MV& v, size_t indent, size_t depth)
{
    if (v.k != MV::Arr && v.k != MV::Obj) {
        dump(r, v);
        return;
    }
    const bool arr = v.k == MV::Arr;
    size_t left = arr ? v.a.size() : v.o.size();
    r += arr ? "[\n" : "{\n";
    auto it = v.o.begin();
    for (size_t i = 0; left; ++i) {
        --left;
        r.append(indent * (depth + 1), ' ');
        if (arr) {
            pretty(r, v.a[i], indent, depth + 1);
        }
        else {
            escape(r, it->first);
            r += ": ";
            pretty(r, it->second, indent, depth + 1);
            ++it;
        }
        r += left ? ",\n" : "\n";
    }
    r.append(indent * depth, ' ');
    r += arr ? ']' : '}';
}

inline std::string pretty(const MV& v, size_t indent)
{
    std::string r;
    pretty(r, v, indent, 0);
    return r;
}

// white space outside strings removed
inline std::string strip_ws(std::string_view x)
{
    std::string r;
    bool in = false;
    for (size_t i = 0; i < x.size(); ++i) {
        const char c = x[i];
        if (in) {
            r += c;
            if (c == '\\' && i + 1 < x.size()) {
                r += x[++i];
            }
            else if (c == '"') {
                in = false;
            }
        }
        else if (c != ' ' && c != '\t' && c != '\n' && c != '\r') {
            r += c;
            in = c == '"';
        }
    }
    return r;
}

// ---------------------------------------------------------------- generators
inline std::string gen_plain(Rng& g, size_t n)
{
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;[]{}/*-+_!#$%&'()<=>?@^`|~\x7f";
    std::string r(n, 'a');
    for (auto& c : r) {
        c = cs[g.below(sizeof cs - 1)];
    }
    return r;
}

inline uint32_t gen_cp(Rng& g)
{
    static const uint32_t edge[] = { 0,      1,      0x1f,   0x20,   0x22,   0x2f,   0x5c,    0x7e,    0x7f,    0x80,    0x81,
                                     0x7fe,  0x7ff,  0x800,  0x801,  0xfff,  0x1000, 0xd7ff,  0xe000,  0xfeff,  0xfffd,  0xfffe,
                                     0xffff, 0x10000, 0x10001, 0x1f4a9, 0x1ffff, 0xfffff, 0x100000, 0x10fffe, 0x10ffff };
    for (;;) {
        uint32_t c;
        switch (g.below(5)) {
        case 0:
            c = edge[g.below(std::size(edge))];
            break;
        case 1:
            c = static_cast<uint32_t>(g.below(0x80));
            break;
        case 2:
            c = static_cast<uint32_t>(g.below(0x800));
            break;
        case 3:
            c = static_cast<uint32_t>(g.below(0x10000));
            break;
        default:
            c = static_cast<uint32_t>(g.below(0x110000));
        }
        if (c < 0xD800 || c > 0xDFFF) {
            return c;
        }
    }
}

// any bytes at all; lengths favour the multiples of packed-load sizes and powers of two
inline size_t gen_len(Rng& g, size_t max = 300)
{
    static const size_t base[] = { 0, 4, 8, 12, 15, 16, 22, 24, 30, 32, 40, 48, 64, 96, 100, 127, 128, 255, 256, 257 };
    if (g.chance(1, 3)) {
        const size_t b = base[g.below(std::size(base))] + g.below(4);
        return std::min(max, b);
    }
    return g.skewed(max);
}

inline std::string gen_string(Rng& g, size_t max = 300)
{
    std::string r;
    switch (g.below(10)) {
    case 0:
        return r;
    case 1: // arbitrary bytes
        r.resize(gen_len(g, max));
        for (auto& c : r) {
            c = static_cast<char>(g.next());
        }
        return r;
    case 2: // code points
        for (size_t n = gen_len(g, max / 4 + 1); n; --n) {
            put_utf8(r, gen_cp(g));
        }
        return r;
    case 3: { // plain with a few special bytes at random places
        r = gen_plain(g, gen_len(g, max));
        static const char sp[] = { '"', '\\', '\n', '\r', '\t', '\b', '\f', '\0', '\x01', '\x1f', '\x7f', '\x80', '\xff', '/', '\x0b', '\x1e', '\x10' };
        for (size_t k = g.below(4); k && !r.empty(); --k) {
            const size_t at = g.below(r.size());
            r[at] = sp[g.below(std::size(sp))];
        }
        return r;
    }
    case 4: // mostly control bytes and quotes
        r.resize(gen_len(g, max / 4 + 1));
        for (auto& c : r) {
            c = static_cast<char>(g.chance(1, 3) ? (g.chance(1, 2) ? '"' : '\\') : g.below(0x24));
        }
        return r;
    case 5: // words that look like JSON
    {
        static const char* const w[] = { "null", "true", "false", "0", "-1", "1e5", "[", "]", "{", "}", "\"", "//", "/*", "*/", ",", ":", "\\u0041", "\\", "NaN" };
        for (size_t n = g.below(6); n; --n) {
            r += w[g.below(std::size(w))];
        }
        return r;
    }
    case 6: // one kind of byte
        r.resize(gen_len(g, max));
        std::fill(r.begin(), r.end(), static_cast<char>(g.next()));
        return r;
    default:
        return gen_plain(g, gen_len(g, std::min<size_t>(max, 24)));
    }
}

inline std::string gen_digits(Rng& g, size_t n, bool lead_nonzero)
{
    std::string r;
    for (size_t i = 0; i < n; ++i) {
        r += static_cast<char>('0' + (i == 0 && lead_nonzero ? 1 + g.below(9) : g.below(10)));
    }
    return r;
}

// the text of a valid JSON number
inline std::string gen_number(Rng& g)
{
    static const char* const fixed[] = { "0",
                                         "-0",
                                         "1",
                                         "-1",
                                         "0.0",
                                         "-0.0",
                                         "1e0",
                                         "1E+0",
                                         "0e-0",
                                         "127",
                                         "128",
                                         "-128",
                                         "-129",
                                         "255",
                                         "256",
                                         "32767",
                                         "32768",
                                         "65535",
                                         "65536",
                                         "2147483647",
                                         "2147483648",
                                         "-2147483648",
                                         "-2147483649",
                                         "4294967295",
                                         "4294967296",
                                         "9223372036854775807",
                                         "9223372036854775808",
                                         "-9223372036854775808",
                                         "-9223372036854775809",
                                         "18446744073709551615",
                                         "18446744073709551616",
                                         "1.7976931348623157e308",
                                         "1.7976931348623159e308",
                                         "4.9406564584124654e-324",
                                         "2.2250738585072014e-308",
                                         "3.4028234663852886e38",
                                         "3.4028236e38",
                                         "1e400",
                                         "-1e400",
                                         "1e-400",
                                         "1e4932",
                                         "1e5000",
                                         "0.1",
                                         "3.141592653589793",
                                         "9007199254740993",
                                         "1.0",
                                         "100000000000000000000000000000000000000000" };
    if (g.chance(1, 4)) {
        return fixed[g.below(std::size(fixed))];
    }
    std::string r = g.chance(1, 3) ? "-" : "";
    if (g.chance(1, 6)) {
        r += "0";
    }
    else {
        r += gen_digits(g, 1 + (g.chance(1, 20) ? g.below(400) : g.skewed(22)), true);
    }
    if (g.chance(1, 3)) {
        r += "." + gen_digits(g, 1 + (g.chance(1, 20) ? g.below(400) : g.skewed(20)), false);
    }
    if (g.chance(1, 4)) {
        r += g.chance(1, 2) ? "e" : "E";
        r += g.chance(1, 3) ? "+" : g.chance(1, 2) ? "-" : "";
        r += gen_digits(g, 1 + g.skewed(4), false);
    }
    return r;
}

inline MV gen_scalar(Rng& g, size_t maxstr = 300)
{
    switch (g.below(6)) {
    case 0:
        return MV::null();
    case 1:
        return MV::boolean(g.chance(1, 2));
    case 2:
    case 3:
        return MV::num(gen_number(g));
    default:
        return MV::str(gen_string(g, maxstr));
    }
}

// budget: about how many nodes
inline MV gen_value(Rng& g, size_t& budget, unsigned depth, bool container, size_t maxstr = 300)
{
    if (budget) {
        --budget;
    }
    if (!container && (depth == 0 || budget == 0 || g.chance(1, 2))) {
        return gen_scalar(g, maxstr);
    }
    MV v = g.chance(1, 2) ? MV::arr() : MV::obj();
    size_t n = depth == 0 || budget == 0 ? 0 : g.skewed(std::min<size_t>(budget, 24));
    if (g.chance(1, 10)) {
        n = 0;
    }
    const bool similar = g.chance(1, 4);
    const std::string prefix = similar ? gen_plain(g, g.below(20)) : "";
    for (size_t i = 0; i < n; ++i) {
        if (v.k == MV::Arr) {
            v.a.push_back(gen_value(g, budget, depth - 1, false, maxstr));
        }
        else {
            std::string key = similar ? prefix + gen_string(g, 3) : gen_string(g, std::min<size_t>(maxstr, 40));
            v.o[key] = gen_value(g, budget, depth - 1, false, maxstr);
        }
    }
    return v;
}

inline MV gen_doc(Rng& g, size_t max_nodes = 60, unsigned depth = 6, size_t maxstr = 300)
{
    size_t budget = 1 + g.skewed(max_nodes);
    return gen_value(g, budget, depth, true, maxstr);
}

// ---------------------------------------------------------------- rendering a value as one of its texts
struct Style
{
    unsigned ws = 1;       // 0: none, 1: little, 2: much
    unsigned esc = 1;      // 0: only where needed, 1: now and then, 2: nearly everything
    bool comments = false; // JSONC
    bool trailing = false; // JSONC
};

inline void put_u(std::string& r, Rng& g, uint32_t u)
{
    static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
    r += "\\u";
    for (int sh = 12; sh >= 0; sh -= 4) {
        const unsigned d = (u >> sh) & 15; // (g++ 13 with -fsanitize=shift breaks (c ? lo : up)[u >> sh])
        const bool low = g.chance(1, 2);
        r += low ? lo[d] : up[d];
    }
}

inline void render_string(std::string& r, Rng& g, const std::string& s, const Style& st)
{
    static const char from[] = "\"\\/\b\f\n\r\t";
    static const char to[] = "\"\\/bfnrt";
    r += '"';
    for (size_t i = 0; i < s.size(); ++i) {
        const auto c = static_cast<unsigned char>(s[i]);
        const bool must = c < 0x20 || c == '"' || c == '\\';
        const bool want = must || (st.esc == 2 ? g.chance(9, 10) : st.esc == 1 && g.chance(1, 12));
        if (!want) {
            r += static_cast<char>(c);
            continue;
        }
        const char* q = c ? std::strchr(from, c) : nullptr;
        if (q && g.chance(2, 3)) {
            r += '\\';
            r += to[q - from];
            continue;
        }
        if (c < 0x80) {
            put_u(r, g, c);
            continue;
        }
        // a well-formed code point may be escaped, anything else stays raw
        const int n = c >= 0xC2 && c <= 0xDF ? 2 : (c & 0xF0) == 0xE0 ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
        uint32_t cp = n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
        bool ok = n && i + static_cast<size_t>(n) <= s.size();
        for (int j = 1; ok && j < n; ++j) {
            const auto d = static_cast<unsigned char>(s[i + static_cast<size_t>(j)]);
            ok = (d & 0xC0) == 0x80;
            cp = cp * 64 + (d & 63);
        }
        ok = ok && !(cp >= 0xD800 && cp <= 0xDFFF) && cp <= 0x10FFFF && !(n == 3 && cp < 0x800) && !(n == 4 && cp < 0x10000);
        if (!ok) {
            r += static_cast<char>(c);
            continue;
        }
        if (cp < 0x10000) {
            put_u(r, g, cp);
        }
        else {
            put_u(r, g, 0xD800 + ((cp - 0x10000) >> 10));
            put_u(r, g, 0xDC00 + ((cp - 0x10000) & 0x3FF));
        }
        i += static_cast<size_t>(n) - 1;
    }
    r += '"';
}

inline void render_ws(std::string& r, Rng& g, const Style& st)
{
    if (st.ws && g.chance(1, st.ws == 2 ? 1 : 4)) {
        for (size_t n = g.chance(1, 50) ? g.below(600) : g.skewed(st.ws == 2 ? 20 : 3); n; --n) {
            r += " \t\n\r"[g.below(4)];
        }
    }
    if (st.comments && g.chance(1, 4)) {
        for (size_t k = 1 + g.below(2); k; --k) {
            static const char* const bits[] = { "*",  "/",  "//", "/*", "\"", "x", " ", "\r", "\t", "**", ",", "]", "}", "[1]", "'", "\xc3\xa9", "\\", "word", "*\\/" };
            std::string body;
            for (size_t n = g.chance(1, 40) ? g.below(300) : g.skewed(8); n; --n) {
                body += bits[g.below(std::size(bits))];
            }
            if (g.chance(1, 2)) {
                r += "//" + body + "\n";
            }
            else {
                for (size_t p; (p = body.find("*/")) != body.npos;) {
                    body[p + 1] = '-';
                }
                r += "/*" + body;
                r += g.chance(1, 4) ? "\n" : "";
                r += g.chance(1, 4) ? "*" : "";
                r += "*/";
            }
            if (g.chance(1, 3)) {
                r += " ";
            }
        }
    }
}

inline void render(std::string& r, Rng& g, const MV& v, const Style& st)
{
    switch (v.k) {
    case MV::Null:
        r += "null";
        return;
    case MV::Bool:
        r += v.b ? "true" : "false";
        return;
    case MV::Num:
        r += v.s;
        return;
    case MV::Str:
        render_string(r, g, v.s, st);
        return;
    case MV::Arr: {
        r += '[';
        render_ws(r, g, st);
        for (size_t i = 0; i < v.a.size(); ++i) {
            if (i) {
                r += ',';
                render_ws(r, g, st);
            }
            render(r, g, v.a[i], st);
            render_ws(r, g, st);
        }
        if (st.trailing && !v.a.empty() && g.chance(1, 2)) {
            r += ',';
            render_ws(r, g, st);
        }
        r += ']';
        return;
    }
    case MV::Obj: {
        r += '{';
        render_ws(r, g, st);
        std::vector<const std::pair<const std::string, MV>*> ps;
        for (auto& p : v.o) {
            ps.push_back(&p);
        }
        for (size_t i = ps.size(); i > 1; --i) { // any order
            std::swap(ps[i - 1], ps[g.below(i)]);
        }
        for (size_t i = 0; i < ps.size(); ++i) {
            if (i) {
                r += ',';
                render_ws(r, g, st);
            }
            render_string(r, g, ps[i]->first, st);
            render_ws(r, g, st);
            r += ':';
            render_ws(r, g, st);
            render(r, g, ps[i]->second, st);
            render_ws(r, g, st);
        }
        if (st.trailing && !ps.empty() && g.chance(1, 2)) {
            r += ',';
            render_ws(r, g, st);
        }
        r += '}';
        return;
    }
    }
}

inline std::string render_doc(Rng& g, const MV& v, const Style& st)
{
    std::string r;
    render_ws(r, g, st);
    render(r, g, v, st);
    render_ws(r, g, st);
    if (st.comments && g.chance(1, 10)) {
        r += "// the end";
    }
    return r;
}

inline Style gen_style(Rng& g, bool jsonc)
{
    Style s;
    s.ws = static_cast<unsigned>(g.below(3));
    s.esc = static_cast<unsigned>(g.below(3));
    if (jsonc) {
        s.comments = g.chance(2, 3);
        s.trailing = g.chance(1, 2);
    }
    return s;
}

// every text that differs from t in one place between from and to: something more, less, else, twice or swapped
template <typename F>
void edits(const std::string& t, size_t from, size_t to, const std::vector<std::string>& frags, F&& f)
{
    for (size_t i = from; i <= to && i <= t.size(); ++i) {
        const std::string head = t.substr(0, i), tail = t.substr(i);
        f(head);
        for (const std::string& x : frags) {
            f(head + x + tail);
            if (i < to) {
                f(head + x + tail.substr(1));
            }
        }
        if (i < to) {
            f(head + tail.substr(1));
            f(head + tail[0] + tail);
            if (i + 1 < to) {
                f(head + tail[1] + tail[0] + tail.substr(2));
                f(head + tail.substr(2));
            }
        }
    }
}

inline const std::vector<std::string>& edit_frags(bool jsonc)
{
    static const std::vector<std::string> strict = { ",", ":", "\"", "[", "]", "{", "}", "0", "1", "-", "+", ".", "e", "E", " ", "\n", "\\", "/", "a", "t", "u", "null", "\"\"", "[]", "\x01", std::string(1, '\0') };
    static const std::vector<std::string> more = [] {
        std::vector<std::string> r = strict;
        for (const char* x : { "//", "/*", "*/", "*", "/**/", "//\n", ",,", ",/**/", "//x\r", "/*/" }) {
            r.push_back(x);
        }
        return r;
    }();
    return jsonc ? more : strict;
}

inline const std::vector<std::string>& number_frags()
{
    static const std::vector<std::string> r = { "0", "1", "9", "-", "+", ".", "e", "E", "a", " ", ",", "/", "x", "\x80" };
    return r;
}

// ---------------------------------------------------------------- mutations
inline std::string mutate(Rng& g, std::string t, bool jsonc)
{
    static const char* const frag[] = { ",",     ":",      "[",     "]",    "{",     "}",     "\"",    "\\",     "/",      "//",     "/*",     "*/",    "/**/", "null",
                                        "nul",   "true",   "tru",   "false", "fals", "0",     "-",     "+",      ".",      "e",      "E",      "1",     "01",   "1.",
                                        ".5",    "1e",     "1e+",   "-0",   "\\u",   "\\u12", "\\ud83d", "\\udca9", "\\u0000", "\\uD800\\uDC00", "\\x", "\\'",  "\n",   "\t",
                                        "\r",    " ",      "\x0b",  "\x0c", "\x7f",  "\x80",  "\xff",  "\xef\xbb\xbf", "'",  "NaN",    "Infinity", "True", "\x1f", "\x01",
                                        "[]",    "{}",     "\"\"",  ",,",   "\"a\":1", "\"a\":", ":1", "[[",     "]]",     "\xc2\xa0" };
    const size_t ops = 1 + g.skewed(3);
    for (size_t k = 0; k < ops; ++k) {
        const size_t n = t.size();
        const size_t p = g.below(n + 1);
        switch (g.below(12)) {
        case 0:
            if (n) {
                t.erase(std::min(p, n - 1), 1);
            }
            break;
        case 1:
            t.insert(p, frag[g.below(std::size(frag))]);
            break;
        case 2:
            if (n) {
                t[std::min(p, n - 1)] = static_cast<char>(g.next());
            }
            break;
        case 3:
            t.resize(p); // truncated
            break;
        case 4:
            t += frag[g.below(std::size(frag))];
            break;
        case 5: { // a slice again
            const size_t l = g.skewed(std::min<size_t>(n - std::min(p, n), 40));
            const std::string part = t.substr(std::min(p, n), l);
            t.insert(g.below(n + 1), part);
            break;
        }
        case 6: { // a slice gone
            const size_t l = g.skewed(std::min<size_t>(n - std::min(p, n), 40));
            t.erase(std::min(p, n), l);
            break;
        }
        case 7: { // one structural byte for another
            static const char st[] = "[]{}:,\"/*0-e.";
            for (size_t tries = 0; tries < 20 && n; ++tries) {
                const size_t q = g.below(n);
                if (std::memchr(st, t[q], sizeof st - 1)) {
                    t[q] = st[g.below(sizeof st - 1)];
                    break;
                }
            }
            break;
        }
        case 8:
            if (n) {
                t[std::min(p, n - 1)] = static_cast<char>(t[std::min(p, n - 1)] ^ (1 << g.below(8)));
            }
            break;
        case 9: // in front of a bracket or after one: where commas and comments matter
        {
            size_t q = t.find_first_of("]},:", p);
            if (q != t.npos) {
                static const char* const f2[] = { ",", ",,", "/*c*/", "//\n", "/", " ,", ", ", ",/*c*/", "/*c*/,", ":", "1", "null", "\"\"" };
                q += g.below(2);
                t.insert(q, f2[g.below(std::size(f2))]);
            }
            break;
        }
        case 10:
            if (n >= 2) {
                const size_t q = g.below(n - 1);
                std::swap(t[q], t[q + 1]);
            }
            break;
        default:
            t.insert(p, 1, static_cast<char>(g.chance(1, 2) ? g.below(0x21) : g.next()));
        }
    }
    (void)jsonc;
    return t;
}
} // namespace ref
