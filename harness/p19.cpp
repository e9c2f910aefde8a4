// P19: files, streams and literals parse like the same bytes in memory; sources that cannot be read give nothing.
#include "conv.hpp"

#include <dirent.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <streambuf>
#include <sys/resource.h>
#include <sys/stat.h>

using namespace conv;
using ref::Ref;
using vf::u64;

namespace
{
namespace fs = std::filesystem;

const std::string bom = "\xEF\xBB\xBF";

const std::string& scratch()
{
    static const std::string d = [] {
        const char* e = std::getenv("VF_SCRATCH");
        std::string p = std::string(e ? e : "/tmp") + "/p19-" + std::to_string(getpid());
        fs::create_directories(p);
        return p;
    }();
    return d;
}

// ------------------------------------------------ a stream buffer that can be slow, short, or fail
struct Buf : std::streambuf
{
    std::string data;
    size_t chunk = 0;                // bytes per refill, 0: all
    size_t available = std::string::npos; // what can really be read
    bool seekable = true;
    long long fail_seek = -1;        // this seek fails
    long long throw_read = -1;       // this refill throws
    bool lie = false;                // the size is unknown: the greatest offset
    size_t pos = 0;                  // of the end of the get area
    u64 seeks = 0, refills = 0;

    explicit Buf(std::string d)
        : data(std::move(d))
    {
    }

    size_t end() const { return std::min(available, data.size()); }

    int_type underflow() override
    {
        if (static_cast<long long>(refills++) == throw_read) {
            throw std::runtime_error("the source is broken");
        }
        if (pos >= end()) {
            return traits_type::eof();
        }
        const size_t n = std::min(chunk ? chunk : data.size(), end() - pos);
        setg(data.data() + pos, data.data() + pos, data.data() + pos + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }

    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        if (static_cast<long long>(seeks++) == fail_seek || !seekable) {
            return pos_type(off_type(-1));
        }
        if (lie && dir == std::ios_base::end) {
            return pos_type(std::numeric_limits<std::streamoff>::max());
        }
        const off_type here = static_cast<off_type>(pos) - (egptr() - gptr());
        const off_type to = (dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? here : static_cast<off_type>(data.size())) + off;
        if (to < 0 || to > static_cast<off_type>(data.size())) {
            return pos_type(off_type(-1));
        }
        if (!(dir == std::ios_base::cur && off == 0)) {
            pos = static_cast<size_t>(to);
            setg(nullptr, nullptr, nullptr);
        }
        return pos_type(to);
    }

    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

std::optional<json::value> from_stream(std::istream& s, bool b, bool c)
{
    return json::parse(s, b, c);
}

// the outcome for these bytes in memory
struct Want
{
    std::optional<json::value> v;
    u64 digest;
};

Want want(const std::string& bytes, bool check_bom, bool comments)
{
    std::string t = bytes;
    if (check_bom && t.compare(0, 3, bom) == 0) {
        t.erase(0, 3);
    }
    Want w;
    w.v = comments ? json::parsec(t) : json::parse(t);
    w.digest = conv::digest(w.v);
    // that the memory parser is right is decided by P02, P03 and P07; this guards the comparison
    const Ref r = ref::parse(t, comments);
    if (r.v != Ref::unspecified && (r.v == Ref::accept) != w.v.has_value()) {
        vf::violation("memory", "the text in memory is not judged as the recogniser does: " + vf::printable(t), t);
    }
    return w;
}

void compare(const char* route, const std::string& bytes, bool b, bool c, const std::optional<json::value>& got, const Want& w)
{
    VF_COUNT("comparisons");
    if (w.v) {
        VF_COUNT("accepted");
    }
    else {
        VF_COUNT("refused");
    }
    if (got.has_value() != w.v.has_value() || (got && (conv::digest(got) != w.digest || *got != *w.v))) {
        vf::violation(std::string("differs:") + route,
                      std::string(route) + (b ? ", with check of the mark" : "") + (c ? ", with comments" : "") + ": "
                          + (got ? w.v ? "another value" : "a value although the text is invalid in memory" : "nothing although the text is valid in memory") + ", of "
                          + std::to_string(bytes.size()) + " bytes " + vf::printable(bytes),
                      bytes);
    }
}

template <typename F>
void attempt(const char* route, const std::string& bytes, bool b, bool c, const Want& w, F&& f)
{
    vf::note(route);
    try {
        compare(route, bytes, b, c, f(), w);
    }
    catch (...) {
        vf::violation(std::string("throws:") + route, std::string(route) + " throws " + vf::what_of_current_exception() + " for " + vf::printable(bytes), bytes);
    }
}

const std::string& write_file(const std::string& bytes)
{
    static const std::string path = scratch() + "/f.json";
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
    f.close();
    if (!f || fs::file_size(path) != bytes.size()) {
        std::fprintf(stderr, "cannot write %s\n", path.c_str());
        std::_Exit(98);
    }
    return path;
}

// all routes
void judge(vf::Rng& g, const std::string& bytes, bool files = true)
{
    vf::input(bytes);
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(bytes));
    bool wrote = false;
    for (const bool b : { false, true }) {
        for (const bool c : { false, true }) {
            if (bytes.size() > 100000 && g.chance(3, 4)) {
                continue;
            }
            const Want w = want(bytes, b, c);
            attempt("istringstream", bytes, b, c, w, [&] {
                std::istringstream s(bytes);
                return from_stream(s, b, c);
            });
            if (!b && !c) {
                attempt("istream, default flags", bytes, b, c, w, [&] {
                    std::istringstream s(bytes);
                    std::istream& r = s;
                    return json::parse(r);
                });
            }
            attempt("stringstream, anywhere, repeatedly", bytes, b, c, w, [&] {
                std::stringstream s(bytes);
                s.seekg(static_cast<std::streamoff>(g.below(bytes.size() + 1)));
                std::optional<json::value> r = from_stream(s, b, c);
                for (int i = 0; i < 3; ++i) {
                    VF_COUNT("repeated parses of one stream");
                    if (g.chance(1, 2)) { // up to the end, with eofbit set
                        std::string rest;
                        while (s.get() != EOF) {
                        }
                        s.clear(std::ios::eofbit);
                    }
                    std::optional<json::value> again = from_stream(s, b, c);
                    if (again.has_value() != r.has_value() || (r && *again != *r)) {
                        vf::violation("repeated", "parsing the stream again gives another outcome: " + vf::printable(bytes), bytes);
                    }
                    r = std::move(again);
                }
                return r;
            });
            attempt("buffered stream", bytes, b, c, w, [&] {
                Buf u(bytes);
                u.chunk = g.below(4) ? 1 + g.skewed(5000) : 0;
                std::istream s(&u);
                return from_stream(s, b, c);
            });
            if (!files) {
                continue;
            }
            VF_COUNT("files opened");
            const std::string& path = write_file(bytes);
            wrote = true;
            attempt("open(std::string)", bytes, b, c, w, [&] { return json::open(path, b, c); });
            switch (g.below(6)) {
            case 0:
                attempt("open(const char*)", bytes, b, c, w, [&] { return json::open(path.c_str(), b, c); });
                break;
            case 1:
                attempt("open(path)", bytes, b, c, w, [&] { return json::open(fs::path(path), b, c); });
                break;
            case 2: {
                std::error_code ec;
                fs::remove(scratch() + "/link", ec);
                fs::create_symlink(path, scratch() + "/link", ec);
                attempt("open(symbolic link)", bytes, b, c, w, [&] { return json::open(scratch() + "/link", b, c); });
                break;
            }
            case 3:
                attempt("ifstream in binary mode, from somewhere", bytes, b, c, w, [&] {
                    std::ifstream s(path, std::ios::binary);
                    std::vector<char> skip(g.below(bytes.size() + 1) + 1);
                    s.read(skip.data(), static_cast<std::streamsize>(skip.size() - 1));
                    return from_stream(s, b, c);
                });
                break;
            case 4:
                attempt("ifstream, repeatedly", bytes, b, c, w, [&] {
                    std::ifstream s(path);
                    (void)from_stream(s, b, c);
                    (void)from_stream(s, !b, c);
                    return from_stream(s, b, c);
                });
                break;
            case 5:
                attempt("fstream for both ways with a small buffer", bytes, b, c, w, [&] {
                    std::fstream s;
                    char small[16];
                    s.rdbuf()->pubsetbuf(small, sizeof small);
                    s.open(path, std::ios::in | std::ios::out);
                    return from_stream(s, b, c);
                });
                break;
            }
            if (!b && !c && g.chance(1, 2)) {
                attempt("open, default flags", bytes, b, c, w, [&] { return json::open(path); });
            }
            // files change: the next content is shorter or longer
        }
    }
    if (wrote) {
        std::ifstream f(scratch() + "/f.json", std::ios::binary);
        const std::string now((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (now != bytes) {
            vf::violation("file-changed", "the file changed when it was parsed", bytes);
        }
    }
    // literals
    {
        const std::string s = bytes;
        Exact e(s, 0);
        const auto m = json::parse(e.view());
        VF_COUNT("literals");
        using namespace json::literals;
        try {
            const json::value v = json::literals::operator""_json(e.view().data(), s.size()), v2 = json::literals::operator""_jvalue(e.view().data(), s.size());
            const json::array a = json::literals::operator""_jarray(e.view().data(), s.size());
            const json::object o = json::literals::operator""_jobject(e.view().data(), s.size());
            if (v != (m ? *m : json::value()) || v2 != v) {
                vf::violation("literal:_json", "_json or _jvalue gives " + v.dumps() + " for " + vf::printable(s), s);
            }
            if (!v.valid() || !v2.valid()) {
                vf::violation("literal:invalid", "_json gives an invalid value for " + vf::printable(s), s);
            }
            if (m && m->is_array() ? json::value(a) != *m : !a.empty()) {
                vf::violation("literal:_jarray", "_jarray gives " + a.dumps() + " for " + vf::printable(s), s);
            }
            if (m && m->is_object() ? json::value(o) != *m : !o.empty()) {
                vf::violation("literal:_jobject", "_jobject gives " + o.dumps() + " for " + vf::printable(s), s);
            }
            if (m) {
                VF_COUNT("valid literals");
            }
        }
        catch (...) {
            vf::violation("literal:throws", "a literal throws " + vf::what_of_current_exception() + " for " + vf::printable(s), s);
        }
    }
}

// a valid document of exactly n bytes (n >= 2)
std::string sized(vf::Rng& g, size_t n)
{
    switch (g.below(5)) {
    case 0:
        return "[" + std::string(n - 2, ' ') + "]";
    case 1:
        return n >= 4 ? "[\"" + std::string(n - 4, 'x') + "\"]" : "[]" + std::string(n - 2, '\n');
    case 2:
        if (n >= 8) {
            return "{\"k\":\"" + ref::gen_plain(g, n - 8) + "\"}";
        }
        return std::string(n - 2, ' ') + "{}";
    case 3:
        return n >= 3 ? "[" + std::string(n - 2, '7') + "]" : "[]";
    default: {
        if (n < 3) {
            return "{}";
        }
        std::string r = "[";
        while (r.size() + 12 < n) {
            r += "{\"a\":\"b\"},";
        }
        r += "0";
        r.append(n - r.size() - 1, g.chance(1, 2) ? ' ' : '\r');
        return r + "]";
    }
    }
}
}

SECTION(documents, 3000, 60000)
{
    const bool jsonc = rng.chance(1, 3);
    std::string t = ref::render_doc(rng, ref::gen_doc(rng, 30, 5, 100), ref::gen_style(rng, jsonc));
    for (size_t i = rng.below(3); i; --i) {
        if (rng.chance(1, 2)) {
            t = ref::mutate(rng, t, jsonc);
        }
    }
    switch (rng.below(6)) {
    case 0:
        t = bom + t;
        break;
    case 1:
        t = bom.substr(0, 1 + rng.below(3)) + t;
        break;
    case 2: // bytes in strings
        t = "[\"" + std::string(1, static_cast<char>(0x80 + rng.below(128))) + "\xFF\xFE\x7F" + bom + "\"]";
        break;
    default:
        break;
    }
    if (idx < 3) {
        vf::sample(vf::printable(t, 200));
    }
    judge(rng, t, rng.chance(1, 2));
}

// sizes around the borders of buffers; valid, cut, with something behind
SECTION(sizes, 200, 2000)
{
    static const size_t around[] = { 2, 3, 4, 8, 16, 64, 128, 256, 512, 1024, 2048, 4096, 8191, 8192, 16384, 32768, 65536, 131072, 1u << 20 };
    const size_t which = idx % std::size(around);
    if (which > 16 && idx % 3) { // fewer of the big ones
        return;
    }
    size_t n = around[which];
    n = std::max<size_t>(2, n + rng.below(9) - std::min<size_t>(n, 4));
    std::string t = sized(rng, n);
    if (t.size() != n) {
        vf::violation("harness", "a document has another size");
        return;
    }
    VF_COUNT("sizes");
    judge(rng, t);
    judge(rng, t.substr(0, n - 1)); // the last byte decides
    judge(rng, t + std::string(1, "x]},\0\x1a\xff"[rng.below(7)]));
    if (n < 100000) {
        judge(rng, bom + t);
        judge(rng, t.substr(0, rng.below(n)));
    }
}

// streams that are longer than buffers and 32 bit counters, without holding them anywhere: [, blanks or letters, ]
namespace
{
struct Long : std::streambuf
{
    const uint64_t size;
    const std::string first, last;
    std::string block;
    uint64_t pos = 0; // what has been given out

    Long(uint64_t n, std::string f, char fill, std::string l)
        : size(n)
        , first(std::move(f))
        , last(std::move(l))
        , block(1 << 20, fill)
    {
    }

    int_type underflow() override
    {
        if (gptr() < egptr()) {
            return traits_type::to_int_type(*gptr());
        }
        char* b = nullptr;
        uint64_t n = 0;
        if (pos < first.size()) {
            b = const_cast<char*>(first.data()) + pos;
            n = first.size() - pos;
        }
        else if (pos < size - last.size()) {
            b = block.data();
            n = std::min<uint64_t>(block.size(), size - last.size() - pos);
        }
        else if (pos < size) {
            b = const_cast<char*>(last.data()) + (pos - (size - last.size()));
            n = size - pos;
        }
        else {
            return traits_type::eof();
        }
        setg(b, b, b + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }

    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        const off_type here = static_cast<off_type>(pos) - (egptr() - gptr());
        const off_type to = off + (dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? here : static_cast<off_type>(size));
        if (to < 0 || to > static_cast<off_type>(size)) {
            return pos_type(off_type(-1));
        }
        pos = static_cast<uint64_t>(to);
        setg(nullptr, nullptr, nullptr);
        return pos_type(to);
    }

    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
}

SECTION(long_streams, 24, 60)
{
    static const uint64_t sizes[] = { (1 << 20) + 1, 1500000, (1 << 21) + 3, 3 << 20, (1 << 22) + 1, 5000000, 10000000, (1 << 23) + 1, (1 << 24) - 1, (1 << 24) + 1, 20000000, 1 << 25 };
    const uint64_t n = sizes[idx % std::size(sizes)] + (idx / std::size(sizes)) * 4111;
    const bool letters = rng.chance(1, 2), good = rng.chance(2, 3), b = rng.chance(1, 2), c = rng.chance(1, 2);
    VF_COUNT("evaluations");
    VF_COUNT("long streams");
    vf::distinct(n);
    Long u(n, letters ? "[\"" : "[", letters ? 'x' : ' ', std::string(letters ? "\"" : "7") + (good ? "]" : "x"));
    vf::input(u.first + "..." + u.last);
    const std::string what = std::to_string(n) + " bytes like " + u.first + "..." + u.last;
    const auto check = [&](const char* route, const std::optional<json::value>& v) {
        VF_COUNT("comparisons");
        if (v.has_value() != good) {
            vf::violation(std::string("long:") + route, std::string(route) + (v ? " gives a value for " : " refuses ") + what, what);
        }
        else if (v && (v->as_array().size() != 1 || (letters ? v->at(0).as_string() != std::string(n - 4, 'x') : v->at(0).as_integer() != 7))) {
            vf::violation(std::string("long:") + route, std::string(route) + " gives another value for " + what, what);
        }
    };
    std::istream s(&u);
    check("a stream", from_stream(s, b, c));
    s.clear();
    std::string text((std::istreambuf_iterator<char>(&u)), std::istreambuf_iterator<char>());
    if (text.size() != n) {
        s.seekg(0);
        text.assign((std::istreambuf_iterator<char>(&u)), std::istreambuf_iterator<char>());
    }
    if (text.size() != n) {
        vf::violation("harness", "another number of bytes");
        return;
    }
    check("a file", json::open(write_file(text), b, c));
    check("memory", c ? json::parsec(text) : json::parse(text));
    std::istringstream is(std::move(text));
    check("a string stream", from_stream(is, b, c));
}

// beyond 31 and 32 bits
#ifdef VF_GIANT
SECTION(giant_streams, 2, 4)
{
    const uint64_t n = (1ull << (idx % 2 ? 32 : 31)) + 100;
    const bool good = idx < 2;
    VF_COUNT("evaluations");
    VF_COUNT("giant streams");
    Long u(n, "[", ' ', good ? "7]" : "7}");
    vf::input("[ ... " + u.last);
    std::istream s(&u);
    const auto v = from_stream(s, idx % 2, idx % 3 == 1);
    VF_COUNT("comparisons");
    if (v.has_value() != good || (v && (v->as_array().size() != 1 || v->at(0).as_integer() != 7))) {
        vf::violation("giant", "a stream of " + std::to_string(n) + " blanks in [7] gives " + (v ? "a value" : "nothing"));
    }
}
#endif

// every text around a byte order mark
SECTION(marks, 24, 24)
{
    static const char* const docs[] = { "[1]", "{}", "// c\n[]", "" };
    const std::string d = docs[idx % 4];
    std::vector<std::string> all;
    for (const std::string& pre : { std::string(), bom, bom + bom, bom.substr(0, 1), bom.substr(0, 2), bom.substr(1), std::string("\xEF\xBB\xBE"), std::string("\xEF\xBC\xBF"), std::string("\xFE\xFF"),
                                    std::string("\xFF\xFE"), " " + bom, bom + " ", std::string("\xBB\xBF\xEF"), std::string("\0", 1) + bom, bom + std::string("\0", 1), std::string("\xEF\x3B\x3F"),
                                    std::string("\x6F\xBB\xBF") }) {
        for (const std::string& post : { std::string(), bom, std::string("\n"), bom.substr(0, 1), std::string("\0", 1), std::string("\0x", 2), std::string("\x1a") }) {
            all.push_back(pre + d + post);
        }
    }
    for (size_t i = idx / 4; i < all.size(); i += 6) {
        VF_COUNT("marks");
        judge(rng, all[i]);
    }
}

// every byte as, before, in and after a document
SECTION(bytes, 256, 256)
{
    const std::string b(1, static_cast<char>(idx));
    VF_COUNT("bytes placed");
    for (const std::string& t : { b, b + "[1]", "[1]" + b, "[\"" + b + "\"]", "[\"" + b, "[" + b + "1]", "{\"k" + b + "\":1}", "[1, 2" + b }) {
        judge(rng, t, rng.chance(1, 3));
    }
}

// sources that cannot be read
SECTION(missing, 60, 600)
{
    const std::string dir = scratch() + "/d" + std::to_string(idx % 7);
    fs::create_directories(dir);
    std::ofstream(dir + "/file") << "[1]";
    std::vector<std::pair<const char*, std::string>> paths = {
        { "missing", dir + "/not there" },
        { "directory", dir },
        { "directory with a slash", dir + "/" },
        { "below a file", dir + "/file/x" },
        { "file with a slash", dir + "/file/" },
        { "empty path", "" },
        { "in a missing directory", dir + "/no/no" },
        { "too long a name", dir + "/" + std::string(300, 'n') },
        { "too long a path", std::string(9000, '/') + "x" },
        { "root", "/" },
        { "dot", "." },
    };
    std::error_code ec;
    fs::create_symlink(dir + "/not there", dir + "/dangling", ec);
    fs::create_symlink(dir + "/loop", dir + "/loop", ec);
    paths.emplace_back("dangling link", dir + "/dangling");
    paths.emplace_back("loop of links", dir + "/loop");
    fs::create_directory_symlink(dir, dir + "/todir", ec);
    paths.emplace_back("link to a directory", dir + "/todir");
    auto nothing = [&](const char* what, auto&& f) {
        vf::note(what);
        VF_COUNT("sources that cannot be read");
        VF_COUNT("evaluations");
        try {
            if (const std::optional<json::value> v = f(); v) {
                vf::violation(std::string("value-from:") + what, std::string(what) + " gives " + v->dumps());
            }
        }
        catch (...) {
            vf::violation(std::string("throws-from:") + what, std::string(what) + " throws " + vf::what_of_current_exception());
        }
    };
    auto fds = [] {
        size_t n = 0;
        if (DIR* d = opendir("/proc/self/fd")) {
            while (readdir(d)) {
                ++n;
            }
            closedir(d);
        }
        return n;
    };
    const size_t before = fds();
    for (const auto& [what, p] : paths) {
        const std::string path = p;
        for (const bool b : { false, true }) {
            for (const bool c : { false, true }) {
                nothing(what, [&] { return json::open(path, b, c); });
            }
        }
        nothing(what, [&] { return json::open(path.c_str()); });
        nothing(what, [&] { return json::open(fs::path(path)); });
        nothing(what, [&] {
            std::ifstream s(path);
            return from_stream(s, rng.chance(1, 2), rng.chance(1, 2));
        });
    }
    // a file without permission, for somebody else
    {
        const std::string f = dir + "/secret";
        std::ofstream(f) << "[1]";
        chmod(f.c_str(), 0);
        if (geteuid() == 0 ? seteuid(65534) == 0 : true) {
            nothing("file without permission", [&] { return json::open(f, rng.chance(1, 2)); });
            if (getuid() == 0 && seteuid(0) != 0) {
                std::_Exit(98);
            }
            VF_COUNT("files without permission");
        }
        chmod(f.c_str(), 0600);
    }
    // no file descriptor left
    {
        rlimit old {}, none {};
        getrlimit(RLIMIT_NOFILE, &old);
        none = old;
        none.rlim_cur = 3;
        std::vector<int> held; // those below the limit
        for (int fd; (fd = dup(2)) >= 0 && fd < 3;) {
            held.push_back(fd);
        }
        setrlimit(RLIMIT_NOFILE, &none);
        nothing("no file descriptor left", [&] { return json::open(dir + "/file"); });
        setrlimit(RLIMIT_NOFILE, &old);
        const auto v = json::open(dir + "/file");
        if (!v || v->dumps() != "[1]") {
            vf::violation("after-limit", "a readable file is not opened");
        }
        // the descriptor that ended the loop
        for (int fd : held) {
            close(fd);
        }
    }
    // streams that are closed, empty, failed, or fail
    nothing("closed ifstream", [&] {
        std::ifstream s;
        return from_stream(s, rng.chance(1, 2), rng.chance(1, 2));
    });
    nothing("ifstream closed after use", [&] {
        std::ifstream s(dir + "/file");
        s.close();
        return from_stream(s, rng.chance(1, 2), rng.chance(1, 2));
    });
    nothing("no buffer", [&] {
        std::istream s(nullptr);
        return from_stream(s, rng.chance(1, 2), rng.chance(1, 2));
    });
    nothing("empty stream", [&] {
        std::istringstream s;
        return from_stream(s, rng.chance(1, 2), rng.chance(1, 2));
    });
    nothing("file for writing only", [&] {
        std::fstream s(dir + "/out", std::ios::out | std::ios::trunc);
        s << "[1]";
        return from_stream(s, false, false);
    });
    nothing("output string stream", [&] {
        std::stringstream s(std::ios::out);
        s << "[1]";
        return from_stream(s, false, false);
    });
    nothing("broken from the start", [&] {
        Buf u("[1, 2, 3]");
        u.throw_read = 0;
        std::istream s(&u);
        return from_stream(s, rng.chance(1, 2), rng.chance(1, 2));
    });
    nothing("/dev/null", [&] { return json::open("/dev/null", rng.chance(1, 2), rng.chance(1, 2)); });
    if (size_t after = fds(); after > before + 1) {
        vf::violation("descriptors", std::to_string(before) + " descriptors before, " + std::to_string(after) + " after");
    }
}

// streams that are short, break, or cannot seek: no exception, and either nothing or the outcome of what there is
SECTION(faults, 3000, 60000)
{
    const ref::MV m = ref::gen_doc(rng, 10, 3, 40);
    std::string bytes = ref::render_doc(rng, m, ref::gen_style(rng, false));
    if (rng.chance(1, 3)) {
        bytes = bom + bytes;
    }
    vf::input(bytes);
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(bytes));
    const bool b = rng.chance(1, 2), c = rng.chance(1, 2);
    Buf u(bytes);
    u.chunk = 1 + rng.skewed(bytes.size());
    bool may_refuse = true, must_refuse = false;
    std::string there = bytes;
    const unsigned kind = static_cast<unsigned>(rng.below(7));
    static const char* const names[] = { "short", "cannot seek", "a seek fails", "breaks", "says it is endless", "failed before", "bad before" };
    vf::note(names[kind]);
    vf::count(names[kind]);
    std::istream s(&u);
    switch (kind) {
    case 0: // it became shorter after its size was asked for: what there is counts
        u.available = rng.below(bytes.size() + 1);
        there.resize(u.available);
        may_refuse = false;
        break;
    case 1:
        u.seekable = false;
        break;
    case 2:
        u.fail_seek = static_cast<long long>(rng.below(3));
        break;
    case 3: {
        u.chunk = 1 + rng.below(std::max<size_t>(bytes.size() / 2, 1));
        u.throw_read = static_cast<long long>(rng.below((bytes.size() + u.chunk - 1) / u.chunk));
        must_refuse = true; // its bytes cannot be had
        break;
    }
    case 4:
        u.lie = true;
        break;
    case 5:
        s.setstate(std::ios::failbit);
        break;
    default:
        s.setstate(std::ios::badbit);
        break;
    }
    const Want w = want(there, b, c);
    std::optional<json::value> got;
    try {
        got = from_stream(s, b, c);
    }
    catch (...) {
        vf::violation(std::string("fault-throws:") + names[kind], std::string("a stream that ") + names[kind] + " makes it throw " + vf::what_of_current_exception(), bytes);
        return;
    }
    VF_COUNT("faulty streams");
    if (got) {
        if (must_refuse) {
            vf::violation(std::string("fault-accepted:") + names[kind], "a value although the source broke: " + got->dumps(), bytes);
        }
        else if (!w.v || *got != *w.v) {
            vf::violation(std::string("fault-other:") + names[kind], "another value than that of the bytes: " + got->dumps() + " from " + vf::printable(bytes), bytes);
        }
    }
    else if (!may_refuse && w.v) {
        vf::violation(std::string("fault-refused:") + names[kind], "nothing although the text is valid: " + vf::printable(there), bytes);
    }
}

// literals as they are written
SECTION(written, 1, 1)
{
    using namespace json::literals;
    VF_COUNT("written literals");
    const auto check = [](bool ok, const char* what) {
        if (!ok) {
            vf::violation(std::string("written:") + what, what);
        }
    };
    check("[1, 2]"_json == json::value(json::array { 1, 2 }), "_json of an array");
    check("{\"a\": [null]}"_jvalue == json::value(json::object { { "a", json::array { nullptr } } }), "_jvalue of an object");
    check("[1, 2]"_jarray == json::array { 1, 2 }, "_jarray");
    check("{\"a\": true}"_jobject == json::object { { "a", true } }, "_jobject");
    check("{\"a\": true}"_jarray == json::array(), "_jarray of an object");
    check("[1]"_jobject == json::object(), "_jobject of an array");
    check("[1"_json.is_null() && "[1"_jarray.empty() && "[1"_jobject.empty(), "invalid literals");
    check(""_json.is_null() && "5"_json.is_null() && "// c\n[1]"_json.is_null(), "no document");
    check(R"({"raw": "\\ \" \u0041"})"_json.at("raw").as_string() == "\\ \" A", "raw literal");
    check("[\"\0\"]"_json.is_null() && R"(["\u0000"])"_json.at(0).as_string() == std::string(1, '\0'), "NUL");
}
