// vf.hpp - the frame every harness runs in: deterministic cases, a log of violations, coverage
// counters, and a shared-memory record of the case in progress, so that a crash or a hang can be
// attributed to (and replayed from) its section and case number.
#pragma once

#include <algorithm>
#include <array>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf
{
using u64 = uint64_t;
using u32 = uint32_t;

// ---------------------------------------------------------------- random numbers
inline u64 mix(u64 z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline u64 hash_bytes(std::string_view s, u64 h = 0x243F6A8885A308D3ull)
{
    size_t i = 0;
    for (; i + 8 <= s.size(); i += 8) {
        u64 w;
        std::memcpy(&w, s.data() + i, 8);
        h = mix(h ^ w);
    }
    u64 w = s.size();
    for (; i < s.size(); ++i) {
        w = (w << 8) | static_cast<unsigned char>(s[i]);
    }
    return mix(h ^ w);
}

struct Rng
{
    u64 s;
#ifdef VF_FUZZ
    // decisions come from the bytes that the fuzzer made, and from the generator once they are used up
    const unsigned char *p = nullptr, *e = nullptr;
#endif

    explicit Rng(u64 seed = 1)
        : s(mix(seed))
    {
    }

    u64 next()
    {
#ifdef VF_FUZZ
        if (p != e) {
            return bytes(~0ull);
        }
#endif
        s += 0x9E3779B97F4A7C15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

#ifdef VF_FUZZ
    // as many bytes as a number up to max needs
    u64 bytes(u64 max)
    {
        u64 r = 0;
        for (; max && p != e; max >>= 8) {
            r = r << 8 | *p++;
        }
        return r;
    }

    // [0, n)
    u64 below(u64 n) { return n ? (p != e ? bytes(n - 1) : next()) % n : 0; }

    // what is left, as it is
    std::string rest()
    {
        std::string r(reinterpret_cast<const char*>(p), static_cast<size_t>(e - p));
        p = e;
        return r;
    }
#else
    // [0, n)
    u64 below(u64 n) { return n ? next() % n : 0; }

    // any bytes
    std::string rest()
    {
        std::string r(skewed(200), ' ');
        for (auto& c : r) {
            c = static_cast<char>(chance(1, 2) ? "[]{}:,\"\\/*01.-eutfn \n"[below(22)] : static_cast<int>(below(256)));
        }
        return r;
    }
#endif

    // [a, b]
    int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<u64>(b - a) + 1)); }

    bool chance(unsigned num, unsigned den) { return below(den) < num; }

    template <typename C>
    auto& pick(const C& c)
    {
        return c[below(std::size(c))];
    }

    // small numbers are likely, big ones possible
    size_t skewed(size_t max)
    {
        if (max == 0) {
            return 0;
        }
        unsigned bits = 0;
        while ((static_cast<size_t>(1) << bits) <= max) {
            ++bits;
        }
        const size_t lim = (static_cast<size_t>(1) << below(bits + 1));
        return std::min<size_t>(below(lim + 1), max);
    }
};

// ---------------------------------------------------------------- the case in progress
struct Current
{
    u64 seq;
    u64 index;
    u32 len;  // bytes of data used
    u32 full; // length of the whole input
    char section[64];
    char note[512];
    char data[1 << 16];
    u32 fuzz_len; // the bytes of the fuzzer that made the case
    unsigned char fuzz[4096];
};

struct Ctx
{
    u64 seed = 1;
    unsigned shard = 0, nshards = 1;
    bool thorough = false;
    std::string out, state, hashes, only_section;
    long long only_case = -1;
    double scale = 1.0;

    FILE* log = nullptr;
    Current* cur = nullptr;
    std::map<std::string, u64> counters;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    u64 cases = 0;
    u64 violations = 0;
    unsigned hang_ticks = 60;
    std::string fuzz;     // number of runs and of seconds, or the bytes of one case in hexadecimal digits
    bool one = false;     // only that case
};

inline Ctx& ctx()
{
    static Ctx* c = new Ctx;
    return *c;
}

inline std::string json_escape(std::string_view s)
{
    std::string r;
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7f) {
            std::snprintf(buf, sizeof buf, "\\u%04x", c);
            r += buf;
        }
        else {
            r += static_cast<char>(c);
        }
    }
    return r;
}

inline std::string printable(std::string_view s, size_t max = 300)
{
    std::string r;
    char buf[8];
    for (unsigned char c : s.substr(0, max)) {
        if (c < 0x20 || c >= 0x7f || c == '\\') {
            std::snprintf(buf, sizeof buf, "\\x%02x", c);
            r += buf;
        }
        else {
            r += static_cast<char>(c);
        }
    }
    if (s.size() > max) {
        r += "...(" + std::to_string(s.size()) + " bytes)";
    }
    return r;
}

// the input of the case in progress (or of its current step), for the report of a crash
inline void input(std::string_view s)
{
    Current* c = ctx().cur;
    ++c->seq;
    c->full = static_cast<u32>(s.size());
    c->len = static_cast<u32>(std::min(s.size(), sizeof c->data));
    std::memcpy(c->data, s.data(), c->len);
}

inline void note(std::string_view s)
{
    Current* c = ctx().cur;
    ++c->seq;
    const size_t n = std::min(s.size(), sizeof c->note - 1);
    std::memcpy(c->note, s.data(), n);
    c->note[n] = 0;
}

inline void alive() // a step of a long case was finished: for the detection of hangs
{
    ++ctx().cur->seq;
}

inline void count(const char* name, u64 n = 1)
{
    ctx().counters[name] += n;
}

// counter without a map lookup per call
#define VF_COUNT(name)                                              \
    do {                                                            \
        static ::vf::u64& c_ = ::vf::ctx().counters[name];          \
        ++c_;                                                       \
    } while (0)
#define VF_COUNT_N(name, n)                                         \
    do {                                                            \
        static ::vf::u64& c_ = ::vf::ctx().counters[name];          \
        c_ += (n);                                                  \
    } while (0)

inline bool distinct(u64 h)
{
    auto& d = ctx().distinct;
    return d.size() < 2000000 && d.insert(h).second;
}

inline void sample(const std::string& s)
{
    auto& v = ctx().samples;
    if (v.size() < 6) {
        v.push_back(s.substr(0, 400));
    }
}

inline std::string hex(const unsigned char* p, size_t n)
{
    std::string r;
    for (size_t i = 0; i < n; ++i) {
        r += "0123456789abcdef"[p[i] >> 4];
        r += "0123456789abcdef"[p[i] & 15];
    }
    return r;
}

// key: what kind of violation this is, stable from run to run; what: details
inline void violation(const std::string& key, const std::string& what, std::string_view in = {})
{
    Ctx& c = ctx();
    ++c.violations;
    if (c.violations > 40) {
        return;
    }
    std::fprintf(
        c.log,
        "{\"t\":\"viol\",\"key\":\"%s\",\"what\":\"%s\",\"section\":\"%s\",\"case\":%" PRIu64 ",\"input\":\"%s\",\"input_len\":%zu,\"fuzz\":\"%s\"}\n",
        json_escape(key).c_str(),
        json_escape(std::string_view(what).substr(0, 3000)).c_str(),
        c.cur->section,
        c.cur->index,
        json_escape(in.substr(0, 4096)).c_str(),
        in.size(),
        hex(c.cur->fuzz, c.cur->fuzz_len).c_str());
    std::fflush(c.log);
}

#define VF_CHECK(cond, key, what, in)                               \
    do {                                                            \
        if (!(cond)) {                                              \
            ::vf::violation((key), (what), (in));                   \
        }                                                           \
    } while (0)

// ---------------------------------------------------------------- sections
struct Section
{
    const char* name;
    u64 quick, thorough;
    std::function<void(Rng&, u64)> fn;
};

inline std::vector<Section>& sections()
{
    static auto* v = new std::vector<Section>;
    return *v;
}

struct Reg
{
    Reg(const char* n, u64 q, u64 t, std::function<void(Rng&, u64)> f) { sections().push_back({ n, q, t, std::move(f) }); }
};

inline bool wanted(const Section& s)
{
    const std::string& l = ctx().only_section; // names with commas between them
    return l.empty() || ("," + l + ",").find(std::string(",") + s.name + ",") != std::string::npos;
}

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
// quick, thorough: number of cases; the body sees `rng` and `idx`
#define SECTION(name, quick, thorough)                                                                   \
    static void name([[maybe_unused]] ::vf::Rng& rng, [[maybe_unused]] ::vf::u64 idx);                   \
    static ::vf::Reg VF_CAT(reg_, name)(#name, (quick), (thorough), name);                               \
    static void name([[maybe_unused]] ::vf::Rng& rng, [[maybe_unused]] ::vf::u64 idx)

inline u64 g_last_seq = ~0ull;
inline unsigned g_same = 0;

inline void on_tick(int)
{
    Current* c = ctx().cur;
    if (c->seq == g_last_seq) {
        if (++g_same >= ctx().hang_ticks) {
            static const char msg[] = "VF-HANG: no progress\n";
            (void)!write(2, msg, sizeof msg - 1);
            _exit(97);
        }
    }
    else {
        g_last_seq = c->seq;
        g_same = 0;
    }
}

inline std::string what_of_current_exception()
{
    try {
        throw;
    }
    catch (const std::exception& e) {
        return e.what();
    }
    catch (...) {
        return "(not a std::exception)";
    }
}

// the record at the end
inline void finish()
{
    Ctx& c = ctx();
    if (!c.hashes.empty()) {
        if (FILE* f = std::fopen(c.hashes.c_str(), "wb")) {
            for (u64 h : c.distinct) {
                std::fwrite(&h, 8, 1, f);
            }
            std::fclose(f);
        }
    }
    std::string counters;
    for (auto& [k, v] : c.counters) {
        counters += (counters.empty() ? "\"" : ",\"") + json_escape(k) + "\":" + std::to_string(v);
    }
    std::string samples;
    for (auto& s : c.samples) {
        samples += (samples.empty() ? "\"" : ",\"") + json_escape(s) + "\"";
    }
    std::fprintf(
        c.log,
        "{\"t\":\"done\",\"cases\":%" PRIu64 ",\"violations\":%" PRIu64 ",\"distinct\":%zu,\"counters\":{%s},\"samples\":[%s]}\n",
        c.cases,
        c.violations,
        c.distinct.size(),
        counters.c_str(),
        samples.c_str());
    std::fflush(c.log);
    if (c.log != stdout) {
        std::fclose(c.log);
    }
}

#ifdef VF_FUZZ
} // namespace vf

extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const unsigned char*, size_t));

namespace vf
{
inline std::vector<Section*>& fuzzed()
{
    static auto* v = new std::vector<Section*>;
    return *v;
}

// what to begin with: random decisions, and texts for sections that take the bytes as a text
inline std::string (*seed_text)(Rng&) = nullptr;

inline std::string write_seeds()
{
    Ctx& c = ctx();
    const char* base = std::getenv("VF_SCRATCH");
    std::string dir = std::string(base ? base : "/tmp") + "/seeds-XXXXXX";
    if (!mkdtemp(dir.data())) {
        std::exit(98);
    }
    for (u64 i = 0; i < 400; ++i) {
        Rng g(mix(c.seed * 1000 + c.shard) ^ mix(i));
        std::string t(3, static_cast<char>(i));
        t[1] = static_cast<char>(g.below(256));
        if (seed_text && std::string(fuzzed()[i % 256 % fuzzed().size()]->name) == "fuzzed") {
            t += seed_text(g).substr(0, 1500);
        }
        else {
            for (u64 n = g.skewed(600) + 4; n; --n) {
                t += static_cast<char>(g.below(256));
            }
        }
        if (FILE* f = std::fopen((dir + "/" + std::to_string(i)).c_str(), "wb")) {
            std::fwrite(t.data(), 1, t.size(), f);
            std::fclose(f);
        }
    }
    return dir;
}

// the first bytes say which section and case it is, the others make the decisions of its generator
inline int fuzz_one(const unsigned char* p, size_t n)
{
    Ctx& c = ctx();
    if (n < 4 || n > sizeof c.cur->fuzz) {
        return 0;
    }
    std::memcpy(c.cur->fuzz, p, n);
    c.cur->fuzz_len = static_cast<u32>(n);
    const Section& s = *fuzzed()[p[0] % fuzzed().size()];
    std::snprintf(c.cur->section, sizeof c.cur->section, "%s", s.name);
    c.cur->index = (p[1] | static_cast<u64>(p[2]) << 8) % s.quick;
    c.cur->len = c.cur->full = 0;
    c.cur->note[0] = 0;
    ++c.cur->seq;
    Rng rng(hash_bytes(std::string_view(reinterpret_cast<const char*>(p), n)));
    rng.p = p + 3;
    rng.e = p + n;
    try {
        s.fn(rng, c.cur->index);
    }
    catch (...) {
        violation(
            std::string("exception:") + s.name,
            "unexpected exception left a case: " + what_of_current_exception() + " note=" + c.cur->note,
            std::string_view(c.cur->data, c.cur->len));
    }
    ++c.cases;
    ++c.counters[std::string("fuzzed.") + s.name];
    if (c.violations) {
        std::exit(1);
    }
    return 0;
}
#endif

inline int run_main(int argc, char** argv)
{
    Ctx& c = ctx();
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") {
            c.seed = std::strtoull(val().c_str(), nullptr, 10);
        }
        else if (a == "--shard") {
            c.shard = static_cast<unsigned>(std::atoi(val().c_str()));
        }
        else if (a == "--nshards") {
            c.nshards = static_cast<unsigned>(std::atoi(val().c_str()));
        }
        else if (a == "--tier") {
            c.thorough = val() == "thorough";
        }
        else if (a == "--out") {
            c.out = val();
        }
        else if (a == "--state") {
            c.state = val();
        }
        else if (a == "--hashes") {
            c.hashes = val();
        }
        else if (a == "--section") {
            c.only_section = val();
        }
        else if (a == "--case") {
            c.only_case = std::atoll(val().c_str());
        }
        else if (a == "--scale") {
            c.scale = std::atof(val().c_str());
        }
        else if (a == "--fuzz") {
            c.fuzz = val();
        }
        else if (a == "--fuzz-case") {
            c.fuzz = val();
            c.one = true;
        }
        else if (a == "--list") {
            for (auto& s : sections()) {
                std::printf("%s %" PRIu64 " %" PRIu64 "\n", s.name, s.quick, s.thorough);
            }
            return 0;
        }
        else {
            std::fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 98;
        }
    }
    c.log = c.out.empty() ? stdout : std::fopen(c.out.c_str(), "w");
    if (!c.log) {
        return 98;
    }
    if (c.state.empty()) {
        c.cur = static_cast<Current*>(std::calloc(1, sizeof(Current)));
    }
    else {
        const int fd = open(c.state.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Current)) != 0) {
            return 98;
        }
        void* p = mmap(nullptr, sizeof(Current), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) {
            return 98;
        }
        c.cur = static_cast<Current*>(p);
    }
    struct sigaction sa {};
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv {};
    tv.it_interval.tv_sec = tv.it_value.tv_sec = 1;
    setitimer(ITIMER_PROF, &tv, nullptr);

#ifdef VF_FUZZ
    for (auto& s : sections()) {
        if (wanted(s)) {
            fuzzed().push_back(&s);
        }
    }
    if (c.one) {
        std::string b;
        for (size_t i = 0; i + 1 < c.fuzz.size(); i += 2) {
            b += static_cast<char>(std::stoi(c.fuzz.substr(i, 2), nullptr, 16));
        }
        fuzz_one(reinterpret_cast<const unsigned char*>(b.data()), b.size());
    }
    else {
        std::atexit(finish); // the driver does not return
        const std::string seed = "-seed=" + std::to_string((mix(c.seed * 1000 + c.shard) & 0x7ffffffe) + 1);
        const std::string runs = "-runs=" + c.fuzz.substr(0, c.fuzz.find(',')), secs = "-max_total_time=" + c.fuzz.substr(c.fuzz.find(',') + 1);
        const std::string seeds = write_seeds();
        const char* d = std::getenv("VF_DICT");
        const std::string dict = d ? std::string("-dict=") + d : "-verbosity=1";
        const char* args[] = { "fuzz", dict.c_str(), seed.c_str(), runs.c_str(), secs.c_str(), "-max_len=2000", "-len_control=30", "-use_value_profile=1", /* comparisons count as coverage, too */ "-timeout=0", "-rss_limit_mb=0",
                               "-malloc_limit_mb=0", "-detect_leaks=0", "-handle_abrt=0", "-handle_bus=0", "-handle_fpe=0", "-handle_ill=0", "-handle_int=0", "-handle_segv=0",
                               "-handle_term=0", "-handle_xfsz=0", "-handle_usr1=0", "-handle_usr2=0", "-exact_artifact_path=/dev/null", "-print_new=0", "-reload=0", seeds.c_str(), nullptr };
        int n = static_cast<int>(std::size(args)) - 1;
        char** v = const_cast<char**>(args);
        LLVMFuzzerRunDriver(&n, &v, fuzz_one);
    }
#else
    for (auto& s : sections()) {
        if (!wanted(s)) {
            continue;
        }
        u64 n = c.thorough ? s.thorough : s.quick;
        if (c.scale > 1.0 && n > 1) {
            n = static_cast<u64>(static_cast<double>(n) * c.scale);
        }
        // a smaller scale takes a fixed sample from all over the section
        const u64 keep = c.scale < 1.0 ? static_cast<u64>(c.scale * 65536) : 65536;
        u64 done = 0;
        const u64 sect_hash = hash_bytes(s.name);
        for (u64 i = 0; i < n; ++i) {
            if (c.only_case >= 0 ? static_cast<u64>(c.only_case) != i : i % c.nshards != c.shard) {
                continue;
            }
            if (c.only_case < 0 && i && (mix(i ^ sect_hash) & 65535) >= keep) {
                continue;
            }
            std::snprintf(c.cur->section, sizeof c.cur->section, "%s", s.name);
            c.cur->index = i;
            c.cur->len = c.cur->full = 0;
            c.cur->note[0] = 0;
            ++c.cur->seq;
            Rng rng(mix(c.seed) ^ mix(sect_hash + i));
            try {
                s.fn(rng, i);
            }
            catch (...) {
                violation(
                    std::string("exception:") + s.name,
                    "unexpected exception left a case: " + what_of_current_exception() + " note=" + c.cur->note,
                    std::string_view(c.cur->data, c.cur->len));
            }
            ++c.cases;
            ++done;
        }
        c.counters[std::string("cases.") + s.name] += done;
    }
#endif
    finish();
    return c.violations ? 1 : 0;
}
} // namespace vf

#ifndef VF_NO_MAIN
int main(int argc, char** argv)
{
    return vf::run_main(argc, argv);
}
#endif
