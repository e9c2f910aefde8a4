// P20: parsing, dumping, copying, comparing and converting cost no more than in proportion to the size.
// Costs are counted, not timed: executed edges (compiled with -fsanitize-coverage=trace-pc-guard), bytes moved, set and
// compared by the memory functions, bytes and blocks allocated, bytes alive at once, steps of the iterators of the source.
#include "hist.hpp"
#include "num.hpp"

#include <deque>
#include <malloc.h>
#include <pthread.h>
#include <set>
#include <sstream>

using ref::MV;
using vf::Rng;
using vf::u64;

#ifdef __clang__
#define NOCOV __attribute__((no_sanitize("coverage")))
#else
#define NOCOV __attribute__((no_sanitize_coverage))
#endif

// before the sandbox runs out of time or memory
[[noreturn]] static NOCOV void give_up(const char* what, u64 n)
{
    std::fprintf(stderr, "far too much %s: %llu\n", what, static_cast<unsigned long long>(n));
    std::_Exit(95);
}

// ---------------------------------------------------------------- counters
namespace meter
{
inline bool on = false;
inline u64 edges = 0, moved = 0, allocated = 0, blocks = 0, live = 0, peak = 0, steps = 0;
}

extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t*)
{
    meter::edges += meter::on;
    if (meter::edges > 3000000000ull) {
        give_up("work", meter::edges);
    }
}

// of g++ -fsanitize-coverage=trace-pc
extern "C" NOCOV void __sanitizer_cov_trace_pc()
{
    __sanitizer_cov_trace_pc_guard(nullptr);
}

extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
    for (; a != b; ++a) {
        *a = 1;
    }
}

// these replace the ones of the C library for this program and for the C++ library
extern "C" NOCOV void* memcpy(void* d, const void* s, size_t n)
{
    meter::moved += meter::on ? n : 0;
    if (meter::moved > 200000000000ull) {
        give_up("moving", meter::moved);
    }
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}

extern "C" NOCOV void* memmove(void* d, const void* s, size_t n)
{
    meter::moved += meter::on ? n : 0;
    if (meter::moved > 200000000000ull) {
        give_up("moving", meter::moved);
    }
    void* r = d;
    auto to = static_cast<char*>(d);
    auto from = static_cast<const char*>(s);
    if (to <= from || to >= from + n) {
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    else if (n) {
        void* dl = to + n - 1;
        const void* sl = from + n - 1;
        asm volatile("std; rep movsb; cld" : "+D"(dl), "+S"(sl), "+c"(n) : : "memory");
    }
    return r;
}

extern "C" NOCOV void* memset(void* d, int c, size_t n)
{
    meter::moved += meter::on ? n : 0;
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}

extern "C" NOCOV int memcmp(const void* a, const void* b, size_t n)
{
    auto x = static_cast<const volatile unsigned char*>(a);
    auto y = static_cast<const volatile unsigned char*>(b);
    for (size_t i = 0; i < n; ++i) {
        if (x[i] != y[i]) {
            meter::moved += meter::on ? i + 1 : 0;
            return x[i] < y[i] ? -1 : 1;
        }
    }
    meter::moved += meter::on ? n : 0;
    return 0;
}

extern "C" void* counted_memchr(const void*, int, size_t) __asm__("memchr");

extern "C" NOCOV void* counted_memchr(const void* a, int c, size_t n)
{
    auto x = static_cast<const volatile unsigned char*>(a);
    for (size_t i = 0; i < n; ++i) {
        if (x[i] == static_cast<unsigned char>(c)) {
            meter::moved += meter::on ? i + 1 : 0;
            return const_cast<unsigned char*>(static_cast<const unsigned char*>(a)) + i;
        }
    }
    meter::moved += meter::on ? n : 0;
    return nullptr;
}

static NOCOV void* count_new(size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p) {
        std::abort();
    }
    if (meter::on) {
        meter::allocated += n;
        ++meter::blocks;
        meter::live += malloc_usable_size(p);
        if (static_cast<int64_t>(meter::live) > (3ll << 30)) {
            give_up("memory", meter::live);
        }
        if (static_cast<int64_t>(meter::live) > static_cast<int64_t>(meter::peak)) {
            meter::peak = meter::live;
        }
    }
    return p;
}

static NOCOV void count_delete(void* p)
{
    if (p && meter::on) {
        meter::live -= malloc_usable_size(p);
    }
    std::free(p);
}

NOCOV void* operator new(size_t n)
{
    return count_new(n);
}

NOCOV void* operator new[](size_t n)
{
    return count_new(n);
}

NOCOV void operator delete(void* p) noexcept
{
    count_delete(p);
}

NOCOV void operator delete[](void* p) noexcept
{
    count_delete(p);
}

NOCOV void operator delete(void* p, size_t) noexcept
{
    count_delete(p);
}

NOCOV void operator delete[](void* p, size_t) noexcept
{
    count_delete(p);
}

namespace
{
struct Cost
{
    u64 size = 0; // what it is to be measured by
    u64 edges = 0, moved = 0, allocated = 0, blocks = 0, peak = 0, steps = 0;
};

template <typename F>
Cost measure(u64 size, F&& f)
{
    using namespace meter;
    edges = moved = allocated = blocks = live = peak = steps = 0;
    on = true;
    f();
    on = false;
    VF_COUNT("measurements");
    VF_COUNT_N("edges counted", edges);
    VF_COUNT_N("bytes moved", moved);
    VF_COUNT_N("bytes allocated", allocated);
    VF_COUNT_N("iterator steps", steps);
    vf::alive();
    return { std::max<u64>(size, 1), edges, moved, allocated, blocks, peak, steps };
}

// costs at growing sizes: per unit of size they may grow fourfold at most
// (over a factor of 64 in size or more; a logarithm grows by less than 2, doubling buffers vary by 2)
void judge(const std::string& name, const std::vector<Cost>& c, std::string_view example, bool mixed = false, bool once = false)
{
    struct Kind
    {
        const char* name;
        u64 Cost::*f;
        double small; // per unit; less than four times this is never too much
        double dense; // and what the densest texts may take
    };
    static const Kind kinds[] = { { "executed edges", &Cost::edges, 8, 100 }, { "bytes moved", &Cost::moved, 4, 40 }, { "bytes allocated", &Cost::allocated, 16, 150 }, { "allocations", &Cost::blocks, 0.25, 1.5 },
                                  { "bytes alive at once", &Cost::peak, 16, 100 }, { "iterator steps", &Cost::steps, 4, 8 } };
    for (auto& k : kinds) {
        auto per = [&](const Cost& x) { return static_cast<double>(x.*(k.f)) / static_cast<double>(x.size); };
        VF_COUNT("cost comparisons");
        const double first = per(c.front()), last = per(c.back());
        if (last > 4 * std::max(first, mixed ? k.dense : k.small)) {
            std::string w = std::string(name) + ": " + k.name + " for sizes";
            for (auto& x : c) {
                w += " " + std::to_string(x.size) + ": " + std::to_string(x.*(k.f)) + ";";
            }
            std::string key = once ? "cost:" + name : "cost:" + name + ":" + k.name;
            std::replace(key.begin(), key.end(), ' ', '-');
            vf::violation(key, w + " like " + vf::printable(example, 200), example);
            if (once) {
                break;
            }
        }
    }
    if (std::getenv("VF_COSTS")) {
        std::string w = name;
        for (auto& x : c) {
            w += vf::printable(" | " + std::to_string(x.size));
            for (auto& k : kinds) {
                w += " " + std::to_string(static_cast<double>(x.*(k.f)) / static_cast<double>(x.size)).substr(0, 6);
            }
        }
        std::fprintf(stderr, "%s\n", w.c_str());
    }
}

// a source whose iterators are counted
struct Stepped
{
    std::string_view s;

    struct const_iterator
    {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = const char*;
        using reference = const char&;

        const char* p = nullptr;

        NOCOV static void step() { meter::steps += meter::on; }

        NOCOV reference operator*() const
        {
            step();
            return *p;
        }

        NOCOV reference operator[](difference_type k) const
        {
            step();
            return p[k];
        }

        NOCOV const_iterator& operator++()
        {
            step();
            ++p;
            return *this;
        }

        NOCOV const_iterator operator++(int)
        {
            step();
            return { p++ };
        }

        NOCOV const_iterator& operator--()
        {
            step();
            --p;
            return *this;
        }

        NOCOV const_iterator operator--(int)
        {
            step();
            return { p-- };
        }

        NOCOV const_iterator& operator+=(difference_type k)
        {
            step();
            p += k;
            return *this;
        }

        NOCOV const_iterator& operator-=(difference_type k)
        {
            step();
            p -= k;
            return *this;
        }

        NOCOV friend const_iterator operator+(const_iterator a, difference_type k) { return { a.p + k }; }

        NOCOV friend const_iterator operator+(difference_type k, const_iterator a) { return { a.p + k }; }

        NOCOV friend const_iterator operator-(const_iterator a, difference_type k) { return { a.p - k }; }

        NOCOV friend difference_type operator-(const const_iterator& a, const const_iterator& b) { return a.p - b.p; }

        NOCOV friend bool operator==(const const_iterator& a, const const_iterator& b) { return a.p == b.p; }

        NOCOV friend bool operator!=(const const_iterator& a, const const_iterator& b) { return a.p != b.p; }

        NOCOV friend bool operator<(const const_iterator& a, const const_iterator& b) { return a.p < b.p; }

        NOCOV friend bool operator>(const const_iterator& a, const const_iterator& b) { return a.p > b.p; }

        NOCOV friend bool operator<=(const const_iterator& a, const const_iterator& b) { return a.p <= b.p; }

        NOCOV friend bool operator>=(const const_iterator& a, const const_iterator& b) { return a.p >= b.p; }
    };

    using iterator = const_iterator;
    using value_type = char;

    const_iterator begin() const { return { s.data() }; }

    const_iterator end() const { return { s.data() + s.size() }; }

    const_iterator cbegin() const { return begin(); }

    const_iterator cend() const { return end(); }

    size_t size() const { return s.size(); }
};

// runs f with a stack on which everything fits
void with_stack(const std::function<void()>& f)
{
    static const size_t size = 3ull << 30;
    static void* stack = [] {
        mallopt(M_MMAP_THRESHOLD, 1 << 30);
        mallopt(M_TRIM_THRESHOLD, 1 << 30);
        mallopt(M_TOP_PAD, 64 << 20);
        void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
        if (p == MAP_FAILED) {
            std::fprintf(stderr, "no stack\n");
            std::_Exit(98);
        }
        return p;
    }();
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, stack, size);
    pthread_t t;
    if (pthread_create(
            &t,
            &a,
            [](void* x) -> void* {
                (*static_cast<const std::function<void()>*>(x))();
                return nullptr;
            },
            const_cast<std::function<void()>*>(&f))
        != 0) {
        std::fprintf(stderr, "no thread\n");
        std::_Exit(98);
    }
    pthread_join(t, nullptr);
    pthread_attr_destroy(&a);
}

using Gen = std::function<std::string(size_t)>; // a text of about so many bytes

enum Source
{
    View,
    String,
    Iterators,
    Stream,
    N_SOURCES
};

const char* source_name(int s)
{
    static const char* const n[] = { "string_view", "std::string", "iterators", "stream" };
    return n[s];
}

std::optional<json::value> parse_from(int source, const std::string& t, bool jsonc)
{
    switch (source) {
    case View: {
        const std::string_view v = t;
        return jsonc ? json::parsec(v) : json::parse(v);
    }
    case String:
        return jsonc ? json::parsec(t) : json::parse(t);
    case Iterators: {
        const Stepped v { t };
        return jsonc ? json::parsec(v) : json::parse(v);
    }
    default: {
        meter::on = false;
        std::istringstream in(t);
        meter::on = true;
        return json::parse(in, true, jsonc);
    }
    }
}

void parsing(const std::string& name, const Gen& gen, bool jsonc, int source, const std::vector<size_t>& sizes, bool mixed = false)
{
    std::vector<Cost> costs;
    std::string example;
    bool accepted = false;
    for (size_t n : sizes) {
        const std::string t = gen(n);
        if (example.empty()) {
            example = t;
        }
        vf::input(t);
        costs.push_back(measure(t.size(), [&] { accepted = parse_from(source, t, jsonc).has_value(); }));
    }
    if (accepted) {
        VF_COUNT("accepted families");
    }
    else {
        VF_COUNT("refused families");
    }
    VF_COUNT_N("bytes of text", costs.back().size);
    judge("parsing " + name + " from " + source_name(source), costs, example, mixed);
}

// how many spaces format() is going to put into it
u64 indents(const json::value& v, u64 depth = 1)
{
    u64 n = 0;
    if (v.is_array()) {
        for (const json::value& x : v.as_array()) {
            n += 4 * depth + indents(x, depth + 1);
        }
        return n + 4 * depth;
    }
    if (v.is_object()) {
        for (const auto& [k, x] : v.as_object()) {
            n += 4 * depth + indents(x, depth + 1);
        }
        return n + 4 * depth;
    }
    return 0;
}

// operations on whole values
void using_values(const std::string& name, const Gen& gen, bool jsonc, const std::vector<size_t>& sizes, bool mixed = false)
{
    struct Op
    {
        const char* name;
        u64 (*f)(json::value&, json::value&); // gives the size of what it made, if that counts
    };
    static const Op ops[] = {
        { "to_string()", [](json::value& v, json::value&) -> u64 { return v.to_string().size(); } },
        { "dumps()", [](json::value& v, json::value&) -> u64 { return v.dumps().size(); } },
        { "copying", [](json::value& v, json::value&) -> u64 { return json::value(v).is_null(); } },
        { "assigning", [](json::value& v, json::value&) -> u64 {
             json::value x = json::array { 1 };
             x = v;
             return 0;
         } },
        { "comparing equal ones", [](json::value& v, json::value& w) -> u64 { return v == w; } },
        { "comparing with !=", [](json::value& v, json::value& w) -> u64 { return v != w; } },
        { "moving", [](json::value& v, json::value&) -> u64 {
             json::value x = std::move(v);
             v = std::move(x);
             return 0;
         } },
        { "describing", [](json::value& v, json::value&) -> u64 { return v.value_info().size(); } },
        { "copying of the array or object", [](json::value& v, json::value&) -> u64 {
             if (v.is_array()) {
                 json::array a = v.as_array();
                 return json::array(std::move(a)).empty();
             }
             json::object o = v.as_object();
             return json::object(std::move(o)).empty();
         } },
        { "dumping the array or object", [](json::value& v, json::value&) -> u64 { return v.is_array() ? v.as_array().dumps().size() : v.as_object().dumps().size(); } },
        { "concatenating", [](json::value& v, json::value& w) -> u64 {
             if (v.is_array()) {
                 return (v + w.as_array()).is_null();
             }
             return (v | w.as_object()).is_null();
         } },
        { "converting to standard containers", [](json::value& v, json::value&) -> u64 {
             if (v.is_array()) {
                 return json::value(v.as<std::vector<json::value>>()).is_null();
             }
             return json::value(v.as<std::map<std::string, json::value>>()).is_null();
         } },
        { "moving through standard containers", [](json::value& v, json::value&) -> u64 {
             if (v.is_array()) {
                 auto x = std::move(v).as<std::vector<json::value>>();
                 v = json::value(std::move(x));
             }
             else {
                 auto x = std::move(v).as<std::map<std::string, json::value>>();
                 v = json::value(std::move(x));
             }
             return 0;
         } },
        { "checking", [](json::value& v, json::value&) -> u64 { return v.is<std::vector<json::value>>() + v.is<std::vector<int>>() + v.all<std::map<std::string, std::string>>(); } },
        { "wrapping in containers", [](json::value& v, json::value&) -> u64 {
             json::array a;
             a.emplace_back(std::move(v));
             json::object o;
             o.emplace("k", std::move(a));
             json::value x(std::move(o));
             v = std::move(x["k"][0]);
             return 0;
         } },
        { "format()", [](json::value& v, json::value&) -> u64 { return v.format().size(); } },
        { "format(1)", [](json::value& v, json::value&) -> u64 { return v.format(1).size(); } },
        { "format(0)", [](json::value& v, json::value&) -> u64 { return v.dumps(0).size(); } },
        { "<<", [](json::value& v, json::value&) -> u64 {
             std::ostringstream s;
             s << v;
             return static_cast<u64>(s.tellp());
         } },
        { "clearing", [](json::value& v, json::value&) -> u64 {
             v.clear();
             return 0;
         } },
    };
    constexpr size_t N = std::size(ops);
    std::vector<std::vector<Cost>> costs(N);
    std::string example;
    for (size_t n : sizes) {
        const std::string t = gen(n);
        if (example.empty()) {
            example = t;
        }
        vf::input(t);
        auto v = jsonc ? json::parsec(t) : json::parse(t);
        if (!v) {
            return; // nothing to work on
        }
        json::value w = *v;
        const u64 size = std::max<u64>(v->to_string().size(), 1);
        const bool deep = indents(*v) > (40u << 20); // the square of the depth
        for (size_t i = 0; i < N; ++i) {
            if (deep && (ops[i].name[0] == '<' || ops[i].name[0] == 'f')) {
                continue;
            }
            vf::note(ops[i].name);
            u64 made = 0;
            Cost c = measure(size, [&] { made = ops[i].f(*v, w); });
            c.size = std::max(c.size, made);
            costs[i].push_back(c);
        }
    }
    for (size_t i = 0; i < N; ++i) {
        if (costs[i].size() > 1) {
            VF_COUNT("operations measured");
            judge(std::string(ops[i].name) + " of " + name, costs[i], example, mixed);
        }
    }
}

std::string repeat(std::string_view unit, size_t k)
{
    std::string r;
    r.reserve(unit.size() * k);
    for (size_t i = 0; i < k; ++i) {
        r += unit;
    }
    return r;
}

// '@' is replaced by the number of the copy
std::string pump(const std::string& unit, size_t n)
{
    std::string r;
    for (size_t i = 0; r.size() < n; ++i) {
        for (char c : unit) {
            if (c == '@') {
                r += std::to_string(i);
            }
            else {
                r += c;
            }
        }
    }
    return r;
}

struct Family
{
    std::string name;
    bool jsonc;
    Gen gen;
};

const std::vector<Family>& families()
{
    static const std::vector<Family> all = [] {
        std::vector<Family> f;
        auto in_string = [&](const char* name, const std::string& unit) {
            f.push_back({ std::string("a long string of ") + name, false, [=](size_t n) { return "[\"" + pump(unit, n) + "\"]"; } });
            f.push_back({ std::string("an unclosed string of ") + name, false, [=](size_t n) { return "[1,\"" + pump(unit, n); } });
            f.push_back({ std::string("a long key of ") + name, false, [=](size_t n) { return "{\"" + pump(unit, n) + "\":1}"; } });
            f.push_back({ std::string("many strings of ") + name, false, [=](size_t n) { return "[" + pump("\"" + pump(unit, 50) + "\",", n) + "0]"; } });
        };
        in_string("letters", "abcdefgh");
        in_string("bytes above 127", "\xc3\xa4\xf0\x9f\x98\x80");
        in_string("simple escapes", "\\n");
        in_string("escaped quotes", "\\\"");
        in_string("letters and escapes", "abc\\t");
        in_string("long runs and escapes", std::string(40, 'x') + "\\\\");
        in_string("unicode escapes", "\\u00e9");
        in_string("control characters", "\\u0001");
        in_string("surrogate pairs", "\\ud83d\\ude00");
        in_string("numbers", "@ ");
        auto plain = [&](const char* name, bool jsonc, Gen g) { f.push_back({ name, jsonc, std::move(g) }); };
        plain("many digits", false, [](size_t n) { return "[" + pump("1234567890", n) + "]"; });
        plain("many decimals", false, [](size_t n) { return "[0." + pump("1234567890", n) + "]"; });
        plain("a long exponent", false, [](size_t n) { return "[1e+" + pump("12", n) + "]"; });
        plain("digits that never end", false, [](size_t n) { return "[" + pump("9", n); });
        plain("digits and a letter", false, [](size_t n) { return "[" + pump("9", n) + "x]"; });
        plain("many numbers", false, [](size_t n) { return "[" + pump("@.5e-3,", n) + "0]"; });
        plain("many integers", false, [](size_t n) { return "[" + pump("@,", n) + "0]"; });
        plain("many nulls", false, [](size_t n) { return "[" + pump("null,", n) + "null]"; });
        plain("many booleans", false, [](size_t n) { return "[" + pump("true,false,", n) + "true]"; });
        plain("many empty arrays", false, [](size_t n) { return "[" + pump("[],", n) + "[]]"; });
        plain("many empty objects", false, [](size_t n) { return "[" + pump("{},", n) + "{}]"; });
        plain("many small objects", false, [](size_t n) { return "[" + pump("{\"id\":@,\"name\":\"n@\",\"tags\":[1,2]},", n) + "0]"; });
        plain("many members", false, [](size_t n) { return "{" + pump("\"k@\":@,", n) + "\"x\":0}"; });
        plain("many members in order", false, [](size_t n) {
            std::string r = "{";
            for (size_t i = 0; r.size() < n; ++i) {
                r += "\"" + num::print("%09zu", i) + "\":[],";
            }
            return r + "\"x\":0}";
        });
        plain("many members in reverse order", false, [](size_t n) {
            std::string r = "{";
            for (size_t i = 900000000; r.size() < n; --i) {
                r += "\"" + num::print("%09zu", i) + "\":{},";
            }
            return r + "\"x\":0}";
        });
        plain("many members in no order", false, [](size_t n) {
            std::string r = "{";
            for (u64 i = 1; r.size() < n; ++i) {
                r += "\"" + num::print("%016llx", static_cast<unsigned long long>(vf::mix(i))) + "\":\"v\",";
            }
            return r + "\"x\":0}";
        });
        plain("many long keys", false, [](size_t n) { return "{" + pump("\"" + std::string(60, 'k') + "@\":null,", n) + "\"x\":0}"; });
        plain("many members and a repeated one", false, [](size_t n) { return "{" + pump("\"k@\":@,", n) + "\"k0\":0}"; });
        plain("many members and no end", false, [](size_t n) { return "{" + pump("\"k@\":@,", n); });
        plain("many members without values", false, [](size_t n) { return "{" + pump("\"k@\",", n) + "}"; });
        auto nested = [&](const char* name, const std::string& open, const std::string& middle, const std::string& close, bool jsonc = false) {
            f.push_back({ std::string("nested ") + name, jsonc, [=](size_t n) {
                             const size_t k = std::min<size_t>(n / (open.size() + close.size()), 30000);
                             return repeat(open, k) + middle + repeat(close, k);
                         } });
            f.push_back({ std::string("unclosed ") + name, jsonc, [=](size_t n) { return repeat(open, std::min<size_t>(n / open.size(), 30000)) + middle; } });
            f.push_back({ std::string("too much closed ") + name, jsonc, [=](size_t n) {
                             const size_t k = std::min<size_t>(n / (open.size() + close.size()), 30000);
                             return repeat(open, k) + middle + repeat(close, k) + "]";
                         } });
            f.push_back({ std::string("almost closed ") + name, jsonc, [=](size_t n) {
                             const size_t k = std::min<size_t>(n / (open.size() + close.size()), 30000);
                             return repeat(open, k) + middle + repeat(close, k - 1);
                         } });
            // a big innermost element under a few hundred levels
            f.push_back({ std::string("a lot within nested ") + name, jsonc, [=](size_t n) {
                             const size_t k = std::min<size_t>(n / (open.size() + close.size()) / 10 + 1, 20000);
                             return repeat(open, k) + "[" + pump("@,", n) + "1]" + repeat(close, k);
                         } });
        };
        nested("arrays", "[", "1", "]");
        nested("objects", "{\"a\":", "1", "}");
        nested("arrays with elements before and after", "[1,\"two\",", "1", ",null,[]]");
        nested("objects with members before and after", "{\"a\":1,\"b\":", "1", ",\"c\":{}}");
        nested("arrays and objects", "[{\"key\":", "\"x\"", "}]");
        nested("arrays with space", "[ \n", "1", " ]");
        nested("arrays with comments", "[/**/", "1", "//\n,]", true);
        auto space = [&](const char* name, const std::string& unit, bool jsonc) {
            f.push_back({ std::string("before the text: ") + name, jsonc, [=](size_t n) { return pump(unit, n) + "[1]"; } });
            f.push_back({ std::string("after the text: ") + name, jsonc, [=](size_t n) { return "[1]" + pump(unit, n); } });
            f.push_back({ std::string("in an empty array: ") + name, jsonc, [=](size_t n) { return "[" + pump(unit, n) + "]"; } });
            f.push_back({ std::string("before a comma: ") + name, jsonc, [=](size_t n) { return "[1" + pump(unit, n) + ",2]"; } });
            f.push_back({ std::string("after a comma: ") + name, jsonc, [=](size_t n) { return "[1," + pump(unit, n) + "2]"; } });
            f.push_back({ std::string("before a colon: ") + name, jsonc, [=](size_t n) { return "{\"a\"" + pump(unit, n) + ":2}"; } });
            f.push_back({ std::string("before a value: ") + name, jsonc, [=](size_t n) { return "{\"a\":" + pump(unit, n) + "2}"; } });
            f.push_back({ std::string("and no end: ") + name, jsonc, [=](size_t n) { return "[1," + pump(unit, n); } });
            f.push_back({ std::string("and an error: ") + name, jsonc, [=](size_t n) { return "[1" + pump(unit, n) + "2]"; } });
            f.push_back({ std::string("nothing but: ") + name, jsonc, [=](size_t n) { return pump(unit, n); } });
            f.push_back({ std::string("between many elements: ") + name, jsonc, [=](size_t n) { return "[" + pump(pump(unit, 20) + "@" + pump(unit, 20) + ",", n) + "0]"; } });
        };
        space("spaces", " ", false);
        space("all kinds of space", " \t\r\n", false);
        space("line comments", "//\n", true);
        space("block comments", "/**/", true);
        space("block comments with stars", "/* * ** *@*/", true);
        space("both kinds of comments", " /*x*/ // y /*\n", true);
        auto comment = [&](const char* name, const std::string& unit, const std::string& end, const std::string& start) {
            f.push_back({ std::string("one comment of ") + name, true, [=](size_t n) { return "[1" + start + pump(unit, n) + end + ",2]"; } });
            f.push_back({ std::string("one unclosed comment of ") + name, true, [=](size_t n) { return "[1" + start + pump(unit, n); } });
            f.push_back({ std::string("one comment at the end of ") + name, true, [=](size_t n) { return "[1]" + start + pump(unit, n) + end; } });
            f.push_back({ std::string("one unclosed comment at the end of ") + name, true, [=](size_t n) { return "[1]" + start + pump(unit, n); } });
        };
        comment("letters", "abc", "*/", "/*");
        comment("stars", "*", "/", "/*");
        comment("slashes", "/", "*/", "/*");
        comment("openings", "/*", "*/", "/*");
        comment("letters, in a line", "abc", "\n", "//");
        comment("slashes, in a line", "/", "\n", "//");
        comment("endings, in a line", "*/", "\n", "//");
        plain("comments that do not close, after each other", true, [](size_t n) { return "[1," + pump("/* ", n); });
        plain("lone slashes", true, [](size_t n) { return "[" + pump("/", n) + "]"; });
        plain("slashes and spaces", true, [](size_t n) { return "[" + pump("/ ", n) + "]"; });
        plain("trailing commas", true, [](size_t n) { return "[" + pump("[1,],{\"a\":2,},", n) + "]"; });
        plain("commas", false, [](size_t n) { return "[" + pump(",", n) + "]"; });
        plain("minus signs", false, [](size_t n) { return "[" + pump("-", n) + "]"; });
        plain("colons", false, [](size_t n) { return "{\"a\"" + pump(":", n) + "1}"; });
        plain("closing brackets", false, [](size_t n) { return "[" + pump("]", n); });
        plain("zeros", false, [](size_t n) { return "[" + pump("0", n) + "]"; });
        plain("NULs", false, [](size_t n) { return "[1]" + std::string(n, '\0'); });
        plain("many elements and a wrong one", false, [](size_t n) { return "[" + pump("[\"x\",{\"y\":@}],", n) + "nul]"; });
        plain("many elements and no end", false, [](size_t n) { return "[" + pump("[\"x\",{\"y\":@}],", n); });
        plain("a lone surrogate after much text", false, [](size_t n) { return "[\"" + pump("\\ud83d\\ude00x", n) + "\\ud83d\"]"; });
        plain("rubbish", false, [](size_t n) { return pump("rubbish@", n); });
        return f;
    }();
    return all;
}

const std::vector<size_t>& sizes()
{
    static const std::vector<size_t> quick = { 4000, 40000, 400000 }, thorough = { 4000, 16000, 64000, 256000, 1000000, 4000000 };
    return vf::ctx().thorough ? thorough : quick;
}

const std::vector<size_t>& small_sizes()
{
    static const std::vector<size_t> quick = { 2000, 192000 }, thorough = { 2000, 64000, 768000 };
    return vf::ctx().thorough ? thorough : quick;
}
}

SECTION(family_texts, 900, 900)
{
    const auto& f = families();
    const size_t i = idx / N_SOURCES;
    if (i >= f.size()) {
        return;
    }
    VF_COUNT("families x sources");
    vf::distinct(idx);
    with_stack([&] {
        parsing(f[i].name, f[i].gen, f[i].jsonc, static_cast<int>(idx % N_SOURCES), sizes());
        if (!f[i].jsonc && idx % N_SOURCES == idx / N_SOURCES % 2) { // plain texts read as JSONC
            parsing(f[i].name + " as JSONC", f[i].gen, true, static_cast<int>(idx % N_SOURCES), small_sizes());
        }
    });
}

SECTION(family_values, 225, 225)
{
    const auto& f = families();
    if (idx >= f.size()) {
        return;
    }
    with_stack([&] { using_values(f[idx].name, f[idx].gen, f[idx].jsonc, vf::ctx().thorough ? std::vector<size_t> { 4000, 64000, 1000000 } : std::vector<size_t> { 4000, 256000 }); });
}

// a random text, one or two parts of which are repeated
SECTION(pumped, 900, 60000)
{
    const bool jsonc = rng.chance(1, 2);
    std::string base = ref::render_doc(rng, ref::gen_doc(rng, 10, 4, 30), ref::gen_style(rng, jsonc));
    if (rng.chance(1, 3)) {
        base = ref::mutate(rng, base, jsonc);
    }
    base.erase(std::remove(base.begin(), base.end(), '@'), base.end());
    if (base.empty()) {
        base = "[]";
    }
    if (base.size() > 1500) {
        base.resize(1500);
    }
    // number the keys
    for (size_t p = 0; (p = base.find("\":", p)) != std::string::npos; p += 3) {
        base.insert(p, "@");
    }
    auto cut = [&](size_t from) { return from + rng.skewed(base.size() - from); };
    const size_t a = cut(rng.below(base.size())), b = cut(a), c = cut(b), d = cut(c);
    const std::string head = base.substr(0, a), one = base.substr(a, b - a), mid = base.substr(b, c - b), two = base.substr(c, d - c), tail = base.substr(d);
    if (one.empty() && two.empty()) {
        return;
    }
    const Gen gen = [=](size_t n) {
        const size_t k = std::min<size_t>(n / (one.size() + two.size() + 1) + 1, 30000);
        auto rep = [&](const std::string& u) {
            std::string r;
            for (size_t i = 0; i < k; ++i) {
                for (char ch : u) {
                    if (ch == '@') {
                        r += std::to_string(i);
                    }
                    else {
                        r += ch;
                    }
                }
            }
            return r;
        };
        return head + rep(one) + mid + rep(two) + tail;
    };
    if (idx < 4) {
        vf::sample(vf::printable(head, 60) + " (" + vf::printable(one, 60) + ")* " + vf::printable(mid, 60) + " (" + vf::printable(two, 60) + ")* " + vf::printable(tail, 60));
    }
    vf::distinct(vf::hash_bytes(head + one + mid + two + tail, a));
    VF_COUNT("pumped texts");
    with_stack([&] {
        parsing("a pumped text", gen, jsonc, static_cast<int>(rng.below(N_SOURCES)), small_sizes(), true);
        if (rng.chance(1, 3)) {
            using_values("a pumped text", gen, jsonc, small_sizes(), true);
        }
    });
}

// random lists of elements and nests of random brackets, all with running numbers in the keys
SECTION(repeated, 500, 30000)
{
    const bool jsonc = rng.chance(1, 3);
    const auto st = ref::gen_style(rng, jsonc);
    auto element = [&] {
        std::string r;
        ref::render(r, rng, rng.chance(1, 2) ? ref::gen_doc(rng, 5, 3, 20) : ref::gen_scalar(rng, 40), st);
        for (char& ch : r) {
            if (ch == '@') {
                ch = '#';
            }
        }
        return r;
    };
    auto space = [&] {
        std::string r;
        ref::render_ws(r, rng, st);
        return r;
    };
    Gen gen;
    switch (rng.below(4)) {
    case 0: { // a wide array
        const std::string unit = element() + "," + space() + element() + space() + ",", last = element();
        gen = [=](size_t n) { return "[" + pump(unit, n) + last + "]"; };
        break;
    }
    case 1: { // a wide object
        const std::string unit = "\"" + std::string(rng.below(40), 'k') + "@\"" + space() + ":" + element() + ",\"@" + std::string(1 + rng.below(9), 'z') + "\":" + space() + element() + space() + ",", last = element();
        gen = [=](size_t n) { return "{" + pump(unit, n) + "\"last\":" + last + "}"; };
        break;
    }
    case 2: { // a deep nest
        std::string open, close;
        for (size_t n = 1 + rng.below(3); n > 0; --n) {
            if (rng.chance(1, 2)) {
                open += "[" + space() + (rng.chance(1, 2) ? element() + "," : "");
                close = (rng.chance(1, 2) ? "," + element() : "") + space() + "]" + close;
            }
            else {
                open += "{" + (rng.chance(1, 2) ? "\"b\":" + element() + "," : "") + "\"a\":" + space();
                close = (rng.chance(1, 2) ? ",\"c\":" + element() : "") + "}" + close;
            }
        }
        const std::string mid = element();
        gen = [=](size_t n) {
            const size_t k = std::min<size_t>(n / (open.size() + close.size()) + 1, 20000);
            return repeat(open, k) + mid + repeat(close, k);
        };
        break;
    }
    default: { // a comb: an array of arrays of growing depths
        const std::string a = element();
        gen = [=](size_t n) {
            std::string r = "[";
            for (size_t k = 1; r.size() < n; ++k) {
                r += repeat("[", k % 30) + a + repeat("]", k % 30) + ",";
            }
            return r + "0]";
        };
        break;
    }
    }
    VF_COUNT("repeated structures");
    vf::distinct(vf::hash_bytes(gen(1)));
    if (idx < 3) {
        vf::sample(vf::printable(gen(100), 200));
    }
    with_stack([&] {
        parsing("repeated elements", gen, jsonc, static_cast<int>(rng.below(N_SOURCES)), small_sizes(), true);
        using_values("repeated elements", gen, jsonc, small_sizes(), true);
    });
}

// n operations one after the other
SECTION(growing, 64, 64)
{
    struct Op
    {
        const char* name;
        void (*f)(size_t n);
    };
    static const Op ops[] = {
        { "emplace_back", [](size_t n) {
             json::array a;
             for (size_t i = 0; i < n; ++i) {
                 a.emplace_back(i);
             }
         } },
        { "push_back", [](size_t n) {
             json::array a;
             const json::value v = "text";
             for (size_t i = 0; i < n; ++i) {
                 a.push_back(v);
             }
         } },
        { "value::emplace(value)", [](size_t n) {
             json::value a;
             for (size_t i = 0; i < n; ++i) {
                 a.emplace(i % 2 == 0);
             }
         } },
        { "value::emplace(key, value)", [](size_t n) {
             json::value a;
             for (size_t i = 0; i < n; ++i) {
                 a.emplace(std::to_string(i), i);
             }
         } },
        { "object::emplace", [](size_t n) {
             json::object a;
             for (size_t i = n; i-- > 0;) {
                 a.emplace(std::to_string(i), nullptr);
             }
         } },
        { "object::insert", [](size_t n) {
             json::object a;
             for (size_t i = 0; i < n; ++i) {
                 a.insert(std::to_string(i * 7919 % 1000003), "x");
             }
         } },
        { "[new key]", [](size_t n) {
             json::value a;
             for (size_t i = 0; i < n; ++i) {
                 a[std::to_string(i)] = i;
             }
         } },
        { "[key] again and again", [](size_t n) {
             json::object a;
             for (size_t i = 0; i < n; ++i) {
                 a[std::to_string(i % 100)] = i;
             }
         } },
        { "nesting by moving", [](size_t n) {
             json::value v = 1;
             for (size_t i = 0; i < std::min<size_t>(n, 30000); ++i) {
                 json::array a;
                 a.emplace_back(std::move(v));
                 v = json::value(std::move(a));
             }
         } },
        { "nesting in objects by moving", [](size_t n) {
             json::value v = 1;
             for (size_t i = 0; i < std::min<size_t>(n, 30000); ++i) {
                 json::object o;
                 o.emplace("k", std::move(v));
                 v = json::value(std::move(o));
             }
         } },
        { "descending with []", [](size_t n) {
             json::value v;
             json::value* p = &v;
             for (size_t i = 0; i < std::min<size_t>(n, 30000); ++i) {
                 p = &(*p)["k"];
             }
         } },
        { "array += array", [](size_t n) {
             json::array a;
             const json::array one { "text" };
             for (size_t i = 0; i < n; ++i) {
                 a += one;
             }
         } },
        { "array += moved array", [](size_t n) {
             json::array a { 1, 2, 3 };
             for (size_t i = 0; i < n; ++i) {
                 a += json::array { i, "x" };
             }
         } },
        { "moved array + array", [](size_t n) {
             json::array a;
             const json::array one { 1 };
             for (size_t i = 0; i < n; ++i) {
                 a = i % 2 ? std::move(a) + one : std::move(a) + json::array { nullptr };
             }
         } },
        { "value += array", [](size_t n) {
             json::value a;
             const json::array one { 1 };
             for (size_t i = 0; i < n; ++i) {
                 i % 2 ? a += one : a += json::array { "y", 2 };
             }
         } },
        { "moved value + array", [](size_t n) {
             json::value a = json::array {};
             const json::array one { 1 };
             for (size_t i = 0; i < n; ++i) {
                 a = i % 2 ? std::move(a) + one : std::move(a) + json::array { nullptr };
             }
         } },
        { "object |= object", [](size_t n) {
             json::object a;
             for (size_t i = 0; i < n; ++i) {
                 const json::object one { { std::to_string(i), "text" } };
                 a |= one;
             }
         } },
        { "object |= moved object", [](size_t n) {
             json::object a;
             for (size_t i = 0; i < n; ++i) {
                 a |= json::object { { std::to_string(i * 7919 % 1000003), i }, { "same", i } };
             }
         } },
        { "moved object | object", [](size_t n) {
             json::object a;
             for (size_t i = 0; i < n; ++i) {
                 const json::object one { { std::to_string(i), nullptr } };
                 a = i % 2 ? std::move(a) | one : std::move(a) | json::object(one);
             }
         } },
        { "value |= object", [](size_t n) {
             json::value a;
             for (size_t i = 0; i < n; ++i) {
                 const json::object one { { std::to_string(i), nullptr } };
                 i % 2 ? a |= one : a |= json::object(one);
             }
         } },
        { "moved value | object", [](size_t n) {
             json::value a = json::object {};
             for (size_t i = 0; i < n; ++i) {
                 const json::object one { { std::to_string(i), nullptr } };
                 a = i % 2 ? std::move(a) | one : std::move(a) | json::object(one);
             }
         } },
        { "erase of the last element", [](size_t n) {
             json::array a(n);
             for (size_t i = n; i-- > 0;) {
                 a.erase(i);
             }
         } },
        { "object::erase", [](size_t n) {
             json::object o;
             for (size_t i = 0; i < n; ++i) {
                 o.emplace(std::to_string(i), i);
             }
             for (size_t i = 0; i < n; ++i) {
                 o.erase(std::to_string(i));
             }
         } },
        { "looking up positions", [](size_t n) {
             const json::value v = json::array(n);
             for (size_t i = 0; i < n; ++i) {
                 if (!v.contains(i) || !v.find_value(i) || !v[i].is_null() || !v.at(i).is_null() || v.get(i, 1) != 1) {
                     std::abort();
                 }
             }
         } },
        { "looking up keys", [](size_t n) {
             json::value v;
             for (size_t i = 0; i < n; ++i) {
                 v[std::to_string(i)] = 1;
             }
             for (size_t i = 0; i < n; ++i) {
                 const std::string k = std::to_string(i);
                 if (!v.contains(k) || !v.find_value(k) || v.at(k).as_integer() != 1 || v.get(k, 2) != 1 || v.contains(k + "x")) {
                     std::abort();
                 }
             }
         } },
        { "iterating", [](size_t n) {
             const json::array a(n);
             size_t k = 0;
             for (const json::value& x : a) {
                 k += x.is_null();
             }
             for (auto it = a.rbegin(); it != a.rend(); ++it) {
                 k += it->is_null();
             }
         } },
        { "from std::vector", [](size_t n) {
             const std::vector<int> x(n, 7);
             const json::value v = x;
             if (v.as<std::vector<int>>().size() != n || v.as<std::list<int>>().size() != n || v.as<std::set<int>>().size() != 1) {
                 std::abort();
             }
         } },
        { "from std::map", [](size_t n) {
             std::map<std::string, std::vector<std::string>> x;
             for (size_t i = 0; i < n; ++i) {
                 x[std::to_string(i)] = { "a", "b" };
             }
             const json::value v = x;
             if (v.as<std::map<std::string, std::vector<std::string>>>() != x || v.as<std::unordered_map<std::string, json::array>>().size() != n) {
                 std::abort();
             }
         } },
        { "std::optional and std::variant elements", [](size_t n) {
             const std::vector<std::optional<std::variant<int, std::string>>> x(n, std::variant<int, std::string>("s"));
             const json::value v = x;
             if (v.as<std::vector<std::optional<std::variant<int, std::string>>>>() != x) {
                 std::abort();
             }
         } },
        { "clear and fill again", [](size_t n) {
             json::array a;
             for (size_t i = 0; i < n; ++i) {
                 if (i % 50 == 49) {
                     a.clear();
                 }
                 a.emplace_back(i);
             }
         } },
        { "one literal after the other", [](size_t n) {
             using namespace json::literals;
             for (size_t i = 0; i < n; ++i) {
                 if ("[1,2]"_jarray.size() != 2) {
                     std::abort();
                 }
             }
         } },
        { "a long string and its parts", [](size_t n) {
             const json::value v = std::string(n * 20, 'x');
             if (v.as_string_view().size() != n * 20 || v.as_string().size() != n * 20 || v.to_string().size() != n * 20 + 2) {
                 std::abort();
             }
         } },
        { "lots of look-ups with a big default", [](size_t n) {
             const json::value v = json::object { { "k", 1 } };
             for (size_t i = 0; i < n; ++i) {
                 if (v.get("k", "l", "default") != "default") {
                     std::abort();
                 }
             }
         } },
        { "describing big values", [](size_t n) {
             const json::value s = std::string(n * 20, 'x'), a = json::array(n);
             for (size_t i = 0; i < 10; ++i) {
                 try {
                     s.as_integer();
                 }
                 catch (const json::exception&) {
                 }
                 try {
                     a.as_object();
                 }
                 catch (const json::exception&) {
                 }
             }
         } },
        { "moving an array about", [](size_t n) {
             json::array a(n);
             for (size_t i = 0; i < n; ++i) {
                 json::value v = std::move(a);
                 json::value w;
                 w = std::move(v);
                 a = std::move(w.as_array());
             }
         } },
        { "moving an object about", [](size_t n) {
             json::object a;
             for (size_t i = 0; i < n; ++i) {
                 a.emplace(std::to_string(i), i);
             }
             for (size_t i = 0; i < n; ++i) {
                 json::value v = std::move(a);
                 json::value w = std::move(v);
                 a = std::move(w.as_object());
             }
         } },
        { "references into a big value", [](size_t n) {
             json::value v = json::object { { "a", json::array(n) } };
             size_t k = 0;
             for (size_t i = 0; i < n; ++i) {
                 k += v["a"].as_array().size() + v.as_object()["a"].as_array()[i].is_null();
                 const json::value& c = v;
                 k += c.at("a").as_array().size() + c.at("a")[i].is_null() + c.at("a").at(i).is_null();
             }
         } },
    };
    if (idx >= std::size(ops)) {
        return;
    }
    const Op& op = ops[idx];
    VF_COUNT("loops of operations");
    with_stack([&] {
        std::vector<Cost> c;
        for (size_t n : vf::ctx().thorough ? std::vector<size_t> { 1000, 8000, 64000, 256000 } : std::vector<size_t> { 1000, 30000 }) {
            vf::input(op.name);
            c.push_back(measure(n * 20, [&] { op.f(n); }));
        }
        judge(op.name, c, op.name);
    });
}

// ---------------------------------------------------------------- structs that contain themselves
namespace
{
template <typename T>
using Ptr = std::shared_ptr<T>;

struct InVector
{
    int v = 0;
    std::vector<InVector> in;
    MEO_JSONIZATION(v, in);
};

struct InMap
{
    int v = 0;
    std::map<std::string, InMap> in;
    MEO_JSONIZATION(v, MEO_OPT in);
};

struct InPointer
{
    int v = 0;
    Ptr<InPointer> in;
    MEO_JSONIZATION(v, MEO_OPT in);
};

struct ByHand // no MEO_JSONIZATION: one step of conversion for each struct
{
    int v = 0;
    std::vector<ByHand> in;

    json::value to_json() const
    {
        json::array a;
        a.emplace_back(v);
        a.emplace_back(in);
        return a;
    }

    bool check_json(const json::value& j) const { return j.is_array() && j.as_array().size() == 2 && j[0].is<int>() && j[1].is<std::vector<ByHand>>(); }

    bool from_json(const json::value& j)
    {
        if (!j.is_array() || j.as_array().size() != 2) {
            return false;
        }
        v = j[0].as_integer();
        in = j[1].as<std::vector<ByHand>>();
        return true;
    }
};

// n structs in all; shape 0: each in the one before, 1: all in the first, 2: four in each
void fill(InVector& x, size_t n, int shape);
void fill(ByHand& x, size_t n, int shape);
void fill(InMap& x, size_t n, int shape);
void fill(InPointer& x, size_t n, int shape);

template <typename T, typename F>
void fill_each(size_t n, int shape, F&& add)
{
    size_t left = n - 1;
    const size_t parts = shape == 0 ? 1 : shape == 1 ? left : 4;
    for (size_t i = 0; i < parts && left > 0; ++i) {
        const size_t take = shape == 1 ? 1 : (left + parts - i - 1) / (parts - i);
        T y;
        y.v = static_cast<int>(take);
        fill(y, take, shape);
        left -= take;
        add(std::move(y), i);
    }
}

void fill(InVector& x, size_t n, int shape)
{
    fill_each<InVector>(n, shape, [&](InVector y, size_t) { x.in.push_back(std::move(y)); });
}

void fill(ByHand& x, size_t n, int shape)
{
    fill_each<ByHand>(n, shape, [&](ByHand y, size_t) { x.in.push_back(std::move(y)); });
}

void fill(InMap& x, size_t n, int shape)
{
    fill_each<InMap>(n, shape, [&](InMap y, size_t i) { x.in.emplace(std::to_string(i), std::move(y)); });
}

void fill(InPointer& x, size_t n, int)
{
    fill_each<InPointer>(n, 0, [&](InPointer y, size_t) { x.in = std::make_shared<InPointer>(std::move(y)); });
}

template <typename T>
void recursive(const char* type, int shape)
{
    static const char* const shapes[] = { "in one another", "side by side", "in a tree" };
    std::vector<Cost> to, is, as, squares;
    std::string example;
    // what is to be found quadratic is so from small sizes on
    for (size_t n : shape == 0 ? std::vector<size_t> { 20, 80, 320, 1280 } : std::vector<size_t> { 100, 1000, 10000 }) {
        T x;
        fill(x, n, shape);
        json::value v;
        to.push_back(measure(n * 20, [&] { v = json::value(x); }));
        if (example.empty()) {
            example = v.to_string();
        }
        vf::input(example);
        bool fits = false;
        is.push_back(measure(n * 20, [&] { fits = v.is<T>(); }));
        json::value w = v;
        T y;
        as.push_back(measure(n * 20, [&] {
            x = v.as<T>();
            y = std::move(w).template as<T>();
        }));
        VF_CHECK(fits && json::value(x) == v && json::value(y) == v, "recursive", std::string("conversion of ") + type, example);
        squares.push_back(as.back());
        squares.back().size *= n;
    }
    const std::string what = std::string(type) + " " + shapes[shape];
    VF_COUNT("families of structs in structs");
    judge("writing " + what, to, example);
    judge("checking " + what, is, example);
    judge("reading " + what, as, example, false, true);
    judge("reading " + what + ", by the square of their number", squares, example);
}
}

SECTION(structs_in_structs, 11, 11)
{
    with_stack([&] {
        const int shape = static_cast<int>(idx / 4);
        switch (idx % 4) {
        case 0:
            return recursive<InVector>("structs in vectors", shape);
        case 1:
            return recursive<InMap>("structs in maps", shape);
        case 2:
            return recursive<ByHand>("structs with members of their own", shape);
        default:
            if (shape == 0) {
                return recursive<InPointer>("structs in pointers", 0);
            }
        }
    });
}
