// P08: values made of C++ numbers are exact (or rounded to six decimals), valid JSON, in every locale.
#include "num.hpp"

using namespace num;
using ref::MV;
using ref::Ref;

namespace
{
bool valid_number(const std::string& t)
{
    const Ref r = ref::parse("[" + t + "]", false);
    return r.v == Ref::accept && r.val.a.size() == 1 && r.val.a[0].k == MV::Num && r.val.a[0].s == t;
}

template <typename I>
void integer(I x, const char* where)
{
    const json::value v(x);
    const std::string want = dec(static_cast<i128>(x)), t = v.to_string();
    vf::input(want);
    VF_COUNT("evaluations");
    VF_COUNT("integers");
    if (!v.is_number() || t != want) {
        vf::violation("integer-literal", t + " instead of " + want + " (" + where + ")", want);
    }
    // where a number is made implicitly
    json::value w;
    w = x;
    json::array a { x };
    a.emplace_back(x);
    json::object o { { "k", x } };
    o["l"] = x;
    o.emplace("m", x);
    if (w.to_string() != want || a.to_string() != "[" + want + "," + want + "]" || o.to_string() != "{\"k\":" + want + ",\"l\":" + want + ",\"m\":" + want + "}") {
        vf::violation("integer-in-container", w.to_string() + " " + a.to_string() + " " + o.to_string() + " instead of " + want + " (" + where + ")", want);
    }
    // and read back
    if constexpr (sizeof(I) >= sizeof(int)) {
        if (v.as<I>() != x || static_cast<I>(v) != x || !v.is<I>()) {
            vf::violation("integer-read-back", want + std::string(" as the type it came from (") + where + ")", want);
        }
    }
    vf::distinct(vf::hash_bytes(want, sizeof(I) * 2 + (std::is_signed_v<I> ? 1 : 0)));
}

template <typename I>
void integers_around(Rng& g, const char* where)
{
    using L = std::numeric_limits<I>;
    const auto bits = g.below(sizeof(I) * 8 + 1);
    I x;
    switch (g.below(4)) {
    case 0:
        x = static_cast<I>(g.next());
        break;
    case 1:
        x = static_cast<I>(bits >= 64 ? g.next() : g.next() & ((1ull << bits) - 1));
        break;
    case 2:
        x = static_cast<I>(L::max() - static_cast<I>(g.below(20)));
        break;
    default:
        x = static_cast<I>(L::min() + static_cast<I>(g.below(20)));
    }
    integer(x, where);
    if (g.chance(1, 2)) { // powers of ten and their neighbours
        u64 p = 1;
        for (u64 i = g.below(20); i > 0; --i) {
            p *= 10;
        }
        p += g.below(3) - 1;
        integer(static_cast<I>(p), where);
        integer(static_cast<I>(~p + 1), where);
    }
}

// digits and the place of the point, without redundant zeros
std::string canonical(const std::string& t)
{
    const size_t e = t.find_first_of("eE");
    const std::string m = t.substr(0, e);
    long point = e == std::string::npos ? 0 : std::strtol(t.c_str() + e + 1, nullptr, 10);
    std::string d;
    bool after = false;
    for (const char c : m) {
        if (c == '.') {
            after = true;
        }
        else if (c >= '0' && c <= '9') {
            d += c;
            point -= after;
        }
    }
    while (!d.empty() && d.back() == '0') {
        d.pop_back();
        ++point;
    }
    const size_t nz = d.find_first_not_of('0');
    if (nz == std::string::npos) {
        return "0";
    }
    return (t[0] == '-' ? "-" : "") + d.substr(nz) + "e" + std::to_string(point);
}

template <typename F>
F read(const json::value& v)
{
    if constexpr (std::is_same_v<F, float>) {
        return v.as_float();
    }
    else if constexpr (std::is_same_v<F, double>) {
        return v.as_double();
    }
    else {
        return v.as_long_double();
    }
}

template <typename F>
void floating(F x, const char* where)
{
    const std::string text = print("%.40Lg", static_cast<long double>(x));
    vf::input(text);
    VF_COUNT("evaluations");
    const json::value v(x);
    const std::string t = v.to_string();
    json::value w;
    w = x;
    const json::array a { x };
    const json::object o { { "k", x } };
    auto report = [&](const char* key, const std::string& what) {
        vf::violation(std::string(key) + (sizeof(F) == 4 ? ":float" : sizeof(F) == 8 ? ":double" : ":long-double"), what + ": " + text + " became " + t + " (" + where + ")", text);
    };
    if (!v.is_number() || !valid_number(t)) {
        report("not-a-json-number", "not a valid JSON number");
        return;
    }
    if (w.to_string() != t || a.to_string() != "[" + t + "]" || o.to_string() != "{\"k\":" + t + "}") {
        report("differs-in-container", "other text when assigned or in a container");
    }
    const F back = nearest<F>(t);
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
    VF_COUNT("floating numbers kept");
    if (!same(back, x)) {
        report("precision-lost", "the text reads back as another number");
    }
    if (!same(v.as<F>(), x) || !same(read<F>(v), x) || !same(static_cast<F>(v), x) || !v.is<F>()) {
        report("reading-differs", "reading the value gives another number");
    }
#else
    VF_COUNT("floating numbers rounded");
    const std::string six = print("%.6Lf", static_cast<long double>(x));
    if (canonical(t) != canonical(six)) {
        report("not-six-decimals", "not " + six);
    }
    if (!same(v.as<F>(), back) || !same(read<F>(v), back) || !same(static_cast<F>(v), back) || !v.is<F>()) {
        report("reading-differs", "reading the value gives another number than its text");
    }
#endif
    vf::distinct(vf::hash_bytes(text, sizeof(F)));
}
}

SECTION(integers, 12000, 400000)
{
    const InLocale l(static_cast<unsigned>(rng.below(4)));
    integers_around<short>(rng, l.what);
    integers_around<unsigned short>(rng, l.what);
    integers_around<signed char>(rng, l.what);
    integers_around<unsigned char>(rng, l.what);
    integers_around<int>(rng, l.what);
    integers_around<unsigned>(rng, l.what);
    integers_around<long>(rng, l.what);
    integers_around<unsigned long>(rng, l.what);
    integers_around<long long>(rng, l.what);
    integers_around<unsigned long long>(rng, l.what);
}

// every 16-bit number
SECTION(small_integers, 256, 256)
{
    for (int lo = 0; lo < 256; lo += 1) {
        const int x = static_cast<int>(idx) * 256 + lo;
        integer(static_cast<short>(x), "classic");
        integer(x, "classic");
        integer(-x, "classic");
    }
}

SECTION(floats, 25000, 1000000)
{
    const InLocale l(static_cast<unsigned>(rng.below(4)));
    floating(gen_floating<float>(rng), l.what);
    floating(gen_floating<double>(rng), l.what);
    floating(gen_floating<long double>(rng), l.what);
    if (idx == 0) {
        vf::sample(json::value(gen_floating<double>(rng)).to_string());
    }
}

// the numbers around which rounding to six decimals is decided
SECTION(rounding, 6000, 100000)
{
    const InLocale l(static_cast<unsigned>(rng.below(4)));
    const double base = static_cast<double>(rng.below(3000)) / 64 + (rng.chance(1, 2) ? static_cast<double>(rng.below(1000000)) : 0);
    double x = base + (static_cast<double>(rng.below(3)) - 1) * 5e-7;
    for (u64 i = rng.below(3); i > 0; --i) {
        x = std::nextafter(x, rng.chance(1, 2) ? 1e9 : -1e9);
    }
    floating(rng.chance(1, 2) ? -x : x, l.what);
    floating(static_cast<float>(x), l.what);
    floating(static_cast<long double>(x), l.what);
}

SECTION(binades, 2200, 2200)
{
    const InLocale l(static_cast<unsigned>(idx % 4));
    const int e = static_cast<int>(idx) - 1100;
    for (const double m : { 1.0, 1.5, 1.9999999999999998, 1.1 }) {
        const double d = std::ldexp(m, e);
        if (std::isfinite(d)) {
            floating(d, l.what);
            floating(-d, l.what);
        }
        const float f = std::ldexp(static_cast<float>(m), e);
        if (std::isfinite(f)) {
            floating(f, l.what);
        }
        floating(std::ldexp(static_cast<long double>(m), e * 14), l.what);
    }
}

// the locale of the stream that a value is written to
SECTION(streams, 3000, 30000)
{
    const InLocale l(static_cast<unsigned>(rng.below(4)));
    const json::value v = json::object { { "i", static_cast<long long>(rng.next()) }, { "d", gen_floating<double>(rng) }, { "a", json::array { 1234567, 1234567.5f, true } } };
    vf::input(v.to_string());
    VF_COUNT("evaluations");
    std::ostringstream os;
    os.imbue(std::locale(std::locale::classic(), new Odd));
    os << std::hex << std::showpos << std::boolalpha << std::uppercase << std::fixed;
    os.precision(2);
    os << v;
    const Ref r = ref::parse(os.str(), false);
    if (r.v != Ref::accept || r.val != conv::to_model(v)) {
        vf::violation("stream-locale", os.str(), v.to_string());
    }
    VF_COUNT("values written to an odd stream");
}
