// num.hpp - what numbers mean: decimal integers, nearest floating-point numbers, locales
#pragma once

#include "conv.hpp"

#include <clocale>
#include <climits>
#include <limits>
#include <locale.h>
#include <locale>
#include <sys/stat.h>

namespace num
{
using vf::Rng;
using vf::u64;
using i128 = __int128;
using u128 = unsigned __int128;

inline std::string dec(i128 x)
{
    const bool neg = x < 0;
    u128 u = neg ? static_cast<u128>(-(x + 1)) + 1 : static_cast<u128>(x);
    std::string r;
    do {
        r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    } while (u);
    return neg ? "-" + r : r;
}

// the conversions of the C library in the C locale, which round to nearest
struct CLocale
{
    locale_t c, old;

    CLocale()
    {
        static locale_t the = newlocale(LC_ALL_MASK, "C", nullptr);
        c = the;
        old = uselocale(the);
    }

    ~CLocale() { uselocale(old); }
};

template <typename F>
F nearest(const std::string& s)
{
    CLocale l;
    if constexpr (std::is_same_v<F, float>) {
        return std::strtof(s.c_str(), nullptr);
    }
    else if constexpr (std::is_same_v<F, double>) {
        return std::strtod(s.c_str(), nullptr);
    }
    else {
        return std::strtold(s.c_str(), nullptr);
    }
}

template <typename... A>
std::string print(const char* f, A... a)
{
    CLocale l;
    char small[64];
    const int n = std::snprintf(small, sizeof small, f, a...);
    if (n < static_cast<int>(sizeof small)) {
        return small;
    }
    std::string r(static_cast<size_t>(n), 0);
    std::snprintf(&r[0], r.size() + 1, f, a...);
    return r;
}

template <typename F>
bool same(F a, F b)
{
    return a == b && std::signbit(a) == std::signbit(b);
}

// is every digit of the literal a zero?
inline bool zero(const std::string& s)
{
    for (const char c : s) {
        if (c == 'e' || c == 'E') {
            break;
        }
        if (c >= '1' && c <= '9') {
            return false;
        }
    }
    return true;
}

// -?(0|[1-9][0-9]*)
inline bool plain_integer(const std::string& s)
{
    size_t i = !s.empty() && s[0] == '-';
    if (i == s.size() || (s[i] == '0' && s.size() > i + 1)) {
        return false;
    }
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') {
            return false;
        }
    }
    return true;
}

// the number of a plain integer literal, unless it is out of the range of every type
inline bool to_i128(const std::string& s, i128& r)
{
    if (s.size() > 30) {
        return false;
    }
    r = 0;
    const bool neg = s[0] == '-';
    for (size_t i = neg; i < s.size(); ++i) {
        r = r * 10 + (s[i] - '0');
    }
    if (neg) {
        r = -r;
    }
    return true;
}

// ---------------------------------------------------------------- locales
struct Odd : std::numpunct<char>
{
    char_type do_decimal_point() const override { return ','; }

    char_type do_thousands_sep() const override { return '.'; }

    std::string do_grouping() const override { return "\3"; }

    string_type do_truename() const override { return "wahr"; }

    string_type do_falsename() const override { return "falsch"; }
};

// compiled here, because no locale with another decimal point may be installed
inline const char* german()
{
    static std::string name = [] {
        const char* dir = std::getenv("VF_SCRATCH");
        if (!dir) {
            return std::string();
        }
        const std::string d = std::string(dir) + "/loc" + std::to_string(getpid());
        if (mkdir(d.c_str(), 0755) != 0) {
            return std::string();
        }
        const std::string cmd = "localedef -i de_DE -f UTF-8 " + d + "/de_DE.UTF-8 >/dev/null 2>&1";
        if (std::system(cmd.c_str()) != 0 && access((d + "/de_DE.UTF-8/LC_NUMERIC").c_str(), R_OK) != 0) {
            return std::string();
        }
        setenv("LOCPATH", d.c_str(), 1);
        const char* old = std::setlocale(LC_ALL, nullptr);
        const std::string keep = old ? old : "C";
        const bool ok = std::setlocale(LC_ALL, "de_DE.UTF-8") && std::localeconv()->decimal_point[0] == ',';
        std::setlocale(LC_ALL, keep.c_str());
        return std::string(ok ? "de_DE.UTF-8" : "");
    }();
    return name.empty() ? nullptr : name.c_str();
}

// one of several locales for the life of this object
struct InLocale
{
    const char* what = "classic";

    explicit InLocale(unsigned mode)
    {
        if (mode == 1) {
            std::locale::global(std::locale(std::locale::classic(), new Odd));
            what = "C++ locale with a decimal comma and grouping";
            VF_COUNT("cases in a C++ locale with a comma");
        }
        else if (mode >= 2 && german()) {
            if (mode == 2) {
                static const std::locale* de = new std::locale(german());
                std::locale::global(*de);
            }
            else {
                std::setlocale(LC_ALL, german());
            }
            what = mode == 2 ? "de_DE as C and C++ locale" : "de_DE as C locale";
            VF_COUNT("cases in de_DE");
        }
    }

    ~InLocale()
    {
        std::locale::global(std::locale::classic());
        std::setlocale(LC_ALL, "C");
    }
};

// ---------------------------------------------------------------- floating-point numbers of all kinds
template <typename F>
F gen_floating(Rng& g)
{
    for (;;) {
        F f;
        switch (g.below(7)) {
        case 0: { // any bits
            if constexpr (sizeof(F) == 4) {
                const auto b = static_cast<uint32_t>(g.next());
                std::memcpy(&f, &b, 4);
            }
            else if constexpr (sizeof(F) == 8) {
                const u64 b = g.next();
                std::memcpy(&f, &b, 8);
            }
            else {
                f = std::ldexp(static_cast<F>(g.next()), static_cast<int>(g.below(32000)) - 16400);
                f = g.chance(1, 2) ? -f : f;
            }
            break;
        }
        case 1: // moderate
            f = static_cast<F>(static_cast<int64_t>(g.next())) / static_cast<F>(1ull << g.below(63));
            break;
        case 2: // powers of two and their neighbours
            f = std::ldexp(static_cast<F>(1), static_cast<int>(g.below(sizeof(F) == 4 ? 270 : sizeof(F) == 8 ? 2090 : 32700)) - (sizeof(F) == 4 ? 148 : sizeof(F) == 8 ? 1074 : 16445));
            f = g.chance(1, 3) ? std::nextafter(f, static_cast<F>(0)) : g.chance(1, 2) ? std::nextafter(f, std::numeric_limits<F>::infinity()) : f;
            break;
        case 3: { // decimal looking
            f = static_cast<F>(static_cast<int64_t>(g.below(2000000)) - 1000000);
            for (u64 i = g.below(8); i > 0; --i) {
                f /= 10;
            }
            break;
        }
        case 4: { // powers of ten
            f = 1;
            const int64_t e = g.range(-30, 30);
            for (int64_t i = 0; i < (e < 0 ? -e : e); ++i) {
                f = e < 0 ? f / 10 : f * 10;
            }
            break;
        }
        case 5: { // subnormal, tiny, huge, zero
            static const F some[] = { static_cast<F>(0), -static_cast<F>(0), std::numeric_limits<F>::denorm_min(), -std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::min(), std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest(), std::numeric_limits<F>::epsilon(), static_cast<F>(1) - std::numeric_limits<F>::epsilon(), static_cast<F>(1) + std::numeric_limits<F>::epsilon(), static_cast<F>(0.1), static_cast<F>(1e15), static_cast<F>(1e16), static_cast<F>(1e17), static_cast<F>(123456789), static_cast<F>(0.5e-6), static_cast<F>(0.4999999e-6), static_cast<F>(1.5e-6), static_cast<F>(2147483648.0), static_cast<F>(9007199254740993.0), static_cast<F>(18446744073709551616.0) };
            f = some[g.below(std::size(some))];
            break;
        }
        default: // subnormal numbers
            f = std::numeric_limits<F>::min() * static_cast<F>(g.below(1000000)) / static_cast<F>(1000001);
        }
        if (std::isfinite(f)) {
            return f;
        }
    }
}
} // namespace num
