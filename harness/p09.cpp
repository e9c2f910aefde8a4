// P09: numbers are read exactly (integers), as the nearest number (floating point), or refused.
#include "num.hpp"

using namespace num;
using ref::MV;

namespace
{
struct Got
{
    bool threw = false;  // json::exception
    bool other = false;  // something else was thrown
    std::string what;
};

template <typename F>
Got attempt(F&& f)
{
    Got g;
    try {
        f();
    }
    catch (const json::exception& e) {
        g.threw = true;
        g.what = e.what();
    }
    catch (...) {
        g.threw = g.other = true;
        g.what = vf::what_of_current_exception();
    }
    return g;
}

template <typename T>
T by_name(const json::value& v)
{
    if constexpr (std::is_same_v<T, int>) {
        return v.as_integer();
    }
    else if constexpr (std::is_same_v<T, unsigned>) {
        return v.as_unsigned();
    }
    else if constexpr (std::is_same_v<T, long>) {
        return v.as_long();
    }
    else if constexpr (std::is_same_v<T, unsigned long>) {
        return v.as_unsigned_long();
    }
    else if constexpr (std::is_same_v<T, long long>) {
        return v.as_long_long();
    }
    else if constexpr (std::is_same_v<T, unsigned long long>) {
        return v.as_unsigned_long_long();
    }
    else if constexpr (std::is_same_v<T, float>) {
        return v.as_float();
    }
    else if constexpr (std::is_same_v<T, double>) {
        return v.as_double();
    }
    else {
        return v.as_long_double();
    }
}

template <typename T>
void read(const json::value& v, const std::string& lit, const char* type, const char* where)
{
    // what must come out
    bool must = false, may = false; // succeed
    T want {};
    if constexpr (std::is_integral_v<T>) {
        i128 x = 0;
        if (plain_integer(lit) && to_i128(lit, x) && x >= static_cast<i128>(std::numeric_limits<T>::min()) && x <= static_cast<i128>(std::numeric_limits<T>::max())) {
            may = true;
            must = !(lit == "-0" && std::is_unsigned_v<T>); // a sign that an unsigned type may refuse
            want = static_cast<T>(x);
        }
    }
    else {
        want = nearest<T>(lit);
        may = std::isfinite(want);
        must = may && (want != 0 || zero(lit));
#ifdef VF_FALLBACK // strtod and its kin may call a subnormal result a range error
        must = must && (want == 0 || std::fabs(want) > 2 * std::numeric_limits<T>::min());
#endif
    }
    auto report = [&](const char* key, const std::string& what) {
        vf::violation(std::string(key) + ":" + type, what + " reading " + vf::printable(lit, 120) + " as " + type + " (" + where + ")", lit);
    };
    const std::string before = v.to_string();
    const bool is = v.is<T>();
    for (int how = 0; how < 4; ++how) {
        T got {};
        const Got g = attempt([&] {
            switch (how) {
            case 0:
                got = by_name<T>(v);
                break;
            case 1:
                got = v.as<T>();
                break;
            case 2:
                got = static_cast<T>(v);
                break;
            default: {
                json::value w = v;
                got = std::move(w).template as<T>();
            }
            }
        });
        VF_COUNT("readings");
        if (g.other) {
            report("wrong-exception", g.what);
        }
        if (g.threw && g.what.empty()) {
            report("no-message", "");
        }
        if (g.threw == is) {
            report("is-disagrees", is ? "is<>() holds but it throws: " + g.what : "is<>() is false but it succeeds");
        }
        if (g.threw) {
            VF_COUNT("refusals");
            if (must) {
                report("refused", "refused: " + g.what);
            }
        }
        else {
            VF_COUNT("successes");
            if (!may) {
                report("accepted", "accepted");
            }
            else if constexpr (std::is_floating_point_v<T>) {
                if (!same(got, want)) {
                    report("not-nearest", print("%.40Lg", static_cast<long double>(got)) + " instead of " + print("%.40Lg", static_cast<long double>(want)));
                }
            }
            else if (got != want) {
                report("inexact", dec(static_cast<i128>(got)));
            }
        }
    }
    if (v.to_string() != before) {
        report("changed", "the value changed");
    }
}

void all_types(const json::value& v, const std::string& lit, const char* where)
{
    read<int>(v, lit, "int", where);
    read<unsigned>(v, lit, "unsigned", where);
    read<long>(v, lit, "long", where);
    read<unsigned long>(v, lit, "unsigned-long", where);
    read<long long>(v, lit, "long-long", where);
    read<unsigned long long>(v, lit, "unsigned-long-long", where);
    read<float>(v, lit, "float", where);
    read<double>(v, lit, "double", where);
    read<long double>(v, lit, "long-double", where);
    if (v.is<bool>() || !attempt([&] { (void)v.as<bool>(); }).threw || !attempt([&] { (void)v.as_boolean(); }).threw || !attempt([&] { (void)static_cast<bool>(v); }).threw) {
        vf::violation("number-as-bool", lit, lit);
    }
}

void judge(const std::string& lit, const char* where = "classic", bool parse = true)
{
    vf::input(lit);
    VF_COUNT("evaluations");
    if (vf::distinct(vf::hash_bytes(lit))) {
        VF_COUNT("distinct literals");
    }
    json::value v;
    if (parse) {
        const auto p = json::parse("[" + lit + "]");
        if (!p) {
            vf::violation("literal-refused", "the parser refused the number " + lit, lit);
            return;
        }
        v = (*p)[0];
    }
    else {
        v = json::value(json::value::value_type::number, lit);
    }
    if (!v.is_number() || v.to_string() != lit) {
        vf::violation("literal-changed", v.to_string() + " instead of " + lit, lit);
    }
    all_types(v, lit, where);
}
}

SECTION(random_numbers, 20000, 1000000)
{
    const InLocale l(static_cast<unsigned>(rng.below(4)));
    const std::string lit = ref::gen_number(rng);
    if (idx < 4) {
        vf::sample(lit);
    }
    judge(lit, l.what, rng.chance(1, 2));
}

// around the limits of all integer types
SECTION(limits, 4000, 60000)
{
    static const i128 base[] = { 0, SCHAR_MAX, SCHAR_MIN, UCHAR_MAX, SHRT_MAX, SHRT_MIN, USHRT_MAX, INT_MAX, INT_MIN, UINT_MAX, LLONG_MAX, LLONG_MIN, static_cast<i128>(ULLONG_MAX), -static_cast<i128>(UINT_MAX), -static_cast<i128>(ULLONG_MAX), static_cast<i128>(INT_MAX) * 10, static_cast<i128>(ULLONG_MAX) * 10, static_cast<i128>(1) << 80, -(static_cast<i128>(1) << 80) };
    const i128 x = base[idx % std::size(base)] + static_cast<int>(rng.below(7)) - 3;
    std::string lit = dec(x);
    switch (rng.below(12)) {
    case 0:
        lit += ".0";
        break;
    case 1:
        lit += "e0";
        break;
    case 2:
        lit += x ? "0" : ".0";
        break;
    case 3:
        lit += ".5";
        break;
    case 4:
        lit += "E-1";
        break;
    case 5:
        lit += x ? std::string(rng.below(400), '0') : "";
        break;
    default:
        break;
    }
    judge(lit, "classic", rng.chance(1, 2));
}

// every literal up to a length
SECTION(exhaustive, 64, 64)
{
    static const char alphabet[] = "019-+.eE";
    const size_t max = vf::ctx().thorough ? 7 : 5;
    std::string s;
    std::function<void()> rec = [&] {
        const auto r = ref::parse("[" + s + "]", false);
        if (!s.empty() && r.v == ref::Ref::accept && r.val.a.size() == 1) {
            judge(s);
            VF_COUNT("exhaustive literals");
        }
        if (s.size() < max) {
            for (const char c : std::string_view(alphabet, 8)) {
                s += c;
                rec();
                s.pop_back();
            }
        }
    };
    s = { alphabet[idx / 8], alphabet[idx % 8] };
    rec();
    if (idx < 8) {
        s = { alphabet[idx] };
        if (ref::parse("[" + s + "]", false).v == ref::Ref::accept) {
            judge(s);
        }
    }
}

// exact decimals of halfway points between neighbours, and a little above and below
SECTION(halfway, 2500, 60000)
{
    const InLocale l(static_cast<unsigned>(rng.below(4)));
    std::string lit;
    if (rng.chance(1, 2)) {
        const float f = std::fabs(gen_floating<float>(rng));
        const double mid = (static_cast<double>(f) + static_cast<double>(std::nextafter(f, std::numeric_limits<float>::infinity()))) / 2;
        if (!std::isfinite(mid)) {
            return;
        }
        lit = print("%.*e", 150, mid);
    }
    else {
        const double d = std::fabs(gen_floating<double>(rng));
        const long double mid = (static_cast<long double>(d) + static_cast<long double>(std::nextafter(d, std::numeric_limits<double>::infinity()))) / 2;
        if (!std::isfinite(mid)) {
            return;
        }
        lit = print("%.*Le", 1100, mid);
    }
    // without the zeros at the end, which the exponent must not lose
    const size_t e = lit.find('e');
    std::string m = lit.substr(0, e);
    m.resize(m.find_last_not_of('0') + 1);
    if (m.back() == '.') {
        m += "0";
    }
    const std::string x = lit.substr(e);
    judge(m + x, l.what);
    judge("-" + m + x, l.what, false);
    judge(m + "0000000001" + x, l.what);
    std::string below = m;
    if (below.back() > '0' && below.size() > 3) {
        --below.back();
        judge(below + "9999999999" + x, l.what, false);
    }
    VF_COUNT("halfway points");
}

// limits of the floating-point types, and exponents out of all proportion
SECTION(magnitudes, 1, 1)
{
    for (const char* s : { "1e38", "3.4028234e38", "3.4028235e38", "3.40282356e38", "3.40282357e38", "3.4028236e38", "1e39", "1e-37", "1e-38", "1.1754943e-38", "1.1754942e-38", "1e-44", "1.4e-45", "1e-45",
             "7.1e-46", "7.0e-46", "7.006492321624085e-46", "7.006492321624086e-46", "1e-46", "1e308", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.8e308", "1e309", "2.2250738585072014e-308",
             "2.2250738585072011e-308", "2.225e-308", "4.9e-324", "5e-324", "3e-324", "2.5e-324", "2.4703282292062328e-324", "2.4703282292062327e-324", "2.4e-324", "1e-324", "1e-400", "1e4932", "1.18973149535723176502e4932",
             "1.18973149535723176509e4932", "1.2e4932", "1e4933", "3.3621031431120935063e-4932", "3.6e-4951", "1.9e-4951", "1.8e-4951", "1e-4951", "1e-5000", "0e999999999999999999999", "0.0e-999999999999999999999",
             "1e999999999999999999999", "1e-999999999999999999999", "-1e999999999999999999999", "0e0", "-0", "-0.0", "-0e5", "0.000e+5", "9007199254740993", "9007199254740992.5", "18446744073709551616.0", "1e23", "8.41e21", "9e-265", "5e-20",
             "123456789012345678901234567890", "0.1", "0.2", "0.3", "0.30000000000000004", "16777217", "16777216.5", "100000000000000000000000", "1.0000000596046448" }) {
        judge(s, "classic");
        judge(s, "classic", false);
        const InLocale l(2);
        judge(s, l.what);
    }
    for (const size_t n : { 10u, 40u, 300u, 400u, 1000u, 5000u, 20000u }) {
        judge("0." + std::string(n, '0') + "1e" + std::to_string(n + 1));
        judge("1" + std::string(n, '0') + "e-" + std::to_string(n));
        judge(std::string(n, '9'));
        judge("0." + std::string(n, '9'));
        judge("1." + std::string(n, '0') + "1");
        judge("1" + std::string(n, '0'));
        judge("0." + std::string(n, '0') + "1");
        judge("0." + std::string(n, '0'));
        judge("1e" + std::string(n, '0') + "1");
        judge("1e-" + std::string(n, '0') + "1");
        VF_COUNT("long literals");
    }
}

// what is no number is not read as one
SECTION(others, 12, 12)
{
    static const MV all[] = { MV::null(), MV::boolean(true), MV::boolean(false), MV::str(""), MV::str("0"), MV::str("1"), MV::str("1.5"), MV::str("true"), MV::arr(), MV::arr({ MV::num("1") }), MV::obj(), MV::obj({ { "0", MV::num("1") } }) };
    const json::value v = conv::build(all[idx]);
    vf::input(ref::dump(all[idx]));
    auto no = [&](auto t, const char* name) {
        using T = decltype(t);
        VF_COUNT("evaluations");
        VF_COUNT("readings of other types");
        if (v.is<T>() || !attempt([&] { (void)v.as<T>(); }).threw || !attempt([&] { (void)by_name<T>(v); }).threw || !attempt([&] { (void)static_cast<T>(v); }).threw) {
            vf::violation(std::string("read-as-number:") + name, v.dumps(), v.dumps());
        }
    };
    no(int {}, "int");
    no(unsigned {}, "unsigned");
    no(long {}, "long");
    no(0ul, "unsigned-long");
    no(0ll, "long-long");
    no(0ull, "unsigned-long-long");
    no(0.f, "float");
    no(0.0, "double");
    no(0.0l, "long-double");
}
