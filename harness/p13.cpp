// P13: enum reflection is a faithful, case-insensitive name mapping. The enums are generated (gen/enums.py).
#include "types.hpp"

using namespace types;

namespace
{
constexpr Tri Open = Maybe;

template <typename E>
struct Enumerator
{
    E e;
    const char* name;
    Tri reflected; // Maybe: left open
};

} // namespace

// not in a namespace, unless they say so
#include "generated.inc"

namespace
{

std::string lower(std::string s)
{
    for (char& c : s) {
        if (c >= 'A' && c <= 'Z') {
            c = static_cast<char>(c - 'A' + 'a');
        }
    }
    return s;
}

template <typename I>
struct Judge
{
    using E = typename I::E;
    using U = std::underlying_type_t<E>;
    const std::vector<Enumerator<E>>& all = I::list();

    void report(const char* key, const std::string& what) { vf::violation(std::string(key) + ":" + I::name(), std::string(I::name()) + ": " + what, what); }

    static std::string num_of(E e) { return num::dec(static_cast<num::i128>(static_cast<U>(e))); }

    MV expected(const Enumerator<E>& x)
    {
#ifdef MEOJSON_ENUM_AS_NUMBER
        return MV::num(num_of(x.e));
#else
        return MV::str(x.name);
#endif
    }

    void expect_value(const char* route, const json::value& v, const MV& m, const Enumerator<E>& x)
    {
        VF_COUNT("conversions");
        if (conv::to_model(v) != m) {
            report("wrong-name", std::string(route) + " of " + std::string(x.name) + " is " + vf::printable(v.dumps()) + " instead of " + vf::printable(ref::dump(m)));
        }
    }

    void expect_enum(const char* route, std::function<E()> f, E e, const std::string& what)
    {
        VF_COUNT("conversions");
        try {
            if (const E got = f(); got != e) {
                report("wrong-enumerator", std::string(route) + " of " + vf::printable(what) + " is " + num_of(got));
            }
        }
        catch (...) {
            report("refused", std::string(route) + " of " + vf::printable(what) + ": " + vf::what_of_current_exception());
        }
    }

    void enumerator(const Enumerator<E>& x)
    {
        vf::input(x.name);
        VF_COUNT("evaluations");
        vf::distinct(vf::hash_bytes(x.name, vf::hash_bytes(I::name())));
#ifndef MEOJSON_ENUM_AS_NUMBER
        if (x.reflected == Maybe) {
            try {
                const json::value v(x.e);
                expect_value("value", v, MV::str(x.name), x);
                expect_enum("as<E>()", [&] { return v.as<E>(); }, x.e, x.name);
            }
            catch (const json::exception&) {
            }
            return;
        }
        if (x.reflected == No) {
            refused_value(x.e);
            // but its number can be read
            expect_enum("as<E>() of the number", [&] { return json::value(static_cast<U>(x.e)).template as<E>(); }, x.e, num_of(x.e));
            strings_of(x.name, 60);
            return;
        }
#endif
        VF_COUNT("enumerators");
        const MV m = expected(x);
        E e = x.e;
        const json::value v(x.e);
        expect_value("value", v, m, x);
        expect_value("value of an lvalue", json::value(e), m, x);
        json::value w;
        w = e;
        expect_value("assignment", w, m, x);
        expect_value("array", json::array { e, 1 }, MV::arr({ m, MV::num("1") }), x);
        expect_value("object", json::object { { "k", e } }, MV::obj({ { "k", m } }), x);
        expect_value("vector", json::value(std::vector<E> { e, e }), MV::arr({ m, m }), x);
        expect_value("map", json::value(std::map<std::string, E> { { "k", e } }), MV::obj({ { "k", m } }), x);
        expect_value("optional", json::value(std::optional<E>(e)), m, x);
        expect_value("tuple", json::value(std::make_tuple(e, 1)), MV::arr({ m, MV::num("1") }), x);
        expect_value("variant", json::value(std::variant<bool, E>(e)), m, x);
        expect_value("array<E, 1>", json::value(std::array<E, 1> { e }), MV::arr({ m }), x);
        json::array a;
        a.emplace_back(e);
        a.push_back(e);
        expect_value("emplace_back", a, MV::arr({ m, m }), x);
        if (!v.is<E>()) {
            report("is", "is<E>() of " + vf::printable(v.dumps()));
        }
        expect_enum("as<E>()", [&] { return v.as<E>(); }, e, x.name);
        expect_enum("as<E>() of an rvalue", [&] { return json::value(e).template as<E>(); }, e, x.name);
        expect_enum("cast", [&] { return static_cast<E>(v); }, e, x.name);
        expect_enum("parsed", [&] { return json::parse(json::array { e }.dumps()).value()[0].template as<E>(); }, e, x.name);
        expect_enum("array element", [&] { return a.at(1).template as<E>(); }, e, x.name);
        expect_enum("vector element", [&] { return json::value(a).template as<std::vector<E>>().at(1); }, e, x.name);
        expect_enum("map element", [&] { return json::object { { "k", e } }.template as<std::map<std::string, E>>().at("k"); }, e, x.name);
        expect_enum("find<E>()", [&] { return json::object { { "k", e } }.template find<E>("k").value(); }, e, x.name);
        expect_enum("get()", [&] { return json::object { { "k", e } }.get("k", static_cast<E>(all[0].e)); }, e, x.name);
        expect_enum("number", [&] { return json::value(static_cast<U>(e)).template as<E>(); }, e, num_of(e));
        if (!json::value(static_cast<U>(e)).template is<E>()) {
            report("is", "is<E>() of " + num_of(e));
        }
        strings_of(x.name, vf::ctx().thorough ? 2000 : 160);
    }

    // strings: exactly the names, but for ASCII case
    void string(const std::string& s)
    {
        vf::input(s);
        VF_COUNT("strings");
        const Enumerator<E>* exact = nullptr;
        std::vector<const Enumerator<E>*> folded;
        for (auto& x : all) {
            if (x.reflected == Maybe && lower(x.name) == lower(s)) {
                return;
            }
            if (x.reflected == Yes) {
                if (s == x.name) {
                    exact = &x;
                }
                if (lower(x.name) == lower(s)) {
                    folded.push_back(&x);
                }
            }
        }
        if (I::marked && (lower(s) == "_meojson_enum_min" || lower(s) == "_meojson_enum_max")) {
            return; // the marks themselves
        }
        const json::value v(s);
        const bool is = v.is<E>();
        bool ok = false;
        auto one = [&](const char* route, auto&& f) {
            try {
                const E e = f();
                ok = true;
                if (exact ? e != exact->e : std::none_of(folded.begin(), folded.end(), [&](auto* x) { return x->e == e; })) {
                    report(folded.empty() ? "accepted" : "wrong-enumerator", std::string(route) + " of " + vf::printable(s) + " is " + num_of(e));
                }
            }
            catch (const json::exception&) {
                ok = false;
                if (!folded.empty()) {
                    report("refused", std::string(route) + " of " + vf::printable(s) + " is refused");
                }
            }
            catch (...) {
                report("throws", std::string(route) + " of " + vf::printable(s) + ": " + vf::what_of_current_exception());
            }
            if (is != ok) {
                report("is", "is<E>() of " + vf::printable(s) + " is " + (is ? "true" : "false") + " but " + route + (ok ? " succeeds" : " fails"));
            }
        };
        one("as<E>()", [&] { return v.as<E>(); });
        one("cast", [&] { return static_cast<E>(v); });
        if (!folded.empty()) {
            VF_COUNT("strings matched");
            one("rvalue", [&] { return json::value(s).template as<E>(); });
            one("vector", [&] { return json::value(json::array { s }).template as<std::vector<E>>().at(0); });
        }
        else {
            VF_COUNT("strings refused");
        }
        const std::string after = v.as_string();
        if (after != s) {
            report("changed", vf::printable(s));
        }
    }

    void strings_of(const std::string& n, unsigned limit)
    {
        string(n);
        string(lower(n));
        std::string t = n;
        for (char& c : t) {
            c = static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
        }
        string(t);
        const Rng seed(vf::hash_bytes(n));
        Rng g = seed;
        for (unsigned i = 0; i < limit; ++i) {
            std::string s = n;
            switch (i % 8) {
            case 0:
            case 1: // one byte changed
                s[g.below(s.size())] = static_cast<char>(g.below(256));
                break;
            case 2: { // a bit of one byte changed: case of letters and of what is no letter
                const size_t p = g.below(s.size());
                s[p] = static_cast<char>(s[p] ^ (i & 8 ? 0x20 : 1 << g.below(8)));
                break;
            }
            case 3:
                s += static_cast<char>(g.below(256));
                break;
            case 4:
                s.insert(g.below(s.size() + 1), 1, static_cast<char>(g.pick("\0 _:aZ0\t\n")));
                break;
            case 5:
                s.erase(g.below(s.size()), 1);
                break;
            case 6:
                for (char& c : s) {
                    if (g.chance(1, 2)) {
                        c = static_cast<char>(std::isupper(static_cast<unsigned char>(c)) ? std::tolower(static_cast<unsigned char>(c)) : std::toupper(static_cast<unsigned char>(c)));
                    }
                }
                break;
            default:
                s = g.chance(1, 2) ? std::string(I::name()) + "::" + s : g.chance(1, 2) ? s + s : s.substr(0, g.below(s.size() + 1));
                break;
            }
            string(s);
        }
    }

    void number(const std::string& lit)
    {
        vf::input(lit);
        VF_COUNT("numbers");
        const json::value v(json::value::value_type::number, lit);
        num::i128 n = 0;
        bool fits = num::plain_integer(lit) && num::to_i128(lit, n) && n >= static_cast<num::i128>(std::numeric_limits<U>::min()) && n <= static_cast<num::i128>(std::numeric_limits<U>::max());
        if ((lit == "-0" && std::is_unsigned_v<U>) || (!I::fixed && (n < I::lo || n > I::hi))) {
            return;
        }
        const bool is = v.is<E>();
        if (is != fits) {
            report("is", "is<E>() of " + lit + " is " + (is ? "true" : "false"));
        }
        for (int route = 0; route < 3; ++route) {
            try {
                const E e = route == 0 ? v.as<E>() : route == 1 ? static_cast<E>(v) : json::value(v).template as<E>();
                if (!fits || static_cast<num::i128>(static_cast<U>(e)) != n) {
                    report("wrong-number", lit + " is " + num_of(e));
                }
                VF_COUNT("numbers converted");
            }
            catch (const json::exception&) {
                if (fits) {
                    report("number-refused", lit);
                }
                VF_COUNT("numbers refused");
            }
            catch (...) {
                report("throws", lit + ": " + vf::what_of_current_exception());
            }
        }
    }

    void refused_value(E e)
    {
        VF_COUNT("nameless values");
        auto one = [&](const char* route, auto&& f) {
            try {
                const json::value v = f();
                report("nameless-accepted", std::string(route) + " of " + num_of(e) + " is " + vf::printable(v.dumps()));
            }
            catch (const json::exception&) {
            }
            catch (...) {
                report("throws", std::string(route) + " of " + num_of(e) + ": " + vf::what_of_current_exception());
            }
        };
        one("value", [&] { return json::value(e); });
        one("array", [&] { return json::value(json::array { e }); });
        one("vector", [&] { return json::value(std::vector<E> { e }); });
        json::array a { 1 };
        try {
            a.emplace_back(e);
            report("nameless-accepted", "emplace_back");
        }
        catch (const json::exception&) {
        }
        if (a.size() != 1) {
            report("nameless-left", "a failed emplace_back left something");
        }
    }

    // every number near to the range, made into an enum
    void raw(long long n)
    {
        if (!I::fixed && (n < I::lo || n > I::hi)) {
            return; // no such value exists
        }
        if constexpr (std::is_unsigned_v<U>) {
            if (n < 0) {
                return;
            }
        }
        const E e = static_cast<E>(n);
        VF_COUNT("raw values");
        const Enumerator<E>* found = nullptr;
        for (auto& x : all) {
            if (x.e == e) {
                found = &x;
            }
        }
#ifdef MEOJSON_ENUM_AS_NUMBER
        (void)found;
        if (const json::value v(e); conv::to_model(v) != MV::num(num_of(e)) || v.as<E>() != e) {
            report("wrong-number", num_of(e) + " became " + v.dumps());
        }
#else
        if (found && found->reflected == Yes) {
            expect_value("raw value", json::value(e), MV::str(found->name), *found);
        }
        else if (!(I::marked && (n == I::lo || n == I::hi)) && !found) {
            refused_value(e);
        }
#endif
    }

    void others()
    {
        const MV kinds[] = { MV::null(), MV::boolean(true), MV::boolean(false), MV::arr(), MV::obj(), MV::arr({ expected(all[0]) }), MV::obj({ { all[0].name, expected(all[0]) } }) };
        for (auto& m : kinds) {
            const json::value v = conv::build(m);
            VF_COUNT("other kinds");
            bool ok = true;
            try {
                (void)v.as<E>();
            }
            catch (const json::exception&) {
                ok = false;
            }
            if (ok || v.is<E>()) {
                report("other-kind", vf::printable(ref::dump(m)) + " is accepted");
            }
        }
    }
};
}

#define RUN(I)                                                                                    \
    SECTION(I##_names, 4, 4)                                                                      \
    {                                                                                             \
        Judge<Info_##I> j;                                                                        \
        vf::sample(std::string(Info_##I::name()) + " with " + std::to_string(j.all.size()) + " enumerators"); \
        for (size_t i = idx; i < j.all.size(); i += 4) {                                          \
            j.enumerator(j.all[i]);                                                               \
        }                                                                                         \
        j.others();                                                                               \
        j.string("");                                                                             \
    }                                                                                             \
    SECTION(I##_raw, 4, 4)                                                                        \
    {                                                                                             \
        using J = Judge<Info_##I>;                                                                \
        J j;                                                                                      \
        for (long long n = -400 + static_cast<long long>(idx); n <= 400; n += 4) {                                               \
            j.raw(n);                                                                             \
            j.number(std::to_string(n));                                                          \
        }                                                                                         \
        for (long long b : { Info_##I::lo, Info_##I::hi, 2147483647LL, -2147483648LL, 4294967296LL }) { \
            for (long long d = -130 + static_cast<long long>(idx); d <= 130; d += 4) {                                          \
                if (sizeof(J::U) == 8 || (b + d >= -2147483648LL && b + d <= 2147483647LL)) {     \
                    j.raw(b + d);                                                                 \
                }                                                                                 \
                j.number(std::to_string(b + d));                                                  \
            }                                                                                     \
        }                                                                                         \
    }                                                                                             \
    SECTION(I##_random, 400, 20000)                                                               \
    {                                                                                             \
        Judge<Info_##I> j;                                                                        \
        const auto& x = j.all[rng.below(j.all.size())];                                           \
        std::string s = x.name;                                                                   \
        for (char& c : s) {                                                                       \
            if (rng.chance(1, 3)) {                                                               \
                c = static_cast<char>(c ^ 0x20);                                                  \
            }                                                                                     \
        }                                                                                         \
        VF_COUNT("evaluations");                                                                  \
        j.string(s);                                                                              \
        j.string(ref::gen_string(rng, 12));                                                       \
        const MV m = ref::gen_scalar(rng, 10);                                                    \
        if (m.k == MV::Num) {                                                                     \
            j.number(m.s);                                                                        \
        }                                                                                         \
    }

ALL(RUN)
