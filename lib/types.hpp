// types.hpp - for every kind of supported C++ type: how its data is generated, which JSON it corresponds to
// (shaped: made from the data; agrees: data made from the JSON), and which JSON converts to it (fits).
#pragma once

#include "num.hpp"
#include "traits.hpp"

#include <deque>
#include <filesystem>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>

namespace types
{
using ref::MV;
using vf::Rng;

enum Tri
{
    No = 0,
    Maybe = 1, // left open by the property
    Yes = 2
};

inline Tri both(Tri a, Tri b) { return std::min(a, b); }

inline Tri either(Tri a, Tri b) { return std::max(a, b); }

inline Tri tri(bool b) { return b ? Yes : No; }

template <typename T, typename = void>
struct Desc;

// std::is_copy_constructible says yes for a std::vector of what cannot be copied
template <typename T>
inline constexpr bool copyable = std::is_copy_constructible_v<T>;
template <typename T>
inline constexpr bool copyable<std::unique_ptr<T>> = false;
template <template <typename...> typename C, typename... A>
inline constexpr bool copyable<C<A...>> = std::is_copy_constructible_v<C<A...>> && (copyable<A> && ...);

// ---------------------------------------------------------------- scalars
template <>
struct Desc<bool>
{
    static bool gen(Rng& g, unsigned) { return g.chance(1, 2); }
    static bool clone(bool x) { return x; }
    static Tri fits(const MV& m) { return tri(m.k == MV::Bool); }
    static bool shaped(bool x, const MV& m) { return m.k == MV::Bool && m.b == x; }
    static bool agrees(bool x, const MV& m) { return shaped(x, m); }
    static bool eq(bool a, bool b) { return a == b; }
    static MV some(Rng& g, unsigned) { return MV::boolean(g.chance(1, 2)); }
};

template <typename T>
struct Desc<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
    static T gen(Rng& g, unsigned)
    {
        switch (g.below(5)) {
        case 0:
            return std::numeric_limits<T>::max();
        case 1:
            return std::numeric_limits<T>::min();
        case 2:
            return static_cast<T>(g.next());
        default:
            return static_cast<T>(g.below(100));
        }
    }

    static T clone(T x) { return x; }

    static Tri fits(const MV& m)
    {
        num::i128 x = 0;
        if (m.k != MV::Num || !num::plain_integer(m.s) || !num::to_i128(m.s, x)) {
            return No;
        }
        if (m.s == "-0" && std::is_unsigned_v<T>) {
            return Maybe;
        }
        return tri(x >= static_cast<num::i128>(std::numeric_limits<T>::min()) && x <= static_cast<num::i128>(std::numeric_limits<T>::max()));
    }

    static bool shaped(T x, const MV& m) { return m.k == MV::Num && m.s == num::dec(static_cast<num::i128>(x)); }

    static bool agrees(T x, const MV& m)
    {
        num::i128 y = 0;
        return m.k == MV::Num && num::plain_integer(m.s) && num::to_i128(m.s, y) && y == static_cast<num::i128>(x);
    }

    static bool eq(T a, T b) { return a == b; }

    static MV some(Rng& g, unsigned d) { return MV::num(num::dec(static_cast<num::i128>(gen(g, d)))); }
};

template <typename T>
struct Desc<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    static T gen(Rng& g, unsigned)
    {
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
        if (g.chance(1, 2)) {
            return num::gen_floating<T>(g);
        }
#endif
        return static_cast<T>(static_cast<int64_t>(g.below(200000)) - 100000) / 64; // six decimals are enough
    }

    static T clone(T x) { return x; }

    static Tri fits(const MV& m)
    {
        if (m.k != MV::Num) {
            return No;
        }
        const T want = num::nearest<T>(m.s);
        if (!std::isfinite(want)) {
            return No;
        }
        return want != 0 || num::zero(m.s) ? Yes : Maybe;
    }

    static bool shaped(T x, const MV& m) { return m.k == MV::Num && num::same(num::nearest<T>(m.s), x); }

    static bool agrees(T x, const MV& m) { return shaped(x, m); }

    static bool eq(T a, T b) { return num::same(a, b); }

    static MV some(Rng& g, unsigned d)
    {
        return MV::num(g.chance(1, 3) ? ref::gen_number(g) : num::print("%.21Lg", static_cast<long double>(gen(g, d))));
    }
};

template <>
struct Desc<std::string>
{
    static std::string gen(Rng& g, unsigned) { return ref::gen_string(g, 40); }
    static std::string clone(const std::string& x) { return x; }
    static Tri fits(const MV& m) { return tri(m.k == MV::Str); }
    static bool shaped(const std::string& x, const MV& m) { return m.k == MV::Str && m.s == x; }
    static bool agrees(const std::string& x, const MV& m) { return shaped(x, m); }
    static bool eq(const std::string& a, const std::string& b) { return a == b; }
    static MV some(Rng& g, unsigned d) { return MV::str(gen(g, d)); }
};

#ifdef MEOJSON_FS_PATH_EXTENSION
template <>
struct Desc<std::filesystem::path>
{
    using P = std::filesystem::path;

    static P gen(Rng& g, unsigned)
    {
        static const char* const parts[] = { "a", "..", ".", "dir", "/", "//", "x.y", " ", "\xc3\xa4", "long name", "C:" };
        std::string s = g.chance(1, 3) ? "/" : "";
        for (size_t i = g.below(5); i > 0; --i) {
            s += g.pick(parts);
            s += g.chance(3, 4) ? "/" : "";
        }
        return P(s);
    }

    static P clone(const P& x) { return x; }
    static Tri fits(const MV& m) { return tri(m.k == MV::Str); }
    static bool shaped(const P& x, const MV& m) { return m.k == MV::Str && m.s == x.native(); }
    static bool agrees(const P& x, const MV& m) { return shaped(x, m); }
    static bool eq(const P& a, const P& b) { return a.native() == b.native(); }
    static MV some(Rng& g, unsigned d) { return MV::str(g.chance(1, 2) ? gen(g, d).native() : ref::gen_string(g, 30)); }
};
#endif

template <typename T>
struct DescNull
{
    static T gen(Rng&, unsigned) { return T {}; }
    static T clone(const T&) { return T {}; }
    static Tri fits(const MV& m) { return tri(m.k == MV::Null); }
    static bool shaped(const T&, const MV& m) { return m.k == MV::Null; }
    static bool agrees(const T&, const MV& m) { return m.k == MV::Null; }
    static bool eq(const T&, const T&) { return true; }
    static MV some(Rng&, unsigned) { return MV::null(); }
};

template <>
struct Desc<std::monostate> : DescNull<std::monostate>
{
};

template <>
struct Desc<std::nullptr_t> : DescNull<std::nullptr_t>
{
};

// ---------------------------------------------------------------- JSON types
template <>
struct Desc<json::value>
{
    static json::value gen(Rng& g, unsigned d) { return conv::build(some(g, d)); }
    static json::value clone(const json::value& x) { return conv::build(conv::to_model(x)); }
    static Tri fits(const MV&) { return Yes; }
    static bool shaped(const json::value& x, const MV& m) { return conv::differs(x, m).empty(); }
    static bool agrees(const json::value& x, const MV& m) { return shaped(x, m); }
    static bool eq(const json::value& a, const json::value& b) { return conv::to_model(a) == conv::to_model(b); }
    static MV some(Rng& g, unsigned)
    {
        size_t budget = 6;
        return ref::gen_value(g, budget, 3, false, 20);
    }
};

template <>
struct Desc<json::array>
{
    static json::array gen(Rng& g, unsigned d) { return conv::build(some(g, d)).as_array(); }
    static json::array clone(const json::array& x) { return conv::build(conv::to_model(x)).as_array(); }
    static Tri fits(const MV& m) { return tri(m.k == MV::Arr); }
    static bool shaped(const json::array& x, const MV& m) { return conv::to_model(x) == m; }
    static bool agrees(const json::array& x, const MV& m) { return shaped(x, m); }
    static bool eq(const json::array& a, const json::array& b) { return conv::to_model(a) == conv::to_model(b); }
    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::arr();
        for (size_t i = g.below(4); i > 0; --i) {
            m.a.push_back(Desc<json::value>::some(g, d));
        }
        return m;
    }
};

template <>
struct Desc<json::object>
{
    static json::object gen(Rng& g, unsigned d) { return conv::build(some(g, d)).as_object(); }
    static json::object clone(const json::object& x) { return conv::build(conv::to_model(x)).as_object(); }
    static Tri fits(const MV& m) { return tri(m.k == MV::Obj); }
    static bool shaped(const json::object& x, const MV& m) { return conv::to_model(x) == m; }
    static bool agrees(const json::object& x, const MV& m) { return shaped(x, m); }
    static bool eq(const json::object& a, const json::object& b) { return conv::to_model(a) == conv::to_model(b); }
    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::obj();
        for (size_t i = g.below(4); i > 0; --i) {
            m.o[ref::gen_string(g, 6)] = Desc<json::value>::some(g, d);
        }
        return m;
    }
};

// ---------------------------------------------------------------- sequences and sets
inline size_t how_many(Rng& g, unsigned depth)
{
    return depth >= 3 ? g.below(2) : g.chance(1, 20) ? g.below(40) : g.below(5);
}

template <typename C>
struct DescSequence
{
    using E = typename C::value_type;

    static C gen(Rng& g, unsigned d)
    {
        C c;
        for (size_t i = how_many(g, d); i > 0; --i) {
            c.push_back(Desc<E>::gen(g, d + 1));
        }
        return c;
    }

    static C clone(const C& x)
    {
        C c;
        for (const auto& e : x) {
            c.push_back(Desc<E>::clone(e));
        }
        return c;
    }

    static Tri fits(const MV& m)
    {
        Tri r = tri(m.k == MV::Arr);
        for (auto& x : m.a) {
            r = both(r, Desc<E>::fits(x));
        }
        return r;
    }

    static bool shaped(const C& x, const MV& m)
    {
        if (m.k != MV::Arr || m.a.size() != static_cast<size_t>(std::distance(x.begin(), x.end()))) {
            return false;
        }
        size_t i = 0;
        for (const auto& e : x) {
            if (!Desc<E>::shaped(e, m.a[i++])) {
                return false;
            }
        }
        return true;
    }

    static bool agrees(const C& x, const MV& m)
    {
        if (m.k != MV::Arr || m.a.size() != x.size()) {
            return false;
        }
        size_t i = 0;
        for (const auto& e : x) {
            if (!Desc<E>::agrees(e, m.a[i++])) {
                return false;
            }
        }
        return true;
    }

    static bool eq(const C& a, const C& b)
    {
        if (a.size() != b.size()) {
            return false;
        }
        auto j = b.begin();
        for (const auto& e : a) {
            if (!Desc<E>::eq(e, *j++)) {
                return false;
            }
        }
        return true;
    }

    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::arr();
        for (size_t i = how_many(g, d); i > 0; --i) {
            m.a.push_back(Desc<E>::some(g, d + 1));
        }
        return m;
    }
};

template <typename T>
struct Desc<std::vector<T>> : DescSequence<std::vector<T>>
{
};

template <typename T>
struct Desc<std::list<T>> : DescSequence<std::list<T>>
{
};

template <typename T>
struct Desc<std::deque<T>> : DescSequence<std::deque<T>>
{
};

template <typename C, bool multi>
struct DescSet
{
    using E = typename C::value_type;

    static C gen(Rng& g, unsigned d)
    {
        C c;
        for (size_t i = how_many(g, d); i > 0; --i) {
            c.insert(Desc<E>::gen(g, d + 1));
        }
        return c;
    }

    static C clone(const C& x) { return x; }

    static Tri fits(const MV& m)
    {
        Tri r = tri(m.k == MV::Arr);
        for (auto& x : m.a) {
            r = both(r, Desc<E>::fits(x));
        }
        return r;
    }

    // the elements in the order of iteration
    static bool shaped(const C& x, const MV& m)
    {
        if (m.k != MV::Arr || m.a.size() != x.size()) {
            return false;
        }
        size_t i = 0;
        for (const auto& e : x) {
            if (!Desc<E>::shaped(e, m.a[i++])) {
                return false;
            }
        }
        return true;
    }

    // every element of the one is in the other
    static bool agrees(const C& x, const MV& m)
    {
        if (m.k != MV::Arr || (multi ? m.a.size() != x.size() : m.a.size() < x.size())) {
            return false;
        }
        if constexpr (!multi && std::is_integral_v<E> && !std::is_same_v<E, bool>) {
            if (m.a.size() > 1000) { // not by comparing each with each
                std::set<num::i128> in, out(x.begin(), x.end());
                for (const MV& y : m.a) {
                    num::i128 i = 0;
                    if (y.k != MV::Num || !num::plain_integer(y.s) || !num::to_i128(y.s, i)) {
                        return false;
                    }
                    in.insert(i);
                }
                return in == out;
            }
        }
        for (const auto& e : x) {
            if (std::none_of(m.a.begin(), m.a.end(), [&](const MV& y) { return Desc<E>::agrees(e, y); })) {
                return false;
            }
        }
        for (const auto& y : m.a) {
            if (std::none_of(x.begin(), x.end(), [&](const E& e) { return Desc<E>::agrees(e, y); })) {
                return false;
            }
        }
        return true;
    }

    static bool eq(const C& a, const C& b) { return a == b; }

    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::arr();
        for (size_t i = how_many(g, d); i > 0; --i) {
            m.a.push_back(!m.a.empty() && g.chance(1, 4) ? MV(m.a[0]) : Desc<E>::some(g, d + 1));
        }
        return m;
    }
};

template <typename T>
struct Desc<std::set<T>> : DescSet<std::set<T>, false>
{
};

template <typename T>
struct Desc<std::unordered_set<T>> : DescSet<std::unordered_set<T>, false>
{
};

template <typename T>
struct Desc<std::multiset<T>> : DescSet<std::multiset<T>, true>
{
};

// ---------------------------------------------------------------- maps
template <typename C>
struct DescMap
{
    using E = typename C::mapped_type;

    static C gen(Rng& g, unsigned d)
    {
        C c;
        for (size_t i = how_many(g, d); i > 0; --i) {
            c.emplace(ref::gen_string(g, 8), Desc<E>::gen(g, d + 1));
        }
        return c;
    }

    static C clone(const C& x)
    {
        C c;
        for (const auto& [k, e] : x) {
            c.emplace(k, Desc<E>::clone(e));
        }
        return c;
    }

    static Tri fits(const MV& m)
    {
        Tri r = tri(m.k == MV::Obj);
        for (auto& [k, x] : m.o) {
            r = both(r, Desc<E>::fits(x));
        }
        return r;
    }

    static bool with(bool agree, const C& x, const MV& m)
    {
        if (m.k != MV::Obj || m.o.size() != x.size()) {
            return false;
        }
        for (const auto& [k, e] : x) {
            const auto it = m.o.find(k);
            if (it == m.o.end() || !(agree ? Desc<E>::agrees(e, it->second) : Desc<E>::shaped(e, it->second))) {
                return false;
            }
        }
        return true;
    }

    static bool shaped(const C& x, const MV& m) { return with(false, x, m); }

    static bool agrees(const C& x, const MV& m) { return with(true, x, m); }

    static bool eq(const C& a, const C& b)
    {
        if (a.size() != b.size()) {
            return false;
        }
        for (const auto& [k, e] : a) {
            const auto it = b.find(k);
            if (it == b.end() || !Desc<E>::eq(e, it->second)) {
                return false;
            }
        }
        return true;
    }

    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::obj();
        for (size_t i = how_many(g, d); i > 0; --i) {
            const std::string k = ref::gen_string(g, 8);
            m.o[k] = Desc<E>::some(g, d + 1);
        }
        return m;
    }
};

template <typename T>
struct Desc<std::map<std::string, T>> : DescMap<std::map<std::string, T>>
{
};

template <typename T>
struct Desc<std::unordered_map<std::string, T>> : DescMap<std::unordered_map<std::string, T>>
{
};

// ---------------------------------------------------------------- fixed arrays, tuples, pairs
template <typename T, size_t N>
struct Desc<std::array<T, N>>
{
    using C = std::array<T, N>;

    static C gen(Rng& g, unsigned d)
    {
        C c;
        for (size_t i = 0; i < N; ++i) {
            c[i] = Desc<T>::gen(g, d + 1);
        }
        return c;
    }

    static C clone(const C& x)
    {
        C c;
        for (size_t i = 0; i < N; ++i) {
            c[i] = Desc<T>::clone(x[i]);
        }
        return c;
    }

    static Tri fits(const MV& m)
    {
        Tri r = tri(m.k == MV::Arr && m.a.size() == N);
        for (auto& x : m.a) {
            r = both(r, Desc<T>::fits(x));
        }
        return r;
    }

    static bool with(bool agree, const C& x, const MV& m)
    {
        if (m.k != MV::Arr || m.a.size() != N) {
            return false;
        }
        for (size_t i = 0; i < N; ++i) {
            if (!(agree ? Desc<T>::agrees(x[i], m.a[i]) : Desc<T>::shaped(x[i], m.a[i]))) {
                return false;
            }
        }
        return true;
    }

    static bool shaped(const C& x, const MV& m) { return with(false, x, m); }

    static bool agrees(const C& x, const MV& m) { return with(true, x, m); }

    static bool eq(const C& a, const C& b)
    {
        for (size_t i = 0; i < N; ++i) {
            if (!Desc<T>::eq(a[i], b[i])) {
                return false;
            }
        }
        return true;
    }

    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::arr();
        for (size_t i = 0; i < N; ++i) {
            m.a.push_back(Desc<T>::some(g, d + 1));
        }
        return m;
    }
};

template <typename T>
struct DescTuple
{
    static constexpr size_t N = std::tuple_size_v<T>;
    template <size_t I>
    using E = std::decay_t<std::tuple_element_t<I, T>>;
    using All = std::make_index_sequence<N>;

    static T gen(Rng& g, unsigned d)
    {
        T t;
        gen_each(t, g, d, All {});
        return t;
    }

    template <size_t... I>
    static void gen_each([[maybe_unused]] T& t, [[maybe_unused]] Rng& g, [[maybe_unused]] unsigned d, std::index_sequence<I...>)
    {
        ((std::get<I>(t) = Desc<E<I>>::gen(g, d + 1)), ...);
    }

    static T clone(const T& x)
    {
        T t;
        clone_each(t, x, All {});
        return t;
    }

    template <size_t... I>
    static void clone_each([[maybe_unused]] T& t, [[maybe_unused]] const T& x, std::index_sequence<I...>)
    {
        ((std::get<I>(t) = Desc<E<I>>::clone(std::get<I>(x))), ...);
    }

    static Tri fits(const MV& m) { return m.k == MV::Arr && m.a.size() == N ? fits_each(m, All {}) : No; }

    template <size_t... I>
    static Tri fits_each([[maybe_unused]] const MV& m, std::index_sequence<I...>)
    {
        Tri r = Yes;
        ((r = both(r, Desc<E<I>>::fits(m.a[I]))), ...);
        return r;
    }

    static bool shaped(const T& x, const MV& m) { return m.k == MV::Arr && m.a.size() == N && shaped_each(x, m, All {}); }

    template <size_t... I>
    static bool shaped_each([[maybe_unused]] const T& x, [[maybe_unused]] const MV& m, std::index_sequence<I...>)
    {
        return (Desc<E<I>>::shaped(std::get<I>(x), m.a[I]) && ...);
    }

    static bool agrees(const T& x, const MV& m) { return m.k == MV::Arr && m.a.size() == N && agrees_each(x, m, All {}); }

    template <size_t... I>
    static bool agrees_each([[maybe_unused]] const T& x, [[maybe_unused]] const MV& m, std::index_sequence<I...>)
    {
        return (Desc<E<I>>::agrees(std::get<I>(x), m.a[I]) && ...);
    }

    static bool eq(const T& a, const T& b) { return eq_each(a, b, All {}); }

    template <size_t... I>
    static bool eq_each([[maybe_unused]] const T& a, [[maybe_unused]] const T& b, std::index_sequence<I...>)
    {
        return (Desc<E<I>>::eq(std::get<I>(a), std::get<I>(b)) && ...);
    }

    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::arr();
        some_each(m, g, d, All {});
        return m;
    }

    template <size_t... I>
    static void some_each([[maybe_unused]] MV& m, [[maybe_unused]] Rng& g, [[maybe_unused]] unsigned d, std::index_sequence<I...>)
    {
        (m.a.push_back(Desc<E<I>>::some(g, d + 1)), ...);
    }
};

template <typename... T>
struct Desc<std::tuple<T...>> : DescTuple<std::tuple<T...>>
{
};

template <typename A, typename B>
struct Desc<std::pair<A, B>> : DescTuple<std::pair<A, B>>
{
};

// ---------------------------------------------------------------- nullable wrappers
template <typename W, typename T>
struct DescNullable
{
    static W gen(Rng& g, unsigned d) { return g.chance(1, 3) ? W() : wrap(Desc<T>::gen(g, d + 1)); }

    static W wrap(T x)
    {
        if constexpr (std::is_same_v<W, std::optional<T>>) {
            return W(std::move(x));
        }
        else {
            return W(new T(std::move(x)));
        }
    }

    static W clone(const W& x) { return x ? wrap(Desc<T>::clone(*x)) : W(); }

    static Tri fits(const MV& m) { return either(tri(m.k == MV::Null), Desc<T>::fits(m)); }

    static bool shaped(const W& x, const MV& m) { return x ? Desc<T>::shaped(*x, m) : m.k == MV::Null; }

    static bool agrees(const W& x, const MV& m) { return m.k == MV::Null ? !x : x && Desc<T>::agrees(*x, m); }

    static bool eq(const W& a, const W& b) { return static_cast<bool>(a) == static_cast<bool>(b) && (!a || Desc<T>::eq(*a, *b)); }

    static MV some(Rng& g, unsigned d) { return g.chance(1, 3) ? MV::null() : Desc<T>::some(g, d + 1); }
};

template <typename T>
struct Desc<std::optional<T>> : DescNullable<std::optional<T>, T>
{
};

template <typename T>
struct Desc<std::shared_ptr<T>> : DescNullable<std::shared_ptr<T>, T>
{
};

template <typename T>
struct Desc<std::unique_ptr<T>> : DescNullable<std::unique_ptr<T>, T>
{
};

// ---------------------------------------------------------------- variants: the first alternative that fits
template <typename... T>
struct Desc<std::variant<T...>>
{
    using V = std::variant<T...>;
    static constexpr size_t N = sizeof...(T);
    using All = std::make_index_sequence<N>;
    template <size_t I>
    using E = std::variant_alternative_t<I, V>;

    static V gen(Rng& g, unsigned d)
    {
        V v;
        gen_each(v, g.below(N), g, d, All {});
        return v;
    }

    template <size_t... I>
    static void gen_each(V& v, size_t i, Rng& g, unsigned d, std::index_sequence<I...>)
    {
        ((I == i ? (v.template emplace<I>(Desc<E<I>>::gen(g, d + 1)), 0) : 0), ...);
    }

    static V clone(const V& x)
    {
        V v;
        clone_each(v, x, All {});
        return v;
    }

    template <size_t... I>
    static void clone_each(V& v, const V& x, std::index_sequence<I...>)
    {
        ((I == x.index() ? (v.template emplace<I>(Desc<E<I>>::clone(std::get<I>(x))), 0) : 0), ...);
    }

    static Tri fits(const MV& m)
    {
        Tri r = No;
        ((r = either(r, Desc<T>::fits(m))), ...);
        return r;
    }

    static bool shaped(const V& x, const MV& m) { return shaped_each(x, m, All {}); }

    template <size_t... I>
    static bool shaped_each(const V& x, const MV& m, std::index_sequence<I...>)
    {
        bool r = false;
        ((I == x.index() ? (r = Desc<E<I>>::shaped(std::get<I>(x), m), 0) : 0), ...);
        return r;
    }

    static bool agrees(const V& x, const MV& m)
    {
        size_t i = 0;
        bool maybe = false, found = false;
        ((found ? 0
                : (Desc<T>::fits(m) == Maybe ? (maybe = true, 0) : 0, Desc<T>::fits(m) == Yes ? (found = true, 0) : (++i, 0))),
         ...);
        return maybe || (found && x.index() == i && agrees_each(x, m, All {}));
    }

    template <size_t... I>
    static bool agrees_each(const V& x, const MV& m, std::index_sequence<I...>)
    {
        bool r = false;
        ((I == x.index() ? (r = Desc<E<I>>::agrees(std::get<I>(x), m), 0) : 0), ...);
        return r;
    }

    static bool eq(const V& a, const V& b) { return a.index() == b.index() && eq_each(a, b, All {}); }

    template <size_t... I>
    static bool eq_each(const V& a, const V& b, std::index_sequence<I...>)
    {
        bool r = false;
        ((I == a.index() ? (r = Desc<E<I>>::eq(std::get<I>(a), std::get<I>(b)), 0) : 0), ...);
        return r;
    }

    static MV some(Rng& g, unsigned d)
    {
        MV m;
        size_t i = g.below(N);
        ((i-- == 0 ? (m = Desc<T>::some(g, d + 1), 0) : 0), ...);
        return m;
    }
};

// ---------------------------------------------------------------- enums and reflected structs
enum class Color
{
    Red,
    Green = 5,
    blue_ish = 77,
    Negative = -3
};

template <>
struct Desc<Color>
{
    static const std::vector<std::pair<Color, std::string>>& names()
    {
        static const std::vector<std::pair<Color, std::string>> n = { { Color::Red, "Red" }, { Color::Green, "Green" }, { Color::blue_ish, "blue_ish" }, { Color::Negative, "Negative" } };
        return n;
    }

    static Color gen(Rng& g, unsigned) { return g.pick(names()).first; }
    static Color clone(Color x) { return x; }

    static std::string lower(std::string s)
    {
        for (char& c : s) {
            c = c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c;
        }
        return s;
    }

    static Tri fits(const MV& m)
    {
        if (m.k == MV::Str) {
            for (auto& [e, n] : names()) {
                if (lower(n) == lower(m.s)) {
                    return Yes;
                }
            }
            return No;
        }
        return Desc<int>::fits(m);
    }

    static bool shaped(Color x, const MV& m)
    {
        for (auto& [e, n] : names()) {
            if (e == x) {
                return m.k == MV::Str && m.s == n;
            }
        }
        return false;
    }

    static bool agrees(Color x, const MV& m)
    {
        if (m.k == MV::Num) {
            return Desc<int>::agrees(static_cast<int>(x), m);
        }
        for (auto& [e, n] : names()) {
            if (e == x) {
                return m.k == MV::Str && lower(m.s) == lower(n);
            }
        }
        return false;
    }

    static bool eq(Color a, Color b) { return a == b; }

    static MV some(Rng& g, unsigned)
    {
        std::string s = g.pick(names()).second;
        switch (g.below(4)) {
        case 0:
            return MV::num(std::to_string(static_cast<int>(g.below(100)) - 10));
        case 1:
            for (char& c : s) {
                c = g.chance(1, 2) ? static_cast<char>(std::toupper(c)) : static_cast<char>(std::tolower(c));
            }
            break;
        default:
            break;
        }
        return MV::str(s);
    }
};

struct Point
{
    int x = 1;
    double y = 2.5;
    std::string label = "none";
    std::vector<int> list;

    MEO_JSONIZATION(x, MEO_OPT y, MEO_KEY("la bel") label, MEO_OPT MEO_KEY("l") list);
};

template <>
struct Desc<Point>
{
    static Point gen(Rng& g, unsigned d)
    {
        Point p;
        p.x = Desc<int>::gen(g, d);
        p.y = Desc<double>::gen(g, d);
        p.label = Desc<std::string>::gen(g, d);
        p.list = Desc<std::vector<int>>::gen(g, d + 1);
        return p;
    }

    static Point clone(const Point& p) { return p; }

    static Tri field(Tri (*f)(const MV&), const MV& m, const char* key, bool opt)
    {
        const auto it = m.o.find(key);
        return it == m.o.end() ? tri(opt) : f(it->second);
    }

    static Tri fits(const MV& m)
    {
        if (m.k != MV::Obj) {
            return No; // a required field is missing
        }
        return both(
            both(field(Desc<int>::fits, m, "x", false), field(Desc<double>::fits, m, "y", true)),
            both(field(Desc<std::string>::fits, m, "la bel", false), field(Desc<std::vector<int>>::fits, m, "l", true)));
    }

    static bool shaped(const Point& p, const MV& m)
    {
        return m.k == MV::Obj && m.o.size() == 4 && m.o.count("x") && m.o.count("y") && m.o.count("la bel") && m.o.count("l") && Desc<int>::shaped(p.x, m.o.at("x"))
               && Desc<double>::shaped(p.y, m.o.at("y")) && Desc<std::string>::shaped(p.label, m.o.at("la bel"))
               && Desc<std::vector<int>>::shaped(p.list, m.o.at("l"));
    }

    static bool agrees(const Point& p, const MV& m)
    {
        return m.k == MV::Obj && m.o.count("x") && m.o.count("la bel") && Desc<int>::agrees(p.x, m.o.at("x"))
               && (m.o.count("y") ? Desc<double>::agrees(p.y, m.o.at("y")) : p.y == 2.5) && Desc<std::string>::agrees(p.label, m.o.at("la bel"))
               && (m.o.count("l") ? Desc<std::vector<int>>::agrees(p.list, m.o.at("l")) : p.list.empty());
    }

    static bool eq(const Point& a, const Point& b) { return a.x == b.x && num::same(a.y, b.y) && a.label == b.label && a.list == b.list; }

    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::obj();
        m.o["x"] = Desc<int>::some(g, d + 1);
        m.o["la bel"] = Desc<std::string>::some(g, d + 1);
        if (g.chance(1, 2)) {
            m.o["y"] = Desc<double>::some(g, d + 1);
        }
        if (g.chance(1, 2)) {
            m.o["l"] = Desc<std::vector<int>>::some(g, d + 1);
        }
        if (g.chance(1, 3)) {
            m.o[ref::gen_string(g, 4)] = MV::null();
        }
        return m;
    }
};

// a struct of structs
struct Shape
{
    Point origin;
    std::vector<Point> points;
    std::optional<Color> color;
    std::map<std::string, std::shared_ptr<Point>> named;

    MEO_JSONIZATION(origin, points, MEO_OPT color, MEO_OPT named);
};

template <>
struct Desc<Shape>
{
    using Named = std::map<std::string, std::shared_ptr<Point>>;

    static Shape gen(Rng& g, unsigned d)
    {
        Shape s;
        s.origin = Desc<Point>::gen(g, d + 1);
        s.points = Desc<std::vector<Point>>::gen(g, d + 1);
        s.color = Desc<std::optional<Color>>::gen(g, d + 1);
        s.named = Desc<Named>::gen(g, d + 1);
        return s;
    }

    static Shape clone(const Shape& s)
    {
        Shape r = s;
        r.named = Desc<Named>::clone(s.named);
        return r;
    }

    static Tri fits(const MV& m)
    {
        if (m.k != MV::Obj) {
            return No;
        }
        return both(
            both(Desc<Point>::field(Desc<Point>::fits, m, "origin", false), Desc<Point>::field(Desc<std::vector<Point>>::fits, m, "points", false)),
            both(Desc<Point>::field(Desc<std::optional<Color>>::fits, m, "color", true), Desc<Point>::field(Desc<Named>::fits, m, "named", true)));
    }

    static bool shaped(const Shape& s, const MV& m)
    {
        return m.k == MV::Obj && m.o.size() == 4 && m.o.count("origin") && m.o.count("points") && m.o.count("color") && m.o.count("named")
               && Desc<Point>::shaped(s.origin, m.o.at("origin")) && Desc<std::vector<Point>>::shaped(s.points, m.o.at("points"))
               && Desc<std::optional<Color>>::shaped(s.color, m.o.at("color")) && Desc<Named>::shaped(s.named, m.o.at("named"));
    }

    static bool agrees(const Shape& s, const MV& m)
    {
        return m.k == MV::Obj && m.o.count("origin") && m.o.count("points") && Desc<Point>::agrees(s.origin, m.o.at("origin"))
               && Desc<std::vector<Point>>::agrees(s.points, m.o.at("points"))
               && (m.o.count("color") ? Desc<std::optional<Color>>::agrees(s.color, m.o.at("color")) : !s.color)
               && (m.o.count("named") ? Desc<Named>::agrees(s.named, m.o.at("named")) : s.named.empty());
    }

    static bool eq(const Shape& a, const Shape& b)
    {
        return Desc<Point>::eq(a.origin, b.origin) && Desc<std::vector<Point>>::eq(a.points, b.points) && a.color == b.color && Desc<Named>::eq(a.named, b.named);
    }

    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::obj();
        m.o["origin"] = Desc<Point>::some(g, d + 1);
        m.o["points"] = Desc<std::vector<Point>>::some(g, d + 1);
        if (g.chance(1, 2)) {
            m.o["color"] = Desc<std::optional<Color>>::some(g, d + 1);
        }
        if (g.chance(1, 2)) {
            m.o["named"] = Desc<Named>::some(g, d + 1);
        }
        return m;
    }
};
} // namespace types

#if defined(VF_GROUP) && VF_GROUP >= 7
#include "user.hpp"
#endif

// the types under test, in groups that are compiled one by one
#define TYPE(id, ...)                                           \
    struct id                                                   \
    {                                                           \
        using type = __VA_ARGS__;                               \
        static const char* name() { return #__VA_ARGS__; }      \
    };

namespace types
{
namespace list
{
using std::array;
using std::deque;
using std::list;
using std::map;
using std::monostate;
using std::multiset;
using std::optional;
using std::pair;
using std::set;
using std::shared_ptr;
using std::string;
using std::tuple;
using std::unique_ptr;
using std::unordered_map;
using std::unordered_set;
using std::variant;
using std::vector;

#if VF_GROUP == 0 // scalars, JSON types, enums, structs
TYPE(T0, bool)
TYPE(T1, int)
TYPE(T2, unsigned)
TYPE(T3, long)
TYPE(T4, unsigned long)
TYPE(T5, long long)
TYPE(T6, unsigned long long)
TYPE(T7, float)
TYPE(T8, double)
TYPE(T9, long double)
TYPE(T10, string)
TYPE(T11, monostate)
TYPE(T12, std::nullptr_t)
TYPE(T13, json::value)
TYPE(T14, json::array)
TYPE(T15, json::object)
TYPE(T16, Color)
TYPE(T17, Point)
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16, T17
#elif VF_GROUP == 1 // sequences and sets
TYPE(T0, vector<int>)
TYPE(T1, list<string>)
TYPE(T2, deque<double>)
TYPE(T3, set<string>)
TYPE(T4, unordered_set<int>)
TYPE(T5, multiset<unsigned>)
TYPE(T6, vector<json::value>)
TYPE(T7, vector<json::object>)
TYPE(T8, vector<Color>)
TYPE(T9, vector<vector<string>>)
TYPE(T10, list<deque<list<long long>>>)
TYPE(T11, vector<set<int>>)
TYPE(T12, set<vector<int>>)
TYPE(T13, deque<bool>)
TYPE(T14, vector<float>)
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14
#elif VF_GROUP == 2 // maps and fixed arrays
TYPE(T0, map<string, int>)
TYPE(T1, unordered_map<string, string>)
TYPE(T2, map<string, json::value>)
TYPE(T3, map<string, json::array>)
TYPE(T4, map<string, map<string, bool>>)
TYPE(T5, unordered_map<string, vector<double>>)
TYPE(T6, map<string, Color>)
TYPE(T7, vector<map<string, int>>)
TYPE(T8, array<int, 3>)
TYPE(T9, array<string, 1>)
TYPE(T10, array<double, 0>)
TYPE(T11, array<array<int, 2>, 2>)
TYPE(T12, vector<array<string, 2>>)
TYPE(T13, map<string, array<json::value, 2>>)
TYPE(T14, array<map<string, unsigned>, 2>)
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14
#elif VF_GROUP == 3 // tuples and pairs
TYPE(T0, tuple<int>)
TYPE(T1, tuple<int, string>)
TYPE(T2, tuple<bool, double, string, vector<int>>)
TYPE(T3, pair<string, int>)
TYPE(T4, pair<vector<string>, map<string, int>>)
TYPE(T5, tuple<>)
TYPE(T6, tuple<tuple<int, int>, pair<int, int>>)
TYPE(T7, vector<tuple<int, string>>)
TYPE(T8, map<string, pair<int, string>>)
TYPE(T9, tuple<json::value, json::array, json::object>)
TYPE(T10, pair<Color, array<int, 2>>)
TYPE(T11, tuple<string>)
TYPE(T12, tuple<vector<int>>)
TYPE(T13, tuple<tuple<tuple<bool>>>)
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13
#elif VF_GROUP == 4 // nullable wrappers
TYPE(T0, optional<int>)
TYPE(T1, optional<string>)
TYPE(T2, shared_ptr<double>)
TYPE(T3, unique_ptr<string>)
TYPE(T4, optional<vector<int>>)
TYPE(T5, vector<optional<int>>)
TYPE(T6, vector<unique_ptr<int>>)
TYPE(T7, map<string, shared_ptr<vector<string>>>)
TYPE(T8, optional<map<string, int>>)
TYPE(T9, optional<json::object>)
TYPE(T10, unique_ptr<vector<unique_ptr<string>>>)
TYPE(T11, tuple<optional<int>, unique_ptr<string>, shared_ptr<bool>>)
TYPE(T12, optional<Color>)
TYPE(T13, optional<pair<int, string>>)
TYPE(T14, array<optional<string>, 2>)
TYPE(T15, shared_ptr<json::value>)
TYPE(T16, optional<bool>)
TYPE(T17, optional<tuple<int>>)
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16, T17
#elif VF_GROUP == 5 // variants
TYPE(T0, variant<int, string>)
TYPE(T1, variant<monostate, int, string, bool>)
TYPE(T2, variant<vector<int>, map<string, int>>)
TYPE(T3, variant<int, double, string>)
TYPE(T4, vector<variant<int, string, vector<int>>>)
TYPE(T5, map<string, variant<bool, double, json::array, json::object>>)
TYPE(T6, variant<vector<int>, vector<string>, tuple<int, string>>)
TYPE(T7, optional<variant<int, string>>)
TYPE(T8, variant<Color, string>)
TYPE(T9, tuple<variant<int, bool>, variant<string, monostate>>)
TYPE(T10, variant<variant<int, bool>, string>)
TYPE(T11, variant<Point, vector<Point>, string>)
TYPE(T12, variant<unsigned, int, float, double>)
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12
#elif VF_GROUP == 6 // structs, paths, and mixtures
TYPE(T0, vector<Point>)
TYPE(T1, map<string, Point>)
TYPE(T2, optional<Point>)
TYPE(T3, Shape)
TYPE(T4, vector<Shape>)
TYPE(T5, tuple<Point, Color, string>)
TYPE(T6, map<string, vector<tuple<optional<int>, variant<string, bool>, array<double, 2>>>>)
TYPE(T7, unique_ptr<Shape>)
TYPE(T8, unordered_map<string, unordered_map<string, list<set<string>>>>)
TYPE(T9, pair<Point, optional<Shape>>)
TYPE(T10, array<Point, 2>)
#ifdef MEOJSON_FS_PATH_EXTENSION
TYPE(T11, std::filesystem::path)
TYPE(T12, vector<std::filesystem::path>)
TYPE(T13, map<string, optional<std::filesystem::path>>)
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13
#else
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10
#endif
#elif VF_GROUP == 7 // conversions of the user's own, alone
TYPE(T0, user::Member)
TYPE(T1, user::Spec)
TYPE(T2, user::Mover)
TYPE(T3, user::Vec)
TYPE(T4, user::Map)
TYPE(T5, user::Text)
TYPE(T6, user::Seconds)
TYPE(T7, user::Complex)
TYPE(T8, user::Tags)
TYPE(T9, user::TagMap)
TYPE(T10, user::TagPair)
TYPE(T11, user::TagTuple)
TYPE(T12, user::TagArray)
TYPE(T13, user::MaybeTag)
TYPE(T14, user::TagOr)
TYPE(T15, user::TagPtr)
TYPE(T16, user::IntSet)
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16
#elif VF_GROUP == 8 // and in others
TYPE(T0, vector<user::Member>)
TYPE(T1, list<user::Spec>)
TYPE(T2, deque<user::Mover>)
TYPE(T3, set<user::Spec>)
TYPE(T4, map<string, user::Mover>)
TYPE(T5, unordered_map<string, user::Member>)
TYPE(T6, array<user::Vec, 2>)
TYPE(T7, tuple<user::Member, user::Spec, user::Mover, int>)
TYPE(T8, pair<user::Map, user::Text>)
TYPE(T9, optional<user::Member>)
TYPE(T10, shared_ptr<user::Mover>)
TYPE(T11, unique_ptr<user::Spec>)
TYPE(T12, variant<int, user::Member, user::Spec>)
TYPE(T13, variant<user::Mover, string>)
TYPE(T14, map<string, vector<optional<user::Mover>>>)
TYPE(T15, vector<user::Tags>)
TYPE(T16, map<string, user::TagPair>)
TYPE(T17, tuple<user::MaybeTag, user::TagPtr, user::TagOr>)
TYPE(T18, optional<user::MaybeTag>)
TYPE(T19, vector<vector<user::Complex>>)
TYPE(T20, user::Both)
TYPE(T21, vector<user::Both>)
TYPE(T22, array<user::Mover, 3>)
TYPE(T23, vector<user::Text>)
TYPE(T24, map<string, user::IntSet>)
TYPE(T25, unique_ptr<vector<unique_ptr<user::Mover>>>)
#define VF_TYPES T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16, T17, T18, T19, T20, T21, T22, T23, T24, T25
#endif
}

// body.template operator()<T>(name) for the type with this number
template <typename B, typename... L>
void pick_type(vf::u64 n, B&& body, std::tuple<L...>*)
{
    vf::u64 i = 0;
    ((i++ == n % sizeof...(L) ? (body(static_cast<typename L::type*>(nullptr), L::name()), 0) : 0), ...);
}

template <typename B>
void with_type(vf::u64 n, B&& body)
{
    using namespace list;
    pick_type(n, body, static_cast<std::tuple<VF_TYPES>*>(nullptr));
}
} // namespace types
