// user.hpp - types with conversions of their own: as members, as specialisations of json::ext::jsonization
// (with and without the moving ones), and of what would otherwise be converted as a container, wrapper,
// tuple, variant or string. Every call is recorded. The JSON of each looks like nothing the library would
// produce or accept by itself.
#pragma once

#include "types.hpp" // includes this after its own

#include <chrono>
#include <complex>

namespace user
{
using ref::MV;
using vf::Rng;

struct Calls
{
    vf::u64 to = 0, move_to = 0, check = 0, from = 0, move_from = 0;
};

inline Calls calls;

inline std::string word(Rng& g, const char* prefix)
{
    return prefix + ref::gen_plain(g, g.below(12));
}

// ------------------------------------------------ members
struct Member
{
    std::string s = "?";

    json::value to_json() const
    {
        ++calls.to;
        return json::object { { "member", s } };
    }

    static bool takes(const json::value& v) { return v.is_object() && v.as_object().size() == 1 && v.contains("member") && v.at("member").is_string() && v.at("member").as_string().size() % 2 == 0; }

    bool check_json(const json::value& v) const
    {
        ++calls.check;
        return takes(v);
    }

    bool from_json(const json::value& v)
    {
        ++calls.from;
        if (!takes(v)) {
            return false;
        }
        s = v.at("member").as_string();
        return true;
    }

    bool operator==(const Member& o) const { return s == o.s; }

    bool operator<(const Member& o) const { return s < o.s; }

    static Member gen(Rng& g)
    {
        Member x;
        x.s = word(g, "m");
        if (x.s.size() % 2) {
            x.s += "!";
        }
        return x;
    }

    MV json() const { return MV::obj({ { "member", MV::str(s) } }); }

    static std::optional<Member> read(const MV& m)
    {
        if (m.k != MV::Obj || m.o.size() != 1 || !m.o.count("member") || m.o.at("member").k != MV::Str || m.o.at("member").s.size() % 2) {
            return std::nullopt;
        }
        Member x;
        x.s = m.o.at("member").s;
        return x;
    }
};

// no string, bool, etc. reads as this
struct Spec
{
    int n = -1;

    bool operator==(const Spec& o) const { return n == o.n; }

    bool operator<(const Spec& o) const { return n < o.n; }

    static Spec gen(Rng& g)
    {
        Spec x;
        x.n = static_cast<int>(g.range(-1000, 1000));
        return x;
    }

    MV json() const { return MV::arr({ MV::str("spec"), MV::num(std::to_string(n)) }); }

    static std::optional<Spec> read(const MV& m)
    {
        if (m.k != MV::Arr || m.a.size() != 2 || m.a[0] != MV::str("spec") || types::Desc<int>::fits(m.a[1]) != types::Yes) {
            return std::nullopt;
        }
        Spec x;
        x.n = std::stoi(m.a[1].s);
        return x;
    }
};

// with the moving variants
struct Mover
{
    std::string s = "?";
    bool moved_in = false; // made by move_from_json

    bool operator==(const Mover& o) const { return s == o.s; }

    static Mover gen(Rng& g)
    {
        Mover x;
        x.s = word(g, "");
        return x;
    }

    MV json() const { return MV::str("mover:" + s); }

    static std::optional<Mover> read(const MV& m)
    {
        if (m.k != MV::Str || m.s.compare(0, 6, "mover:") != 0) {
            return std::nullopt;
        }
        Mover x;
        x.s = m.s.substr(6);
        return x;
    }
};

// containers, strings and numbers by inheritance or conversion
struct Vec : std::vector<int>
{
    using std::vector<int>::vector;

    json::value to_json() const
    {
        ++calls.to;
        std::string s;
        for (int i : *this) {
            s += std::to_string(i) + ";";
        }
        return json::object { { "vec", s } };
    }

    static std::optional<Vec> text(const std::string& s)
    {
        Vec x;
        size_t i = 0;
        while (i < s.size()) {
            const size_t e = s.find(';', i);
            const std::string t = s.substr(i, e - i);
            if (e == std::string::npos || t.empty() || t.size() > 4 || t.find_first_not_of("0123456789") != std::string::npos || (t.size() > 1 && t[0] == '0')) {
                return std::nullopt;
            }
            x.push_back(std::stoi(t));
            i = e + 1;
        }
        return x;
    }

    bool check_json(const json::value& v) const
    {
        ++calls.check;
        return v.is_object() && v.as_object().size() == 1 && v.contains("vec") && v.at("vec").is_string() && text(v.at("vec").as_string());
    }

    bool from_json(const json::value& v)
    {
        ++calls.from;
        if (!v.is_object() || v.as_object().size() != 1 || !v.contains("vec") || !v.at("vec").is_string()) {
            return false;
        }
        auto x = text(v.at("vec").as_string());
        if (x) {
            *this = *x;
        }
        return x.has_value();
    }

    static Vec gen(Rng& g)
    {
        Vec x;
        for (size_t i = g.below(4); i; --i) {
            x.push_back(static_cast<int>(g.below(1000)));
        }
        return x;
    }

    MV json() const
    {
        std::string s;
        for (int i : *this) {
            s += std::to_string(i) + ";";
        }
        return MV::obj({ { "vec", MV::str(s) } });
    }

    static std::optional<Vec> read(const MV& m)
    {
        return m.k == MV::Obj && m.o.size() == 1 && m.o.count("vec") && m.o.at("vec").k == MV::Str ? text(m.o.at("vec").s) : std::nullopt;
    }
};

struct Map : std::map<std::string, int>
{
    static Map gen(Rng& g)
    {
        Map x;
        for (size_t i = g.below(3); i; --i) {
            x[ref::gen_plain(g, 3)] = static_cast<int>(g.below(100));
        }
        return x;
    }

    MV json() const
    {
        MV m = MV::arr({ MV::str("map") });
        for (auto& [k, v] : *this) {
            m.a.push_back(MV::str(k));
            m.a.push_back(MV::num(std::to_string(v)));
        }
        return m;
    }

    static std::optional<Map> read(const MV& m)
    {
        if (m.k != MV::Arr || m.a.size() % 2 != 1 || m.a[0] != MV::str("map")) {
            return std::nullopt;
        }
        Map x;
        for (size_t i = 1; i < m.a.size(); i += 2) {
            if (m.a[i].k != MV::Str || types::Desc<int>::fits(m.a[i + 1]) != types::Yes) {
                return std::nullopt;
            }
            x[m.a[i].s] = std::stoi(m.a[i + 1].s);
        }
        return x;
    }
};

struct Text
{
    std::string s;

    Text() = default;

    operator std::string() const { return s; }

    operator int() const { return 7; }

    bool operator==(const Text& o) const { return s == o.s; }

    static Text gen(Rng& g)
    {
        Text x;
        x.s = word(g, "t");
        return x;
    }

    MV json() const { return MV::arr({ MV::arr({ MV::str(s) }) }); }

    static std::optional<Text> read(const MV& m)
    {
        if (m.k != MV::Arr || m.a.size() != 1 || m.a[0].k != MV::Arr || m.a[0].a.size() != 1 || m.a[0].a[0].k != MV::Str) {
            return std::nullopt;
        }
        Text x;
        x.s = m.a[0].a[0].s;
        return x;
    }
};

// what standard types are made of here; not convertible itself
struct Tag
{
    int id = 0;

    bool operator==(const Tag& o) const { return id == o.id; }

    bool operator<(const Tag& o) const { return id < o.id; }
};

using Seconds = std::chrono::duration<long>;
using Complex = std::complex<double>;
using Tags = std::vector<Tag>;
using TagMap = std::map<std::string, Tag>;
using TagPair = std::pair<Tag, int>;
using TagTuple = std::tuple<Tag, std::string>;
using TagArray = std::array<Tag, 2>;
using MaybeTag = std::optional<Tag>;
using TagOr = std::variant<Tag, int>;
using TagPtr = std::shared_ptr<Tag>;
using IntSet = std::set<unsigned char>; // something the library does not read by itself

// for those that cannot carry it themselves: JSON {"<name>": [numbers]}
template <typename T>
struct Numbers;

inline Tag tag(long n)
{
    Tag t;
    t.id = static_cast<int>(n);
    return t;
}

template <>
struct Numbers<Seconds>
{
    static constexpr const char* name = "seconds";

    static std::vector<long> out(const Seconds& x)
    {
        return { static_cast<long>(x.count()) };
    }

    static std::optional<Seconds> in(const std::vector<long>& n)
    {
        if (n.size() != 1) {
            return std::nullopt;
        }
        return Seconds(n[0]);
    }

    static Seconds gen(Rng& g)
    {
        return Seconds(g.range(-99, 99));
    }
};

template <>
struct Numbers<Complex>
{
    static constexpr const char* name = "complex";

    static std::vector<long> out(const Complex& x)
    {
        return { static_cast<long>(x.real()), static_cast<long>(x.imag()) };
    }

    static std::optional<Complex> in(const std::vector<long>& n)
    {
        if (n.size() != 2) {
            return std::nullopt;
        }
        return Complex(static_cast<double>(n[0]), static_cast<double>(n[1]));
    }

    static Complex gen(Rng& g)
    {
        return Complex(static_cast<double>(g.below(9)), static_cast<double>(g.below(9)));
    }
};

template <>
struct Numbers<Tags>
{
    static constexpr const char* name = "tags";

    static std::vector<long> out(const Tags& x)
    {
        std::vector<long> r;
        for (auto& t : x) {
            r.push_back(t.id);
        }
        return r;
    }

    static std::optional<Tags> in(const std::vector<long>& n)
    {
        Tags r;
        for (long i : n) {
            r.push_back(tag(i));
        }
        return r;
    }

    static Tags gen(Rng& g)
    {
        Tags r(g.below(4));
        for (auto& t : r) {
            t = tag(g.range(-9, 9));
        }
        return r;
    }
};

template <>
struct Numbers<TagMap>
{
    static constexpr const char* name = "tagmap";

    static std::vector<long> out(const TagMap& x)
    {
        std::vector<long> r;
        for (auto& [k, t] : x) {
            r.push_back(std::stol(k));
            r.push_back(t.id);
        }
        return r;
    }

    static std::optional<TagMap> in(const std::vector<long>& n)
    {
        if (n.size() % 2) {
            return std::nullopt;
        }
        TagMap r;
        for (size_t i = 0; i < n.size(); i += 2) {
            r[std::to_string(n[i])] = tag(n[i + 1]);
        }
        return r;
    }

    static TagMap gen(Rng& g)
    {
        TagMap r;
        for (size_t i = g.below(3); i; --i) {
            r[std::to_string(g.below(9))] = tag(g.range(-9, 9));
        }
        return r;
    }
};

template <>
struct Numbers<TagPair>
{
    static constexpr const char* name = "tagpair";

    static std::vector<long> out(const TagPair& x)
    {
        return { x.first.id, x.second };
    }

    static std::optional<TagPair> in(const std::vector<long>& n)
    {
        if (n.size() != 2) {
            return std::nullopt;
        }
        return TagPair(tag(n[0]), static_cast<int>(n[1]));
    }

    static TagPair gen(Rng& g)
    {
        return TagPair(tag(g.range(-9, 9)), 3);
    }
};

template <>
struct Numbers<TagTuple>
{
    static constexpr const char* name = "tagtuple";

    static std::vector<long> out(const TagTuple& x)
    {
        return { std::get<0>(x).id, static_cast<long>(std::get<1>(x).size()) };
    }

    static std::optional<TagTuple> in(const std::vector<long>& n)
    {
        if (n.size() != 2 || n[1] < 0 || n[1] > 50) {
            return std::nullopt;
        }
        return TagTuple(tag(n[0]), std::string(static_cast<size_t>(n[1]), 'x'));
    }

    static TagTuple gen(Rng& g)
    {
        return TagTuple(tag(g.range(-9, 9)), std::string(g.below(40), 'x'));
    }
};

template <>
struct Numbers<TagArray>
{
    static constexpr const char* name = "tagarray";

    static std::vector<long> out(const TagArray& x)
    {
        return { x[0].id, x[1].id };
    }

    static std::optional<TagArray> in(const std::vector<long>& n)
    {
        if (n.size() != 2) {
            return std::nullopt;
        }
        return TagArray { tag(n[0]), tag(n[1]) };
    }

    static TagArray gen(Rng& g)
    {
        return TagArray { tag(g.range(-9, 9)), tag(g.range(-9, 9)) };
    }
};

template <>
struct Numbers<MaybeTag>
{
    static constexpr const char* name = "maybetag";

    static std::vector<long> out(const MaybeTag& x)
    {
        if (!x) {
            return {};
        }
        return { x->id };
    }

    static std::optional<MaybeTag> in(const std::vector<long>& n)
    {
        if (n.size() > 1) {
            return std::nullopt;
        }
        return n.empty() ? std::make_optional(MaybeTag()) : std::make_optional(MaybeTag(tag(n[0])));
    }

    static MaybeTag gen(Rng& g)
    {
        return g.chance(1, 3) ? MaybeTag() : MaybeTag(tag(g.range(-9, 9)));
    }
};

template <>
struct Numbers<TagOr>
{
    static constexpr const char* name = "tagor";

    static std::vector<long> out(const TagOr& x)
    {
        if (x.index()) {
            return { 1, std::get<1>(x) };
        }
        return { 0, std::get<0>(x).id };
    }

    static std::optional<TagOr> in(const std::vector<long>& n)
    {
        if (n.size() != 2 || n[0] < 0 || n[0] > 1) {
            return std::nullopt;
        }
        return n[0] ? TagOr(static_cast<int>(n[1])) : TagOr(tag(n[1]));
    }

    static TagOr gen(Rng& g)
    {
        return g.chance(1, 2) ? TagOr(5) : TagOr(tag(g.range(-9, 9)));
    }
};

template <>
struct Numbers<TagPtr>
{
    static constexpr const char* name = "tagptr";

    static std::vector<long> out(const TagPtr& x)
    {
        if (!x) {
            return {};
        }
        return { x->id };
    }

    static std::optional<TagPtr> in(const std::vector<long>& n)
    {
        if (n.size() > 1) {
            return std::nullopt;
        }
        return n.empty() ? TagPtr() : std::make_shared<Tag>(tag(n[0]));
    }

    static TagPtr gen(Rng& g)
    {
        return g.chance(1, 3) ? TagPtr() : std::make_shared<Tag>(tag(g.range(-9, 9)));
    }
};

template <>
struct Numbers<IntSet>
{
    static constexpr const char* name = "intset";

    static std::vector<long> out(const IntSet& x)
    {
        return std::vector<long>(x.begin(), x.end());
    }

    static std::optional<IntSet> in(const std::vector<long>& n)
    {
        IntSet r;
        for (long i : n) {
            if (i < 0 || i > 255 || !r.insert(static_cast<unsigned char>(i)).second) {
                return std::nullopt;
            }
        }
        return r;
    }

    static IntSet gen(Rng& g)
    {
        IntSet r;
        for (size_t i = g.below(4); i; --i) {
            r.insert(static_cast<unsigned char>(g.below(256)));
        }
        return r;
    }
};

template <typename T>
MV numbers_json(const T& x)
{
    MV m = MV::arr();
    for (long i : Numbers<T>::out(x)) {
        m.a.push_back(MV::num(std::to_string(i)));
    }
    return MV::obj({ { Numbers<T>::name, m } });
}

template <typename T>
std::optional<T> numbers_read(const MV& m)
{
    if (m.k != MV::Obj || m.o.size() != 1 || !m.o.count(Numbers<T>::name) || m.o.at(Numbers<T>::name).k != MV::Arr) {
        return std::nullopt;
    }
    std::vector<long> n;
    for (auto& x : m.o.at(Numbers<T>::name).a) {
        if (types::Desc<int>::fits(x) != types::Yes) {
            return std::nullopt;
        }
        n.push_back(std::stol(x.s));
    }
    return Numbers<T>::in(n);
}

template <typename T>
std::optional<std::vector<long>> numbers_of(const json::value& v)
{
    if (!v.is_object() || v.as_object().size() != 1 || !v.contains(Numbers<T>::name) || !v.at(Numbers<T>::name).is_array()) {
        return std::nullopt;
    }
    std::vector<long> n;
    for (const json::value& x : v.at(Numbers<T>::name).as_array()) {
        if (!x.is<int>()) {
            return std::nullopt;
        }
        n.push_back(x.as_integer());
    }
    return n;
}
} // namespace user

namespace json::ext
{
template <>
class jsonization<user::Spec>
{
public:
    json::value to_json(const user::Spec& x) const
    {
        ++user::calls.to;
        return json::array { "spec", x.n };
    }

    static bool takes(const json::value& v) { return v.is_array() && v.as_array().size() == 2 && v.at(0).is_string() && v.at(0).as_string() == "spec" && v.at(1).is<int>(); }

    bool check_json(const json::value& v) const
    {
        ++user::calls.check;
        return takes(v);
    }

    bool from_json(const json::value& v, user::Spec& x) const
    {
        ++user::calls.from;
        if (!takes(v)) {
            return false;
        }
        x.n = v.at(1).as_integer();
        return true;
    }
};

template <>
class jsonization<user::Mover>
{
public:
    json::value to_json(const user::Mover& x) const
    {
        ++user::calls.to;
        return "mover:" + x.s;
    }

    json::value move_to_json(user::Mover&& x) const
    {
        ++user::calls.move_to;
        std::string s = std::move(x.s);
        x.s = "(moved)";
        return "mover:" + s;
    }

    static bool takes(const json::value& v) { return v.is_string() && v.as_string().compare(0, 6, "mover:") == 0; }

    bool check_json(const json::value& v) const
    {
        ++user::calls.check;
        return takes(v);
    }

    bool from_json(const json::value& v, user::Mover& x) const
    {
        ++user::calls.from;
        if (!takes(v)) {
            return false;
        }
        x.s = v.as_string().substr(6);
        return true;
    }

    bool move_from_json(json::value&& v, user::Mover& x) const
    {
        ++user::calls.move_from;
        if (!takes(v)) {
            return false;
        }
        x.s = v.as_string().substr(6);
        x.moved_in = true;
        v = "(moved)";
        return true;
    }
};

template <>
class jsonization<user::Map>
{
public:
    json::value to_json(const user::Map& x) const
    {
        ++user::calls.to;
        json::array a { "map" };
        for (auto& [k, v] : x) {
            a.emplace_back(k);
            a.emplace_back(v);
        }
        return a;
    }

    bool check_json(const json::value& v) const
    {
        ++user::calls.check;
        user::Map x;
        return read(v, x);
    }

    bool from_json(const json::value& v, user::Map& x) const
    {
        ++user::calls.from;
        return read(v, x);
    }

    static bool read(const json::value& v, user::Map& x)
    {
        if (!v.is_array() || v.as_array().size() % 2 != 1 || !v.at(0).is_string() || v.at(0).as_string() != "map") {
            return false;
        }
        for (size_t i = 1; i < v.as_array().size(); i += 2) {
            if (!v.at(i).is_string() || !v.at(i + 1).is<int>()) {
                return false;
            }
            x[v.at(i).as_string()] = v.at(i + 1).as_integer();
        }
        return true;
    }
};

template <>
class jsonization<user::Text>
{
public:
    json::value to_json(const user::Text& x) const
    {
        ++user::calls.to;
        return json::array { json::value(json::array { x.s }) };
    }

    static bool takes(const json::value& v) { return v.is_array() && v.as_array().size() == 1 && v.at(0).is_array() && v.at(0).as_array().size() == 1 && v.at(0).at(0).is_string(); }

    bool check_json(const json::value& v) const
    {
        ++user::calls.check;
        return takes(v);
    }

    bool from_json(const json::value& v, user::Text& x) const
    {
        ++user::calls.from;
        return takes(v) && (x.s = v.at(0).at(0).as_string(), true);
    }
};

#define NUMBERS_SPEC(T)                                                      \
    template <>                                                              \
    class jsonization<T>                                                     \
    {                                                                        \
    public:                                                                  \
        json::value to_json(const T& x) const                                \
        {                                                                    \
            ++user::calls.to;                                                \
            json::array a;                                                   \
            for (long i : user::Numbers<T>::out(x)) {                        \
                a.emplace_back(i);                                           \
            }                                                                \
            return json::object { { user::Numbers<T>::name, a } };           \
        }                                                                    \
        bool check_json(const json::value& v) const                          \
        {                                                                    \
            ++user::calls.check;                                             \
            auto n = user::numbers_of<T>(v);                                 \
            return n && user::Numbers<T>::in(*n);                            \
        }                                                                    \
        bool from_json(const json::value& v, T& x) const                     \
        {                                                                    \
            ++user::calls.from;                                              \
            auto n = user::numbers_of<T>(v);                                 \
            if (!n) {                                                        \
                return false;                                                \
            }                                                                \
            auto r = user::Numbers<T>::in(*n);                               \
            if (r) {                                                         \
                x = *r;                                                      \
            }                                                                \
            return r.has_value();                                            \
        }                                                                    \
    };

NUMBERS_SPEC(user::Seconds)
NUMBERS_SPEC(user::Complex)
NUMBERS_SPEC(user::Tags)
NUMBERS_SPEC(user::TagMap)
NUMBERS_SPEC(user::TagPair)
NUMBERS_SPEC(user::TagTuple)
NUMBERS_SPEC(user::TagArray)
NUMBERS_SPEC(user::MaybeTag)
NUMBERS_SPEC(user::TagOr)
NUMBERS_SPEC(user::TagPtr)
NUMBERS_SPEC(user::IntSet)
} // namespace json::ext

namespace types
{
#define USER_DESC(T)                                                                                                  \
    template <>                                                                                                       \
    struct Desc<T>                                                                                                    \
    {                                                                                                                 \
        static T gen(Rng& g, unsigned) { return T::gen(g); }                                                          \
        static T clone(const T& x) { return x; }                                                                      \
        static Tri fits(const MV& m) { return tri(T::read(m).has_value()); }                                          \
        static bool shaped(const T& x, const MV& m) { return x.json() == m; }                                         \
        static bool agrees(const T& x, const MV& m)                                                                   \
        {                                                                                                             \
            auto y = T::read(m);                                                                                      \
            return y && *y == x;                                                                                      \
        }                                                                                                             \
        static bool eq(const T& a, const T& b) { return a == b; }                                                     \
        static MV some(Rng& g, unsigned) { return T::gen(g).json(); }                                                 \
    };
USER_DESC(user::Member)
USER_DESC(user::Spec)
USER_DESC(user::Mover)
USER_DESC(user::Vec)
USER_DESC(user::Map)
USER_DESC(user::Text)

#define NUMBERS_DESC(T)                                                                                               \
    template <>                                                                                                       \
    struct Desc<T>                                                                                                    \
    {                                                                                                                 \
        static T gen(Rng& g, unsigned) { return user::Numbers<T>::gen(g); }                                           \
        static T clone(const T& x) { return *user::Numbers<T>::in(user::Numbers<T>::out(x)); }                        \
        static Tri fits(const MV& m) { return tri(user::numbers_read<T>(m).has_value()); }                            \
        static bool shaped(const T& x, const MV& m) { return user::numbers_json<T>(x) == m; }                         \
        static bool agrees(const T& x, const MV& m)                                                                   \
        {                                                                                                             \
            auto y = user::numbers_read<T>(m);                                                                        \
            return y && eq(*y, x);                                                                                    \
        }                                                                                                             \
        static bool eq(const T& a, const T& b) { return user::Numbers<T>::out(a) == user::Numbers<T>::out(b); }       \
        static MV some(Rng& g, unsigned) { return user::numbers_json<T>(user::Numbers<T>::gen(g)); }                  \
    };
NUMBERS_DESC(user::Seconds)
NUMBERS_DESC(user::Complex)
NUMBERS_DESC(user::Tags)
NUMBERS_DESC(user::TagMap)
NUMBERS_DESC(user::TagPair)
NUMBERS_DESC(user::TagTuple)
NUMBERS_DESC(user::TagArray)
NUMBERS_DESC(user::MaybeTag)
NUMBERS_DESC(user::TagOr)
NUMBERS_DESC(user::TagPtr)
NUMBERS_DESC(user::IntSet)
} // namespace types

namespace user
{
// a reflected struct of all of these
struct Both
{
    Member member;
    Mover mover;
    std::vector<Spec> specs;
    Seconds seconds {};
    std::optional<Vec> vec;

    MEO_JSONIZATION(member, mover, specs, MEO_OPT seconds, MEO_OPT MEO_KEY("v") vec);
};
}

namespace types
{
template <>
struct Desc<user::Both>
{
    using T = user::Both;

    static T gen(Rng& g, unsigned d)
    {
        T t;
        t.member = Desc<user::Member>::gen(g, d);
        t.mover = Desc<user::Mover>::gen(g, d);
        t.specs = Desc<std::vector<user::Spec>>::gen(g, d);
        t.seconds = Desc<user::Seconds>::gen(g, d);
        t.vec = Desc<std::optional<user::Vec>>::gen(g, d);
        return t;
    }

    static T clone(const T& t) { return t; }

    static Tri fits(const MV& m)
    {
        if (m.k != MV::Obj) {
            return No;
        }
        const auto field = Desc<Point>::field;
        return both(
            both(field(Desc<user::Member>::fits, m, "member", false), field(Desc<user::Mover>::fits, m, "mover", false)),
            both(field(Desc<std::vector<user::Spec>>::fits, m, "specs", false),
                 both(field(Desc<user::Seconds>::fits, m, "seconds", true), field(Desc<std::optional<user::Vec>>::fits, m, "v", true))));
    }

    static bool shaped(const T& t, const MV& m)
    {
        return m.k == MV::Obj && m.o.size() == 5 && m.o.count("member") && m.o.count("mover") && m.o.count("specs") && m.o.count("seconds") && m.o.count("v")
               && Desc<user::Member>::shaped(t.member, m.o.at("member")) && Desc<user::Mover>::shaped(t.mover, m.o.at("mover"))
               && Desc<std::vector<user::Spec>>::shaped(t.specs, m.o.at("specs")) && Desc<user::Seconds>::shaped(t.seconds, m.o.at("seconds"))
               && Desc<std::optional<user::Vec>>::shaped(t.vec, m.o.at("v"));
    }

    static bool agrees(const T& t, const MV& m)
    {
        return m.k == MV::Obj && m.o.count("member") && m.o.count("mover") && m.o.count("specs") && Desc<user::Member>::agrees(t.member, m.o.at("member"))
               && Desc<user::Mover>::agrees(t.mover, m.o.at("mover")) && Desc<std::vector<user::Spec>>::agrees(t.specs, m.o.at("specs"))
               && (m.o.count("seconds") ? Desc<user::Seconds>::agrees(t.seconds, m.o.at("seconds")) : t.seconds == user::Seconds {})
               && (m.o.count("v") ? Desc<std::optional<user::Vec>>::agrees(t.vec, m.o.at("v")) : !t.vec);
    }

    static bool eq(const T& a, const T& b)
    {
        return a.member == b.member && a.mover == b.mover && a.specs == b.specs && a.seconds == b.seconds && a.vec == b.vec;
    }

    static MV some(Rng& g, unsigned d)
    {
        MV m = MV::obj();
        m.o["member"] = Desc<user::Member>::some(g, d + 1);
        m.o["mover"] = Desc<user::Mover>::some(g, d + 1);
        m.o["specs"] = Desc<std::vector<user::Spec>>::some(g, d + 1);
        if (g.chance(1, 2)) {
            m.o["seconds"] = Desc<user::Seconds>::some(g, d + 1);
        }
        if (g.chance(1, 2)) {
            m.o["v"] = Desc<std::optional<user::Vec>>::some(g, d + 1);
        }
        return m;
    }
};
} // namespace types
