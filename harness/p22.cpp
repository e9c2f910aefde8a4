// P22: misuse is reported by an exception that tells what was found, and changes nothing.
// VF_GROUP: conversions to the types of that group. Otherwise: accessors and operators.
#include "hist.hpp"
#ifdef VF_GROUP
#include "types.hpp"
#endif

using ref::MV;
using vf::Rng;

namespace
{
const char* kind_name(MV::K k)
{
    switch (k) {
    case MV::Null:
        return "null";
    case MV::Bool:
        return "boolean";
    case MV::Num:
        return "number";
    case MV::Str:
        return "string";
    case MV::Arr:
        return "array";
    default:
        return "object";
    }
}

bool is_empty(const MV& m)
{
    return m.k == MV::Null || (m.k == MV::Str && m.s.empty()) || (m.k == MV::Arr && m.a.empty()) || (m.k == MV::Obj && m.o.empty());
}

enum Caught
{
    Nothing,
    Json,
    OutOfRange,
    OtherStd,
    Strange
};

const char* caught_name(Caught c)
{
    static const char* const names[] = { "no exception", "json::exception", "std::out_of_range", "another std::exception", "something that is no std::exception" };
    return names[c];
}

struct Result
{
    Caught c = Nothing;
    std::string what;
};

template <typename F>
Result attempt(F&& f)
{
    Result r;
    try {
        f();
    }
    catch (const json::exception& e) {
        r.c = Json;
        r.what = e.what();
    }
    catch (const std::out_of_range& e) {
        r.c = OutOfRange;
        r.what = e.what();
    }
    catch (const std::exception& e) {
        r.c = OtherStd;
        r.what = e.what();
    }
    catch (...) {
        r.c = Strange;
    }
    return r;
}

// the word for a kind, not as a part of another word
bool names_kind(const std::string& text, MV::K k)
{
    const std::string w = kind_name(k);
    for (size_t at = text.find(w); at != std::string::npos; at = text.find(w, at + 1)) {
        auto letter = [&](size_t i) { return i < text.size() && std::isalnum(static_cast<unsigned char>(text[i])); };
        if (!(at > 0 && letter(at - 1)) && !letter(at + w.size())) {
            return true;
        }
    }
    return false;
}

struct Case
{
    const MV& m;
    std::string text;

    explicit Case(const MV& x)
        : m(x)
        , text(ref::dump(x))
    {
        vf::input(text);
    }

    void report(const std::string& key, const char* op, const std::string& what) const { vf::violation(key + ":" + op, std::string(op) + " on " + vf::printable(text) + ": " + what, text); }

    // it had to be refused because of the kind of the value
    void mismatch(const char* op, const Result& r, bool name = true) const
    {
        ++vf::ctx().counters["mismatches"];
        if (r.c != Json) {
            report("wrong-exception", op, std::string(caught_name(r.c)) + " " + r.what);
            return;
        }
        if (r.what.empty()) {
            report("no-message", op, "the message is empty");
        }
        else if (name && !names_kind(r.what, m.k)) {
            report("type-not-named", op, "the message does not name the type " + std::string(kind_name(m.k)) + ": " + vf::printable(r.what));
        }
    }

    void refused(const char* op, const Result& r, Caught want) const
    {
        ++vf::ctx().counters["refusals"];
        if (r.c != want) {
            report("wrong-exception", op, std::string(caught_name(r.c)) + " instead of " + caught_name(want) + " " + r.what);
        }
        else if (r.what.empty()) {
            report("no-message", op, "the message is empty");
        }
    }

    void no_throw(const char* op, const Result& r) const
    {
        ++vf::ctx().counters["harmless uses"];
        if (r.c != Nothing) {
            report("throws", op, std::string(caught_name(r.c)) + " " + r.what);
        }
    }

    void same(const char* op, const json::value& v, const MV& want) const
    {
        ++vf::ctx().counters["values compared afterwards"];
        if (std::string d = conv::differs(v, want); !d.empty()) {
            report("changed", op, "the value is not what it has to be: " + d);
        }
    }
};
}

#ifdef VF_GROUP
using namespace types;

namespace
{
constexpr unsigned bit(MV::K k)
{
    return 1u << k;
}

// the kinds of JSON value that may be converted to T
template <typename T>
struct Kinds
{
    static constexpr unsigned get()
    {
        if constexpr (std::is_same_v<T, bool>) {
            return bit(MV::Bool);
        }
        else if constexpr (std::is_arithmetic_v<T>) {
            return bit(MV::Num);
        }
        else if constexpr (std::is_enum_v<T>) {
            return bit(MV::Num) | bit(MV::Str);
        }
        else if constexpr (std::is_same_v<T, std::monostate> || std::is_same_v<T, std::nullptr_t>) {
            return bit(MV::Null);
        }
        else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::filesystem::path>) {
            return bit(MV::Str);
        }
        else if constexpr (std::is_same_v<T, json::value>) {
            return ~0u;
        }
        else if constexpr (std::is_same_v<T, json::object> || std::is_same_v<T, Point> || std::is_same_v<T, Shape>) {
            return bit(MV::Obj);
        }
        else {
            return bit(MV::Arr); // sequences, sets, fixed arrays, tuples, pairs, json::array
        }
    }
};

template <typename T>
struct Kinds<std::map<std::string, T>>
{
    static constexpr unsigned get() { return bit(MV::Obj); }
};

template <typename T>
struct Kinds<std::unordered_map<std::string, T>> : Kinds<std::map<std::string, T>>
{
};

template <typename T>
struct Kinds<std::optional<T>>
{
    static constexpr unsigned get() { return bit(MV::Null) | Kinds<T>::get(); }
};

template <typename T>
struct Kinds<std::shared_ptr<T>> : Kinds<std::optional<T>>
{
};

template <typename T>
struct Kinds<std::unique_ptr<T>> : Kinds<std::optional<T>>
{
};

template <typename... T>
struct Kinds<std::variant<T...>>
{
    static constexpr unsigned get() { return (Kinds<T>::get() | ...); }
};

template <typename T>
constexpr bool castable = !traits::is_optional<T> && !traits::is_tuple_like<T> && !std::is_same_v<T, json::value>;

template <typename T>
void convert(Rng& g, const char* name, const MV& m)
{
    const Tri fits = Desc<T>::fits(m);
    if (fits == Maybe) {
        return;
    }
    const Case c(m);
    vf::distinct(vf::hash_bytes(c.text, vf::hash_bytes(name)));
    const bool kind = (Kinds<T>::get() & bit(m.k)) == 0;
    auto judge = [&](const char* route, const Result& r) {
        const std::string op = std::string(route) + " to " + name;
        if (fits == Yes) {
            c.no_throw(op.c_str(), r);
        }
        else if (kind) {
            c.mismatch(op.c_str(), r);
        }
        else {
            c.refused(op.c_str(), r, Json);
        }
    };
    json::value v = hist::make(g, m);
    const json::value& cv = v;
    judge("as<T>() of a const lvalue", attempt([&] { cv.as<T>(); }));
    c.same(name, v, m);
    judge("as<T>() of an lvalue", attempt([&] { v.as<T>(); }));
    c.same(name, v, m);
    if constexpr (castable<T>) {
        judge("cast of a const lvalue", attempt([&] { (void)static_cast<T>(cv); }));
        c.same(name, v, m);
        judge("cast of an lvalue", attempt([&] { (void)static_cast<T>(v); }));
        c.same(name, v, m);
    }
    {
        json::value w = hist::make(g, m);
        judge("as<T>() of an rvalue", attempt([&] { (void)std::move(w).template as<T>(); }));
        if (kind) {
            c.same("as<T>() of an rvalue of the wrong kind", w, m);
        }
        w.dumps();
        w.value_info();
        w = json::array { 1 };
        c.same("assignment after a conversion", w, MV::arr({ MV::num("1") }));
    }
    if constexpr (castable<T>) {
        json::value w = hist::make(g, m);
        judge("cast of an rvalue", attempt([&] { (void)static_cast<T>(std::move(w)); }));
        if (kind) {
            c.same("cast of an rvalue of the wrong kind", w, m);
        }
        w.dumps();
        w.clear();
        c.same("clear() after a conversion", w, MV::null());
    }
    // nothing of it throws, whether it fits or not
    bool is = false;
    c.no_throw("is<T>()", attempt([&] { is = v.is<T>(); }));
    c.no_throw("all<T>()", attempt([&] { v.all<T>(); }));
    json::value holder = json::object { { "k", v } };
    std::optional<bool> found;
    c.no_throw("find<T>()", attempt([&] { found = holder.find<T>("k").has_value(); }));
    if (is != (fits == Yes) || (found && *found != is)) {
        c.report("is-wrong", "is<T>() and find<T>()", std::string("do not agree with the conversion to ") + name);
    }
    c.same("find<T>()", holder, MV::obj({ { "k", m } }));
    // a bad element of a container
    if (fits == No) {
        const MV am = MV::arr({ m });
        const Case a(am);
        const json::value av = conv::build(am);
        a.refused("as<std::vector<T>>()", attempt([&] { av.as<std::vector<T>>(); }), Json);
        a.refused("array::as<std::vector<T>>()", attempt([&] { av.as_array().template as<std::vector<T>>(); }), Json);
        a.same("as<std::vector<T>>()", av, am);
        const MV om = MV::obj({ { "k", m }, { "l", m } });
        const Case o(om);
        const json::value ov = conv::build(om);
        o.refused("as<std::map<std::string, T>>()", attempt([&] { ov.as<std::map<std::string, T>>(); }), Json);
        o.refused("object::as<std::map<std::string, T>>()", attempt([&] { ov.as_object().template as<std::map<std::string, T>>(); }), Json);
        o.same("as<std::map<std::string, T>>()", ov, om);
    }
}
}

SECTION(conversions, 1500, 60000)
{
    with_type(idx, [&](auto* t, const char* name) {
        using T = std::decay_t<decltype(*t)>;
        MV m;
        switch (rng.below(4)) {
        case 0:
            m = hist::perturb(rng, Desc<T>::some(rng, 0));
            break;
        case 1:
            m = ref::gen_scalar(rng, 140);
            break;
        case 2:
            m = ref::gen_doc(rng, 6, 3, 20);
            break;
        default:
            m = Desc<T>::some(rng, 0);
            if (rng.chance(1, 2)) {
                m = rng.chance(1, 2) ? MV::arr({ m }) : MV::obj({ { "k", m } });
            }
            break;
        }
        if (idx < 3) {
            vf::sample(std::string(name) + " from " + vf::printable(ref::dump(m), 120));
        }
        convert<T>(rng, name, m);
    });
}

SECTION(conversion_grid, 18, 18)
{
    with_type(idx, [&](auto* t, const char* name) {
        using T = std::decay_t<decltype(*t)>;
        const MV atoms[] = { MV::null(), MV::boolean(true), MV::boolean(false), MV::num("0"), MV::num("-7"), MV::num("1e9"), MV::num("1e400"), MV::num("3000000000"), MV::str(""), MV::str("null"), MV::str("Red"),
                             MV::str(std::string(99, 'x')), MV::str(std::string(100, 'y')), MV::str(std::string(500, '"')), MV::str("\xff\x80\x01"), MV::str(std::string(1, '\0')), MV::arr(), MV::obj(), MV::arr({ MV::null() }),
                             MV::arr({ MV::num("1"), MV::str("a") }), MV::obj({ { "", MV::boolean(true) } }), MV::obj({ { "x", MV::str("no") } }) };
        for (auto& m : atoms) {
            convert<T>(rng, name, m);
        }
    });
}

#else

namespace
{
enum class Level : int
{
    Low = 1,
    High = 2,
    MEOJSON_ENUM_RANGE(Low, High)
};

// all const members; nothing may change, whatever happens
void constant(Rng& g, const json::value& v, const MV& m)
{
    const Case c(m);
    struct Scalar
    {
        const char* name;
        MV::K k;
        void (*f)(const json::value&);
    };
    static const Scalar scalars[] = {
        { "as_boolean()", MV::Bool, [](const json::value& x) { x.as_boolean(); } },
        { "as_integer()", MV::Num, [](const json::value& x) { x.as_integer(); } },
        { "as_unsigned()", MV::Num, [](const json::value& x) { x.as_unsigned(); } },
        { "as_long()", MV::Num, [](const json::value& x) { x.as_long(); } },
        { "as_unsigned_long()", MV::Num, [](const json::value& x) { x.as_unsigned_long(); } },
        { "as_long_long()", MV::Num, [](const json::value& x) { x.as_long_long(); } },
        { "as_unsigned_long_long()", MV::Num, [](const json::value& x) { x.as_unsigned_long_long(); } },
        { "as_float()", MV::Num, [](const json::value& x) { x.as_float(); } },
        { "as_double()", MV::Num, [](const json::value& x) { x.as_double(); } },
        { "as_long_double()", MV::Num, [](const json::value& x) { x.as_long_double(); } },
        { "as_string()", MV::Str, [](const json::value& x) { x.as_string(); } },
        { "as_string_view()", MV::Str, [](const json::value& x) { x.as_string_view(); } },
        { "as_array() const", MV::Arr, [](const json::value& x) { x.as_array(); } },
        { "as_object() const", MV::Obj, [](const json::value& x) { x.as_object(); } },
        { "cast to bool", MV::Bool, [](const json::value& x) { (void)static_cast<bool>(x); } },
        { "cast to int", MV::Num, [](const json::value& x) { (void)static_cast<int>(x); } },
        { "cast to unsigned", MV::Num, [](const json::value& x) { (void)static_cast<unsigned>(x); } },
        { "cast to long", MV::Num, [](const json::value& x) { (void)static_cast<long>(x); } },
        { "cast to unsigned long", MV::Num, [](const json::value& x) { (void)static_cast<unsigned long>(x); } },
        { "cast to long long", MV::Num, [](const json::value& x) { (void)static_cast<long long>(x); } },
        { "cast to unsigned long long", MV::Num, [](const json::value& x) { (void)static_cast<unsigned long long>(x); } },
        { "cast to float", MV::Num, [](const json::value& x) { (void)static_cast<float>(x); } },
        { "cast to double", MV::Num, [](const json::value& x) { (void)static_cast<double>(x); } },
        { "cast to long double", MV::Num, [](const json::value& x) { (void)static_cast<long double>(x); } },
        { "cast to std::string", MV::Str, [](const json::value& x) { (void)static_cast<std::string>(x); } },
        { "cast to std::string_view", MV::Str, [](const json::value& x) { (void)static_cast<std::string_view>(x); } },
        { "cast to json::array", MV::Arr, [](const json::value& x) { (void)static_cast<json::array>(x); } },
        { "cast to json::object", MV::Obj, [](const json::value& x) { (void)static_cast<json::object>(x); } },
        { "cast to nullptr_t", MV::Null, [](const json::value& x) { (void)static_cast<std::nullptr_t>(x); } },
        { "cast to monostate", MV::Null, [](const json::value& x) { (void)static_cast<std::monostate>(x); } },
    };
    for (auto& s : scalars) {
        if (s.k == m.k) {
            if (m.k == MV::Num) {
                if (Result r = attempt([&] { s.f(v); }); r.c != Nothing) {
                    c.refused(s.name, r, Json); // out of range
                }
            }
            else {
                c.no_throw(s.name, attempt([&] { s.f(v); }));
            }
        }
        else {
            c.mismatch(s.name, attempt([&] { s.f(v); }));
        }
    }
    c.same("a conversion", v, m);
    // positions and keys
    const size_t n = m.a.size();
    for (size_t pos : { static_cast<size_t>(0), n, n + 1, n ? n - 1 : 5, static_cast<size_t>(-1), static_cast<size_t>(1) << 62 }) {
        const Result r = attempt([&] { v.at(pos); });
        if (m.k != MV::Arr) {
            c.mismatch("at(position)", r);
            c.mismatch("const [position]", attempt([&] { (void)v[pos]; }));
        }
        else if (pos < n) {
            c.no_throw("at(position)", r);
        }
        else {
            c.refused("at(position)", r, OutOfRange);
            c.refused("array::at(position)", attempt([&] { v.as_array().at(pos); }), OutOfRange);
        }
        c.no_throw("contains(position)", attempt([&] { v.contains(pos); }));
        c.no_throw("exists(position)", attempt([&] { v.exists(pos); }));
        c.no_throw("find(position)", attempt([&] { v.find(pos); }));
        c.no_throw("find_value(position)", attempt([&] { v.find_value(pos); }));
        c.no_throw("get(position, ...)", attempt([&] { v.get(pos, 1); }));
        c.no_throw("get(position, ...)", attempt([&] { v.get(pos, "k", pos, "default"); }));
    }
    std::vector<std::string> keys = { "", "k", std::string("\0", 1), ref::gen_string(g, 20) };
    for (auto& [k, x] : m.o) {
        keys.push_back(k);
        keys.push_back(k + "x");
        if (keys.size() > 10) {
            break;
        }
    }
    for (auto& k : keys) {
        const Result r = attempt([&] { v.at(k); });
        if (m.k != MV::Obj) {
            c.mismatch("at(key)", r);
        }
        else if (m.o.count(k)) {
            c.no_throw("at(key)", r);
        }
        else {
            c.refused("at(key)", r, OutOfRange);
            c.refused("object::at(key)", attempt([&] { v.as_object().at(k); }), OutOfRange);
        }
        c.no_throw("contains(key)", attempt([&] { v.contains(k); }));
        c.no_throw("exists(key)", attempt([&] { v.exists(k); }));
        c.no_throw("find(key)", attempt([&] { v.find<int>(k); }));
        c.no_throw("find_value(key)", attempt([&] { v.find_value(k); }));
        c.no_throw("get(key, ...)", attempt([&] { v.get(k, json::value()); }));
        c.no_throw("get(key, ...)", attempt([&] { v.get(k, 0, k, 1.5); }));
    }
    c.same("a look-up", v, m);
    // concatenation
    const json::array arr { 1, "two" };
    const json::object obj { { "k", 1 }, { "one", nullptr } };
    const json::value keep_a = arr, keep_o = obj;
    auto temporary = [&](const char* op, bool fitting, auto&& f) {
        const Result r = attempt(f);
        if (fitting) {
            c.no_throw(op, r);
        }
        else if (is_empty(m) && r.c == Nothing) {
            VF_COUNT("empty operands taken as a container");
        }
        else {
            c.mismatch(op, r);
        }
        if (json::value(arr) != keep_a || json::value(obj) != keep_o) {
            c.report("operand-changed", op, "the other operand was changed");
        }
    };
    temporary("const +", m.k == MV::Arr, [&] { v + arr; });
    temporary("const + rvalue", m.k == MV::Arr, [&] { v + json::array { 1 }; });
    temporary("const |", m.k == MV::Obj, [&] { v | obj; });
    temporary("const | rvalue", m.k == MV::Obj, [&] { v | json::object { { "k", 1 } }; });
    c.same("a concatenation", v, m);
    // descriptions and everything that is defined for every value
    std::string info, name;
    c.no_throw("value_info()", attempt([&] { info = v.value_info(); }));
    c.no_throw("type_name()", attempt([&] { name = v.type_name(); }));
    if (name != kind_name(m.k)) {
        c.report("type-name", "type_name()", "gives " + vf::printable(name));
    }
    if (!names_kind(info, m.k)) {
        c.report("type-not-named", "value_info()", "does not name the type: " + vf::printable(info));
    }
    if (info.size() > 1000) {
        c.report("long-message", "value_info()", "is " + std::to_string(info.size()) + " bytes long");
    }
    c.no_throw("dumps()", attempt([&] { v.dumps(); }));
    c.no_throw("format()", attempt([&] { v.format(3); }));
    c.no_throw("==", attempt([&] { (void)(v == keep_a); }));
    c.no_throw("copy", attempt([&] { json::value x = v; }));
    c.same("a description", v, m);
    if (!v.valid() || v.empty() != is_empty(m)) {
        c.report("state", "valid() and empty()", "are wrong");
    }
}

// a mutable operation: what it may leave of the model
struct Op
{
    const char* name;
    MV::K k; // the kind it is for
    bool opens; // whether an empty value may be used as one of this kind
    bool may_stay; // and may as well stay what it is
    void (*f)(Rng&, json::value&);
    void (*effect)(MV&); // on a container of the right kind
};

const json::array& some_array()
{
    static const json::array a { 1, "two", nullptr };
    return a;
}

const json::object& some_object()
{
    static const json::object o { { "", 1 }, { "k", "two" } };
    return o;
}

void append_some(MV& m)
{
    m.a.push_back(MV::num("1"));
    m.a.push_back(MV::str("two"));
    m.a.push_back(MV::null());
}

void merge_some(MV& m)
{
    m.o[""] = MV::num("1");
    m.o["k"] = MV::str("two");
}

const std::vector<Op>& operations()
{
    auto none = [](MV&) {};
    static const std::vector<Op> ops = {
        { "as_array()", MV::Arr, true, false, [](Rng&, json::value& v) { v.as_array(); }, none },
        { "as_object()", MV::Obj, true, false, [](Rng&, json::value& v) { v.as_object(); }, none },
        { "as_array().emplace_back()", MV::Arr, true, false, [](Rng&, json::value& v) { v.as_array().emplace_back("x"); }, [](MV& m) { m.a.push_back(MV::str("x")); } },
        { "as_object().emplace()", MV::Obj, true, false, [](Rng&, json::value& v) { v.as_object().emplace("k", 1); }, [](MV& m) { m.o["k"] = MV::num("1"); } },
        { "[key]", MV::Obj, true, false,
          [](Rng&, json::value& v) {
              const std::string k = "new key";
              v[k] = 5;
          },
          [](MV& m) { m.o["new key"] = MV::num("5"); } },
        { "[rvalue key]", MV::Obj, true, false, [](Rng&, json::value& v) { v[std::string("k")] = true; }, [](MV& m) { m.o["k"] = MV::boolean(true); } },
        { "[literal key]", MV::Obj, true, false, [](Rng&, json::value& v) { v["literal"] = "x"; }, [](MV& m) { m.o["literal"] = MV::str("x"); } },
        { "read of [key]", MV::Obj, true, false, [](Rng&, json::value& v) { (void)v["fresh"]; }, [](MV& m) { m.o.emplace("fresh", MV::null()); } },
        { "emplace(value)", MV::Arr, true, false, [](Rng&, json::value& v) { v.emplace(json::value("x")); }, [](MV& m) { m.a.push_back(MV::str("x")); } },
        { "emplace(number)", MV::Arr, true, false, [](Rng&, json::value& v) { v.emplace(7); }, [](MV& m) { m.a.push_back(MV::num("7")); } },
        { "emplace(array)", MV::Arr, true, false, [](Rng&, json::value& v) { v.emplace(json::array {}); }, [](MV& m) { m.a.push_back(MV::arr()); } },
        { "emplace(key, value)", MV::Obj, true, false, [](Rng&, json::value& v) { v.emplace("k", json::value(1)); }, [](MV& m) { m.o["k"] = MV::num("1"); } },
        { "emplace(std::string, text)", MV::Obj, true, false, [](Rng&, json::value& v) { v.emplace(std::string("k2"), "text"); }, [](MV& m) { m.o["k2"] = MV::str("text"); } },
        { "erase(position)", MV::Arr, true, true, [](Rng&, json::value& v) { v.erase(static_cast<size_t>(1) << 40); }, none },
        { "erase(first)", MV::Arr, true, true, [](Rng&, json::value& v) { v.erase(static_cast<size_t>(0)); },
          [](MV& m) {
              if (!m.a.empty()) {
                  m.a.erase(m.a.begin());
              }
          } },
        { "erase(key)", MV::Obj, true, true, [](Rng&, json::value& v) { v.erase("k"); }, [](MV& m) { m.o.erase("k"); } },
        { "erase(std::string)", MV::Obj, true, true, [](Rng&, json::value& v) { v.erase(std::string()); }, [](MV& m) { m.o.erase(""); } },
        { "+= array", MV::Arr, true, false, [](Rng&, json::value& v) { v += some_array(); }, append_some },
        { "+= rvalue array", MV::Arr, true, false, [](Rng&, json::value& v) { v += json::array(some_array()); }, append_some },
        { "+= empty array", MV::Arr, true, true, [](Rng&, json::value& v) { v += json::array(); }, none },
        { "|= object", MV::Obj, true, false, [](Rng&, json::value& v) { v |= some_object(); }, merge_some },
        { "|= rvalue object", MV::Obj, true, false, [](Rng&, json::value& v) { v |= json::object(some_object()); }, merge_some },
        { "|= empty object", MV::Obj, true, true, [](Rng&, json::value& v) { v |= json::object(); }, none },
    };
    return ops;
}

// applies a mutable operation, and says what the model is now
void apply(Rng& g, const Op& op, json::value& v, MV& m)
{
    const Case c(m);
    vf::note(op.name);
    ++vf::ctx().counters[std::string("op ") + op.name];
    const Result r = attempt([&] { op.f(g, v); });
    if (m.k == op.k) {
        VF_COUNT("uses that fit");
        c.no_throw(op.name, r);
        op.effect(m);
    }
    else if (is_empty(m) && op.opens) {
        VF_COUNT("empty values opened");
        c.no_throw(op.name, r);
        if (!op.may_stay || v.type() == (op.k == MV::Arr ? json::value::value_type::array : json::value::value_type::object)) {
            m = op.k == MV::Arr ? MV::arr() : MV::obj();
            op.effect(m);
        }
    }
    else {
        c.mismatch(op.name, r);
    }
    c.same(op.name, v, m);
    if (conv::to_model(json::value(some_array())) != MV::arr({ MV::num("1"), MV::str("two"), MV::null() }) || conv::to_model(json::value(some_object())) != MV::obj({ { "", MV::num("1") }, { "k", MV::str("two") } })) {
        c.report("operand-changed", op.name, "the other operand was changed");
        std::_Exit(96);
    }
}

// operations on temporaries: what is left of them is theirs, unless they were refused
void temporaries(Rng& g, const MV& m)
{
    const Case c(m);
    auto go = [&](const char* op, MV::K k, auto&& f) {
        json::value v = hist::make(g, m);
        const Result r = attempt([&] { f(std::move(v)); });
        if (m.k == k) {
            c.no_throw(op, r);
        }
        else if (is_empty(m)) {
            if (r.c != Nothing) {
                c.mismatch(op, r);
            }
        }
        else {
            c.mismatch(op, r);
            c.same(op, v, m);
        }
        v = 1;
        c.same("assignment", v, MV::num("1"));
    };
    go("rvalue + array", MV::Arr, [](json::value&& v) { (void)(std::move(v) + some_array()); });
    go("rvalue + rvalue array", MV::Arr, [](json::value&& v) { (void)(std::move(v) + json::array(some_array())); });
    go("rvalue | object", MV::Obj, [](json::value&& v) { (void)(std::move(v) | some_object()); });
    go("rvalue | rvalue object", MV::Obj, [](json::value&& v) { (void)(std::move(v) | json::object(some_object())); });
    // a refused operation does not eat its right-hand side
    if (m.k != MV::Arr && !is_empty(m)) {
        json::value v = hist::make(g, m);
        json::array a = some_array();
        c.mismatch("+= std::move(array)", attempt([&] { v += std::move(a); }));
        c.mismatch("+ std::move(array)", attempt([&] { (void)(v + std::move(a)); }));
        json::value x = "kept text, too long for the small buffer";
        c.mismatch("emplace(std::move(value))", attempt([&] { v.emplace(std::move(x)); }));
        if (json::value(a) != json::value(some_array()) || x != json::value("kept text, too long for the small buffer")) {
            c.report("operand-eaten", "refused +=, + or emplace", "took its operand away");
        }
        c.same("+= std::move(array)", v, m);
    }
    if (m.k != MV::Obj && !is_empty(m)) {
        json::value v = hist::make(g, m);
        json::object o = some_object();
        c.mismatch("|= std::move(object)", attempt([&] { v |= std::move(o); }));
        c.mismatch("| std::move(object)", attempt([&] { (void)(v | std::move(o)); }));
        json::value x = "kept text, too long for the small buffer";
        std::string k = "a key that is too long for the small buffer";
        c.mismatch("emplace(std::move(key), std::move(value))", attempt([&] { v.emplace(std::move(k), std::move(x)); }));
        c.mismatch("[std::move(key)]", attempt([&] { (void)v[std::move(k)]; }));
        if (json::value(o) != json::value(some_object()) || x != json::value("kept text, too long for the small buffer") || k != "a key that is too long for the small buffer") {
            c.report("operand-eaten", "refused |=, |, [] or emplace", "took its operand away");
        }
        c.same("|= std::move(object)", v, m);
    }
    // mutable [position] on what is no array
    if (m.k != MV::Arr && !is_empty(m)) {
        json::value v = hist::make(g, m);
        c.mismatch("[position]", attempt([&] { (void)v[static_cast<size_t>(g.below(3))]; }));
        c.same("[position]", v, m);
    }
}

MV any_value(Rng& g)
{
    switch (g.below(10)) {
    case 0:
        return MV::null();
    case 1:
        return MV::str("");
    case 2:
        return MV::arr();
    case 3:
        return MV::obj();
    case 4:
    case 5:
        return ref::gen_scalar(g, g.chance(1, 4) ? 400 : 20);
    case 6: {
        std::string s;
        for (size_t n = g.chance(1, 2) ? 90 + g.below(25) : g.below(300); n > 0; --n) {
            s += static_cast<char>(g.next()); // any bytes
        }
        return MV::str(s);
    }
    default:
        return ref::gen_doc(g, 6, 3, 20);
    }
}
}

SECTION(constants, 2500, 100000)
{
    const MV m = any_value(rng);
    if (idx < 4) {
        vf::sample(vf::printable(ref::dump(m), 150));
    }
    vf::distinct(vf::hash_bytes(ref::dump(m)));
    const json::value v = hist::make(rng, m);
    constant(rng, v, m);
}

SECTION(histories, 4000, 200000)
{
    MV m = any_value(rng);
    json::value v = hist::make(rng, m);
    if (rng.chance(1, 8)) { // a value whose content was moved away
        json::value w(std::move(v));
        m = MV::null();
        (void)w;
    }
    const auto& ops = operations();
    for (unsigned n = 1 + rng.below(20); n > 0; --n) {
        apply(rng, ops[rng.below(ops.size())], v, m);
        vf::distinct(vf::hash_bytes(ref::dump(m), n));
        switch (rng.below(12)) { // and now it is something else
        case 0:
            m = any_value(rng);
            v = hist::make(rng, m);
            break;
        case 1:
            v.clear();
            m = MV::null();
            break;
        case 2:
            constant(rng, v, m);
            break;
        case 3:
            if (m.k == MV::Arr && !m.a.empty()) { // on, with an element
                const size_t i = rng.below(m.a.size());
                apply(rng, ops[rng.below(ops.size())], v[i], m.a[i]);
                Case(m).same("an operation on an element", v, m);
            }
            else if (m.k == MV::Obj && !m.o.empty()) {
                auto it = std::next(m.o.begin(), static_cast<std::ptrdiff_t>(rng.below(m.o.size())));
                apply(rng, ops[rng.below(ops.size())], v[it->first], it->second);
                Case(m).same("an operation on a member", v, m);
            }
            break;
        default:
            break;
        }
    }
}

// every operation on every kind
SECTION(each_operation, 60, 600)
{
    const MV kinds[] = { MV::null(), MV::boolean(rng.chance(1, 2)), MV::num(ref::gen_number(rng)), MV::str(""), MV::str(ref::gen_string(rng, 150) + "x"), MV::arr(), MV::arr({ any_value(rng) }), MV::obj(),
                         MV::obj({ { "k", any_value(rng) } }) };
    for (auto& k : kinds) {
        for (auto& op : operations()) {
            MV m = k;
            json::value v = hist::make(rng, m);
            apply(rng, op, v, m);
        }
        temporaries(rng, k);
    }
}

SECTION(moved_operands, 1500, 60000)
{
    const MV m = any_value(rng);
    temporaries(rng, m);
}

// enumerators without a name
SECTION(bad_enums, 40, 400)
{
    const auto bad = static_cast<Level>(rng.chance(1, 2) ? 0 : 3 + static_cast<int>(rng.below(1000)));
    const MV none = MV::null();
    const Case c(none);
    c.refused("value(enum)", attempt([&] { json::value v(bad); }), Json);
    c.refused("value(vector of enums)", attempt([&] { json::value v(std::vector<Level> { Level::Low, bad }); }), Json);
    c.refused("value(map of enums)", attempt([&] { json::value v(std::map<std::string, Level> { { "a", Level::High }, { "b", bad } }); }), Json);
    c.refused("value(optional enum)", attempt([&] { json::value v(std::optional<Level> { bad }); }), Json);
    c.refused("value(tuple with enum)", attempt([&] { json::value v(std::make_tuple(1, bad)); }), Json);
    c.refused("value(variant with enum)", attempt([&] { json::value v(std::variant<int, Level> { bad }); }), Json);
    c.refused("array(list of enums)", attempt([&] { json::array a(std::list<Level> { Level::Low, Level::High, bad }); }), Json);
    MV am = MV::arr();
    for (size_t n = rng.below(6); n > 0; --n) {
        am.a.push_back(any_value(rng));
    }
    json::value v = hist::make(rng, am);
    json::array& a = v.as_array();
    c.refused("emplace_back(enum)", attempt([&] { a.emplace_back(bad); }), Json);
    c.refused("push_back(enum)", attempt([&] { a.push_back(bad); }), Json);
    c.refused("emplace(enum)", attempt([&] { v.emplace(bad); }), Json);
    c.same("insertion of a bad enum", v, am);
    a.emplace_back(Level::High);
    am.a.push_back(MV::str("High"));
    c.same("insertion after a refused one", v, am);
    MV om = MV::obj({ { "there", any_value(rng) } });
    for (size_t n = rng.below(6); n > 0; --n) {
        om.o[ref::gen_string(rng, 8)] = any_value(rng);
    }
    json::value w = hist::make(rng, om);
    json::object& o = w.as_object();
    c.refused("emplace(key, enum)", attempt([&] { o.emplace("there", bad); }), Json);
    c.refused("insert(new key, enum)", attempt([&] { o.insert("a key that is not there", bad); }), Json);
    c.refused("value::emplace(key, enum)", attempt([&] { w.emplace("another key that is not there", bad); }), Json);
    c.same("insertion of a bad enum", w, om);
    json::value x = hist::make(rng, om);
    c.refused("assignment of a bad enum", attempt([&] { x = json::value(bad); }), Json);
    c.same("assignment of a bad enum", x, om);
    VF_COUNT("bad enumerators");
}

// a value of the type that is none
SECTION(invalid, 2, 2)
{
    json::value v(json::value::value_type::invalid);
    const MV none = MV::null();
    const Case c(none);
    if (v.valid()) {
        c.report("valid", "valid()", "holds for an invalid value");
    }
    std::string info;
    c.no_throw("value_info() of an invalid value", attempt([&] { info = v.value_info(); }));
    if (info.empty()) {
        c.report("no-message", "value_info() of an invalid value", "is empty");
    }
    c.refused("as_boolean() of an invalid value", attempt([&] { v.as_boolean(); }), Json);
    c.refused("as_integer() of an invalid value", attempt([&] { v.as_integer(); }), Json);
    c.refused("as_double() of an invalid value", attempt([&] { v.as_double(); }), Json);
    c.refused("as_string() of an invalid value", attempt([&] { v.as_string(); }), Json);
    c.refused("as_array() of an invalid value", attempt([&] { v.as_array(); }), Json);
    c.refused("as_object() of an invalid value", attempt([&] { v.as_object(); }), Json);
    c.refused("at() of an invalid value", attempt([&] { v.at("k"); }), Json);
    c.refused("dumps() of an invalid value", attempt([&] { v.dumps(); }), Json);
    c.refused("format() of an invalid value", attempt([&] { v.format(); }), Json);
    json::value copy = v;
    v = 5;
    c.same("assignment to an invalid value", v, MV::num("5"));
    c.no_throw("find() in an invalid value", attempt([&] { copy.find("k"); }));
    c.no_throw("get() in an invalid value", attempt([&] { copy.get("k", 1); }));
}
#endif
