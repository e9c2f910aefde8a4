// P21: conversions of the user's own are the ones that are called, everywhere; lvalues are never moved from.
// Positions of every kind are converted with the calls counted, and with types whose check and whose loading
// contradict each other, that have only some of the functions, or that cannot be copied.
#define VF_GROUP 8
#include "hist.hpp"
#include "types.hpp"

using namespace types;
using user::calls;

namespace user
{
// says `Check` to every JSON and loads it or refuses to, as `From` says
template <bool Check, bool From>
struct OddMember
{
    int loaded = 0;

    json::value to_json() const
    {
        ++calls.to;
        return json::object { { "odd", 1 } };
    }

    bool check_json(const json::value&) const
    {
        ++calls.check;
        return Check;
    }

    bool from_json(const json::value&)
    {
        ++calls.from;
        loaded = 1;
        return From;
    }

    bool operator<(const OddMember& o) const { return loaded < o.loaded; }
};

template <bool Check, bool From>
struct OddSpec
{
    int loaded = 0;

    bool operator<(const OddSpec& o) const { return loaded < o.loaded; }
};

template <bool Check, bool From>
struct OddMover
{
    int loaded = 0;

    bool operator<(const OddMover& o) const { return loaded < o.loaded; }
};

// one direction only
struct ToMember
{
    int n = 0;

    json::value to_json() const
    {
        ++calls.to;
        return json::array { "to", n };
    }
};

struct ToSpec
{
    int n = 0;
};

struct FromMember
{
    int n = 0;

    bool from_json(const json::value& v)
    {
        ++calls.from;
        n = v.is_number() ? v.as_integer() : 0;
        return v.is_number();
    }
};

struct FromSpec
{
    int n = 0;
};

// only the moving functions, and no copies
struct MoveOnly
{
    int n = 0;
    bool moved = false;

    MoveOnly() = default;
    MoveOnly(MoveOnly&& o) noexcept : n(o.n), moved(o.moved) { o.moved = true; }
    MoveOnly& operator=(MoveOnly&& o) noexcept
    {
        n = o.n;
        moved = o.moved;
        o.moved = true;
        return *this;
    }
};

// types that are written as an array or an object of the library, not as a value
template <typename J>
struct Whole
{
    static J make(int n)
    {
        if constexpr (std::is_same_v<J, json::array>) {
            return json::array { "whole", n };
        }
        else {
            return json::object { { "whole", n } };
        }
    }

    static bool load(const json::value& v, int& n)
    {
        const json::value* x = nullptr;
        if constexpr (std::is_same_v<J, json::array>) {
            x = v.is_array() && v.as_array().size() == 2 ? &v.as_array().at(1) : nullptr;
        }
        else {
            x = v.is_object() && v.as_object().size() == 1 ? &v.as_object().begin()->second : nullptr;
        }
        if (!x || !x->is_number()) {
            return false;
        }
        n = x->as_integer();
        return true;
    }
};

template <typename J>
struct WholeMember
{
    int n = 0;
    std::string tail = "kept by lvalues, and too long for the string itself";

    J to_json() const
    {
        ++calls.to;
        return Whole<J>::make(n);
    }

    bool check_json(const json::value& v) const
    {
        ++calls.check;
        int i = 0;
        return Whole<J>::load(v, i);
    }

    bool from_json(const json::value& v)
    {
        ++calls.from;
        return Whole<J>::load(v, n);
    }
};

template <typename J>
struct WholeSpec
{
    int n = 0;
    std::string tail = "kept by lvalues, and too long for the string itself";
};

template <typename J>
struct WholeMover
{
    int n = 0;
    std::string tail = "kept by lvalues, and too long for the string itself";
};

template <typename J>
struct WholeMoveOnly
{
    int n = 0;
    std::string tail = "kept by lvalues, and too long for the string itself";

    WholeMoveOnly() = default;
    explicit WholeMoveOnly(int i) : n(i) {}
    WholeMoveOnly(WholeMoveOnly&&) = default;
    WholeMoveOnly& operator=(WholeMoveOnly&&) = default;
};

// the containers that the library accepts as well, with calls of their own
using Same1 = std::vector<short>;
} // namespace user

namespace json::ext
{
template <typename J>
class jsonization<user::WholeSpec<J>>
{
public:
    J to_json(const user::WholeSpec<J>& x) const
    {
        ++user::calls.to;
        return user::Whole<J>::make(x.n);
    }

    bool check_json(const json::value& v) const
    {
        ++user::calls.check;
        int i = 0;
        return user::Whole<J>::load(v, i);
    }

    bool from_json(const json::value& v, user::WholeSpec<J>& x) const
    {
        ++user::calls.from;
        return user::Whole<J>::load(v, x.n);
    }
};

template <typename J>
class jsonization<user::WholeMover<J>>
{
public:
    J to_json(const user::WholeMover<J>& x) const
    {
        ++user::calls.to;
        return user::Whole<J>::make(x.n);
    }

    J move_to_json(user::WholeMover<J>&& x) const
    {
        ++user::calls.move_to;
        x.tail.clear();
        return user::Whole<J>::make(x.n);
    }

    bool check_json(const json::value& v) const
    {
        ++user::calls.check;
        int i = 0;
        return user::Whole<J>::load(v, i);
    }

    bool from_json(const json::value& v, user::WholeMover<J>& x) const
    {
        ++user::calls.from;
        return user::Whole<J>::load(v, x.n);
    }

    bool move_from_json(json::value&& v, user::WholeMover<J>& x) const
    {
        ++user::calls.move_from;
        return user::Whole<J>::load(v, x.n);
    }
};

template <typename J>
class jsonization<user::WholeMoveOnly<J>>
{
public:
    J move_to_json(user::WholeMoveOnly<J>&& x) const
    {
        ++user::calls.move_to;
        x.tail.clear();
        return user::Whole<J>::make(x.n);
    }

    bool move_from_json(json::value&& v, user::WholeMoveOnly<J>& x) const
    {
        ++user::calls.move_from;
        return user::Whole<J>::load(v, x.n);
    }
};
} // namespace json::ext

namespace json::ext
{
template <bool C, bool F>
class jsonization<user::OddSpec<C, F>>
{
public:
    json::value to_json(const user::OddSpec<C, F>&) const
    {
        ++user::calls.to;
        return json::object { { "odd", 1 } };
    }

    bool check_json(const json::value&) const
    {
        ++user::calls.check;
        return C;
    }

    bool from_json(const json::value&, user::OddSpec<C, F>& x) const
    {
        ++user::calls.from;
        x.loaded = 1;
        return F;
    }
};

template <bool C, bool F>
class jsonization<user::OddMover<C, F>>
{
public:
    json::value to_json(const user::OddMover<C, F>&) const
    {
        ++user::calls.to;
        return json::object { { "odd", 1 } };
    }

    json::value move_to_json(user::OddMover<C, F>&&) const
    {
        ++user::calls.move_to;
        return json::object { { "odd", 1 } };
    }

    bool check_json(const json::value&) const
    {
        ++user::calls.check;
        return C;
    }

    bool from_json(const json::value&, user::OddMover<C, F>& x) const
    {
        ++user::calls.from;
        x.loaded = 1;
        return F;
    }

    bool move_from_json(json::value&&, user::OddMover<C, F>& x) const
    {
        ++user::calls.move_from;
        x.loaded = 1;
        return F;
    }
};

template <>
class jsonization<user::ToSpec>
{
public:
    json::value to_json(const user::ToSpec& x) const
    {
        ++user::calls.to;
        return json::array { "to", x.n };
    }
};

template <>
class jsonization<user::FromSpec>
{
public:
    bool from_json(const json::value& v, user::FromSpec& x) const
    {
        ++user::calls.from;
        x.n = v.is_number() ? v.as_integer() : 0;
        return v.is_number();
    }
};

template <>
class jsonization<user::MoveOnly>
{
public:
    json::value move_to_json(user::MoveOnly&& x) const
    {
        ++user::calls.move_to;
        return json::array { "only", user::MoveOnly(std::move(x)).n };
    }

    bool check_json(const json::value& v) const
    {
        ++user::calls.check;
        return v.is_array();
    }

    bool move_from_json(json::value&& v, user::MoveOnly& x) const
    {
        ++user::calls.move_from;
        if (!v.is_array() || v.as_array().size() != 2 || v.at(0) != json::value("only")) {
            return false;
        }
        json::value mine = std::move(v);
        x.n = mine.at(1).as_integer();
        return true;
    }
};

// what the library converts by itself is converted by the user from here on
#define SAME(T, NAME)                                                              \
    template <>                                                                    \
    class jsonization<T>                                                           \
    {                                                                              \
    public:                                                                        \
        json::value to_json(const T&) const                                        \
        {                                                                          \
            ++user::calls.to;                                                      \
            return NAME;                                                           \
        }                                                                          \
        bool check_json(const json::value& v) const                                \
        {                                                                          \
            ++user::calls.check;                                                   \
            return v.is_string() && v.as_string() == NAME;                         \
        }                                                                          \
        bool from_json(const json::value& v, T&) const                             \
        {                                                                          \
            ++user::calls.from;                                                    \
            return v.is_string() && v.as_string() == NAME;                         \
        }                                                                          \
    };

using SameMap = std::map<std::string, long>;
using SamePair = std::pair<long, long>;
using SameTuple = std::tuple<long, long, long>;
using SameArray = std::array<long, 2>;
using SameVariant = std::variant<long, std::string>;

SAME(std::vector<long>, "own vector")
SAME(std::set<long>, "own set")
SAME(SameMap, "own map")
SAME(SamePair, "own pair")
SAME(SameTuple, "own tuple")
SAME(SameArray, "own array")
SAME(std::optional<long>, "own optional")
SAME(std::shared_ptr<long>, "own shared_ptr")
SAME(std::unique_ptr<long>, "own unique_ptr")
SAME(SameVariant, "own variant")
} // namespace json::ext

namespace
{
template <typename F>
std::string outcome(F&& f) // "" if it succeeds
{
    try {
        f();
        return "";
    }
    catch (const json::exception& e) {
        return std::string("json::exception: ") + e.what();
    }
    catch (...) {
        return vf::what_of_current_exception();
    }
}

bool refused(const std::string& what) { return what.compare(0, 17, "json::exception: ") == 0 && what.size() > 17; }

void report(const std::string& key, const std::string& what) { vf::violation(key, what, what); }

std::string show(const user::Calls& c)
{
    return "to " + std::to_string(c.to) + " move_to " + std::to_string(c.move_to) + " check " + std::to_string(c.check) + " from " + std::to_string(c.from) + " move_from "
           + std::to_string(c.move_from);
}

// ---------------------------------------------------------------- calls in every position
// C holds n objects that have conversions of their own; count how they are called
template <typename C>
void counted(const char* name, const C& x, size_t n)
{
    using D = Desc<C>;
    VF_COUNT("evaluations");
    vf::input(name);
    auto check = [&](const char* how, vf::u64 got, bool moving, vf::u64 moved) {
        VF_COUNT("conversions counted");
        if (got < n || (!moving && moved)) {
            report(std::string("calls:") + how + ":" + name, std::string(name) + " with " + std::to_string(n) + " objects, " + how + ": " + show(calls));
        }
    };
    auto writes = [&](const char* how, auto&& f, bool moving, size_t times = 1) {
        calls = {};
        f();
        check(how, (calls.to + calls.move_to) / times, moving, calls.move_to);
        if (calls.check || calls.from || calls.move_from) {
            report(std::string("calls:write-reads:") + how + ":" + name, show(calls));
        }
    };
    if constexpr (types::copyable<C>) {
        C y = x;
        json::value v;
        writes("value(const lvalue)", [&] { v = json::value(x); }, false);
        writes("value(lvalue)", [&] { v = json::value(y); }, false);
        writes("implicit from lvalue", [&] { v = y; }, false);
        writes("array{lvalue}", [&] { v = json::array { y }; }, false);
        writes("array{1, lvalue, const lvalue}", [&] { v = json::array { 1, y, x }; }, false, 2);
        writes("object{{k, lvalue}}", [&] { v = json::object { { "k", y } }; }, false);
        json::array a;
        json::object o;
        json::value va, vo;
        writes("array::emplace_back(lvalue)", [&] { a.emplace_back(y); }, false);
        writes("array::emplace_back(const lvalue)", [&] { a.emplace_back(x); }, false);
        writes("array::push_back(lvalue)", [&] { a.push_back(y); }, false);
        writes("object::emplace(k, lvalue)", [&] { o.emplace("a", y); }, false);
        writes("object::insert(k, const lvalue)", [&] { o.insert("b", x); }, false);
        writes("object[k] = lvalue", [&] { o["c"] = y; }, false);
        writes("value.emplace(lvalue)", [&] { va.emplace(y); }, false);
        writes("value.emplace(k, lvalue)", [&] { vo.emplace("k", y); }, false);
        writes("value[k] = lvalue", [&] { vo["l"] = y; }, false);
        writes("array[0] = lvalue", [&] { a[0] = y; }, false);
        const MV m = conv::to_model(json::value(x));
        const MV v1 = conv::to_model(va), v2 = conv::to_model(vo), v3 = conv::to_model(a), v4 = conv::to_model(o);
        if (v1 != MV::arr({ m }) || v2 != MV::obj({ { "k", m }, { "l", m } }) || v3 != MV::arr({ m, m, m }) || v4 != MV::obj({ { "a", m }, { "b", m }, { "c", m } })) {
            report(std::string("position:") + name, ref::dump(v1) + ref::dump(v2) + ref::dump(v3) + ref::dump(v4) + " but alone " + ref::dump(m));
        }
        if (!D::eq(x, y)) {
            report(std::string("source-changed:") + name, std::string(name) + ": an lvalue was moved from");
        }
        writes("value(rvalue)", [&] { v = json::value(C(x)); }, true);
        if (!D::shaped(x, conv::to_model(v))) {
            report(std::string("rvalue-shape:") + name, v.dumps());
        }
        writes("array::emplace_back(rvalue)", [&] { a.emplace_back(C(x)); }, true);
        if (!D::shaped(x, conv::to_model(a[a.size() - 1]))) {
            report(std::string("rvalue-shape:") + name, a.dumps());
        }
        writes("object[k] = rvalue", [&] { o["r"] = C(x); }, true);
        if (!D::shaped(x, conv::to_model(o.at("r")))) {
            report(std::string("rvalue-shape:") + name, o.dumps());
        }
    }
    // reading
    const MV m = conv::to_model(json::value(D::clone(x)));
    json::value v = conv::build(m);
    const json::value& cv = v;
    auto reads = [&](const char* how, bool moving, auto&& f) {
        calls = {};
        bool ok = false;
        const std::string what = outcome([&] { ok = D::eq(f(), x); });
        check(how, calls.from + calls.move_from, moving, calls.move_from);
        if (calls.to || calls.move_to) {
            report(std::string("calls:read-writes:") + how + ":" + name, show(calls));
        }
        if (!ok) {
            report(std::string("read:") + how + ":" + name, std::string(name) + " " + how + " of " + ref::dump(m) + ": " + (what.empty() ? "other data" : what));
        }
        if (const std::string d = conv::differs(v, m); !moving && !d.empty()) {
            report(std::string("read-changes:") + how + ":" + name, d);
            v = conv::build(m);
        }
    };
    reads("as of a const lvalue", false, [&] { return cv.as<C>(); });
    reads("as of an lvalue", false, [&] { return v.as<C>(); });
    reads("as of an rvalue", true, [&] {
        json::value w = conv::build(m);
        return std::move(w).template as<C>();
    });
    const json::value in = json::array { v, v };
    const json::value of = json::object { { "k", v } };
    reads("find in an array", false, [&] { return std::move(in.find<C>(1).value()); });
    reads("find in an object", false, [&] { return std::move(of.find<C>("k").value()); });
    if constexpr (types::copyable<C> && !std::is_constructible_v<std::string, C>) { // get() gives a std::string for a default that is one
        reads("get from an array", false, [&] { return in.get(1, C()); });
        reads("get from an object", false, [&] { return of.get("k", C()); });
        reads("get from the array", false, [&] { return in.as_array().get(1, C()); });
        reads("get from the object", false, [&] { return of.as_object().get("k", C()); });
    }
    if (conv::to_model(in) != MV::arr({ m, m }) || conv::to_model(of) != MV::obj({ { "k", m } })) {
        report(std::string("lookup-changes:") + name, in.dumps() + of.dumps());
    }
    if constexpr (!traits::is_optional<C> && !traits::is_tuple_like<C>) {
        reads("cast of a const lvalue", false, [&] { return static_cast<C>(cv); });
        reads("cast of an lvalue", false, [&] { return static_cast<C>(v); });
        reads("cast of an rvalue", true, [&] { return static_cast<C>(conv::build(m)); });
    }
    if (n) {
        calls = {};
        bool is = v.is<C>() && in.all<C>() && of.all<C>() && in.as_array().all<C>() && of.as_object().all<C>();
        if (!is || calls.check < 5 * n || calls.to || calls.move_to || calls.from || calls.move_from) {
            report(std::string("check:") + name, std::string(name) + " " + ref::dump(m) + (is ? "" : " is refused") + ": " + show(calls));
        }
        VF_COUNT("checks counted");
    }
}

template <typename E>
void positions(const char* elem, vf::Rng& g)
{
    const std::string e = elem;
    static std::map<std::string, std::string> names; // keep the pointers valid
    auto name = [&](const char* pattern) {
        std::string s = pattern;
        s.replace(s.find('?'), 1, e);
        return names.emplace(s, s).first->second.c_str();
    };
    const size_t n = g.below(4);
    const auto gen = [&] { return Desc<E>::gen(g, 0); };
    {
        counted<E>(elem, gen(), 1);
    }
    {
        std::vector<E> c;
        std::list<E> l;
        std::map<std::string, E> m;
        std::map<std::string, std::vector<E>> mv;
        for (size_t i = 0; i < n; ++i) {
            c.push_back(gen());
            l.push_back(gen());
            m.emplace(std::to_string(i), gen());
            mv[std::to_string(i)].push_back(gen());
        }
        counted(name("vector<?>"), c, n);
        counted(name("list<?>"), l, n);
        counted(name("map<string, ?>"), m, n);
        counted(name("map<string, vector<?>>"), mv, n);
        json::object o;
        calls = {};
        json::array a(c);
        json::array b(static_cast<const std::vector<E>&>(c));
        o = json::object(m);
        const json::array t(std::make_tuple(1, 2));
        if (calls.move_to || calls.to < 3 * n) {
            report(std::string("calls:json::array(lvalue):") + elem, show(calls));
        }
        calls = {};
        auto back = a.template as<std::vector<E>>();
        auto back2 = o.template as<std::map<std::string, E>>();
        auto back3 = static_cast<std::vector<E>>(std::as_const(a));
        if (calls.move_from || calls.from < 3 * n || !Desc<std::vector<E>>::eq(back, c) || !Desc<std::map<std::string, E>>::eq(back2, m) || !Desc<std::vector<E>>::eq(back3, c)) {
            report(std::string("calls:array::as(lvalue):") + elem, show(calls));
        }
    }
    counted(name("array<?, 2>"), std::array<E, 2> { gen(), gen() }, 2);
    counted(name("tuple<int, ?, ?>"), std::tuple<int, E, E>(1, gen(), gen()), 2);
    counted(name("pair<?, string>"), std::pair<E, std::string>(gen(), "s"), 1);
    counted(name("optional<?>"), n ? std::optional<E>(gen()) : std::optional<E>(), n ? 1 : 0);
    counted(name("shared_ptr<?>"), n ? std::make_shared<E>(gen()) : std::shared_ptr<E>(), n ? 1 : 0);
    {
        // judged as what it points to
        const std::unique_ptr<E> p = n ? std::make_unique<E>(gen()) : nullptr;
        counted(name("unique_ptr<?>"), p, n ? 1 : 0);
        calls = {};
        const json::value v(p);
        if ((n ? calls.to != 1 : calls.to != 0) || calls.move_to) {
            report(std::string("calls:unique_ptr lvalue:") + elem, show(calls));
        }
        std::unique_ptr<E> q = n ? std::make_unique<E>(*p) : nullptr;
        const json::value w(q);
        if (calls.move_to || (n && !Desc<E>::eq(*p, *q)) || (n && !q)) {
            report(std::string("calls:unique_ptr lvalue:") + elem, show(calls));
        }
    }
    {
        // bool is another kind of JSON than all of these
        const std::variant<bool, E> v = n ? std::variant<bool, E>(std::in_place_index<1>, gen()) : std::variant<bool, E>(true);
        counted(name("variant<bool, ?>"), v, n ? 1 : 0);
    }
}

// ---------------------------------------------------------------- check and loading that contradict each other
template <template <bool, bool> typename O, bool C, bool F>
void odd(const char* kind, const json::value& v, const MV& m)
{
    using T = O<C, F>;
    VF_COUNT("evaluations");
    const std::string where = std::string(kind) + (C ? " that accepts and " : " that refuses and ") + (F ? "loads" : "fails to load") + " " + vf::printable(ref::dump(m), 300);
    vf::input(where);
    const auto is = [&](const char* what, bool got, bool want) {
        VF_COUNT("odd checks");
        if (got != want) {
            report(std::string("odd-is:") + what, where + ": " + what + (got ? " holds" : " is false"));
        }
    };
    const bool empty = (m.k == MV::Arr && m.a.empty()) || (m.k == MV::Obj && m.o.empty());
    calls = {};
    is("is<T>()", v.is<T>(), C);
    if (calls.check != 1) {
        report("odd-check-calls", where + ": " + show(calls));
    }
    is("is<vector<T>>()", v.is<std::vector<T>>(), m.k == MV::Arr && (C || empty));
    is("is<map<string, T>>()", v.is<std::map<std::string, T>>(), m.k == MV::Obj && (C || empty));
    is("is<optional<T>>()", v.is<std::optional<T>>(), C || m.k == MV::Null);
    is("is<unique_ptr<T>>()", v.is<std::unique_ptr<T>>(), C || m.k == MV::Null);
    is("is<variant<T, string>>()", v.is<std::variant<T, std::string>>(), C || m.k == MV::Str);
    is("is<tuple<T>>()", v.is<std::tuple<T>>(), m.k == MV::Arr && m.a.size() == 1 && C);
    is("is<array<T, 2>>()", v.is<std::array<T, 2>>(), m.k == MV::Arr && m.a.size() == 2 && C);
    if (m.k == MV::Arr || m.k == MV::Obj) {
        is("all<T>()", v.all<T>(), C || empty);
    }
    auto as = [&](const char* what, auto&& f) {
        VF_COUNT("odd loads");
        const std::string r = outcome([&] {
            if (!f()) {
                report(std::string("odd-lost:") + what, where + ": " + what + " gives an object that was not loaded");
            }
        });
        if (F ? !r.empty() : !refused(r)) {
            report(std::string("odd-as:") + what, where + ": " + what + ": " + (r.empty() ? "no exception" : r));
        }
        if (const std::string d = conv::differs(v, m); !d.empty()) {
            report(std::string("odd-changed:") + what, where + ": " + what + " changed the value: " + d);
        }
    };
    const json::array one { v };
    const json::value two = json::array { v, v };
    const json::value obj = json::object { { "k", v } };
    as("as<T>()", [&] { return v.as<T>().loaded; });
    as("as<T>() of an rvalue", [&] { return conv::build(m).template as<T>().loaded; });
    as("cast", [&] { return static_cast<T>(v).loaded; });
    as("cast of an rvalue", [&] { return static_cast<T>(conv::build(m)).loaded; });
    as("as<vector<T>>()", [&] { return two.as<std::vector<T>>().at(1).loaded; });
    as("as<vector<T>>() of an rvalue", [&] { return json::value(two).template as<std::vector<T>>().at(1).loaded; });
    as("cast to vector<T>", [&] { return static_cast<std::vector<T>>(two).at(1).loaded; });
    as("array::as<vector<T>>()", [&] { return one.as<std::vector<T>>().at(0).loaded; });
    as("as<array<T, 2>>()", [&] { return two.as<std::array<T, 2>>()[1].loaded; });
    as("as<set<T>>()", [&] { return two.as<std::set<T>>().begin()->loaded; });
    as("as<tuple<T, T>>()", [&] { return std::get<1>(two.as<std::tuple<T, T>>()).loaded; });
    as("as<tuple<T, T>>() of an rvalue", [&] { return std::get<1>(json::value(two).template as<std::tuple<T, T>>()).loaded; });
    as("as<map<string, T>>()", [&] { return obj.as<std::map<std::string, T>>().at("k").loaded; });
    as("object::as<map<string, T>>()", [&] { return obj.as_object().as<std::map<std::string, T>>().at("k").loaded; });
    if (m.k != MV::Null) {
        as("as<optional<T>>()", [&] { return v.as<std::optional<T>>().value().loaded; });
        as("as<shared_ptr<T>>()", [&] { return v.as<std::shared_ptr<T>>()->loaded; });
        as("as<unique_ptr<T>>() of an rvalue", [&] { return conv::build(m).template as<std::unique_ptr<T>>()->loaded; });
    }
    else {
        const std::string r = outcome([&] {
            if (v.as<std::optional<T>>() || v.as<std::shared_ptr<T>>() || v.as<std::unique_ptr<T>>()) {
                report("odd-null", where + ": null gives a wrapper that is not empty");
            }
        });
        if (!r.empty()) {
            report("odd-null", where + ": " + r);
        }
    }
    if (C) {
        as("as<variant<T, string>>()", [&] { return std::get<0>(v.as<std::variant<T, std::string>>()).loaded; });
    }
    else if (m.k == MV::Str) {
        if (std::get<1>(v.as<std::variant<T, std::string>>()) != m.s) {
            report("odd-variant", where);
        }
    }
    else if (const std::string r = outcome([&] { (void)v.as<std::variant<T, std::string>>(); }); !refused(r)) {
        report("odd-variant", where + ": " + (r.empty() ? "no exception" : r));
    }
    // lookups: the element, the fallback, or the refusal as an exception; never an object half loaded
    auto look = [&](const char* what, auto&& f) {
        VF_COUNT("odd lookups");
        int loaded = -1;
        const std::string r = outcome([&] { loaded = f(); });
        if (r.empty() ? (loaded == 1 ? !F : loaded != 7) || (C && F && loaded != 1) : !refused(r) || F) {
            report(std::string("odd-lookup:") + what, where + ": " + what + ": " + (r.empty() ? "loaded " + std::to_string(loaded) : r));
        }
    };
    T def;
    def.loaded = 7;
    look("get(k)", [&] { return obj.get("k", def).loaded; });
    look("get(0)", [&] { return two.get(0, def).loaded; });
    look("object::get", [&] { return obj.as_object().get("k", def).loaded; });
    look("array::get", [&] { return one.get(0, def).loaded; });
    look("nested get", [&] { return json::value(json::object { { "o", obj } }).get("o", "k", def).loaded; });
    look("find(k)", [&] { return obj.find<T>("k").value_or(def).loaded; });
    look("find(0)", [&] { return two.find<T>(0).value_or(def).loaded; });
    look("array::find", [&] { return one.find<T>(0).value_or(def).loaded; });
    look("object::find", [&] { return obj.as_object().find<T>("k").value_or(def).loaded; });
    if (conv::to_model(two) != MV::arr({ m, m }) || conv::to_model(obj) != MV::obj({ { "k", m } })) {
        report("odd-changed:lookup", where);
    }
}

// a reflected struct of one
template <typename T>
struct Holder
{
    int before = 0;
    T odd;
    T maybe;

    MEO_JSONIZATION(before, odd, MEO_OPT maybe);
};

template <template <bool, bool> typename O, bool C, bool F>
void held(const char* kind, const json::value& v, const MV& m)
{
    using T = O<C, F>;
    const std::string where = std::string("a struct with ") + kind + (C ? " that accepts and " : " that refuses and ") + (F ? "loads" : "fails to load") + " " + vf::printable(ref::dump(m), 300);
    for (int with = 0; with < 2; ++with) {
        json::object o { { "before", 1 }, { "odd", v } };
        if (with) {
            o["maybe"] = v;
        }
        const json::value j(o);
        VF_COUNT("odd fields");
        if (j.is<Holder<T>>() != C) {
            report("odd-field-is", where);
        }
        int loaded = 0, maybe = -1;
        const std::string r = outcome([&] {
            auto h = j.as<Holder<T>>();
            loaded = h.odd.loaded;
            maybe = h.maybe.loaded;
        });
        // a check that refuses may have the field refused that would be loaded
        if (F && (C || r.empty()) ? !r.empty() || !loaded || maybe != with : !refused(r)) {
            report("odd-field-as", where + ": " + (r.empty() ? "loaded " + std::to_string(loaded) + std::to_string(maybe) : r));
        }
    }
    Holder<T> h;
    calls = {};
    const json::value j(h);
    if (calls.to != 2 || calls.move_to || conv::to_model(j) != MV::obj({ { "before", MV::num("0") }, { "odd", MV::obj({ { "odd", MV::num("1") } }) }, { "maybe", MV::obj({ { "odd", MV::num("1") } }) } })) {
        report("odd-field-to", j.dumps() + " " + show(calls));
    }
}

template <template <bool, bool> typename O>
void odds(const char* kind, const json::value& v, const MV& m)
{
    odd<O, true, true>(kind, v, m);
    odd<O, true, false>(kind, v, m);
    odd<O, false, true>(kind, v, m);
    odd<O, false, false>(kind, v, m);
    held<O, true, true>(kind, v, m);
    held<O, true, false>(kind, v, m);
    held<O, false, true>(kind, v, m);
    held<O, false, false>(kind, v, m);
}

// ---------------------------------------------------------------- types with only some of the functions
template <typename T>
void one_way_to(const char* name, int n)
{
    T x;
    x.n = n;
    const MV m = MV::arr({ MV::str("to"), MV::num(std::to_string(n)) });
    auto want = [&](const char* what, const json::value& v, const MV& w) {
        VF_COUNT("one-way conversions");
        if (conv::to_model(v) != w) {
            report(std::string("one-way:") + name, std::string(what) + " gives " + v.dumps() + " instead of " + ref::dump(w));
        }
    };
    want("value", json::value(x), m);
    want("rvalue", json::value(T(x)), m);
    want("vector", json::value(std::vector<T> { x, x }), MV::arr({ m, m }));
    const std::vector<T> c { x };
    want("const vector", json::value(c), MV::arr({ m }));
    want("map", json::value(std::map<std::string, T> { { "k", x } }), MV::obj({ { "k", m } }));
    want("tuple", json::value(std::make_tuple(1, x)), MV::arr({ MV::num("1"), m }));
    want("pair", json::value(std::make_pair(x, x)), MV::arr({ m, m }));
    want("array", json::value(std::array<T, 1> { x }), MV::arr({ m }));
    want("optional", json::value(std::optional<T>(x)), m);
    want("no optional", json::value(std::optional<T>()), MV::null());
    want("shared_ptr", json::value(std::make_shared<T>(x)), m);
    want("unique_ptr", json::value(std::make_unique<T>(x)), m);
    want("variant", json::value(std::variant<int, T>(x)), m);
    want("initializer lists", json::value(json::array { x, json::object { { "k", x } } }), MV::arr({ m, MV::obj({ { "k", m } }) }));
    json::value v;
    v["a"] = x;
    v["b"].emplace(x);
    v.emplace("c", x);
    want("members", v, MV::obj({ { "a", m }, { "b", MV::arr({ m }) }, { "c", m } }));
}

template <typename T>
void one_way_from(const char* name, const json::value& v, const MV& m)
{
    const bool number = m.k == MV::Num && Desc<int>::fits(m) == Yes;
    if (m.k == MV::Num && !number) {
        return; // refused by as_integer() in the user's own function
    }
    const std::string where = std::string(name) + " from " + vf::printable(ref::dump(m), 200);
    auto as = [&](const char* what, auto&& f) {
        VF_COUNT("one-way conversions");
        calls = {};
        int n = 0;
        const std::string r = outcome([&] { n = f().n; });
        if (number ? !r.empty() || std::to_string(n) != m.s : !refused(r) || calls.from == 0) {
            report(std::string("one-way:") + name, where + ": " + what + " gives " + (r.empty() ? std::to_string(n) : r));
        }
    };
    const json::value a = json::array { 1, v }, o = json::object { { "k", v } };
    as("as", [&] { return v.as<T>(); });
    as("as of an rvalue", [&] { return conv::build(m).template as<T>(); });
    as("cast", [&] { return static_cast<T>(v); });
    as("vector", [&] { return a.as<std::vector<T>>().at(1); });
    as("map", [&] { return o.as<std::map<std::string, T>>().at("k"); });
    as("tuple", [&] { return std::get<1>(a.as<std::tuple<int, T>>()); });
    if (m.k != MV::Null) {
        as("optional", [&] { return v.as<std::optional<T>>().value(); });
        as("shared_ptr", [&] { return *v.as<std::shared_ptr<T>>(); });
    }
}

[[maybe_unused]] void move_only(vf::Rng& g)
{
    const int n = static_cast<int>(g.below(1000));
    auto make = [&] {
        user::MoveOnly x;
        x.n = n;
        return x;
    };
    const MV m = MV::arr({ MV::str("only"), MV::num(std::to_string(n)) });
    auto want = [&](const char* what, auto&& f, const MV& w) {
        VF_COUNT("moves only");
        calls = {};
        const json::value v = f();
        if (conv::to_model(v) != w || calls.move_to == 0) {
            report("move-only", std::string(what) + " gives " + v.dumps() + " instead of " + ref::dump(w));
        }
    };
    want("value", [&] { return json::value(make()); }, m);
    want("vector", [&] {
        std::vector<user::MoveOnly> c;
        c.push_back(make());
        c.push_back(make());
        return json::value(std::move(c)); }, MV::arr({ m, m }));
    want("map", [&] {
        std::map<std::string, user::MoveOnly> c;
        c.emplace("k", make());
        return json::value(std::move(c)); }, MV::obj({ { "k", m } }));
    want("tuple", [&] { return json::value(std::tuple<int, user::MoveOnly>(1, make())); }, MV::arr({ MV::num("1"), m }));
    want("unique_ptr", [&] { return json::value(std::make_unique<user::MoveOnly>(make())); }, m);
    want("optional", [&] { return json::value(std::optional<user::MoveOnly>(make())); }, m);
    want("emplace", [&] {
        json::value v;
        v["a"].emplace(make());
        v["b"] = make();
        v.emplace("c", make());
        return v; }, MV::obj({ { "a", MV::arr({ m }) }, { "b", m }, { "c", m } }));
    auto from = [&](const char* what, auto&& f) {
        VF_COUNT("moves only");
        calls = {};
        int r = -1;
        const std::string x = outcome([&] { r = f().n; });
        if (!x.empty() || r != n || calls.move_from == 0) {
            report("move-only", std::string(what) + " of " + ref::dump(m) + " gives " + (x.empty() ? std::to_string(r) : x));
        }
    };
    using M = user::MoveOnly;
    const json::value v = conv::build(m);
    from("as", [&] { return json::value(v).as<M>(); });
    from("cast", [&] { return static_cast<M>(json::value(v)); });
    from("cast to vector", [&] { return std::move(static_cast<std::vector<M>>(json::value(json::array { v, v })).at(1)); });
    from("cast to map", [&] { return std::move(static_cast<std::map<std::string, M>>(json::value(json::object { { "k", v } })).at("k")); });
    from("cast to unique_ptr", [&] { return std::move(*static_cast<std::unique_ptr<M>>(json::value(v))); });
    from("cast to shared_ptr", [&] { return std::move(*static_cast<std::shared_ptr<M>>(json::value(v))); });
    from("array::as vector", [&] { return std::move(json::array { v, v }.as<std::vector<M>>().at(1)); });
    from("object::as map", [&] { return std::move(json::object { { "k", v } }.as<std::map<std::string, M>>().at("k")); });
    from("as optional", [&] { return std::move(json::value(v).as<std::optional<M>>().value()); });
    for (const json::value& bad : { json::value(), json::value(1), json::value("only"), json::value(json::array { "only" }), json::value(json::object {}) }) {
        if (const std::string r = outcome([&] { (void)json::value(bad).as<M>(); }); !refused(r)) {
            report("move-only", "as of " + bad.dumps() + ": " + r);
        }
        if (const std::string r = outcome([&] { (void)static_cast<std::vector<M>>(json::value(json::array { v, bad })); }); !refused(r)) {
            report("move-only", "as<vector> with " + bad.dumps() + ": " + r);
        }
    }
}

// ---------------------------------------------------------------- standard types that the user converts differently
template <typename T>
void overridden(const char* name, T (*make)(), const json::value& native)
{
    VF_COUNT("overridden types");
    const std::string own = std::string("own ") + name;
    const MV m = MV::str(own);
    auto want = [&](const char* what, auto&& f, const MV& w) {
        calls = {};
        const json::value v = f();
        if (conv::to_model(v) != w || calls.to == 0) {
            report(std::string("overridden-to:") + name, std::string(what) + " gives " + v.dumps() + " instead of " + ref::dump(w));
        }
    };
    T x = make();
    const T& cx = x;
    want("const lvalue", [&] { return json::value(cx); }, m);
    want("lvalue", [&] { return json::value(x); }, m);
    want("rvalue", [&] { return json::value(make()); }, m);
    want("emplaced", [&] { json::value v; v.emplace(x); v.emplace(make()); return v; }, MV::arr({ m, m }));
    want("vector", [&] { std::vector<T> c; c.push_back(make()); return json::value(c); }, MV::arr({ m }));
    want("vector rvalue", [&] { std::vector<T> c; c.push_back(make()); return json::value(std::move(c)); }, MV::arr({ m }));
    want("map", [&] { std::map<std::string, T> c; c.emplace("k", make()); return json::value(c); }, MV::obj({ { "k", m } }));
    want("map rvalue", [&] { std::map<std::string, T> c; c.emplace("k", make()); return json::value(std::move(c)); }, MV::obj({ { "k", m } }));
    want("tuple", [&] { std::tuple<T, int> c { make(), 1 }; return json::value(c); }, MV::arr({ m, MV::num("1") }));
    want("optional", [&] { std::optional<T> c { make() }; return json::value(std::move(c)); }, m);
    want("shared_ptr", [&] { return json::value(std::make_shared<T>(make())); }, m);
    want("variant", [&] { std::variant<bool, T> c { std::in_place_index<1>, make() }; return json::value(c); }, m);
    json::value good(own);
    auto reads = [&](const char* what, auto&& f) {
        calls = {};
        const std::string r = outcome([&] { f(); });
        if (!r.empty() || calls.from == 0) {
            report(std::string("overridden-from:") + name, std::string(what) + ": " + (r.empty() ? "not by the user's function" : r));
        }
    };
    auto fails = [&](const char* what, auto&& f) {
        calls = {};
        const std::string r = outcome([&] { f(); });
        if (!refused(r) || calls.from == 0) {
            report(std::string("overridden-from:") + name, std::string(what) + " of " + native.dumps() + ": " + (r.empty() ? "accepted" : r));
        }
    };
    reads("as", [&] { (void)good.as<T>(); });
    reads("as of an rvalue", [&] { (void)json::value(own).as<T>(); });
    reads("vector", [&] { (void)json::value(json::array { good }).as<std::vector<T>>(); });
    reads("const vector", [&] { const json::value v = json::array { good }; (void)v.as<std::vector<T>>(); });
    reads("map", [&] { (void)json::value(json::object { { "k", good } }).as<std::map<std::string, T>>(); });
    reads("tuple", [&] { (void)json::value(json::array { good, 1 }).as<std::tuple<T, int>>(); });
    reads("array", [&] { (void)json::value(json::array { good }).as<std::array<T, 1>>(); });
    reads("optional", [&] { (void)good.as<std::optional<T>>(); });
    reads("optional of an rvalue", [&] { (void)json::value(own).as<std::optional<T>>(); });
    reads("variant", [&] { (void)good.as<std::variant<bool, T>>(); });
    reads("find", [&] { (void)json::object { { "k", good } }.find<T>("k").value(); });
    fails("as", [&] { (void)native.as<T>(); });
    fails("as of an rvalue", [&] { (void)json::value(native).as<T>(); });
    fails("as<vector>", [&] { (void)json::value(json::array { native }).as<std::vector<T>>(); });
    fails("as<map>", [&] { (void)json::value(json::object { { "k", native } }).as<std::map<std::string, T>>(); });
    if constexpr (!traits::is_optional<T> && !traits::is_tuple_like<T>) {
        // the converting constructors of std::optional, std::pair and std::tuple are preferred by the language
        reads("cast", [&] { (void)static_cast<T>(good); });
        reads("cast of an rvalue", [&] { (void)static_cast<T>(json::value(own)); });
        fails("cast", [&] { (void)static_cast<T>(native); });
        fails("cast of an rvalue", [&] { (void)static_cast<T>(json::value(native)); });
    }
    calls = {};
    if (!good.is<T>() || native.is<T>() || json::array { native }.all<T>() || !json::array { good }.all<T>() || calls.check != 4) {
        report(std::string("overridden-is:") + name, show(calls));
    }
    if (json::object { { "k", native } }.find<T>("k") || json::value(json::array { native }).is<std::vector<T>>()) {
        report(std::string("overridden-is:") + name, "find or is<vector>");
    }
}

// ---------------------------------------------------------------- arrays and objects to and from such types
template <typename T>
void as_array(const char* name, vf::Rng& g)
{
    const T x = Desc<T>::gen(g, 0);
    const json::value v(x);
    const json::array a = v.as_array();
    calls = {};
    T y = static_cast<T>(a);
    if (!Desc<T>::eq(x, y) || calls.from != 1 || calls.move_from) {
        report(std::string("array-cast:") + name, a.dumps() + " " + show(calls));
    }
    json::array bad = a;
    bad.push_back(nullptr);
    bad.push_back(1);
    if (const std::string r = outcome([&] { (void)static_cast<T>(bad); }); !refused(r)) {
        report(std::string("array-cast:") + name, bad.dumps() + " " + r);
    }
    VF_COUNT("casts of arrays and objects");
}

template <typename T>
void as_object(const char* name, vf::Rng& g)
{
    const T x = Desc<T>::gen(g, 0);
    const json::value v(x);
    const json::object o = v.as_object();
    calls = {};
    T y = static_cast<T>(o);
    if (!Desc<T>::eq(x, y) || calls.from != 1 || calls.move_from) {
        report(std::string("object-cast:") + name, o.dumps() + " " + show(calls));
    }
    json::object bad = o;
    bad.emplace("another", nullptr);
    if (const std::string r = outcome([&] { (void)static_cast<T>(bad); }); !refused(r)) {
        report(std::string("object-cast:") + name, bad.dumps() + " " + r);
    }
    VF_COUNT("casts of arrays and objects");
}
// ---------------------------------------------------------------- types that are an array or an object of the library
template <typename T, typename J>
void whole(const char* kind, vf::Rng& g)
{
    constexpr bool copies = std::is_copy_constructible_v<T>;
    constexpr bool mover = std::is_same_v<T, user::WholeMover<J>> || std::is_same_v<T, user::WholeMoveOnly<J>>;
    const std::string name = std::string(kind) + (std::is_same_v<J, json::array> ? " for an array" : " for an object");
    T x {};
    x.n = static_cast<int>(g.range(-999, 99999));
    const std::string tail = x.tail;
    const J w = user::Whole<J>::make(x.n);
    const MV m = conv::to_model(w);
    // what gives something the library made of x: the calls, the JSON, and x as it was
    auto writes = [&](const char* how, size_t n, size_t moves, const MV& expect, auto&& f) {
        VF_COUNT("whole conversions");
        calls = {};
        std::string got;
        const std::string o = outcome([&] {
            const auto j = f();
            if (const MV r = conv::to_model(j); r != expect) {
                got = ref::dump(r);
            }
        });
        if (!o.empty() || !got.empty()) {
            report("whole-to:" + name, std::string(how) + " of " + ref::dump(m) + " gives " + (o.empty() ? got : o));
        }
        if (calls.to + calls.move_to != n || calls.move_to != moves || calls.check || calls.from || calls.move_from) {
            report("whole-calls:" + name, std::string(how) + ": " + show(calls) + " instead of " + std::to_string(n) + " with " + std::to_string(moves) + " moving");
        }
        if (x.tail != tail) {
            report("whole-source:" + name, std::string(how) + " moved from an lvalue");
            x.tail = tail;
        }
    };
    auto make = [&] { T y {}; y.n = x.n; return y; };
    const size_t mv = mover ? 1 : 0;
    writes("construction from an rvalue", 1, mv, m, [&] { return J(make()); });
    writes("construction from a moved lvalue", 1, mv, m, [&] { T y = make(); return J(std::move(y)); });
    writes("a value from an rvalue", 1, mv, m, [&] { return json::value(make()); });
    writes("implicit from an rvalue", 1, mv, m, [&] { J j = make(); return j; });
    writes("assignment of an rvalue", 1, mv, m, [&] { J j = user::Whole<J>::make(-1); j = make(); return j; });
    if constexpr (copies) {
        const T& cx = x;
        writes("construction from an lvalue", 1, 0, m, [&] { return J(x); });
        writes("construction from a const lvalue", 1, 0, m, [&] { return J(cx); });
        writes("implicit from an lvalue", 1, 0, m, [&] { J j = x; return j; });
        writes("a value from an lvalue", 1, 0, m, [&] { return json::value(x); });
        writes("a value from a const lvalue", 1, 0, m, [&] { return json::value(cx); });
        // the assignment takes a copy, which it may move from
        writes("assignment of an lvalue", 1, mv, m, [&] { J j = user::Whole<J>::make(-1); j = x; return j; });
        writes("assignment of a const lvalue", 1, mv, m, [&] { J j = user::Whole<J>::make(-1); j = cx; return j; });
        if constexpr (std::is_same_v<J, json::array>) {
            writes("array + lvalue", 1, 0, MV::arr({ MV::num("1"), MV::str("whole"), MV::num(std::to_string(x.n)) }), [&] { return json::array { 1 } + x; });
            writes("array += lvalue", 1, 0, MV::arr({ MV::num("1"), MV::str("whole"), MV::num(std::to_string(x.n)) }), [&] { json::array j { 1 }; j += x; return j; });
        }
        else {
            writes("object | lvalue", 1, 0, MV::obj({ { "a", MV::num("1") }, { "whole", MV::num(std::to_string(x.n)) } }), [&] { return json::object { { "a", 1 } } | x; });
            writes("object |= lvalue", 1, 0, MV::obj({ { "a", MV::num("1") }, { "whole", MV::num(std::to_string(x.n)) } }), [&] { json::object j { { "a", 1 } }; j |= x; return j; });
        }
    }
    auto reads = [&](const char* how, size_t moves, auto&& f) {
        VF_COUNT("whole conversions");
        calls = {};
        int got = -1;
        const std::string o = outcome([&] { got = f().n; });
        if (!o.empty() || got != x.n) {
            report("whole-from:" + name, std::string(how) + " of " + ref::dump(m) + " gives " + (o.empty() ? std::to_string(got) : o));
        }
        if (calls.from + calls.move_from != 1 || calls.move_from != moves || calls.to || calls.move_to) {
            report("whole-calls:" + name, std::string(how) + ": " + show(calls) + " instead of one, " + std::to_string(moves) + " moving");
        }
    };
    auto fails = [&](const char* how, const MV& bad, auto&& f) {
        VF_COUNT("whole refusals");
        calls = {};
        const std::string r = outcome([&] { (void)f(conv::build(bad)); });
        if (!refused(r)) {
            report("whole-from:" + name, std::string(how) + " of " + ref::dump(bad) + ": " + (r.empty() ? "accepted" : r));
        }
    };
    reads("cast of an rvalue", mv, [&] { J j = w; return static_cast<T>(std::move(j)); });
    reads("cast of a value rvalue", mv, [&] { return static_cast<T>(json::value(w)); });
    if constexpr (copies) {
        J l = w;
        reads("cast of a const lvalue", 0, [&] { return static_cast<T>(w); });
        reads("cast of an lvalue", 0, [&] { return static_cast<T>(l); });
        if (conv::to_model(l) != m || conv::to_model(w) != m) {
            report("whole-source:" + name, "reading changed the source " + l.dumps());
        }
    }
    const bool arr = std::is_same_v<J, json::array>;
    for (const MV& bad : { arr ? MV::arr() : MV::obj(), arr ? MV::arr({ MV::str("whole"), MV::null() }) : MV::obj({ { "whole", MV::null() } }),
                           arr ? MV::arr({ m, m, m }) : MV::obj({ { "a", m }, { "b", m } }) }) {
        auto get = [&](json::value&& v) -> J {
            if constexpr (std::is_same_v<J, json::array>) {
                return std::move(v).as_array();
            }
            else {
                return std::move(v).as_object();
            }
        };
        fails("cast of an rvalue", bad, [&](json::value&& v) { return static_cast<T>(get(std::move(v))); });
        if constexpr (copies) {
            fails("cast of an lvalue", bad, [&](json::value&& v) { const J j = get(std::move(v)); return static_cast<T>(j); });
        }
    }
}
}

#ifndef VF_PART
#define VF_PART -1
#endif

// compiled one by one
#if VF_PART == 10 || VF_PART == -1
SECTION(calls_Member, 200, 10000)
{
    (void)idx;
    positions<user::Member>("Member", rng);
}
#endif

#if VF_PART == 11 || VF_PART == -1
SECTION(calls_Spec, 200, 10000)
{
    (void)idx;
    positions<user::Spec>("Spec", rng);
}
#endif

#if VF_PART == 12 || VF_PART == -1
SECTION(calls_Vec, 200, 10000)
{
    (void)idx;
    positions<user::Vec>("Vec", rng);
}
#endif

#if VF_PART == 13 || VF_PART == -1
SECTION(calls_Map, 200, 10000)
{
    (void)idx;
    positions<user::Map>("Map", rng);
}
#endif

#if VF_PART == 14 || VF_PART == -1
SECTION(calls_Text, 200, 10000)
{
    (void)idx;
    positions<user::Text>("Text", rng);
}
#endif

#if VF_PART == 15 || VF_PART == -1
SECTION(calls_Tags, 200, 10000)
{
    (void)idx;
    positions<user::Tags>("Tags", rng);
}
#endif

#if VF_PART == 16 || VF_PART == -1
SECTION(calls_TagPair, 200, 10000)
{
    (void)idx;
    positions<user::TagPair>("TagPair", rng);
}
#endif

#if VF_PART == 17 || VF_PART == -1
SECTION(calls_Seconds, 200, 10000)
{
    (void)idx;
    positions<user::Seconds>("Seconds", rng);
}
#endif

#if VF_PART == 18 || VF_PART == -1
SECTION(calls_Mover, 200, 10000)
{
    (void)idx;
    positions<user::Mover>("Mover", rng);
}
#endif

#if VF_PART == 2 || VF_PART == -1
SECTION(calls_Both, 300, 10000)
{
    (void)idx;
    user::Both b = Desc<user::Both>::gen(rng, 0);
    const size_t n = 3 + b.specs.size() + (b.vec ? 1 : 0);
    counted("Both", b, n);
    counted("vector<Both>", std::vector<user::Both> { b, b }, 2 * n);
    counted("map<string, Both>", std::map<std::string, user::Both> { { "k", b } }, n);
    as_array<user::Spec>("Spec", rng);
    as_array<user::Text>("Text", rng);
    as_object<user::Member>("Member", rng);
    as_object<user::Seconds>("Seconds", rng);
}
#endif

#if VF_PART == 2 || VF_PART == -1
SECTION(whole_, 400, 20000)
{
    (void)idx;
    VF_COUNT("evaluations");
    whole<user::WholeMember<json::array>, json::array>("a member", rng);
    whole<user::WholeMember<json::object>, json::object>("a member", rng);
    whole<user::WholeSpec<json::array>, json::array>("a specialisation", rng);
    whole<user::WholeSpec<json::object>, json::object>("a specialisation", rng);
    whole<user::WholeMover<json::array>, json::array>("moving functions", rng);
    whole<user::WholeMover<json::object>, json::object>("moving functions", rng);
    whole<user::WholeMoveOnly<json::array>, json::array>("moving functions alone", rng);
    whole<user::WholeMoveOnly<json::object>, json::object>("moving functions alone", rng);
}
#endif

#if VF_PART == 3 || VF_PART == 5 || VF_PART == 6 || VF_PART == -1
SECTION(odd_, 600, 30000)
{
    const MV m = idx < 9 ? (idx == 0 ? MV::null() : idx == 1 ? MV::str("") : idx == 2 ? MV::arr() : idx == 3 ? MV::obj() : idx == 4 ? MV::arr({ MV::null() }) : ref::gen_scalar(rng, 10)) : ref::gen_doc(rng, 6, 3, 8);
    const json::value v = conv::build(m);
    vf::distinct(vf::hash_bytes(ref::dump(m)));
    if (idx < 12 && idx > 8) {
        vf::sample(vf::printable(ref::dump(m), 150));
    }
#if VF_PART == 3 || VF_PART == -1
    odds<user::OddMember>("a type with members", v, m);
#endif
#if VF_PART == 5 || VF_PART == -1
    odds<user::OddSpec>("a type with a specialisation", v, m);
#endif
#if VF_PART == 6 || VF_PART == -1
    odds<user::OddMover>("a type with moving functions", v, m);
#endif
    VF_COUNT("odd values");
}
#endif

#if VF_PART == 4 || VF_PART == -1
SECTION(partial, 800, 20000)
{
    const MV m = rng.chance(1, 2) ? MV::num(std::to_string(rng.range(-9, 99999))) : ref::gen_doc(rng, 4, 2, 8);
    const json::value v = conv::build(m);
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(ref::dump(m), idx));
    one_way_to<user::ToMember>("to_json() alone", static_cast<int>(rng.range(-99, 99)));
    one_way_to<user::ToSpec>("jsonization::to_json() alone", static_cast<int>(rng.range(-99, 99)));
    one_way_from<user::FromMember>("from_json() alone", v, m);
    one_way_from<user::FromSpec>("jsonization::from_json() alone", v, m);
    move_only(rng);
}

SECTION(overridden_, 4, 4)
{
    using json::ext::SameArray;
    using json::ext::SameMap;
    using json::ext::SamePair;
    using json::ext::SameTuple;
    using json::ext::SameVariant;
    VF_COUNT("evaluations");
    overridden<std::vector<long>>("vector", [] { return std::vector<long> { 1, 2 }; }, json::array { 1, 2 });
    overridden<std::set<long>>("set", [] { return std::set<long> { 1, 2 }; }, json::array { 1, 2 });
    overridden<SameMap>("map", [] { return SameMap { { "a", 1 } }; }, json::object { { "a", 1 } });
    overridden<SamePair>("pair", [] { return SamePair(1, 2); }, json::array { 1, 2 });
    overridden<SameTuple>("tuple", [] { return SameTuple(1, 2, 3); }, json::array { 1, 2, 3 });
    overridden<SameArray>("array", [] { return SameArray { 1, 2 }; }, json::array { 1, 2 });
    overridden<std::optional<long>>("optional", [] { return std::optional<long>(1); }, 1);
    overridden<std::shared_ptr<long>>("shared_ptr", [] { return std::make_shared<long>(1); }, 1);
    overridden<SameVariant>("variant", [] { return SameVariant(1); }, 1);
}
#endif
