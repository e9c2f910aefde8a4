// P10: is<T>() holds exactly if as<T>() succeeds; both for lvalues and rvalues; nothing changes.
#include "hist.hpp"
#include "types.hpp"

using namespace types;

namespace
{
template <typename T>
constexpr bool castable = !traits::is_optional<T> && !traits::is_tuple_like<T> && !std::is_same_v<T, json::value>;

// converted by the user, not as the container that it is
template <typename T>
constexpr bool own = traits::own_loading<T>;

// what happened in a conversion
template <typename T>
struct Outcome
{
    std::optional<T> x;
    bool json_exception = false, std_exception = false;
    std::string what;
};

template <typename T, typename F>
Outcome<T> attempt(F&& f)
{
    Outcome<T> o;
    try {
        o.x.emplace(f());
    }
    catch (const json::exception& e) {
        o.json_exception = o.std_exception = true;
        o.what = e.what();
    }
    catch (const std::exception& e) {
        o.std_exception = true;
        o.what = e.what();
    }
    catch (...) {
        o.what = "not a std::exception";
    }
    return o;
}

template <typename T>
void judge(const char* name, const json::value& v, const MV& m)
{
    using D = Desc<T>;
    const std::string text = ref::dump(m);
    vf::input(text);
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(text, vf::hash_bytes(name)));
    auto report = [&](const char* key, const std::string& what) {
        vf::violation(std::string(key) + ":" + name, std::string(name) + " from " + vf::printable(text) + ": " + what, text);
    };
    bool is = false;
    try {
        is = v.is<T>();
    }
    catch (...) {
        report("is-throws", vf::what_of_current_exception());
        return;
    }
    const Tri want = D::fits(m);
    if (want == Yes) {
        VF_COUNT("fitting values");
    }
    else if (want == No) {
        VF_COUNT("values that do not fit");
    }
    if (want != Maybe && is != (want == Yes)) {
        report("is-wrong", is ? "is<T>() holds" : "is<T>() is false");
    }
    auto check = [&](const char* route, const Outcome<T>& o) {
        VF_COUNT("conversions");
        if (!o.x && !o.std_exception) {
            report("strange-exception", std::string(route) + ": " + o.what);
        }
        if (static_cast<bool>(o.x) != is) {
            report("is-disagrees", std::string(route) + (is ? " throws although is<T>() holds: " + o.what : " succeeds although is<T>() is false"));
            return;
        }
        if (o.x) {
            VF_COUNT("successes");
            if (!D::agrees(*o.x, m)) {
                report("wrong-data", std::string(route) + " gives other data");
            }
        }
        else {
            VF_COUNT("refusals");
            if (o.what.empty()) {
                report("no-message", route);
            }
        }
    };
    const Outcome<T> left = attempt<T>([&] { return v.as<T>(); });
    check("as<T>() of an lvalue", left);
    if (std::string d = conv::differs(v, m); !d.empty()) {
        report("changed", "is or as changed the value: " + d);
    }
    {
        json::value w = conv::build(m);
        const Outcome<T> right = attempt<T>([&] { return std::move(w).template as<T>(); });
        check("as<T>() of an rvalue", right);
        if (left.x && right.x && !D::eq(*left.x, *right.x)) {
            report("rvalue-differs", "as<T>() of an rvalue gives other data");
        }
        w = 1; // still usable
    }
    if constexpr (castable<T>) {
        check("cast of an lvalue", attempt<T>([&] { return static_cast<T>(v); }));
        json::value w = conv::build(m);
        check("cast of an rvalue", attempt<T>([&] { return static_cast<T>(std::move(w)); }));
    }
    {
        json::value w = conv::build(m);
        check("as<T>() of a non-const lvalue", attempt<T>([&] { return w.template as<T>(); }));
        if (std::string d = conv::differs(w, m); !d.empty()) {
            report("changed", "as of a non-const lvalue changed the value: " + d);
        }
    }
    // the same conversion offered by json::array and json::object
    if constexpr (!own<T> && (traits::is_collection<T> || traits::is_fixed_array<T> || traits::is_tuple_like<T>)) {
        if (m.k == MV::Arr) {
            const json::array a = v.as_array();
            check("array::as<T>() of an lvalue", attempt<T>([&] { return a.as<T>(); }));
            json::array b = a;
            check("array::as<T>() of an rvalue", attempt<T>([&] { return std::move(b).template as<T>(); }));
            if (conv::to_model(a) != m) {
                report("changed", "array::as changed the array");
            }
        }
    }
    if constexpr (!own<T> && traits::is_map<T> && !std::is_same_v<T, json::object>) {
        if (m.k == MV::Obj) {
            const json::object a = v.as_object();
            check("object::as<T>() of an lvalue", attempt<T>([&] { return a.as<T>(); }));
            json::object b = a;
            check("object::as<T>() of an rvalue", attempt<T>([&] { return std::move(b).template as<T>(); }));
            if (conv::to_model(a) != m) {
                report("changed", "object::as changed the object");
            }
        }
    }
    // all<T>() of a container of such values
    {
        const bool other = text.size() % 2;
        const json::value arr = json::array { v, other ? v : json::value(json::object { { "##", v } }) };
        const json::value obj = json::object { { "a", v }, { "b", v } };
        const bool second = other ? is : arr[1].is<T>();
        if (arr.all<T>() != (is && second) || arr.as_array().all<T>() != (is && second) || obj.all<T>() != is || obj.as_object().all<T>() != is) {
            report("all-disagrees", "all<T>() is not is<T>() of every element");
        }
    }
}

template <typename F>
void each(vf::Rng& rng, u_int64_t idx, F&& f)
{
    with_type(idx, [&](auto* t, const char* name) { f(t, name, rng); });
}
}

// JSON of the right kind, and the same with one place changed
SECTION(near, 14000, 400000)
{
    each(rng, idx, [&](auto* t, const char* name, vf::Rng& g) {
        using T = std::decay_t<decltype(*t)>;
        MV m = Desc<T>::some(g, 0);
        if (idx < 3) {
            vf::sample(std::string(name) + " " + vf::printable(ref::dump(m), 150));
        }
        judge<T>(name, g.chance(1, 2) ? conv::build(m) : hist::make(g, m), m);
        m = hist::perturb(g, m);
        judge<T>(name, conv::build(m), m);
        if (g.chance(1, 3)) {
            m = hist::perturb(g, m);
            judge<T>(name, conv::build(m), m);
        }
    });
}

// any JSON at all
SECTION(any, 3000, 100000)
{
    each(rng, idx, [&](auto* t, const char* name, vf::Rng& g) {
        using T = std::decay_t<decltype(*t)>;
        const MV m = g.chance(1, 3) ? ref::gen_scalar(g, 20) : ref::gen_doc(g, 8, 3, 10);
        judge<T>(name, conv::build(m), m);
    });
}

// a fixed grid of small values, wrapped in one or two containers
SECTION(grid, 18, 18)
{
    each(rng, idx, [&](auto* t, const char* name, vf::Rng&) {
        using T = std::decay_t<decltype(*t)>;
        const std::vector<MV> atoms = { MV::null(), MV::boolean(true), MV::boolean(false), MV::num("0"), MV::num("1"), MV::num("-1"), MV::num("1.5"), MV::num("1e2"), MV::num("2147483647"), MV::num("2147483648"),
                                        MV::num("4294967296"), MV::num("-2147483649"), MV::num("9223372036854775808"), MV::num("18446744073709551615"), MV::num("1e39"), MV::num("1e999"), MV::num("5e-324"), MV::str(""), MV::str("a"),
                                        MV::str("Red"), MV::str("gREEN"), MV::str("0"), MV::str("true"), MV::arr(), MV::obj(), MV::obj({ { "x", MV::num("1") }, { "la bel", MV::str("l") } }) };
        auto go = [&](const MV& m) { judge<T>(name, conv::build(m), m); };
        for (auto& a : atoms) {
            go(a);
            go(MV::arr({ a }));
            go(MV::arr({ a, a, a }));
            go(MV::obj({ { "k", a } }));
            go(MV::arr({ MV::arr({ a }) }));
            go(MV::arr({ MV::obj({ { "k", a } }) }));
            go(MV::obj({ { "k", MV::arr({ a, a }) } }));
            go(MV::obj({ { "k", MV::obj({ { "k", a } }) } }));
            for (auto& b : atoms) {
                go(MV::arr({ a, b }));
                VF_COUNT("grid values");
            }
        }
    });
}

#if VF_GROUP == 0
// many elements of which one may not fit
SECTION(big, 24, 200)
{
    const size_t n = ref::big_sizes[idx / 4 % std::size(ref::big_sizes)];
    const size_t odd = rng.chance(1, 3) ? SIZE_MAX : rng.chance(1, 2) ? n - 1 - rng.below(3) : rng.below(n);
    const MV other = rng.chance(1, 2) ? MV::str("x") : rng.chance(1, 2) ? MV::num("1.5") : MV::null();
    MV m = idx % 4 == 2 ? MV::obj() : MV::arr();
    for (size_t i = 0; i < n; ++i) {
        MV e = i == odd ? other : idx % 4 == 3 ? MV::str(std::to_string(i)) : MV::num(std::to_string(i));
        if (m.k == MV::Arr) {
            m.a.push_back(std::move(e));
        }
        else {
            m.o.emplace(std::to_string(i), std::move(e));
        }
    }
    const json::value v = conv::build(m);
    switch (idx % 4) {
    case 0:
        judge<std::vector<int>>("vector<int>", v, m);
        break;
    case 1:
        judge<std::set<int>>("set<int>", v, m);
        break;
    case 2:
        judge<std::map<std::string, int>>("map<string, int>", v, m);
        break;
    default:
        judge<std::vector<std::string>>("vector<string>", v, m);
        break;
    }
    VF_COUNT("big values");
}
#endif
