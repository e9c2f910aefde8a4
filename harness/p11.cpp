// P11: C++ data survives the trip to JSON and back; shapes as documented; sources unchanged.
#include "types.hpp"

#include <forward_list>

using namespace types;

namespace
{
// converted by the user, not as the container that it is
template <typename T>
constexpr bool own = traits::own_saving<T>;

template <typename T>
void judge(const char* name, const T& x)
{
    using D = Desc<T>;
    T copy = D::clone(x);
    auto report = [&](const char* key, const std::string& what) { vf::violation(std::string(key) + ":" + name, std::string(name) + ": " + what, what); };
    VF_COUNT("evaluations");
    const json::value v(x);
    const MV m = conv::to_model(v);
    const std::string text = ref::dump(m);
    vf::input(text);
    if (vf::distinct(vf::hash_bytes(text, vf::hash_bytes(name)))) {
        VF_COUNT("distinct data");
    }
    if (!D::shaped(x, m)) {
        report("shape", "a const lvalue became " + vf::printable(text));
    }
    if (!D::eq(x, copy)) {
        report("source-changed", "converting a const lvalue changed it: " + vf::printable(text));
    }
    {
        const json::value w(copy);
        if (!D::eq(x, copy)) {
            report("source-changed", "converting a non-const lvalue changed it: " + vf::printable(text));
            copy = D::clone(x);
        }
        if (conv::to_model(w) != m) {
            report("non-const-differs", "a non-const lvalue became " + vf::printable(w.dumps()) + " but a const one " + vf::printable(text));
        }
    }
    {
        const json::value w(std::move(copy));
        if (conv::to_model(w) != m) {
            report("rvalue-differs", "an rvalue became " + vf::printable(w.dumps()) + " but an lvalue " + vf::printable(text));
        }
        if (!D::eq(x, x) || conv::to_model(v) != m) {
            report("shared", "moving a copy changed the original");
        }
    }
    if constexpr (types::copyable<T>) {
        // a copy that shares pointees with the source, converted as an rvalue
        T shallow = x;
        const json::value w(std::move(shallow));
        if (conv::to_model(w) != m || !D::shaped(x, m)) {
            report("shared-pointee", "converting a shallow copy as an rvalue changed the original: " + vf::printable(text));
        }
        const json::array in { x };
        json::object o;
        o["k"] = x;
        json::value plain;
        plain = x;
        if (conv::to_model(in) != MV::arr({ m }) || conv::to_model(o) != MV::obj({ { "k", m } }) || conv::to_model(plain) != m) {
            report("in-container", vf::printable(in.to_string()) + " " + vf::printable(o.to_string()) + " but alone " + vf::printable(text));
        }
    }
    {
        json::array a;
        a.emplace_back(x);
        a.push_back(D::clone(x));
        json::object o;
        o.emplace("k", x);
        o.insert("l", D::clone(x));
        if (conv::to_model(a) != MV::arr({ m, m }) || conv::to_model(o) != MV::obj({ { "k", m }, { "l", m } })) {
            report("in-container", vf::printable(a.to_string()) + " " + vf::printable(o.to_string()) + " but alone " + vf::printable(text));
        }
    }
    if constexpr (!own<T> && (traits::is_collection<T> || traits::is_fixed_array<T> || traits::is_tuple_like<T>)) {
        if constexpr (!std::is_same_v<T, json::array>) {
            const json::array a(x);
            const json::array b(D::clone(x));
            if (conv::to_model(a) != m || conv::to_model(b) != m) {
                report("array-differs", vf::printable(a.to_string()) + " " + vf::printable(b.to_string()) + " but as a value " + vf::printable(text));
            }
        }
    }
    if constexpr (!own<T> && traits::is_map<T> && !std::is_same_v<T, json::object>) {
        const json::object a(x);
        const json::object b(D::clone(x));
        if (conv::to_model(a) != m || conv::to_model(b) != m) {
            report("object-differs", vf::printable(a.to_string()) + " " + vf::printable(b.to_string()) + " but as a value " + vf::printable(text));
        }
    }
    // and back. What the JSON of a variant reads as is the first alternative that fits, which need not be
    // the one it came from; whether it is, the description knows.
    if (D::fits(m) != Yes) {
        if (D::fits(m) == No) {
            report("does-not-fit", "made into " + vf::printable(text));
        }
        return;
    }
    auto back = [&](const char* route, auto&& f) {
        VF_COUNT("trips");
        try {
            const T y = f();
            if (!D::agrees(y, m)) {
                report("wrong-data", std::string(route) + " of " + vf::printable(text));
            }
            else if (D::agrees(x, m) && !D::eq(x, y) && !(std::string_view(name).find("variant") != std::string_view::npos && text.find("-0") != std::string::npos)) { // -0 as unsigned is open
                report("not-equal", std::string(route) + " of " + vf::printable(text));
            }
        }
        catch (...) {
            report("back-throws", std::string(route) + " of " + vf::printable(text) + ": " + vf::what_of_current_exception());
        }
        if (conv::to_model(v) != m) {
            report("value-changed", std::string(route) + " of " + vf::printable(text));
        }
    };
    back("as<T>()", [&] { return v.as<T>(); });
    back("as<T>() of an rvalue", [&] { return json::value(v).template as<T>(); });
    if constexpr (!own<T> && (traits::is_collection<T> || traits::is_fixed_array<T> || traits::is_tuple_like<T>) && !std::is_same_v<T, json::array>) {
        if (m.k == MV::Arr) {
            back("as<T>() of an array", [&] { return std::as_const(v).as_array().template as<T>(); });
            back("as<T>() of an rvalue array", [&] { return json::array(v.as_array()).template as<T>(); });
        }
    }
    if constexpr (!own<T> && traits::is_map<T> && !std::is_same_v<T, json::object>) {
        if (m.k == MV::Obj) {
            back("as<T>() of an object", [&] { return std::as_const(v).as_object().template as<T>(); });
            back("as<T>() of an rvalue object", [&] { return json::object(v.as_object()).template as<T>(); });
        }
    }
    back("as<T>() of what was parsed from the text", [&] {
        const auto p = json::parse("[" + v.to_string() + "]");
        return p.value()[0].template as<T>();
    });
    back("as<T>() of what was parsed from the formatted text", [&] {
        auto p = json::parse(json::object { { "k", v } }.format(3));
        return std::move(p.value()["k"]).template as<T>();
    });
    back("find<T>()", [&] { return std::move(json::array { 1, v }.find<T>(1).value()); });
}
}

SECTION(trips, 16000, 500000)
{
    with_type(idx, [&](auto* t, const char* name) {
        using T = std::decay_t<decltype(*t)>;
        if (idx < 3) {
            vf::sample(std::string(name) + " " + vf::printable(json::value(Desc<T>::gen(rng, 0)).to_string(), 150));
        }
        judge<T>(name, Desc<T>::gen(rng, 0));
    });
}

#if VF_GROUP == 0
// kinds of sources that data is only taken from
SECTION(sources, 2000, 20000)
{
    const std::string s = ref::gen_string(rng, 40);
    std::string z = s.substr(0, s.find('\0'));
    vf::input(s);
    VF_COUNT("evaluations");
    char buf[64];
    std::memcpy(buf, z.c_str(), std::min<size_t>(z.size(), 63) + 1);
    buf[63] = 0;
    const std::string b = buf;
    auto want = [&](const json::value& v, const MV& m, const char* what) {
        if (conv::to_model(v) != m) {
            vf::violation(std::string("source:") + what, vf::printable(v.dumps()) + " instead of " + vf::printable(ref::dump(m)), s);
        }
    };
    want(json::value(z.c_str()), MV::str(z), "const char*");
    want(json::value(buf), MV::str(b), "char array");
    want(json::value(std::string_view(s)), MV::str(s), "string_view");
    want(json::value("literal"), MV::str("literal"), "literal");
    want(json::value(std::forward_list<int> { 1, 2, 3 }), MV::arr({ MV::num("1"), MV::num("2"), MV::num("3") }), "forward_list");
    const std::vector<bool> bits { true, false };
    want(json::value(bits), MV::arr({ MV::boolean(true), MV::boolean(false) }), "vector<bool>");
    const std::vector<const char*> literals { "a", "b" };
    want(json::value(literals), MV::arr({ MV::str("a"), MV::str("b") }), "vector<const char*>");
    const std::vector<std::string_view> views { s, "x" };
    want(json::value(views), MV::arr({ MV::str(s), MV::str("x") }), "vector<string_view>");
    const std::map<std::string, const char*> m { { s, "v" } };
    want(json::value(m), MV::obj({ { s, MV::str("v") } }), "map<string, const char*>");
    want(json::value(std::vector<short> { -1, 2 }), MV::arr({ MV::num("-1"), MV::num("2") }), "vector<short>");
    want(json::value(std::multimap<std::string, int> { { "b", 1 }, { "a", 2 } }), MV::obj({ { "a", MV::num("2") }, { "b", MV::num("1") } }), "multimap");
    want(json::value(json::object { { s, 1 }, { s + "2", "two" } }), MV::obj({ { s, MV::num("1") }, { s + "2", MV::str("two") } }), "initializer list");
    want(json::array { 1, "two", 3.5, nullptr, true, s }, MV::arr({ MV::num("1"), MV::str("two"), conv::to_model(json::value(3.5)), MV::null(), MV::boolean(true), MV::str(s) }), "array initializer list");
    if (const json::value v(bits); !v.is<std::vector<bool>>() || v.as<std::vector<bool>>() != bits) {
        vf::violation("source:vector<bool>-back", v.dumps(), s);
    }
    const json::value sv(s);
    if (sv.as<std::string_view>() != s || static_cast<std::string_view>(sv) != s || static_cast<std::string>(sv) != s) {
        vf::violation("source:string_view-back", vf::printable(sv.dumps()), s);
    }
    VF_COUNT("one-way sources");
}
#endif

#if VF_GROUP == 0
// many elements, long strings
SECTION(big, 24, 240)
{
    const size_t n = ref::big_sizes[idx / 8 % std::size(ref::big_sizes)];
    VF_COUNT("big data");
    auto text = [&](size_t k) {
        std::string s;
        while (s.size() < k) {
            s += static_cast<char>(rng.below(128));
        }
        return s;
    };
    switch (idx % 8) {
    case 0: {
        std::vector<int> x(n);
        for (auto& e : x) {
            e = static_cast<int>(rng.next());
        }
        judge("vector<int>", x);
        break;
    }
    case 1: {
        std::list<std::string> x;
        for (size_t i = 0; i < n / 2; ++i) {
            x.push_back(text(rng.below(20)));
        }
        judge("list<string>", x);
        break;
    }
    case 2: {
        std::set<int> x;
        for (size_t i = 0; i < n; ++i) {
            x.insert(static_cast<int>(i * 7919));
        }
        judge("set<int>", x);
        break;
    }
    case 3: {
        std::map<std::string, int> x;
        for (size_t i = 0; i < n; ++i) {
            x.emplace(std::to_string(i), static_cast<int>(i));
        }
        judge("map<string, int>", x);
        break;
    }
    case 4:
        judge("string", text(n));
        break;
    case 5: {
        std::unordered_map<std::string, std::vector<int>> x;
        for (size_t i = 0; i < n / 4; ++i) {
            x[text(1 + rng.below(4)) + std::to_string(i)].assign(i % 3, static_cast<int>(i));
        }
        judge("unordered_map<string, vector<int>>", x);
        break;
    }
    case 6: {
        std::deque<double> x;
        for (size_t i = 0; i < n / 2; ++i) {
            x.push_back(static_cast<double>(static_cast<int64_t>(rng.next())) / 1048576);
        }
        judge("deque<double>", x);
        break;
    }
    default: {
        std::map<std::string, std::string> x;
        x.emplace(text(n) + "a", text(n));
        x.emplace(text(n) + "b", std::string(n, '\0'));
        judge("map<string, string>", x);
        break;
    }
    }
}
#endif
