// P18: concurrent reading and independent use are free of races.
// Each case is a fresh process (fork of one that never used the library): threads run programs of operations
// on shared const data and on data of their own; every one logs its results. Nothing of the harness
// synchronises the threads (steps are aligned by the time stamp counter), so that ThreadSanitizer sees every
// conflicting pair, and afterwards the same programs are run alone and the logs compared.
#include "conv.hpp"

#include <atomic>
#include <cerrno>
#include <cstring>
#include <fstream>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <array>
#include <deque>
#include <list>
#include <set>
#include <unordered_map>
#include <variant>
#include <x86intrin.h>

namespace
{
using J = json::value;

// ------------------------------------------------ types whose tables and helpers nobody used yet
#define KINDS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#define DEFINE(N)                                                                                                  \
    enum class E##N                                                                                                \
    {                                                                                                              \
        first##N = -N,                                                                                             \
        second##N = N + 1,                                                                                         \
        third##N = 2 * N + 2,                                                                                      \
        a_rather_long_name_of_an_enumerator##N = 100 + N                                                           \
    };                                                                                                             \
    struct S##N                                                                                                    \
    {                                                                                                              \
        E##N e = E##N::first##N;                                                                                   \
        int i = N;                                                                                                 \
        std::string s;                                                                                             \
        std::vector<E##N> v;                                                                                       \
        std::map<std::string, std::optional<double>> m;                                                            \
        MEO_JSONIZATION(e, MEO_OPT i, MEO_KEY("another key of s " #N) s, v, MEO_OPT MEO_KEY("m") m);               \
    };
KINDS(DEFINE)
#undef DEFINE

struct Own // converts by a specialisation
{
    std::string s;
};
}

namespace json::ext
{
template <>
class jsonization<Own>
{
public:
    json::value to_json(const Own& x) const { return json::array { x.s, 1 }; }
    bool check_json(const json::value& v) const { return v.is_array() && v.as_array().size() == 2 && v.at(0).is_string(); }
    bool from_json(const json::value& v, Own& x) const { return check_json(v) && (x.s = v.at(0).as_string(), true); }
};
}

namespace
{
struct Shared
{
    std::vector<J> v;
    std::vector<json::array> a;
    std::vector<json::object> o;
    std::vector<ref::MV> models;
    std::vector<std::string> texts, ctexts;
    std::string file;
    std::vector<int> ints;
    std::map<std::string, std::vector<std::string>> named;
    std::unordered_map<std::string, int> unordered;
    std::list<Own> owns;
    std::tuple<int, std::string, std::optional<std::string>> tup { 1, "two", std::nullopt };
    std::variant<int, std::string, std::vector<double>> var { std::vector<double> { 1, 2.5 } };
    std::shared_ptr<std::string> ptr;
    std::set<std::string> keys;
    // J of the above, and of structs
    J jints, jnamed, jowns, jtup, jvar, jfloats;
#define MEMBER(N)  \
    S##N s##N;     \
    J js##N, je##N;
    KINDS(MEMBER)
#undef MEMBER

    // empty: nothing of the library is used before the threads start
    Shared(vf::Rng& g, bool empty, std::string path)
        : file(std::move(path))
    {
        for (size_t i = 0; i < 4; ++i) {
            ref::MV m = i == 3 ? ref::gen_scalar(g) : ref::gen_doc(g, 30, 5, 60);
            texts.push_back(ref::render_doc(g, m, ref::gen_style(g, false)));
            ctexts.push_back(ref::render_doc(g, m, ref::gen_style(g, true)));
            if (g.chance(1, 4)) {
                texts.back() = ref::mutate(g, texts.back(), false);
            }
            models.push_back(std::move(m));
        }
        for (size_t i = g.below(9); i; --i) {
            ints.push_back(static_cast<int>(g.next()));
            named["name " + std::to_string(i)] = { ref::gen_plain(g, g.below(30)), "b" };
            unordered["u" + std::to_string(i)] = static_cast<int>(i);
            owns.push_back({ ref::gen_plain(g, 20) });
            keys.insert(ref::gen_plain(g, 8));
        }
        ptr = std::make_shared<std::string>("a string behind a pointer");
        // like the generated structs of the tests
#define FILL(N)                                                                                                             \
    s##N.i = static_cast<int>(g.below(1000));                                                                               \
    s##N.s = ref::gen_plain(g, g.below(40));                                                                                \
    s##N.e = g.chance(1, 2) ? E##N::second##N : E##N::a_rather_long_name_of_an_enumerator##N;                               \
    s##N.v = { E##N::third##N, E##N::first##N };                                                                            \
    s##N.m = { { "x", 1.5 }, { "none", std::nullopt } };
        KINDS(FILL)
#undef FILL
        if (empty) {
            return;
        }
        for (const ref::MV& m : models) {
            v.push_back(conv::build(m));
            if (v.back().is_array()) {
                a.push_back(std::as_const(v.back()).as_array());
            }
            if (v.back().is_object()) {
                o.push_back(std::as_const(v.back()).as_object());
            }
        }
        a.push_back(json::array { 1, "two", nullptr, json::array { 3.5 }, json::object { { "k", true } } });
        o.push_back(json::object { { "k", 1 }, { "l", json::array { 1, 2 } }, { "m", json::object { { "n", "deep" } } } });
        v.emplace_back(a.back());
        v.emplace_back(o.back());
        for (size_t i = models.size(); i < v.size(); ++i) {
            models.push_back(conv::to_model(v[i]));
        }
        jints = ints;
        jnamed = named;
        jowns = owns;
        jtup = tup;
        jvar = var;
        jfloats = std::vector<double> { 0.1, 1e300, -2.5e-7, 3 };
        // as the structs would give them, without using their conversions
#define WRITE(N)                                                                                                                        \
    je##N = s##N.e == E##N::second##N ? "second" #N : "a_rather_long_name_of_an_enumerator" #N;                                         \
    js##N = json::object { { "e", je##N }, { "i", s##N.i }, { "another key of s " #N, s##N.s }, { "v", json::array { "third" #N, "first" #N } } };
        KINDS(WRITE)
#undef WRITE
    }
};

std::string str(const J& x) { return x.dumps(); }

std::string str(const std::optional<J>& x) { return x ? x->dumps() : "(none)"; }

std::string str(bool b) { return b ? "true" : "false"; }

template <typename A, typename = std::enable_if_t<std::is_integral_v<A> && !std::is_same_v<A, bool>>>
std::string str(A x)
{
    return std::to_string(x);
}

std::string str(const std::string& s) { return s; }

// a result, or the exception
template <typename F>
std::string res(F&& f)
{
    try {
        return str(f());
    }
    catch (const json::exception& e) {
        return std::string("json::exception: ") + e.what();
    }
    catch (const std::exception& e) {
        return std::string("exception: ") + e.what();
    }
}

using Op = std::string (*)(const Shared&, vf::Rng&);

struct NamedOp
{
    const char* name;
    bool shared; // needs the shared values
    Op f;
};

const J& pick(const Shared& s, vf::Rng& g) { return s.v[g.below(s.v.size())]; }

// any node in there
const J& node(const Shared& s, vf::Rng& g)
{
    const J* x = &pick(s, g);
    for (;;) {
        if (x->is_array() && !x->as_array().empty() && g.chance(3, 4)) {
            x = &x->as_array().at(g.below(x->as_array().size()));
        }
        else if (x->is_object() && !x->as_object().empty() && g.chance(3, 4)) {
            auto i = x->as_object().begin();
            for (size_t n = g.below(x->as_object().size()); n; --n) {
                ++i;
            }
            x = &i->second;
        }
        else {
            return *x;
        }
    }
}

const json::array& arr(const Shared& s, vf::Rng& g) { return s.a[g.below(s.a.size())]; }

const json::object& obj(const Shared& s, vf::Rng& g) { return s.o[g.below(s.o.size())]; }

std::string walk(const J& x)
{
    std::string r(1, static_cast<char>('a' + static_cast<int>(x.type())));
    if (x.is_array()) {
        for (const J& e : x.as_array()) {
            r += walk(e);
        }
        for (auto i = x.as_array().rbegin(); i != x.as_array().rend(); ++i) {
            r += str(i->empty());
        }
    }
    else if (x.is_object()) {
        for (const auto& [k, e] : x.as_object()) {
            r += k + walk(e);
        }
    }
    else {
        r += x.to_string();
    }
    return r;
}

template <typename F>
std::string quietly(F&& f)
{
    return res(f) + ";";
}

std::string refusals(const J& x)
{
    std::string r;
    r += quietly([&] { return x.as_boolean(); }) + quietly([&] { return x.as_integer(); }) + quietly([&] { return x.as_unsigned(); }) + quietly([&] { return x.as_long(); });
    r += quietly([&] { return x.as_unsigned_long(); }) + quietly([&] { return x.as_long_long(); }) + quietly([&] { return x.as_unsigned_long_long(); });
    r += quietly([&] { return J(x.as_float()); }) + quietly([&] { return J(x.as_double()); }) + quietly([&] { return J(x.as_long_double()); });
    r += quietly([&] { return x.as_string(); }) + quietly([&] { return std::string(x.as_string_view()); });
    r += quietly([&] { return x.as_array().dumps(); }) + quietly([&] { return x.as_object().dumps(); });
    r += quietly([&] { return x.at(0).dumps(); }) + quietly([&] { return x.at("k").dumps(); });
    return r;
}

std::string gets(const J& x, vf::Rng& g)
{
    const std::string k = g.chance(1, 2) ? "k" : "l";
    std::string r;
    r += x.get(k, "text") + x.get(std::string("m"), "n", std::string("d")) + str(x.get("l", 0, 5)) + str(x.get(0, -1)) + str(x.get("k", true)) + J(x.get(k, 2.5)).dumps();
    r += J(x.get("k", J())).dumps() + J(x.get("l", std::vector<int> { 9 })).dumps() + x.get("m", json::object { { "d", 1 } }).dumps() + x.get("l", json::array {}).dumps();
    return r + J(x.get("k", std::optional<int>())).dumps();
}

std::string finds(const J& x, vf::Rng& g)
{
    const std::string k = g.chance(1, 2) ? "k" : "l";
    std::string r;
    r += str(x.find<int>(k).value_or(-1)) + x.find<std::string>(k).value_or("none") + J(x.find<std::vector<int>>("l")).dumps() + J(x.find<json::object>("m")).dumps();
    r += J(x.find<double>(g.below(4))).dumps() + J(x.find<J>(g.below(4))).dumps() + str(x.find<bool>(0).value_or(false)) + str(x.exists(k)) + str(x.contains(g.below(4)));
    return r;
}

std::string conversions(const J& x)
{
    std::string r;
    r += quietly([&] { return J(x.as<std::vector<J>>()); }) + quietly([&] { return J(x.as<std::map<std::string, J>>()); }) + quietly([&] { return J(x.as<std::optional<int>>()); });
    r += quietly([&] { return J(x.as<std::variant<std::string, int, double, bool, std::vector<J>>>()); }) + quietly([&] { return J(x.as<std::pair<J, J>>()); });
    r += quietly([&] { return J(x.as<std::array<J, 3>>()); }) + quietly([&] { return J(x.as<std::tuple<int>>()); }) + quietly([&] { return J(x.as<std::deque<std::string>>()); });
    r += quietly([&] { return J(x.as<std::unique_ptr<bool>>()); }) + quietly([&] { return J(x.as<float>()); }) + quietly([&] { return J(x.as<std::unordered_map<std::string, std::string>>().size()); });
    return r;
}

std::string escapes(vf::Rng& g)
{
    std::string r;
    for (size_t n = g.below(40); n; --n) {
        r += static_cast<char>(g.below(128));
    }
    return r;
}

std::string in_some_case(vf::Rng& g, std::string s)
{
    for (char& c : s) {
        if (g.chance(1, 2)) {
            c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c);
        }
    }
    return s;
}

// clang-format off
const NamedOp ops[] = {
#define S(name, expr) { name, true, [](const Shared& s, vf::Rng& g) -> std::string { (void)s; (void)g; return res([&] { return expr; }); } },
#define L(name, expr) { name, false, [](const Shared& s, vf::Rng& g) -> std::string { (void)s; (void)g; return res([&] { return expr; }); } },
    // reading what is shared
    S("dumps", pick(s, g).dumps())
    S("dumps of a node", node(s, g).dumps())
    S("format", pick(s, g).format(1 + g.below(5)))
    S("dumps(indent)", node(s, g).dumps(g.below(9)))
    S("to_string", node(s, g).to_string())
    S("array dumps", arr(s, g).dumps() + arr(s, g).to_string() + arr(s, g).format(2))
    S("object dumps", obj(s, g).dumps() + obj(s, g).to_string() + obj(s, g).format(2))
    S("operator<<", ([&] { std::ostringstream o; o << pick(s, g) << arr(s, g) << obj(s, g); return o.str(); }()))
    S("==", pick(s, g) == pick(s, g))
    S("!= of nodes", node(s, g) != node(s, g))
    S("array ==", arr(s, g) == arr(s, g))
    S("object ==", obj(s, g) == obj(s, g))
    S("walk", walk(pick(s, g)))
    S("kinds", ([&] { const J& x = node(s, g); std::string r; for (bool b : { x.valid(), x.empty(), x.is_null(), x.is_number(), x.is_boolean(), x.is_string(), x.is_array(), x.is_object() }) r += str(b); return r; }()))
    S("type_name and value_info", node(s, g).type_name() + node(s, g).value_info())
    S("contains", str(obj(s, g).contains("k")) + str(arr(s, g).contains(2)) + str(pick(s, g).contains("k")) + str(pick(s, g).exists(1)))
    S("at", obj(s, g).at("k").dumps())
    S("at(pos)", arr(s, g).at(g.below(4)).dumps())
    S("value at", pick(s, g).at("m").dumps())
    S("[]", ([&] { const json::array& a = s.a.back(); return a[g.below(5)].dumps() + s.v.back().at("m").at("n").dumps(); }()))
    S("find<value>", pick(s, g).find("k"))
    S("find<int>", str(obj(s, g).find<int>("k").value_or(-1)) + str(arr(s, g).find<int>(g.below(3)).value_or(-1)))
    S("find_value", ([&] { const J* x = pick(s, g).find_value("l"); return x ? x->dumps() : std::string("none"); }()))
    S("get", str(pick(s, g).get("m", "n", "default")) + str(pick(s, g).get("l", 1, 77)) + str(arr(s, g).get(0, -1)) + str(obj(s, g).get("k", -1)))
    S("get chain of value", pick(s, g).get("m", J(1)))
    S("is<T>", ([&] { const J& x = node(s, g); return str(x.is<int>()) + str(x.is<std::string>()) + str(x.is<std::vector<int>>()) + str(x.is<std::map<std::string, J>>()) + str(x.is<std::optional<double>>()) + str(x.is<std::variant<bool, std::string>>()) + str(x.is<std::tuple<int, std::string>>()); }()))
    S("all<T>", str(arr(s, g).all<int>()) + str(obj(s, g).all<json::array>()) + str(pick(s, g).all<std::string>()))
    S("as<int>", node(s, g).as<int>())
    S("as<double>", J(node(s, g).as<double>()))
    S("as_integer", node(s, g).as_integer())
    S("as_unsigned_long_long", node(s, g).as_unsigned_long_long())
    S("as_long_double", J(node(s, g).as_long_double()))
    S("as<string>", node(s, g).as<std::string>())
    S("as_string_view", std::string(node(s, g).as_string_view()))
    S("as_boolean", node(s, g).as_boolean())
    S("as<vector<int>>", J(s.jints.as<std::vector<int>>()))
    S("as<vector<value>>", J(pick(s, g).as<std::vector<J>>()))
    S("as<map>", J(s.jnamed.as<std::map<std::string, std::vector<std::string>>>()))
    S("as<unordered_map<value>>", std::to_string(pick(s, g).as<std::unordered_map<std::string, J>>().size()))
    S("as<list<Own>>", J(s.jowns.as<std::list<Own>>()))
    S("as<tuple>", J(s.jtup.as<std::tuple<int, std::string, std::optional<std::string>>>()))
    S("as<variant>", J(s.jvar.as<std::variant<int, std::string, std::vector<double>>>()))
    S("as<array<double>>", J(s.jfloats.as<std::array<double, 4>>()))
    S("as<shared_ptr>", J(node(s, g).as<std::shared_ptr<std::string>>()))
    S("cast", static_cast<json::array>(pick(s, g)).dumps())
    S("cast to object", static_cast<json::object>(pick(s, g)).dumps())
    // copies of what is shared, used as one's own
    S("copy", J(pick(s, g)))
    S("copy of a node and change", ([&] { J x = node(s, g); x = json::array { x, x }; x[0] = 1; return x.dumps(); }()))
    S("copy and change inside", ([&] { J x = s.v.back(); x["m"]["n"] = "mine"; x["new"] = 1; x["l"].as_array().clear(); return x.dumps(); }()))
    S("copy of an array and change", ([&] { json::array x = arr(s, g); x.emplace_back(1); x[0] = nullptr; x.erase(size_t(0)); return x.dumps(); }()))
    S("copy of an object and change", ([&] { json::object x = obj(s, g); x["z"] = 1; x.erase("k"); x.emplace("k", "changed"); return x.dumps(); }()))
    S("copy, move, swap", ([&] { J x = pick(s, g), y = node(s, g); std::swap(x, y); J z = std::move(x); x = y; y = std::move(z); return x.dumps() + y.dumps(); }()))
    S("array +", (arr(s, g) + arr(s, g)).dumps())
    S("object |", (obj(s, g) | obj(s, g)).dumps())
    S("value +", pick(s, g) + arr(s, g))
    S("value |", pick(s, g) | obj(s, g))
    S("own array += shared", ([&] { json::array x { 1 }; x += arr(s, g); return x.dumps(); }()))
    S("own object |= shared", ([&] { json::object x { { "k", "mine" } }; x |= obj(s, g); return x.dumps(); }()))
    S("shared as elements", ([&] { json::array x { pick(s, g), arr(s, g), obj(s, g) }; x.emplace_back(node(s, g)); return x.dumps(); }()))
    S("shared as members", ([&] { json::object x { { "a", pick(s, g) }, { "b", obj(s, g) } }; x.emplace("c", node(s, g)); return x.dumps(); }()))
    // conversion of shared C++ data
    L("from vector", J(s.ints))
    L("from map", J(s.named))
    L("from unordered_map", ([&] { const J x(s.unordered); return x.dumps(); }()))
    L("from list<Own>", J(s.owns))
    L("from set", J(s.keys))
    L("from tuple", J(s.tup))
    L("from variant", J(s.var))
    L("from shared_ptr", J(s.ptr))
    L("array from vector", json::array(s.ints).dumps())
    L("object from map", json::object(s.named).dumps())
    // parsing of shared texts and building of one's own
    L("parse", json::parse(s.texts[g.below(s.texts.size())]))
    L("parse(string_view)", json::parse(std::string_view(s.texts[g.below(s.texts.size())])))
    L("parse(char*)", json::parse(s.texts[g.below(s.texts.size())].c_str()))
    L("parsec", json::parsec(s.ctexts[g.below(s.ctexts.size())]))
    L("parse(istream)", ([&] { std::istringstream i(s.texts[g.below(s.texts.size())]); return json::parse(i, g.chance(1, 2), g.chance(1, 2)); }()))
    L("open", json::open(s.file, g.chance(1, 2), g.chance(1, 2)))
    L("open what is not there", json::open(s.file + ".not", true))
    L("literals", ([&] { using namespace json::literals; return "{\"a\":[1,2.5e3,\"\\u00e9\"]}"_json.dumps() + "[1]"_jarray.dumps() + "{}"_jobject.dumps(); }()))
    L("parse own text", ([&] { std::string t = "["; for (size_t i = 0, n = g.below(40); i < n; ++i) t += std::to_string(g.below(1000)) + (i % 3 ? ",\"\\u12345\\n\"," : ",{\"k\":null},"); return json::parse(t + "0]"); }()))
    L("build", ([&] { J x; x["a"]["b"]["c"] = 1.25; x["l"] = json::array { true, nullptr, -7 }; x["l"].emplace("x"); x.emplace("e", 1e-9); return x.dumps() + x.format(); }()))
    L("numbers", ([&] { json::array x { 1, -2l, 3u, 4.5f, 1e100, 0.1L, 12345678901234567ull }; return x.dumps() + str(x[0].as_double() == 1) + str(x[4].as_float() > 1e30f); }()))
    L("null to container", ([&] { J x; x.as_array().emplace_back(1); J y; y.as_object()["k"] = 2; y |= json::object { { "l", x } }; return y.dumps(); }()))
    L("own exception", J("a").as<std::vector<int>>().size())
    L("own is and as", str(J("text").is<int>()) + str(J(5).as<unsigned>()) + str(J(json::array { 1, 2 }).as<std::vector<long>>().size()))
    S("value_info of everything", ([&] { const J& x = pick(s, g); std::string r = x.value_info() + x.type_name(); if (x.is_array()) for (const J& e : x.as_array()) r += e.value_info(); return r + J(std::string(150, 'i')).value_info(); }()))
    S("every accessor that may refuse", refusals(node(s, g)))
    S("get with keys and defaults of many kinds", gets(pick(s, g), g) + gets(s.v.back(), g))
    S("find and is of many types", finds(pick(s, g), g))
    S("as many types", conversions(node(s, g)))
    S("moved copies as many types", ([&] { J x = node(s, g); J y = x; std::string r; if (x.is<std::vector<J>>()) r = J(std::move(x).as<std::vector<J>>()).dumps(); if (y.is<std::map<std::string, J>>()) r += J(std::move(y).as<std::map<std::string, J>>()).dumps(); return r; }()))
    L("escapes out", (J(escapes(g)).dumps() + json::object { { escapes(g), 1 } }.format(3)))
    L("escapes in", json::parse("[\"" + std::string(g.below(40), 'e') + "\\ud83d\\ude00\\u00e9\\n\\\"" + std::string(g.below(40), 'f') + "\"]"))
    L("long strings in and out", ([&] { const std::string t = "[\"" + std::string(g.below(9000), 'l') + "\"]"; const auto x = json::parse(t); return x && x->dumps() == t; }()))
    L("broken texts", ([&] { std::string r; for (const char* t : { "[1,]", "{\"a\":1,\"a\":2}", "[\"\\ud800\"]", "[01]", "[tru]", "/*", "[1]x", "[1", "{\"a\"", "" }) r += str(json::parse(t).has_value()) + str(json::parsec(t).has_value()); return r; }()))
    L("comments", json::parsec(g.chance(1, 2) ? "// c\n[1, /* d */ 2, // e\n]" : "{\"a\": /**/ 1, /***/ } //"))
    L("numbers in", ([&] { std::string r; for (const char* t : { "1", "-0", "1e3", "0.1", "1e-320", "1e400", "3.5", "123456789012345678901234567890", "4294967296" }) { const J x = json::parse(std::string("[") + t + "]")->at(0); r += str(x.is<int>()) + str(x.is<float>()) + str(x.is<double>()) + refusals(x); } return r; }()))
    L("numbers out", ([&] { std::string r; for (int i = 0; i < 20; ++i) r += J(static_cast<double>(static_cast<int>(g.next())) / 7).dumps() + J(static_cast<float>(i) / 3).dumps() + J(static_cast<long double>(i) / 3).dumps() + J(static_cast<long long>(g.next())).dumps(); return r; }()))
    L("containers out and in", ([&] { const J a(std::vector<std::vector<int>> { { 1 }, {}, { 2, 3 } }), b(std::map<std::string, std::set<std::string>> { { "k", { "b", "a" } } }), c(std::make_pair(1, std::string("p"))), d(std::deque<double> { 1.5 }), e(std::array<bool, 2> { true, false }); return J(json::array { a.as<std::list<std::deque<int>>>(), b.as<std::unordered_map<std::string, std::vector<std::string>>>(), c.as<std::pair<int, std::string>>(), d.as<std::multiset<double>>(), e.as<std::array<bool, 2>>() }); }()))
    L("wrappers out and in", ([&] { const J a(std::optional<int>(3)), b(std::optional<int> {}), c(std::make_unique<std::string>("u")), d(std::shared_ptr<int> {}), e(std::monostate {}), f(nullptr); return str(a.as<std::optional<int>>().value_or(0)) + str(b.as<std::optional<int>>().has_value()) + *c.as<std::unique_ptr<std::string>>() + str(!d.as<std::shared_ptr<int>>()) + str(e.is<std::monostate>()) + str(f.as<std::nullptr_t>() == nullptr); }()))
    L("own array, all operations", ([&] { json::array x { 1, "s" }; x.push_back(x[0]); x.emplace_back(nullptr); x += json::array { 2, 3 }; x.erase(size_t(1)); x.erase(x.begin()); json::array y = x + x; y.clear(); y = x; std::swap(x, y); return x.dumps() + str(x == y) + str(x.contains(2)) + str(x.get(0, -1)) + str(x.find_value(9) == nullptr); }()))
    L("own object, all operations", ([&] { json::object x { { "a", 1 } }; x["b"] = x["a"]; x.insert("c", json::array { x["b"] }); x.emplace("a", "again"); x |= json::object { { "d", nullptr } }; x.erase("b"); json::object y = x | json::object { { "c", 2 } }; std::swap(x, y); return x.dumps() + y.format() + str(x == y) + x.get("a", "none") + str(x.find<int>("c").has_value()); }()))
    L("own value, all operations", ([&] { J x; x["k"]["l"] = 1; x["k"] |= json::object { { "m", json::array {} } }; x["k"]["m"] += json::array { 1, 2 }; x["k"]["m"].emplace("e"); x.erase("none"); J y = x; y["k"].erase("l"); y["k"]["m"].erase(size_t(0)); J z = std::move(y["k"]["m"]); x["z"] = z; return x.dumps() + z.format(1) + str(x != y); }()))
#define KIND_OPS(N) \
    L("enum from a string in some case " #N, str(static_cast<int>(J(in_some_case(g, "third" #N)).as<E##N>())) + str(J(in_some_case(g, "a_rather_long_name_of_an_enumerator" #N)).is<E##N>()) + str(J(in_some_case(g, "secont" #N)).is<E##N>())) \
    L("enum from a number " #N, str(static_cast<int>(J(N + 1).as<E##N>())) + str(J(1.5).is<E##N>())) \
    L("enums in containers " #N, J(std::map<std::string, std::vector<E##N>> { { "x", { E##N::first##N, E##N::second##N, E##N::third##N, E##N::a_rather_long_name_of_an_enumerator##N } } })) \
    L("struct moved there and back " #N, ([&] { J x = s.js##N; x["v"] = json::array { in_some_case(g, "THIRD" #N) }; S##N y = std::move(x).as<S##N>(); return J(std::move(y)); }())) \
    L("enum to json " #N, J(g.chance(1, 2) ? E##N::third##N : E##N::first##N)) \
    L("enum from json " #N, static_cast<int>(J("third" #N).as<E##N>())) \
    L("enum from another string " #N, static_cast<int>(J("no such name").as<E##N>())) \
    L("no enumerator " #N, J(static_cast<E##N>(77))) \
    L("struct to json " #N, J(s.s##N)) \
    L("struct there and back " #N, J(J(s.s##N).as<S##N>())) \
    L("is struct " #N, str(J(s.s##N).is<S##N>()) + str(J(json::object { { "e", 1 } }).is<S##N>())) \
    L("struct refused " #N, J(J(json::object { { "e", "first" #N }, { "v", 1 } }).as<S##N>())) \
    S("struct from shared json " #N, J(s.js##N.as<S##N>())) \
    S("enum from shared json " #N, static_cast<int>(s.je##N.as<E##N>())) \
    S("is struct, of shared json " #N, str(s.js##N.is<S##N>()) + str(node(s, g).is<S##N>())) \
    S("is enum, of shared json " #N, str(s.je##N.is<E##N>()) + str(node(s, g).is<E##N>()))
    KINDS(KIND_OPS)
};
// clang-format on
constexpr size_t n_ops = std::size(ops);
constexpr size_t first_kind_op = n_ops - 8 * 16;

struct Step
{
    u_int16_t op;
    u_int16_t pause;
    vf::u64 seed;
};

struct Done
{
    unsigned long long from, to;
};

struct Thread
{
    std::vector<Step> program;
    std::vector<std::string> log;
    std::vector<Done> times;
};

// what a child reports
struct Report
{
    bool finished;
    size_t steps, overlapping, mismatches;
    unsigned char pairs[n_ops * n_ops / 8 + 1];
    char what[2000], example[200];
};

Report* report()
{
    static Report* r = [] {
        void* p = mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        return p == MAP_FAILED ? nullptr : static_cast<Report*>(p);
    }();
    return r;
}

void run(Thread& t, const Shared& s, unsigned long long start, unsigned long long slot)
{
    unsigned long long at = start;
    for (const Step& st : t.program) {
        while (slot && __rdtsc() < at) {
        }
        at += slot;
        for (unsigned i = 0; i < st.pause && slot; ++i) {
            _mm_pause();
        }
        vf::Rng g(st.seed);
        const auto from = __rdtsc();
        t.log.push_back(ops[st.op].f(s, g));
        t.times.push_back({ from, __rdtsc() });
    }
}

// in the child
void child(vf::Rng& g, unsigned mode, const std::string& path)
{
    Report& r = *report();
    const bool empty = mode == 1;
    const Shared s(g, empty, path);
    const size_t n = 2 + g.below(5);
    std::vector<Thread> threads(n);
    const size_t len = mode == 2 ? 6 : 3 + g.below(14);
    const size_t from = mode == 3 ? first_kind_op : 0;
    const auto any = [&] {
        for (;;) {
            const size_t o = from + g.below(n_ops - from);
            if (!empty || !ops[o].shared) {
                return static_cast<u_int16_t>(o);
            }
        }
    };
    const bool lockstep = mode == 2 || g.chance(1, 3);
    for (size_t k = 0; k < len; ++k) {
        const Step all { any(), 0, g.next() };
        for (Thread& t : threads) {
            Step st = all;
            if (!lockstep) {
                st.op = any();
            }
            if (!lockstep || g.chance(1, 3)) {
                st.seed = g.next();
            }
            st.pause = static_cast<u_int16_t>(g.chance(1, 2) ? 0 : g.below(400));
            t.program.push_back(st);
        }
    }
    const unsigned long long start = __rdtsc() + 400000, slot = g.chance(1, 2) ? 20000 + g.below(100000) : 1;
    std::vector<std::thread> ts;
    for (Thread& t : threads) {
        ts.emplace_back([&t, &s, start, slot] { run(t, s, start, slot); });
    }
    for (std::thread& t : ts) {
        t.join();
    }
    // what overlapped
    for (size_t i = 0; i < n; ++i) {
        r.steps += threads[i].log.size();
        for (size_t j = i + 1; j < n; ++j) {
            for (size_t x = 0; x < len; ++x) {
                for (size_t y = 0; y < len; ++y) {
                    const Done &p = threads[i].times[x], &q = threads[j].times[y];
                    if (p.from < q.to && q.from < p.to) {
                        ++r.overlapping;
                        const size_t a = threads[i].program[x].op, b = threads[j].program[y].op, bit = std::min(a, b) * n_ops + std::max(a, b);
                        std::snprintf(r.example, sizeof r.example, "%s with %s", ops[a].name, ops[b].name);
                        r.pairs[bit / 8] |= static_cast<unsigned char>(1u << (bit % 8));
                    }
                }
            }
        }
    }
    // the same alone
    const auto mismatch = [&](const std::string& what) {
        if (r.mismatches++ == 0) {
            std::snprintf(r.what, sizeof r.what, "%s", what.c_str());
        }
    };
    for (size_t i = 0; i < n; ++i) {
        Thread alone;
        alone.program = threads[i].program;
        run(alone, s, 0, 0);
        for (size_t k = 0; k < len; ++k) {
            if (alone.log[k] != threads[i].log[k]) {
                mismatch(std::string(ops[alone.program[k].op].name) + " gave " + vf::printable(threads[i].log[k]) + " in a thread, and " + vf::printable(alone.log[k]) + " alone");
            }
        }
    }
    for (size_t i = 0; i < s.v.size(); ++i) {
        if (std::string d = conv::differs(s.v[i], s.models[i]); !d.empty()) {
            mismatch("a shared value changed: " + d);
        }
    }
    r.finished = true;
}

const char* const modes[] = { "mixed", "nothing used before", "lockstep", "first uses of enums and structs" };

void judge(vf::Rng& rng, vf::u64 idx, unsigned mode)
{
    static bool gave_up = false;
    if (gave_up || vf::ctx().violations >= 3) { // each report of ThreadSanitizer takes long
        return;
    }
    static const std::string path = [] {
        const char* d = std::getenv("VF_SCRATCH");
        std::string p = std::string(d ? d : "/tmp") + "/p18-" + std::to_string(getpid()) + ".json";
        std::ofstream(p) << "{\"of\": [\"a file\", 1, 2.5, {\"x\": null}], \"text\": \"\\u00e9\"}\n";
        return p;
    }();
    vf::note(modes[mode]);
    for (int attempt = 0;; ++attempt) {
        Report& r = *report();
        std::memset(&r, 0, sizeof r);
        vf::Rng g = rng;
        std::fflush(nullptr);
        const pid_t pid = fork();
        if (pid < 0) {
            std::_Exit(98);
        }
        if (pid == 0) {
            itimerval tv {};
            setitimer(ITIMER_PROF, &tv, nullptr);
            int code = 0;
            try {
                child(g, mode, path);
            }
            catch (const std::exception& e) {
                std::snprintf(r.what, sizeof r.what, "exception %s", e.what());
                code = 3;
            }
            _exit(code);
        }
        int st = 0;
        int waited = 0;
        bool hung = false;
        while (waitpid(pid, &st, WNOHANG) == 0) {
            usleep(waited < 1000 ? 200 : 10000);
            vf::alive();
            if (++waited > 10000) { // a minute and a half
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                hung = true;
                break;
            }
        }
        vf::count("evaluations");
        if (hung && attempt == 0) {
            continue;
        }
        VF_COUNT("processes");
        VF_COUNT_N("operations run in threads", r.steps);
        VF_COUNT_N("operations that overlapped in time", r.overlapping);
        for (size_t b = 0; b < n_ops * n_ops; ++b) {
            if (r.pairs[b / 8] >> (b % 8) & 1) {
                if (vf::distinct(vf::mix(b))) {
                    VF_COUNT("new pairs of operations seen overlapping");
                }
            }
        }
        vf::count(modes[mode]);
        if (idx < 2) {
            vf::sample(std::string(modes[mode]) + ": " + std::to_string(r.steps) + " operations, " + std::to_string(r.overlapping) + " pairs overlapped" + (r.example[0] ? std::string(", such as ") + r.example : ""));
        }
        if (hung) {
            vf::violation("hang", "the threads did not finish within a minute and a half, twice");
            gave_up = true;
        }
        else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            // ThreadSanitizer's report is in the output
            vf::violation(std::string("race:") + modes[mode],
                          (WIFEXITED(st) ? (WEXITSTATUS(st) == 25 ? "ThreadSanitizer reported a race" : "the process ended with status " + std::to_string(WEXITSTATUS(st)) + " " + r.what)
                                         : "the process was killed by signal " + std::to_string(WTERMSIG(st)))
                              + " in case " + std::to_string(idx));
        }
        else if (r.mismatches) {
            vf::violation("result", std::to_string(r.mismatches) + " results differ: " + r.what, r.what);
        }
        else if (!r.finished) {
            vf::violation("unfinished", "the process did not finish");
        }
        return;
    }
}
}

SECTION(nothing_before, 800, 12000)
{
    judge(rng, idx, 1);
}

SECTION(first_uses, 800, 12000)
{
    judge(rng, idx, 3);
}

SECTION(lockstep, 800, 12000)
{
    judge(rng, idx, 2);
}

SECTION(mixed, 1200, 20000)
{
    judge(rng, idx, 0);
}
