// P17: allocation failure never corrupts a value or leaks.
// operator new is replaced: every operation is run once to count its allocations, then again with each of
// them failing (that one only, or that one and all later ones). What std::bad_alloc leaves behind is examined.
#define VF_GROUP 6
#include "hist.hpp"
#include "types.hpp"

#include <fstream>
#include <sstream>

namespace alloc
{
static bool armed = false, persistent = false, fired = false;
static long long countdown = 0, count = 0, live = 0;

static void* get(size_t n)
{
    if (armed) {
        ++count;
        if (countdown >= 0 && countdown-- == 0) {
            fired = true;
            if (persistent) {
                countdown = 0;
            }
            throw std::bad_alloc();
        }
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc();
    }
    ++live;
    return p;
}

static void put(void* p) noexcept
{
    if (p) {
        --live;
        std::free(p);
    }
}
}

void* operator new(size_t n) { return alloc::get(n); }
void* operator new[](size_t n) { return alloc::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try {
        return alloc::get(n);
    }
    catch (...) {
        return nullptr;
    }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    try {
        return alloc::get(n);
    }
    catch (...) {
        return nullptr;
    }
}
void operator delete(void* p) noexcept { alloc::put(p); }
void operator delete[](void* p) noexcept { alloc::put(p); }
void operator delete(void* p, size_t) noexcept { alloc::put(p); }
void operator delete[](void* p, size_t) noexcept { alloc::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { alloc::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { alloc::put(p); }

using namespace types;

namespace
{
using Named = std::map<std::string, std::vector<std::string>>;
using Mixed = std::tuple<std::string, std::optional<std::vector<std::string>>, std::variant<std::string, std::vector<int>>>;

// what an operation reads (and must leave alone), with models
struct Plan
{
    MV v, a, b, o, p, t, ta, to;
    std::string text, ctext, bad, key;
    Shape shape;
    std::vector<std::string> strings;
    Named named;
    Mixed mixed;
};

Plan plan(vf::Rng& g)
{
    Plan p;
    const auto big = [&] { return std::string(16 + g.below(40), 'k') + ref::gen_string(g, 30); };
    const auto pad = [&](MV m) { // enough that there is something to allocate
        if (m.k == MV::Arr) {
            m.a.push_back(MV::str(big()));
            m.a.push_back(MV::obj({ { big(), MV::arr({ MV::str(big()), MV::null() }) } }));
        }
        else {
            m.o[big()] = MV::str(big());
            m.o["k"] = MV::arr({ MV::str(big()), MV::obj({ { "x", MV::num("1") }, { big(), MV::num("-2.5e300") } }) });
        }
        return m;
    };
    const auto doc = [&](MV::K k) {
        for (;;) {
            MV m = ref::gen_doc(g, 8, 3, 40);
            if (m.k == k) {
                return pad(m);
            }
        }
    };
    p.v = doc(g.chance(1, 2) ? MV::Arr : MV::Obj);
    p.a = doc(MV::Arr);
    p.b = doc(MV::Arr);
    p.o = doc(MV::Obj);
    p.p = doc(MV::Obj);
    p.t = g.chance(1, 3) ? MV::null() : g.chance(1, 2) ? MV::str(big()) : doc(g.chance(1, 2) ? MV::Arr : MV::Obj);
    p.ta = doc(MV::Arr);
    p.to = doc(MV::Obj);
    for (const auto& [k, e] : p.o.o) { // keys that both have
        if (g.chance(1, 2)) {
            p.to.o[k] = MV::str(big());
        }
    }
    p.text = ref::render_doc(g, p.v, ref::gen_style(g, false));
    p.ctext = ref::render_doc(g, p.v, ref::gen_style(g, true));
    p.bad = p.text.substr(0, 1 + g.below(p.text.size() - 1));
    p.key = g.chance(1, 2) ? big() : p.to.o.begin()->first;
    p.shape = Desc<Shape>::gen(g, 0);
    p.shape.points.push_back(Desc<Point>::gen(g, 0));
    p.shape.named["a name that is long enough"] = std::make_shared<Point>(Desc<Point>::gen(g, 0));
    for (size_t i = 1 + g.below(4); i; --i) {
        p.strings.push_back(big());
        p.named[big()] = { big(), "" };
    }
    p.mixed = { big(), std::vector<std::string> { big() }, g.chance(1, 2) ? std::variant<std::string, std::vector<int>>(big()) : std::vector<int> { 1, 2, 3 } };
    return p;
}

struct In
{
    json::value v;
    json::array a, b;
    json::object o, p;
    std::string text, ctext, bad, key;
    Shape shape;
    json::value jshape, jstrings, jnamed, jmixed;
    std::vector<std::string> strings;
    std::vector<char> chars;
    Named named;
    Mixed mixed;

    explicit In(const Plan& m)
        : v(conv::build(m.v))
        , a(conv::build(m.a).as_array())
        , b(conv::build(m.b).as_array())
        , o(conv::build(m.o).as_object())
        , p(conv::build(m.p).as_object())
        , text(m.text)
        , ctext(m.ctext)
        , bad(m.bad)
        , key(m.key)
        , shape(Desc<Shape>::clone(m.shape))
        , jshape(shape)
        , jstrings(m.strings)
        , jnamed(m.named)
        , jmixed(m.mixed)
        , strings(m.strings)
        , chars(m.text.begin(), m.text.end())
        , named(m.named)
        , mixed(m.mixed)
    {
    }

    std::string changed(const Plan& m) const
    {
        if (std::string d = conv::differs(v, m.v); !d.empty()) {
            return "the value: " + d;
        }
        if (conv::to_model(a) != m.a || conv::to_model(b) != m.b) {
            return "an array";
        }
        if (conv::to_model(o) != m.o || conv::to_model(p) != m.p) {
            return "an object";
        }
        if (text != m.text || ctext != m.ctext || bad != m.bad || key != m.key || strings != m.strings || named != m.named || mixed != m.mixed || !Desc<Shape>::eq(shape, m.shape)
            || std::string(chars.begin(), chars.end()) != text) {
            return "C++ data";
        }
        if (!Desc<Shape>::shaped(shape, conv::to_model(jshape)) || !Desc<std::vector<std::string>>::shaped(strings, conv::to_model(jstrings))
            || !Desc<Named>::shaped(named, conv::to_model(jnamed)) || !Desc<Mixed>::shaped(mixed, conv::to_model(jmixed))) {
            return "a value to convert";
        }
        return {};
    }
};

// what an operation changes or moves from
struct Out
{
    json::value t, v;
    json::array a, ma;
    json::object o, mo;
    json::value jshape, jstrings, jnamed, jmixed;
    std::vector<std::string> strings;
    Named named;
    Mixed mixed;
    Shape shape;

    Out(const Plan& m, const In& in)
        : t(conv::build(m.t))
        , v(in.v)
        , a(conv::build(m.ta).as_array())
        , ma(in.b)
        , o(conv::build(m.to).as_object())
        , mo(in.o)
        , jshape(in.jshape)
        , jstrings(in.jstrings)
        , jnamed(in.jnamed)
        , jmixed(in.jmixed)
        , strings(in.strings)
        , named(in.named)
        , mixed(in.mixed)
        , shape(Desc<Shape>::clone(in.shape))
    {
    }

    static std::string usable(json::value& x)
    {
        const MV m = conv::to_model(x);
        if (std::string d = conv::differs(x, m); !d.empty()) {
            return d;
        }
        if (x.dumps() != ref::dump(m)) {
            return "dumps()";
        }
        (void)x.format(2);
        (void)x.value_info();
        json::value y = x;
        if (y != x || conv::to_model(y) != m) {
            return "a copy";
        }
        y = 1;
        if (conv::to_model(x) != m) {
            return "it changes with its copy";
        }
        json::value z = std::move(x);
        if (conv::to_model(z) != m) {
            return "moved";
        }
        x = z;
        if (conv::to_model(x) != m) {
            return "assigned";
        }
        return {};
    }

    std::string broken()
    {
        json::value wa = a, wma = ma, wo = o, wmo = mo;
        for (json::value* x : { &t, &v, &wa, &wma, &wo, &wmo, &jshape, &jstrings, &jnamed, &jmixed }) {
            if (std::string d = usable(*x); !d.empty()) {
                return d + " of " + vf::printable(x->dumps());
            }
        }
        a.emplace_back(1);
        ma = a;
        o["after"] = 1;
        mo = o;
        return ma.size() == a.size() && mo.size() == o.size() ? "" : "a container";
    }
};

template <typename T>
std::string text_of(const T& x)
{
    if constexpr (std::is_same_v<T, std::string>) {
        return x;
    }
    else if constexpr (std::is_same_v<T, std::optional<json::value>>) {
        return x ? x->dumps() : "(none)";
    }
    else if constexpr (std::is_same_v<T, std::vector<char>>) {
        return std::string(x.begin(), x.end());
    }
    else {
        return json::value(x).dumps();
    }
}

struct Nothing
{
};

template <>
std::string text_of<Nothing>(const Nothing&)
{
    return {};
}

enum Flags
{
    Pure = 1,     // the result depends on the sources only
    Throws = 2,   // json::exception is its normal outcome
    Lenient = 4,  // the standard library may hide the failure (streams)
    Assigns = 8,  // leaves the target as it was if it fails
};

struct Result
{
    enum
    {
        Done,
        BadAlloc,
        JsonException,
        Other
    } how = Done;
    std::string text, what;
};

struct Harness
{
    vf::Rng& g;
    const Plan& m;
    size_t wanted, at = 0; // the operation to do

    template <typename F>
    Result attempt(F&& f, const In& in, Out& out, long long fail_at, bool persistent)
    {
        Result r;
        using T = std::invoke_result_t<F, const In&, Out&>;
        alloc::fired = false;
        alloc::count = 0;
        alloc::countdown = fail_at;
        alloc::persistent = persistent;
        try {
            alloc::armed = true;
            if constexpr (std::is_void_v<T>) {
                f(in, out);
                alloc::armed = false;
            }
            else {
                const T x = f(in, out);
                alloc::armed = false;
                r.text = text_of(x);
            }
        }
        catch (const std::bad_alloc&) {
            alloc::armed = false;
            r.how = Result::BadAlloc;
        }
        catch (const json::exception& e) {
            alloc::armed = false;
            r.how = Result::JsonException;
            r.what = e.what();
        }
        catch (const std::exception& e) {
            alloc::armed = false;
            r.how = Result::Other;
            r.what = e.what();
        }
        alloc::armed = false;
        return r;
    }

    template <typename F>
    void operator()(const char* name, unsigned flags, F&& f)
    {
        if (at++ != wanted) {
            return;
        }
        vf::note(name);
        vf::count(name);
        long long n = 0;
        std::string want;
        {
            const In in(m);
            Out out(m, in);
            const Result r = attempt(f, in, out, -1, false);
            n = alloc::count;
            want = r.text;
            if (r.how != (flags & Throws ? Result::JsonException : Result::Done)) {
                vf::violation(std::string("plain:") + name, "the operation failed without any fault: " + r.what);
                return;
            }
            const std::string c = in.changed(m);
            if (!c.empty()) {
                vf::violation(std::string("plain-source:") + name, "the operation changed its source: " + c);
            }
            out.broken();
        }
        vf::count("allocations counted", static_cast<vf::u64>(n));
        vf::count(n ? "operations that allocate" : "operations that do not allocate");
        vf::count("evaluations");
        vf::distinct(vf::hash_bytes(name, static_cast<vf::u64>(n)));
        // all of them, or a sample
        const long long cap = vf::ctx().thorough ? 400 : 40;
        for (long long k = 0; k < std::min(n, cap); ++k) {
            const long long i = n <= cap ? k : k < cap / 2 ? k : static_cast<long long>(g.below(static_cast<vf::u64>(n)));
            for (const bool persistent : { false, true }) {
                vf::alive();
                const std::string desc = std::string(name) + ": allocation " + std::to_string(i) + " of " + std::to_string(n) + (persistent ? " and all later ones fail" : " fails");
                vf::input(desc);
                const long long before = alloc::live;
                bool fired = false;
                std::string problem;
                {
                    const In in(m);
                    Out out(m, in);
                    const Result r = attempt(f, in, out, i, persistent);
                    fired = alloc::fired;
                    if (!fired) {
                        problem = "the failing allocation was not reached";
                    }
                    else if (r.how == Result::Other) {
                        problem = "it throws something else: " + r.what;
                    }
                    else if (r.how == Result::JsonException && !(flags & Throws)) {
                        problem = "it throws json::exception instead of std::bad_alloc: " + r.what;
                    }
                    else if (r.how == Result::Done && !(flags & Lenient)) {
                        problem = "it hides the failure";
                    }
                    else if (std::string c = in.changed(m); !c.empty()) {
                        problem = "its source changed: " + c;
                    }
                    else if ((flags & Assigns)
                             && (conv::to_model(out.t) != m.t || conv::to_model(out.a) != m.ta || conv::to_model(out.o) != m.to)) {
                        problem = "the target of an assignment that failed changed";
                    }
                    else if (std::string d = out.broken(); !d.empty()) {
                        problem = "what is left is broken: " + d;
                    }
                    else if (flags & Pure) { // once more, without fault
                        Out again(m, in);
                        const Result s = attempt(f, in, again, -1, false);
                        if (s.how != Result::Done || s.text != want) {
                            problem = "afterwards it gives another result";
                        }
                    }
                }
                if (fired) {
                    vf::count("failures injected");
                }
                if (alloc::live != before && problem.empty()) {
                    problem = std::to_string(alloc::live - before) + " allocations are leaked";
                }
                if (!problem.empty()) {
                    vf::violation(std::string("fault:") + name, desc + ": " + problem, desc);
                    return;
                }
            }
        }
    }
};

// all operations
void operations(Harness& h)
{
    using J = json::value;
    // parsing
    h("parse(string)", Pure, [](const In& in, Out&) { return json::parse(in.text); });
    h("parse(string_view)", Pure, [](const In& in, Out&) { return json::parse(std::string_view(in.text)); });
    h("parse(vector)", Pure, [](const In& in, Out&) { return json::parse(in.chars); });
    h("parse(const char*)", Pure, [](const In& in, Out&) { return json::parse(in.text.c_str()); });
    h("parsec(string)", Pure, [](const In& in, Out&) { return json::parsec(in.ctext); });
    h("parse of a prefix", Pure, [](const In& in, Out&) { return json::parse(in.bad); });
    h("parse(istream)", Pure | Lenient, [](const In& in, Out&) {
        std::istringstream s(in.text);
        return json::parse(s, false, false);
    });
    h("operator\"\"_json", Pure, [](const In& in, Out&) { return json::literals::operator""_json(in.text.data(), in.text.size()); });
    h("operator\"\"_jarray", Pure, [](const In& in, Out&) { return json::literals::operator""_jarray(in.text.data(), in.text.size()); });
    h("operator\"\"_jobject", Pure, [](const In& in, Out&) { return json::literals::operator""_jobject(in.text.data(), in.text.size()); });
    h("parse into a value", 0, [](const In& in, Out& out) { out.t = *json::parse(in.text); });
    // copies
    h("copy of a value", Pure, [](const In& in, Out&) { return J(in.v); });
    h("copy of an array", Pure, [](const In& in, Out&) { return json::array(in.a); });
    h("copy of an object", Pure, [](const In& in, Out&) { return json::object(in.o); });
    h("value = value", Pure | Assigns, [](const In& in, Out& out) { out.t = in.v; });
    h("array = array", Pure | Assigns, [](const In& in, Out& out) { out.a = in.a; });
    h("object = object", Pure | Assigns, [](const In& in, Out& out) { out.o = in.o; });
    h("value = array", Assigns, [](const In& in, Out& out) { out.t = in.a; });
    h("value = object", Assigns, [](const In& in, Out& out) { out.t = in.o; });
    h("value = string", Assigns, [](const In& in, Out& out) { out.t = in.text; });
    h("array = vector", Assigns, [](const In& in, Out& out) { out.a = in.strings; });
    h("object = map", Assigns, [](const In& in, Out& out) { out.o = in.named; });
    h("element = value", 0, [](const In& in, Out& out) { out.a[0] = in.v; });
    h("element = its container", 0, [](const In&, Out& out) { out.a[0] = std::as_const(out.a); });
    h("value from a moved array", 0, [](const In&, Out& out) { out.t = std::move(out.ma); });
    h("value from a moved object", 0, [](const In&, Out& out) { out.t = std::move(out.mo); });
    h("moves", 0, [](const In&, Out& out) {
        J x(std::move(out.v));
        out.t = std::move(x);
        out.a = std::move(out.ma);
        out.o = std::move(out.mo);
    });
    // from C++
    h("value(string)", Pure, [](const In& in, Out&) { return J(in.text); });
    h("value(const char*)", Pure, [](const In& in, Out&) { return J(in.text.c_str()); });
    h("value(string_view)", Pure, [](const In& in, Out&) { return J(std::string_view(in.text)); });
    h("value(long long)", Pure, [](const In&, Out&) { return J(-9223372036854775807ll); });
    h("value(double)", Pure, [](const In&, Out&) { return J(-1.2345678901234567e-300); });
    h("value(long double)", Pure, [](const In&, Out&) { return J(-1.2345678901234567e-4000L); });
    h("value(vector)", Pure, [](const In& in, Out&) { return J(in.strings); });
    h("value(map)", Pure, [](const In& in, Out&) { return J(in.named); });
    h("value(tuple)", Pure, [](const In& in, Out&) { return J(in.mixed); });
    h("value(struct)", Pure, [](const In& in, Out&) { return J(in.shape); });
    h("value(moved vector)", 0, [](const In&, Out& out) { return J(std::move(out.strings)); });
    h("value(moved map)", 0, [](const In&, Out& out) { return J(std::move(out.named)); });
    h("value(moved tuple)", 0, [](const In&, Out& out) { return J(std::move(out.mixed)); });
    h("value(list)", Pure, [](const In& in, Out&) { return J(json::object { { in.key, in.v }, { "second key that is long", in.a } }); });
    h("array(list)", Pure, [](const In& in, Out&) { return json::array { in.v, in.text, in.a, in.o, 1, "literal that is not short" }; });
    h("array(size)", Pure, [](const In&, Out&) { return json::array(static_cast<size_t>(20)); });
    h("array(vector)", Pure, [](const In& in, Out&) { return json::array(in.strings); });
    h("object(map)", Pure, [](const In& in, Out&) { return json::object(in.named); });
    h("object(moved map)", 0, [](const In&, Out& out) { return json::object(std::move(out.named)); });
    h("value(fixed array)", Pure, [](const In& in, Out&) { return J(std::array<std::string, 2> { in.text, in.key }); });
    h("value(optional, unique_ptr)", Pure, [](const In& in, Out&) { return json::array { std::optional<std::string>(in.text), std::make_unique<std::string>(in.key) }; });
    h("value(path)", Pure, [](const In& in, Out&) { return J(std::filesystem::path("/a/long/path/of/many/parts/" + std::to_string(in.text.size()))); });
    // insertions
    h("array.emplace_back(value)", Assigns, [](const In& in, Out& out) { out.a.emplace_back(in.v); });
    h("array.push_back(string)", Assigns, [](const In& in, Out& out) { out.a.push_back(in.text); });
    h("array.emplace_back(moved value)", 0, [](const In&, Out& out) { out.a.emplace_back(std::move(out.v)); });
    h("object.emplace(key, value)", 0, [](const In& in, Out& out) { out.o.emplace(in.key, in.v); });
    h("object.insert(key, array)", 0, [](const In& in, Out& out) { out.o.insert(in.key, in.a); });
    h("object.emplace(key, moved value)", 0, [](const In& in, Out& out) { out.o.emplace(in.key, std::move(out.v)); });
    h("object[key] = value", 0, [](const In& in, Out& out) { out.o[in.key] = in.v; });
    h("object[key]", 0, [](const In& in, Out& out) { (void)out.o[in.key]; });
    h("value[key][key] = value", 0, [](const In& in, Out& out) {
        J x;
        x[in.key]["inner key that is long enough"] = in.v;
        out.t = std::move(x);
    });
    h("value.emplace(value)", 0, [](const In& in, Out& out) {
        J x;
        x.emplace(in.v);
        x.emplace(in.text);
        out.t = std::move(x);
    });
    h("value.emplace(key, value)", 0, [](const In& in, Out& out) {
        J x;
        x.emplace(in.key, in.v);
        x.emplace("another key that is long", in.text);
        out.t = std::move(x);
    });
    h("null[key] = value in place", 0, [](const In& in, Out& out) { out.t.is_null() || out.t.is_object() ? (void)(out.t[in.key] = in.v) : (void)(out.v = J(in.a)); });
    h("null.emplace(value) in place", 0, [](const In& in, Out& out) { out.t.is_null() || out.t.is_array() ? (void)(out.t.emplace(in.v)) : (void)(out.v = J(in.a)); });
    h("as_array() of null", 0, [](const In&, Out& out) {
        out.t.clear();
        (void)out.t.as_array();
    });
    h("as_object() of null", 0, [](const In&, Out& out) {
        out.t.clear();
        (void)out.t.as_object();
    });
    h("array grows", 0, [](const In& in, Out& out) {
        for (int i = 0; i < 20; ++i) {
            out.a.emplace_back(in.key);
        }
    });
    h("erase", 0, [](const In&, Out& out) {
        out.a.erase(static_cast<size_t>(0));
        out.o.erase(out.o.begin());
    });
    // merging and concatenation
    h("array + array", Pure, [](const In& in, Out&) { return in.a + in.b; });
    h("array + moved array", 0, [](const In& in, Out& out) { return in.a + std::move(out.ma); });
    h("moved array + array", 0, [](const In& in, Out& out) { return std::move(out.ma) + in.a; });
    h("moved array + moved array", 0, [](const In&, Out& out) { return std::move(out.ma) + std::move(out.a); });
    h("array += array", Assigns, [](const In& in, Out& out) { out.a += in.b; });
    h("array += itself", Assigns, [](const In&, Out& out) { out.a += std::as_const(out.a); });
    h("array += moved array", Assigns, [](const In&, Out& out) { out.a += std::move(out.ma); });
    h("object | object", Pure, [](const In& in, Out&) { return in.o | in.p; });
    h("object | moved object", 0, [](const In& in, Out& out) { return in.p | std::move(out.mo); });
    h("moved object | object", 0, [](const In& in, Out& out) { return std::move(out.mo) | in.p; });
    h("moved object | moved object", 0, [](const In&, Out& out) { return std::move(out.mo) | std::move(out.o); });
    h("object |= object", 0, [](const In& in, Out& out) { out.o |= in.o; });
    h("object |= moved object", 0, [](const In&, Out& out) { out.o |= std::move(out.mo); });
    h("object |= itself", 0, [](const In&, Out& out) { out.o |= std::as_const(out.o); });
    h("value + array", Pure, [](const In& in, Out&) { return J(in.a) + in.b; });
    h("const value | object", Pure, [](const In& in, Out&) {
        const J x(in.o);
        return x | in.p;
    });
    h("value += array", 0, [](const In& in, Out& out) {
        out.t = J();
        out.t += in.a;
        out.t += in.b;
    });
    h("value |= object", 0, [](const In& in, Out& out) {
        out.t = J();
        out.t |= in.o;
        out.t |= in.p;
    });
    // serialising
    h("value.dumps()", Pure, [](const In& in, Out&) { return in.v.dumps(); });
    h("value.dumps(4)", Pure, [](const In& in, Out&) { return in.v.dumps(4); });
    h("value.to_string()", Pure, [](const In& in, Out&) { return in.v.to_string(); });
    h("value.format()", Pure, [](const In& in, Out&) { return in.v.format(); });
    h("array.dumps()", Pure, [](const In& in, Out&) { return in.a.dumps(); });
    h("array.format(1)", Pure, [](const In& in, Out&) { return in.a.format(1); });
    h("object.dumps()", Pure, [](const In& in, Out&) { return in.o.dumps(); });
    h("object.format(3)", Pure, [](const In& in, Out&) { return in.o.format(3); });
    h("ostream << value", Pure | Lenient, [](const In& in, Out&) {
        std::ostringstream s;
        s << in.v << in.a << in.o;
        return s.str();
    });
    h("value(struct).dumps()", Pure, [](const In& in, Out&) { return json::value(in.shape).dumps(); });
    // comparing and looking
    h("==", Pure, [](const In& in, Out& out) { return J(in.v == out.t || in.a == in.b || in.o == in.p || in.v != out.v); });
    h("get(string default)", Pure, [](const In& in, Out&) { return in.o.get(in.key, "a default text that is long"); });
    h("get(value default)", Pure, [](const In& in, Out&) { return in.o.get("k", J(in.a)); });
    h("get along a chain", Pure, [](const In& in, Out&) { return in.o.get("k", 0, std::string("a default text that is long")); });
    h("find<value>", Pure, [](const In& in, Out&) { return in.o.find("k"); });
    h("find<string>", Pure, [](const In& in, Out&) { return J(in.a.find<std::string>(in.a.size() - 2)); });
    h("at()", Pure, [](const In& in, Out&) { return J(in.a.at(in.a.size() - 2).is_string()); });
    h("at() of an absent key", 0, [](const In& in, Out&) {
        try {
            (void)in.o.at("a key that is absent from everything");
        }
        catch (const std::out_of_range&) {
        }
        return std::string(40, 'x');
    });
    h("contains, is, all", Pure, [](const In& in, Out&) {
        return J(in.o.contains("k") && in.v.contains("a key that is long enough to allocate") && in.jshape.is<Shape>() && in.jnamed.is<Named>() && in.jmixed.is<Mixed>());
    });
    h("value_info()", Lenient, [](const In& in, Out&) { return J(in.text).value_info(); });
    // conversions
    h("as<string>", Pure, [](const In& in, Out&) { return J(in.text).as<std::string>(); });
    h("as<vector>", Pure, [](const In& in, Out&) { return in.jstrings.as<std::vector<std::string>>(); });
    h("as<list>", Pure, [](const In& in, Out&) { return in.jstrings.as<std::list<std::string>>(); });
    h("as<set>", Pure, [](const In& in, Out&) { return in.jstrings.as<std::set<std::string>>(); });
    h("as<map>", Pure, [](const In& in, Out&) { return in.jnamed.as<Named>(); });
    h("as<unordered_map>", 0, [](const In& in, Out&) { return in.jnamed.as<std::unordered_map<std::string, json::array>>(); });
    h("as<tuple>", Pure, [](const In& in, Out&) { return in.jmixed.as<Mixed>(); });
    h("as<struct>", Pure, [](const In& in, Out&) { return in.jshape.as<Shape>(); });
    h("as<unique_ptr>", Pure, [](const In& in, Out&) { return *in.jstrings.as<std::unique_ptr<std::vector<std::string>>>(); });
    h("as<shared_ptr>", Pure, [](const In& in, Out&) { return *in.jshape.as<std::shared_ptr<Shape>>(); });
    h("as<optional>", Pure, [](const In& in, Out&) { return *in.jstrings.as<std::optional<std::vector<std::string>>>(); });
    h("as<variant>", Pure, [](const In& in, Out&) { return in.jstrings.as<std::variant<int, std::vector<std::string>, Named>>(); });
    h("as<array>", Pure, [](const In& in, Out&) { return in.jstrings.as<json::array>(); });
    h("as<object>", Pure, [](const In& in, Out&) { return in.jnamed.as<json::object>(); });
    h("as<value>", Pure, [](const In& in, Out&) { return in.v.as<J>(); });
    h("as<path>", Pure, [](const In&, Out&) { return J(J("/a/long/path/of/many/parts/x").as<std::filesystem::path>()); });
    h("moved as<vector>", 0, [](const In&, Out& out) { return std::move(out.jstrings).as<std::vector<std::string>>(); });
    h("moved as<map>", 0, [](const In&, Out& out) { return std::move(out.jnamed).as<Named>(); });
    h("moved as<tuple>", 0, [](const In&, Out& out) { return std::move(out.jmixed).as<Mixed>(); });
    h("moved as<struct>", 0, [](const In&, Out& out) { return std::move(out.jshape).as<Shape>(); });
    h("moved as<optional>", 0, [](const In&, Out& out) { return *std::move(out.jstrings).as<std::optional<std::vector<std::string>>>(); });
    h("moved as<variant>", 0, [](const In&, Out& out) { return std::move(out.jstrings).as<std::variant<int, std::vector<std::string>, Named>>(); });
    h("moved as<array>", 0, [](const In&, Out& out) { return std::move(out.jstrings).as<json::array>(); });
    h("from_json into a struct", 0, [](const In& in, Out& out) { return J(out.shape.from_json(in.jshape)); });
    h("check_json", Pure, [](const In& in, Out&) { return J(Shape().check_json(in.jshape)); });
    h("as<Color>", Pure, [](const In&, Out&) { return J(J("Red").as<Color>() == Color::Red); });
    // refusals
    h("as<int> of an array", Throws, [](const In& in, Out&) { return J(J(in.a).as<int>()); });
    h("as<map> of other members", Throws, [](const In& in, Out&) { return J(in.o).as<std::map<std::string, std::vector<long>>>(); });
    h("as<Color> of another string", Throws, [](const In& in, Out&) { return J(J(in.text + "a name that no enumerator has").as<Color>() == Color::Red); });
    h("as<struct> of another object", Throws, [](const In& in, Out&) { return J(in.o).as<Shape>(); });
    h("as<variant> of nothing that fits", Throws, [](const In& in, Out&) { return J(in.o).as<std::variant<int, std::string>>(); });
    h("emplace on a string", Throws, [](const In& in, Out& out) {
        out.t = "a text that is certainly not short";
        out.t.emplace(in.v);
    });
    h("[key] on an array", Throws, [](const In& in, Out& out) {
        out.t = in.a;
        out.t[in.key] = in.v;
    });
}
}

SECTION(faults, 1600, 16000)
{
    static const size_t n_ops = 140; // at least; positions past the last do nothing
    static bool warm = false;
    if (!warm) { // lazily created parts of the library and of the harness
        warm = true;
        vf::Rng r(1);
        const Plan p = plan(r);
        std::ostringstream s;
        s << 1.5 << json::value(1);
        for (const char* c : { "allocations counted", "operations that allocate", "operations that do not allocate", "evaluations", "failures injected" }) {
            vf::count(c, 0);
        }
    }
    const Plan p = plan(rng);
    Harness h { rng, p, static_cast<size_t>(idx) % n_ops };
    if (idx < 3) {
        vf::sample(vf::printable(p.text, 300));
    }
    operations(h);
    if (h.at > n_ops) {
        vf::violation("harness", "there are more operations than are run: " + std::to_string(h.at));
    }
}

// every allocation of a bigger document, one by one
SECTION(every_allocation, 16, 200)
{
    MV m = ref::gen_doc(rng, 60, 6, 60);
    const std::string text = ref::dump(m);
    vf::input(text);
    vf::count("evaluations");
    for (int what = 0; what < 4; ++what) {
        for (long long i = 0;; ++i) {
            const json::value v = conv::build(m);
            const long long before = alloc::live;
            bool failed = false;
            {
                std::optional<json::value> r;
                std::string s;
                try {
                    alloc::fired = false;
                    alloc::persistent = i % 2 == 1;
                    alloc::countdown = i;
                    alloc::armed = true;
                    if (what == 0) {
                        r = json::parse(text);
                    }
                    else if (what == 1) {
                        r = v;
                    }
                    else if (what == 2) {
                        s = v.dumps();
                    }
                    else {
                        s = v.format();
                    }
                    alloc::armed = false;
                }
                catch (const std::bad_alloc&) {
                    alloc::armed = false;
                    failed = true;
                }
                if (failed != alloc::fired) {
                    vf::violation("every:hidden", "the failure of allocation " + std::to_string(i) + " is hidden", text);
                }
            }
            if (alloc::live != before) {
                vf::violation("every:leak", std::to_string(alloc::live - before) + " allocations leaked when number " + std::to_string(i) + " failed (" + std::to_string(what) + ")", text);
                return;
            }
            if (const std::string d = conv::differs(v, m); !d.empty()) {
                vf::violation("every:changed", d, text);
                return;
            }
            if (!failed) {
                break;
            }
            vf::count("failures injected");
        }
        vf::alive();
    }
}
