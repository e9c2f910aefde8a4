// P16: lookups return the stored element or exactly the fallback.
// The model of the document says which element a chain addresses; the description of the type says whether it converts.
#include "hist.hpp"
#ifndef VF_KEYS
#include "types.hpp"
#else
#define VF_GROUP 0
#include "types.hpp"
#endif

#include <climits>

using namespace types;

namespace
{
struct Link
{
    bool pos = false;
    std::string k;
    long long i = 0;
    unsigned kind = 0; // how it is passed
};

using Chain = std::vector<Link>;

std::string show(const Chain& c)
{
    std::string r;
    for (const Link& l : c) {
        r += l.pos ? "[" + std::to_string(l.i) + "]" : "." + vf::printable(l.k, 40);
    }
    return r;
}

const MV* step(const MV* m, const Link& l)
{
    if (!m) {
        return nullptr;
    }
    if (l.pos) {
        return m->k == MV::Arr && l.i >= 0 && static_cast<size_t>(l.i) < m->a.size() ? &m->a[static_cast<size_t>(l.i)] : nullptr;
    }
    if (m->k != MV::Obj) {
        return nullptr;
    }
    const auto it = m->o.find(l.k);
    return it == m->o.end() ? nullptr : &it->second;
}

const MV* lookup(const MV& m, const Chain& c)
{
    const MV* p = &m;
    for (const Link& l : c) {
        p = step(p, l);
    }
    return p;
}

MV* mutable_lookup(MV& m, const Chain& c) { return const_cast<MV*>(lookup(m, c)); }

std::string gen_key(vf::Rng& g)
{
    static const char* const fixed[] = { "", "a", "b", "0", "1", "-1", "key", "x", "y", "a.b", "[0]", "\xc3\xa4", "type", "null" };
    return g.chance(1, 2) ? fixed[g.below(std::size(fixed))] : ref::gen_string(g, 10);
}

// a document with `e` at the end of a chain
std::pair<MV, Chain> place(vf::Rng& g, const MV& e, size_t depth)
{
    MV m = e;
    Chain c;
    for (size_t d = 0; d < depth; ++d) {
        Link l;
        l.pos = g.chance(1, 2);
        MV w;
        if (l.pos) {
            w = MV::arr();
            const size_t n = 1 + g.below(4);
            const size_t at = g.below(n);
            for (size_t i = 0; i < n; ++i) {
                w.a.push_back(i == at ? m : g.chance(1, 2) ? ref::gen_scalar(g, 8) : hist::perturb(g, m));
            }
            l.i = static_cast<long long>(at);
        }
        else {
            w = MV::obj();
            for (size_t n = g.below(4); n; --n) {
                w.o[gen_key(g)] = g.chance(1, 2) ? ref::gen_scalar(g, 8) : hist::perturb(g, m);
            }
            l.k = gen_key(g);
            w.o[l.k] = m;
        }
        c.insert(c.begin(), l);
        m = std::move(w);
    }
    return { m, c };
}

// a chain near to c, that leads nowhere or elsewhere
Chain spoil(vf::Rng& g, const MV& m, Chain c)
{
    if (c.empty()) {
        return c;
    }
    Link& l = c[g.below(c.size())];
    switch (g.below(8)) {
    case 0:
        l.pos = !l.pos;
        break;
    case 1:
        l.i += g.range(-2, 4);
        l.k += static_cast<char>(g.next());
        break;
    case 2: {
        static const long long far[] = { -1, -2, LLONG_MIN, LLONG_MAX, INT_MAX, INT_MIN, UINT_MAX, 256, 65536 };
        l.i = l.pos && g.chance(1, 2) ? l.i + (g.chance(1, 2) ? (1ll << 32) : g.chance(1, 2) ? 256 : 65536) : far[g.below(std::size(far))];
        l.k = l.k.empty() ? "?" : l.k.substr(1);
        break;
    }
    case 3:
        l.k += '\0';
        l.i = ~l.i;
        break;
    case 4:
        c.pop_back();
        break;
    case 5:
        c.push_back(Link { g.chance(1, 2), gen_key(g), g.range(-1, 2), 0 });
        break;
    case 6: {
        l.k = gen_key(g);
        l.i = g.range(0, 3);
        break;
    }
    default: { // another one that exists
        const MV* p = &m;
        Chain d;
        while (p && d.size() < c.size()) {
            Link n;
            if (p->k == MV::Arr && !p->a.empty()) {
                n.pos = true;
                n.i = static_cast<long long>(g.below(p->a.size()));
            }
            else if (p->k == MV::Obj && !p->o.empty()) {
                auto it = p->o.begin();
                std::advance(it, static_cast<std::ptrdiff_t>(g.below(p->o.size())));
                n.k = it->first;
            }
            else {
                break;
            }
            d.push_back(n);
            p = step(p, n);
        }
        return d;
    }
    }
    return c;
}

template <typename R, typename T>
bool same_data(const R& r, const T& d)
{
    if constexpr (std::is_same_v<R, T>) {
        return Desc<T>::eq(r, d);
    }
    else {
        return r == std::string(d);
    }
}

// what a lookup has to give
template <typename T, typename R>
void judge_get(const char* name, const char* route, const R& r, const MV* e, const T& def, const std::string& where)
{
    constexpr bool view = std::is_same_v<T, std::string_view> || std::is_pointer_v<T> || std::is_array_v<T>;
    static_assert((!view && std::is_same_v<R, T>) || std::is_same_v<R, std::string>, "get() gives another type than that of the default");
    VF_COUNT("get()");
    const Tri fits = e ? Desc<T>::fits(*e) : No;
    const auto is_element = [&] {
        if constexpr (std::is_same_v<R, T>) {
            return Desc<T>::agrees(r, *e);
        }
        else {
            return e->k == MV::Str && e->s == r;
        }
    };
    bool ok = true;
    if (fits == Yes) {
        VF_COUNT("elements found and converted");
        ok = is_element();
    }
    else if (fits == No) {
        if (e) {
            VF_COUNT("elements of another type");
        }
        else {
            VF_COUNT("absent elements");
        }
        ok = same_data(r, def);
    }
    else {
        ok = is_element() || same_data(r, def);
    }
    if (!ok) {
        const std::string what = fits == Yes ? "other data than the element" : "other data than the default";
        vf::violation(std::string("get:") + name, std::string(route) + " of " + name + where + " gives " + what, where);
    }
}

template <typename T, typename R>
void judge_find(const char* name, const char* route, const std::optional<R>& r, const MV* e, const std::string& where)
{
    static_assert(std::is_same_v<R, T>);
    VF_COUNT("find()");
    const Tri fits = e ? Desc<T>::fits(*e) : No;
    if ((fits == Yes && !r) || (fits == No && r) || (r && e && !Desc<T>::agrees(*r, *e))) {
        vf::violation(std::string("find:") + name, std::string(route) + " of " + name + where + (r ? " gives something else" : " gives nothing"), where);
    }
}

// calls f with the links as arguments, of the given kinds of C++ type
template <size_t Left, bool Literal, typename F, typename... K>
void apply(const Chain& c, F&& f, const K&... keys)
{
    constexpr size_t i = sizeof...(K);
    if (i == c.size()) {
        if constexpr (i > 0) {
            f(keys...);
        }
        return;
    }
    if constexpr (Left > 0) {
        const Link& l = c[i];
        if (l.pos) {
            if constexpr (Literal) {
                apply<Left - 1, Literal>(c, f, keys..., l.i);
            }
            else {
                apply<Left - 1, Literal>(c, f, keys..., static_cast<size_t>(l.i));
            }
            return;
        }
        if constexpr (Literal) {
            if (l.kind % 2 && l.k.find('\0') == std::string::npos) {
                const char* const z = l.k.c_str();
                apply<Left - 1, Literal>(c, f, keys..., z);
                return;
            }
        }
        apply<Left - 1, Literal>(c, f, keys..., l.k);
    }
}

// the const lookups along a chain, one by one
void walk(const json::value& root, const MV& m, const Chain& c, const std::string& where)
{
    const json::value* v = &root;
    const MV* p = &m;
    for (const Link& l : c) {
        const MV* next = step(p, l);
        const size_t i = static_cast<size_t>(l.i);
        const bool right = l.pos ? p->k == MV::Arr : p->k == MV::Obj;
        const json::value* f = l.pos ? v->find_value(i) : v->find_value(l.k);
        const bool con = l.pos ? v->contains(i) : v->contains(l.k);
        const bool ex = l.pos ? v->exists(i) : v->exists(l.k);
        VF_COUNT("links looked up");
        int at = 0; // 0 a value, 1 out_of_range, 2 json::exception, 3 other
        const json::value* av = nullptr;
        try {
            av = l.pos ? &v->at(i) : &v->at(l.k);
        }
        catch (const std::out_of_range&) {
            at = 1;
        }
        catch (const json::exception&) {
            at = 2;
        }
        catch (...) {
            at = 3;
        }
        const bool good = next ? f && con && ex && at == 0 && av == f : !f && !con && !ex && at == (right ? 1 : 2);
        if (!good) {
            vf::violation("walk", "find_value " + std::to_string(f != nullptr) + ", contains " + std::to_string(con) + ", exists " + std::to_string(ex) + ", at() "
                                      + (at == 0 ? "gives a value" : at == 1 ? "throws out_of_range" : at == 2 ? "throws json::exception" : "throws something else") + " for an element that "
                                      + (next ? "exists" : "does not exist") + where,
                          where);
            return;
        }
        // the same on the container itself
        if (right && l.pos) {
            const json::array& a = v->as_array();
            int t = 0;
            try {
                av = &a.at(i);
            }
            catch (const std::out_of_range&) {
                t = 1;
            }
            if (a.find_value(i) != f || a.contains(i) != con || a.exists(i) != ex || (t == 0) != !!next || (next && (av != f || &a[i] != f || &(*v)[i] != f))) {
                vf::violation("walk:array", "the lookups of the array differ" + where, where);
            }
        }
        if (right && !l.pos) {
            const json::object& o = v->as_object();
            int t = 0;
            try {
                av = &o.at(l.k);
            }
            catch (const std::out_of_range&) {
                t = 1;
            }
            if (o.find_value(l.k) != f || o.contains(l.k) != con || o.exists(l.k) != ex || (t == 0) != !!next || (next && av != f)) {
                vf::violation("walk:object", "the lookups of the object differ" + where, where);
            }
        }
        if (!next) {
            return;
        }
        if (const std::string d = conv::differs(*f, *next); !d.empty()) {
            vf::violation("walk:element", "the element found is another: " + d + where, where);
            return;
        }
        v = f;
        p = next;
    }
}

template <typename T>
void finds(const char* name, const json::value& root, const MV& m, const Chain& c, const std::string& where)
{
    if (c.empty()) {
        return;
    }
    Chain head = c;
    const Link l = head.back();
    head.pop_back();
    const MV* pm = lookup(m, head);
    if (!pm) {
        return;
    }
    const json::value* v = &root;
    for (const Link& h : head) {
        v = h.pos ? v->find_value(static_cast<size_t>(h.i)) : v->find_value(h.k);
        if (!v) {
            return; // reported by walk
        }
    }
    const MV* e = step(pm, l);
    if (l.pos) {
        judge_find<T>(name, "value::find(pos)", v->find<T>(static_cast<size_t>(l.i)), e, where);
        if (pm->k == MV::Arr) {
            judge_find<T>(name, "array::find(pos)", v->as_array().find<T>(static_cast<size_t>(l.i)), e, where);
        }
    }
    else {
        judge_find<T>(name, "value::find(key)", v->find<T>(l.k), e, where);
        if (pm->k == MV::Obj) {
            judge_find<T>(name, "object::find(key)", v->as_object().find<T>(l.k), e, where);
        }
    }
}

void unchanged(const json::value& v, const MV& m, const std::string& where)
{
    if (const std::string d = conv::differs(v, m); !d.empty()) {
        vf::violation("changed", "a lookup changed the value: " + d + where, where);
    }
}

template <typename T, size_t Depth, bool Literal>
void gets(const char* name, const json::value& v, const MV& m, const Chain& c, const T& def, const std::string& where)
{
    const MV* e = lookup(m, c);
    apply<Depth, Literal>(c, [&](const auto&... keys) { judge_get<T>(name, "value::get", v.get(keys..., def), e, def, where); });
    if (m.k == MV::Arr && c[0].pos) {
        const json::array& a = v.as_array();
        apply<Depth, Literal>(c, [&](const auto& first, const auto&... keys) {
            if constexpr (std::is_integral_v<std::decay_t<decltype(first)>>) {
                judge_get<T>(name, "array::get", a.get(first, keys..., def), e, def, where);
            }
        });
    }
    if (m.k == MV::Obj && !c[0].pos) {
        const json::object& o = v.as_object();
        apply<Depth, Literal>(c, [&](const auto& first, const auto&... keys) {
            if constexpr (!std::is_integral_v<std::decay_t<decltype(first)>>) {
                judge_get<T>(name, "object::get", o.get(first, keys..., def), e, def, where);
            }
        });
    }
}

template <typename T, size_t Depth, bool Literal>
void one(const char* name, const MV& m, const Chain& c, vf::Rng& g)
{
    if (c.empty() || c.size() > Depth) {
        return;
    }
    const std::string where = " at " + show(c) + " of " + vf::printable(ref::dump(m), 600);
    vf::input(where);
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(where, vf::hash_bytes(name)));
    const json::value v = conv::build(m);
    walk(v, m, c, where);
    finds<T>(name, v, m, c, where);
    constexpr bool own = traits::own_loading<T>;
    if constexpr (types::copyable<T> && !(own && std::is_constructible_v<std::string, T>)) {
        gets<T, Depth, Literal>(name, v, m, c, Desc<T>::gen(g, 1), where);
    }
    unchanged(v, m, where);
}
}

#ifndef VF_KEYS
SECTION(types_, 4000, 260000)
{
    with_type(idx, [&](auto* t, const char* name) {
        using T = std::decay_t<decltype(*t)>;
        const MV good = Desc<T>::some(rng, 1);
        const MV e = rng.chance(1, 2) ? good : rng.chance(1, 2) ? hist::perturb(rng, good) : ref::gen_doc(rng, 4, 2, 8);
        auto [m, c] = place(rng, e, 1 + rng.below(3));
        one<T, 3, false>(name, m, c, rng);
        for (int i = 0; i < 3; ++i) {
            one<T, 3, false>(name, m, spoil(rng, m, c), rng);
        }
        // the element itself is replaced
        if (MV* at = mutable_lookup(m, c)) {
            *at = Desc<T>::some(rng, 1);
            one<T, 3, false>(name, m, c, rng);
        }
        if (idx < 3) {
            vf::sample(std::string(name) + " at " + show(c) + " of " + vf::printable(ref::dump(m), 200));
        }
    });
}
#else
namespace types
{
// defaults that are strings but no std::string
template <>
struct Desc<const char*>
{
    static Tri fits(const MV& m) { return tri(m.k == MV::Str); }
};

template <>
struct Desc<std::string_view>
{
    static Tri fits(const MV& m) { return tri(m.k == MV::Str); }
};

template <size_t N>
struct Desc<char[N]>
{
    static Tri fits(const MV& m) { return tri(m.k == MV::Str); }
};
}

namespace
{
template <typename F>
void with_default(vf::Rng& g, F&& f)
{
    const std::string text = ref::gen_string(g, 10);
    const std::string cstr = vf::printable(text);
    switch (g.below(16)) {
    case 0:
        return f("int", static_cast<int>(g.range(-3, 3)));
    case 1:
        return f("std::string", text);
    case 2:
        return f("const char*", cstr.c_str());
    case 3:
        return f("string_view", std::string_view(text));
    case 4:
        return f("literal", "literal");
    case 5:
        return f("bool", g.chance(1, 2));
    case 6:
        return f("double", 2.5);
    case 7:
        return f("json::value", Desc<json::value>::gen(g, 1));
    case 8:
        return f("json::array", Desc<json::array>::gen(g, 1));
    case 9:
        return f("json::object", Desc<json::object>::gen(g, 1));
    case 10:
        return f("nullptr", nullptr);
    case 11:
        return f("vector<int>", std::vector<int> { 7 });
    case 12:
        return f("map", std::map<std::string, int> { { "d", 1 } });
    case 13:
        return f("optional<string>", std::optional<std::string>());
    case 14:
        return f("unsigned long long", ~0ull);
    default:
        return f("Color", Color::Red);
    }
}

MV element(vf::Rng& g)
{
    switch (g.below(8)) {
    case 0:
        return MV::str(ref::gen_string(g, 10));
    case 1:
        return MV::num(std::to_string(g.below(100)));
    case 2:
        return MV::null();
    case 3:
        return MV::arr({ MV::num("1") });
    case 4:
        return MV::boolean(g.chance(1, 2));
    case 5:
        return MV::str("Green");
    case 6:
        return MV::obj({ { "k", MV::num("1") } });
    default:
        return ref::gen_doc(g, 4, 2, 8);
    }
}
}

#if VF_KEYS == 1
// all kinds of keys and of defaults, one level
SECTION(kinds, 16000, 600000)
{
    auto [m, c] = place(rng, element(rng), 1);
    if (rng.chance(1, 2)) {
        c = spoil(rng, m, c);
    }
    if (c.size() != 1) {
        return;
    }
    const std::string where = " at " + show(c) + " of " + vf::printable(ref::dump(m), 600);
    vf::input(where);
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(where));
    const json::value v = conv::build(m);
    const Link l = c[0];
    with_default(rng, [&](const char* name, const auto& def) {
        using T = std::remove_const_t<std::remove_reference_t<decltype(def)>>;
        const auto look = [&](const char* how, auto&& key, const MV* e) {
            VF_COUNT("key kinds");
            judge_get<T>(name, how, v.get(std::forward<decltype(key)>(key), def), e, def, where);
            if constexpr (std::is_integral_v<std::decay_t<decltype(key)>>) {
                if (m.k == MV::Arr) {
                    judge_get<T>(name, how, v.as_array().get(key, def), e, def, where);
                }
            }
            else if (m.k == MV::Obj) {
                judge_get<T>(name, how, v.as_object().get(key, def), e, def, where);
            }
        };
        if (l.pos) {
            const auto with = [&](auto i, const char* how) { // the position that this type makes of it
                Link n = l;
                if (static_cast<long long>(i) != l.i) {
                    n.i = std::is_signed_v<decltype(i)> && i < 0 ? -1 : static_cast<unsigned long long>(i) > LLONG_MAX ? -1 : static_cast<long long>(i);
                }
                look(how, i, step(&m, n));
            };
            with(static_cast<int>(l.i), "get(int)");
            with(static_cast<unsigned>(l.i), "get(unsigned)");
            with(static_cast<long>(l.i), "get(long)");
            with(static_cast<long long>(l.i), "get(long long)");
            with(static_cast<size_t>(l.i), "get(size_t)");
            with(static_cast<short>(l.i), "get(short)");
            with(static_cast<unsigned char>(l.i), "get(unsigned char)");
            with(static_cast<signed char>(l.i), "get(signed char)");
        }
        else {
            const MV* e = step(&m, l);
            look("get(const std::string&)", l.k, e);
            std::string copy = l.k;
            look("get(std::string&)", copy, e);
            look("get(std::string&&)", std::string(l.k), e);
            if (l.k.find('\0') == std::string::npos) {
                look("get(const char*)", l.k.c_str(), e);
                std::array<char, 64> buf {};
                std::copy_n(l.k.begin(), std::min<size_t>(l.k.size(), 63), buf.begin());
                char* p = buf.data();
                Link n = l;
                n.k = p;
                look("get(char*)", p, step(&m, n));
            }
            Link n;
            n.k = "a";
            look("get(literal)", "a", step(&m, n));
        }
    });
    walk(v, m, c, where);
    unchanged(v, m, where);
}

#endif
#if VF_KEYS == 2
// longer chains with keys of several kinds
SECTION(chains, 5000, 300000)
{
    auto [m, c] = place(rng, element(rng), 1 + rng.below(4));
    for (Link& l : c) {
        l.kind = static_cast<unsigned>(rng.next());
    }
    const int n = static_cast<int>(rng.below(4));
    for (int i = 0; i <= n; ++i) {
        const Chain d = i == 0 ? c : spoil(rng, m, c);
        if (d.empty()) {
            continue;
        }
        if (d.size() <= 3) {
            one<int, 3, true>("int", m, d, rng);
            one<json::value, 3, true>("json::value", m, d, rng);
            one<std::vector<int>, 3, true>("vector<int>", m, d, rng);
            one<std::string, 3, true>("string", m, d, rng);
            const json::value v = conv::build(m);
            const std::string where = " at " + show(d) + " of " + vf::printable(ref::dump(m), 600);
            gets<char[8], 3, true>("literal", v, m, d, "literal", where);
            unchanged(v, m, where);
        }
        else if (d.size() <= 5) {
            one<int, 5, false>("int", m, d, rng);
            one<json::value, 5, false>("json::value", m, d, rng);
            one<std::string, 5, false>("string", m, d, rng);
        }
    }
}

// lookups in everything that is no container, and in empty containers
SECTION(through_scalars, 400, 8000)
{
    static const MV atoms[] = { MV::null(), MV::boolean(true), MV::boolean(false), MV::num("0"), MV::num("1.5"), MV::str(""), MV::str("a"), MV::arr(), MV::obj() };
    const MV& m = atoms[idx % std::size(atoms)];
    Chain c;
    for (size_t i = 1 + rng.below(3); i; --i) {
        c.push_back(Link { rng.chance(1, 2), gen_key(rng), rng.range(-1, 1), 0 });
    }
    one<int, 3, true>("int", m, c, rng);
    one<json::value, 3, true>("json::value", m, c, rng);
    one<std::string, 3, true>("string", m, c, rng);
    one<std::vector<int>, 3, true>("vector<int>", m, c, rng);
    VF_COUNT("lookups through scalars");
}

// every byte as a key
SECTION(key_bytes, 1, 1)
{
    json::object o;
    for (int b = 0; b < 256; ++b) {
        o[std::string(1, static_cast<char>(b))] = b;
        o[std::string("x") + static_cast<char>(b) + "y"] = b + 256;
    }
    const json::value v = o;
    for (int b = 0; b < 256; ++b) {
        const std::string k1(1, static_cast<char>(b)), k2 = std::string("x") + static_cast<char>(b) + "y";
        VF_COUNT("key bytes");
        if (v.get(k1, -1) != b || v.get(k2, -1) != b + 256 || o.get(k1, -1) != b || !v.contains(k1) || v.find<int>(k2) != b + 256 || v.at(k1).as_integer() != b || v.contains(k2 + "!") || v.contains(k1 + k1)) {
            vf::violation("key-bytes", "lookup of the byte " + std::to_string(b));
        }
    }
}
#endif
#endif

// past the borders of 8 and 16 bit counters and of buffers, in one respect each
SECTION(big, ref::big_kinds * 2, ref::big_thorough)
{
    const MV m = ref::big(idx, rng);
    vf::input(ref::dump(m));
    VF_COUNT("evaluations");
    VF_COUNT("big values");
    vf::distinct(idx + 1);
    const json::value v = conv::build(m);
    const json::value root = json::array { 0, json::object { { "in", v } } };
    const json::value none = "nothing there";
    auto judge = [&](const MV* e, const std::string& what, const json::value* p, const json::value& got, const json::value& deep, const std::optional<json::value>& found, bool contains, bool exists) {
        const std::string want = e ? ref::dump(*e) : none.dumps();
        if (!!p != !!e || (p && p->dumps() != want) || got.dumps() != want || deep.dumps() != want || found.has_value() != !!e || (found && found->dumps() != want) || contains != !!e || exists != !!e) {
            vf::violation("big-lookup", what + " is " + vf::printable(want) + ", found " + vf::printable(p ? p->dumps() : "nothing"), ref::dump(m));
        }
        VF_COUNT("big lookups");
    };
    auto throws = [&](auto&& f) {
        try {
            f();
            return false;
        }
        catch (const std::out_of_range&) {
            return true;
        }
    };
    if (m.k == MV::Arr) {
        const size_t n = m.a.size();
        for (const size_t p : { size_t(0), size_t(1), size_t(254), size_t(255), size_t(256), size_t(257), size_t(32767), size_t(32768), size_t(65534), size_t(65535), size_t(65536), size_t(65537), n - 1, n, n + 1, n + 256, n + 65536, n - 65536, n / 2 }) {
            const MV* e = p < n ? &m.a[p] : nullptr;
            const std::string what = "position " + std::to_string(p) + " of " + std::to_string(n);
            judge(e, what, v.find_value(p), v.get(p, none), root.get(1, "in", p, none), v.find(p), v.contains(p), v.exists(p));
            judge(e, what, v.as_array().find_value(p), v.as_array().get(p, none), root.as_array().get(1, "in", p, none), v.as_array().find(p), v.as_array().contains(p), v.as_array().exists(p));
            if (e ? &v.at(p) != v.find_value(p) || &v[p] != v.find_value(p) || &v.as_array().at(p) != v.find_value(p) : !throws([&] { (void)v.at(p); })) {
                vf::violation("big-at", "at() or [] with " + what, ref::dump(m));
            }
        }
    }
    else {
        std::vector<std::string> keys;
        size_t i = 0;
        for (const auto& [k, e] : m.o) {
            if (i < 3 || i + 3 >= m.o.size() || i % 977 == 0 || (i > 65530 && i < 65540)) {
                for (const std::string& x : { k, k.substr(0, k.size() - 1), k + "0", k + '\0', k + k }) {
                    keys.push_back(x);
                }
            }
            ++i;
        }
        for (const auto& k : keys) {
            const auto it = m.o.find(k);
            const MV* e = it == m.o.end() ? nullptr : &it->second;
            const std::string what = "key " + vf::printable(k, 60);
            judge(e, what, v.find_value(k), v.get(k, none), root.get(1, "in", k, none), v.find(k), v.contains(k), v.exists(k));
            judge(e, what, v.as_object().find_value(k), v.as_object().get(k, none), root.as_array().get(1, "in", k, none), v.as_object().find(k), v.as_object().contains(k), v.as_object().exists(k));
            if (e ? &v.at(k) != v.find_value(k) || &v.as_object().at(k) != v.find_value(k) : !throws([&] { (void)v.at(k); })) {
                vf::violation("big-at", "at() with " + what, ref::dump(m));
            }
        }
    }
    if (const std::string d = conv::differs(v, m); !d.empty()) {
        vf::violation("big-changed", "lookups changed the value: " + vf::printable(d), ref::dump(m));
    }
}
