// P15: containers follow a simple sequential model.
// Random histories over three arrays, three objects and three values; the model is std::vector<MV>, std::map<std::string, MV>, MV.
#include "hist.hpp"

#include <climits>
#include <deque>
#include <set>

using ref::MV;
using vf::Rng;

namespace
{
const std::string& as_string_key(const std::string& k)
{
    return k;
}

// calls f with a C++ datum and the JSON it stands for
template <typename F>
void with_arg(Rng& g, F&& f)
{
    const MV doc = ref::gen_doc(g, 3, 2, 16);
    const auto n = static_cast<int>(g.range(-1000, 1000));
    const std::string text = ref::gen_string(g, 24);
    switch (g.below(20)) {
    case 0:
        f(n, MV::num(std::to_string(n)));
        break;
    case 1:
        f(static_cast<unsigned>(n & 0xfff), MV::num(std::to_string(n & 0xfff)));
        break;
    case 2:
        f(static_cast<long long>(n) * (1ll << 40), MV::num(std::to_string(static_cast<long long>(n) * (1ll << 40))));
        break;
    case 3:
        f(n % 2 == 0, MV::boolean(n % 2 == 0));
        break;
    case 4:
        f("literal", MV::str("literal"));
        break;
    case 5:
        f(text, MV::str(text));
        break;
    case 6:
        f(std::string(text), MV::str(text));
        break;
    case 7:
        f(std::string_view(text), MV::str(text));
        break;
    case 8:
        f(nullptr, MV::null());
        break;
    case 9:
        f(0.5, MV::num(json::value(0.5).to_string()));
        break;
    case 10: {
        const json::value v = conv::build(doc);
        f(v, doc);
        break;
    }
    case 11: {
        json::value v = conv::build(doc);
        f(v, doc);
        if (!conv::differs(v, doc).empty()) {
            vf::violation("source-changed", "the lvalue " + vf::printable(ref::dump(doc)) + " given to an insertion is now " + vf::printable(v.dumps()), ref::dump(doc));
        }
        break;
    }
    case 12:
        f(json::array { 1, "two" }, MV::arr({ MV::num("1"), MV::str("two") }));
        break;
    case 13: {
        const json::array a { json::value(), json::array {} };
        f(a, MV::arr({ MV::null(), MV::arr() }));
        break;
    }
    case 14:
        f(json::object { { "k", n } }, MV::obj({ { "k", MV::num(std::to_string(n)) } }));
        break;
    case 15:
        f(std::vector<int> { n, 2 }, MV::arr({ MV::num(std::to_string(n)), MV::num("2") }));
        break;
    case 16:
        f(std::map<std::string, bool> { { text, true } }, MV::obj({ { text, MV::boolean(true) } }));
        break;
    case 17:
        f(std::optional<int>(), MV::null());
        break;
    default:
        f(conv::build(doc), doc);
        break;
    }
}

struct World
{
    static constexpr size_t N = 3;
    Rng& g;
    json::array a[N];
    std::vector<MV> am[N];
    json::object o[N];
    std::map<std::string, MV> om[N];
    json::value v[N];
    MV vm[N];
    std::vector<std::string> keys; // a small pool, so that keys meet
    std::string log;
    const char* op = "";
    bool bad = false;

    explicit World(Rng& r)
        : g(r)
    {
        const size_t n = 2 + g.below(8);
        for (size_t i = 0; i < n; ++i) {
            keys.push_back(g.chance(1, 2) ? std::string(1, static_cast<char>('a' + g.below(6))) : ref::gen_string(g, 12));
            if (g.chance(1, 4)) {
                keys.push_back(keys.back() + static_cast<char>(g.next()));
            }
        }
    }

    const std::string& key() { return keys[g.below(keys.size())]; }

    MV doc() { return ref::gen_doc(g, 3, 2, 12); }

    void name(const char* s)
    {
        op = s;
        log += s;
        log += ';';
        vf::note(s);
        vf::input(log);
        ++vf::ctx().counters[std::string("op ") + s];
    }

    void fail(const std::string& what)
    {
        bad = true;
        vf::violation(std::string("step:") + op, what + " after " + log.substr(log.size() > 400 ? log.size() - 400 : 0), log);
    }

    void expect(bool ok, const char* what)
    {
        if (!ok) {
            fail(what);
        }
    }

    void expect(const json::value& x, const MV& want, const char* what)
    {
        VF_COUNT("comparisons");
        if (const std::string d = conv::differs(x, want); !d.empty()) {
            fail(std::string(what) + ": " + vf::printable(d) + " is " + vf::printable(x.dumps()) + " instead of " + vf::printable(ref::dump(want)));
        }
    }

    template <typename F>
    bool throws_out_of_range(F&& f)
    {
        try {
            f();
        }
        catch (const std::out_of_range&) {
            return true;
        }
        return false;
    }

    template <typename F>
    bool throws_json(F&& f)
    {
        try {
            f();
        }
        catch (const json::exception&) {
            return true;
        }
        return false;
    }

    // ------------------------------------------------------------ comparison through every way of looking
    template <typename A>
    void same_iteration(A b, A e, std::vector<const json::value*> want, const char* what)
    {
        size_t i = 0;
        for (; b != e; ++b, ++i) {
            if (i >= want.size() || &*b != want[i]) {
                fail(std::string(what) + " at step " + std::to_string(i));
                return;
            }
        }
        expect(i == want.size(), what);
    }

    void look(json::array& x, const std::vector<MV>& m)
    {
        VF_COUNT("arrays compared");
        const json::array& c = x;
        expect(x.size() == m.size() && c.empty() == m.empty(), "size() or empty() of an array");
        if (bad || x.size() != m.size()) {
            return;
        }
        std::vector<const json::value*> p;
        for (size_t i = 0; i < m.size(); ++i) {
            p.push_back(&c[i]);
            expect(c[i], m[i], "array element");
            expect(&x[i] == &c[i] && &c.at(i) == &c[i] && c.find_value(i) == &c[i] && c.contains(i) && c.exists(i), "[], at(), find_value(), contains() or exists() of an element");
        }
        same_iteration(x.begin(), x.end(), p, "begin() to end()");
        same_iteration(c.begin(), c.end(), p, "begin() to end() const");
        same_iteration(c.cbegin(), c.cend(), p, "cbegin() to cend()");
        std::reverse(p.begin(), p.end());
        same_iteration(x.rbegin(), x.rend(), p, "rbegin() to rend()");
        same_iteration(c.rbegin(), c.rend(), p, "rbegin() to rend() const");
        same_iteration(c.crbegin(), c.crend(), p, "crbegin() to crend()");
        for (const size_t i : { m.size(), m.size() + 1, static_cast<size_t>(-1), SIZE_MAX / 2 + 1, static_cast<size_t>(UINT_MAX) + 1 }) {
            expect(!c.contains(i) && !c.exists(i) && c.find_value(i) == nullptr && !c.find<json::value>(i), "a position past the end exists");
            expect(throws_out_of_range([&] { (void)c.at(i); }), "at() past the end of an array");
        }
        if (!m.empty()) {
            const size_t i = g.below(m.size());
            const auto f = c.find(i);
            expect(f && conv::to_model(*f) == m[i], "find() of an array");
        }
        const auto all = [&](MV::K k) { return std::all_of(m.begin(), m.end(), [&](const MV& e) { return e.k == k; }); };
        expect(c.all<std::string>() == all(MV::Str) && c.all<bool>() == all(MV::Bool) && c.all<json::array>() == all(MV::Arr) && c.all<json::object>() == all(MV::Obj)
                   && c.all<std::nullptr_t>() == all(MV::Null) && c.all<json::value>(),
               "all<>() of an array");
        expect(c.dumps() == ref::dump(MV::arr(m)), "the text of an array");
    }

    void look(json::object& x, const std::map<std::string, MV>& m)
    {
        VF_COUNT("objects compared");
        const json::object& c = x;
        expect(x.size() == m.size() && c.empty() == m.empty(), "size() or empty() of an object");
        if (bad || x.size() != m.size()) {
            return;
        }
        const auto walk = [&](auto b, auto e, const char* what) {
            auto w = m.begin();
            for (; b != e; ++b, ++w) {
                if (w == m.end() || b->first != w->first) {
                    fail(std::string(what) + ": key " + vf::printable(b->first));
                    return;
                }
                expect(&b->second == c.find_value(w->first), "iteration and find_value()");
            }
            expect(w == m.end(), what);
        };
        walk(x.begin(), x.end(), "begin() to end() of an object");
        walk(c.begin(), c.end(), "begin() to end() of a const object");
        walk(c.cbegin(), c.cend(), "cbegin() to cend() of an object");
        { // backwards
            auto w = m.end();
            for (auto b = c.end(); b != c.begin();) {
                --b;
                if (w == m.begin() || b->first != (--w)->first) {
                    fail("backwards through an object");
                    break;
                }
            }
        }
        for (const auto& [k, e] : m) {
            expect(c.at(k), e, "member");
            expect(c.contains(k) && c.exists(k) && c.find_value(k) == &c.at(k), "contains(), exists() or find_value() of a member");
        }
        for (int i = 0; i < 3; ++i) {
            const std::string k = i == 0 ? key() + "?" : i == 1 ? key().substr(0, key().size() / 2) : key();
            if (m.count(k)) {
                const auto f = c.find(k);
                expect(f && conv::to_model(*f) == m.at(k), "find() of an object");
                continue;
            }
            expect(!c.contains(k) && !c.exists(k) && !c.find_value(k) && !c.find<json::value>(k), "an absent key exists");
            expect(throws_out_of_range([&] { (void)c.at(k); }), "at() of an absent key");
        }
        const auto all = [&](MV::K k) { return std::all_of(m.begin(), m.end(), [&](const auto& e) { return e.second.k == k; }); };
        expect(c.all<std::string>() == all(MV::Str) && c.all<bool>() == all(MV::Bool) && c.all<json::array>() == all(MV::Arr) && c.all<json::object>() == all(MV::Obj)
                   && c.all<std::nullptr_t>() == all(MV::Null) && c.all<json::value>(),
               "all<>() of an object");
        expect(c.dumps() == ref::dump(MV::obj(m)), "the text of an object");
    }

    void look(json::value& x, const MV& m)
    {
        VF_COUNT("values compared");
        const json::value& c = x;
        expect(c, m, "a value");
        if (bad) {
            return;
        }
        const std::string& k = key();
        const size_t i = g.below(4) ? g.below(6) : static_cast<size_t>(-1) - g.below(3);
        const MV* mk = m.k == MV::Obj && m.o.count(k) ? &m.o.at(k) : nullptr;
        const MV* mi = m.k == MV::Arr && i < m.a.size() ? &m.a[i] : nullptr;
        expect(c.contains(k) == !!mk && c.exists(k) == !!mk && !!c.find_value(k) == !!mk && c.find(k).has_value() == !!mk, "contains(key), exists(), find() or find_value() of a value");
        expect(c.contains(i) == !!mi && c.exists(i) == !!mi && !!c.find_value(i) == !!mi && c.find(i).has_value() == !!mi, "contains(pos), exists(), find() or find_value() of a value");
        if (mk) {
            expect(*c.find_value(k), *mk, "find_value(key) of a value");
            expect(&c.at(k) == c.find_value(k), "at(key) of a value");
            expect(*c.find(k), *mk, "find(key) of a value");
        }
        if (mi) {
            expect(*c.find_value(i), *mi, "find_value(pos) of a value");
            expect(&c.at(i) == c.find_value(i) && &c[i] == c.find_value(i), "at(pos) or [] of a value");
            expect(*c.find(i), *mi, "find(pos) of a value");
        }
        const auto all = [&](MV::K w) {
            return m.k == MV::Arr   ? std::all_of(m.a.begin(), m.a.end(), [&](const MV& e) { return e.k == w; })
                   : m.k == MV::Obj ? std::all_of(m.o.begin(), m.o.end(), [&](const auto& e) { return e.second.k == w; })
                                    : false;
        };
        expect(c.all<std::string>() == all(MV::Str) && c.all<bool>() == all(MV::Bool) && c.all<json::array>() == all(MV::Arr) && c.all<json::object>() == all(MV::Obj),
               "all<>() of a value");
        expect(c, m, "a value after being looked at");
    }

    // where the storage of a vector that doubles is used up
    static size_t x_capacity_guess(size_t n) { return n && (n & (n - 1)) == 0 ? n : SIZE_MAX; }

    // ------------------------------------------------------------ arrays
    void array_step(size_t s)
    {
        json::array& x = a[s];
        std::vector<MV>& m = am[s];
        const size_t t = g.below(N);
        switch (g.below(26)) {
        case 23:
        case 24:
        case 25: { // operands that are parts of the array, or the array itself
            name("array with a part of its own");
            if (m.empty() || m.size() > 200) {
                break;
            }
            const size_t i = g.below(m.size());
            const MV e = m[i];
            ++vf::ctx().counters[x.size() == x_capacity_guess(m.size()) ? "own parts inserted at a likely border" : "own parts inserted"];
            for (size_t n = 1 + g.below(4); n && !bad; --n) {
                switch (g.below(8)) {
                case 0:
                    x.push_back(x[i]);
                    m.push_back(e);
                    break;
                case 1:
                    x.emplace_back(std::as_const(x)[i]);
                    m.push_back(e);
                    break;
                case 2: // from the end
                    x.emplace_back(*x.rbegin());
                    m.push_back(MV(m.back()));
                    break;
                case 3: { // the element moved: what is left of it is any valid value
                    json::value& r = x.emplace_back(std::move(x[i]));
                    expect(&r == &x[x.size() - 1], "the result of an insertion at the end");
                    (void)x[i].dumps();
                    x[i] = conv::build(e);
                    m.push_back(e);
                    break;
                }
                case 4:
                    if (e.k == MV::Str) {
                        x.emplace_back(x[i].as_string_view());
                        m.push_back(e);
                    }
                    else if (e.k == MV::Arr) {
                        x.emplace_back(x[i].as_array());
                        m.push_back(e);
                    }
                    else if (e.k == MV::Obj) {
                        x.emplace_back(x[i].as_object());
                        m.push_back(e);
                    }
                    break;
                case 5:
                    if (ref::dump(MV::arr(m)).size() < 2000) {
                        const MV whole = MV::arr(m);
                        x.emplace_back(std::as_const(x));
                        m.push_back(whole);
                    }
                    break;
                case 6:
                    if (e.k == MV::Arr && e.a.size() < 50) {
                        if (g.chance(1, 2)) {
                            x += std::as_const(x)[i].as_array();
                        }
                        else {
                            x = x + x[i].as_array();
                        }
                        m.insert(m.end(), e.a.begin(), e.a.end());
                    }
                    break;
                default: {
                    const size_t j = g.below(m.size());
                    x[j] = std::as_const(x)[i];
                    const MV copy = m[i];
                    m[j] = copy;
                    if (j == i) {
                        break;
                    }
                    if (m[i].k == MV::Arr && !m[i].a.empty()) {
                        x[j] = x[i].at(0);
                        const MV first = m[i].a[0];
                        m[j] = first;
                    }
                    break;
                }
                }
                if (!(m[i] == e)) { // replaced by one of the above
                    break;
                }
            }
            break;
        }
        case 0:
        case 1:
        case 2:
        case 3: {
            const bool push = g.chance(1, 2);
            name(push ? "array.push_back" : "array.emplace_back");
            with_arg(g, [&](auto&& arg, const MV& want) {
                json::value* r;
                if (push) {
                    r = &x.push_back(std::forward<decltype(arg)>(arg));
                }
                else {
                    r = &x.emplace_back(std::forward<decltype(arg)>(arg));
                }
                m.push_back(want);
                expect(x.size() == m.size() && r == &x[m.size() - 1], "the result of an insertion at the end");
            });
            break;
        }
        case 4: {
            name("array.erase(pos)");
            const size_t i = g.chance(1, 5) ? m.size() + g.below(3) : g.chance(1, 20) ? static_cast<size_t>(-1) - g.below(3) : g.below(m.size() + 1);
            const bool r = x.erase(i);
            expect(r == (i < m.size()), "the result of erase(pos)");
            if (i < m.size()) {
                m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
            }
            break;
        }
        case 5: {
            name("array.erase(iterator)");
            const auto i = static_cast<std::ptrdiff_t>(g.below(m.size() + 1));
            const bool r = x.erase(x.begin() + i);
            expect(r == (i < static_cast<std::ptrdiff_t>(m.size())), "the result of erase(iterator)");
            if (r && !m.empty()) {
                m.erase(m.begin() + i);
            }
            break;
        }
        case 6: {
            name("array.clear");
            x.clear();
            m.clear();
            break;
        }
        case 7: {
            name("array[i] =");
            if (m.empty()) {
                break;
            }
            const size_t i = g.below(m.size());
            with_arg(g, [&](auto&& arg, const MV& want) {
                x[i] = std::forward<decltype(arg)>(arg);
                m[i] = want;
            });
            break;
        }
        case 8: {
            name("array + array");
            const std::vector<MV> l = m, r = am[t];
            std::vector<MV> want = l;
            want.insert(want.end(), r.begin(), r.end());
            switch (g.below(4)) {
            case 0: {
                const json::array res = x + std::as_const(a[t]);
                expect(res, MV::arr(want), "const + const");
                break;
            }
            case 1: {
                json::array tmp = a[t];
                const json::array res = std::as_const(x) + std::move(tmp);
                expect(res, MV::arr(want), "const + rvalue");
                break;
            }
            case 2: {
                json::array tmp = x;
                const json::array res = std::move(tmp) + std::as_const(a[t]);
                expect(res, MV::arr(want), "rvalue + const");
                break;
            }
            default: {
                json::array tmp = x, tmp2 = a[t];
                json::array res = std::move(tmp) + std::move(tmp2);
                expect(res, MV::arr(want), "rvalue + rvalue");
                if (want.size() < 300) {
                    x = std::move(res);
                    m = want;
                }
                break;
            }
            }
            break;
        }
        case 9:
        case 10: {
            name("array += array");
            if (m.size() > 200) {
                break;
            }
            const std::vector<MV> r = am[t];
            json::array* res;
            if (g.chance(1, 2)) {
                res = &(x += std::as_const(a[t]));
            }
            else {
                json::array tmp = a[t];
                res = &(x += std::move(tmp));
            }
            expect(res == &x, "the result of +=");
            m.insert(m.end(), r.begin(), r.end());
            break;
        }
        case 11: {
            name("array from a list");
            if (g.chance(1, 4)) {
                x = json::array {};
                m.clear();
            }
            else if (g.chance(1, 3)) {
                x = json::array { json::value(1) };
                m = { MV::num("1") };
            }
            else {
                const MV d = doc(), e = doc();
                x = { conv::build(d), "x", 1.0, conv::build(e), nullptr, json::array { 1 }, json::object { { "k", 1 } } };
                m = { d, MV::str("x"), MV::num(json::value(1.0).to_string()), e, MV::null(), MV::arr({ MV::num("1") }), MV::obj({ { "k", MV::num("1") } }) };
            }
            break;
        }
        case 12: {
            name("array(size)");
            const size_t n = g.below(20);
            x = json::array(n);
            m.assign(n, MV::null());
            break;
        }
        case 13: {
            name("array from a C++ sequence");
            std::vector<json::value> src;
            std::vector<MV> want;
            for (size_t n = g.below(8); n; --n) {
                want.push_back(doc());
                src.push_back(conv::build(want.back()));
            }
            switch (g.below(6)) {
            case 0:
                x = src;
                break;
            case 1:
                x = std::move(src);
                break;
            case 2:
                x = json::array(std::deque<json::value>(src.begin(), src.end()));
                break;
            case 3: {
                const std::list<json::value> lst(src.begin(), src.end());
                x = json::array(lst);
                break;
            }
            case 4: {
                std::array<json::value, 3> arr;
                std::copy(src.begin(), src.begin() + static_cast<std::ptrdiff_t>(std::min<size_t>(3, src.size())), arr.begin());
                x = arr;
                want.resize(3);
                break;
            }
            default: {
                const std::set<int> st { 3, static_cast<int>(g.below(3)), 1 };
                x = st;
                want.clear();
                for (int i : st) {
                    want.push_back(MV::num(std::to_string(i)));
                }
                break;
            }
            }
            m = want;
            break;
        }
        case 14: {
            name("array copy, move or swap");
            switch (g.below(3)) {
            case 0:
                x = a[t];
                m = std::vector<MV>(am[t]);
                break;
            case 1:
                if (t != s) {
                    x = std::move(a[t]);
                    m = am[t];
                    a[t].clear();
                    am[t].clear();
                }
                break;
            default:
                std::swap(x, a[t]);
                std::swap(m, am[t]);
                break;
            }
            break;
        }
        case 15: {
            name("array grows");
            const size_t n = 1 + g.skewed(120);
            if (m.size() > 200) {
                break;
            }
            for (size_t i = 0; i < n; ++i) {
                x.emplace_back(static_cast<int>(i));
                m.push_back(MV::num(std::to_string(i)));
            }
            break;
        }
        case 16: {
            name("array elements through iterators");
            const MV d = doc();
            if (m.empty()) {
                break;
            }
            const size_t i = g.below(m.size());
            if (g.chance(1, 2)) {
                *(x.begin() + static_cast<std::ptrdiff_t>(i)) = conv::build(d);
                m[i] = d;
            }
            else {
                *(x.rbegin() + static_cast<std::ptrdiff_t>(i)) = conv::build(d);
                m[m.size() - 1 - i] = d;
            }
            break;
        }
        case 17: {
            name("array.erase from the back");
            for (size_t n = g.below(6); n && !m.empty(); --n) {
                expect(x.erase(x.end() - 1), "erase of the last element");
                m.pop_back();
            }
            break;
        }
        case 18: {
            name("array.erase from the front");
            for (size_t n = g.below(6); n && !m.empty(); --n) {
                expect(x.erase(static_cast<size_t>(0)), "erase of the first element");
                m.erase(m.begin());
            }
            break;
        }
        case 19: {
            name("array == array");
            json::array w = x;
            expect(w == x && !(w != x), "an array is not equal to its copy");
            expect((a[t] == x) == (am[t] == m) && (a[t] != x) == (am[t] != m), "== of arrays");
            const json::value d = conv::build(doc());
            w.emplace_back(d);
            expect(w != x && x != w, "an array is equal to a longer one");
            if (!m.empty()) {
                const size_t i = g.below(m.size());
                json::array u = x;
                u[i] = d;
                expect((u == x) == (conv::to_model(d) == m[i]), "== of arrays that differ in one element");
                u = x;
                u.erase(i);
                expect(u != x, "an array is equal to a shorter one");
            }
            break;
        }
        case 20: {
            name("array of nothing");
            json::value& r = x.emplace_back();
            m.push_back(MV::null());
            expect(r.is_null() && &r == &x[m.size() - 1], "emplace_back()");
            break;
        }
        case 21: {
            name("array sorted and made unique");
            if (m.size() > 100) {
                break;
            }
            std::sort(x.begin(), x.end(), [](const json::value& p, const json::value& q) { return p.dumps() < q.dumps(); });
            std::sort(m.begin(), m.end(), [](const MV& p, const MV& q) { return ref::dump(p) < ref::dump(q); });
            auto e = std::unique(x.begin(), x.end());
            const auto me = std::unique(m.begin(), m.end());
            while (x.size() > static_cast<size_t>(me - m.begin())) {
                x.erase(x.size() - 1);
            }
            (void)e;
            m.erase(me, m.end());
            break;
        }
        default: {
            name("array from a value");
            json::value w = conv::build(MV::arr(m));
            if (g.chance(1, 2)) {
                x = w.as_array();
            }
            else {
                x = static_cast<json::array>(w);
            }
            break;
        }
        }
        look(x, m);
        if (t != s) {
            look(a[t], am[t]);
        }
    }

    // ------------------------------------------------------------ objects
    void object_step(size_t s)
    {
        json::object& x = o[s];
        std::map<std::string, MV>& m = om[s];
        const size_t t = g.below(N);
        switch (g.below(23)) {
        case 20:
        case 21:
        case 22: { // operands that are parts of the object, or the object itself
            name("object with a part of its own");
            if (m.empty()) {
                break;
            }
            for (size_t n = 1 + g.below(3); n && !bad && !m.empty(); --n) {
                auto it = x.begin();
                auto w = m.begin();
                const auto i = static_cast<std::ptrdiff_t>(g.below(m.size()));
                std::advance(it, i);
                std::advance(w, i);
                const MV e = w->second;
                const std::string k = g.chance(1, 2) ? key() : w->first;
                if (ref::dump(e).size() > 2000) {
                    break;
                }
                VF_COUNT("own parts inserted");
                switch (g.below(9)) {
                case 0:
                    x.insert(k, it->second);
                    m[k] = e;
                    break;
                case 1:
                    x.emplace(it->first, x.begin()->second);
                    w->second = MV(m.begin()->second);
                    break;
                case 2:
                    x[k] = it->second;
                    m[k] = e;
                    break;
                case 3: { // the key of a member as the key of a lookup which may insert
                    json::value& r = x[it->first];
                    expect(&r == &it->second, "[] of a key of the object's own");
                    break;
                }
                case 4:
                    expect(x.erase(it->first), "erase() of a key of the object's own");
                    m.erase(w);
                    break;
                case 5:
                    if (ref::dump(MV::obj(m)).size() < 1500) {
                        const MV whole = MV::obj(m);
                        if (g.chance(1, 2)) {
                            x.emplace(k, std::as_const(x));
                        }
                        else {
                            x[k] = std::as_const(x);
                        }
                        m[k] = whole;
                    }
                    break;
                case 6:
                    if (e.k == MV::Obj) {
                        const auto part = e.o;
                        if (g.chance(1, 2)) {
                            x |= std::as_const(it->second).as_object();
                        }
                        else {
                            x = x | std::as_const(it->second).as_object();
                        }
                        for (const auto& [pk, pe] : part) {
                            m[pk] = pe;
                        }
                    }
                    break;
                case 7: // the member moved: what is left of it is any valid value
                    if (k != w->first) {
                        x.insert(k, std::move(it->second));
                        (void)it->second.dumps();
                        it->second = conv::build(e);
                        m[k] = e;
                    }
                    break;
                default:
                    if (e.k == MV::Str) {
                        x.emplace(it->second.as_string(), it->first);
                        const std::string from = w->first;
                        m[e.s] = MV::str(from);
                    }
                    break;
                }
            }
            break;
        }
        case 0:
        case 1:
        case 2:
        case 3: {
            const bool ins = g.chance(1, 2);
            name(ins ? "object.insert" : "object.emplace");
            const std::string k = key();
            with_arg(g, [&](auto&& arg, const MV& want) {
                const bool fresh = !m.count(k);
                auto kk = k;
                const auto r = ins ? (g.chance(1, 2) ? x.insert(k, std::forward<decltype(arg)>(arg)) : x.insert(std::move(kk), std::forward<decltype(arg)>(arg)))
                                   : (g.chance(1, 2) ? x.emplace(as_string_key(k), std::forward<decltype(arg)>(arg)) : x.emplace(std::move(kk), std::forward<decltype(arg)>(arg)));
                m[k] = want;
                expect(r.second == fresh, "the flag returned by an insertion");
                expect(r.first != x.end() && r.first->first == k && &r.first->second == x.find_value(k), "the iterator returned by an insertion");
            });
            break;
        }
        case 4: {
            name("object.emplace(literal)");
            const bool fresh = !m.count("a");
            const auto r = x.emplace("a", "first");
            m["a"] = MV::str("first");
            expect(r.second == fresh, "the flag returned by an insertion");
            break;
        }
        case 5:
        case 6: {
            name("object[key] =");
            std::string k = key();
            m[k];
            if (g.chance(1, 3)) {
                const bool fresh = !x.contains(k);
                json::value& r = x[k];
                expect(&r == x.find_value(k), "[]");
                if (fresh) {
                    expect(r.is_null(), "a new member is not null");
                    m[k] = MV::null();
                }
            }
            else {
                with_arg(g, [&](auto&& arg, const MV& want) {
                    if (g.chance(1, 2)) {
                        x[k] = std::forward<decltype(arg)>(arg);
                    }
                    else {
                        std::string kk = k;
                        x[std::move(kk)] = std::forward<decltype(arg)>(arg);
                    }
                    m[k] = want;
                });
            }
            break;
        }
        case 7: {
            name("object[literal]");
            x["b"] = 1;
            x["b"] = "again";
            m["b"] = MV::str("again");
            break;
        }
        case 8: {
            name("object.erase(key)");
            const std::string k = key();
            expect(x.erase(k) == (m.erase(k) == 1), "the result of erase(key)");
            break;
        }
        case 9: {
            name("object.erase(iterator)");
            const size_t i = g.below(m.size() + 1);
            auto it = x.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(i));
            expect(x.erase(it) == (i < m.size()), "the result of erase(iterator)");
            if (i < m.size()) {
                auto w = m.begin();
                std::advance(w, static_cast<std::ptrdiff_t>(i));
                m.erase(w);
            }
            break;
        }
        case 10: {
            name("object.clear");
            x.clear();
            m.clear();
            break;
        }
        case 11:
        case 12: {
            name("object | object");
            std::map<std::string, MV> want = m;
            for (const auto& [k, e] : om[t]) {
                want[k] = e;
            }
            switch (g.below(4)) {
            case 0: {
                const json::object res = x | std::as_const(o[t]);
                expect(res, MV::obj(want), "const | const");
                break;
            }
            case 1: {
                json::object tmp = o[t];
                const json::object res = std::as_const(x) | std::move(tmp);
                expect(res, MV::obj(want), "const | rvalue");
                break;
            }
            case 2: {
                json::object tmp = x;
                const json::object res = std::move(tmp) | std::as_const(o[t]);
                expect(res, MV::obj(want), "rvalue | const");
                break;
            }
            default: {
                json::object tmp = x, tmp2 = o[t];
                json::object res = std::move(tmp) | std::move(tmp2);
                expect(res, MV::obj(want), "rvalue | rvalue");
                x = std::move(res);
                m = want;
                break;
            }
            }
            break;
        }
        case 13:
        case 14: {
            name("object |= object");
            const std::map<std::string, MV> r = om[t];
            json::object* res;
            if (g.chance(1, 2)) {
                res = &(x |= std::as_const(o[t]));
            }
            else {
                json::object tmp = o[t];
                res = &(x |= std::move(tmp));
            }
            expect(res == &x, "the result of |=");
            for (const auto& [k, e] : r) {
                m[k] = e;
            }
            break;
        }
        case 15: {
            name("object from a list");
            const MV d = doc();
            x = { { "z", 1 }, { "a", conv::build(d) }, { "m", json::array { 1 } }, { "", nullptr }, { std::string("q\0q", 3), json::object {} } };
            m = { { "z", MV::num("1") }, { "a", d }, { "m", MV::arr({ MV::num("1") }) }, { "", MV::null() }, { std::string("q\0q", 3), MV::obj() } };
            break;
        }
        case 16: {
            name("object from a C++ map");
            std::map<std::string, json::value> src;
            std::unordered_map<std::string, json::value> usrc;
            std::map<std::string, MV> want;
            for (size_t n = g.below(6); n; --n) {
                const std::string k = key();
                want[k] = doc();
                src[k] = usrc[k] = conv::build(want[k]);
            }
            switch (g.below(4)) {
            case 0:
                x = src;
                break;
            case 1:
                x = std::move(src);
                break;
            case 2:
                x = usrc;
                break;
            default:
                x = json::object(std::move(usrc));
                break;
            }
            m = want;
            break;
        }
        case 17: {
            name("object copy, move or swap");
            switch (g.below(3)) {
            case 0:
                x = o[t];
                m = std::map<std::string, MV>(om[t]);
                break;
            case 1:
                if (t != s) {
                    x = std::move(o[t]);
                    m = om[t];
                    o[t].clear();
                    om[t].clear();
                }
                break;
            default:
                std::swap(x, o[t]);
                std::swap(m, om[t]);
                break;
            }
            break;
        }
        case 18: {
            name("object == object");
            json::object w = x;
            expect(w == x && !(w != x), "an object is not equal to its copy");
            expect((o[t] == x) == (om[t] == m) && (o[t] != x) == (om[t] != m), "== of objects");
            std::string k = key();
            const MV d = doc();
            w[k] = conv::build(d);
            expect((w == x) == (m.count(k) && m.at(k) == d), "== of objects that differ in one member");
            if (!m.empty()) {
                json::object u = x;
                u.erase(u.begin());
                expect(u != x && x != u, "an object is equal to a smaller one");
                // the same values under another key
                json::object r = u;
                std::string first = m.begin()->first + "\x01";
                if (!m.count(first)) {
                    r[first] = x.begin()->second;
                    expect(r != x && x != r, "an object is equal to one with another key");
                }
            }
            break;
        }
        default: {
            name("object members through iterators");
            for (auto& [k, e] : x) {
                if (g.chance(1, 2)) {
                    const MV d = doc();
                    e = conv::build(d);
                    m[k] = d;
                }
            }
            for (int i = 0; i < 40 && g.chance(1, 2); ++i) {
                std::string k = "k" + std::to_string(g.below(60));
                x[k] = i;
                m[k] = MV::num(std::to_string(i));
            }
            break;
        }
        }
        look(x, m);
        if (t != s) {
            look(o[t], om[t]);
        }
    }

    // ------------------------------------------------------------ values
    static bool empty(const MV& m) { return m.empty(); }

    void value_step(size_t s)
    {
        json::value* x = &v[s];
        MV* m = &vm[s];
        while (g.chance(1, 4)) { // further in
            if (m->k == MV::Arr && !m->a.empty()) {
                const size_t i = g.below(m->a.size());
                x = &(*x)[i];
                m = &m->a[i];
            }
            else if (m->k == MV::Obj && !m->o.empty()) {
                auto it = m->o.begin();
                std::advance(it, static_cast<std::ptrdiff_t>(g.below(m->o.size())));
                x = &(*x)[it->first];
                m = &it->second;
            }
            else {
                break;
            }
        }
        const bool arr = m->k == MV::Arr, obj = m->k == MV::Obj, emp = m->empty();
        const auto becomes_array = [&] {
            if (!arr && emp) {
                *m = MV::arr();
            }
            return arr || emp;
        };
        const auto becomes_object = [&] {
            if (!obj && emp) {
                *m = MV::obj();
            }
            return obj || emp;
        };
        switch (g.below(22)) {
        case 20:
        case 21: { // operands that are parts of the value
            name("value with a part of its own");
            if (ref::dump(*m).size() > 1500) {
                break;
            }
            if (arr && !m->a.empty()) {
                const size_t i = g.below(m->a.size());
                const MV e = m->a[i];
                VF_COUNT("own parts inserted");
                switch (g.below(4)) {
                case 0:
                    x->emplace((*x)[i]);
                    m->a.push_back(e);
                    break;
                case 1: {
                    const MV whole = *m;
                    x->emplace(std::as_const(*x));
                    m->a.push_back(whole);
                    break;
                }
                case 2:
                    if (e.k == MV::Arr) {
                        *x += std::as_const(*x)[i].as_array();
                        m->a.insert(m->a.end(), e.a.begin(), e.a.end());
                    }
                    break;
                default:
                    *x = *x + std::as_const(*x).as_array();
                    for (const MV& again : std::vector<MV>(m->a)) {
                        m->a.push_back(again);
                    }
                    break;
                }
            }
            else if (obj && !m->o.empty()) {
                auto w = m->o.begin();
                std::advance(w, static_cast<std::ptrdiff_t>(g.below(m->o.size())));
                const MV e = w->second;
                const std::string k = key();
                const json::value& part = *std::as_const(*x).find_value(w->first);
                VF_COUNT("own parts inserted");
                switch (g.below(4)) {
                case 0:
                    x->emplace(k, part);
                    m->o[k] = e;
                    break;
                case 1: {
                    const MV whole = *m;
                    x->emplace(k, std::as_const(*x));
                    m->o[k] = whole;
                    break;
                }
                case 2:
                    if (e.k == MV::Obj) {
                        *x |= part.as_object();
                        for (const auto& [pk, pe] : e.o) {
                            m->o[pk] = pe;
                        }
                    }
                    break;
                default:
                    (*x)[k] = part;
                    m->o[k] = e;
                    break;
                }
            }
            break;
        }
        case 0:
        case 1: {
            name("value.emplace(x)");
            with_arg(g, [&](auto&& arg, const MV& want) {
                const bool threw = throws_json([&] {
                    json::value& r = x->emplace(std::forward<decltype(arg)>(arg));
                    if (becomes_array()) {
                        m->a.push_back(want);
                        expect(&r == &x->as_array()[m->a.size() - 1], "the result of emplace(x)");
                    }
                    else {
                        fail("emplace(x) on a value that is no array");
                    }
                });
                expect(threw == !(arr || emp), "emplace(x) threw");
            });
            break;
        }
        case 2:
        case 3: {
            name("value.emplace(key, x)");
            const std::string k = key();
            with_arg(g, [&](auto&& arg, const MV& want) {
                const bool threw = throws_json([&] {
                    const auto r = x->emplace(k, std::forward<decltype(arg)>(arg));
                    if (becomes_object()) {
                        expect(r.second == !m->o.count(k) && r.first->first == k, "the result of emplace(key, x)");
                        m->o[k] = want;
                    }
                    else {
                        fail("emplace(key, x) on a value that is no object");
                    }
                });
                expect(threw == !(obj || emp), "emplace(key, x) threw");
            });
            break;
        }
        case 4:
        case 5: {
            name("value[key] =");
            std::string k = key();
            with_arg(g, [&](auto&& arg, const MV& want) {
                const bool threw = throws_json([&] {
                    std::string kk = k;
                    if (g.chance(1, 2)) {
                        (*x)[k] = std::forward<decltype(arg)>(arg);
                    }
                    else {
                        (*x)[std::move(kk)] = std::forward<decltype(arg)>(arg);
                    }
                    if (becomes_object()) {
                        m->o[k] = want;
                    }
                    else {
                        fail("[key] on a value that is no object");
                    }
                });
                expect(threw == !(obj || emp), "[key] threw");
            });
            break;
        }
        case 6: {
            name("value[k][l] =");
            std::string k = "p" + std::to_string(g.below(3)), l = key();
            if (!(obj || emp)) {
                break;
            }
            becomes_object();
            MV& inner = m->o[k];
            const bool ok = inner.k == MV::Obj || inner.empty();
            const bool threw = throws_json([&] { (*x)[k][l] = l; });
            expect(threw == !ok, "[k][l]");
            if (ok) {
                if (inner.k != MV::Obj) {
                    inner = MV::obj();
                }
                inner.o[l] = MV::str(l);
            }
            break;
        }
        case 7: {
            name("value[pos] =");
            if (!arr || m->a.empty()) {
                if (!emp && !arr) {
                    expect(throws_json([&] { (void)(*x)[size_t(0)]; }), "[pos] on a value that is no array");
                }
                break;
            }
            const size_t i = g.below(m->a.size());
            with_arg(g, [&](auto&& arg, const MV& want) {
                (*x)[i] = std::forward<decltype(arg)>(arg);
                m->a[i] = want;
            });
            break;
        }
        case 8: {
            name("value.erase(pos)");
            const size_t i = g.below((arr ? m->a.size() : 0) + 2);
            bool r = false;
            const bool threw = throws_json([&] { r = x->erase(i); });
            if (arr) {
                expect(!threw && r == (i < m->a.size()), "erase(pos) of an array");
                if (i < m->a.size()) {
                    m->a.erase(m->a.begin() + static_cast<std::ptrdiff_t>(i));
                }
            }
            else if (emp) {
                expect(!r, "erase(pos) of an empty value");
                if (x->is_array()) {
                    *m = MV::arr();
                }
            }
            else {
                expect(threw, "erase(pos) of a value that is no array");
            }
            break;
        }
        case 9: {
            name("value.erase(key)");
            const std::string k = key();
            bool r = false;
            const bool threw = throws_json([&] { r = x->erase(k); });
            if (obj) {
                expect(!threw && r == (m->o.erase(k) == 1), "erase(key) of an object");
            }
            else if (emp) {
                expect(!r, "erase(key) of an empty value");
                if (x->is_object()) {
                    *m = MV::obj();
                }
            }
            else {
                expect(threw, "erase(key) of a value that is no object");
            }
            break;
        }
        case 10: {
            name("value.clear");
            x->clear();
            *m = MV::null();
            break;
        }
        case 11: {
            name("value + array");
            const size_t t = g.below(N);
            MV want = MV::arr(arr ? m->a : std::vector<MV>());
            want.a.insert(want.a.end(), am[t].begin(), am[t].end());
            json::array tmp = a[t];
            json::value lhs = *x, res;
            const unsigned form = static_cast<unsigned>(g.below(4));
            const bool threw = throws_json([&] {
                res = form == 0   ? std::as_const(*x) + std::as_const(a[t])
                      : form == 1 ? std::as_const(*x) + std::move(tmp)
                      : form == 2 ? std::move(lhs) + std::as_const(a[t])
                                  : std::move(lhs) + std::move(tmp);
            });
            if (arr) {
                expect(!threw, "value + array threw");
            }
            else if (!emp) {
                expect(threw, "value + array on a value that is no array");
            }
            if (!threw) {
                expect(res, want, "value + array");
            }
            break;
        }
        case 12: {
            name("value | object");
            const size_t t = g.below(N);
            MV want = MV::obj(obj ? m->o : std::map<std::string, MV>());
            for (const auto& [k, e] : om[t]) {
                want.o[k] = e;
            }
            json::object tmp = o[t];
            json::value lhs = *x, res;
            const unsigned form = static_cast<unsigned>(g.below(4));
            const bool threw = throws_json([&] {
                res = form == 0   ? std::as_const(*x) | std::as_const(o[t])
                      : form == 1 ? std::as_const(*x) | std::move(tmp)
                      : form == 2 ? std::move(lhs) | std::as_const(o[t])
                                  : std::move(lhs) | std::move(tmp);
            });
            if (obj) {
                expect(!threw, "value | object threw");
            }
            else if (!emp) {
                expect(threw, "value | object on a value that is no object");
            }
            if (!threw) {
                expect(res, want, "value | object");
            }
            break;
        }
        case 13: {
            name("value += array");
            const size_t t = g.below(N);
            if (am[t].size() > 100 || (arr && m->a.size() > 100)) {
                break;
            }
            json::array tmp = a[t];
            json::value* res = nullptr;
            const bool threw = throws_json([&] { res = g.chance(1, 2) ? &(*x += std::as_const(a[t])) : &(*x += std::move(tmp)); });
            expect(threw == !(arr || emp), "value += array threw");
            if (!threw) {
                expect(res == x, "the result of +=");
                becomes_array();
                m->a.insert(m->a.end(), am[t].begin(), am[t].end());
            }
            break;
        }
        case 14: {
            name("value |= object");
            const size_t t = g.below(N);
            json::object tmp = o[t];
            json::value* res = nullptr;
            const bool threw = throws_json([&] { res = g.chance(1, 2) ? &(*x |= std::as_const(o[t])) : &(*x |= std::move(tmp)); });
            expect(threw == !(obj || emp), "value |= object threw");
            if (!threw) {
                expect(res == x, "the result of |=");
                becomes_object();
                for (const auto& [k, e] : om[t]) {
                    m->o[k] = e;
                }
            }
            break;
        }
        case 15: {
            name("value.as_array()");
            const bool threw = throws_json([&] {
                json::array& w = x->as_array();
                const json::array* again = &x->as_array();
                expect(&w == again && w.size() == (arr ? m->a.size() : 0), "as_array()");
                if (becomes_array()) {
                    w.emplace_back("pushed");
                    m->a.push_back(MV::str("pushed"));
                }
            });
            expect(threw == !(arr || emp), "as_array() threw");
            break;
        }
        case 16: {
            name("value.as_object()");
            const bool threw = throws_json([&] {
                json::object& w = x->as_object();
                const json::object* again = &x->as_object();
                expect(&w == again && w.size() == (obj ? m->o.size() : 0), "as_object()");
                if (becomes_object()) {
                    w["put"] = 1;
                    m->o["put"] = MV::num("1");
                }
            });
            expect(threw == !(obj || emp), "as_object() threw");
            break;
        }
        case 17: { // something new, often something empty
            name("value = x");
            switch (g.below(6)) {
            case 0:
                *x = "";
                *m = MV::str("");
                break;
            case 1:
                *x = json::array {};
                *m = MV::arr();
                break;
            case 2:
                *x = json::object {};
                *m = MV::obj();
                break;
            case 3:
                *x = nullptr;
                *m = MV::null();
                break;
            default:
                with_arg(g, [&](auto&& arg, const MV& want) {
                    *x = std::forward<decltype(arg)>(arg);
                    *m = want;
                });
                break;
            }
            break;
        }
        case 18: {
            name("value == value");
            const size_t t = g.below(N);
            expect((*x == v[t]) == (*m == vm[t]) && (*x != v[t]) == (*m != vm[t]), "== of values");
            const MV d = doc();
            expect((*x == conv::build(d)) == (*m == d), "== of values");
            break;
        }
        default: {
            name("value = container slot");
            const size_t t = g.below(N);
            if (g.chance(1, 2)) {
                *x = a[t];
                *m = MV::arr(am[t]);
            }
            else {
                *x = o[t];
                *m = MV::obj(om[t]);
            }
            break;
        }
        }
        look(v[s], vm[s]);
        if (m->k == MV::Arr && m->a.size() > 300) {
            x->clear();
            *m = MV::null();
        }
    }

    void step()
    {
        VF_COUNT("steps");
        const size_t s = g.below(N);
        switch (g.below(3)) {
        case 0:
            array_step(s);
            break;
        case 1:
            object_step(s);
            break;
        default:
            value_step(s);
            break;
        }
    }

    void all()
    {
        for (size_t i = 0; i < N && !bad; ++i) {
            look(a[i], am[i]);
            look(o[i], om[i]);
            look(v[i], vm[i]);
        }
    }
};

size_t weight(const MV& m)
{
    size_t n = 1;
    for (const auto& e : m.a) {
        n += weight(e);
    }
    for (const auto& [k, e] : m.o) {
        n += weight(e);
    }
    return n;
}
}

SECTION(histories, 9000, 250000)
{
    World w(rng);
    VF_COUNT("evaluations");
    const size_t n = 4 + rng.below(60);
    vf::u64 h = 1;
    for (size_t i = 0; i < n && !w.bad; ++i) {
        w.step();
        h = vf::hash_bytes(w.op, h);
        for (size_t k = 0; k < World::N; ++k) {
            if (weight(w.vm[k]) > 600) {
                w.v[k].clear();
                w.vm[k] = MV::null();
            }
            if (w.am[k].size() > 250) {
                w.a[k].clear();
                w.am[k].clear();
            }
        }
    }
    w.all();
    vf::distinct(h);
    if (idx < 6) {
        vf::sample(w.log);
    }
}

// containers of many elements: growth, lookups and removal at scale
SECTION(big, 24, 400)
{
    World w(rng);
    w.name("big");
    VF_COUNT("evaluations");
    const size_t n = 500 + rng.below(6000);
    VF_COUNT_N("big elements", n);
    json::array& a = w.a[0];
    json::object& o = w.o[0];
    std::vector<size_t> order(n);
    for (size_t i = 0; i < n; ++i) {
        order[i] = i;
    }
    for (size_t i = n; i-- > 1;) {
        std::swap(order[i], order[rng.below(i + 1)]);
    }
    for (size_t i = 0; i < n; ++i) {
        a.emplace_back(order[i]);
        w.am[0].push_back(MV::num(std::to_string(order[i])));
        std::string k = ref::gen_string(rng, 6) + std::to_string(order[i] % (n / 2));
        o[k] = i;
        w.om[0][k] = MV::num(std::to_string(i));
    }
    w.look(a, w.am[0]);
    w.look(o, w.om[0]);
    for (size_t i = 0; i < n / 2; ++i) {
        const size_t p = rng.below(w.am[0].size());
        a.erase(p);
        w.am[0].erase(w.am[0].begin() + static_cast<std::ptrdiff_t>(p));
        if (!w.om[0].empty() && rng.chance(1, 2)) {
            auto it = w.om[0].begin();
            std::advance(it, static_cast<std::ptrdiff_t>(rng.below(std::min<size_t>(40, w.om[0].size()))));
            const std::string k = it->first;
            w.expect(o.erase(k), "erase of a member");
            w.om[0].erase(it);
        }
        vf::alive();
    }
    w.look(a, w.am[0]);
    w.look(o, w.om[0]);
    vf::distinct(vf::mix(n));
}

// every sequence of up to four operations on an empty value
SECTION(exhaustive, 1, 1)
{
    using Op = std::pair<const char*, std::function<void(json::value&, MV&)>>;
    const auto to_arr = [](MV& m) {
        if (m.k != MV::Arr && m.empty()) {
            m = MV::arr();
        }
        return m.k == MV::Arr;
    };
    const auto to_obj = [](MV& m) {
        if (m.k != MV::Obj && m.empty()) {
            m = MV::obj();
        }
        return m.k == MV::Obj;
    };
    const std::vector<Op> ops {
        { "emplace(1)", [&](json::value& v, MV& m) { if (to_arr(m)) { v.emplace(1); m.a.push_back(MV::num("1")); } } },
        { "emplace(\"\")", [&](json::value& v, MV& m) { if (to_arr(m)) { v.emplace(""); m.a.push_back(MV::str("")); } } },
        { "emplace(k, 1)", [&](json::value& v, MV& m) { if (to_obj(m)) { v.emplace("k", 1); m.o["k"] = MV::num("1"); } } },
        { "emplace(k, v)", [&](json::value& v, MV& m) { if (to_obj(m)) { const json::value c = v; const MV mc = m; v.emplace("k", c); m.o["k"] = mc.k == MV::Obj ? mc : conv::to_model(c); if (conv::to_model(c) != mc) { m.o["k"] = conv::to_model(c); } } } },
        { "[j] = 2", [&](json::value& v, MV& m) { if (to_obj(m)) { v["j"] = 2; m.o["j"] = MV::num("2"); } } },
        { "[j]", [&](json::value& v, MV& m) { if (to_obj(m)) { v["j"]; m.o["j"]; } } },
        { "erase(0)", [&](json::value& v, MV& m) { if (m.k == MV::Arr) { v.erase(0); if (!m.a.empty()) { m.a.erase(m.a.begin()); } } } },
        { "erase(j)", [&](json::value& v, MV& m) { if (m.k == MV::Obj) { v.erase("j"); m.o.erase("j"); } } },
        { "clear", [&](json::value& v, MV& m) { v.clear(); m = MV::null(); } },
        { "= \"\"", [&](json::value& v, MV& m) { v = ""; m = MV::str(""); } },
        { "+= [true]", [&](json::value& v, MV& m) { if (to_arr(m)) { v += json::array { true }; m.a.push_back(MV::boolean(true)); } } },
        { "|= {j:[]}", [&](json::value& v, MV& m) { if (to_obj(m)) { v |= json::object { { "j", json::array {} } }; m.o["j"] = MV::arr(); } } },
        { "= 3", [&](json::value& v, MV& m) { v = 3; m = MV::num("3"); } },
        { "as_array().clear()", [&](json::value& v, MV& m) { if (to_arr(m)) { v.as_array().clear(); m.a.clear(); } } },
        { "as_object().clear()", [&](json::value& v, MV& m) { if (to_obj(m)) { v.as_object().clear(); m.o.clear(); } } },
    };
    const size_t n = ops.size();
    for (size_t len = 1; len <= 4; ++len) {
        size_t total = 1;
        for (size_t i = 0; i < len; ++i) {
            total *= n;
        }
        for (size_t code = 0; code < total; ++code) {
            json::value v;
            MV m;
            std::string log;
            size_t c = code;
            for (size_t i = 0; i < len; ++i) {
                const auto& [nm, f] = ops[c % n];
                c /= n;
                log += nm;
                log += "; ";
                f(v, m);
            }
            VF_COUNT("exhaustive sequences");
            vf::input(log);
            if (const std::string d = conv::differs(v, m); !d.empty()) {
                vf::violation("exhaustive", d + ": " + vf::printable(v.dumps()) + " instead of " + vf::printable(ref::dump(m)) + " after " + log, log);
                return;
            }
        }
    }
}

// past the borders of 8 and 16 bit counters and of buffers, in one respect each
SECTION(huge, ref::big_kinds * 2, ref::big_thorough)
{
    const MV m = ref::big(idx, rng);
    World w(rng);
    w.name("huge");
    VF_COUNT("evaluations");
    VF_COUNT("huge containers");
    json::value v = conv::build(m);
    if (m.k == MV::Arr) {
        json::array& a = v.as_array();
        std::vector<MV> n = m.a;
        w.look(a, n);
        for (size_t p : { n.size() - 1, size_t(0), size_t(65535), size_t(65536), size_t(256), n.size(), n.size() + 65536 }) {
            w.expect(a.erase(p) == (p < n.size()), "erase() of a position");
            if (p < n.size()) {
                n.erase(n.begin() + static_cast<std::ptrdiff_t>(p));
            }
        }
        if (!n.empty()) {
            const auto p = static_cast<std::ptrdiff_t>(n.size() - 1);
            w.expect(a.erase(a.begin() + p), "erase() of an iterator");
            n.erase(n.begin() + p);
        }
        a.emplace_back("last");
        n.push_back(MV::str("last"));
        const json::array b = a + json::array { 1, 2 };
        a += a;
        const std::vector<MV> half = n;
        n.insert(n.end(), half.begin(), half.end());
        w.look(a, n);
        json::array c = b;
        std::vector<MV> nb = half;
        nb.push_back(MV::num("1"));
        nb.push_back(MV::num("2"));
        w.look(c, nb);
        w.expect(b == c && !(b != c) && b != a, "comparison");
    }
    else {
        json::object& o = v.as_object();
        std::map<std::string, MV> n = m.o;
        w.look(o, n);
        const std::string first = n.begin()->first, last = n.rbegin()->first;
        w.expect(o.erase(last), "erase() of the last key");
        n.erase(last);
        w.expect(!o.erase(last + "?"), "erase() of a key that is not there");
        o[first] = "first";
        n[first] = MV::str("first");
        o.emplace("new", 1);
        n["new"] = MV::num("1");
        json::object more { { first, 2 }, { "newer", nullptr } };
        const json::object l = o | more, r = more | o;
        std::map<std::string, MV> nl = n, nr = n;
        nl[first] = MV::num("2");
        nl["newer"] = nr["newer"] = MV::null();
        json::object x = l, y = r;
        w.look(x, nl);
        w.look(y, nr);
        o |= more;
        n = nl;
        if (!n.empty()) {
            w.expect(o.erase(o.begin()), "erase() of an iterator");
            n.erase(n.begin());
        }
        w.look(o, n);
        w.expect(x == l && !(x != l) && o != l, "comparison");
    }
    vf::distinct(vf::mix(idx + 1000));
}
