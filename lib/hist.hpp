// hist.hpp - values with a given content, produced by random histories of public operations
#pragma once

#include "conv.hpp"

#include <list>
#include <sstream>
#include <unordered_map>

namespace hist
{
using conv::build;
using ref::MV;
using vf::Rng;

inline vf::u64& steps()
{
    static vf::u64 n = 0;
    return n;
}

inline json::value make(Rng& g, const MV& m, unsigned depth = 0);

// something small that is not part of the wanted content
inline json::value junk(Rng& g)
{
    switch (g.below(7)) {
    case 0:
        return json::value();
    case 1:
        return json::value(static_cast<int>(g.below(100)));
    case 2:
        return json::value(std::string(g.below(40), 'j'));
    case 3:
        return json::value(json::array { 1, "x" });
    case 4:
        return json::value(json::object { { "p", 1 }, { "q", json::array {} } });
    case 5:
        return json::value(json::object {});
    default:
        return json::value(g.chance(1, 2));
    }
}

inline json::value by_parsing(Rng& g, const MV& m)
{
    const bool container = m.k == MV::Arr || m.k == MV::Obj;
    const bool jsonc = g.chance(1, 3);
    std::string t = ref::render_doc(g, container ? m : MV::arr({ m }), ref::gen_style(g, jsonc));
    std::optional<json::value> v = jsonc ? json::parsec(t) : json::parse(t);
    if (!v) {
        return build(m); // other properties judge the parser
    }
    if (container) {
        return std::move(*v);
    }
    return g.chance(1, 2) ? (*v)[0] : std::move((*v)[0]);
}

inline json::value scalar(Rng& g, const MV& m)
{
    switch (m.k) {
    case MV::Null:
        switch (g.below(4)) {
        case 0:
            return json::value();
        case 1:
            return json::value(nullptr);
        case 2: {
            json::value v = junk(g);
            v.clear();
            return v;
        }
        default: {
            json::array a(static_cast<size_t>(3)); // nulls
            return a[1];
        }
        }
    case MV::Bool:
        return g.chance(1, 2) ? json::value(m.b) : by_parsing(g, m);
    case MV::Num:
        return g.chance(1, 2) ? json::value(json::value::value_type::number, m.s) : by_parsing(g, m);
    default:
        switch (g.below(4)) {
        case 0:
            return json::value(m.s);
        case 1:
            return json::value(std::string_view(m.s));
        case 2:
            return by_parsing(g, m);
        default:
            return json::value(std::string(m.s));
        }
    }
}

inline json::array array(Rng& g, const MV& m, unsigned depth)
{
    const size_t n = m.a.size();
    auto elem = [&](size_t i) { return make(g, m.a[i], depth + 1); };
    json::array a;
    switch (g.below(8)) {
    case 0: // in order
        for (size_t i = 0; i < n; ++i) {
            if (g.chance(1, 2)) {
                a.emplace_back(elem(i));
            }
            else {
                json::value x = elem(i);
                a.push_back(x);
            }
            ++steps();
        }
        return a;
    case 1: { // with elements that are erased again
        std::vector<bool> extra;
        for (size_t i = 0; i < n || g.chance(1, 3);) {
            if (i == n || g.chance(1, 4)) {
                a.emplace_back(junk(g));
                extra.push_back(true);
            }
            else {
                a.emplace_back(elem(i++));
                extra.push_back(false);
            }
            ++steps();
        }
        for (size_t i = extra.size(); i-- > 0;) {
            if (extra[i]) {
                if (g.chance(1, 2)) {
                    a.erase(i);
                }
                else {
                    a.erase(a.begin() + static_cast<std::ptrdiff_t>(i));
                }
                ++steps();
            }
        }
        return a;
    }
    case 2: { // two halves
        const size_t cut = g.below(n + 1);
        json::array b;
        for (size_t i = 0; i < n; ++i) {
            (i < cut ? a : b).emplace_back(elem(i));
        }
        ++steps();
        switch (g.below(6)) {
        case 0:
            return a + b;
        case 1:
            return a + std::move(b);
        case 2:
            return std::move(a) + b;
        case 3:
            return std::move(a) + std::move(b);
        case 4:
            a += b;
            return a;
        default:
            a += std::move(b);
            return a;
        }
    }
    case 3: { // overwritten elements
        json::array x(n);
        for (size_t i = 0; i < n; ++i) {
            x[i] = junk(g);
        }
        for (size_t i = n; i-- > 0;) {
            x[i] = elem(i);
            ++steps();
        }
        return x;
    }
    case 4: {
        std::vector<json::value> v;
        for (size_t i = 0; i < n; ++i) {
            v.push_back(elem(i));
        }
        ++steps();
        if (g.chance(1, 2)) {
            return json::array(v);
        }
        return json::array(std::list<json::value>(v.begin(), v.end()));
    }
    case 5:
        ++steps();
        if (n == 1) {
            return json::array { elem(0) };
        }
        if (n == 2) {
            json::value x = elem(0), y = elem(1);
            return json::array { x, y };
        }
        if (n == 3) {
            return json::array { elem(0), elem(1), elem(2) };
        }
        return by_parsing(g, m).as_array();
    case 6: { // through a value
        json::value v;
        if (g.chance(1, 2)) {
            v = "";
        }
        for (size_t i = 0; i < n; ++i) {
            v.emplace(elem(i));
            ++steps();
        }
        return v.as_array();
    }
    default:
        ++steps();
        return by_parsing(g, m).as_array();
    }
}

inline json::object object(Rng& g, const MV& m, unsigned depth)
{
    const size_t n = m.o.size();
    std::vector<const std::pair<const std::string, MV>*> order;
    for (auto& e : m.o) {
        order.push_back(&e);
    }
    for (size_t i = n; i > 1; --i) {
        std::swap(order[i - 1], order[g.below(i)]);
    }
    auto elem = [&](size_t i) { return make(g, order[i]->second, depth + 1); };
    auto key = [&](size_t i) -> const std::string& { return order[i]->first; };
    auto foreign = [&](size_t i) { return key(i) + "#" + std::to_string(g.below(10)); };
    json::object o;
    switch (g.below(8)) {
    case 0: // any order
        for (size_t i = 0; i < n; ++i) {
            switch (g.below(4)) {
            case 0:
                o.emplace(key(i), elem(i));
                break;
            case 1:
                o.insert(key(i), elem(i));
                break;
            case 2:
                o[key(i)] = elem(i);
                break;
            default:
                o[std::string(key(i))] = elem(i);
            }
            ++steps();
        }
        return o;
    case 1: // overwriting, and members that are erased again
        for (size_t i = 0; i < n; ++i) {
            if (g.chance(1, 2)) {
                o.emplace(key(i), junk(g));
                ++steps();
            }
            const std::string f = foreign(i);
            if (g.chance(1, 3) && !m.o.count(f)) {
                o.emplace(f, junk(g));
                ++steps();
            }
        }
        for (size_t i = 0; i < n; ++i) {
            o.emplace(key(i), elem(i));
            ++steps();
        }
        for (auto it = o.begin(); it != o.end();) {
            if (!m.o.count(it->first)) {
                const std::string k = it->first;
                ++it;
                o.erase(k);
                ++steps();
            }
            else {
                ++it;
            }
        }
        return o;
    case 2: { // merged
        json::object b;
        for (size_t i = 0; i < n; ++i) {
            const auto where = g.below(3);
            if (where == 0) {
                o.emplace(key(i), elem(i));
            }
            else {
                if (where == 1) {
                    o.emplace(key(i), junk(g)); // the right-hand side wins
                }
                b.emplace(key(i), elem(i));
            }
        }
        ++steps();
        switch (g.below(6)) {
        case 0:
            return o | b;
        case 1:
            return o | std::move(b);
        case 2:
            return std::move(o) | b;
        case 3:
            return std::move(o) | std::move(b);
        case 4:
            o |= b;
            return o;
        default:
            o |= std::move(b);
            return o;
        }
    }
    case 3: {
        std::map<std::string, json::value> x;
        for (size_t i = 0; i < n; ++i) {
            x.emplace(key(i), elem(i));
        }
        ++steps();
        if (g.chance(1, 2)) {
            return json::object(x);
        }
        return json::object(std::move(x));
    }
    case 4: {
        std::unordered_map<std::string, json::value> x;
        for (size_t i = 0; i < n; ++i) {
            x.emplace(key(i), elem(i));
        }
        ++steps();
        if (g.chance(1, 2)) {
            return json::object(x);
        }
        return json::object(std::move(x));
    }
    case 5:
        ++steps();
        if (n == 1) {
            return json::object { { key(0), elem(0) } };
        }
        if (n == 2) {
            return json::object { { key(0), elem(0) }, { key(1), elem(1) } };
        }
        return by_parsing(g, m).as_object();
    case 6: { // through a value
        json::value v;
        if (g.chance(1, 2)) {
            v = json::array();
        }
        for (size_t i = 0; i < n; ++i) {
            if (g.chance(1, 2)) {
                v.emplace(key(i), elem(i));
            }
            else {
                v[key(i)] = elem(i);
            }
            ++steps();
        }
        return v.as_object();
    }
    default:
        ++steps();
        return by_parsing(g, m).as_object();
    }
}

inline json::value make(Rng& g, const MV& m, unsigned depth)
{
    json::value v;
    if (depth > 3) {
        v = build(m);
    }
    else if (m.k == MV::Arr) {
        v = json::value(array(g, m, depth));
    }
    else if (m.k == MV::Obj) {
        v = json::value(object(g, m, depth));
    }
    else {
        v = scalar(g, m);
    }
    for (unsigned n = g.below(3); n > 0; --n) {
        ++steps();
        switch (g.below(6)) {
        case 0: {
            json::value w(v);
            v = std::move(w);
            break;
        }
        case 1: {
            json::value w(std::move(v));
            v = w;
            break;
        }
        case 2: {
            json::value w = junk(g);
            w = v;
            std::swap(v, w);
            break;
        }
        case 3: {
            const json::value& alias = v;
            v = alias;
            break;
        }
        case 4: { // out of a part of itself
            json::value w = json::object { { "k", v } };
            w = w.at("k");
            v = std::move(w);
            break;
        }
        default: {
            json::value w = json::array { 1, v };
            w = std::move(w[1]);
            v = std::move(w);
        }
        }
    }
    return v;
}

// a model that differs from m in one small place
inline MV perturb(Rng& g, MV m)
{
    // walk down to some node
    MV* p = &m;
    for (;;) {
        if (p->k == MV::Arr && !p->a.empty() && g.chance(4, 5)) {
            p = &p->a[g.below(p->a.size())];
        }
        else if (p->k == MV::Obj && !p->o.empty() && g.chance(4, 5)) {
            auto it = p->o.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(g.below(p->o.size())));
            p = &it->second;
        }
        else {
            break;
        }
    }
    const MV before = *p;
    switch (p->k) {
    case MV::Null: {
        static const MV as[] = { MV::str(""), MV::str("null"), MV::boolean(false), MV::num("0"), MV::arr(), MV::obj() };
        *p = as[g.below(6)];
        break;
    }
    case MV::Bool:
        if (g.chance(1, 2)) {
            p->b = !p->b;
        }
        else {
            *p = MV::str(p->b ? "true" : "false");
        }
        break;
    case MV::Num:
        if (g.chance(1, 3)) {
            *p = MV::str(p->s);
        }
        else if (g.chance(1, 2)) {
            *p = MV::num(p->s.find_first_of(".eE") == std::string::npos ? p->s + ".0" : p->s + "0");
        }
        else {
            char& c = p->s[p->s.find_last_of("0123456789")];
            c = c == '9' ? '8' : static_cast<char>(c + 1);
        }
        break;
    case MV::Str:
        if (p->s.empty()) {
            *p = g.chance(1, 2) ? MV::null() : MV::str(std::string(1, '\0'));
        }
        else {
            switch (g.below(4)) {
            case 0:
                p->s.pop_back();
                break;
            case 1:
                p->s += static_cast<char>(g.below(256));
                break;
            case 2:
                p->s += '\0';
                break;
            default: {
                char& c = p->s[g.below(p->s.size())];
                c = static_cast<char>(c ^ (1 << g.below(8)));
            }
            }
        }
        break;
    case MV::Arr:
        if (p->a.empty()) {
            *p = g.chance(1, 2) ? MV::obj() : MV::arr({ MV::null() });
        }
        else {
            switch (g.below(3)) {
            case 0:
                p->a.pop_back();
                break;
            case 1:
                p->a.push_back(MV::null());
                break;
            default:
                if (p->a.size() > 1 && p->a.front() != p->a.back()) {
                    std::swap(p->a.front(), p->a.back());
                }
                else {
                    p->a.erase(p->a.begin());
                }
            }
        }
        break;
    case MV::Obj:
        if (p->o.empty()) {
            *p = g.chance(1, 2) ? MV::arr() : MV::obj({ { "", MV::null() } });
        }
        else if (g.chance(1, 2)) {
            p->o.erase(std::prev(p->o.end()));
        }
        else { // another key
            auto node = p->o.extract(p->o.begin());
            std::string k = node.key();
            do {
                k += g.chance(1, 2) ? 'x' : '\0';
            } while (p->o.count(k));
            node.key() = k;
            p->o.insert(std::move(node));
        }
        break;
    }
    if (*p == before) {
        *p = MV::str("something else");
    }
    return m;
}
} // namespace hist
