// P14: values are independent and survive copy, move and aliasing.
// Random histories over slots of values, arrays and objects, with a model of every slot; after every step
// every slot (not only the touched ones) is compared with its model.
#include "hist.hpp"

#include <numeric>

using ref::MV;
using vf::Rng;

namespace
{
struct Node
{
    json::value* v;
    MV* m;
    size_t slot;
    std::vector<std::string> path;

    bool inside(const Node& o) const // strictly inside of o
    {
        return slot == o.slot && path.size() > o.path.size() && std::equal(o.path.begin(), o.path.end(), path.begin());
    }

    bool same(const Node& o) const { return slot == o.slot && path == o.path; }
};

struct World
{
    static constexpr size_t N = 4;
    Rng& g;
    json::value v[N];
    MV m[N];
    json::array a;
    MV am = MV::arr();
    json::object o;
    MV om = MV::obj();
    std::string log;
    const char* op = "";

    explicit World(Rng& r)
        : g(r)
    {
        for (size_t i = 0; i < N; ++i) {
            m[i] = ref::gen_doc(g, 8, 3, 12);
            v[i] = conv::build(m[i]);
        }
    }

    // a random node of a slot
    Node pick()
    {
        Node n;
        n.slot = g.below(N);
        n.v = &v[n.slot];
        n.m = &m[n.slot];
        while (g.chance(3, 5)) {
            if (n.m->k == MV::Arr && !n.m->a.empty()) {
                const size_t i = g.below(n.m->a.size());
                n.v = g.chance(1, 2) ? &(*n.v)[i] : &n.v->as_array()[i];
                n.m = &n.m->a[i];
                n.path.push_back(std::to_string(i));
            }
            else if (n.m->k == MV::Obj && !n.m->o.empty()) {
                auto it = n.m->o.begin();
                std::advance(it, static_cast<std::ptrdiff_t>(g.below(n.m->o.size())));
                n.v = g.chance(1, 2) ? &(*n.v)[it->first] : &n.v->as_object()[it->first];
                n.m = &it->second;
                n.path.push_back(it->first);
            }
            else {
                break;
            }
        }
        return n;
    }

    Node pick(MV::K k, const Node* keep = nullptr)
    {
        for (int i = 0; i < 12; ++i) {
            Node n = pick();
            if (n.m->k == k) {
                return n;
            }
        }
        Node n = pick(); // make one
        if (keep && (keep->same(n) || keep->inside(n))) {
            return *keep;
        }
        *n.m = k == MV::Arr ? MV::arr({ MV::num("1"), MV::str("x"), MV::arr({ MV::null() }) }) : MV::obj({ { "k", MV::num("1") }, { "l", MV::arr({ MV::str("y") }) } });
        *n.v = conv::build(*n.m);
        return n;
    }

    // what was moved from has some content that can be read
    void moved_from(const Node& n)
    {
        VF_COUNT("moved-from values");
        *n.m = conv::to_model(*n.v);
        (void)n.v->dumps();
        (void)n.v->is_null();
        if (g.chance(1, 2)) {
            *n.m = ref::gen_doc(g, 3, 1, 6);
            *n.v = conv::build(*n.m);
        }
        else if (g.chance(1, 2)) {
            n.v->clear();
            *n.m = MV::null();
        }
    }

    void name(const char* s)
    {
        op = s;
        log += s;
        log += ';';
        vf::note(s);
        vf::input(log);
        ++vf::ctx().counters[std::string("op ") + s];
    }

    void step()
    {
        VF_COUNT("steps");
        Node d = pick();
        Node s = pick();
        switch (g.below(34)) {
        case 0:
        case 1:
        case 2: { // copy assignment between any two nodes
            name(d.same(s) ? "self-copy" : s.inside(d) ? "copy of a part" : d.inside(s) ? "copy of the whole into a part" : "copy assignment");
            const MV c = *s.m;
            const json::value& src = *s.v;
            json::value& r = (*d.v = src);
            *d.m = c;
            if (&r != d.v) {
                fail("result of operator=");
            }
            break;
        }
        case 3:
        case 4:
        case 5: { // move assignment
            if (d.inside(s)) {
                return;
            }
            name(d.same(s) ? "self-move" : s.inside(d) ? "move of a part" : "move assignment");
            const MV c = *s.m;
            *d.v = std::move(*s.v);
            *d.m = c;
            if (!d.same(s) && !s.inside(d)) {
                moved_from(s);
            }
            break;
        }
        case 6: { // copy construction, then one of both is changed
            name("copy construction");
            json::value w = *s.v;
            if (g.chance(1, 2)) {
                json::value x(w);
                w = x;
            }
            const MV c = *s.m;
            if (w != *s.v || !(w == *s.v)) {
                fail("a copy is not equal");
            }
            mutate(s);
            expect(w, c, "the copy");
            const MV after = *s.m;
            Node n { &w, nullptr, 99, {} };
            MV wm = c;
            n.m = &wm;
            mutate(n);
            expect(w, wm, "the changed copy");
            expect(*s.v, after, "the source");
            break;
        }
        case 7: { // move construction
            name("move construction");
            const MV c = *s.m;
            json::value w(std::move(*s.v));
            expect(w, c, "the moved");
            moved_from(s);
            if (!d.inside(s) && g.chance(1, 2)) {
                *d.v = std::move(w);
                *d.m = c;
                if (g.chance(1, 2)) {
                    (void)w.dumps();
                    w = 1;
                    expect(w, MV::num("1"), "reused");
                }
            }
            break;
        }
        case 8: { // swap of what does not overlap
            if (d.same(s) || d.inside(s) || s.inside(d)) {
                return;
            }
            name("swap");
            std::swap(*d.v, *s.v);
            std::swap(*d.m, *s.m);
            break;
        }
        case 9: { // arrays
            Node x = pick(MV::Arr), y = pick(MV::Arr, &x);
            if (y.m->k != MV::Arr || x.m->k != MV::Arr) {
                return;
            }
            name(x.same(y) ? "array self-copy" : y.inside(x) ? "array = part" : x.inside(y) ? "part = whole array" : "array = array");
            const MV c = *y.m;
            const json::array& src = y.v->as_array();
            x.v->as_array() = src;
            *x.m = c;
            break;
        }
        case 10: {
            Node x = pick(MV::Arr), y = pick(MV::Arr, &x);
            if (y.m->k != MV::Arr || x.m->k != MV::Arr || x.inside(y)) {
                return;
            }
            name(x.same(y) ? "array self-move" : y.inside(x) ? "array = moved part" : "array = moved array");
            const MV c = *y.m;
            x.v->as_array() = std::move(y.v->as_array());
            *x.m = c;
            if (!x.same(y) && !y.inside(x)) {
                moved_from(y);
            }
            break;
        }
        case 11: { // objects
            Node x = pick(MV::Obj), y = pick(MV::Obj, &x);
            if (y.m->k != MV::Obj || x.m->k != MV::Obj) {
                return;
            }
            name(x.same(y) ? "object self-copy" : y.inside(x) ? "object = part" : x.inside(y) ? "part = whole object" : "object = object");
            const MV c = *y.m;
            const json::object& src = y.v->as_object();
            x.v->as_object() = src;
            *x.m = c;
            break;
        }
        case 12: {
            Node x = pick(MV::Obj), y = pick(MV::Obj, &x);
            if (y.m->k != MV::Obj || x.m->k != MV::Obj || x.inside(y)) {
                return;
            }
            name(x.same(y) ? "object self-move" : y.inside(x) ? "object = moved part" : "object = moved object");
            const MV c = *y.m;
            x.v->as_object() = std::move(y.v->as_object());
            *x.m = c;
            if (!x.same(y) && !y.inside(x)) {
                moved_from(y);
            }
            break;
        }
        case 13: { // a value from an array or object inside of it
            Node y = pick(g.chance(1, 2) ? MV::Arr : MV::Obj);
            d = pick();
            const bool move = g.chance(1, 2);
            if (move && d.inside(y)) {
                return;
            }
            name(move ? "value = moved container" : "value = container");
            const MV c = *y.m;
            if (c.k == MV::Arr) {
                if (move) {
                    *d.v = std::move(y.v->as_array());
                }
                else {
                    *d.v = y.v->as_array();
                }
            }
            else if (move) {
                *d.v = std::move(y.v->as_object());
            }
            else {
                *d.v = y.v->as_object();
            }
            *d.m = c;
            if (move && !d.same(y) && !y.inside(d)) {
                moved_from(y);
            }
            break;
        }
        case 14: { // appending an array that may be (in) the same
            Node x = pick(MV::Arr), y = pick(MV::Arr, &x);
            if (x.m->k != MV::Arr || y.m->k != MV::Arr) {
                return;
            }
            name(x.same(y) ? "array += itself" : y.inside(x) ? "array += part" : x.inside(y) ? "part += array" : "array += array");
            const MV c = *y.m;
            const json::array& src = y.v->as_array();
            if (g.chance(1, 2)) {
                x.v->as_array() += src;
            }
            else {
                *x.v += src;
            }
            x.m->a.insert(x.m->a.end(), c.a.begin(), c.a.end());
            break;
        }
        case 15: {
            Node x = pick(MV::Obj), y = pick(MV::Obj, &x);
            if (x.m->k != MV::Obj || y.m->k != MV::Obj) {
                return;
            }
            name(x.same(y) ? "object |= itself" : y.inside(x) ? "object |= part" : x.inside(y) ? "part |= object" : "object |= object");
            const MV c = *y.m;
            const json::object& src = y.v->as_object();
            if (g.chance(1, 2)) {
                x.v->as_object() |= src;
            }
            else {
                *x.v |= src;
            }
            for (auto& [k, e] : c.o) {
                x.m->o[k] = e;
            }
            break;
        }
        case 16: { // a part that is replaced by the merge it comes from
            Node x = pick(MV::Obj);
            if (x.m->k != MV::Obj || x.m->o.empty()) {
                return;
            }
            name("object |= its own member");
            auto it = x.m->o.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(g.below(x.m->o.size())));
            const std::string k = it->first;
            MV c = MV::obj({ { k, MV::str("inner") }, { k + "2", MV::num("2") } });
            x.m->o[k] = c;
            (*x.v)[k] = conv::build(c);
            json::object& part = (*x.v)[k].as_object();
            switch (g.below(4)) {
            case 0:
                x.v->as_object() |= part;
                break;
            case 1:
                x.v->as_object() |= std::move(part);
                break;
            case 2:
                *x.v = std::move(x.v->as_object()) | part;
                break;
            default:
                *x.v = std::move(*x.v) | std::as_const(part);
                break;
            }
            for (auto& [q, e] : c.o) {
                x.m->o[q] = e;
            }
            break;
        }
        case 17: { // an own element appended or put under another key
            Node x = pick(MV::Arr);
            if (x.m->k != MV::Arr || x.m->a.empty()) {
                return;
            }
            name("array.push_back(own element)");
            const size_t i = g.below(x.m->a.size());
            const MV c = x.m->a[i];
            if (g.chance(1, 2)) {
                json::value& r = x.v->as_array().emplace_back((*x.v)[i]);
                expect(r, c, "the new element");
            }
            else {
                x.v->emplace((*x.v)[i]);
            }
            x.m->a.push_back(c);
            break;
        }
        case 18: {
            Node x = pick(MV::Arr);
            if (x.m->k != MV::Arr) {
                return;
            }
            name("array.push_back(the whole)");
            const MV c = *x.m;
            if (g.chance(1, 2)) {
                x.v->as_array().push_back(std::as_const(*x.v));
            }
            else {
                x.v->as_array().push_back(std::as_const(*x.v).as_array());
            }
            x.m->a.push_back(c);
            break;
        }
        case 19: {
            Node x = pick(MV::Obj);
            if (x.m->k != MV::Obj) {
                return;
            }
            const MV whole = *x.m;
            const std::string k = x.m->o.empty() || g.chance(1, 2) ? "new" + std::to_string(g.below(4)) : x.m->o.begin()->first;
            if (x.m->o.empty() || g.chance(1, 3)) {
                name("object.emplace(key, the whole)");
                x.v->as_object().emplace(k, std::as_const(*x.v));
                x.m->o[k] = whole;
            }
            else {
                name("object.emplace(key, own member)");
                const std::string from = x.m->o.rbegin()->first;
                const MV c = x.m->o.at(from);
                const bool move = g.chance(1, 2);
                json::value& src = x.v->as_object()[from];
                if (move) {
                    x.v->as_object().insert(k, std::move(src));
                }
                else {
                    x.v->as_object().emplace(k, src);
                }
                x.m->o[k] = c;
                if (move && k != from) {
                    x.m->o[from] = conv::to_model(x.v->as_object()[from]);
                }
            }
            break;
        }
        case 20: { // erasing by a reference to the own key
            Node x = pick(MV::Obj);
            if (x.m->k != MV::Obj || x.m->o.empty()) {
                return;
            }
            name("object.erase(own key)");
            const std::string k = x.v->as_object().begin()->first;
            x.v->as_object().erase(x.v->as_object().begin()->first);
            x.m->o.erase(k);
            break;
        }
        case 21: { // containers of values
            name("through C++ containers");
            std::vector<json::value> w(3, *s.v);
            w.push_back(w.front());
            w.insert(w.begin(), w.back());
            w.erase(w.begin() + 1);
            std::reverse(w.begin(), w.end());
            std::vector<json::value> x = w;
            w.clear();
            const json::array arr(x);
            x[0] = 1;
            expect(json::value(arr), MV::arr({ *s.m, *s.m, *s.m, *s.m }), "array of copies");
            break;
        }
        case 22: { // permuting elements in place
            Node x = pick(MV::Arr);
            if (x.m->k != MV::Arr) {
                return;
            }
            name("algorithms on an array");
            auto& w = x.v->as_array();
            switch (g.below(4)) {
            case 0:
                std::reverse(w.begin(), w.end());
                std::reverse(x.m->a.begin(), x.m->a.end());
                break;
            case 1: {
                const auto k = static_cast<std::ptrdiff_t>(g.below(x.m->a.size() + 1));
                std::rotate(w.begin(), w.begin() + k, w.end());
                std::rotate(x.m->a.begin(), x.m->a.begin() + k, x.m->a.end());
                break;
            }
            case 2:
                std::stable_sort(w.begin(), w.end(), [](const json::value& p, const json::value& q) { return p.dumps() < q.dumps(); });
                std::stable_sort(x.m->a.begin(), x.m->a.end(), [](const MV& p, const MV& q) { return ref::dump(p) < ref::dump(q); });
                break;
            default:
                if (!x.m->a.empty()) {
                    std::iter_swap(w.begin(), std::prev(w.end()));
                    std::swap(x.m->a.front(), x.m->a.back());
                }
                break;
            }
            break;
        }
        case 23: { // the array slot
            Node x = pick(MV::Arr);
            if (x.m->k != MV::Arr) {
                return;
            }
            name("array slot");
            switch (g.below(6)) {
            case 0:
                a = x.v->as_array();
                am = *x.m;
                break;
            case 1:
                a = std::move(x.v->as_array());
                am = *x.m;
                moved_from(x);
                break;
            case 2:
                *x.v = a;
                *x.m = am;
                break;
            case 3:
                x.v->as_array() = a;
                *x.m = am;
                break;
            case 4: {
                json::array b(a);
                a.clear();
                expect(json::value(b), am, "copy of a cleared array");
                a = std::move(b);
                break;
            }
            default: {
                json::array b(std::move(a));
                (void)a.dumps();
                a = b;
                b.push_back(1);
                break;
            }
            }
            break;
        }
        case 24: { // the object slot
            Node x = pick(MV::Obj);
            if (x.m->k != MV::Obj) {
                return;
            }
            name("object slot");
            switch (g.below(6)) {
            case 0:
                o = x.v->as_object();
                om = *x.m;
                break;
            case 1:
                o = std::move(x.v->as_object());
                om = *x.m;
                moved_from(x);
                break;
            case 2:
                *x.v = o;
                *x.m = om;
                break;
            case 3:
                x.v->as_object() = o;
                *x.m = om;
                break;
            case 4: {
                json::object b(o);
                o.clear();
                expect(json::value(b), om, "copy of a cleared object");
                o = std::move(b);
                break;
            }
            default: {
                json::object b(std::move(o));
                (void)o.dumps();
                o = b;
                b["another"] = 1;
                break;
            }
            }
            break;
        }
        case 25: { // by way of a text
            name("parse of a dump");
            const auto p = json::parse("[" + s.v->dumps() + "]");
            if (p) {
                *d.v = p->at(0);
                *d.m = MV(*s.m);
            }
            break;
        }
        case 26: { // wrapped into something new together with itself
            name("wrap");
            const MV c = *s.m;
            if (g.chance(1, 2)) {
                *s.v = json::array { *s.v, *s.v };
                *s.m = MV::arr({ c, c });
            }
            else {
                *s.v = json::object { { "a", *s.v }, { "b", std::move(*s.v) } };
                *s.m = MV::obj({ { "a", c }, { "b", c } });
            }
            break;
        }
        case 27: { // what get, find, as and at return are copies, what they leave is unchanged
            name("extracted copies");
            const json::value& c = *s.v;
            json::value w = c.as<json::value>();
            w = 1;
            json::array all { c, c };
            json::value x = all.get(0, json::value());
            auto y = all.find(1);
            if (!y) {
                fail("find");
                break;
            }
            expect(x, *s.m, "get()");
            expect(*y, *s.m, "find()");
            x = "changed";
            y->clear();
            expect(all, MV::arr({ *s.m, *s.m }), "the source of get() and find()");
            break;
        }
        case 28: {
            name("moved out by as<>()");
            const MV c = *s.m;
            json::value w = std::move(*s.v).as<json::value>();
            expect(w, c, "as<value>() of an rvalue");
            moved_from(s);
            break;
        }
        case 29: { // strings keep their own storage
            name("strings");
            std::string text = ref::gen_string(g, 60);
            const MV c = MV::str(text);
            json::value w(text);
            text.assign(text.size(), '#');
            json::value x = w;
            std::string out = w.as_string();
            out += "more";
            w = nullptr;
            expect(x, c, "a copy of a string");
            *d.v = x;
            *d.m = c;
            break;
        }
        default: {
            name("change");
            mutate(d);
            break;
        }
        }
        if (d.m && size() > 400) {
            for (size_t i = 0; i < N; ++i) {
                m[i] = ref::gen_doc(g, 6, 3, 8);
                v[i] = conv::build(m[i]);
            }
        }
    }

    // some change below n
    void mutate(Node n)
    {
        // a bit further down
        while (g.chance(1, 2)) {
            if (n.m->k == MV::Arr && !n.m->a.empty()) {
                const size_t i = g.below(n.m->a.size());
                n.v = &(*n.v)[i];
                n.m = &n.m->a[i];
            }
            else if (n.m->k == MV::Obj && !n.m->o.empty()) {
                n.v = &(*n.v)[n.m->o.begin()->first];
                n.m = &n.m->o.begin()->second;
            }
            else {
                break;
            }
        }
        const MV x = ref::gen_doc(g, 3, 2, 8);
        switch (g.below(5)) {
        case 0:
            n.v->clear();
            *n.m = MV::null();
            break;
        case 1:
            if (n.m->k == MV::Arr) {
                n.v->as_array().clear();
                n.m->a.clear();
            }
            else if (n.m->k == MV::Obj) {
                n.v->as_object().clear();
                n.m->o.clear();
            }
            break;
        case 2:
            if (n.m->k == MV::Arr && !n.m->a.empty()) {
                const size_t i = g.below(n.m->a.size());
                n.v->erase(i);
                n.m->a.erase(n.m->a.begin() + static_cast<std::ptrdiff_t>(i));
            }
            else if (n.m->k == MV::Obj && !n.m->o.empty()) {
                const std::string k = n.m->o.begin()->first;
                n.v->erase(k);
                n.m->o.erase(k);
            }
            break;
        case 3:
            if (n.m->k == MV::Arr) {
                n.v->as_array().emplace_back(conv::build(x));
                n.m->a.push_back(x);
            }
            else if (n.m->k == MV::Obj) {
                (*n.v)["m" + std::to_string(g.below(3))] = conv::build(x);
                // the same key again
                n.m->o.clear();
                for (const auto& [k, e] : n.v->as_object()) {
                    n.m->o.emplace(k, conv::to_model(e));
                }
            }
            break;
        default:
            *n.v = conv::build(x);
            *n.m = x;
            break;
        }
    }

    static size_t count(const MV& x)
    {
        size_t n = 1;
        for (auto& e : x.a) {
            n += count(e);
        }
        for (auto& [k, e] : x.o) {
            n += count(e);
        }
        return n;
    }

    size_t size() const { return count(am) + count(om) + std::accumulate(m, m + N, size_t(0), [](size_t s, const MV& x) { return s + count(x); }); }

    void fail(const std::string& what)
    {
        vf::violation(std::string("step:") + op, what + " after " + log.substr(log.size() > 400 ? log.size() - 400 : 0), log);
    }

    void expect(const json::value& x, const MV& want, const char* what)
    {
        VF_COUNT("comparisons");
        if (const std::string d = conv::differs(x, want); !d.empty()) {
            fail(std::string(what) + ": " + vf::printable(d) + " is " + vf::printable(x.dumps()) + " instead of " + vf::printable(ref::dump(want)));
        }
    }

    bool check()
    {
        const auto before = vf::ctx().violations;
        for (size_t i = 0; i < N; ++i) {
            expect(v[i], m[i], "a slot");
        }
        if (conv::to_model(a) != am) {
            fail("the array slot: " + vf::printable(a.dumps()) + " instead of " + vf::printable(ref::dump(am)));
        }
        if (conv::to_model(o) != om) {
            fail("the object slot: " + vf::printable(o.dumps()) + " instead of " + vf::printable(ref::dump(om)));
        }
        return before == vf::ctx().violations;
    }
};
}

SECTION(histories, 70000, 2000000)
{
    World w(rng);
    const size_t n = 4 + rng.below(40);
    VF_COUNT("evaluations");
    vf::u64 h = 1;
    for (size_t i = 0; i < n; ++i) {
        w.step();
        h = vf::hash_bytes(w.op, h);
        if (!w.check()) {
            break;
        }
    }
    vf::distinct(h);
    if (idx < 6) {
        vf::sample(w.log);
    }
}

// self assignments and assignments of parts, exhaustively over small contents
SECTION(aliasing, 20000, 400000)
{
    const MV c = ref::gen_doc(rng, 12, 4, 10);
    vf::input(ref::dump(c));
    VF_COUNT("evaluations");
    vf::distinct(vf::hash_bytes(ref::dump(c)));
    // every node assigned to the root, by copy and by move, as value and as container
    std::vector<std::vector<std::string>> paths;
    std::function<void(const MV&, std::vector<std::string>)> walk = [&](const MV& m, std::vector<std::string> p) {
        paths.push_back(p);
        for (size_t i = 0; i < m.a.size(); ++i) {
            p.push_back(std::to_string(i));
            walk(m.a[i], p);
            p.pop_back();
        }
        for (auto& [k, x] : m.o) {
            p.push_back(k);
            walk(x, p);
            p.pop_back();
        }
    };
    walk(c, {});
    for (const auto& p : paths) {
        for (int route = 0; route < 6; ++route) {
            json::value v = conv::build(c);
            json::value* n = &v;
            const MV* m = &c;
            for (const auto& k : p) {
                if (m->k == MV::Arr) {
                    const size_t i = std::stoul(k);
                    n = &(*n)[i];
                    m = &m->a[i];
                }
                else {
                    n = &(*n)[k];
                    m = &m->o.at(k);
                }
            }
            const MV want = *m;
            VF_COUNT("paths assigned to the root");
            if (route == 0) {
                v = *n;
            }
            else if (route == 1) {
                v = std::move(*n);
            }
            else if (want.k == MV::Arr && c.k == MV::Arr && route == 2) {
                v.as_array() = n->as_array();
            }
            else if (want.k == MV::Arr && c.k == MV::Arr && route == 3) {
                v.as_array() = std::move(n->as_array());
            }
            else if (want.k == MV::Obj && c.k == MV::Obj && route == 4) {
                v.as_object() = n->as_object();
            }
            else if (want.k == MV::Obj && c.k == MV::Obj && route == 5) {
                v.as_object() = std::move(n->as_object());
            }
            else {
                continue;
            }
            if (const std::string d = conv::differs(v, want); !d.empty()) {
                vf::violation("aliasing:" + std::to_string(route), "a part assigned to the whole: " + d + ": " + vf::printable(v.dumps()) + " instead of " + vf::printable(ref::dump(want)), ref::dump(c));
            }
        }
    }
    json::value v = conv::build(c);
    json::value& self = v;
    v = self;
    v = std::move(self);
    if (conv::to_model(v) != c) {
        vf::violation("aliasing:self", vf::printable(v.dumps()), ref::dump(c));
    }
}

// past the borders of 8 and 16 bit counters and of buffers, in one respect each
SECTION(big, ref::big_kinds * 2, ref::big_thorough)
{
    const MV m = ref::big(idx, rng);
    vf::input(ref::dump(m));
    VF_COUNT("evaluations");
    VF_COUNT("big values");
    const auto is = [&](const json::value& x, const MV& w, const char* what) {
        if (const std::string d = conv::differs(x, w); !d.empty()) {
            vf::violation(std::string("big-") + what, std::string(what) + ": " + vf::printable(d), ref::dump(m));
        }
    };
    json::value v = conv::build(m);
    json::value w = v;
    is(w, m, "a copy");
    // changed at its end
    if (w.is_array()) {
        json::array& a = w.as_array();
        a[a.size() - 1] = "changed";
        a.emplace_back("more");
        a[0] = nullptr;
    }
    else {
        json::object& o = w.as_object();
        std::prev(o.end())->second = "changed";
        o["more"] = 1;
        o.begin()->second = nullptr;
    }
    const MV changed = conv::to_model(w);
    is(v, m, "the source of a copy that was changed");
    json::value moved = std::move(v);
    is(moved, m, "moved");
    is(w, changed, "a copy whose source was moved from");
    v = w;
    is(v, changed, "assigned to what was moved from");
    moved = json::value(json::array { 1 });
    is(v, changed, "something else was assigned");
    // parts and wholes
    json::value in = json::object { { "k", json::array { conv::build(m), 1 } } };
    in = json::value(in).at("k").at(0);
    is(in, m, "a part assigned to a whole, by way of a copy");
    json::array inside { 0 };
    inside.emplace_back(conv::build(m));
    json::value deep = json::array();
    deep.emplace(json::value(std::move(inside)));
    deep = deep[0][1];
    is(deep, m, "a part assigned to its whole");
    deep = *&deep;
    is(deep, m, "assigned to itself");
    if (deep.is_array()) {
        MV twice = m;
        twice.a.insert(twice.a.end(), m.a.begin(), m.a.end());
        deep += deep.as_array();
        is(deep, twice, "appended to itself");
    }
    else {
        deep |= deep.as_object();
        is(deep, m, "merged with itself");
    }
    vf::distinct(idx + 100);
}
