// P12: reflected structs map field by field, strictly. The structs are generated (gen/structs.py).
#include "types.hpp"

#include <cstddef>

using namespace types;

namespace
{
struct Field
{
    size_t offset;
    const char* key;
    bool opt;
    void (*gen)(void*, Rng&);
    void (*copy)(void*, const void*);
    Tri (*fits)(const MV&);
    bool (*shaped)(const void*, const MV&);
    bool (*agrees)(const void*, const MV&);
    bool (*eq)(const void*, const void*);
    MV (*some)(Rng&, unsigned);

    template <typename S>
    void* at(S& s) const
    {
        return reinterpret_cast<char*>(&s) + offset;
    }

    template <typename S>
    const void* at(const S& s) const
    {
        return reinterpret_cast<const char*>(&s) + offset;
    }
};

template <typename T>
Field field(size_t offset, const char* key, bool opt)
{
    using D = Desc<T>;
    return Field { offset,
                   key,
                   opt,
                   [](void* p, Rng& g) { *static_cast<T*>(p) = D::gen(g, 1); },
                   [](void* p, const void* q) { *static_cast<T*>(p) = D::clone(*static_cast<const T*>(q)); },
                   D::fits,
                   [](const void* p, const MV& m) { return D::shaped(*static_cast<const T*>(p), m); },
                   [](const void* p, const MV& m) { return D::agrees(*static_cast<const T*>(p), m); },
                   [](const void* p, const void* q) { return D::eq(*static_cast<const T*>(p), *static_cast<const T*>(q)); },
                   D::some };
}

template <typename S>
const std::vector<Field>& fields();

#include "generated.inc"

template <typename S>
struct Judge
{
    const char* name;
    Rng& g;
    const std::vector<Field>& fs = fields<S>();

    void report(const char* key, const std::string& what) { vf::violation(std::string(key) + ":" + name, std::string(name) + ": " + what, what); }

    MV random_object()
    {
        MV m = MV::obj();
        for (auto& f : fs) {
            m.o[f.key] = f.some(g, 2);
        }
        return m;
    }

    // data -> JSON -> data
    void trip()
    {
        S s;
        for (auto& f : fs) {
            f.gen(f.at(s), g);
        }
        const S& c = s;
        const json::value v(c);
        const MV m = conv::to_model(v);
        const std::string text = ref::dump(m);
        vf::input(text);
        VF_COUNT("evaluations");
        if (vf::distinct(vf::hash_bytes(text, vf::hash_bytes(name)))) {
            VF_COUNT("distinct objects");
        }
        if (m.k != MV::Obj || m.o.size() != fs.size()) {
            report("members", "has " + std::to_string(fs.size()) + " fields but became " + vf::printable(text));
            return;
        }
        for (auto& f : fs) {
            VF_COUNT("fields written");
            if (!m.o.count(f.key)) {
                report("member-missing", "no member " + vf::printable(f.key) + " in " + vf::printable(text));
                return;
            }
            if (!f.shaped(f.at(c), m.o.at(f.key))) {
                report("member-wrong", "member " + vf::printable(f.key) + " of " + vf::printable(text));
            }
        }
        if (conv::to_model(c.to_json()) != m || conv::to_model(json::value(S(c))) != m) {
            report("to_json", "to_json() and the conversions differ: " + vf::printable(text));
        }
        read(v, m);
        if (auto p = json::parse(v.dumps(g.chance(1, 2) ? std::optional<size_t>(2) : std::nullopt)); !p) {
            report("parse", vf::printable(text));
        }
        else {
            read(*p, m);
            if (json::value(p->template as<S>()) != v && unambiguous(m)) {
                report("second-trip", vf::printable(text));
            }
        }
    }

    // whether reading the members gives back what they were made from (not so for variants, say)
    bool unambiguous(const MV& m)
    {
        for (auto& f : fs) {
            if (f.fits(m.o.at(f.key)) != Yes) {
                return false;
            }
        }
        return true;
    }

    // judges every route of reading v (of content m, an object)
    void read(const json::value& v, const MV& m)
    {
        Tri want = Yes;
        const char* culprit = nullptr;
        for (auto& f : fs) {
            const auto it = m.o.find(f.key);
            const Tri t = it == m.o.end() ? tri(f.opt) : f.fits(it->second);
            if (t == Maybe) {
                VF_COUNT("open cases");
                return;
            }
            if (t == No) {
                culprit = f.key;
                want = No;
                break;
            }
        }
        VF_COUNT("readings");
        const std::string text = ref::dump(m);
        auto checked = [&](const char* route, bool ok, const std::string* error) {
            if (ok != (want == Yes)) {
                report(ok ? "accepts" : "refuses", std::string(route) + (culprit ? std::string(" in spite of ") + vf::printable(culprit) : std::string()) + ": " + vf::printable(text, 2000));
            }
            else if (!ok && error && *error != culprit) {
                report("error-key", std::string(route) + " names " + vf::printable(*error) + " instead of " + vf::printable(culprit) + ": " + vf::printable(text, 2000));
            }
        };
        auto loaded = [&](const char* route, const S& s) {
            const S fresh {};
            for (auto& f : fs) {
                VF_COUNT("fields read");
                const auto it = m.o.find(f.key);
                if (it == m.o.end()) {
                    VF_COUNT("absent optional fields");
                    if (!f.eq(f.at(s), f.at(fresh))) {
                        report("default-lost", std::string(route) + ": absent field " + vf::printable(f.key) + " of " + vf::printable(text));
                    }
                }
                else if (!f.agrees(f.at(s), it->second)) {
                    report("field-wrong", std::string(route) + ": field " + vf::printable(f.key) + " of " + vf::printable(text));
                }
            }
        };
        try {
            const S s {};
            std::string error;
            checked("check_json", s.check_json(v, error), &error);
            checked("check_json without key", s.check_json(v), nullptr);
            checked("is<S>()", v.template is<S>(), nullptr);
            {
                S t;
                std::string e;
                const bool ok = t.from_json(v, e);
                checked("from_json", ok, &e);
                if (ok && want == Yes) {
                    loaded("from_json", t);
                }
                S u;
                checked("from_json without key", u.from_json(v), nullptr);
            }
        }
        catch (...) {
            report("throws", vf::what_of_current_exception() + " for " + vf::printable(text));
        }
        auto convert = [&](const char* route, auto&& f) {
            try {
                const S s = f();
                checked(route, true, nullptr);
                if (want == Yes) {
                    loaded(route, s);
                }
            }
            catch (const json::exception& e) {
                checked(route, false, nullptr);
                // the message of a refused struct names the field
                (void)e;
            }
            catch (...) {
                report("throws", std::string(route) + ": " + vf::what_of_current_exception() + " for " + vf::printable(text));
            }
        };
        convert("as<S>()", [&] { return v.template as<S>(); });
        convert("as<S>() of an rvalue", [&] { return json::value(v).template as<S>(); });
        convert("cast", [&] { return static_cast<S>(v); });
        if (want == Yes) {
            VF_COUNT("accepted");
        }
        else {
            VF_COUNT("refused");
        }
        if (conv::to_model(v) != m) {
            report("value-changed", vf::printable(text));
        }
    }

    void variation()
    {
        MV m = random_object();
        const unsigned changes = static_cast<unsigned>(g.below(4));
        for (unsigned i = 0; i < changes; ++i) {
            const Field& f = fs[g.below(fs.size())];
            switch (g.below(6)) {
            case 0:
                m.o.erase(f.key);
                break;
            case 1:
                m.o[f.key] = ref::gen_doc(g, 6, 2, 20);
                break;
            case 2: // of the kind of another field
                m.o[f.key] = fs[g.below(fs.size())].some(g, 2);
                break;
            case 3: { // an unknown member whose name is almost that of a field
                std::string k = f.key;
                switch (g.below(6)) {
                case 0:
                    k += '\0';
                    break;
                case 1:
                    k = k.substr(0, k.size() / 2);
                    break;
                case 2:
                    for (char& c : k) {
                        c = static_cast<char>(std::isupper(static_cast<unsigned char>(c)) ? std::tolower(static_cast<unsigned char>(c)) : std::toupper(static_cast<unsigned char>(c)));
                    }
                    break;
                case 3:
                    k += " ";
                    break;
                case 4:
                    k += k;
                    break;
                default:
                    k = ref::gen_string(g, 6);
                    break;
                }
                bool known = false;
                for (auto& h : fs) {
                    known = known || k == h.key;
                }
                if (!known) {
                    m.o[k] = f.some(g, 2);
                    if (g.chance(1, 2)) { // instead of the field
                        m.o.erase(f.key);
                    }
                    VF_COUNT("unknown members");
                }
                break;
            }
            case 4:
                m.o[f.key] = MV::null();
                break;
            default: // only this field
                for (auto& h : fs) {
                    if (g.chance(1, 4)) {
                        m.o.erase(h.key);
                    }
                }
                break;
            }
        }
        VF_COUNT("evaluations");
        const std::string text = ref::dump(m);
        vf::input(text);
        vf::distinct(vf::hash_bytes(text, vf::hash_bytes(name)));
        read(conv::build(m), m);
    }

    // every field in turn missing and mismatched
    void each()
    {
        const MV full = random_object();
        VF_COUNT("evaluations");
        for (auto& f : fs) {
            MV m = full;
            m.o.erase(f.key);
            vf::input(ref::dump(m));
            read(conv::build(m), m);
            m = full;
            for (int i = 0; i < 20; ++i) {
                m.o[f.key] = ref::gen_doc(g, 6, 2, 20);
                if (f.fits(m.o[f.key]) == No) {
                    break;
                }
            }
            vf::input(ref::dump(m));
            read(conv::build(m), m);
            // this one and every later one
            m = full;
            bool later = false;
            for (auto& h : fs) {
                later = later || &h == &f;
                if (later) {
                    m.o.erase(h.key);
                }
            }
            vf::input(ref::dump(m));
            read(conv::build(m), m);
        }
        {
            MV m = MV::obj();
            read(conv::build(m), m);
        }
        VF_COUNT_N("single fields", fs.size());
    }
};
}

#define RUN(S)                                                                                  \
    SECTION(S##_trip, 40, 2000)                                                                 \
    {                                                                                           \
        Judge<S> { #S, rng }.trip();                                                            \
        if (idx == 0) {                                                                         \
            vf::sample(std::string(#S) + " " + vf::printable(json::value(S {}).dumps(), 300));  \
        }                                                                                       \
    }                                                                                           \
    SECTION(S##_variation, 120, 6000)                                                           \
    {                                                                                           \
        Judge<S> { #S, rng }.variation();                                                       \
    }                                                                                           \
    SECTION(S##_each, 2, 40)                                                                    \
    {                                                                                           \
        Judge<S> { #S, rng }.each();                                                            \
    }

ALL(RUN)
