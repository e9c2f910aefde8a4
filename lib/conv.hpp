// conv.hpp - between json::value and the model, through the public interface only
#pragma once

#include "big.hpp"
#include "ref.hpp"

#include <deque>
#include <optional>

#include <json.hpp>

namespace conv
{
using ref::MV;
using vf::Rng;

inline MV to_model(const json::value& v);

inline MV to_model(const json::array& a)
{
    MV m = MV::arr();
    for (const json::value& x : a) {
        m.a.push_back(to_model(x));
    }
    return m;
}

inline MV to_model(const json::object& o)
{
    MV m = MV::obj();
    for (const auto& [k, x] : o) {
        m.o.emplace(k, to_model(x));
    }
    return m;
}

inline MV to_model(const json::value& v)
{
    using T = json::value::value_type;
    switch (v.type()) {
    case T::null:
        return MV::null();
    case T::boolean:
        return MV::boolean(v.as_boolean());
    case T::number:
        return MV::num(v.to_string());
    case T::string:
        return MV::str(v.as_string());
    case T::array:
        return to_model(v.as_array());
    case T::object:
        return to_model(v.as_object());
    default:
        return MV::str("<invalid value>");
    }
}

// what differs between v and m, seen through every const accessor; empty if nothing
inline std::string differs(const json::value& v, const MV& m, const std::string& path = "$")
{
    using T = json::value::value_type;
    static const T types[] = { T::null, T::boolean, T::number, T::string, T::array, T::object };
    if (v.type() != types[m.k]) {
        return path + ": type " + v.type_name();
    }
    if (!v.valid()) {
        return path + ": not valid()";
    }
    if (v.is_null() != (m.k == MV::Null) || v.is_boolean() != (m.k == MV::Bool) || v.is_number() != (m.k == MV::Num)
        || v.is_string() != (m.k == MV::Str) || v.is_array() != (m.k == MV::Arr) || v.is_object() != (m.k == MV::Obj)) {
        return path + ": is_*()";
    }
    if (v.empty() != m.empty()) {
        return path + ": empty()";
    }
    switch (m.k) {
    case MV::Null:
        break;
    case MV::Bool:
        if (v.as_boolean() != m.b) {
            return path + ": boolean";
        }
        break;
    case MV::Num:
        if (v.to_string() != m.s) {
            return path + ": number " + v.to_string().substr(0, 100) + " instead of " + m.s.substr(0, 100);
        }
        break;
    case MV::Str:
        if (v.as_string() != m.s || v.as_string_view() != m.s) {
            return path + ": string " + vf::printable(v.as_string(), 200) + " instead of " + vf::printable(m.s, 200);
        }
        break;
    case MV::Arr: {
        const json::array& a = v.as_array();
        if (a.size() != m.a.size() || a.empty() != m.a.empty()) {
            return path + ": array size " + std::to_string(a.size()) + " instead of " + std::to_string(m.a.size());
        }
        size_t i = 0;
        for (const json::value& x : a) {
            if (i >= m.a.size()) {
                return path + ": iteration goes on";
            }
            if (std::string d = differs(x, m.a[i], path + "[" + std::to_string(i) + "]"); !d.empty()) {
                return d;
            }
            if (&x != &a[i] || &x != &v.at(i)) {
                return path + ": element " + std::to_string(i) + " is another by index";
            }
            ++i;
        }
        if (i != m.a.size()) {
            return path + ": iteration ends at " + std::to_string(i);
        }
        break;
    }
    case MV::Obj: {
        const json::object& o = v.as_object();
        if (o.size() != m.o.size() || o.empty() != m.o.empty()) {
            return path + ": object size " + std::to_string(o.size()) + " instead of " + std::to_string(m.o.size());
        }
        auto it = m.o.begin();
        for (const auto& [k, x] : o) {
            if (it == m.o.end()) {
                return path + ": iteration goes on";
            }
            if (k != it->first) {
                return path + ": key " + vf::printable(k, 100) + " instead of " + vf::printable(it->first, 100);
            }
            if (std::string d = differs(x, it->second, path + "." + vf::printable(k, 30)); !d.empty()) {
                return d;
            }
            if (&x != &v.at(k)) {
                return path + ": member " + vf::printable(k, 100) + " is another by key";
            }
            ++it;
        }
        if (it != m.o.end()) {
            return path + ": iteration ends early";
        }
        break;
    }
    }
    return {};
}

// a value for the model by one fixed, plain route
inline json::value build(const MV& m)
{
    switch (m.k) {
    case MV::Null:
        return json::value();
    case MV::Bool:
        return json::value(m.b);
    case MV::Num:
        return json::value(json::value::value_type::number, m.s);
    case MV::Str:
        return json::value(m.s);
    case MV::Arr: {
        json::array a;
        for (auto& x : m.a) {
            a.emplace_back(build(x));
        }
        return json::value(std::move(a));
    }
    case MV::Obj: {
        json::object o;
        for (auto& [k, x] : m.o) {
            o.emplace(k, build(x));
        }
        return json::value(std::move(o));
    }
    }
    return json::value();
}

// one number for everything observable in a value (64-bit digest)
inline vf::u64 digest(const json::value& v)
{
    using T = json::value::value_type;
    vf::u64 h = vf::mix(static_cast<vf::u64>(v.type()) + 77);
    switch (v.type()) {
    case T::boolean:
        return vf::mix(h ^ (v.as_boolean() ? 1u : 2u));
    case T::number:
        return vf::hash_bytes(v.to_string(), h);
    case T::string:
        return vf::hash_bytes(v.as_string(), h);
    case T::array:
        for (const json::value& x : v.as_array()) {
            h = vf::mix(h * 3 ^ digest(x));
        }
        return vf::mix(h ^ v.as_array().size());
    case T::object:
        for (const auto& [k, x] : v.as_object()) {
            h = vf::mix(h * 5 ^ vf::hash_bytes(k) ^ vf::mix(digest(x)));
        }
        return vf::mix(h ^ v.as_object().size());
    default:
        return h;
    }
}

// 0 if there is no value
inline vf::u64 digest(const std::optional<json::value>& v)
{
    return v ? digest(*v) | 1 : 0;
}

// a copy of some bytes with nothing readable next to them: an exact heap block (the sanitizer sees any
// access outside of it) or, with VF_GUARD, a place that ends at (or, odd numbers, begins after) an
// unmapped page. `shift` changes the alignment.
struct Exact
{
    size_t n;
#ifndef VF_GUARD
    char* p;
    size_t shift;

    explicit Exact(std::string_view s, size_t sh = 0)
        : n(s.size())
        , p(static_cast<char*>(std::malloc(s.size() + sh ? s.size() + sh : 1)))
        , shift(sh)
    {
        std::memset(p, '"', shift);
        std::memcpy(p + shift, s.data(), n);
    }

    ~Exact() { std::free(p); }

    // for size 0 the pointer is at the end of the block, so that even one byte is too many
    std::string_view view() const { return n + shift ? std::string_view(p + shift, n) : std::string_view(p + 1, 0); }
#else
    static constexpr size_t area = 8u << 20;
    const char* at;

    static char* arena()
    {
        static char* a = [] {
            char* m = static_cast<char*>(mmap(nullptr, area + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            if (m == MAP_FAILED || mprotect(m + 4096, area, PROT_READ | PROT_WRITE) != 0) {
                std::abort();
            }
            return m + 4096;
        }();
        return a;
    }

    explicit Exact(std::string_view s, size_t sh = 0)
        : n(s.size())
    {
        if (n > area / 2) {
            std::abort();
        }
        char* w = sh % 2 ? arena() : arena() + area - n;
        std::memcpy(w, s.data(), n);
        at = w;
    }

    std::string_view view() const { return { at, n }; }
#endif

    Exact(const Exact&) = delete;
    Exact& operator=(const Exact&) = delete;
};

// a container of bytes whose iterators check every use
struct Checked
{
    std::string_view s;
    static inline vf::u64 reads = 0;
    static inline const char* fault = nullptr;

    struct const_iterator
    {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = const char*;
        using reference = const char&;

        const Checked* c = nullptr;
        std::ptrdiff_t i = 0;

        void move_to(std::ptrdiff_t k)
        {
            if (k < 0 || k > static_cast<std::ptrdiff_t>(c->s.size())) {
                fault = "an iterator was moved out of the sequence";
            }
            i = k;
        }

        reference operator*() const
        {
            static const char none = ' ';
            ++reads;
            if (!c || i < 0 || i >= static_cast<std::ptrdiff_t>(c->s.size())) {
                fault = "an iterator was dereferenced outside of the sequence";
                return none;
            }
            return c->s[static_cast<size_t>(i)];
        }

        reference operator[](difference_type k) const { return *(*this + k); }

        const_iterator& operator++()
        {
            move_to(i + 1);
            return *this;
        }

        const_iterator operator++(int)
        {
            auto t = *this;
            ++*this;
            return t;
        }

        const_iterator& operator--()
        {
            move_to(i - 1);
            return *this;
        }

        const_iterator operator--(int)
        {
            auto t = *this;
            --*this;
            return t;
        }

        const_iterator& operator+=(difference_type k)
        {
            move_to(i + k);
            return *this;
        }

        const_iterator& operator-=(difference_type k)
        {
            move_to(i - k);
            return *this;
        }

        friend const_iterator operator+(const_iterator a, difference_type k) { return a += k; }

        friend const_iterator operator+(difference_type k, const_iterator a) { return a += k; }

        friend const_iterator operator-(const_iterator a, difference_type k) { return a -= k; }

        friend difference_type operator-(const const_iterator& a, const const_iterator& b) { return a.i - b.i; }

        friend bool operator==(const const_iterator& a, const const_iterator& b) { return a.i == b.i; }

        friend bool operator!=(const const_iterator& a, const const_iterator& b) { return a.i != b.i; }

        friend bool operator<(const const_iterator& a, const const_iterator& b) { return a.i < b.i; }

        friend bool operator>(const const_iterator& a, const const_iterator& b) { return a.i > b.i; }

        friend bool operator<=(const const_iterator& a, const const_iterator& b) { return a.i <= b.i; }

        friend bool operator>=(const const_iterator& a, const const_iterator& b) { return a.i >= b.i; }
    };

    using iterator = const_iterator;
    using value_type = char;

    const_iterator begin() const { return { this, 0 }; }

    const_iterator end() const { return { this, static_cast<std::ptrdiff_t>(s.size()) }; }

    const_iterator cbegin() const { return begin(); }

    const_iterator cend() const { return end(); }

    size_t size() const { return s.size(); }
};
} // namespace conv
