// values that are big in one respect: past the borders of 8 and 16 bit counters and of buffers
#pragma once
#include "ref.hpp"

namespace ref
{
inline constexpr size_t big_kinds = 13;
inline constexpr size_t big_sizes[] = { 65537, 256, 70000, 32768, 65536, 257, 131073, 255, 4097, 32767, 65535, 100003, 131072, 200001 };
inline constexpr size_t big_quick = big_kinds * 4;
inline constexpr size_t big_thorough = big_kinds * 14;

inline MV big(size_t idx, vf::Rng& g)
{
    const size_t n = big_sizes[idx / big_kinds % std::size(big_sizes)];
    const auto bytes = [&](size_t k) {
        std::string s;
        while (s.size() < k) {
            s += static_cast<char>(32 + g.below(95));
        }
        return s;
    };
    MV m = MV::arr();
    switch (idx % big_kinds) {
    case 0: // numbers
        for (size_t i = 0; i < n; ++i) {
            m.a.push_back(MV::num(std::to_string(i)));
        }
        break;
    case 1: // strings
        for (size_t i = 0; i < n; ++i) {
            m.a.push_back(MV::str(std::to_string(i * 7919) + std::string(i % 20, 's')));
        }
        break;
    case 2: // members
        m = MV::obj();
        for (size_t i = 0; i < n; ++i) {
            m.o[std::to_string(i * 7919 % 1000003)] = MV::num(std::to_string(i));
        }
        break;
    case 3: // a string
        m.a = { MV::str(bytes(n)), MV::num("1") };
        break;
    case 4: { // a string with all kinds of bytes
        std::string s;
        while (s.size() < n) {
            s += g.chance(1, 2) ? bytes(g.below(70)) : g.chance(1, 2) ? std::string(1, "\"\\\n\t/\b\f\r\1\0\x1f\x7f"[g.below(12)]) : std::string("\xC3\xA9\xF0\x9F\x98\x80");
        }
        m.a = { MV::num("0"), MV::str(std::move(s)) };
        break;
    }
    case 5: { // two keys that differ only at their ends
        const std::string k = bytes(n);
        m = MV::obj();
        m.o[k + "x"] = MV::num("1");
        m.o[k + "y"] = MV::num("2");
        break;
    }
    case 6: { // a number
        std::string s = "1";
        while (s.size() < n) {
            s += static_cast<char>('0' + g.below(10));
        }
        m.a = { MV::num(s), MV::num("-" + s + "." + s + "e-5"), MV::num("0.5e1" + s) };
        break;
    }
    case 7: // empty containers
        for (size_t i = 0; i < n; ++i) {
            m.a.push_back(i % 2 ? MV::obj() : MV::arr());
        }
        break;
    case 8: // small containers
        for (size_t i = 0; i < n / 2; ++i) {
            m.a.push_back(i % 2 ? MV::obj({ { "k", MV::null() } }) : MV::arr({ MV::boolean(i % 4 == 0), MV::str("") }));
        }
        break;
    case 9: { // members with long common beginnings, holding containers
        m = MV::obj();
        const std::string k = bytes(40);
        for (size_t i = 0; i < n / 4; ++i) {
            m.o[k + std::to_string(i)] = MV::arr({ MV::num(std::to_string(i)) });
        }
        break;
    }
    case 10: // a string of escapes
        m = MV::obj({ { "k", MV::str(std::string(n, '\n')) } });
        break;
    case 11: { // many strings that need escapes, as keys and values
        m = MV::obj();
        for (size_t i = 0; i < n / 4; ++i) {
            m.o["\t" + std::to_string(i)] = MV::str("\"" + std::to_string(i) + "\"");
        }
        break;
    }
    default: { // wide at two levels
        for (size_t i = 0; i < 300; ++i) {
            MV in = MV::arr();
            for (size_t j = 0; j < n / 300 + 1; ++j) {
                in.a.push_back(MV::num(std::to_string(j)));
            }
            m.a.push_back(MV::obj({ { "in", std::move(in) }, { "n", MV::num(std::to_string(i)) } }));
        }
        break;
    }
    }
    return m;
}
}
