// A stand-in for the NEON intrinsics that the library uses, with the meaning that the ARM C language
// extensions give them (little-endian, 64-bit ARM), so that the code for NEON runs on any machine.
#pragma once
#include <cstdint>
#include <cstring>

struct uint8x8_t
{
    uint8_t v[8];
};
struct uint64x1_t
{
    uint64_t v[1];
};
struct uint16x8_t
{
    uint16_t v[8];
};
struct uint8x16_t
{
    uint8_t v[16];

    // vectors of the same size convert to each other (-flax-vector-conversions is on by default)
    operator uint16x8_t() const
    {
        uint16x8_t r;
        std::memcpy(r.v, v, 16);
        return r;
    }
};

inline uint8x16_t vld1q_u8(const uint8_t* p)
{
    uint8x16_t r;
    std::memcpy(r.v, p, 16);
    return r;
}

inline uint8x16_t vdupq_n_u8(uint8_t n)
{
    uint8x16_t r;
    std::memset(r.v, n, 16);
    return r;
}

#define VF_NEON_BINARY(name, expr)                                                                                                         \
    inline uint8x16_t name(uint8x16_t x, uint8x16_t y)                                                                                      \
    {                                                                                                                                      \
        uint8x16_t r;                                                                                                                      \
        for (int i = 0; i < 16; ++i) {                                                                                                     \
            const uint8_t a = x.v[i], b = y.v[i];                                                                                          \
            r.v[i] = static_cast<uint8_t>(expr);                                                                                           \
        }                                                                                                                                  \
        return r;                                                                                                                          \
    }
VF_NEON_BINARY(vcltq_u8, a < b ? 0xFF : 0)
VF_NEON_BINARY(vcleq_u8, a <= b ? 0xFF : 0)
VF_NEON_BINARY(vcgtq_u8, a > b ? 0xFF : 0)
VF_NEON_BINARY(vcgeq_u8, a >= b ? 0xFF : 0)
VF_NEON_BINARY(vceqq_u8, a == b ? 0xFF : 0)
VF_NEON_BINARY(vorrq_u8, a | b)
VF_NEON_BINARY(vandq_u8, a & b)
VF_NEON_BINARY(veorq_u8, a ^ b)
VF_NEON_BINARY(vmaxq_u8, a > b ? a : b)
VF_NEON_BINARY(vminq_u8, a < b ? a : b)
VF_NEON_BINARY(vsubq_u8, a - b)
VF_NEON_BINARY(vaddq_u8, a + b)
#undef VF_NEON_BINARY

inline uint8x16_t vmvnq_u8(uint8x16_t x)
{
    for (auto& e : x.v) {
        e = static_cast<uint8_t>(~e);
    }
    return x;
}

inline uint8_t vmaxvq_u8(uint8x16_t x)
{
    uint8_t r = 0;
    for (const auto e : x.v) {
        r = e > r ? e : r;
    }
    return r;
}

inline uint8_t vminvq_u8(uint8x16_t x)
{
    uint8_t r = 0xFF;
    for (const auto e : x.v) {
        r = e < r ? e : r;
    }
    return r;
}

inline uint16x8_t vreinterpretq_u16_u8(uint8x16_t x)
{
    return x;
}

inline uint8x8_t vshrn_n_u16(uint16x8_t x, int n)
{
    uint8x8_t r;
    for (int i = 0; i < 8; ++i) {
        r.v[i] = static_cast<uint8_t>(x.v[i] >> n);
    }
    return r;
}

inline uint64x1_t vreinterpret_u64_u8(uint8x8_t x)
{
    uint64x1_t r;
    std::memcpy(r.v, x.v, 8);
    return r;
}

inline uint64_t vget_lane_u64(uint64x1_t x, int)
{
    return x.v[0];
}
