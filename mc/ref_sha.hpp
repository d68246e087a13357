// Independent SHA-256 (FIPS 180-4), straight from the standard.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <vector>
namespace ref {
using Chunk = std::array<std::uint8_t, 32>;
inline constexpr std::uint32_t K[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be,
    0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa,
    0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85,
    0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3,
    0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f,
    0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
inline std::uint32_t rotr(std::uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline void compress(std::uint32_t s[8], const std::uint8_t* p) {
    std::uint32_t w[64];
    for (int i = 0; i < 16; ++i) w[i] = std::uint32_t(p[4 * i]) << 24 | std::uint32_t(p[4 * i + 1]) << 16 | std::uint32_t(p[4 * i + 2]) << 8 | p[4 * i + 3];
    for (int i = 16; i < 64; ++i) {
        auto s0 = rotr(w[i - 15], 7) ^ rotr(w[i - 15], 18) ^ (w[i - 15] >> 3);
        auto s1 = rotr(w[i - 2], 17) ^ rotr(w[i - 2], 19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    std::uint32_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
    for (int i = 0; i < 64; ++i) {
        auto t1 = h + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
        auto t2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
        h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
}
inline Chunk sha256(const std::uint8_t* p, std::size_t n) {
    std::uint32_t s[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    std::size_t i = 0;
    for (; i + 64 <= n; i += 64) compress(s, p + i);
    std::uint8_t b[128] = {};
    std::size_t r = n - i;
    if (r) std::memcpy(b, p + i, r);
    b[r] = 0x80;
    std::size_t len = r + 9 <= 64 ? 64 : 128;
    for (int k = 0; k < 8; ++k) b[len - 1 - std::size_t(k)] = std::uint8_t((std::uint64_t(n) * 8) >> (8 * k));
    for (std::size_t k = 0; k < len; k += 64) compress(s, b + k);
    Chunk o;
    for (int k = 0; k < 8; ++k)
        for (int j = 0; j < 4; ++j) o[std::size_t(4 * k + j)] = std::uint8_t(s[k] >> (24 - 8 * j));
    return o;
}
inline Chunk hash2(const Chunk& a, const Chunk& b) {
    std::uint8_t t[64];
    std::memcpy(t, a.data(), 32);
    std::memcpy(t + 32, b.data(), 32);
    return sha256(t, 64);
}
inline const Chunk& zero_hash(int d) {
    static const auto z = [] {
        std::array<Chunk, 66> z{};
        for (std::size_t i = 1; i < z.size(); ++i) z[i] = hash2(z[i - 1], z[i - 1]);
        return z;
    }();
    return z[std::size_t(d)];
}
// smallest d with 2^d >= n
inline int log2up(std::uint64_t n) {
    int d = 0;
    while (d < 64 && (std::uint64_t(1) << d) < n) ++d;
    return d;
}
// levels[0] are the leaves; every further level holds the nodes above at least one leaf; up to the root.
inline std::vector<std::vector<Chunk>> merkle_levels(std::vector<Chunk> leaves, std::uint64_t limit) {
    int depth = log2up(limit ? limit : leaves.size());
    std::vector<std::vector<Chunk>> lv{std::move(leaves)};
    for (int d = 0; d < depth; ++d) {
        auto& l = lv.back();
        std::vector<Chunk> up((l.size() + 1) / 2);
        for (std::size_t i = 0; i < up.size(); ++i) up[i] = hash2(l[2 * i], 2 * i + 1 < l.size() ? l[2 * i + 1] : zero_hash(d));
        lv.push_back(std::move(up));
    }
    return lv;
}
inline Chunk merkle_root(const std::vector<Chunk>& leaves, std::uint64_t limit) {
    if (leaves.empty()) return zero_hash(log2up(limit ? limit : 1));
    return merkle_levels(leaves, limit).back()[0];
}
inline std::vector<Chunk> pack(const std::vector<std::uint8_t>& b) {
    std::vector<Chunk> c((b.size() + 31) / 32);
    for (auto& x : c) x.fill(0);
    for (std::size_t i = 0; i < b.size(); ++i) c[i / 32][i % 32] = b[i];
    return c;
}
inline Chunk mix_length(const Chunk& r, std::uint64_t n) {
    Chunk l{};
    for (int i = 0; i < 8; ++i) l[std::size_t(i)] = std::uint8_t(n >> (8 * i));
    return hash2(r, l);
}
}  // namespace ref
