// C05: Merkle trees of any chunks and limits. C06: roots of sequences, and the length mixed into them.
#include <cstdio>
#include <cstring>
#include <new>

#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/containers.hpp"
#include "mc.hpp"
#include "ref_sha.hpp"
#include "ref_ssz.hpp"
#include "ssz/hasher.hpp"
#include "ssz/hashtree.hpp"

using mc::Family;
using mc::Ints;
using mc::Run;
using ssz::Hasher;
using Emit = std::function<void(const Ints&)>;
using Chunks = std::vector<ssz::Chunk>;

// In this program the tree does not choose its implementation itself (CUSTOM_HASHER): each of them is explored.
#ifdef CUSTOM_HASHER
static Hasher* tree_hasher;
const ssz::Hasher ssz::HashTree::hasher = (tree_hasher = const_cast<Hasher*>(&ssz::HashTree::hasher), Hasher{});
#endif

namespace {
bool thorough() { return mc::opt.thorough(); }
constexpr const char* impl_names[] = {"SSE", "AVX", "AVX2", "SHA", "default"};
constexpr Hasher::IMPL impls[] = {Hasher::IMPL::SSE, Hasher::IMPL::AVX, Hasher::IMPL::AVX2, Hasher::IMPL::SHA};
std::vector<int> usable;
void make_usable() {
#ifdef CUSTOM_HASHER
    __builtin_cpu_init();
    if (__builtin_cpu_supports("avx")) { usable.push_back(0); usable.push_back(1); }
    if (__builtin_cpu_supports("avx2")) usable.push_back(2);
    if (!!(Hasher::implemented() & Hasher::IMPL::SHA)) usable.push_back(3);
#endif
    usable.push_back(4);
}
void use(int k) {
#ifdef CUSTOM_HASHER
    ::new (tree_hasher) Hasher(k == 4 ? Hasher() : Hasher(impls[k]));
#else
    (void)k;
#endif
}
enum { DISTINCT, ZERO, SAME, TAIL, NFILL };
const char* fill_names[] = {"different chunks", "zero chunks", "equal chunks", "zeros, the last chunk ones"};
Chunks chunks(std::size_t n, int fill) {
    Chunks c(n);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < 32; ++j)
            c[i][j] = fill == DISTINCT ? std::uint8_t(mc::mix(i * 4 + j / 8 + 9) >> (8 * (j % 8))) : fill == SAME ? std::uint8_t(j * 3 + 1) : fill == TAIL && i + 1 == n ? 0xff : 0;
    return c;
}
std::vector<ref::Chunk> refc(const Chunks& c) { return {c.begin(), c.end()}; }
std::string hx(const ref::Chunk& c) { return mc::hex(c.data(), 32); }
void check_tree(Run& r, const Chunks& want_root_levels, const ssz::HashTree& ht, const char* what, std::size_t n, std::uint64_t limit, int k) {
    auto got = ht.hash_tree();
    auto root = ht.hash_tree_root();
    auto& want = want_root_levels;
    if (root != want.back()) r.fail("%s: root of %s (%zu chunks, limit %llu) is %s, not %s", impl_names[k], what, n, (unsigned long long)limit, hx(root).c_str(), hx(want.back()).c_str());
    if (got.size() != want.size()) r.fail("%s: the tree of %s (%zu chunks, limit %llu) has %zu nodes, not %zu", impl_names[k], what, n, (unsigned long long)limit, got.size(), want.size());
    for (std::size_t i = 0; i < got.size(); ++i)
        if (got[i] != want[i]) r.fail("%s: node %zu of the tree of %s (%zu chunks, limit %llu) is %s, not %s", impl_names[k], i, what, n, (unsigned long long)limit, hx(got[i]).c_str(), hx(want[i]).c_str());
}
// the nodes above the chunks, level by level; the chunk itself if there is nothing above it
Chunks nodes_of(const std::vector<ref::Chunk>& leaves, std::uint64_t limit) {
    auto lv = ref::merkle_levels(leaves, limit);
    Chunks o;
    for (std::size_t i = 1; i < lv.size(); ++i) o.insert(o.end(), lv[i].begin(), lv[i].end());
    if (o.empty()) o = lv[0];
    return o;
}
std::vector<long long> limits_for(std::size_t n, bool full) {
    std::set<std::uint64_t> s{0, n, n + 1, n + 2, std::bit_ceil(n), std::bit_ceil(n) + 1, 2 * std::bit_ceil(n) - 1, 2 * std::bit_ceil(n), 2 * std::bit_ceil(n) + 1};
    for (int k = 0; k < 64; ++k) {
        if (!full && k % 8 && k != 40 && k != 63) continue;
        std::uint64_t p = std::uint64_t(1) << k;
        for (std::uint64_t x : {p - 1, p, p + 1}) if (x >= n) s.insert(x);
    }
    s.insert(~0ull);
    s.insert(~0ull - 1);
    return {s.begin(), s.end()};
}
void gen_trees(const Emit& e) {
    long long dense = thorough() ? 2100 : 600, full = thorough() ? 300 : 70;
    for (auto k : usable) {
        for (long long n = 1; n <= dense; ++n)
            for (auto l : limits_for(std::size_t(n), n <= full))
                for (long long f = 0; f < NFILL; ++f) {
                    if (f != DISTINCT && (n > 40 || (l && std::uint64_t(l) > 1000))) continue;
                    e({k, n, l, f});
                }
        for (long long p = 512; p <= (thorough() ? 1 << 20 : 1 << 15); p *= 2)
            for (long long d = -3; d <= 3; ++d)
                for (auto l : {0ll, p + d, 2 * p, 4 * p + 1, 1ll << 40})
                    if (p + d > dense && (k == 4 || p <= 1 << 13 || thorough())) e({k, p + d, l, DISTINCT});
        for (long long p = 1 << 16; p <= (thorough() ? 1 << 22 : 1 << 20); p *= 2)
            for (long long d : {-1, 0, 1, 3})
                for (auto l : {0ll, 1ll << 40}) if (k == 4 || (!l && d == 1 && p < 1 << 19) || thorough()) e({k, p + d, l, DISTINCT});
    }
}
void run_trees(const Ints& c, Run& r) {
    int k = int(c[0]);
    auto n = std::size_t(c[1]);
    auto limit = std::uint64_t(c[2]);
    r.desc("%s, %zu chunks, limit %llu, %s", impl_names[k], n, (unsigned long long)limit, fill_names[c[3]]);
    r.distinct(mc::hash_ints(c));
    use(k);
    auto v = chunks(n, int(c[3]));
    auto keep = v;
    auto want = nodes_of(refc(v), limit);
    ssz::HashTree ht{v, limit};
    check_tree(r, want, ht, fill_names[c[3]], n, limit, k);
    if (v != keep) r.fail("%s: the chunks were changed", impl_names[k]);
    // a copy is a tree of its own
    if (n <= 40) {
        ssz::HashTree cp{ht};
        cp.mix_in(n);
        check_tree(r, want, ht, "the original of a copy", n, limit, k);
        if (cp.hash_tree_root() != ref::mix_length(want.back(), n)) r.fail("%s: mixing a length into a copy gave a wrong root", impl_names[k]);
    }
}
// bytes, packed into chunks
void gen_bytes(const Emit& e) {
    long long dense = thorough() ? 6000 : 2200;
    for (auto k : usable)
        for (long long n = 0; n <= dense; ++n) {
            long long ch = std::max(1ll, (n + 31) / 32);
            for (long long l : std::set<long long>{0, ch, ch + 1, 2 * ch, 1ll << 20, 1ll << 40, 1ll << 62}) e({k, n, l});
        }
}
void gen_long_bytes(const Emit& e) {
    for (auto k : usable)
        for (long long p = 1 << 12; p <= (thorough() ? 1 << 27 : 1 << 25); p *= 2)
            for (long long d : {-1, 0, 1, 32, 33}) if (k == 4 || p <= 1 << 18 || thorough()) for (auto l : {0ll, 1ll << 40}) if (p < 1 << 22 || thorough() || !l) e({k, p + d, l});
}
void run_bytes(const Ints& c, Run& r) {
    int k = int(c[0]);
    auto n = std::size_t(c[1]);
    auto limit = std::uint64_t(c[2]);
    r.desc("%s, %zu bytes, limit %llu", impl_names[k], n, (unsigned long long)limit);
    r.distinct(mc::hash_ints(c));
    use(k);
    std::vector<std::uint8_t> b(n);
    for (std::size_t i = 0; i < n; ++i) b[i] = std::uint8_t(mc::mix(i) >> 11) | 1;
    auto leaves = ref::pack(b);
    if (leaves.empty()) leaves.push_back(ref::Chunk{});
    b.shrink_to_fit();
    ssz::HashTree ht{b, limit};
    check_tree(r, nodes_of(leaves, limit), ht, "bytes", leaves.size(), limit, k);
}
// no chunks, and more chunks than the limit
void gen_refused(const Emit& e) {
    for (auto k : usable) {
        for (long long l : {0ll, 1ll, 2ll, 3ll, 4ll, 1000ll, 1ll << 40, -1ll}) e({k, 0, l, 0});
        for (long long n = 2; n <= (thorough() ? 600 : 200); ++n) for (long long l = 1; l < n; ++l) { e({k, n, l, 0}); if (n < 60) e({k, n, l, 1}); }
        for (long long n : {1024, 1025, 5000, 65536}) for (long long d : {1, 2, 100, 700}) { e({k, n, n - d, 0}); e({k, n, d, 1}); }
    }
}
void run_refused(const Ints& c, Run& r) {
    int k = int(c[0]);
    auto n = std::size_t(c[1]);
    auto limit = std::uint64_t(c[2]);
    r.desc("%s, %zu %s, limit %llu", impl_names[k], n, c[3] ? "chunks of bytes" : "chunks", (unsigned long long)limit);
    r.distinct(mc::hash_ints(c));
    use(k);
    bool threw = false;
    try {
        if (c[3]) { std::vector<std::uint8_t> b(n * 32 - 5, 3); ssz::HashTree ht{b, limit}; (void)ht.hash_tree_root(); }
        else { ssz::HashTree ht{chunks(n, DISTINCT), limit}; (void)ht.hash_tree_root(); }
    } catch (const std::exception&) { threw = true; }
    if (!threw) r.fail("%s: %zu chunks with limit %llu were accepted", impl_names[k], n, (unsigned long long)limit);
}

// ---- C06
const std::uint64_t lens[] = {0, 1, 2, 3, 7, 8, 31, 32, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 1ull << 24, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 1ull << 40, 1ull << 48, 1ull << 56, (1ull << 63) - 1, 1ull << 63, ~0ull - 1, ~0ull, 0x0102030405060708ull};
void gen_mix(const Emit& e) {
    for (auto k : usable)
        for (long long n = 1; n <= 70; ++n)
            for (long long l : std::set<long long>{0, n, 64, 100, 1ll << 40})
                for (std::size_t i = 0; i < sizeof lens / 8; ++i) if (!l || l >= n) e({k, n, l, (long long)i});
}
void run_mix(const Ints& c, Run& r) {
    int k = int(c[0]);
    auto n = std::size_t(c[1]);
    auto limit = std::uint64_t(c[2]);
    auto len = lens[c[3]];
    r.desc("%s, length %llu mixed into the tree of %zu chunks, limit %llu", impl_names[k], (unsigned long long)len, n, (unsigned long long)limit);
    r.distinct(mc::hash_ints(c));
    use(k);
    auto v = chunks(n, DISTINCT);
    auto want = nodes_of(refc(v), limit);
    ssz::HashTree ht{v, limit};
    ht.mix_in(len);
    want.push_back(ref::mix_length(want.back(), len));
    check_tree(r, want, ht, "chunks with a length mixed in", n, limit, k);
    // once more
    ht.mix_in(n);
    want.push_back(ref::mix_length(want.back(), n));
    check_tree(r, want, ht, "chunks with two lengths mixed in", n, limit, k);
}
struct Seq {
    std::string name;
    std::vector<ref::Chunk> (*leaves)(std::size_t n);
    ssz::Chunk (*root)(std::size_t n, std::uint64_t limit);
    std::size_t per_chunk;  // elements in a chunk; 0: one root each
    bool bits;
};
std::uint64_t val(std::size_t i) { return mc::mix(i + 5) | 1; }
std::vector<ref::Chunk> leaves_u64(std::size_t n) {
    std::vector<std::uint8_t> b;
    for (std::size_t i = 0; i < n; ++i) for (int j = 0; j < 8; ++j) b.push_back(std::uint8_t(val(i) >> (8 * j)));
    return ref::pack(b);
}
std::vector<ref::Chunk> leaves_bool(std::size_t n) {
    std::vector<std::uint8_t> b;
    for (std::size_t i = 0; i < n; ++i) b.push_back((val(i) >> 7) & 1);
    return ref::pack(b);
}
ref::Chunk leaf32(std::size_t i) {
    ref::Chunk c;
    for (std::size_t j = 0; j < 32; ++j) c[j] = std::uint8_t(val(i * 4 + j / 8) >> (8 * (j % 8)));
    return c;
}
std::vector<ref::Chunk> leaves_b32(std::size_t n) {
    std::vector<ref::Chunk> o;
    for (std::size_t i = 0; i < n; ++i) o.push_back(leaf32(i));
    return o;
}
std::vector<ref::Chunk> leaves_cp(std::size_t n) {
    std::vector<ref::Chunk> o;
    for (std::size_t i = 0; i < n; ++i) {
        ref::Chunk e{};
        auto x = val(i);
        std::memcpy(e.data(), &x, 8);
        o.push_back(ref::hash2(e, leaf32(i)));
    }
    return o;
}
eth::Bytes32 b32(std::size_t i) { auto c = leaf32(i); return eth::Bytes32(std::array<std::uint8_t, 32>(c)); }
eth::Checkpoint cp(std::size_t i) { eth::Checkpoint c; c.epoch = val(i); c.root = b32(i); return c; }
template <class T> ssz::Chunk list_root(std::size_t n, std::uint64_t limit, T (*make)(std::size_t)) {
    eth::ListFixedSizedParts<T> l;
    l.limit(limit);
    for (std::size_t i = 0; i < n; ++i) l.data().push_back(make(i));
    return l.hash_tree_root();
}
const Seq seqs[] = {
    {"list of integers", leaves_u64, [](std::size_t n, std::uint64_t l) { return list_root<eth::Slot>(n, l, [](std::size_t i) { return eth::Slot(val(i)); }); }, 4, false},
    {"list of booleans", leaves_bool, [](std::size_t n, std::uint64_t l) { return list_root<eth::Boolean>(n, l, [](std::size_t i) { return eth::Boolean((val(i) >> 7) & 1); }); }, 32, false},
    {"list of 32-byte values", leaves_b32, [](std::size_t n, std::uint64_t l) { return list_root<eth::Bytes32>(n, l, b32); }, 0, false},
    {"list of containers", leaves_cp, [](std::size_t n, std::uint64_t l) { return list_root<eth::Checkpoint>(n, l, cp); }, 0, false},
};
void gen_lists(const Emit& e) {
    for (std::size_t s = 0; s < sizeof seqs / sizeof *seqs; ++s) {
        long long top = thorough() ? 1100 : 270;
        for (auto k : usable)
            for (long long n = 0; n <= top; ++n)
                for (long long l : std::set<long long>{std::max(1ll, n), n + 1, n + 3, 2 * n + 1, 1024, 2048, 16777216, 1ll << 40})
                    if (l >= n) e({(long long)s, k, n, l});
        for (auto k : usable)
            for (long long n : {1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 16384, 16385}) for (long long l : {n, n + 1, 1ll << 40}) e({(long long)s, k, n, l});
        for (auto k : usable)
            for (long long n : {32767, 32768, 32769, 65535, 65536, 65537, 131073, 262145, 524291, 1048577}) if (k == 4 || thorough()) for (long long l : {n, 1ll << 40}) e({(long long)s, k, n, l});
    }
}
void run_lists(const Ints& c, Run& r) {
    auto& s = seqs[c[0]];
    int k = int(c[1]);
    auto n = std::size_t(c[2]);
    auto limit = std::uint64_t(c[3]);
    r.desc("%s, %s with %zu elements, limit %llu", impl_names[k], s.name.c_str(), n, (unsigned long long)limit);
    r.distinct(mc::hash_ints(c));
    use(k);
    auto per = s.per_chunk ? s.per_chunk : 1;
    auto want = ref::mix_length(ref::merkle_root(s.leaves(n), (limit + per - 1) / per), n);
    auto got = s.root(n, limit);
    if (got != want) r.fail("%s: root of a %s with %zu elements and limit %llu is %s, not %s", impl_names[k], s.name.c_str(), n, (unsigned long long)limit, hx(got).c_str(), hx(want).c_str());
}
// bitlists: every length, patterns that end in zeros or ones
void gen_bitlists(const Emit& e) {
    for (auto k : usable)
        for (long long n = 0; n <= (thorough() ? 2300 : 800); ++n)
            for (long long l : std::set<long long>{std::max(1ll, n), n + 1, 256 * ((n + 255) / 256) + 1, 2048, 1ll << 40})
                if (l >= n) for (long long p = 0; p < 4; ++p) e({k, n, l, p});
    for (auto k : usable)
        for (long long p = 1 << 12; p <= (thorough() ? 1 << 24 : 1 << 21); p *= 2)
            for (long long d : {-1, 0, 1, 8, 257}) if (k == 4 || p <= 1 << 16) for (long long l : {p + d, 1ll << 40}) for (long long f = 1; f < 4; ++f) e({k, p + d, l, f});
}
void run_bitlists(const Ints& c, Run& r) {
    int k = int(c[0]);
    auto n = std::size_t(c[1]);
    auto limit = std::uint64_t(c[2]);
    r.desc("%s, bitlist of %zu bits, limit %llu, pattern %lld", impl_names[k], n, (unsigned long long)limit, c[3]);
    r.distinct(mc::hash_ints(c));
    use(k);
    std::vector<std::uint8_t> raw((n + 7) / 8), enc(n / 8 + 1);
    for (std::size_t i = 0; i < n; ++i) {
        int b = c[3] == 0 ? 0 : c[3] == 1 ? 1 : c[3] == 2 ? int((val(i) >> 3) & 1) : i + 1 == n;
        raw[i / 8] |= std::uint8_t(b << (i % 8));
        enc[i / 8] |= std::uint8_t(b << (i % 8));
    }
    enc[n / 8] |= std::uint8_t(1 << (n % 8));
    eth::Bitlist l;
    l.limit(limit);
    if (!l.deserialize(enc.cbegin(), enc.cend())) r.fail("a bitlist of %zu bits was refused (limit %llu)", n, (unsigned long long)limit);
    auto want = ref::mix_length(ref::merkle_root(ref::pack(raw), (limit + 255) / 256), n);
    auto got = l.hash_tree_root();
    if (got != want) r.fail("%s: root of a bitlist of %zu bits with limit %llu is %s, not %s", impl_names[k], n, (unsigned long long)limit, hx(got).c_str(), hx(want).c_str());
}
// vectors and bitvectors have no length in their roots
template <unsigned N> void one_bv(Run& r, int k) {
    for (int p = 0; p < 4; ++p) {
        std::array<bool, N> a{};
        std::vector<std::uint8_t> raw((N + 7) / 8);
        for (std::size_t i = 0; i < N; ++i) { a[i] = p == 1 || (p == 2 && ((val(i) >> 3) & 1)) || (p == 3 && i + 1 == N); raw[i / 8] |= std::uint8_t(a[i] << (i % 8)); }
        eth::Bitvector<N> v(a);
        auto want = ref::merkle_root(ref::pack(raw), 0);
        if (v.hash_tree_root() != want) r.fail("%s: root of a bitvector of %u bits (pattern %d) is %s, not %s", impl_names[k], N, p, hx(v.hash_tree_root()).c_str(), hx(want).c_str());
    }
}
template <std::size_t N> void one_vec(Run& r, int k) {
    eth::VectorFixedSizedParts<eth::Slot, N> u;
    eth::VectorFixedSizedParts<eth::Bytes32, N> b;
    eth::VectorFixedSizedParts<eth::Checkpoint, N> c;
    eth::VectorFixedSizedParts<eth::Boolean, N> o;
    std::size_t i = 0;
    for (auto& x : u) x = eth::Slot(val(i++));
    i = 0;
    for (auto& x : b) x = b32(i++);
    i = 0;
    for (auto& x : c) x = cp(i++);
    i = 0;
    for (auto& x : o) x = eth::Boolean((val(i++) >> 7) & 1);
    auto chk = [&](const char* w, const ssz::Chunk& got, const std::vector<ref::Chunk>& leaves) {
        auto want = ref::merkle_root(leaves, 0);
        if (got != want) r.fail("%s: root of a vector of %zu %s is %s, not %s", impl_names[k], N, w, hx(got).c_str(), hx(want).c_str());
    };
    chk("integers", u.hash_tree_root(), leaves_u64(N));
    chk("32-byte values", b.hash_tree_root(), leaves_b32(N));
    chk("containers", c.hash_tree_root(), leaves_cp(N));
    chk("booleans", o.hash_tree_root(), leaves_bool(N));
}
template <std::size_t N> void one_bytes(Run& r, int k) {
    std::array<std::uint8_t, N> a;
    for (std::size_t i = 0; i < N; ++i) a[i] = std::uint8_t(val(i) >> 13);
    eth::Bytes<N> b(a);
    auto want = ref::merkle_root(ref::pack({a.begin(), a.end()}), 0);
    if (b.hash_tree_root() != want) r.fail("%s: root of %zu bytes is %s, not %s", impl_names[k], N, hx(b.hash_tree_root()).c_str(), hx(want).c_str());
}
using Fn = void (*)(Run&, int);
template <std::size_t... I> std::vector<std::pair<long long, Fn>> bvs(std::index_sequence<I...>) { return {{(long long)(I + 1), &one_bv<unsigned(I + 1)>}...}; }
template <std::size_t... I> std::vector<std::pair<long long, Fn>> vecs(std::index_sequence<I...>) { return {{(long long)(I + 1), &one_vec<I + 1>}...}; }
template <std::size_t... I> std::vector<std::pair<long long, Fn>> bys(std::index_sequence<I...>) { return {{(long long)(I + 1), &one_bytes<I + 1>}...}; }
std::vector<std::pair<long long, Fn>> fixed[3];
const char* fixed_names[] = {"bitvectors", "vectors", "byte strings"};
void make_fixed() {
    fixed[0] = bvs(std::make_index_sequence<70>{});
    for (auto& x : {std::pair<long long, Fn>{255, one_bv<255>}, {256, one_bv<256>}, {257, one_bv<257>}, {511, one_bv<511>}, {512, one_bv<512>}, {513, one_bv<513>}, {1024, one_bv<1024>}, {1025, one_bv<1025>}, {2048, one_bv<2048>}, {32769, one_bv<32769>}, {65537, one_bv<65537>}, {131073, one_bv<131073>}}) fixed[0].push_back(x);
    fixed[1] = vecs(std::make_index_sequence<36>{});
    for (auto& x : {std::pair<long long, Fn>{63, one_vec<63>}, {64, one_vec<64>}, {65, one_vec<65>}, {127, one_vec<127>}, {128, one_vec<128>}, {129, one_vec<129>}, {255, one_vec<255>}, {256, one_vec<256>}, {257, one_vec<257>}, {1000, one_vec<1000>}, {8193, one_vec<8193>}}) fixed[1].push_back(x);
    fixed[2] = bys(std::make_index_sequence<100>{});
    for (auto& x : {std::pair<long long, Fn>{127, one_bytes<127>}, {128, one_bytes<128>}, {129, one_bytes<129>}, {255, one_bytes<255>}, {256, one_bytes<256>}, {257, one_bytes<257>}, {1000, one_bytes<1000>}, {65535, one_bytes<65535>}, {65537, one_bytes<65537>}}) fixed[2].push_back(x);
}
void run_fixed(const Ints& c, Run& r) {
    auto& f = fixed[c[0]][std::size_t(c[1])];
    r.desc("%s, %s of %lld", impl_names[c[2]], fixed_names[c[0]], f.first);
    r.distinct(mc::hash_ints(c));
    use(int(c[2]));
    f.second(r, int(c[2]));
}

std::vector<Family> families() {
    make_usable();
    if (mc::opt.prop == "C05")
        return {{"trees", "every implementation x number of chunks up to the bound (and around powers of two above it) x limits 0, around the number of chunks, around powers of two up to 2^64 x contents; all nodes and the root compared", gen_trees, run_trees},
                {"bytes", "every implementation x number of bytes up to the bound x limits", gen_bytes, run_bytes},
                {"long bytes", "numbers of bytes around powers of two up to the bound", gen_long_bytes, run_bytes, 240},
                {"refused", "no chunks with any limit, more chunks than the limit", gen_refused, run_refused}};
    make_fixed();
    return {{"mix_in", "32 lengths mixed into trees of 1 to 70 chunks with several limits, twice in a row", gen_mix, run_mix},
            {"lists", "lists of four kinds of elements x number of elements up to the bound x limits, for every implementation", gen_lists, run_lists},
            {"bitlists", "bitlists of every length up to the bound x limits x four patterns, for every implementation", gen_bitlists, run_bitlists},
            {"fixed", "bitvectors, vectors of four kinds of elements and byte strings of every small size and around powers of two, for every implementation", [](const Emit& e) {
                 for (long long f = 0; f < 3; ++f) for (std::size_t i = 0; i < fixed[f].size(); ++i) for (auto k : usable) e({f, (long long)i, k});
             }, run_fixed}};
}
}  // namespace
int main(int argc, char** argv) { return mc::main(argc, argv, families); }
