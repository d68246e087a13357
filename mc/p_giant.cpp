// Trees, bit lists, lists and containers larger than 31 and 32 bit numbers of bytes, bits or chunks can express.
// One case at a time: each takes up to 13 GB.
#include <fcntl.h>
#include <sys/file.h>
#include <unistd.h>

#include <cstring>

#include "common/bitlist.hpp"
#include "common/bytes.hpp"
#include "common/containers.hpp"
#include "common/slot.hpp"
#include "mc.hpp"
#include "ref_sha.hpp"
#include "ssz/hashtree.hpp"
#include "ssz/ssz_container.hpp"
using mc::Family;
using mc::Ints;
using mc::Run;
using U8 = std::uint8_t;
using u64 = std::uint64_t;
using Bv = std::vector<U8>;
using Emit = std::function<void(const Ints&)>;

namespace {
bool thorough() { return mc::opt.thorough(); }
constexpr std::size_t BIG = 1 << 20;
using Big = eth::Bytes<BIG>;
using Bigs = eth::ListFixedSizedParts<Big>;
using Lists = eth::ListVariableSizedParts<Bigs>;
#ifndef MC_NO_CONTAINER
struct Wide : ssz::Container {
    eth::Slot a;
    Bigs l{4096};
    eth::ListFixedSizedParts<eth::Slot> m{1024};
    eth::Bytes4 b;
    eth::Bitlist n{64};
    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&a, &l, &m, &b, &n}); }
    eth::BytesVector serialize() const override { return serialize_({&a, &l, &m, &b, &n}); }
    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override { return deserialize_(it, end, {&a, &l, &m, &b, &n}); }
    YAML::Node encode() const override { return encode_({{"a", &a}, {"l", &l}, {"m", &m}, {"b", &b}, {"n", &n}}); }
    bool decode(const YAML::Node& y) override { return decode_(y, {{"a", &a}, {"l", &l}, {"m", &m}, {"b", &b}, {"n", &n}}); }
};
#endif

// One of these at a time, whichever worker it falls to, and only with the memory it takes.
struct Alone {
    int fd = -1;
    explicit Alone(Run& r, double gigabytes) {
        fd = open("/proc/self/exe", O_RDONLY);
        if (fd < 0 || flock(fd, LOCK_EX)) { perror("flock"); _exit(2); }
        (void)r;
        (void)gigabytes;
    }
    ~Alone() { close(fd); }
    Alone(const Alone&) = delete;
};
int c_skipped;
bool room(Run& r, double gigabytes) {
    FILE* f = fopen("/proc/meminfo", "r");
    char line[200];
    double kb = 1e12;
    while (f && fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %lf", &kb) == 1) break;
    if (f) fclose(f);
    if (kb > gigabytes * 1.2e6) return true;
    r.count(c_skipped);
    return false;
}

// ---- trees
// the root over n chunks that are zero but for some, at a depth
ref::Chunk sparse_root(const std::vector<std::pair<u64, ref::Chunk>>& marks, u64 from, int depth) {
    bool any = false;
    for (auto& m : marks) any = any || (m.first >= from && (depth >= 63 || m.first - from < (1ull << depth)));
    if (!any) return ref::zero_hash(depth);
    if (!depth) { for (auto& m : marks) if (m.first == from) return m.second; }
    auto h = 1ull << (depth - 1);
    return ref::hash2(sparse_root(marks, from, depth - 1), sparse_root(marks, from + h, depth - 1));
}
const u64 P27 = 1ull << 27;
struct TreeCase { bool bytes; u64 n, limit; double gb; };
std::vector<TreeCase> tree_cases() {
    std::vector<TreeCase> v{{false, P27, 0, 9}, {true, (1ull << 31) + 33, 1ull << 40, 9}, {true, 1ull << 32, 0, 13}};
    if (thorough()) {
        v.push_back({false, P27 / 2 + 1, 1ull << 40, 7});
        v.push_back({false, P27 - 1, P27, 9});
        v.push_back({false, P27 + 1, 0, 13});
        v.push_back({true, (1ull << 32) + 1, 1ull << 38, 18});
        v.push_back({true, (1ull << 31) - 1, 0, 7});
    }
    return v;
}
void run_tree(const Ints& c, Run& r) {
    auto t = tree_cases().at(std::size_t(c[0]));
    r.desc("%llu %s, limit %llu", (unsigned long long)t.n, t.bytes ? "bytes" : "chunks", (unsigned long long)t.limit);
    Alone alone(r, t.gb);
    if (!room(r, t.gb)) return;
    r.distinct(mc::hash_ints(c));
    u64 chunks = t.bytes ? (t.n + 31) / 32 : t.n;
    std::vector<std::pair<u64, ref::Chunk>> marks;
    u64 seed = 5;
    for (u64 at : {u64(0), u64(1), chunks / 2 - 1, chunks / 2, chunks / 2 + 1, chunks - 2, chunks - 1, u64(1) << 26, (u64(1) << 26) - 1, (u64(1) << 26) + 1}) {
        bool have = at >= chunks;
        for (auto& m : marks) have = have || m.first == at;
        if (have) continue;
        ref::Chunk k{};
        for (std::size_t j = 0; j < 32; ++j) if (!t.bytes || at * 32 + j < t.n) k[j] = U8(mc::mix(seed++) | 1);
        marks.push_back({at, k});
    }
    int depth = ref::log2up(t.limit ? t.limit : chunks);
    auto want = sparse_root(marks, 0, depth);
    ssz::Chunk got;
    if (t.bytes) {
        Bv v(t.n);
        for (auto& m : marks) memcpy(v.data() + m.first * 32, m.second.data(), std::min<u64>(32, t.n - m.first * 32));
        got = ssz::HashTree(v, t.limit).hash_tree_root();
    } else {
        std::vector<ssz::Chunk> v(t.n);
        for (auto& m : marks) memcpy(v[m.first].data(), m.second.data(), 32);
        got = ssz::HashTree(v, t.limit).hash_tree_root();
    }
    if (memcmp(got.data(), want.data(), 32)) r.fail("the root of %s is %s, not %s", r.description.c_str(), mc::hex(got.data(), 32).c_str(), mc::hex(want.data(), 32).c_str());
}

// ---- bit lists
void run_bits(const Ints& c, Run& r) {
    u64 bits = (1ull << 32) + u64(c[0]);
    r.desc("the root of a bit list of %llu bits", (unsigned long long)bits);
    Alone alone(r, 4);
    if (!room(r, 4)) return;
    r.distinct(mc::hash_ints(c));
    Bv e(bits / 8 + 1);
    std::vector<std::pair<u64, ref::Chunk>> marks;
    e[3] = 0x81; e[(1u << 28) + 1] = 0x42; e[bits / 8] = U8(1u << (bits % 8));
    if (bits % 8) e[bits / 8] |= 1;
    eth::Bitlist o{1ull << 40};
    if (!o.deserialize(e.cbegin(), e.cend())) r.fail("the canonical encoding of %llu bits was refused", (unsigned long long)bits);
    e[bits / 8] &= U8(~(1u << (bits % 8)));
    for (u64 at : {u64(0), (u64(1) << 28) / 32, (bits / 8) / 32, (u64(1) << 29) / 32}) {
        bool have = at * 32 >= (bits + 7) / 8;
        for (auto& m : marks) have = have || m.first == at;
        if (have) continue;
        ref::Chunk k{};
        for (u64 j = 0; j < 32 && at * 32 + j < e.size(); ++j) k[j] = e[at * 32 + j];
        marks.push_back({at, k});
    }
    ref::Chunk len{};
    for (int j = 0; j < 8; ++j) len[std::size_t(j)] = U8(bits >> (8 * j));
    auto want = ref::hash2(sparse_root(marks, 0, 32), len);
    auto got = o.hash_tree_root();
    if (memcmp(got.data(), want.data(), 32)) r.fail("%s is %s, not %s", r.description.c_str(), mc::hex(got.data(), 32).c_str(), mc::hex(want.data(), 32).c_str());
}

// ---- encodings
void put32(U8* p, u64 x) { for (int k = 0; k < 4; ++k) p[k] = U8(x >> (8 * k)); }
void element(U8* p, u64 i) {  // over zeros
    for (int k = 0; k < 8; ++k) p[k] = U8(mc::mix(i) >> (8 * k));
    p[BIG - 1] = U8(i * 7 + 1);
}
Bv zero_element(BIG);
void compare(Run& r, const U8* got, const U8* want, std::size_t n, u64 at, const char* what) {
    if (!memcmp(got, want, n)) return;
    std::size_t i = 0;
    while (got[i] == want[i]) ++i;
    r.fail("%s: byte %llu is %02x, not %02x", what, (unsigned long long)(at + i), got[i], want[i]);
}
void compare_elements(Run& r, const U8* got, u64 count, u64 first, u64 at, const char* what) {
    for (u64 i = 0; i < count; ++i) {
        auto w = zero_element;
        element(w.data(), first + i);
        compare(r, got + i * BIG, w.data(), BIG, at + i * BIG, what);
    }
}
Bv table_encoding(const std::vector<u64>& per) {
    u64 n = 0;
    for (auto x : per) n += x;
    Bv e(per.size() * 4 + n * BIG);
    u64 at = per.size() * 4, i = 0;
    for (std::size_t k = 0; k < per.size(); ++k) {
        put32(&e[k * 4], at);
        for (u64 j = 0; j < per[k]; ++j, at += BIG) element(&e[at], i++);
    }
    return e;
}
const std::vector<u64> tables[] = {{700, 800, 548, 0, 1}, {2048, 1}, {1, 2047, 0, 0}, {1400, 647, 1, 1}, {0, 0, 2047}};
void run_table(const Ints& c, Run& r) {
    auto& per = tables[c[0]];
    r.desc("a list of %zu lists of 1 MiB byte strings, %s", per.size(), [&] { std::string s; for (auto x : per) s += std::to_string(x) + " "; return s; }().c_str());
    Alone alone(r, 11);
    if (!room(r, 11)) return;
    r.distinct(mc::hash_ints(c));
    Lists t{16};
    {
        auto e = table_encoding(per);
        if (!t.deserialize(e.cbegin(), e.cend())) r.fail("the canonical encoding (%zu bytes) was refused", e.size());
        if (mc::opt.prop == "C09") {
            if (t.size() != per.size()) r.fail("%zu elements, not %zu", t.size(), per.size());
            u64 i = 0;
            std::size_t k = 0;
            for (auto& l : t) {
                if (l.size() != per[k]) r.fail("element %zu has %zu elements, not %llu", k, l.size(), (unsigned long long)per[k]);
                for (auto& b : l) compare_elements(r, b.to_array().data(), 1, i++, 0, "a decoded element");
                ++k;
            }
            // every offset, off by amounts that a narrower or signed number would not see
            for (std::size_t o = 0; o < per.size(); ++o) {
                u64 was = 0;
                memcpy(&was, &e[o * 4], 4);
                for (u64 d : thorough() ? std::vector<u64>{1, ~u64(0), BIG - 1, u64(1) << 31, u64(1) << 16, u64(1) << 24} : std::vector<u64>{1, u64(1) << 31}) {
                    u64 now = (was + d) & 0xffffffff;
                    // an element of a wrong size, offsets that decrease, one beyond the end
                    u64 next = o + 1 < per.size() ? [&] { std::uint32_t x; memcpy(&x, &e[o * 4 + 4], 4); return u64(x); }() : e.size();
                    u64 prev = o ? [&] { std::uint32_t x; memcpy(&x, &e[o * 4 - 4], 4); return u64(x); }() : 0;
                    bool good = o && now >= prev && now <= next && (now - prev) % BIG == 0 && (next - now) % BIG == 0;
                    if (good) continue;
                    put32(&e[o * 4], now);
                    Lists u{16};
                    if (u.deserialize(e.cbegin(), e.cend())) r.fail("offset %zu of %llu instead of %llu was accepted", o, (unsigned long long)now, (unsigned long long)was);
                    put32(&e[o * 4], was);
                }
            }
            return;
        }
    }
    auto s = t.serialize();
    u64 n = 0;
    for (auto x : per) n += x;
    if (s.size() != per.size() * 4 + n * BIG) r.fail("%zu bytes, not %llu", s.size(), (unsigned long long)(per.size() * 4 + n * BIG));
    u64 at = per.size() * 4;
    for (std::size_t k = 0; k < per.size(); ++k) {
        U8 w[4];
        put32(w, at);
        compare(r, &s[k * 4], w, 4, k * 4, "the offsets");
        at += per[k] * BIG;
    }
    compare_elements(r, s.data() + per.size() * 4, n, 0, per.size() * 4, "the elements");
}
#ifndef MC_NO_CONTAINER
const u64 wides[][2] = {{2049, 5}, {2047, 1024}, {2048, 0}};
void run_wide(const Ints& c, Run& r) {
    u64 n = wides[c[0]][0], k = wides[c[0]][1];
    r.desc("a container with a list of %llu strings of 1 MiB before a list of %llu integers and a bit list", (unsigned long long)n, (unsigned long long)k);
    Alone alone(r, 12);
    if (!room(r, 12)) return;
    r.distinct(mc::hash_ints(c));
    const u64 fixed = 8 + 4 + 4 + 4 + 4, o1 = fixed, o2 = o1 + n * BIG, o3 = o2 + 8 * k, all = o3 + 2;
    U8 head[fixed], tail[8 * 1024 + 2];
    for (int i = 0; i < 8; ++i) head[i] = U8(0x31 + i);
    put32(head + 8, o1); put32(head + 12, o2); put32(head + 16, 0xdeadbeef); put32(head + 20, o3);
    for (u64 i = 0; i < 8 * k; ++i) tail[i] = U8(mc::mix(i));
    tail[8 * k] = 0x5a; tail[8 * k + 1] = 0x15;
    Wide w;
    {
        Bv e(all);
        memcpy(e.data(), head, fixed);
        for (u64 i = 0; i < n; ++i) element(&e[fixed + i * BIG], i);
        memcpy(&e[o2], tail, 8 * k + 2);
        if (!w.deserialize(e.cbegin(), e.cend())) r.fail("the canonical encoding (%zu bytes) was refused", e.size());
        if (mc::opt.prop == "C09") {
            if (w.l.size() != n || w.m.size() != k || w.n.size() != 12) r.fail("decoded to %zu, %zu, %zu elements", w.l.size(), w.m.size(), w.n.size());
            u64 i = 0;
            for (auto& b : w.l) compare_elements(r, b.to_array().data(), 1, i++, 0, "a decoded element");
            auto ms = w.m.serialize();
            if (k) compare(r, ms.data(), tail, 8 * k, 0, "the integers");
            for (int o : {8, 12, 20}) {
                u64 was = o == 8 ? o1 : o == 12 ? o2 : o3;
                for (u64 d : thorough() ? std::vector<u64>{1, ~u64(0), u64(1) << 31, u64(1) << 16, u64(1) << 30} : std::vector<u64>{1, u64(1) << 31}) {
                    u64 now = (was + d) & 0xffffffff;
                    if (o != 8 && now % 8 == 0 && d >> 16) {
                        // still whole elements on both sides?
                        u64 lo = o == 12 ? o1 : o2, hi = o == 12 ? o3 : all;
                        if (now >= lo && now <= hi && o == 12 && (now - lo) % BIG == 0 && (hi - now) / 8 <= 1024) continue;
                    }
                    put32(&e[std::size_t(o)], now);
                    Wide u;
                    if (u.deserialize(e.cbegin(), e.cend())) r.fail("the offset at %d of %llu instead of %llu was accepted", o, (unsigned long long)now, (unsigned long long)was);
                    put32(&e[std::size_t(o)], was);
                }
            }
            return;
        }
    }
    auto s = w.serialize();
    if (s.size() != all) r.fail("%zu bytes, not %llu", s.size(), (unsigned long long)all);
    compare(r, s.data(), head, fixed, 0, "the fixed parts and offsets");
    compare_elements(r, s.data() + fixed, n, 0, fixed, "the first list");
    compare(r, s.data() + o2, tail, 8 * k + 2, o2, "what follows the first list");
}
#endif
// ---- lists of integers
void run_ints(const Ints& c, Run& r) {
    u64 n = (1ull << 28) + u64(c[0]);
    r.desc("a list of %llu integers", (unsigned long long)n);
    Alone alone(r, 18);
    if (!room(r, 18)) return;
    r.distinct(mc::hash_ints(c));
    eth::ListFixedSizedParts<eth::Slot> l{1ull << 40};
    l.data().resize(n);
    std::vector<std::pair<u64, ref::Chunk>> marks;
    for (u64 at : {u64(0), n / 8, n / 4 - 1, (n - 1) / 4}) {
        bool have = false;
        for (auto& m : marks) have = have || m.first == at;
        if (have) continue;
        ref::Chunk k{};
        for (u64 j = 0; j < 4 && at * 4 + j < n; ++j) {
            l.data()[at * 4 + j] = eth::Slot(at + j + 1);
            for (int b = 0; b < 8; ++b) k[j * 8 + std::size_t(b)] = U8((at + j + 1) >> (8 * b));
        }
        marks.push_back({at, k});
    }
    ref::Chunk len{};
    for (int j = 0; j < 8; ++j) len[std::size_t(j)] = U8(n >> (8 * j));
    auto want = ref::hash2(sparse_root(marks, 0, 38), len);
    auto got = l.hash_tree_root();
    if (memcmp(got.data(), want.data(), 32)) r.fail("the root of %s is %s, not %s", r.description.c_str(), mc::hex(got.data(), 32).c_str(), mc::hex(want.data(), 32).c_str());
}

std::vector<Family> families() {
    c_skipped = mc::counter("skipped_for_lack_of_memory");
    auto gen = [](std::size_t quick, std::size_t all) { return [=](const Emit& e) { for (std::size_t i = 0; i < (thorough() ? all : quick); ++i) e({(long long)i}); }; };
    if (mc::opt.prop == "C05")
        return {{"giant trees", "2^27 chunks, 2^31 + 33 and 2^32 bytes (thorough: other numbers around 2^31 and 2^32 bytes), zero but for ten chunks at the ends, in the middle and at 2^26; the root", gen(tree_cases().size(), tree_cases().size()), run_tree, 600}};
    if (mc::opt.prop == "C06" || mc::opt.prop == "C11") {
        std::vector<Family> f{{"giant bit lists", "bit lists of 2^32 + 9 bits (thorough: 2^32 + 0, 1, -1)", [](const Emit& e) { for (long long d : {9, 0, 1, -1}) if (thorough() || d == 9) e({d}); }, run_bits, 900}};
        if (thorough()) f.push_back({"giant lists of integers", "2^28 + 0, 5 integers (2^31 bytes)", [](const Emit& e) { for (long long d : {0, 5}) e({d}); }, run_ints, 900});
        return f;
    }
    std::vector<Family> f{{"giant tables", "a list of lists of more than 2^31 bytes in all: one distribution of the elements (thorough: five)", gen(1, 5), run_table, 600}};
#ifndef MC_NO_CONTAINER
    f.push_back({"giant containers", "a container whose second and third offsets are above 2^31 (thorough: two more)", gen(1, 3), run_wide, 600});
#endif
    return f;
}
}  // namespace
int main(int argc, char** argv) {
    mc::as_limit = 40ull << 30;
    return mc::main(argc, argv, families);
}
