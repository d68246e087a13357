// C14 text, C15 basic values, C16 validator predicates, C17 attestations, C18 integer functions, C21 constants.
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/slot.hpp"
#include "helpers/bytes_to_int.hpp"
#include "helpers/bytes_to_string.hpp"
#include "helpers/math.hpp"
#include <sstream>
#include "gen.hpp"
#include "mc.hpp"
#include "phase0.hpp"
using namespace eth;
using mc::Family;
using mc::Ints;
using mc::Run;
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using u16 = std::uint16_t;
using u8 = std::uint8_t;
using std::string;
using std::vector;

namespace {
const u64 MAX = ~0ull;
int c_evals;

u8 pat(u64 seed, std::size_t j) { return u8(mc::mix(seed * 1000003 + j) >> 21); }
template <class F> bool throws(F&& f) {
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
template <class T> vector<u8> vec(const T& a) { return vector<u8>(a.begin(), a.end()); }
string show(const string& s) {
    string o = "\"";
    for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += char(c); }
    return o + "\"";
}

// ---------------------------------------------------------------- C14
#define SIZES(F) F(1) F(2) F(4) F(7) F(8) F(20) F(31) F(32) F(33) F(48) F(96) F(300)
template <std::size_t N> void digits(long long p, long long fill, Run& r) {
    std::array<u8, N> a{};
    for (int v = 0; v < 256; ++v) {
        for (std::size_t j = 0; j < N; ++j) a[j] = fill == 0 ? 0 : fill == 1 ? 0xff : pat(N * 7 + u64(fill), j);
        a[std::size_t(p)] = u8(v);
        auto lo = ref::hexstr(vec(a)), up = ref::hexstr(vec(a), true);
        string mixed = lo;
        for (std::size_t j = 2; j < mixed.size(); j += 3) mixed[j] = up[j];
        for (auto& s : {lo, up, mixed}) {
            Bytes<N> b;
            b.from_string(s);
            if (b.to_array() != a) r.fail("Bytes%zu from_string(%s) holds %s", N, s.c_str(), mc::hex(b.to_array().data(), N).c_str());
            Bytes<N> c{std::string_view(s)};
            if (c.to_array() != a) r.fail("Bytes%zu{%s} holds %s", N, s.c_str(), mc::hex(c.to_array().data(), N).c_str());
            // text that is not followed by a terminator
            string longer = s + "deadbeef";
            Bytes<N> d{std::string_view(longer).substr(0, s.size())};
            if (d.to_array() != a) r.fail("Bytes%zu{%s} (part of a longer text) holds %s", N, s.c_str(), mc::hex(d.to_array().data(), N).c_str());
            if (b.to_string() != lo) r.fail("Bytes%zu with %s: to_string is %s", N, lo.c_str(), b.to_string().c_str());
            r.count(c_evals);
        }
        if (helpers::bytes_to_string(a) != lo || helpers::bytes_to_string(vec(a)) != lo) r.fail("bytes_to_string of %s", lo.c_str());
    }
    r.desc("Bytes%zu, byte %lld takes all 256 values among bytes of pattern %lld; lower, upper and mixed case text", N, p, fill);
    r.distinct(mc::hash_ints({14, (long long)N, p, fill}));
}
template <std::size_t N> void lengths(long long n, long long prefix, Run& r) {
    // n digits after the prefix
    static const char* pre[] = {"0x", "", "0X", "x0", "00", "0", "x", " 0x", "1x"};
    string s = pre[prefix];
    for (long long j = 0; j < n; ++j) s += "0123456789abcdef"[pat(u64(n), std::size_t(j)) & 15];
    std::array<u8, N> before;
    for (std::size_t j = 0; j < N; ++j) before[j] = pat(99, j);
    Bytes<N> b{before};
    bool ok = s.starts_with("0x") && s.size() <= 2 * N + 2;
    bool thrown = throws([&] { b.from_string(s); });
    if (thrown == ok) r.fail("Bytes%zu from_string(%s) %s", N, show(s).c_str(), thrown ? "was refused" : "was accepted");
    bool thrown2 = throws([&] { Bytes<N> c{std::string_view(s)}; });
    if (thrown2 == ok) r.fail("Bytes%zu{%s} %s", N, show(s).c_str(), thrown2 ? "was refused" : "was accepted");
    if (!ok && b.to_array() != before) r.fail("Bytes%zu: refused text %s changed the value", N, show(s).c_str());
    if (ok && s.size() % 2 == 0) {
        std::array<u8, N> want{};
        for (std::size_t j = 2; j < s.size(); j += 2) want[j / 2 - 1] = u8(std::stoi(s.substr(j, 2), nullptr, 16));
        if (b.to_array() != want) r.fail("Bytes%zu from_string(%s) holds %s", N, s.c_str(), mc::hex(b.to_array().data(), N).c_str());
    }
    r.desc("Bytes%zu from %s: %s", N, show(s).substr(0, 80).c_str(), ok ? "accepted" : "refused");
    r.distinct(mc::hash_ints({15, (long long)N, n, prefix}));
}
const char ALPHA[] = {'0', 'x', 'f', 'A', 'g', '\0', '\x80', '\xff', ' '};
string word(long long len, long long idx) {
    string s;
    for (long long i = 0; i < len; ++i) { s += ALPHA[idx % long(sizeof ALPHA)]; idx /= long(sizeof ALPHA); }
    return s;
}
bool hexonly(const string& s, std::size_t from) {
    for (std::size_t i = from; i < s.size(); ++i) if (!s[i] || !strchr("0123456789abcdefABCDEF", s[i])) return false;
    return true;
}
ref::Bytes unhex(const string& s) {
    ref::Bytes b;
    for (std::size_t i = 2; i + 1 < s.size(); i += 2) b.push_back(u8(std::stoi(s.substr(i, 2), nullptr, 16)));
    return b;
}
template <std::size_t N> void word_bytes(const string& s, Run& r) {
    std::array<u8, N> before;
    before.fill(0x5a);
    Bytes<N> b{before};
    bool ok = s.starts_with("0x") && s.size() <= 2 * N + 2;
    bool thrown = throws([&] { b.from_string(s); });
    bool wellformed = ok && s.size() % 2 == 0 && hexonly(s, 2);
    if (!ok && !thrown) r.fail("Bytes%zu from_string(%s) was accepted", N, show(s).c_str());
    if (wellformed) {
        if (thrown) r.fail("Bytes%zu from_string(%s) was refused", N, show(s).c_str());
        auto w = unhex(s);
        w.resize(N);
        if (vec(b.to_array()) != w) r.fail("Bytes%zu from_string(%s) holds %s", N, show(s).c_str(), b.to_string().c_str());
    }
    if (thrown && b.to_array() != before) r.fail("Bytes%zu: refused text %s changed the value", N, show(s).c_str());
    if (b.to_string().size() != 2 * N + 2) r.fail("Bytes%zu after %s: to_string is %s", N, show(s).c_str(), b.to_string().c_str());
}
void check_bitlist(const string& s, std::size_t limit, Run& r, bool strict) {
    Bitlist b(limit);
    bool form = s.starts_with("0x") && s.size() % 2 == 0;
    bool thrown = throws([&] { b.from_hexstring(s); });
    if (form && hexonly(s, 2)) {
        auto v = ref::decode(*ref::bitlist(limit), unhex(s));
        if (bool(v) == thrown) r.fail("Bitlist(%zu) from_hexstring(%s) was %s", limit, show(s).c_str(), thrown ? "refused" : "accepted");
        if (v) {
            string bits;
            for (bool x : v->bits) bits += x ? '1' : '0';
            std::ostringstream os;
            os << b;
            if (os.str() != bits || b.size() != bits.size()) r.fail("Bitlist(%zu) from %s prints %s (size %zu), want %s", limit, s.c_str(), os.str().c_str(), b.size(), bits.c_str());
            string low = s;
            for (auto& c : low) c = char(tolower(c));
            if (b.to_string() != low) r.fail("Bitlist(%zu) from %s: to_string is %s", limit, s.c_str(), b.to_string().c_str());
            if (b.serialize() != unhex(s)) r.fail("Bitlist(%zu) from %s: serialized as %s", limit, s.c_str(), ref::hexstr(b.serialize()).c_str());
        }
    } else if (!form && !thrown)
        r.fail("Bitlist(%zu) from_hexstring(%s) was accepted", limit, show(s).c_str());
    // usable afterwards
    if (b.to_string().size() != 2 + 2 * (b.size() / 8 + 1)) r.fail("Bitlist(%zu) after %s: to_string is %s", limit, show(s).c_str(), b.to_string().c_str());
    b.hash_tree_root();
    b.from_hexstring("0x01");
    if (b.size() != 0 || b.to_string() != "0x01") r.fail("Bitlist(%zu) after %s cannot be set to the empty list", limit, show(s).c_str());
}
template <unsigned N> void check_bitvector(const string& s, Run& r) {
    std::array<bool, N> before{};
    for (unsigned j = 0; j < N; ++j) before[j] = j % 3 == 0;
    Bitvector<N> b{before};
    bool form = s.starts_with("0x") && s.size() % 2 == 0;
    bool thrown = throws([&] { b.from_hexstring(s); });
    if (!form && !thrown) r.fail("Bitvector%u from_hexstring(%s) was accepted", N, show(s).c_str());
    if (form && hexonly(s, 2)) {
        auto v = ref::decode(*ref::bitvec(N), unhex(s));
        if (!v && !thrown && s.size() >= 2 + 2 * ((N + 7) / 8)) r.fail("Bitvector%u from_hexstring(%s) was accepted", N, show(s).c_str());
        if (v) {
            if (thrown) r.fail("Bitvector%u from_hexstring(%s) was refused", N, show(s).c_str());
            string bits;
            for (bool x : v->bits) bits += x ? '1' : '0';
            std::ostringstream os;
            os << b;
            if (os.str() != bits) r.fail("Bitvector%u from %s prints %s, want %s", N, s.c_str(), os.str().c_str(), bits.c_str());
            string low = s;
            for (auto& c : low) c = char(tolower(c));
            if (b.to_string() != low) r.fail("Bitvector%u from %s: to_string is %s", N, s.c_str(), b.to_string().c_str());
            std::array<bool, N> a{};
            for (unsigned j = 0; j < N; ++j) a[j] = v->bits[j];
            if (!(Bitvector<N>{a} == b)) r.fail("Bitvector%u from %s differs from the one made of the same bits", N, s.c_str());
        }
    }
    if (b.to_string().size() != 2 + 2 * ((N + 7) / 8)) r.fail("Bitvector%u after %s: to_string is %s", N, show(s).c_str(), b.to_string().c_str());
    b.hash_tree_root();
}
#define BVS(F) F(1) F(2) F(3) F(4) F(5) F(7) F(8) F(9) F(15) F(16) F(17) F(31) F(33) F(64) F(256) F(257)
template <unsigned N> void bv_bits(long long i, long long j, Run& r) {
    // bits i and j set, and the complement
    ref::Value v;
    v.bits.assign(N, false);
    v.bits[std::size_t(i)] = v.bits[std::size_t(j)] = true;
    for (int c = 0; c < 2; ++c) {
        auto e = ref::encode(*ref::bitvec(N), v);
        check_bitvector<N>(ref::hexstr(e), r);
        check_bitvector<N>(ref::hexstr(e, true), r);
        v.bits.flip();
    }
    r.distinct(mc::hash_ints({17, (long long)N, i, j}));
    r.desc("Bitvector%u with bits %lld and %lld set, and its complement", N, i, j);
}

vector<Family> c14() {
    vector<Family> f;
    bool T = mc::opt.thorough();
    f.push_back({"digits", "Bytes of 12 sizes x every position x all 256 values of that byte x 3 (thorough 8) patterns of the other bytes: text to value (lower, upper, mixed case; string and view) and value to text",
                 [T](auto& go) {
#define G(N) for (long long p = 0; p < N; ++p) for (long long k = 0; k < (T ? 8 : 3); ++k) go({N, p, k});
                     SIZES(G)
#undef G
                 },
                 [](const Ints& v, Run& r) {
#define G(N) if (v[0] == N) digits<N>(v[1], v[2], r);
                     SIZES(G)
#undef G
                 }});
    f.push_back({"lengths", "Bytes of 12 sizes x texts of every number of digits up to 2N+8 x 9 prefixes: accepted iff prefixed with 0x and at most 2N digits; digit pairs set the leading bytes, the others are 0; a refused text changes nothing",
                 [](auto& go) {
#define G(N) for (long long n = 0; n <= 2 * N + 8; ++n) for (long long p = 0; p < 9; ++p) go({N, n, p});
                     SIZES(G)
#undef G
                 },
                 [](const Ints& v, Run& r) {
#define G(N) if (v[0] == N) lengths<N>(v[1], v[2], r);
                     SIZES(G)
#undef G
                 }});
    f.push_back({"words", "all texts of up to 5 (thorough 7) characters over {0 x f A g NUL 0x80 0xff space}, as Bytes1..4, Bitlist of limits 1, 7, 8, 2048, Bitvector 1, 4, 8, 9, 16: texts in the right form are read exactly, texts without 0x or (bits) of odd length or too long or with padding bits set or (bit lists) without delimiter or beyond the limit are refused; never a memory error, and the object can be printed, hashed and set again",
                 [T](auto& go) {
                     long long n = 1;
                     for (long long l = 0; l <= (T ? 7 : 5); ++l, n *= long(sizeof ALPHA)) for (long long i = 0; i < n; i += 64) go({l, i, std::min(n, i + 64)});
                 },
                 [](const Ints& v, Run& r) {
                     for (long long i = v[1]; i < v[2]; ++i) {
                         auto s = word(v[0], i);
                         word_bytes<1>(s, r); word_bytes<2>(s, r); word_bytes<3>(s, r); word_bytes<4>(s, r);
                         check_bitlist(s, 1, r, false); check_bitlist(s, 7, r, false); check_bitlist(s, 8, r, false); check_bitlist(s, 2048, r, false);
                         check_bitvector<1>(s, r); check_bitvector<4>(s, r); check_bitvector<8>(s, r); check_bitvector<9>(s, r); check_bitvector<16>(s, r);
                         r.distinct(mc::fnv(s.data(), s.size(), 141414));
                         r.count(c_evals, 13);
                     }
                     r.desc("%lld texts of %lld characters, the first %s", v[2] - v[1], v[0], show(word(v[0], v[1])).c_str());
                 }});
    f.push_back({"prefixed", "0x followed by all texts of up to 4 (thorough 5) characters over the same alphabet, same checks",
                 [T](auto& go) {
                     long long n = 1;
                     for (long long l = 0; l <= (T ? 5 : 4); ++l, n *= long(sizeof ALPHA)) for (long long i = 0; i < n; i += 64) go({l, i, std::min(n, i + 64)});
                 },
                 [](const Ints& v, Run& r) {
                     for (long long i = v[1]; i < v[2]; ++i) {
                         auto s = "0x" + word(v[0], i);
                         word_bytes<1>(s, r); word_bytes<2>(s, r); word_bytes<3>(s, r); word_bytes<4>(s, r);
                         check_bitlist(s, 1, r, false); check_bitlist(s, 7, r, false); check_bitlist(s, 8, r, false); check_bitlist(s, 2048, r, false);
                         check_bitvector<1>(s, r); check_bitvector<4>(s, r); check_bitvector<8>(s, r); check_bitvector<9>(s, r); check_bitvector<16>(s, r);
                         r.distinct(mc::fnv(s.data(), s.size(), 141414));
                         r.count(c_evals, 13);
                     }
                     r.desc("%lld texts of 0x and %lld characters, the first %s", v[2] - v[1], v[0], show("0x" + word(v[0], v[1])).c_str());
                 }});
    f.push_back({"bytes2", "Bitlist and Bitvector: 0x and every one or two byte value, limits 1..17, 2048; and every two byte value after 0, 1, 30 bytes of pattern",
                 [](auto& go) {
                     for (long long a = 0; a < 256; ++a) for (long long l : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 2048}) for (long long k : {0, 1, 2, 31}) go({a, l, k});
                 },
                 [](const Ints& v, Run& r) {
                     ref::Bytes b;
                     long long k = v[2];
                     if (k == 0) {
                         b = {u8(v[0])};
                         check_bitlist(ref::hexstr(b), std::size_t(v[1]), r, true);
                         if (v[1] == 1) { auto s = ref::hexstr(b); check_bitvector<1>(s, r); check_bitvector<3>(s, r); check_bitvector<7>(s, r); check_bitvector<8>(s, r); }
                     } else {
                         for (long long j = 1; j < k; ++j) b.push_back(pat(5, std::size_t(j)));
                         b.push_back(u8(v[0]));
                         b.push_back(0);
                         for (int x = 0; x < 256; ++x) {
                             b.back() = u8(x);
                             check_bitlist(ref::hexstr(b, x % 2), std::size_t(v[1]), r, true);
                             if (v[1] == 1 && k == 1) { auto s = ref::hexstr(b); check_bitvector<9>(s, r); check_bitvector<15>(s, r); check_bitvector<16>(s, r); }
                         }
                     }
                     r.distinct(mc::hash_ints(v, 1444));
                     r.desc("%lld bytes and 0x%02llx and a last byte of every value, limit %lld", k ? k - 1 : 0, v[0], v[1]);
                 }});
    f.push_back({"huge", "a text of 2^31 digits (thorough also two less), as Bitlist of limit 2048, Bitvector of 9 bits and Bytes of 32: refused, and the object stays usable",
                 [T](auto& go) { go({0}); if (T) go({-2}); },
                 [](const Ints& c, Run& r) {
                     r.desc("a text of 2^31 + %lld digits", c[0]);
                     r.distinct(mc::hash_ints(c, 1555));
                     string s((1ull << 31) + 2 + std::size_t(c[0]), '1');
                     s[1] = 'x'; s[0] = '0';
                     auto refused = [&](bool thrown, const char* what) { r.count(c_evals); if (!thrown) r.fail("%s from a text of %zu characters was accepted", what, s.size()); };
                     {
                         Bitlist b(2048);
                         refused(throws([&] { b.from_hexstring(s); }), "Bitlist(2048)");
                         b.from_hexstring("0x0f");
                         if (b.to_string() != "0x0f") r.fail("Bitlist(2048) is unusable after a text of %zu characters", s.size());
                     }
                     {
                         Bitvector<9> b;
                         refused(throws([&] { b.from_hexstring(s); }), "Bitvector9");
                         b.from_hexstring("0x0f01");
                         if (b.to_string() != "0x0f01") r.fail("Bitvector9 is unusable after a text of %zu characters", s.size());
                     }
                     Bytes<32> b;
                     refused(throws([&] { b.from_string(s); }), "Bytes32");
                 }, 1200});
    f.push_back({"bits", "Bitvector of 16 sizes, all pairs of set bits and the complements; Bitlist of every length up to 300 (thorough 2048) with 4 contents, at the limit and above it",
                 [T](auto& go) {
#define G(N) for (long long i = 0; i < N; i += (N > 64 && !T ? 5 : 1)) for (long long j = i; j < N; j += (N > 64 && !T ? 7 : 1)) go({N, i, j});
                     BVS(G)
#undef G
                     for (long long n = 0; n <= (T ? 2048 : 300); ++n) for (long long k = 0; k < 4; ++k) go({0, n, k});
                 },
                 [](const Ints& v, Run& r) {
#define G(N) if (v[0] == N) bv_bits<N>(v[1], v[2], r);
                     BVS(G)
#undef G
                     if (v[0]) return;
                     ref::Value x;
                     for (long long j = 0; j < v[1]; ++j) x.bits.push_back(v[2] == 0 ? false : v[2] == 1 ? true : v[2] == 2 ? j % 2 : pat(u64(v[1]), std::size_t(j)) & 1);
                     auto s = ref::hexstr(ref::encode(*ref::bitlist(4096), x), v[2] == 3);
                     check_bitlist(s, 2048, r, true);
                     if (v[1]) check_bitlist(s, std::size_t(v[1]), r, true);
                     if (v[1] > 1) check_bitlist(s, std::size_t(v[1] - 1), r, true);
                     r.distinct(mc::hash_ints(v, 1445));
                     r.desc("Bitlist of %lld bits, content %lld", v[1], v[2]);
                 }});
    f.push_back({"helpers", "hextoint of all 256 characters; strhex2int of all texts of up to 4 (thorough 5) hex digits of both cases, and every single digit in texts of up to 7 digits",
                 [T](auto& go) { go({0}); for (long long l = 1; l <= (T ? 5 : 4); ++l) for (long long a = 0; a < 22; ++a) go({l, a}); go({-1}); },
                 [](const Ints& v, Run& r) {
                     const string D = "0123456789abcdefABCDEF";
                     if (v[0] == 0) {
                         for (int c = 0; c < 256; ++c) {
                             int got = helpers::hextoint(char(c));
                             auto at = c ? D.find(char(c)) : string::npos;
                             int want = at == string::npos ? 0 : at > 15 ? int(at) - 6 : int(at);
                             if (at != string::npos ? got != want : (got < 0 || got > 15)) r.fail("hextoint(%d) is %d", c, got);
                         }
                         r.desc("hextoint of all characters");
                     } else if (v[0] > 0) {
                         long long n = 1;
                         for (long long i = 1; i < v[0]; ++i) n *= 22;
                         for (long long k = 0; k < n; ++k) {
                             string s(1, D[std::size_t(v[1])]);
                             long long q = k;
                             for (long long i = 1; i < v[0]; ++i) { s += D[std::size_t(q % 22)]; q /= 22; }
                             int got = helpers::strhex2int(s);
                             if (got != int(std::strtol(s.c_str(), nullptr, 16))) r.fail("strhex2int(%s) is %d", s.c_str(), got);
                         }
                         r.desc("strhex2int of all %lld digit texts that begin with %c", v[0], D[std::size_t(v[1])]);
                     } else
                         for (std::size_t len = 1; len <= 7; ++len)
                             for (std::size_t p = 0; p < len; ++p)
                                 for (char c : D) {
                                     for (char o : {'0', 'f', '7'}) {
                                         string s(len, o);
                                         s[p] = c;
                                         if (helpers::strhex2int(s) != int(std::strtol(s.c_str(), nullptr, 16))) r.fail("strhex2int(%s) is %d", s.c_str(), helpers::strhex2int(s));
                                     }
                                 }
                     r.distinct(mc::hash_ints(v, 1446));
                 }});
    return f;
}

// ---------------------------------------------------------------- C15
template <class T> vector<T> boundary() {
    vector<T> o;
    const int W = int(sizeof(T)) * 8;
    if (W <= 16) { for (u64 x = 0; x < (1ull << W); ++x) o.push_back(T(x)); return o; }
    std::set<u64> s;
    for (int a = 0; a < W; ++a)
        for (int b = 0; b <= W; ++b) {
            u64 x = (1ull << a) | (b < W ? 1ull << b : 0);
            for (u64 y : {x, x - 1, x + 1, ~x, u64(0) - x}) s.insert(u64(T(y)));
        }
    for (int k = 0; k < W / 8; ++k) for (u64 v = 0; v < 256; ++v) { s.insert(v << (8 * k)); s.insert(u64(T(~(v << (8 * k))))); s.insert(u64(T((0x0102030405060708ull & ~(255ull << (8 * k))) | v << (8 * k)))); }
    for (u64 x : s) o.push_back(T(x));
    return o;
}
template <std::size_t N, class T> void from_int(Run& r) {
    for (T x : boundary<T>()) {
        Bytes<N> b(x);
        u64 u = u64(x);
        for (std::size_t j = 0; j < N; ++j) {
            u8 want = j < sizeof(T) ? u8(u >> (8 * j)) : 0;
            if (b[j] != want) r.fail("Bytes%zu(%zu-byte integer %llu) is %s", N, sizeof(T), (unsigned long long)u, b.to_string().c_str());
        }
        if constexpr (N == sizeof(T) && std::unsigned_integral<T>)
            if (b.template to_integer_little_endian<T>() != x) r.fail("Bytes%zu(%llu).to_integer_little_endian is %llu", N, (unsigned long long)u, (unsigned long long)b.template to_integer_little_endian<T>());
        r.count(c_evals);
    }
    r.distinct(mc::hash_ints({1500, (long long)N, (long long)sizeof(T), std::signed_integral<T>}));
    r.desc("Bytes%zu from integers of %zu bytes", N, sizeof(T));
}
template <std::size_t N, std::size_t M> void pairwise(Run& r) {
    std::array<u8, N> a;
    std::array<u8, M> b;
    for (int k = 0; k < 3; ++k) {
        for (std::size_t j = 0; j < N; ++j) a[j] = k == 1 ? 0xff : k == 2 ? 0 : pat(1, j);
        for (std::size_t j = 0; j < M; ++j) b[j] = k == 1 ? 0 : k == 2 ? 0 : pat(k == 0 ? 2 : 1, j);
        const Bytes<N> x{a};
        const Bytes<M> y{b};
        auto s = x + y;
        vector<u8> want(a.begin(), a.end());
        want.insert(want.end(), b.begin(), b.end());
        if (vec(s.to_array()) != want || s.size() != N + M) r.fail("Bytes%zu + Bytes%zu is %s", N, M, s.to_string().c_str());
        if (x.to_array() != a || y.to_array() != b) r.fail("Bytes%zu + Bytes%zu changed an operand", N, M);
        if constexpr (N != M)
            if ((x == y) || !(x != y) || (y == x)) r.fail("Bytes%zu == Bytes%zu", N, M);
        vector<u8> vb(b.begin(), b.end());
        bool same = vec(a) == vb;
        if ((x == vb) != same || (x != vb) == same) r.fail("Bytes%zu %s == vector of %s is wrong", N, x.to_string().c_str(), ref::hexstr(vb).c_str());
        r.count(c_evals);
    }
    r.distinct(mc::hash_ints({1501, (long long)N, (long long)M}));
    r.desc("Bytes%zu + Bytes%zu, and comparisons across sizes", N, M);
}
#define CSIZES(F) F(1) F(2) F(4) F(8) F(20) F(31) F(32) F(33) F(48) F(64)
template <std::size_t N> void pairwise_all(Run& r, long long m) {
#define G(M) if (m == M) pairwise<N, M>(r);
    CSIZES(G)
#undef G
}
template <std::size_t N> void bytewise(long long p, Run& r) {
    auto at = std::size_t(p);
    std::array<u8, N> a, b;
    for (int x = 0; x < 256; ++x)
        for (int y = 0; y < 256; ++y) {
            for (std::size_t j = 0; j < N; ++j) { a[j] = pat(3, j); b[j] = pat(4, j); }
            a[at] = u8(x);
            b[at] = u8(y);
            Bytes<N> u{a};
            const Bytes<N> v{b};
            u ^= v;
            for (std::size_t j = 0; j < N; ++j) if (u[j] != (a[j] ^ b[j])) r.fail("Bytes%zu: %s ^= %s gives %s", N, mc::hex(a.data(), N).c_str(), mc::hex(b.data(), N).c_str(), u.to_string().c_str());
            if (v.to_array() != b) r.fail("Bytes%zu ^= changed its right operand", N);
            // equality is decided by this byte
            for (std::size_t j = 0; j < N; ++j) b[j] = a[j];
            b[at] = u8(y);
            const Bytes<N> l{a}, m{b};
            vector<u8> vm(b.begin(), b.end());
            if ((l == m) != (x == y) || (l != m) != (x != y) || (l == vm) != (x == y)) r.fail("Bytes%zu: equality of values that differ in byte %zu (%d, %d) is wrong", N, at, x, y);
        }
    {
        Bytes<N> u{a};
        u ^= u;
        for (std::size_t j = 0; j < N; ++j) if (u[j]) r.fail("Bytes%zu: x ^= x gives %s", N, u.to_string().c_str());
        vector<u8> va(a.begin(), a.end()), shorter(a.begin(), a.end() - 1), longer = va;
        longer.push_back(0);
        const Bytes<N> w{a};
        if (!(w == va) || w == shorter || w == longer) r.fail("Bytes%zu == vector of another length", N);
        Bytes<N> c{a};
        vector<u8> conv = c;
        if (conv != va) r.fail("Bytes%zu as vector is %s", N, ref::hexstr(conv).c_str());
        for (int k = 0; k < 4; ++k) {  // every way to write one byte changes that byte only
            Bytes<N> d{a};
            u8 n = u8(~a[at]);
            if (k == 0) d[at] = n;
            else if (k == 1) d.data()[at] = n;
            else if (k == 2) *(d.begin() + p) = n;
            else *(d.end() - (std::ptrdiff_t(N) - p)) = n;
            auto want = a;
            want[at] = n;
            if (d.to_array() != want) r.fail("Bytes%zu: writing byte %zu (way %d) gives %s", N, at, k, d.to_string().c_str());
            const Bytes<N> e{d};
            if (e[at] != n || *(e.cbegin() + p) != n || vec(e.to_array()) != vector<u8>(e.cbegin(), e.cend())) r.fail("Bytes%zu: reading byte %zu is wrong", N, at);
            if (e.serialize() != vec(want)) r.fail("Bytes%zu: serialized as %s", N, ref::hexstr(e.serialize()).c_str());
        }
        if (Bytes<N>::size() != N || Bytes<N>::ssz_size != N || w.get_ssz_size() != N) r.fail("Bytes%zu: size", N);
    }
    r.count(c_evals, 65536);
    r.distinct(mc::hash_ints({1502, (long long)N, p}));
    r.desc("Bytes%zu, byte %lld of both operands takes all values: xor, equality, element access", N, p);
}
template <class T> void le_helper(Run& r) {
    alignas(16) u8 buf[64];
    for (std::size_t off = 0; off < 16; ++off)
        for (T x : boundary<T>()) {
            memset(buf, 0xEE, sizeof buf);
            for (std::size_t j = 0; j < sizeof(T); ++j) buf[off + j] = u8(u64(x) >> (8 * j));
            if (helpers::to_integer_little_endian<T>(buf + off) != x) r.fail("to_integer_little_endian of %zu bytes at offset %zu: %llu is read as %llu", sizeof(T), off, (unsigned long long)x, (unsigned long long)helpers::to_integer_little_endian<T>(buf + off));
        }
    r.distinct(mc::hash_ints({1503, (long long)sizeof(T)}));
    r.desc("to_integer_little_endian of %zu bytes at 16 alignments", sizeof(T));
}
const vector<u64>& edge() {
    static const vector<u64> e = [] {
        std::set<u64> s;
        for (int k = 0; k < 64; ++k) for (long long d = -2; d <= 2; ++d) s.insert((1ull << k) + u64(d));
        for (u64 x = 0; x < 16; ++x) s.insert(x);
        s.insert(MAX);
        return vector<u64>(s.begin(), s.end());
    }();
    return e;
}
void slots(u64 a, Run& r) {
    for (u64 b : edge()) {
        const Slot x{a}, y{b};
#define CMP(op) if ((x op y) != (a op b)) r.fail("Slot(%llu) " #op " Slot(%llu) is wrong", (unsigned long long)a, (unsigned long long)b);
        CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
#undef CMP
        if (u64(x + y) != a + b || u64(x - y) != a - b || u64(x * y) != a * b) r.fail("arithmetic of Slot(%llu), Slot(%llu) is wrong", (unsigned long long)a, (unsigned long long)b);
        if (b && (u64(x / y) != a / b || u64(x % y) != a % b)) r.fail("division of Slot(%llu) by Slot(%llu) is wrong", (unsigned long long)a, (unsigned long long)b);
        Slot z = x;
        z += b;
        if (std::uint64_t(z) != a + b) r.fail("Slot(%llu) += %llu gives %llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)std::uint64_t(z));
        z -= b;
        if (std::uint64_t(z) != a || !(z == x)) r.fail("Slot(%llu) += %llu, -= is not the same again", (unsigned long long)a, (unsigned long long)b);
        z = b;
        if (std::uint64_t(z) != b || std::uint64_t(x) != a) r.fail("assignment of %llu to a Slot", (unsigned long long)b);
        std::uint64_t& ref_ = z;
        ref_ = a;
        if (!(z == x)) r.fail("writing %llu through a Slot's reference", (unsigned long long)a);
        r.count(c_evals);
    }
    Slot s{a};
    ++s;
    if (std::uint64_t(s) != a + 1) r.fail("++Slot(%llu)", (unsigned long long)a);
    const Slot c{a};
    Bytes8 by = c;
    vector<u8> want;
    for (int j = 0; j < 8; ++j) want.push_back(u8(a >> (8 * j)));
    if (vec(by.to_array()) != want) r.fail("Slot(%llu) as Bytes8 is %s", (unsigned long long)a, by.to_string().c_str());
    if (c.serialize() != want) r.fail("Slot(%llu) is serialized as %s", (unsigned long long)a, ref::hexstr(c.serialize()).c_str());
    ref::Chunk chunk{};
    std::copy(want.begin(), want.end(), chunk.begin());
    if (c.hash_tree_root() != chunk) r.fail("root of Slot(%llu)", (unsigned long long)a);
    r.distinct(mc::hash_ints({1504, (long long)a}));
    r.desc("Slot(%llu) against %zu others", (unsigned long long)a, edge().size());
}
void booleans(Run& r) {
    for (int a = 0; a < 2; ++a)
        for (int b = 0; b < 2; ++b) {
            const Boolean x{bool(a)}, y{bool(b)};
            if ((x == y) != (a == b) || (x != y) != (a != b) || bool(x) != bool(a) || (!x) != !a || (x && y) != (a && b) || (x || y) != (a || b)) r.fail("Boolean(%d), Boolean(%d)", a, b);
            Boolean z = x;
            z = y;
            if (!(z == y)) r.fail("assignment of Boolean(%d)", b);
            z = bool(a);
            if (!(z == x)) r.fail("assignment of %d to a Boolean", a);
            bool& w = z;
            w = bool(b);
            if (!(z == y)) r.fail("writing %d through a Boolean's reference", b);
            const Boolean c{bool(a)};
            Bytes1 by = c;
            if (by[0] != a || c.serialize() != vector<u8>{u8(a)} || c.hash_tree_root() != ref::Chunk{u8(a)}) r.fail("Boolean(%d) as bytes", a);
        }
    r.distinct(1505);
    r.desc("all pairs of Booleans");
}
vector<Family> c15() {
    vector<Family> f;
    f.push_back({"from-int", "Bytes of 7 sizes from integers of every width that fits: all values of 8 and 16 bits, every pair of bits +-1, complement, negation and every value of every byte for 32 and 64 bits; signed types on their non-negative values; and back",
                 [](auto& go) { for (long long n : {1, 2, 4, 8, 20, 32, 48}) for (long long w = 0; w < 8; ++w) if (n >= (1 << (w % 4))) go({n, w}); },
                 [](const Ints& v, Run& r) {
#define W1(N) if (v[0] == N) { if (v[1] == 0) from_int<N, u8>(r); }
#define W2(N) W1(N) if (v[0] == N) { if (v[1] == 1) from_int<N, u16>(r); }
#define W4(N) W2(N) if (v[0] == N) { if (v[1] == 2) from_int<N, u32>(r); }
#define W8(N) W4(N) if (v[0] == N) { if (v[1] == 3) from_int<N, u64>(r); if (v[1] == 6) pos<N, int>(r); if (v[1] == 7) pos<N, long long>(r); }
                     auto signedcase = [&]<std::size_t N, class S>() {
                         for (S x : boundary<S>()) if (x >= 0) { Bytes<N> b(x); for (std::size_t j = 0; j < N; ++j) if (b[j] != (j < sizeof(S) ? u8(u64(x) >> (8 * j)) : 0)) r.fail("Bytes%zu(%lld) is %s", N, (long long)x, b.to_string().c_str()); }
                     };
#undef W8
#define W8(N) W4(N) if (v[0] == N) { if (v[1] == 3) from_int<N, u64>(r); if (v[1] == 6) signedcase.template operator()<N, int>(); if (v[1] == 7) signedcase.template operator()<N, long long>(); }
                     W1(1) W2(2) W4(4) W8(8) W8(20) W8(32) W8(48)
                 }});
    f.push_back({"concat", "10 x 10 sizes of Bytes, 3 contents: concatenation, comparison across sizes and with vectors",
                 [](auto& go) { for (long long n : {1, 2, 4, 8, 20, 31, 32, 33, 48, 64}) for (long long m : {1, 2, 4, 8, 20, 31, 32, 33, 48, 64}) go({n, m}); },
                 [](const Ints& v, Run& r) {
#define G(N) if (v[0] == N) pairwise_all<N>(r, v[1]);
                     CSIZES(G)
#undef G
                 }});
    f.push_back({"bytewise", "Bytes of 12 sizes, every position, all 65536 pairs of values there: xor, equality, element access of every kind, conversion to vector",
                 [](auto& go) { for (long long n : {1, 2, 3, 4, 5, 7, 8, 9, 20, 32, 48, 96}) for (long long p = 0; p < n; ++p) go({n, p}); },
                 [](const Ints& v, Run& r) {
#define G(N) if (v[0] == N) bytewise<N>(v[1], r);
                     G(1) G(2) G(3) G(4) G(5) G(7) G(8) G(9) G(20) G(32) G(48) G(96)
#undef G
                 }});
    f.push_back({"little-endian", "to_integer_little_endian of 1, 2, 4, 8 bytes at 16 alignments, the same values", [](auto& go) { for (long long w = 0; w < 4; ++w) go({w}); },
                 [](const Ints& v, Run& r) { if (v[0] == 0) le_helper<u8>(r); if (v[0] == 1) le_helper<u16>(r); if (v[0] == 2) le_helper<u32>(r); if (v[0] == 3) le_helper<u64>(r); }});
    f.push_back({"slots", "all ordered pairs of 2^k+d, |d| <= 2, 0..15 and the maximum: comparisons, arithmetic, assignment, writes through the reference, byte form, root", [](auto& go) { for (u64 a : edge()) go({(long long)a}); },
                 [](const Ints& v, Run& r) { slots(u64(v[0]), r); }});
    f.push_back({"booleans", "all pairs of truth values", [](auto& go) { go({0}); }, [](const Ints&, Run& r) { booleans(r); }});
    return f;
}

// ---------------------------------------------------------------- C16
struct V16 { u64 bal; bool slashed; u64 elig, act, exit, wd; };
Validator validator(const V16& x, int fill) {
    vector<u8> b;
    for (int j = 0; j < 80; ++j) b.push_back(fill == 0 ? 0 : fill == 1 ? 0xff : pat(16, std::size_t(j)));
    auto p = [&](u64 q) { for (int j = 0; j < 8; ++j) b.push_back(u8(q >> (8 * j))); };
    p(x.bal);
    b.push_back(x.slashed);
    p(x.elig); p(x.act); p(x.exit); p(x.wd);
    Validator v;
    if (!v.deserialize(b.cbegin(), b.cend())) throw mc::Violation{"a validator could not be decoded"};
    return v;
}
void judge(const V16& x, const Validator& v, u64 epoch, Run& r) {
    const Epoch e{epoch};
    auto say = [&](const char* what, bool got) {
        r.fail("%s at epoch %llu is %d for balance %llu slashed %d eligibility %llu activation %llu exit %llu withdrawable %llu", what, (unsigned long long)epoch, got, (unsigned long long)x.bal, x.slashed,
               (unsigned long long)x.elig, (unsigned long long)x.act, (unsigned long long)x.exit, (unsigned long long)x.wd);
    };
    bool a = v.is_active(e), q = v.is_eligible_for_activation_queue(), s = v.is_slashable(e);
    if (a != (x.act <= epoch && epoch < x.exit)) say("is_active", a);
    if (q != (x.elig == MAX && x.bal == 32000000000ull)) say("is_eligible_for_activation_queue", q);
    if (s != (!x.slashed && x.act <= epoch && epoch < x.wd)) say("is_slashable", s);
    r.count(c_evals, 3);
}
vector<Family> c16() {
    vector<Family> f;
    static vector<u64> D = mc::opt.thorough() ? vector<u64>{0, 1, 2, 3, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 63) - 1, 1ull << 63, MAX - 1, MAX}
                                              : vector<u64>{0, 1, 2, 3, 1ull << 32, (1ull << 32) + 1, 1ull << 63, MAX - 1, MAX};
    static const vector<u64> B{0, 1, 31999999999ull, 32000000000ull, 32000000001ull, 32000000000ull & 0xffffffffull, 32000000000ull + (1ull << 32), MAX};
    const int n = int(D.size());
    f.push_back({"epochs", "activation, exit, withdrawable, eligibility and query epoch each over a set of 9 (thorough 12) values around 0, 2^32, 2^63 and the maximum x slashed x 8 balances around the maximum: the three predicates against the specification's formulas",
                 [n](auto& go) { for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) go({a, b, c}); },
                 [n](const Ints& v, Run& r) {
                     for (int q = 0; q < n; ++q)
                         for (int sl = 0; sl < 2; ++sl)
                             for (auto bal : B) {
                                 V16 x{bal, bool(sl), D[std::size_t(q)], D[std::size_t(v[0])], D[std::size_t(v[1])], D[std::size_t(v[2])]};
                                 const auto val = validator(x, (q + sl) % 3);
                                 auto before = val.serialize();
                                 for (int e = 0; e < n; ++e) judge(x, val, D[std::size_t(e)], r);
                                 if (val.serialize() != before) r.fail("a predicate changed the validator");
                             }
                     r.distinct(mc::hash_ints(v, 1600));
                     r.desc("activation %llu, exit %llu, withdrawable %llu with all eligibilities, balances and query epochs", (unsigned long long)D[std::size_t(v[0])], (unsigned long long)D[std::size_t(v[1])], (unsigned long long)D[std::size_t(v[2])]);
                 }});
    f.push_back({"single-bits", "balance and eligibility one bit away from the values looked for; every pair of epochs that differ in one bit; neighbours of every power of two",
                 [](auto& go) { for (int k = 0; k < 64; ++k) go({k}); },
                 [](const Ints& v, Run& r) {
                     u64 bit = 1ull << v[0];
                     for (u64 bal : {32000000000ull, 32000000000ull ^ bit}) for (u64 el : {MAX, MAX ^ bit, bit}) { V16 x{bal, false, el, 5, 9, 12}; judge(x, validator(x, 2), 7, r); }
                     for (u64 base : {0ull, 1ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, ~0ull, ~0ull >> 1})
                         for (int j = 0; j < 64; ++j) {
                             u64 p = base ^ bit, q = base ^ (1ull << j);
                             for (u64 e : {p, q, base, p - 1, p + 1, q - 1, q + 1}) for (int sl = 0; sl < 2; ++sl) { V16 x{32000000000ull, bool(sl), p, p, q, base}; judge(x, validator(x, 1), e, r); V16 y{32000000000ull, bool(sl), p, base, q, p}; judge(y, validator(y, 0), e, r); }
                         }
                     r.distinct(mc::hash_ints(v, 1601));
                     r.desc("values that differ in bit %lld", v[0]);
                 }});
    f.push_back({"grid", "epochs 0..7 (thorough 0..11) for activation, exit, withdrawable and query, slashed or not", [](auto& go) { for (int a = 0; a < (mc::opt.thorough() ? 12 : 8); ++a) go({a}); },
                 [](const Ints& v, Run& r) {
                     u64 n = mc::opt.thorough() ? 12 : 8;
                     for (u64 b = 0; b < n; ++b) for (u64 c = 0; c < n; ++c) for (int sl = 0; sl < 2; ++sl) { V16 x{32000000000ull, bool(sl), MAX, u64(v[0]), b, c}; const auto val = validator(x, 2); for (u64 e = 0; e < n; ++e) judge(x, val, e, r); }
                     r.distinct(mc::hash_ints(v, 1602));
                     r.desc("activation epoch %lld with all small exits, withdrawals and queries", v[0]);
                 }});
    return f;
}

// ---------------------------------------------------------------- C17
vector<u8> attdata(u64 src, u64 tgt, int flip) {
    // flip: bit of the other fields that is inverted, -1 none
    vector<u8> b;
    auto p = [&](u64 q) { for (int j = 0; j < 8; ++j) b.push_back(u8(q >> (8 * j))); };
    auto root = [&](int k) { for (int j = 0; j < 32; ++j) b.push_back(pat(u64(170 + k), std::size_t(j))); };
    p(1234567); p(3); root(0); p(src); root(1); p(tgt); root(2);
    if (flip >= 0) {
        // bytes 0..47 slot, index, root; 56..87 source root; 96..127 target root
        int at = flip / 8;
        at = at < 48 ? at : at < 80 ? at + 8 : at + 16;
        b[std::size_t(at)] ^= u8(1 << (flip % 8));
    }
    return b;
}
AttestationData att(const vector<u8>& b) {
    AttestationData d;
    if (!d.deserialize(b.cbegin(), b.cend())) throw mc::Violation{"attestation data could not be decoded"};
    return d;
}
void slashable(u64 s1, u64 t1, u64 s2, u64 t2, int flip, Run& r) {
    auto b1 = attdata(s1, t1, -1), b2 = attdata(s2, t2, flip);
    const auto d1 = att(b1), d2 = att(b2);
    bool want = (b1 != b2 && t1 == t2) || (s1 < s2 && t2 < t1), got = d1.is_slashable(d2);
    if (got != want) r.fail("is_slashable of source %llu target %llu against source %llu target %llu%s is %d", (unsigned long long)s1, (unsigned long long)t1, (unsigned long long)s2, (unsigned long long)t2, flip >= 0 ? (", bit " + std::to_string(flip) + " of the other fields different").c_str() : "", got);
    bool want2 = (b1 != b2 && t1 == t2) || (s2 < s1 && t1 < t2), got2 = d2.is_slashable(d1);
    if (got2 != want2) r.fail("is_slashable of source %llu target %llu against source %llu target %llu%s (reversed) is %d", (unsigned long long)s2, (unsigned long long)t2, (unsigned long long)s1, (unsigned long long)t1, flip >= 0 ? ", another field different" : "", got2);
    r.count(c_evals, 2);
}
const BeaconState& state() { static const BeaconState* s = new BeaconState; return *s; }
void indexed(const vector<u64>& x, Run& r, const char* how) {
    vector<u8> b;
    ref::put32(b, 4 + 128 + 96);
    auto d = attdata(1, 2, -1);
    b.insert(b.end(), d.begin(), d.end());
    for (int j = 0; j < 96; ++j) b.push_back(pat(177, std::size_t(j)));
    for (u64 q : x) for (int j = 0; j < 8; ++j) b.push_back(u8(q >> (8 * j)));
    IndexedAttestation a;
    if (!a.deserialize(b.cbegin(), b.cend())) r.fail("an indexed attestation of %zu indices could not be decoded", x.size());
    const auto& c = a;
    bool want = !x.empty();
    for (std::size_t i = 1; i < x.size(); ++i) if (x[i - 1] >= x[i]) want = false;
    bool got = c.is_valid(state());
    if (got != want) {
        string s;
        for (std::size_t i = 0; i < x.size() && i < 12; ++i) s += " " + std::to_string(x[i]);
        r.fail("is_valid with %zu indices%s%s (%s) is %d", x.size(), s.c_str(), x.size() > 12 ? " ..." : "", how, got);
    }
    if (c.serialize() != b) r.fail("is_valid changed the attestation");
    r.count(c_evals);
}
vector<Family> c17() {
    vector<Family> f;
    static const vector<u64> E = mc::opt.thorough() ? vector<u64>{0, 1, 2, 3, 4, 1ull << 32, (1ull << 32) + 1, 1ull << 63, MAX - 1, MAX} : vector<u64>{0, 1, 2, 3, 1ull << 32, 1ull << 63, MAX};
    const int n = int(E.size());
    f.push_back({"epochs", "source and target epochs of both attestations over {0,1,2,3,2^32,2^63,max} (thorough 10 values); the other fields the same, or different in one of 5 places; both directions",
                 [n](auto& go) { for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) go({a, b, c}); },
                 [n](const Ints& v, Run& r) {
                     for (int d = 0; d < n; ++d) for (int flip : {-1, 0, 64, 128, 48 * 8, 80 * 8 + 31 * 8}) slashable(E[std::size_t(v[0])], E[std::size_t(v[1])], E[std::size_t(v[2])], E[std::size_t(d)], flip, r);
                     r.distinct(mc::hash_ints(v, 1700));
                     r.desc("source %llu target %llu against source %llu", (unsigned long long)E[std::size_t(v[0])], (unsigned long long)E[std::size_t(v[1])], (unsigned long long)E[std::size_t(v[2])]);
                 }});
    f.push_back({"every-bit", "two attestations with the same target (and with surrounding epochs) that differ in exactly one of the 896 bits of the other fields",
                 [](auto& go) { for (int k = -1; k < 896; ++k) go({k}); },
                 [](const Ints& v, Run& r) {
                     for (u64 s1 = 0; s1 < 3; ++s1) for (u64 t1 = 0; t1 < 3; ++t1) for (u64 s2 = 0; s2 < 3; ++s2) for (u64 t2 = 0; t2 < 3; ++t2) slashable(s1, t1, s2, t2, int(v[0]), r);
                     slashable(7, MAX, 7, MAX, int(v[0]), r);
                     r.distinct(mc::hash_ints(v, 1701));
                     r.desc("other fields differ in bit %lld", v[0]);
                 }});
    f.push_back({"epoch-bits", "epochs that differ in single bits: every pair of bits, from 4 base values", [](auto& go) { for (int a = 0; a < 64; ++a) for (int b = 0; b < 64; ++b) go({a, b}); },
                 [](const Ints& v, Run& r) {
                     u64 p = 1ull << v[0], q = 1ull << v[1];
                     for (u64 base : {0ull, ~0ull, 0x5555555555555555ull, 1ull << 32}) {
                         slashable(base, base ^ q, base ^ p, base, -1, r);
                         slashable(base ^ p, base, base, base ^ q, 3, r);
                         slashable(base ^ p, base, base, base, -1, r);
                         slashable(base ^ p, base ^ q, base ^ q, base ^ p, -1, r);
                         slashable(base, base ^ q, base, base ^ p, -1, r);
                     }
                     r.distinct(mc::hash_ints(v, 1702));
                     r.desc("source epochs differ in bit %lld, target epochs in bit %lld", v[0], v[1]);
                 }});
    static const vector<u64> A{0, 1, 2, 1ull << 32, MAX};
    f.push_back({"indices", "all index sequences of up to 6 (thorough 8) indices over {0,1,2,2^32,max}: valid iff not empty and strictly increasing",
                 [](auto& go) { long long n = 1; for (int l = 0; l <= (mc::opt.thorough() ? 8 : 6); ++l, n *= 5) for (long long i = 0; i < n; i += 25) go({l, i, std::min(n, i + 25)}); },
                 [](const Ints& v, Run& r) {
                     for (long long i = v[1]; i < v[2]; ++i) {
                         vector<u64> x;
                         long long k = i;
                         for (long long j = 0; j < v[0]; ++j) { x.push_back(A[std::size_t(k % 5)]); k /= 5; }
                         indexed(x, r, "short");
                     }
                     r.distinct(mc::hash_ints(v, 1703));
                     r.desc("%lld sequences of %lld indices", v[2] - v[1], v[0]);
                 }});
    f.push_back({"long-indices", "increasing sequences of every length up to 70 and around 128, 256, 512, 1024, 2048 (thorough every length up to 300), with no defect, and with two neighbours equal or exchanged, or one index replaced by the first or the last, at every position",
                 [](auto& go) {
                     std::set<long long> L;
                     for (long long l = 1; l <= (mc::opt.thorough() ? 300 : 70); ++l) L.insert(l);
                     for (long long p : {128, 256, 512, 1024, 2048}) for (long long d : {-1, 0, 1}) if (p + d <= 2048) L.insert(p + d);
                     for (auto l : L) for (long long i = 0; i < l; ++i) go({l, i});
                 },
                 [](const Ints& v, Run& r) {
                     vector<u64> x;
                     for (long long j = 0; j < v[0]; ++j) x.push_back(u64(j) * 3 + 1);
                     auto i = std::size_t(v[1]);
                     if (i == 0) indexed(x, r, "increasing");
                     if (i + 1 < x.size()) {
                         auto y = x;
                         y[i + 1] = y[i];
                         indexed(y, r, "equal neighbours");
                         y = x;
                         std::swap(y[i], y[i + 1]);
                         indexed(y, r, "exchanged neighbours");
                     }
                     auto y = x;
                     y[i] = x[0];
                     indexed(y, r, "the first again");
                     y[i] = x.back();
                     indexed(y, r, "the last again");
                     y[i] = 0;
                     indexed(y, r, "0");
                     r.distinct(mc::hash_ints(v, 1704));
                     r.desc("%lld indices, a defect at position %lld", v[0], v[1]);
                 }});
    return f;
}

// ---------------------------------------------------------------- C18
template <class T> void root_ok(T x, Run& r) {
    T s = helpers::integer_squareroot<T>(x);
    using W = unsigned __int128;
    if (W(s) * s > x || (W(s) + 1) * (W(s) + 1) <= x) r.fail("integer_squareroot(%llu) of %zu bytes is %llu", (unsigned long long)x, sizeof(T), (unsigned long long)s);
}
template <class T> void log_ok(T x, Run& r) {
    int l = helpers::log2ceil(x);
    // the least l with 2^l >= x; 0 for 0
    int want = 0;
    while (want < 64 && (unsigned __int128)1 << want < x) ++want;
    if (l != want) r.fail("log2ceil(%llu) of %zu bytes is %d", (unsigned long long)x, sizeof(T), l);
}
vector<Family> c18() {
    vector<Family> f;
    f.push_back({"sqrt-8-16", "all values of 8 and 16 bits", [](auto& go) { for (int k = 0; k < 256; ++k) go({k}); },
                 [](const Ints& v, Run& r) {
                     root_ok<u8>(u8(v[0]), r);
                     for (u32 x = 0; x < 256; ++x) root_ok<u16>(u16(v[0] * 256 + x), r);
                     r.distinct(mc::hash_ints(v, 1800));
                     r.desc("integer_squareroot of %lld..%lld", v[0] * 256, v[0] * 256 + 255);
                 }});
    f.push_back({"sqrt-32", "all 2^32 values of 32 bits", [](auto& go) { for (long long k = 0; k < 4096; ++k) go({k}); },
                 [](const Ints& v, Run& r) {
                     u64 k = 0;
                     for (u64 x = u64(v[0]) << 20; x < u64(v[0] + 1) << 20; ++x) {
                         u32 s = helpers::integer_squareroot<u32>(u32(x));
                         // the expected root grows with x
                         if (x == u64(v[0]) << 20) { while ((k + 1) * (k + 1) <= x) ++k; }
                         else if ((k + 1) * (k + 1) == x) ++k;
                         if (s != k) r.fail("integer_squareroot(%llu) of 4 bytes is %u", (unsigned long long)x, s);
                     }
                     r.count(c_evals, 1 << 20);
                     r.distinct(mc::hash_ints(v, 1801));
                     r.desc("integer_squareroot of the 2^20 values from %llu", (unsigned long long)(u64(v[0]) << 20));
                 }, 30});
    f.push_back({"sqrt-64", "64 bits: k*k+d for |d| <= 2, for all k up to 2^22 (thorough 2^28), the last 2^20 (thorough 2^26) k below 2^32, around every power of two, every 2^j multiple; all 2^20 (thorough 2^26) largest values",
                 [](auto& go) { long long n = mc::opt.thorough() ? 1 << 12 : 1 << 6; for (long long k = 0; k < n; ++k) go({0, k}); long long m = mc::opt.thorough() ? 1 << 10 : 1 << 4; for (long long k = 0; k < m; ++k) { go({1, k}); go({2, k}); } for (long long j = 0; j < 33; ++j) go({3, j}); },
                 [](const Ints& v, Run& r) {
                     const u64 B = 1 << 16;
                     auto around = [&](u64 k) {
                         if (k > 0xffffffffull) return;
                         u64 q = k * k;
                         for (long long d = -2; d <= 2; ++d) {
                             u64 x = q + u64(d);
                             if ((d < 0 && x > q) || (d > 0 && x < q)) continue;
                             u64 s = helpers::integer_squareroot<u64>(x);
                             using W = unsigned __int128;
                             if (W(s) * s > x || (W(s) + 1) * (W(s) + 1) <= x) r.fail("integer_squareroot(%llu) of 8 bytes is %llu", (unsigned long long)x, (unsigned long long)s);
                         }
                         r.count(c_evals, 5);
                     };
                     if (v[0] == 0) for (u64 k = u64(v[1]) * B; k < u64(v[1] + 1) * B; ++k) around(k);
                     if (v[0] == 1) for (u64 k = u64(v[1]) * B; k < u64(v[1] + 1) * B; ++k) around(0xffffffffull - k);
                     if (v[0] == 2) for (u64 k = u64(v[1]) * B; k < u64(v[1] + 1) * B; ++k) root_ok<u64>(MAX - k, r);
                     if (v[0] == 3) {
                         for (u64 m = 0; m < 4096; ++m) { around((1ull << v[1]) + m); around((1ull << v[1]) - m); around(m << v[1]); }
                         for (int j = 0; j < 64; ++j) for (u64 d = 0; d < 64; ++d) { root_ok<u64>((1ull << j) + d, r); root_ok<u64>((1ull << j) - d, r); root_ok<u64>((1ull << j) + (d << (v[1])), r); }
                     }
                     r.distinct(mc::hash_ints(v, 1802));
                     r.desc("64-bit squares, group %lld part %lld", v[0], v[1]);
                 }, 30});
    f.push_back({"log2-32", "log2ceil of all 2^32 values of 32 bits (thorough; quick: every value below 2^24 and above 2^32-2^24, and 2^k +- 2^16)",
                 [](auto& go) { for (long long k = 0; k < 4096; ++k) { u64 lo = u64(k) << 20; bool near = false; for (int j = 20; j < 32; ++j) if ((1ull << j) >> 20 == u64(k) || ((1ull << j) - 1) >> 20 == u64(k)) near = true; (void)lo; if (mc::opt.thorough() || k < 16 || k >= 4080 || near) go({k}); } },
                 [](const Ints& v, Run& r) {
                     u64 lo = u64(v[0]) << 20;
                     int want = 0;
                     for (u64 x = lo; x < lo + (1 << 20); ++x) {
                         while ((1ull << want) < x) ++want;
                         if (helpers::log2ceil(u32(x)) != want) r.fail("log2ceil(%llu) of 4 bytes is %d", (unsigned long long)x, helpers::log2ceil(u32(x)));
                     }
                     r.count(c_evals, 1 << 20);
                     r.distinct(mc::hash_ints(v, 1803));
                     r.desc("log2ceil of the 2^20 values from %llu", (unsigned long long)lo);
                 }, 30});
    f.push_back({"log2-64", "64 bits: 2^k +- d for d up to 4096, sums of two powers of two +-1, unsigned long and unsigned long long", [](auto& go) { for (int k = 0; k < 64; ++k) go({k}); },
                 [](const Ints& v, Run& r) {
                     u64 b = 1ull << v[0];
                     for (u64 d = 0; d <= 4096; ++d) for (u64 x : {b + d, b - d}) { log_ok<unsigned long>(x, r); log_ok<unsigned long long>(x, r); }
                     for (int j = 0; j < 64; ++j) for (u64 x : {b | 1ull << j, (b | 1ull << j) - 1, (b | 1ull << j) + 1, ~(b | 1ull << j), b - (1ull << j)}) { log_ok<unsigned long>(x, r); log_ok<u32>(u32(x), r); }
                     r.count(c_evals, 4 * 4097);
                     r.distinct(mc::hash_ints(v, 1804));
                     r.desc("log2ceil around 2^%lld", v[0]);
                 }});
    return f;
}

// ---------------------------------------------------------------- C21
struct Const { const char* name; string got, want; };
template <class T> string text(const T& x) {
    if constexpr (std::is_convertible_v<const T&, u64>) return std::to_string(u64(x));
    else return x.to_string();
}
template <std::size_t N> string text(const Bytes<N>& x) { return x.to_string(); }
string text(const Slot& x) { return std::to_string(std::uint64_t(x)); }
const vector<Const>& constants_table() {
    using namespace constants;
#ifdef MC_MAINNET
#define P(minimal, mainnet) (mainnet)
#else
#define P(minimal, mainnet) (minimal)
#endif
#define K(name, v) {#name, text(name), std::to_string(u64(v))}
#define S(name, v) {#name, text(name), (v)}
    static const vector<Const> t{
        // constants of the specification
        K(GENESIS_SLOT, 0), K(GENESIS_EPOCH, 0), K(FAR_FUTURE_EPOCH, MAX), K(BASE_REWARDS_PER_EPOCH, 4), K(DEPOSIT_CONTRACT_TREE_DEPTH, 32), K(JUSTIFICATION_BITS_LENGTH, 4),
        K(MAX_EFFECTIVE_BALANCE, 32000000000ull), K(MIN_DEPOSIT_AMOUNT, 1000000000ull), K(EFFECTIVE_BALANCE_INCREMENT, 1000000000ull), K(MIN_ATTESTATION_INCLUSION_DELAY, 1),
        K(BYTES_PER_CHUNK, 32), K(BYTES_PER_LENGTH_OFFSET, 4), K(BITS_PER_BYTE, 8),
        // configuration
        K(MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, P(64, 16384)), K(MIN_GENESIS_TIME, P(1578009600, 1606824000)), S(GENESIS_FORK_VERSION, string(P("0x00000001", "0x00000000"))), K(GENESIS_DELAY, P(300, 604800)),
        K(SECONDS_PER_SLOT, P(6, 12)), K(SECONDS_PER_ETH1_BLOCK, 14), K(MIN_VALIDATOR_WITHDRAWABILITY_DELAY, 256), K(SHARD_COMMITTEE_PERIOD, P(64, 256)), K(ETH1_FOLLOW_DISTANCE, P(16, 2048)),
        K(EJECTION_BALANCE, 16000000000ull), K(MIN_PER_EPOCH_CHURN_LIMIT, 4), K(CHURN_LIMIT_QUOTIENT, 65536), K(DEPOSIT_CHAIN_ID, P(5, 1)), K(DEPOSIT_NETWORK_ID, P(5, 1)),
        S(DEPOSIT_CONTRACT_ADDRESS, string(P("0x1234567890123456789012345678901234567890", "0x00000000219ab540356cbb839cbe05303d7705fa"))),
        // preset
        K(MAX_COMMITTEES_PER_SLOT, P(4, 64)), K(TARGET_COMMITTEE_SIZE, P(4, 128)), K(MAX_VALIDATORS_PER_COMMITTEE, 2048), K(SHUFFLE_ROUND_COUNT, P(10, 90)), K(HYSTERESIS_QUOTIENT, 4),
        K(HYSTERESIS_DOWNWARD_MULTIPLIER, 1), K(HYSTERESIS_UPWARD_MULTIPLIER, 5), K(SAFE_SLOTS_TO_UPDATE_JUSTIFIED, P(2, 8)), K(SLOTS_PER_EPOCH, P(8, 32)), K(MIN_SEED_LOOKAHEAD, 1), K(MAX_SEED_LOOKAHEAD, 4),
        K(EPOCHS_PER_ETH1_VOTING_PERIOD, P(4, 64)), K(SLOTS_PER_HISTORICAL_ROOT, P(64, 8192)), K(MIN_EPOCHS_TO_INACTIVITY_PENALTY, 4), K(EPOCHS_PER_HISTORICAL_VECTOR, P(64, 65536)),
        K(EPOCHS_PER_SLASHINGS_VECTOR, P(64, 8192)), K(HISTORICAL_ROOTS_LIMIT, 16777216), K(VALIDATOR_REGISTRY_LIMIT, 1099511627776ull), K(BASE_REWARD_FACTOR, 64), K(WHISTLEBLOWER_REWARD_QUOTIENT, 512),
        K(PROPOSER_REWARD_QUOTIENT, 8), K(INACTIVITY_PENALTY_QUOTIENT, P(33554432, 67108864)), K(MIN_SLASHING_PENALTY_QUOTIENT, P(64, 128)), K(PROPORTIONAL_SLASHING_MULTIPLIER, P(2, 1)),
        K(MAX_PROPOSER_SLASHINGS, 16), K(MAX_ATTESTER_SLASHINGS, 2), K(MAX_ATTESTATIONS, 128), K(MAX_DEPOSITS, 16), K(MAX_VOLUNTARY_EXITS, 16),
    };
    return t;
}
vector<Family> c21() {
    vector<Family> f;
    f.push_back({"constants", "every constant of the preset, of the configuration and of config/constants.hpp, as compiled, against the phase0 tables", [](auto& go) { for (std::size_t i = 0; i < constants_table().size(); ++i) go({(long long)i}); },
                 [](const Ints& v, Run& r) {
                     auto& c = constants_table()[std::size_t(v[0])];
                     if (c.got != c.want) r.fail("%s is %s, want %s", c.name, c.got.c_str(), c.want.c_str());
                     r.desc("%s = %s", c.name, c.got.c_str());
                     r.distinct(mc::hash_ints(v, 2100));
                     r.count(c_evals);
                 }});
    return f;
}
}  // namespace

int main(int argc, char** argv) {
    c_evals = mc::counter("operations_judged");
    return mc::main(argc, argv, []() -> vector<Family> {
        auto& p = mc::opt.prop;
        if (p == "C14") return c14();
        if (p == "C15") return c15();
        if (p == "C16") return c16();
        if (p == "C17") return c17();
        if (p == "C18") return c18();
        if (p == "C21") return c21();
        if (p == "C24") {
            vector<Family> f;
            auto take = [&](const char* of, vector<Family> g, std::initializer_list<const char*> leave) {
                for (auto& x : g) {
                    bool skip = false;
                    for (auto l : leave) skip |= x.name == l;
                    x.name = string(of) + x.name;
                    if (!skip) f.push_back(x);
                }
            };
            take("text-", c14(), {"digits", "words", "bytes2", "huge"});
            take("values-", c15(), {});
            take("validators-", c16(), {});
            take("attestations-", c17(), {"long-indices"});
            take("numbers-", c18(), {"sqrt-32", "log2-32"});
            return f;
        }
        return {};
    });
}
