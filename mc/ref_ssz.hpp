// Independent reference of the phase0 SSZ rules: schema trees, values, encoding, strict decoding, roots, YAML form.
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "ref_sha.hpp"

namespace ref {
using Bytes = std::vector<std::uint8_t>;
struct Type {
    enum Kind { U64, BOOL, BYTES, BITVEC, BITLIST, VECTOR, LIST, CONT } k = U64;
    std::uint64_t n = 0;  // length or limit
    const Type* elem = nullptr;
    std::vector<std::pair<std::string, const Type*>> fields;
    std::string name;
    std::uint64_t fixed = 0;  // encoded size, 0 if variable
    bool basic() const { return k == U64 || k == BOOL; }
};
struct Value {
    Bytes b;           // U64 (8 bytes little endian), BOOL (1), BYTES
    std::vector<bool> bits;
    std::vector<Value> kids;
    bool operator==(const Value&) const = default;
};

inline const Type* mk(Type t) {
    switch (t.k) {
        case Type::U64: t.fixed = 8; break;
        case Type::BOOL: t.fixed = 1; break;
        case Type::BYTES: t.fixed = t.n; break;
        case Type::BITVEC: t.fixed = (t.n + 7) / 8; break;
        case Type::BITLIST: case Type::LIST: t.fixed = 0; break;
        case Type::VECTOR: t.fixed = t.elem->fixed * t.n; break;
        case Type::CONT: {
            t.fixed = 0;
            bool var = false;
            for (auto& f : t.fields) { if (!f.second->fixed) var = true; t.fixed += f.second->fixed; }
            if (var) t.fixed = 0;
        }
    }
    return new Type(std::move(t));
}
inline const Type* u64() { static auto t = mk({.k = Type::U64, .name = "uint64"}); return t; }
inline const Type* boolean() { static auto t = mk({.k = Type::BOOL, .name = "boolean"}); return t; }
inline const Type* bytes(std::uint64_t n) { return mk({.k = Type::BYTES, .n = n, .name = "Bytes" + std::to_string(n)}); }
inline const Type* bitvec(std::uint64_t n) { return mk({.k = Type::BITVEC, .n = n, .name = "Bitvector" + std::to_string(n)}); }
inline const Type* bitlist(std::uint64_t n) { return mk({.k = Type::BITLIST, .n = n, .name = "Bitlist" + std::to_string(n)}); }
inline const Type* vec(const Type* e, std::uint64_t n) { return mk({.k = Type::VECTOR, .n = n, .elem = e, .name = "Vector[" + e->name + "," + std::to_string(n) + "]"}); }
inline const Type* list(const Type* e, std::uint64_t n) { return mk({.k = Type::LIST, .n = n, .elem = e, .name = "List[" + e->name + "," + std::to_string(n) + "]"}); }
inline const Type* cont(std::string name, std::vector<std::pair<std::string, const Type*>> f) { return mk({.k = Type::CONT, .fields = std::move(f), .name = std::move(name)}); }

inline std::uint64_t u64_of(const Value& v) { std::uint64_t x = 0; for (int i = 7; i >= 0; --i) x = x << 8 | v.b[std::size_t(i)]; return x; }
inline Value u64v(std::uint64_t x) { Value v; for (int i = 0; i < 8; ++i) v.b.push_back(std::uint8_t(x >> (8 * i))); return v; }
inline void put32(Bytes& o, std::uint64_t x) { for (int i = 0; i < 4; ++i) o.push_back(std::uint8_t(x >> (8 * i))); }

inline Value zero(const Type& t) {
    Value v;
    switch (t.k) {
        case Type::U64: case Type::BOOL: case Type::BYTES: v.b.assign(t.fixed, 0); break;
        case Type::BITVEC: v.bits.assign(t.n, false); break;
        case Type::VECTOR: v.kids.assign(t.n, zero(*t.elem)); break;
        case Type::CONT: for (auto& f : t.fields) v.kids.push_back(zero(*f.second)); break;
        default: break;
    }
    return v;
}

inline void encode_to(const Type& t, const Value& v, Bytes& o);
inline Bytes encode(const Type& t, const Value& v) { Bytes o; encode_to(t, v, o); return o; }
template <class It>
void encode_parts(const std::vector<const Type*>& ts, It vals, Bytes& o) {
    std::size_t fixed = 0;
    for (auto t : ts) fixed += t->fixed ? t->fixed : 4;
    Bytes tail;
    for (std::size_t i = 0; i < ts.size(); ++i) {
        if (ts[i]->fixed) encode_to(*ts[i], vals[i], o);
        else {
            put32(o, fixed + tail.size());
            encode_to(*ts[i], vals[i], tail);
        }
    }
    o.insert(o.end(), tail.begin(), tail.end());
}
inline void encode_to(const Type& t, const Value& v, Bytes& o) {
    switch (t.k) {
        case Type::U64: case Type::BOOL: case Type::BYTES: o.insert(o.end(), v.b.begin(), v.b.end()); break;
        case Type::BITVEC: case Type::BITLIST: {
            Bytes b((v.bits.size() + (t.k == Type::BITLIST ? 8 : 7)) / 8, 0);
            for (std::size_t i = 0; i < v.bits.size(); ++i) if (v.bits[i]) b[i / 8] = std::uint8_t(b[i / 8] | 1 << (i % 8));
            if (t.k == Type::BITLIST) b[v.bits.size() / 8] = std::uint8_t(b[v.bits.size() / 8] | 1 << (v.bits.size() % 8));
            o.insert(o.end(), b.begin(), b.end());
            break;
        }
        case Type::VECTOR: case Type::LIST: encode_parts(std::vector<const Type*>(v.kids.size(), t.elem), v.kids.begin(), o); break;
        case Type::CONT: {
            std::vector<const Type*> ts;
            for (auto& f : t.fields) ts.push_back(f.second);
            encode_parts(ts, v.kids.begin(), o);
        }
    }
}

inline std::uint64_t get32(const std::uint8_t* p) { return std::uint64_t(p[0]) | std::uint64_t(p[1]) << 8 | std::uint64_t(p[2]) << 16 | std::uint64_t(p[3]) << 24; }
// Strict: accepts exactly the canonical encodings of values within their limits.
inline bool decode_to(const Type& t, const std::uint8_t* p, std::size_t n, Value& v) {
    v = Value{};
    switch (t.k) {
        case Type::U64: case Type::BYTES:
            if (n != t.fixed) return false;
            v.b.assign(p, p + n);
            return true;
        case Type::BOOL:
            if (n != 1 || p[0] > 1) return false;
            v.b.assign(p, p + n);
            return true;
        case Type::BITVEC:
            if (n != t.fixed) return false;
            for (std::size_t i = 0; i < 8 * n; ++i) {
                bool b = p[i / 8] >> (i % 8) & 1;
                if (i < t.n) v.bits.push_back(b);
                else if (b) return false;
            }
            return true;
        case Type::BITLIST: {
            if (n == 0 || p[n - 1] == 0) return false;
            int top = 7;
            while (!(p[n - 1] >> top & 1)) --top;
            std::size_t len = 8 * (n - 1) + std::size_t(top);
            if (len > t.n) return false;
            for (std::size_t i = 0; i < len; ++i) v.bits.push_back(p[i / 8] >> (i % 8) & 1);
            return true;
        }
        case Type::VECTOR: case Type::LIST: {
            if (t.elem->fixed) {
                if (n % t.elem->fixed) return false;
                std::size_t c = n / t.elem->fixed;
                if (t.k == Type::VECTOR ? c != t.n : c > t.n) return false;
                v.kids.resize(c);
                for (std::size_t i = 0; i < c; ++i) if (!decode_to(*t.elem, p + i * t.elem->fixed, t.elem->fixed, v.kids[i])) return false;
                return true;
            }
            if (n == 0) return t.k == Type::LIST;
            if (n < 4) return false;
            std::uint64_t first = get32(p);
            if (first == 0 || first % 4 || first > n) return false;
            std::uint64_t c = first / 4;
            if (t.k == Type::VECTOR ? c != t.n : c > t.n) return false;
            v.kids.resize(c);
            std::uint64_t a = first;
            for (std::uint64_t i = 0; i < c; ++i) {
                std::uint64_t e = i + 1 < c ? get32(p + 4 * (i + 1)) : n;
                if (e < a || e > n) return false;
                if (!decode_to(*t.elem, p + a, e - a, v.kids[i])) return false;
                a = e;
            }
            return true;
        }
        case Type::CONT: {
            std::size_t fixed = 0;
            for (auto& f : t.fields) fixed += f.second->fixed ? f.second->fixed : 4;
            if (n < fixed) return false;
            if (t.fixed && n != fixed) return false;
            std::vector<std::uint64_t> offs;
            std::size_t at = 0;
            for (auto& f : t.fields) { if (!f.second->fixed) offs.push_back(get32(p + at)); at += f.second->fixed ? f.second->fixed : 4; }
            offs.push_back(n);
            if (offs.size() > 1 && offs[0] != fixed) return false;
            for (std::size_t i = 0; i + 1 < offs.size(); ++i) if (offs[i] > offs[i + 1]) return false;
            at = 0;
            std::size_t k = 0;
            v.kids.resize(t.fields.size());
            for (std::size_t i = 0; i < t.fields.size(); ++i) {
                auto& ft = *t.fields[i].second;
                if (ft.fixed) {
                    if (!decode_to(ft, p + at, ft.fixed, v.kids[i])) return false;
                    at += ft.fixed;
                } else {
                    if (!decode_to(ft, p + offs[k], offs[k + 1] - offs[k], v.kids[i])) return false;
                    ++k;
                    at += 4;
                }
            }
            return true;
        }
    }
    return false;
}
inline std::optional<Value> decode(const Type& t, const Bytes& b) {
    Value v;
    static const std::uint8_t none[1] = {0};
    if (!decode_to(t, b.empty() ? none : b.data(), b.size(), v)) return std::nullopt;
    return v;
}

inline Chunk root(const Type& t, const Value& v) {
    switch (t.k) {
        case Type::U64: case Type::BOOL: case Type::BYTES: return merkle_root(pack(v.b), 0);
        case Type::BITVEC: return merkle_root(pack(encode(t, v)), (t.n + 255) / 256);
        case Type::BITLIST: {
            Bytes b((v.bits.size() + 7) / 8, 0);
            for (std::size_t i = 0; i < v.bits.size(); ++i) if (v.bits[i]) b[i / 8] = std::uint8_t(b[i / 8] | 1 << (i % 8));
            return mix_length(merkle_root(pack(b), (t.n + 255) / 256), v.bits.size());
        }
        case Type::VECTOR: case Type::LIST: {
            std::vector<Chunk> c;
            std::uint64_t limit = t.n;
            if (t.elem->basic()) {
                c = pack(encode(t, v));
                limit = t.n / 32 * t.elem->fixed + (t.n % 32 * t.elem->fixed + 31) / 32;
            } else
                for (auto& k : v.kids) c.push_back(root(*t.elem, k));
            auto r = merkle_root(c, limit);
            return t.k == Type::LIST ? mix_length(r, v.kids.size()) : r;
        }
        case Type::CONT: {
            std::vector<Chunk> c;
            for (std::size_t i = 0; i < v.kids.size(); ++i) c.push_back(root(*t.fields[i].second, v.kids[i]));
            return merkle_root(c, 0);
        }
    }
    return {};
}

// YAML as a plain tree
struct Y {
    enum K { SCALAR, SEQ, MAP } k = SCALAR;
    std::string s;
    std::vector<Y> seq;             // elements, or the values of a map
    std::vector<std::string> keys;  // of a map
    void add(const std::string& key, Y v) { keys.push_back(key); seq.push_back(std::move(v)); }
};
inline std::string hexstr(const Bytes& b, bool upper = false) {
    const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    std::string o = "0x";
    for (auto c : b) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
inline Y yaml(const Type& t, const Value& v) {
    Y y;
    switch (t.k) {
        case Type::U64: y.s = std::to_string(u64_of(v)); break;
        case Type::BOOL: y.s = v.b[0] ? "true" : "false"; break;
        case Type::BYTES: y.s = hexstr(v.b); break;
        case Type::BITVEC: case Type::BITLIST: y.s = hexstr(encode(t, v)); break;
        case Type::VECTOR: case Type::LIST:
            y.k = Y::SEQ;
            for (auto& k : v.kids) y.seq.push_back(yaml(*t.elem, k));
            break;
        case Type::CONT:
            y.k = Y::MAP;
            for (std::size_t i = 0; i < v.kids.size(); ++i) y.add(t.fields[i].first, yaml(*t.fields[i].second, v.kids[i]));
    }
    return y;
}
// flow style text; quote: put scalars in quotes
inline void yaml_text(const Y& y, std::string& o, bool quote) {
    switch (y.k) {
        case Y::SCALAR: if (quote && y.s.starts_with("0x")) o += "'" + y.s + "'"; else o += y.s; break;
        case Y::SEQ:
            o += "[";
            for (std::size_t i = 0; i < y.seq.size(); ++i) { if (i) o += ", "; yaml_text(y.seq[i], o, quote); }
            o += "]";
            break;
        case Y::MAP:
            o += "{";
            for (std::size_t i = 0; i < y.keys.size(); ++i) { if (i) o += ", "; o += y.keys[i] + ": "; yaml_text(y.seq[i], o, quote); }
            o += "}";
    }
}
// block style text
inline void yaml_block(const Y& y, std::string& o, int ind) {
    if (y.k == Y::SCALAR) { o += y.s + "\n"; return; }
    std::string pad(std::size_t(ind), ' ');
    for (std::size_t i = 0; i < y.seq.size(); ++i) {
        auto& e = y.seq[i];
        o += pad + (y.k == Y::SEQ ? "-" : y.keys[i] + ":");
        if (e.k == Y::SCALAR) o += " " + e.s + "\n";
        else if (e.seq.empty()) o += e.k == Y::SEQ ? " []\n" : " {}\n";
        else { o += "\n"; yaml_block(e, o, ind + 2); }
    }
}
}  // namespace ref
