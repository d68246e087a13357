// Deterministic enumeration of values of a type.
#pragma once
#include <algorithm>
#include <set>

#include "mc.hpp"
#include "ref_ssz.hpp"

namespace gen {
using namespace ref;
// Every list or bitlist of the schema is a length slot, in depth first order; the ones inside list elements are nested.
struct LenSlot { const Type* t; bool nested; };
inline void slots(const Type& t, bool nested, std::vector<LenSlot>& o) {
    switch (t.k) {
        case Type::BITLIST: o.push_back({&t, nested}); break;
        case Type::LIST: o.push_back({&t, nested}); slots(*t.elem, true, o); break;
        case Type::VECTOR: slots(*t.elem, true, o); break;
        case Type::CONT: for (auto& f : t.fields) slots(*f.second, nested, o); break;
        default: break;
    }
}
inline std::vector<LenSlot> slots(const Type& t) { std::vector<LenSlot> o; slots(t, false, o); return o; }

enum Fill { ZEROS, PATTERN, ONES, EQUAL, PATTERN2, NFILL };
struct Spec {
    std::vector<long long> len;  // per slot
    int mode = 0;                // nested slots: 0 the same in every element, 1 grows with the element, 2 every other element empty
    int fill = PATTERN;
};
struct Builder {
    const Spec& s;
    std::uint64_t ctr = 0;
    std::uint8_t byte(std::size_t j) {
        switch (s.fill) {
            case ZEROS: return 0;
            case ONES: return 0xff;
            case EQUAL: return std::uint8_t(j * 7 + 1);
            case PATTERN2: return std::uint8_t(mc::mix(ctr++ ^ 0xabcdef12345ull) >> 24);
            default: return std::uint8_t(mc::mix(ctr++) >> 32);
        }
    }
    std::uint64_t len(std::size_t slot, const Type& t, bool nested, std::size_t e) {
        auto l = std::uint64_t(s.len[slot]);
        if (!nested) return l;
        if (s.mode == 1) { l += e; if (l > t.n) l = l % (t.n + 1); }
        if (s.mode == 2 && e % 2) l = 0;
        return l;
    }
    Value build(const Type& t, std::size_t& slot, bool nested, std::size_t e) {
        Value v;
        switch (t.k) {
            case Type::BOOL: v.b.push_back(byte(0) & 1); break;
            case Type::U64: case Type::BYTES: for (std::size_t j = 0; j < t.fixed; ++j) v.b.push_back(byte(j)); break;
            case Type::BITVEC: for (std::size_t j = 0; j < t.n; ++j) v.bits.push_back(byte(j) & 1); break;
            case Type::BITLIST: {
                auto l = len(slot, t, nested, e);
                ++slot;
                for (std::size_t j = 0; j < l; ++j) v.bits.push_back(byte(j) & 1);
                break;
            }
            case Type::VECTOR: {
                std::size_t s0 = slot;
                for (std::size_t j = 0; j < t.n; ++j) { slot = s0; v.kids.push_back(build(*t.elem, slot, true, j)); }
                break;
            }
            case Type::LIST: {
                auto l = len(slot, t, nested, e);
                std::size_t s0 = ++slot;
                v.kids.reserve(l);
                for (std::size_t j = 0; j < l; ++j) { slot = s0; v.kids.push_back(build(*t.elem, slot, true, j)); }
                slot = s0;
                std::vector<LenSlot> in;
                slots(*t.elem, true, in);
                slot = s0 + in.size();
                break;
            }
            case Type::CONT: for (auto& f : t.fields) v.kids.push_back(build(*f.second, slot, nested, e)); break;
        }
        return v;
    }
};
inline Value build(const Type& t, const Spec& s) { Builder b{s}; std::size_t slot = 0; return b.build(t, slot, false, 0); }

// approximate encoded size of one element, for caps
inline std::size_t elem_size(const Type& t) {
    if (t.k == Type::BITLIST) return 1;
    if (t.elem->fixed) return t.elem->fixed;
    return encode(*t.elem, zero(*t.elem)).size() + 4;
}
// Lengths tried for a slot: all up to `dense`, then around powers of two and the limit, up to `cap` bytes; beyond the limit if over > 0.
inline std::vector<long long> lengths(const Type& t, long long dense, std::size_t cap, int over = 0) {
    std::set<long long> s;
    long long lim = t.n > (1ull << 40) ? (1ll << 40) : (long long)t.n;
    auto es = t.k == Type::BITLIST ? 1 : elem_size(t);
    auto ok = [&](long long x) { return x >= 0 && x <= lim + over && std::size_t(x) * es <= cap; };
    for (long long i = 0; i <= dense; ++i) if (ok(i)) s.insert(i);
    for (long long p = 64; p <= (1 << 21); p *= 2)
        for (long long d = -2; d <= 2; ++d) if (ok(p + d)) s.insert(p + d);
    for (long long d = -2; d <= over; ++d) if (ok(lim + d)) s.insert(lim + d);
    return {s.begin(), s.end()};
}
}  // namespace gen
