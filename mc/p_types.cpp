// Properties of the types: C07 C08 C09 C10 C11 C12 C13 C19 C20.
#include <cstdio>
#include <map>

#include "alloc.hpp"
#include "gen.hpp"
#include "mc.hpp"
#include "ops.hpp"

using mc::Family;
using mc::Ints;
using mc::Run;
using ref::Bytes;
using ref::Type;
using ref::Value;
using Emit = std::function<void(const Ints&)>;

namespace {
std::vector<TypeOps> T;
#ifdef MC_MAINNET
constexpr bool mainnet = true;
#else
constexpr bool mainnet = false;
#endif
bool thorough() { return mc::opt.thorough(); }
bool is(const char* p) { return mc::opt.prop == p; }
long long spec_ints(Ints& c, const gen::Spec& s) {
    c.push_back(s.fill);
    c.push_back(s.mode);
    for (auto l : s.len) c.push_back(l);
    return 0;
}
gen::Spec spec_of(const Ints& c, std::size_t at) {
    gen::Spec s;
    s.fill = int(c[at]);
    s.mode = int(c[at + 1]);
    s.len.assign(c.begin() + long(at) + 2, c.end());
    return s;
}
std::string lens_text(const gen::Spec& s) {
    std::string o;
    for (auto l : s.len) o += (o.empty() ? "" : ",") + std::to_string(l);
    return "lengths [" + o + "] mode " + std::to_string(s.mode) + " fill " + std::to_string(s.fill);
}
bool huge(const TypeOps& t) { return mainnet && t.name == "BeaconState"; }
bool dup(const TypeOps& t) { return mainnet && t.name != "BeaconState"; }  // the same type in both presets

// Shapes of every type. `scale` lowers the effort: 0 full, 1 reduced, 2 small.
void gen_shapes(const Emit& emit, int scale, int over = 0) {
    bool th = thorough();
    for (std::size_t ti = 0; ti < T.size(); ++ti) {
        auto& t = T[ti];
        auto sl = gen::slots(*t.schema);
        std::size_t S = sl.size();
        auto put = [&](const gen::Spec& s) { Ints c{(long long)ti}; spec_ints(c, s); emit(c); };
        if (S == 0) {
            for (int f = 0; f < gen::NFILL; ++f) put({{}, 0, f});
            continue;
        }
        bool big = huge(t);
        if (is("C10") && mainnet && !th && !big) continue;
        if (big && is("C13") && !th) {
            for (long long x : {0ll, 2ll}) put({std::vector<long long>(S, x), 0, x ? gen::PATTERN : gen::ONES});
            continue;
        }
        // every combination of small lengths
        int base = big ? (th ? 3 : 2) : S >= 8 ? (scale ? 2 : 3) : S >= 4 ? (scale ? 3 : 4) : S == 1 ? 1 : 6;
        if (th && !big) base = S >= 8 ? 3 : base + 2;
        bool nested = false;
        for (auto& x : sl) nested |= x.nested;
        std::vector<long long> l(S, 0);
        for (;;) {
            bool fits = true;
            for (std::size_t i = 0; i < S; ++i) fits &= std::uint64_t(l[i]) <= sl[i].t->n + std::uint64_t(over);
            if (fits)
                for (int m = 0; m < (nested && !big ? 2 : 1); ++m) put({l, m, gen::PATTERN});
            std::size_t i = 0;
            while (i < S && ++l[i] == base) l[i++] = 0;
            if (i == S) break;
        }
        if (is("C13") && dup(t) && !th) continue;
        // one slot through its lengths, the others small
        for (std::size_t i = 0; i < S; ++i) {
            std::size_t cap = scale == 2 ? 40000 : scale == 1 ? 300000 : th ? 16000000 : sl[i].nested ? 70000 : 1200000;
            long long dense = big ? 3 : scale == 2 ? 20 : S == 1 && !sl[i].nested ? (th ? 2100 : sl[i].t->k == Type::BITLIST || sl[i].t->elem->basic() ? 1030 : 140) : th ? 600 : 80;
            if (is("C24") && !th) { cap = 2500; dense = 10; }
            if (big) cap = th ? 10000000 : is("C10") ? 20000 : 1200000;
            for (auto x : gen::lengths(*sl[i].t, dense, cap, over))
                for (long long others = 0; others <= (x > 600 ? 1 : 2); ++others) {
                    if (big && others == 2) continue;
                    std::vector<long long> v(S, others);
                    for (std::size_t j = 0; j < S; ++j) v[j] = std::min<long long>(v[j], (long long)sl[j].t->n);
                    v[i] = x;
                    // nothing nested is visible in an empty list
                    if (sl[i].nested && others == 0) continue;
                    for (int f : {int(gen::PATTERN), int(gen::EQUAL), int(gen::ZEROS), int(gen::ONES)}) {
                        if (f != gen::PATTERN && (big || others != 1) && S > 1) continue;
                        if (f != gen::PATTERN && x > 300 && scale) continue;
                        put({v, sl[i].nested && others == 2 ? 2 : 0, f});
                    }
                }
        }
    }
}

// lists long enough for every counter of 16 bits, of elements, chunks or bytes, to overflow
void gen_long(const Emit& emit) {
    for (std::size_t ti = 0; ti < T.size(); ++ti) {
        if (mainnet && !thorough() && (!huge(T[ti]) || is("C13"))) continue;
        auto sl = gen::slots(*T[ti].schema);
        for (std::size_t i = 0; i < sl.size(); ++i) {
            if (sl[i].nested) continue;
            auto& t = *sl[i].t;
            std::size_t es = t.k == Type::BITLIST ? 1 : gen::elem_size(t), most = is("C13") ? 700000 : thorough() ? 40000000 : 17000000;
            std::set<long long> all;
            for (long long x : {65537ll, 131075ll, 262147ll, 1048579ll, 2097155ll, 524301ll}) if (std::uint64_t(x) <= t.n && std::size_t(x) * es <= most) all.insert(x);
            long long k = 0;
            for (auto x : all) {
                ++k;
                if (is("C13") && (k > 1 || t.k == Type::BITLIST || !t.elem->basic()) && !thorough()) continue;
                std::vector<long long> v(sl.size(), 1);
                v[i] = x;
                Ints c{(long long)ti};
                spec_ints(c, {v, 0, gen::PATTERN});
                emit(c);
            }
        }
    }
}

void need(Run& r, bool ok, const char* what, const TypeOps& t) { if (!ok) r.fail("%s: %s", t.name.c_str(), what); }
Obj from_ssz(Run& r, const TypeOps& t, const Bytes& enc, int fill = 0xA5) {
    Obj o(t, fill);
    if (!o.deserialize(enc)) r.fail("%s: a valid encoding of %zu bytes was refused: %s", t.name.c_str(), enc.size(), mc::hex(enc.data(), enc.size()).c_str());
    return o;
}
Obj from_yaml(Run& r, const TypeOps& t, const std::string& text) {
    Obj o(t);
    bool ok = false;
    try { ok = o.yaml_load(text); } catch (const std::exception& x) { r.fail("%s: YAML of a valid value refused with %s: %.300s", t.name.c_str(), x.what(), text.c_str()); }
    if (!ok) r.fail("%s: YAML of a valid value refused: %.300s", t.name.c_str(), text.c_str());
    return o;
}
std::string ytext(const Type& t, const Value& v) { std::string s; ref::yaml_text(ref::yaml(t, v), s, true); return s; }
std::string diff(const Bytes& a, const Bytes& b) {
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return "expected " + std::to_string(a.size()) + " bytes, got " + std::to_string(b.size()) + ", first difference at " + std::to_string(i) + ": expected " + mc::hex(a.data() + i, a.size() - i, 16) + " got " + mc::hex(b.data() + i, b.size() - i, 16);
}
std::string hx(const ref::Chunk& c) { return mc::hex(c.data(), 32); }
std::size_t yaml_cap() { return thorough() ? 60000 : 9000; }

// C07: decoding inverts encoding, value by value.
void check_roundtrip(Run& r, const TypeOps& t, const Value& v) {
    Bytes enc = ref::encode(*t.schema, v);
    r.distinct(mc::fnv(enc.data(), enc.size(), mc::fnv(t.name.data(), t.name.size())));
    std::vector<Obj> from;
    from.push_back(from_ssz(r, t, enc));
    if (enc.size() <= yaml_cap() && v.kids.size() + v.b.size() + v.bits.size()) from.push_back(from_yaml(r, t, ytext(*t.schema, v)));
    for (auto& o : from) {
        Bytes s = o.serialize();
        if (s != enc) r.fail("%s: decoded from %s and encoded again the value changed: %s", t.name.c_str(), &o == &from[0] ? "its encoding" : "YAML", diff(enc, s).c_str());
        auto root = o.root();
        // into a new object, and out of the middle of a larger buffer into a used one
        Obj p(t, 0x00);
        need(r, p.deserialize(s), "its own encoding was refused", t);
        need(r, p == o, "decoding its own encoding gave a different value", t);
        need(r, !(p != o), "decoding its own encoding gave a value that compares unequal", t);
        Bytes s2 = p.serialize();
        if (s2 != s) r.fail("%s: encoding changed in a round trip: %s", t.name.c_str(), diff(s, s2).c_str());
        need(r, p.root() == root, "the root changed in a round trip", t);
        for (int k = 0; k < 2; ++k) {
            Bytes b(std::size_t(3 + 4 * k), std::uint8_t(k ? 0xff : 1));
            std::size_t from_ = b.size();
            b.insert(b.end(), s.begin(), s.end());
            std::size_t to = b.size();
            b.insert(b.end(), 9, std::uint8_t(k ? 0xff : 1));
            need(r, p.deserialize(b, from_, to), "its own encoding inside a larger buffer was refused", t);
            need(r, p == o && p.serialize() == s, "decoding from inside a larger buffer gave a different value", t);
        }
        need(r, o.serialize() == s && o.root() == root, "the object changed while it was only read", t);
    }
    if (from.size() == 2) need(r, from[0] == from[1], "the value decoded from YAML and the one from its encoding differ", t);
}
// C08
void check_encoding(Run& r, const TypeOps& t, const Value& v) {
    Bytes enc = ref::encode(*t.schema, v);
    r.distinct(mc::fnv(enc.data(), enc.size(), mc::fnv(t.name.data(), t.name.size())));
    auto one = [&](Obj& o, const char* how) {
        Bytes s = o.serialize();
        if (s != enc) r.fail("%s (%s): wrong encoding: %s", t.name.c_str(), how, diff(enc, s).c_str());
        if (o.ssz_size() != t.schema->fixed) r.fail("%s: reports %zu as its fixed size, not %llu", t.name.c_str(), o.ssz_size(), (unsigned long long)t.schema->fixed);
    };
    Obj a = from_ssz(r, t, enc);
    one(a, "decoded from SSZ");
    if (enc.size() <= yaml_cap()) { Obj b = from_yaml(r, t, ytext(*t.schema, v)); one(b, "decoded from YAML"); }
}
// C11
void check_root(Run& r, const TypeOps& t, const Value& v) {
    Bytes enc = ref::encode(*t.schema, v);
    r.distinct(mc::fnv(enc.data(), enc.size(), mc::fnv(t.name.data(), t.name.size())));
    auto want = ref::root(*t.schema, v);
    Obj a = from_ssz(r, t, enc);
    auto got = a.root();
    if (got != want) r.fail("%s: root of the decoded value is %s, not %s", t.name.c_str(), hx(got).c_str(), hx(want).c_str());
    if (enc.size() <= yaml_cap()) {
        Obj b = from_yaml(r, t, ytext(*t.schema, v));
        got = b.root();
        if (got != want) r.fail("%s: root of the value decoded from YAML is %s, not %s", t.name.c_str(), hx(got).c_str(), hx(want).c_str());
    }
    got = a.root();
    if (got != want) r.fail("%s: the second root of the same value is %s, not %s", t.name.c_str(), hx(got).c_str(), hx(want).c_str());
}
// C13
void same_tree(Run& r, const TypeOps& t, const ref::Y& want, const ref::Y& got, const std::string& path) {
    if (want.k != got.k) r.fail("%s: YAML node kind differs at %s", t.name.c_str(), path.c_str());
    if (want.k == ref::Y::SCALAR) {
        if (want.s != got.s) r.fail("%s: YAML at %s is '%s', not '%s'", t.name.c_str(), path.c_str(), got.s.c_str(), want.s.c_str());
        return;
    }
    if (want.seq.size() != got.seq.size()) r.fail("%s: YAML at %s has %zu entries, not %zu", t.name.c_str(), path.c_str(), got.seq.size(), want.seq.size());
    for (std::size_t i = 0; i < want.seq.size(); ++i) {
        if (want.k == ref::Y::SEQ) { same_tree(r, t, want.seq[i], got.seq[i], path + "/" + std::to_string(i)); continue; }
        std::size_t j = 0;
        while (j < got.keys.size() && got.keys[j] != want.keys[i]) ++j;
        if (j == got.keys.size()) r.fail("%s: YAML at %s has no '%s'", t.name.c_str(), path.c_str(), want.keys[i].c_str());
        same_tree(r, t, want.seq[i], got.seq[j], path + "/" + want.keys[i]);
    }
}
void check_yaml(Run& r, const TypeOps& t, const Value& v) {
    Bytes enc = ref::encode(*t.schema, v);
    r.distinct(mc::fnv(enc.data(), enc.size(), mc::fnv(t.name.data(), t.name.size())));
    auto want = ref::yaml(*t.schema, v);
    Obj a = from_ssz(r, t, enc);
    same_tree(r, t, want, a.yaml_tree(), "");
    auto dump = a.yaml_dump();
    int big = enc.size() > 20000;
    for (int k = 0; k < (big ? 2 : 4); ++k) {
        std::string text;
        if (k == 0) text = dump;
        else if (k == 1) ref::yaml_text(want, text, true);
        else if (k == 2) { if (want.k == ref::Y::SCALAR || want.seq.empty()) continue; ref::yaml_block(want, text, 0); }
        else {
            ref::yaml_text(want, text, false);
            for (std::size_t i = 0; i + 1 < text.size(); ++i)
                if (text[i] == '0' && text[i + 1] == 'x')
                    for (i += 2; i < text.size() && isxdigit((unsigned char)text[i]); ++i) text[i] = char(toupper(text[i]));
        }
        Obj b = from_yaml(r, t, text);
        Bytes s = b.serialize();
        if (s != enc) r.fail("%s: the value read from YAML (form %d) differs: %s; text %.200s", t.name.c_str(), k, diff(enc, s).c_str(), text.c_str());
        need(r, b == a, "the value read back from YAML compares unequal", t);
        if (k == 0) {
            // into an object that already has another value
            need(r, b.yaml_load(text) && b.serialize() == enc, "reading YAML into a used object gave a different value", t);
        }
    }
}
// documents that lack a field or have one of the wrong kind
struct YPath { std::vector<std::size_t> p; };
void walk_schema_paths(const Type& t, const Value& v, std::vector<std::size_t>& cur, std::vector<YPath>& out) {
    if (!cur.empty()) out.push_back({cur});
    if (t.k == Type::CONT)
        for (std::size_t i = 0; i < v.kids.size(); ++i) { cur.push_back(i); walk_schema_paths(*t.fields[i].second, v.kids[i], cur, out); cur.pop_back(); }
    if ((t.k == Type::LIST || t.k == Type::VECTOR) && !t.elem->basic())
        for (std::size_t i = 0; i < v.kids.size() && i < 2; ++i) { cur.push_back(i); walk_schema_paths(*t.elem, v.kids[i], cur, out); cur.pop_back(); }
}
void run_yaml_damage(const Ints& c, Run& r) {
    auto& t = T[std::size_t(c[0])];
    auto sl = gen::slots(*t.schema);
    gen::Spec s{std::vector<long long>(sl.size(), 1), 0, gen::PATTERN};
    if (c[1] < 0) {
        // the type itself is a list
        s.len[0] = (long long)t.schema->n + 1;
        std::string text = ytext(*t.schema, gen::build(*t.schema, s));
        r.desc("%s: YAML document with more elements than the limit", t.name.c_str());
        r.distinct(mc::fnv(text.data(), text.size(), std::uint64_t(c[0])));
        Obj o(t);
        bool ok = false;
        try { ok = o.yaml_load(text); } catch (const std::exception&) {}
        if (ok) r.fail("%s: a YAML document with %llu elements was accepted", t.name.c_str(), (unsigned long long)t.schema->n + 1);
        return;
    }
    Value v = gen::build(*t.schema, s);
    std::vector<YPath> paths;
    std::vector<std::size_t> cur;
    walk_schema_paths(*t.schema, v, cur, paths);
    auto& p = paths[std::size_t(c[1])].p;
    auto y = ref::yaml(*t.schema, v);
    ref::Y* at = &y;
    const Type* ty = t.schema;
    for (std::size_t i = 0; i + 1 < p.size(); ++i) { ty = ty->k == Type::CONT ? ty->fields[p[i]].second : ty->elem; at = &at->seq[p[i]]; }
    std::string what;
    if (c[2] == 0) {
        if (at->k != ref::Y::MAP && ty->k != Type::VECTOR) return;
        what = at->k == ref::Y::MAP ? "without '" + at->keys[p.back()] + "'" : "with an element missing from a vector";
        if (at->k == ref::Y::MAP) at->keys.erase(at->keys.begin() + long(p.back()));
        at->seq.erase(at->seq.begin() + long(p.back()));
    } else {
        const Type* ft = ty->k == Type::CONT ? ty->fields[p.back()].second : ty->elem;
        auto& f = at->seq[p.back()];
        what = "with a value of the wrong kind at '" + (at->k == ref::Y::MAP ? at->keys[p.back()] : std::to_string(p.back())) + "'";
        ref::Y n;
        if (c[2] == 1) { if (f.k == ref::Y::SCALAR) { n.k = ref::Y::SEQ; n.seq.resize(1); n.seq[0].s = "1"; } else n.s = "7"; }
        else if (c[2] == 4) {
            // one element more than the limit
            if (ft->k != Type::LIST || ft->n > 2100) return;
            if (f.seq.empty()) return;
            n = f;
            while (n.seq.size() <= ft->n) n.seq.push_back(n.seq[0]);
            what = "with a list longer than its limit at '" + (at->k == ref::Y::MAP ? at->keys[p.back()] : std::to_string(p.back())) + "'";
        }
        else if (c[2] == 2) {
            if (ft->k == Type::VECTOR) { n = f; n.seq.push_back(n.seq.back()); what = "with an element too many in a vector"; }
            else if (f.k == ref::Y::SCALAR) n.s = "zz";
            else if (f.k == ref::Y::SEQ) { n.k = ref::Y::MAP; n.add("x", ref::Y{}); n.seq[0].s = "1"; }
            else { n.k = ref::Y::SEQ; n.seq.resize(1); n.seq[0].s = "1"; }
        } else if (c[2] >= 5) {
            // bit fields that are the encoding of no value
            auto where = "' at '" + (at->k == ref::Y::MAP ? at->keys[p.back()] : std::to_string(p.back())) + "'";
            if (ft->k == Type::BITVEC) {
                if (c[2] == 5) n.s = f.s + "00";
                else if (ft->n % 8 == 0) return;
                else n.s = f.s.substr(0, f.s.size() - 2) + "ff";
            } else if (ft->k == Type::BITLIST) {
                if (c[2] == 5) n.s = f.s + "00";
                else { n.s = "0x"; for (std::uint64_t j = 0; j < ft->n / 8 + 1; ++j) n.s += "ff"; }
            } else
                return;
            what = "with the bit field '" + n.s.substr(0, 40) + where;
        } else {
            if (f.k != ref::Y::SCALAR) return;
            if (ft->k == Type::BYTES) { n.s = f.s + "00"; what = "with too many digits at '" + (at->k == ref::Y::MAP ? at->keys[p.back()] : std::to_string(p.back())) + "'"; }
            else if (ft->k == Type::U64) n.s = "18446744073709551616";
            else if (ft->k == Type::BOOL) n.s = "2";
            else if (ft->k == Type::BITLIST) n.s = "0x00";
            else n.s = "";
        }
        f = n;
    }
    std::string text;
    ref::yaml_text(y, text, false);
    r.distinct(mc::fnv(text.data(), text.size(), std::uint64_t(c[0])));
    r.desc("%s: YAML document %s: %.200s", t.name.c_str(), what.c_str(), text.c_str());
    Obj o(t);
    bool ok = false;
    try { ok = o.yaml_load(text); } catch (const std::exception&) { ok = false; }
    if (ok) r.fail("%s: a YAML document %s was accepted", t.name.c_str(), what.c_str());
}

void run_shape(const Ints& c, Run& r) {
    auto& t = T[std::size_t(c[0])];
    auto s = spec_of(c, 1);
    Value v = gen::build(*t.schema, s);
    r.desc("%s %s", t.name.c_str(), lens_text(s).c_str());
    if (is("C07")) check_roundtrip(r, t, v);
    if (is("C08")) check_encoding(r, t, v);
    if (is("C11")) check_root(r, t, v);
    if (is("C13")) check_yaml(r, t, v);
    if (is("C24")) { check_roundtrip(r, t, v); check_encoding(r, t, v); check_root(r, t, v); if (t.consensus || v.kids.size() < 40) {
        // documents of large values take most of the time and run the same code; one with each list of at most one element stays
        bool few = true;
        for (auto l : s.len) few = few && l <= 1;
        if (few || thorough() || ref::encode(*t.schema, v).size() <= 3000) check_yaml(r, t, v);
    } }
}

// Values that differ from a base value in one bit of the encoding
struct Base { std::size_t ti; gen::Spec spec; Value v; Bytes enc; };
std::vector<Base> bases;
void make_bases(int level) {
    for (std::size_t ti = 0; ti < T.size(); ++ti) {
        auto& t = T[ti];
        auto sl = gen::slots(*t.schema);
        auto add = [&](gen::Spec s) {
            for (std::size_t i = 0; i < sl.size(); ++i) s.len[i] = std::min<long long>(s.len[i], (long long)sl[i].t->n);
            Value v = gen::build(*t.schema, s);
            Bytes e = ref::encode(*t.schema, v);
            for (auto& b : bases) if (b.ti == ti && b.enc == e) return;
            bases.push_back({ti, s, std::move(v), std::move(e)});
        };
        std::vector<long long> none(sl.size(), 0), one(sl.size(), 1), two(sl.size(), 2), three(sl.size(), 3);
        if (huge(t)) { add({one, 0, gen::PATTERN}); if (level > 1) add({none, 0, gen::PATTERN}); continue; }
        add({two, 0, gen::PATTERN});
        if (level > 0) { add({one, 0, gen::ZEROS}); add({none, 0, gen::PATTERN}); }
        if (level > 0 && sl.size()) add({three, 1, gen::PATTERN2});
        if (level > 1 || sl.size() <= 1) {
            add({std::vector<long long>(sl.size(), 9), 0, gen::PATTERN});
            add({std::vector<long long>(sl.size(), 8), 2, gen::ONES});
            add({std::vector<long long>(sl.size(), 5), 2, gen::PATTERN});
            add({std::vector<long long>(sl.size(), 17), 0, gen::EQUAL});
        }
    }
}
void gen_bits(const Emit& emit) {
    for (std::size_t b = 0; b < bases.size(); ++b) {
        std::size_t n = bases[b].enc.size();
        bool full = n <= (thorough() ? 9000 : 700);
        std::size_t step = n > 100000 ? (thorough() ? 997 : 9973) : 1;
        if (is("C13")) {  // reading and writing documents is slow
            if (n > 100000) step = thorough() ? 1 << 18 : 1 << 22;
            else if (!thorough() && n > 600) step = dup(T[bases[b].ti]) ? n / 50 : n > 6000 ? n / 800 : n / 400;
            else if (n > 20000) step = 5;
        }
        for (std::size_t i = 0; i < n; i += step)
            for (int k = 0; k < 8; ++k)
                if (full || k == int((i * 5 + i / 8) % 8)) emit({(long long)b, (long long)i, k});
    }
}
void run_bits(const Ints& c, Run& r) {
    auto& b = bases[std::size_t(c[0])];
    auto& t = T[b.ti];
    Bytes e = b.enc;
    e[std::size_t(c[1])] ^= std::uint8_t(1 << c[2]);
    auto v = ref::decode(*t.schema, e);
    r.desc("%s %s with bit %lld of byte %lld flipped%s", t.name.c_str(), lens_text(b.spec).c_str(), c[2], c[1], v ? "" : " (not a valid encoding)");
    if (!v) return;
    if (is("C07")) check_roundtrip(r, t, *v);
    if (is("C08")) check_encoding(r, t, *v);
    if (is("C11")) check_root(r, t, *v);
    if (is("C13")) check_yaml(r, t, *v);
    if (is("C12")) {
        r.distinct(mc::fnv(e.data(), e.size(), b.ti));
        Obj x = from_ssz(r, t, b.enc), y = from_ssz(r, t, e, 0x5A), z = from_ssz(r, t, b.enc, 0x00);
        if (x == y || y == x || !(x != y) || !(y != x)) r.fail("%s: two values that differ in byte %lld of their encodings compare equal", t.name.c_str(), c[1]);
        if (!(x == z) || !(z == x) || x != z || !(x == x)) r.fail("%s: two objects with the same value compare unequal", t.name.c_str());
    }
}
// Extreme values of every integer of the value
void offsets_of_u64(const Type& t, const Value& v, std::vector<std::vector<std::size_t>>& out, std::vector<std::size_t>& cur) {
    if (t.k == Type::U64) { out.push_back(cur); return; }
    auto go = [&](std::size_t i, const Type& e) { cur.push_back(i); offsets_of_u64(e, v.kids[i], out, cur); cur.pop_back(); };
    if (t.k == Type::CONT) for (std::size_t i = 0; i < v.kids.size(); ++i) go(i, *t.fields[i].second);
    if (t.k == Type::VECTOR || t.k == Type::LIST)
        for (std::size_t i = 0; i < v.kids.size(); ++i) if (i < 3 || i + 2 >= v.kids.size()) go(i, *t.elem);
}
constexpr unsigned long long edges[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull, 999999999999999999ull, 10000000000000000000ull};
std::vector<std::vector<std::vector<std::size_t>>> u64_paths;  // per base
void gen_edges(const Emit& emit) {
    if (u64_paths.empty())
        for (auto& b : bases) { u64_paths.emplace_back(); std::vector<std::size_t> cur; offsets_of_u64(*T[b.ti].schema, b.v, u64_paths.back(), cur); }
    for (std::size_t b = 0; b < bases.size(); ++b)
        for (std::size_t p = 0; p < u64_paths[b].size(); ++p)
            for (std::size_t k = 0; k < sizeof edges / 8; ++k) {
                if (huge(T[bases[b].ti]) && (k % 9 != 8 || (is("C13") && !thorough() && p % 40))) continue;
                emit({(long long)b, (long long)p, (long long)k});
            }
}
void run_edges(const Ints& c, Run& r) {
    auto& b = bases[std::size_t(c[0])];
    auto& t = T[b.ti];
    Value v = b.v;
    Value* at = &v;
    for (auto i : u64_paths[std::size_t(c[0])][std::size_t(c[1])]) at = &at->kids[i];
    *at = ref::u64v(edges[c[2]]);
    r.desc("%s %s with integer %lld = %llu", t.name.c_str(), lens_text(b.spec).c_str(), c[1], edges[c[2]]);
    if (is("C07")) check_roundtrip(r, t, v);
    if (is("C08")) check_encoding(r, t, v);
    if (is("C11")) check_root(r, t, v);
    if (is("C13")) check_yaml(r, t, v);
    if (is("C24")) { check_roundtrip(r, t, v); check_encoding(r, t, v); check_root(r, t, v); if (t.consensus || v.kids.size() < 40) check_yaml(r, t, v); }
}
// C12: values that differ in the number of elements of one list
void gen_lenpairs(const Emit& emit) {
    for (std::size_t ti = 0; ti < T.size(); ++ti) {
        if (huge(T[ti]) && !thorough()) continue;
        auto sl = gen::slots(*T[ti].schema);
        for (std::size_t i = 0; i < sl.size(); ++i)
            for (int f : {int(gen::PATTERN), int(gen::ZEROS), int(gen::EQUAL)})
                for (long long a = 0; a <= 9; ++a)
                    for (long long b = a; b <= 9; ++b)
                        if (b <= (long long)sl[i].t->n) emit({(long long)ti, (long long)i, f, a, b});
    }
}
void run_lenpairs(const Ints& c, Run& r) {
    auto& t = T[std::size_t(c[0])];
    auto sl = gen::slots(*t.schema);
    gen::Spec s{std::vector<long long>(sl.size(), 1), 0, int(c[2])};
    s.len[std::size_t(c[1])] = c[3];
    Value va = gen::build(*t.schema, s);
    s.len[std::size_t(c[1])] = c[4];
    Value vb = gen::build(*t.schema, s);
    r.distinct(mc::hash_ints(c));
    r.desc("%s, list %lld of length %lld against %lld, fill %lld", t.name.c_str(), c[1], c[3], c[4], c[2]);
    Obj a = from_ssz(r, t, ref::encode(*t.schema, va)), b = from_ssz(r, t, ref::encode(*t.schema, vb), 0x11);
    bool want = va == vb;
    if ((a == b) != want || (b == a) != want || (a != b) == want || (b != a) == want)
        r.fail("%s: values with %lld and %lld elements in a list compare %s", t.name.c_str(), c[3], c[4], want ? "unequal" : "equal");
    // copies
    Obj k(a);
    need(r, k == a && !(k != a), "a copy compares unequal to its original", t);
    k = b;
    need(r, (k == b) && ((k == a) == want), "an assigned copy compares wrongly", t);
}

// two long values that differ in one element
struct Long { long long key = -1; Value v; Bytes enc; };
void gen_longpairs(const Emit& emit) {
    for (std::size_t ti = 0; ti < T.size(); ++ti) {
        if (mainnet && (!T[ti].consensus || T[ti].name != "BeaconState")) continue;
        auto sl = gen::slots(*T[ti].schema);
        for (std::size_t i = 0; i < sl.size(); ++i) {
            if (sl[i].nested) continue;
            auto& t = *sl[i].t;
            std::size_t es = t.k == Type::BITLIST ? 1 : gen::elem_size(t);
            std::set<long long> all;
            for (long long x : {300ll, 1026ll, 4099ll, 65538ll, (long long)t.n}) if (x >= 30 && std::uint64_t(x) <= t.n && std::size_t(x) * es <= (mainnet ? 700000 : thorough() ? 20000000 : 3000000)) all.insert(x);
            for (auto x : all) {
                std::set<long long> at{0, 1, x / 2, x - 2, x - 1};
                for (long long p = 2; p <= x; p *= 2) for (long long d = -1; d <= (p < 300 || thorough() ? 1 : 0); ++d) if (p + d < x) at.insert(p + d);
                if (std::size_t(x) * es > 200000 && !thorough()) at = {0, 127, 255, 256, 1023, 4096, 32767, 65535, 65536, x - 1};
                for (auto k : at) if (k < x) emit({(long long)ti, (long long)i, x, k});
            }
        }
    }
}
// the list that is slot number i of those that are not nested, counted as gen::slots does
Value* find_slot(const Type& t, Value& v, long long& i) {
    if (t.k == Type::LIST || t.k == Type::BITLIST) {
        if (i == 0) return &v;
        std::vector<gen::LenSlot> in;
        gen::slots(t, false, in);
        i -= (long long)in.size();
        return nullptr;
    }
    if (t.k == Type::VECTOR) { std::vector<gen::LenSlot> in; gen::slots(t, false, in); i -= (long long)in.size(); return nullptr; }
    if (t.k == Type::CONT) for (std::size_t f = 0; f < t.fields.size(); ++f) if (auto* p = find_slot(*t.fields[f].second, v.kids[f], i)) return p;
    return nullptr;
}
bool change(Value& v) {
    if (!v.b.empty()) { v.b.back() ^= 1; return true; }
    if (!v.bits.empty()) { v.bits.back() = !v.bits.back(); return true; }
    for (std::size_t i = v.kids.size(); i-- > 0;) if (change(v.kids[i])) return true;
    return false;
}
void run_longpairs(const Ints& c, Run& r) {
    auto& t = T[std::size_t(c[0])];
    static Long cache;
    static Bytes other;
    long long key = (c[0] * 100 + c[1]) * (1ll << 24) + c[2];
    if (cache.key != key) {
        std::vector<long long> v(gen::slots(*t.schema).size(), 1);
        v[std::size_t(c[1])] = c[2];
        cache.v = gen::build(*t.schema, {v, 0, gen::PATTERN});
        cache.enc = ref::encode(*t.schema, cache.v);
        cache.key = key;
    }
    r.desc("%s, list %lld of length %lld, changed at element %lld", t.name.c_str(), c[1], c[2], c[3]);
    r.distinct(mc::hash_ints(c));
    long long i = c[1];
    Value* l = find_slot(*t.schema, cache.v, i);
    if (!l || std::max(l->kids.size(), l->bits.size()) != std::size_t(c[2])) r.fail("internal error: list %lld of %s not found", c[1], t.name.c_str());
    auto flip = [&] { if (l->kids.empty()) l->bits[std::size_t(c[3])] = !l->bits[std::size_t(c[3])]; else change(l->kids[std::size_t(c[3])]); };
    flip();
    other = ref::encode(*t.schema, cache.v);
    flip();
    Obj a = from_ssz(r, t, cache.enc, 0x11), b = from_ssz(r, t, other, 0x00), k(a);
    if (a == b || b == a || !(a != b) || !(b != a)) r.fail("%s: values that differ in element %lld of %lld of a list compare equal", t.name.c_str(), c[3], c[2]);
    if (!(a == k) || a != k) r.fail("%s: a copy of a value with a list of %lld elements compares unequal", t.name.c_str(), c[2]);
}

// ---- C09 / C10: what the decoders accept
// positions of the offsets of an encoding, found by walking the schema
void find_offsets(const Type& t, const Bytes& e, std::size_t at, std::size_t n, std::vector<std::size_t>& out, std::vector<std::size_t>& joints) {
    joints.push_back(at);
    joints.push_back(at + n);
    if (t.k == Type::CONT && !t.fixed) {
        std::size_t p = at;
        std::vector<std::pair<const Type*, std::size_t>> var;
        for (auto& f : t.fields) {
            joints.push_back(p);
            if (f.second->fixed) p += f.second->fixed;
            else { out.push_back(p); var.push_back({f.second, ref::get32(&e[p])}); p += 4; }
        }
        joints.push_back(p);
        for (std::size_t i = 0; i < var.size(); ++i) find_offsets(*var[i].first, e, at + var[i].second, (i + 1 < var.size() ? var[i + 1].second : n) - var[i].second, out, joints);
    } else if ((t.k == Type::LIST || t.k == Type::VECTOR) && !t.elem->fixed && n) {
        std::size_t c = ref::get32(&e[at]) / 4;
        for (std::size_t i = 0; i < c; ++i) {
            out.push_back(at + 4 * i);
            std::size_t a = ref::get32(&e[at + 4 * i]), z = i + 1 < c ? ref::get32(&e[at + 4 * i + 4]) : n;
            find_offsets(*t.elem, e, at + a, z - a, out, joints);
        }
    } else if (t.k == Type::LIST && t.elem->fixed)
        for (std::size_t i = 0; i * t.elem->fixed < n && i < 4; ++i) joints.push_back(at + i * t.elem->fixed);
    else if (t.k == Type::CONT) {
        std::size_t p = at;
        for (auto& f : t.fields) { joints.push_back(p); p += f.second->fixed; }
    }
}
struct Info { std::vector<std::size_t> offs, joints; };
std::vector<Info> infos;
void make_infos() {
    for (auto& b : bases) {
        Info i;
        find_offsets(*T[b.ti].schema, b.enc, 0, b.enc.size(), i.offs, i.joints);
        std::sort(i.joints.begin(), i.joints.end());
        i.joints.erase(std::unique(i.joints.begin(), i.joints.end()), i.joints.end());
        if (i.joints.size() > 400) { std::vector<std::size_t> j; for (std::size_t k = 0; k < i.joints.size(); k += i.joints.size() / 400 + 1) j.push_back(i.joints[k]); i.joints = j; }
        infos.push_back(std::move(i));
    }
}
std::vector<unsigned long long> offset_values(std::size_t b, std::size_t pos, bool small) {
    auto& e = bases[b].enc;
    auto& in = infos[b];
    std::set<unsigned long long> s;
    std::size_t n = e.size();
    unsigned long long cur = ref::get32(&e[pos]);
    if (!small && n <= (thorough() ? 4000 : is("C24") ? 100 : 1500)) for (std::size_t i = 0; i <= n + 8; ++i) s.insert(i);
    auto near = [&](long long x, int w) { for (long long d = -w; d <= w; ++d) if (x + d >= 0) s.insert((unsigned long long)(x + d) & 0xffffffffull); };
    near((long long)cur, small ? 1 : 9);
    near((long long)n, small ? 1 : 9);
    near(0, small ? 0 : 9);
    for (auto o : in.offs) near((long long)ref::get32(&e[o]), small ? 0 : 4);
    if (!small) for (auto j : in.joints) near((long long)j, 1);
    for (int k = 4; k < 32; ++k) if (!small) near(1ll << k, 1); else if (k % 8 == 7) s.insert(1ull << k);
    s.insert(0xffffffffull);
    s.insert(0xfffffffcull);
    s.insert(0x80000000ull);
    s.erase(cur);
    return {s.begin(), s.end()};
}
enum { TRUNC, EXTEND, SETBYTE, OFFSET, OFFSET2, ERASE, INSERT, DUP, GAP, TRUNCOFF };
std::vector<int> byte_values(std::size_t n, std::uint8_t cur, std::size_t ti, std::size_t i) {
    std::set<int> s;
    std::size_t full = thorough() ? 4000 : is("C10") || is("C24") ? 0 : 200;
    (void)ti;
    if (n <= full) for (int k = 0; k < 256; ++k) s.insert(k);
    else if (n <= 20000) {
        for (int k : {cur ^ 1, cur ^ 0x80, 0, 1, 2, 0xff}) s.insert(k & 0xff);
        if ((n <= 3000 && !is("C24")) || thorough()) for (int k = 0; k < 8; ++k) s.insert(cur ^ (1 << k));
    } else if (i % 4099 == 0) for (int k : {0, 1, 0xff}) s.insert(k);
    s.erase(cur);
    return {s.begin(), s.end()};
}
void gen_mutations(const Emit& emit) {
    for (std::size_t b = 0; b < bases.size(); ++b) {
        auto& e = bases[b].enc;
        auto& t = T[bases[b].ti];
        std::size_t n = e.size();
        if (is("C10") && !thorough() && mainnet && n < 100000) continue;  // the same code as in the other preset
        bool sparse = is("C10") && !thorough() && n > 2000;
        auto put = [&](long long k, unsigned long long x, unsigned long long y, unsigned long long z = 0, unsigned long long w = 0) {
            emit({(long long)b, k, (long long)x, (long long)y, (long long)z, (long long)w});
        };
        std::size_t step = n > 100000 ? (thorough() ? 4001 : 40009) : 1;
        for (std::size_t i = 0; i < n; i += sparse && step == 1 ? 3 : step) put(TRUNC, i, 0);
        for (auto j : infos[b].joints) for (std::size_t d = 0; d < 3; ++d) if (step > 1 && j + d < n) put(TRUNC, j + d, 0);
        for (unsigned k = 1; k <= (step > 1 ? 4u : is("C24") && !thorough() ? 40u : 140u); ++k)
            for (unsigned v : {0u, 1u, 0xffu}) put(EXTEND, k, v);
        for (std::size_t i = 0; i < n; ++i) {
            if (step > 1 && i % 4099) continue;
            if (sparse && step == 1 && i % 7 && !std::binary_search(infos[b].joints.begin(), infos[b].joints.end(), i)) continue;
            for (int v : byte_values(n, e[i], bases[b].ti, i)) put(SETBYTE, i, (unsigned)v);
        }
        // the bytes where a basic type restricts its values are set to every value
        auto& offs = infos[b].offs;
        for (auto p : offs) for (auto v : offset_values(b, p, step > 1)) put(OFFSET, p, v);
        // cut anywhere, one offset pointing at the end or just before or after it
        for (std::size_t i = 0; i < offs.size() && step == 1 && !is("C24"); ++i) {
            std::size_t w = 0;
            for (std::size_t l = offs[i] + 4; l < n; l += n > 1500 && !thorough() && l > offs[i] + 40 ? 29 : 1, ++w)
                for (int d = -1; d <= 1; ++d)
                    if (i < 3 || w < 40 || thorough()) put(TRUNCOFF, l, offs[i], l + d);
        }
        std::size_t pairs = 0;
        for (std::size_t i = 0; i < offs.size(); ++i)
            for (std::size_t j = i + 1; j < offs.size() && j < i + 6; ++j) {
                if (step > 1) continue;
                if (++pairs > (thorough() ? 60u : 16u)) continue;
                for (auto v : offset_values(b, offs[i], true))
                    for (auto w : offset_values(b, offs[j], true)) put(OFFSET2, offs[i], v, offs[j], w);
            }
        std::set<std::size_t> widths{1, 2, 4, 8, 32};
        if (t.schema->elem && t.schema->elem->fixed) widths.insert(t.schema->elem->fixed);
        if (step == 1)
            for (auto w : widths) {
                for (std::size_t i = 0; i < n; ++i) {
                    bool joint = std::binary_search(infos[b].joints.begin(), infos[b].joints.end(), i);
                    if (n > (thorough() ? 3000 : 300) && !joint) continue;
                    if (i + w <= n) { put(ERASE, i, w); put(DUP, i, w); }
                    put(INSERT, i, w, 0);
                    put(INSERT, i, w, 0xff);
                }
                put(INSERT, n, w, 0);
            }
        // a gap after the fixed part, with the offsets of that container moved by it
        for (std::size_t g = 0; g < offs.size() && g < 40 && step == 1; ++g)
            for (unsigned w : {1u, 2u, 3u, 4u, 8u, 32u}) put(GAP, g, w);
    }
}
Bytes mutate(const Ints& c) {
    auto& b = bases[std::size_t(c[0])];
    Bytes e = b.enc;
    auto x = std::size_t(c[2]), y = std::size_t(c[3]);
    auto set32 = [&](std::size_t p, std::uint64_t v) { for (std::size_t i = 0; i < 4; ++i) e[p + i] = std::uint8_t(v >> (8 * i)); };
    switch (c[1]) {
        case TRUNC: e.resize(x); break;
        case EXTEND: e.insert(e.end(), x, std::uint8_t(y)); break;
        case SETBYTE: e[x] = std::uint8_t(y); break;
        case OFFSET: set32(x, y); break;
        case OFFSET2: set32(x, y); set32(std::size_t(c[4]), std::uint64_t(c[5])); break;
        case TRUNCOFF: set32(y, std::uint64_t(c[4])); e.resize(x); break;
        case ERASE: e.erase(e.begin() + long(x), e.begin() + long(x + y)); break;
        case INSERT: e.insert(e.begin() + long(x), y, std::uint8_t(c[4])); break;
        case DUP: { Bytes d(e.begin() + long(x), e.begin() + long(x + y)); e.insert(e.begin() + long(x + y), d.begin(), d.end()); break; }
        case GAP: {
            // insert y bytes where offset number x points to, and move this and all other offsets that point there or further
            auto& offs = infos[std::size_t(c[0])].offs;
            std::size_t p = offs[x], target = ref::get32(&e[p]);
            for (std::size_t k = x; k < offs.size() && offs[k] == p + 4 * (k - x); ++k) set32(offs[k], ref::get32(&e[offs[k]]) + y);
            if (x == 0 && target <= e.size()) e.insert(e.begin() + long(target), y, 0);
            else e.insert(e.end(), y, 0);
            break;
        }
    }
    return e;
}
// ---- C26: memory
// Bytes that decoding n bytes, or encoding, hashing or copying what n bytes hold, may allocate at one time.
long long memory_bound(std::size_t n) { return 8192 + 400 * (long long)n; }
void judge_memory(Run& r, const TypeOps& t, const Bytes& e, const Bytes* dirty) {
    auto& S = mcalloc::state;
    for (int round = 0;; ++round) {
        long long blocks = S.blocks, live = S.live;
        bool ok;
        {
            Bytes exact(e);
            exact.shrink_to_fit();
            Obj o(t);
            if (dirty) { o.deserialize(*dirty); }
            long long from = S.live;
            S.peak = S.live;
            auto check = [&](const char* what) {
                long long used = S.peak - from, most = memory_bound(e.size() + (dirty ? dirty->size() : 0));
                if (used > most) r.fail("%s: %s takes %lld bytes of memory for %zu bytes of input: %s", t.name.c_str(), what, used, e.size(), mc::hex(e.data(), e.size(), 200).c_str());
                from = S.live;
                S.peak = S.live;
            };
            try {
                ok = o.deserialize(exact);
                check(ok ? "decoding" : "refusing to decode");
                if (ok) {
                    { Bytes s = o.serialize(); check("encoding"); }
                    if (!huge(t) || e.size() < 20000) { auto h = o.root(); (void)h; check("hashing"); }
                    { Obj p(o); check("copying"); bool q = p == o; if (!q) r.fail("%s: a copy compares unequal", t.name.c_str()); check("comparing"); }
                }
            } catch (const std::exception& x) {
                r.fail("%s: %s while decoding and using %zu bytes: %s", t.name.c_str(), x.what(), e.size(), mc::hex(e.data(), e.size(), 200).c_str());
            }
        }
        if (S.blocks == blocks && S.live == live) break;
        // what is kept for later is kept once
        if (round == 3) r.fail("%s: %lld bytes of memory are never released after %s %zu bytes: %s", t.name.c_str(), S.live - live, ok ? "decoding and using" : "refusing", e.size(), mc::hex(e.data(), e.size(), 200).c_str());
    }
}
int c_accept, c_refuse;
void judge(Run& r, const TypeOps& t, const Bytes& e, const Bytes* dirty) {
    bool want = ref::decode(*t.schema, e).has_value();
    r.count(want ? c_accept : c_refuse);
    if (is("C26")) { judge_memory(r, t, e, nullptr); if (dirty) judge_memory(r, t, e, dirty); return; }
    Bytes exact(e);
    exact.shrink_to_fit();
    Obj o(t);
    bool got = o.deserialize(exact);
    if (is("C10")) {
        // whatever the answer was, the object must stay usable
        try {
            auto s = o.serialize();
            Obj p(o);
            if (huge(t)) { if (!(p == o)) r.fail("%s: a copy compares unequal", t.name.c_str()); if (got) (void)p.root(); }
            else if (p.serialize() != s || p.root() != o.root() || !(p == o)) r.fail("%s: a copy of an object that %s %zu bytes differs from it", t.name.c_str(), got ? "decoded" : "refused", e.size());
            Obj q(t);
            q.deserialize(s);
        } catch (const std::exception& x) {
            r.fail("%s: after %s %zu bytes the object cannot be used: %s", t.name.c_str(), got ? "decoding" : "refusing", e.size(), x.what());
        }
        if (dirty) {
            need(r, o.deserialize(*dirty), "a valid encoding was refused after a refused one", t);
            (void)o.deserialize(exact);
            try { (void)o.serialize(); (void)o.root(); } catch (const std::exception& x) {
                r.fail("%s: after %zu bytes the object, used before, cannot be used: %s", t.name.c_str(), e.size(), x.what());
            }
        }
        return;
    }
    if (got != want) r.fail("%s: %s %zu bytes that are %sa canonical encoding: %s", t.name.c_str(), got ? "accepted" : "refused", e.size(), want ? "" : "not ", mc::hex(e.data(), e.size(), 400).c_str());
    if (got) {
        Bytes s = o.serialize();
        if (s != e) r.fail("%s: the accepted bytes encode differently afterwards: %s", t.name.c_str(), diff(e, s).c_str());
    }
    if (dirty) {
        Obj d(t, 0x3C);
        need(r, d.deserialize(*dirty), "a valid encoding was refused", t);
        bool again = d.deserialize(exact);
        if (again != want) r.fail("%s: %s %zu bytes in an object that held another value before: %s", t.name.c_str(), again ? "accepted" : "refused", e.size(), mc::hex(e.data(), e.size(), 400).c_str());
        if (again && d.serialize() != e) r.fail("%s: decoding into an object that held another value gave a different value", t.name.c_str());
    }
    // the same range inside a larger buffer: its surroundings must not matter
    if (e.size() <= 3000 && !is("C24"))
        for (int k = 0; k < 2; ++k) {
            Bytes b(5, std::uint8_t(k ? 0xff : 0));
            b.insert(b.end(), e.begin(), e.end());
            b.insert(b.end(), 40, std::uint8_t(k ? 0xff : 0));
            Obj d(t, 0x77);
            if (d.deserialize(b, 5, 5 + e.size()) != want) r.fail("%s: %zu bytes inside a larger buffer were %s: %s", t.name.c_str(), e.size(), want ? "refused" : "accepted", mc::hex(e.data(), e.size(), 400).c_str());
        }
}
void run_mutation(const Ints& c, Run& r) {
    static const char* names[] = {"truncated to", "extended by", "with a byte set", "with an offset set", "with two offsets set", "with bytes erased", "with bytes inserted", "with bytes repeated", "with a gap", "truncated with an offset set"};
    Bytes e = mutate(c);
    auto& b = bases[std::size_t(c[0])];
    auto& t = T[b.ti];
    r.desc("%s %s %s (%lld, %lld, %lld, %lld): %s", t.name.c_str(), lens_text(b.spec).c_str(), names[c[1]], c[2], c[3], c[4], c[5], mc::hex(e.data(), e.size(), 24).c_str());
    r.distinct(mc::fnv(e.data(), e.size(), b.ti + 1));
    judge(r, t, e, huge(t) ? nullptr : &b.enc);
}
// more bits than an int can count
void gen_huge(const Emit& emit) {
    for (std::size_t ti = 0; ti < T.size(); ++ti)
        if (T[ti].schema->k == Type::BITLIST && T[ti].schema->n > 0x100000000ull)
            for (long long d : {-1, 0, 1, 8, 9}) if (thorough() || d == 9) emit({(long long)ti, d});
}
void run_huge(const Ints& c, Run& r) {
    auto& t = T[std::size_t(c[0])];
    std::size_t bits = (1ull << 31) + std::size_t(c[1]);
    r.desc("%s of 2^31 + %lld bits", t.name.c_str(), c[1]);
    r.distinct(std::uint64_t(c[1]) + 1000);
    Bytes e(bits / 8 + 1, 0xa5);
    e.back() = std::uint8_t(e.back() & ((1u << bits % 8) - 1)) | std::uint8_t(1u << bits % 8);
    r.count(c_accept);
    Obj o(t);
    need(r, o.deserialize(e), "a canonical encoding was refused", t);
    if (o.serialize() != e) r.fail("%s: %zu bytes encode differently after decoding", t.name.c_str(), e.size());
    (void)o.root();
    Obj p(o);
    if (!(p == o)) r.fail("%s: a copy compares unequal", t.name.c_str());
}
// every short byte string
void gen_short(const Emit& emit) {
    for (std::size_t ti = 0; ti < T.size(); ++ti) {
        if (dup(T[ti]) && !thorough()) continue;
        auto& t = *T[ti].schema;
        int max = 1;
        if (t.k == Type::BITLIST || t.k == Type::BITVEC || t.k == Type::BOOL || t.k == Type::LIST || (t.fixed && t.fixed <= 4)) max = 2;
        if (thorough() && (t.k == Type::BITLIST || t.k == Type::BITVEC) && !is("C10") && t.n <= 31) max = 3;
        if (is("C24") && !thorough()) max = 1;
        for (int n = 0; n <= max; ++n)
            for (long long x = 0; x < (1ll << (8 * n)); ++x) emit({(long long)ti, n, x});
    }
}
void run_short(const Ints& c, Run& r) {
    Bytes e;
    for (int i = 0; i < c[1]; ++i) e.push_back(std::uint8_t(c[2] >> (8 * i)));
    auto& t = T[std::size_t(c[0])];
    r.desc("%s from the bytes [%s]", t.name.c_str(), mc::hex(e.data(), e.size()).c_str());
    r.distinct(mc::fnv(e.data(), e.size(), std::uint64_t(c[0]) + 1));
    judge(r, t, e, nullptr);
}
// bytes of a constant, of every length: the length alone decides
void gen_sizes(const Emit& emit) {
    for (std::size_t ti = 0; ti < T.size(); ++ti) {
        if (huge(T[ti])) continue;
        long long top = std::min<long long>(6000, std::max<long long>(600, (long long)T[ti].schema->fixed + 40));
        if (thorough()) top = 9000;
        for (long long n = 0; n <= top; ++n)
            for (long long v : {0, 1, 255}) {
                if (n > 1200 && v == 255) continue;
                if (is("C10") && !thorough() && n > 700) continue;
                emit({(long long)ti, n, v});
            }
    }
}
void run_sizes(const Ints& c, Run& r) {
    auto& t = T[std::size_t(c[0])];
    Bytes e = Bytes(std::size_t(c[1]), static_cast<std::uint8_t>(c[2]));
    r.desc("%s from %lld bytes %02llx", t.name.c_str(), c[1], c[2]);
    r.distinct(mc::fnv(e.data(), e.size(), std::uint64_t(c[0]) + 1));
    judge(r, t, e, nullptr);
}
// lists around and beyond their limits, everything else being valid
void run_over(const Ints& c, Run& r) {
    auto& t = T[std::size_t(c[0])];
    auto s = spec_of(c, 1);
    Bytes e = ref::encode(*t.schema, gen::build(*t.schema, s));
    r.desc("%s %s", t.name.c_str(), lens_text(s).c_str());
    r.distinct(mc::fnv(e.data(), e.size(), std::uint64_t(c[0]) + 1));
    judge(r, t, e, nullptr);
}
// offset tables of lists of variable sized elements: every combination of boundary values
std::vector<std::size_t> varlists;
void gen_tables(const Emit& emit) {
    for (std::size_t ti = 0; ti < T.size(); ++ti) {
        auto& t = *T[ti].schema;
        if (t.k != Type::LIST || t.elem->fixed) continue;
        if (dup(T[ti]) && !thorough()) continue;
        long long es = (long long)ref::encode(*t.elem, ref::zero(*t.elem)).size();
        // every input of up to 16 bytes made of two offsets up to just beyond its end and a byte that fills the rest
        for (long long n = 0; n <= (is("C24") ? 9 : thorough() ? 28 : 16); ++n)
            for (long long a = 0; a <= n + 5; ++a)
                for (long long b = 0; b <= (n > 4 ? n + 5 : 0); ++b)
                    for (long long fill : {0ll, 1ll, n, 255ll}) emit({(long long)ti, -1 - n, fill, a, b, 0});
        for (int body = 0; body <= 3; ++body) {
            std::vector<long long> vals;
            std::set<long long> s{0, 1, 3, 4, 5, 7, 8, 9, 12, 13, 16, 0x7fffffff, 0x80000000ll, 0xfffffffcll, 0xffffffffll};
            for (int m = 0; m <= 3; ++m) for (int h = 0; h <= 3; ++h) for (int d = -1; d <= 1; ++d) if (m * es + 4 * h + d >= 0) s.insert(m * es + 4 * h + d);
            vals.assign(s.begin(), s.end());
            for (auto a : vals) {
                emit({(long long)ti, body, 1, a, 0, 0});
                for (auto b : vals) {
                    emit({(long long)ti, body, 2, a, b, 0});
                    if (thorough() || (a == 12 && body == 3)) for (auto d : vals) if (thorough() ? (a == 12 || a == 8) : true) emit({(long long)ti, body, 3, a, b, d});
                }
            }
        }
    }
}
void run_tables(const Ints& c, Run& r) {
    auto& t = T[std::size_t(c[0])];
    Bytes e, z = ref::encode(*t.schema->elem, ref::zero(*t.schema->elem));
    if (c[1] < 0) {
        ref::put32(e, std::uint64_t(c[3]));
        ref::put32(e, std::uint64_t(c[4]));
        e.resize(std::size_t(-1 - c[1]), std::uint8_t(c[2]));
        r.desc("%s from the bytes [%s]", t.name.c_str(), mc::hex(e.data(), e.size()).c_str());
        r.distinct(mc::fnv(e.data(), e.size(), std::uint64_t(c[0]) + 1));
        judge(r, t, e, nullptr);
        return;
    }
    for (int i = 0; i < c[2]; ++i) ref::put32(e, std::uint64_t(c[std::size_t(3 + i)]));
    for (int i = 0; i < c[1]; ++i) e.insert(e.end(), z.begin(), z.end());
    r.desc("%s with %lld offsets (%lld, %lld, %lld) and %lld elements", t.name.c_str(), c[2], c[3], c[4], c[5], c[1]);
    r.distinct(mc::fnv(e.data(), e.size(), std::uint64_t(c[0]) + 1));
    judge(r, t, e, nullptr);
}

// ---- C20
void run_default(const Ints& c, Run& r) {
    auto& t = T[std::size_t(c[0])];
    static const int fills[] = {0x00, 0xff, 0xa5, 0x01, 0x80};
    r.distinct(mc::hash_ints(c));
    r.desc("default constructed %s in memory filled with %02x", t.name.c_str(), fills[c[1]]);
    Value z = ref::zero(*t.schema);
    Bytes enc = ref::encode(*t.schema, z);
    Obj o(t, fills[c[1]]);
    Bytes s = o.serialize();
    if (s != enc) r.fail("%s: a default constructed object encodes differently from the zero value: %s", t.name.c_str(), diff(enc, s).c_str());
    auto want = ref::root(*t.schema, z);
    if (o.root() != want) r.fail("%s: the root of a default constructed object is not that of the zero value", t.name.c_str());
    Obj p(t, fills[c[2]]);
    need(r, o == p && !(o != p), "two default constructed objects compare unequal", t);
    Obj q(t, fills[c[2]]);
    need(r, q.deserialize(enc), "the encoding of the zero value was refused", t);
    need(r, o == q, "a default constructed object compares unequal to the zero value", t);
    Obj k(o);
    need(r, k == q && k.serialize() == enc, "a copy of a default constructed object is not the zero value", t);
    if (enc.size() < 100000) same_tree(r, t, ref::yaml(*t.schema, z), o.yaml_tree(), "");
}

// ---- C19: histories of two objects
struct Hist { std::size_t ti; std::vector<Value> v; std::vector<Bytes> enc; std::vector<ref::Chunk> root; std::vector<std::string> yaml; std::vector<Bytes> bad; std::string bad_yaml; };
std::vector<Hist> hist;
void make_hist() {
    for (std::size_t ti = 0; ti < T.size(); ++ti) {
        auto& t = T[ti];
        if (mainnet) continue;
        auto sl = gen::slots(*t.schema);
        Hist h;
        h.ti = ti;
        auto add = [&](gen::Spec s) {
            for (std::size_t i = 0; i < sl.size(); ++i) s.len[i] = std::min<long long>(s.len[i], (long long)sl[i].t->n);
            h.v.push_back(gen::build(*t.schema, s));
        };
        h.v.push_back(ref::zero(*t.schema));
        add({std::vector<long long>(sl.size(), 1), 0, gen::PATTERN});
        add({std::vector<long long>(sl.size(), 3), 1, gen::PATTERN2});
        add({std::vector<long long>(sl.size(), 2), 0, gen::ONES});
        // two long values of the same shape
        std::size_t zero = ref::encode(*t.schema, h.v[0]).size();
        if (!sl.empty() && zero < 1000)
            for (auto f : {gen::PATTERN, gen::PATTERN2}) {
                gen::Spec s;
                for (auto& x : sl) s.len.push_back(x.t->k == Type::BITLIST ? 4001 : x.nested || x.t->elem->fixed == 0 ? 2 : 70);
                s.fill = f;
                add(s);
            }
        for (auto& v : h.v) {
            h.enc.push_back(ref::encode(*t.schema, v));
            h.root.push_back(ref::root(*t.schema, v));
            h.yaml.push_back(ytext(*t.schema, v));
        }
        auto bad = [&](Bytes b) { if (!ref::decode(*t.schema, b)) h.bad.push_back(std::move(b)); };
        Bytes x = h.enc[2];
        x.pop_back();
        bad(x);  // fails at the end
        x = h.enc[2];
        x.push_back(0xff);
        bad(x);
        if (t.schema->k == Type::CONT) {
            auto y = ref::yaml(*t.schema, h.v[2]);
            y.seq.pop_back();
            y.keys.pop_back();
            ref::yaml_text(y, h.bad_yaml, true);
        } else
            h.bad_yaml = "{a: [1, 2], b: 3}";
        std::vector<std::size_t> offs, j;
        find_offsets(*t.schema, h.enc[2], 0, h.enc[2].size(), offs, j);
        if (!offs.empty()) { x = h.enc[2]; for (int i = 0; i < 4; ++i) x[offs.back() + std::size_t(i)] = 0xff; bad(x); }
        while (h.bad.size() > 2) h.bad.erase(h.bad.begin() + 1);
        hist.push_back(std::move(h));
    }
}
// operations on (o0, o1)
enum { D0, D1, D2, D3, BAD0, BAD1, Y0, Y1, Y2, BADY, COPY01, COPY10, MOVE01, MOVE10, SELF, READ, CTOR, D1_1, SWAP, D4, D5, NOPS };
const char* op_names[] = {"o0.decode(v0)", "o0.decode(v1)", "o0.decode(v2)", "o0.decode(v3)", "o0.decode(bad0)", "o0.decode(bad1)", "o0.yaml(v0)", "o0.yaml(v1)", "o0.yaml(v2)", "o0.yaml(damaged)", "o0 = o1", "o1 = o0", "o0 = move(o1)", "o1 = move(o0)", "o0 = o0", "read both", "o1 = T(o0)", "o1.decode(v1)", "swap(o0, o1)", "o0.decode(v4)", "o0.decode(v5)"};
int c_states, c_trans, c_seqs;
std::vector<std::pair<int, int>> model_step(std::pair<int, int> s, int op) {
    auto [a, b] = s;
    switch (op) {
        case D0: case Y0: a = 0; break;
        case D1: case Y1: a = 1; break;
        case D2: case Y2: a = 2; break;
        case D3: a = 3; break;
        case D4: a = 4; break;
        case D5: a = 5; break;
        case BAD0: case BAD1: case BADY: a = -1; break;
        case COPY01: a = b; break;
        case COPY10: case CTOR: b = a; break;
        case MOVE01: a = b; b = -1; break;
        case MOVE10: b = a; a = -1; break;
        case D1_1: b = 1; break;
        case SWAP: std::swap(a, b); break;
        default: break;
    }
    return {{a, b}};
}
int hist_depth(const TypeOps& t) {
    std::size_t n = ref::encode(*t.schema, ref::zero(*t.schema)).size();
    if (n > 4000) return thorough() ? 4 : 2;
    if (t.consensus) return thorough() ? 4 : 3;
    return thorough() ? 4 : 3;
}
// longer histories of fewer operations
constexpr unsigned long deep_ops = 1ul << D0 | 1ul << D1 | 1ul << D2 | 1ul << BAD0 | 1ul << Y1 | 1ul << COPY10 | 1ul << MOVE01 | 1ul << READ | 1ul << D1_1 | 1ul << D5;
void gen_hist(const Emit& emit, bool deep) {
    for (std::size_t h = 0; h < hist.size(); ++h) {
        int d = hist_depth(T[hist[h].ti]);
        // the run covers the last operation as well: one case per prefix, all its extensions by one operation
        std::function<void(Ints&)> rec = [&](Ints& c) {
            if (int(c.size()) == d) { emit(c); return; }
            for (int op = 0; op < (hist[h].v.size() > 4 ? NOPS : D4); ++op)
                if (!deep || (deep_ops >> op & 1)) { c.push_back(op); rec(c); c.pop_back(); }
        };
        if (deep) d += 1 + (thorough() && d < 5);
        Ints c{(long long)h};
        rec(c);
    }
}
void hist_check(Run& r, const TypeOps& t, const Hist& h, Obj& o, int v, const char* which) {
    if (v < 0) return;
    Bytes s = o.serialize();
    if (s != h.enc[std::size_t(v)]) r.fail("%s: after this history %s does not encode its value: %s", t.name.c_str(), which, diff(h.enc[std::size_t(v)], s).c_str());
    if (o.root() != h.root[std::size_t(v)]) r.fail("%s: after this history the root of %s is not that of its value", t.name.c_str(), which);
}
void run_hist(const Ints& c, Run& r) {
    auto& h = hist[std::size_t(c[0])];
    auto& t = T[h.ti];
    r.distinct(mc::hash_ints(c));
    r.desc("%s:", t.name.c_str());
    for (std::size_t i = 1; i < c.size(); ++i) r.desc(" %s;", op_names[c[i]]);
    for (int last = 0; last < (h.v.size() > 4 ? NOPS : D4); ++last) {
        Obj o0(t, 0x00), o1(t, 0xff);
        std::pair<int, int> s{0, 0};
        auto step = [&](int op) {
            switch (op) {
                case D0: case D1: case D2: case D3: need(r, o0.deserialize(h.enc[std::size_t(op - D0)]), "a valid encoding was refused", t); break;
                case D4: case D5: need(r, o0.deserialize(h.enc[std::size_t(4 + op - D4)]), "a valid encoding was refused", t); break;
                case BAD0: case BAD1:
                    if (h.bad.size() <= std::size_t(op - BAD0)) return;
                    need(r, !o0.deserialize(h.bad[std::size_t(op - BAD0)]), "an invalid encoding was accepted", t);
                    break;
                case Y0: case Y1: case Y2: need(r, o0.yaml_load(h.yaml[std::size_t(op - Y0)]), "valid YAML was refused", t); break;
                case BADY: {
                    // a document whose last field is missing, or a map where a scalar or list belongs
                    bool ok = false;
                    try { ok = o0.yaml_load(h.bad_yaml); } catch (const std::exception&) {}
                    need(r, !ok, "a damaged document was accepted", t);
                    break;
                }
                case COPY01: o0 = static_cast<const Obj&>(o1); break;
                case COPY10: o1 = static_cast<const Obj&>(o0); break;
                case MOVE01: o0 = std::move(o1); break;
                case MOVE10: o1 = std::move(o0); break;
                case SELF: o0 = static_cast<const Obj&>(o0); break;
                case READ: hist_check(r, t, h, o0, s.first, "o0"); hist_check(r, t, h, o1, s.second, "o1"); (void)(o0 == o1); break;
                case CTOR: { Obj k(static_cast<const Obj&>(o0)); o1 = std::move(k); break; }
                case D1_1: need(r, o1.deserialize(h.enc[1]), "a valid encoding was refused", t); break;
                case SWAP: { Obj k(std::move(o0)); o0 = std::move(o1); o1 = std::move(k); break; }
            }
            s = model_step(s, op)[0];
        };
        for (std::size_t i = 1; i < c.size(); ++i) step(int(c[i]));
        step(last);
        r.count(c_trans, (long long)c.size());
        r.count(c_seqs);
        hist_check(r, t, h, o0, s.first, "o0");
        hist_check(r, t, h, o1, s.second, "o1");
        if (s.first >= 0 && s.second >= 0) {
            bool want = h.enc[std::size_t(s.first)] == h.enc[std::size_t(s.second)];
            if ((o0 == o1) != want || (o0 != o1) == want) r.fail("%s: after this history and '%s' the two objects compare %s", t.name.c_str(), op_names[last], want ? "unequal" : "equal");
        }
        if (s.first >= 0) {
            Obj f(t);
            need(r, f.deserialize(h.enc[std::size_t(s.first)]), "a valid encoding was refused", t);
            if (!(o0 == f)) r.fail("%s: after this history and '%s' o0 compares unequal to a new object with its value", t.name.c_str(), op_names[last]);
        }
    }
}
// Everything that can be done with an object of one type, judged; the object is left with value v, if that is not negative.
void use_all(Run& r, const Hist& h, Obj& o, int v, const char* when) {
    auto& t = T[h.ti];
    for (std::size_t k = 0; k < h.v.size(); ++k) {
        need(r, o.deserialize(h.enc[k]), when, t);
        if (o.serialize() != h.enc[k]) r.fail("%s: %s, its value number %zu is encoded wrongly", t.name.c_str(), when, k);
        if (o.root() != h.root[k]) r.fail("%s: %s, the root of its value number %zu is wrong", t.name.c_str(), when, k);
        if (h.enc[k].size() < 4000) {
            Obj y(t, 0xff);
            need(r, y.yaml_load(h.yaml[k]), when, t);
            if (y.serialize() != h.enc[k] || !(y == o)) r.fail("%s: %s, its value number %zu is read from YAML wrongly", t.name.c_str(), when, k);
            same_tree(r, t, ref::yaml(*t.schema, h.v[k]), o.yaml_tree(), when);
        }
    }
    for (auto& b : h.bad) need(r, !o.deserialize(b), when, t);
    if (h.enc[0].size() < 4000) {
        bool ok = false;
        try { ok = o.yaml_load(h.bad_yaml); } catch (const std::exception&) {}
        need(r, !ok, when, t);
    }
    if (v >= 0) need(r, o.deserialize(h.enc[std::size_t(v)]), when, t);
}
void run_pair(const Ints& c, Run& r) {
    auto &x = hist[std::size_t(c[0])], &y = hist[std::size_t(c[1])];
    auto &tx = T[x.ti], &ty = T[y.ti];
    r.distinct(mc::hash_ints(c));
    r.desc("%s used, then %s, then %s again", tx.name.c_str(), ty.name.c_str(), tx.name.c_str());
    Obj a(tx, 0x5a), kept(tx, 0xa5);
    need(r, kept.deserialize(x.enc[1]), "a valid encoding was refused", tx);
    use_all(r, x, a, 2, "used first");
    for (int round = 0; round < 2; ++round) {
        Obj b(ty, 0xff);
        if (b.serialize() != y.enc[0] || b.root() != y.root[0]) r.fail("%s: a new object made after %s was used is not the zero value", ty.name.c_str(), tx.name.c_str());
        use_all(r, y, b, -1, ("used after " + tx.name).c_str());
    }
    std::string after = "after " + ty.name + " was used";
    for (auto* o : {&a, &kept}) {
        int k = o == &a ? 2 : 1;
        if (o->serialize() != x.enc[std::size_t(k)] || o->root() != x.root[std::size_t(k)]) r.fail("%s: its object has changed %s", tx.name.c_str(), after.c_str());
    }
    r.count(c_seqs);
}

std::vector<Family> families() {
    register_a(T);
    register_b(T);
    register_c(T);
    if (!(mainnet && (is("C19")))) { register_d(T); register_e(T); register_f(T); }
    // In the second build the types that do not depend on the preset are explored less.
    if (mainnet && !thorough()) {
        std::vector<TypeOps> k;
        for (auto& t : T) if (t.consensus) k.push_back(t);
        T = k;
    }
    std::vector<Family> f;
    if (is("C07") || is("C08") || is("C11") || is("C13")) {
        int sc = is("C13") ? 2 : is("C07") ? 1 : 0;
        if (mainnet) sc = std::max(sc, 2);
        f.push_back({"shapes", "every type; all combinations of small list lengths, each list through its lengths with the others small, five content patterns", [sc](const Emit& e) { gen_shapes(e, sc); }, run_shape});
        f.push_back({"long", "lists and bitlists of 65537 to 2097155 elements, as far as limit and size allow", gen_long, run_shape, 240});
        make_bases(is("C13") ? 0 : thorough() ? 2 : 0);
        f.push_back({"bits", "every base value with each bit (long encodings: one bit of each byte) of its encoding flipped, where that is a valid encoding", gen_bits, run_bits});
        f.push_back({"integers", "every base value with each integer replaced by 20 boundary values", gen_edges, run_edges});
        if (is("C13")) f.push_back({"damaged", "documents with each field missing, or of a wrong kind in three ways, or a list or bit field beyond its limit, or a bit field that is no encoding of one", [](const Emit& e) {
            for (std::size_t ti = 0; ti < T.size(); ++ti) {
                if (huge(T[ti])) continue;
                auto sl = gen::slots(*T[ti].schema);
                Value v = gen::build(*T[ti].schema, {std::vector<long long>(sl.size(), 1), 0, gen::PATTERN});
                std::vector<YPath> p; std::vector<std::size_t> cur;
                walk_schema_paths(*T[ti].schema, v, cur, p);
                if (T[ti].schema->k == Type::LIST && T[ti].schema->n <= 2100) e({(long long)ti, -1, 4});
                for (std::size_t i = 0; i < p.size(); ++i) for (int k = 0; k < 7; ++k) e({(long long)ti, (long long)i, k});
            }
        }, run_yaml_damage});
    }
    if (is("C12")) {
        make_bases(thorough() ? 2 : 1);
        f.push_back({"bits", "every base value against itself with each bit (long encodings: one bit of each byte) of its encoding flipped, where that is a valid encoding", gen_bits, run_bits});
        f.push_back({"lengths", "every pair of lengths up to 9 of each list, three contents", gen_lenpairs, run_lenpairs});
        f.push_back({"long", "lists of up to 65538 elements (as far as size allows) or up to the limit, that differ in one element: the first and last, and those around powers of two", gen_longpairs, run_longpairs});
    }
    if (is("C26") && !&mcalloc::state) { fprintf(stderr, "built without counting\n"); exit(2); }
    if (is("C09") || is("C10") || is("C26")) {
        c_accept = mc::counter("canonical_inputs");
        c_refuse = mc::counter("non_canonical_inputs");
        make_bases(thorough() ? 2 : is("C10") || is("C26") ? 0 : 1);
        make_infos();
        if (is("C10") && !mainnet) f.push_back({"huge", "a bit list of 2^31 + d bits, d = 9 (thorough -1, 0, 1, 8, 9): decoded, encoded, hashed, copied, compared", gen_huge, run_huge, 1200});
        f.push_back({"short", "every byte string up to 1 or 2 bytes (thorough: 3) for every type", gen_short, run_short});
        f.push_back({"sizes", "constant bytes of every length up to several hundred or thousand, for every type", gen_sizes, run_sizes});
        f.push_back({"mutations", "base encodings of every type: all truncations, extensions, single byte edits, offset values, pairs of offset values, erasures, insertions, repetitions, gaps, truncations with an offset at the new end", gen_mutations, run_mutation});
        f.push_back({"tables", "lists of variable sized elements: all inputs of up to 16 bytes that are two offsets and a filling, all offset tables of up to 3 boundary values", gen_tables, run_tables});
        f.push_back({"limits", "list lengths up to and beyond each limit", [](const Emit& e) { gen_shapes(e, 2, 3); }, run_over});
    }
    if (is("C24")) {
        c_accept = mc::counter("canonical_inputs");
        c_refuse = mc::counter("non_canonical_inputs");
        make_bases(0);
        make_infos();
        f.push_back({"shapes", "every type; all combinations of small list lengths, each list through its lengths with the others small, five content patterns: round trip, encoding, root, YAML", [](const Emit& e) { gen_shapes(e, 2); }, run_shape});
        f.push_back({"short", "every byte string of up to 1 byte (thorough: 2) for every type is decoded as specified", gen_short, run_short});
        f.push_back({"sizes", "constant bytes of every length up to several hundred or thousand, for every type", gen_sizes, run_sizes});
        f.push_back({"mutations", "base encodings of every type: truncations, extensions, byte edits, offset values, erasures, insertions, gaps", gen_mutations, run_mutation});
        f.push_back({"tables", "lists of variable sized elements: all inputs of up to 16 bytes that are two offsets and a filling, all offset tables of up to 3 boundary values", gen_tables, run_tables});
        f.push_back({"default", "every type, constructed over five memory contents, in pairs", [](const Emit& e) {
            for (std::size_t ti = 0; ti < T.size(); ++ti) for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) e({(long long)ti, a, b});
        }, run_default});
    }
    if (is("C20"))
        f.push_back({"default", "every type, constructed over five memory contents, in pairs", [](const Emit& e) {
            for (std::size_t ti = 0; ti < T.size(); ++ti) for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) e({(long long)ti, a, b});
        }, run_default});
    if (is("C19")) {
        make_hist();
        c_trans = mc::counter("operations_executed");
        c_seqs = mc::counter("sequences_replayed");
        c_states = mc::counter("model_states");
        int ct = mc::counter("model_transitions");
        // the abstract state graph: which value each object holds, -1 for unspecified
        Run r;
        for (int nops : {int(D4), int(NOPS)}) {
            std::set<std::pair<int, int>> seen{{0, 0}}, todo{{0, 0}};
            long long tr = 0, types = 0;
            for (auto& h : hist) types += (h.v.size() > 4) == (nops == NOPS);
            while (!todo.empty()) {
                auto s = *todo.begin();
                todo.erase(todo.begin());
                for (int op = 0; op < nops; ++op) { ++tr; for (auto n : model_step(s, op)) if (seen.insert(n).second) todo.insert(n); }
            }
            r.count(c_states, (long long)seen.size() * types);
            r.count(ct, tr * types);
        }
        f.push_back({"histories", "every sequence of operations on two objects up to the depth, for every type: decode (valid, invalid), YAML, copy, move, self-assignment, swap, reads; all values compared with the model at the end", [](const Emit& e) { gen_hist(e, false); }, run_hist});
        f.push_back({"deep", "longer sequences over ten of the operations, the last one being any", [](const Emit& e) { gen_hist(e, true); }, run_hist});
        f.push_back({"pairs", "every ordered pair of types, in a new process: everything is done with the first, then with the second, then the objects of the first are judged again (quick: only one of the two is larger than 4000 bytes)", [](const Emit& e) {
            auto big = [](std::size_t k) { return hist[k].enc[0].size() > 4000; };
            for (std::size_t x = 0; x < hist.size(); ++x) for (std::size_t y = 0; y < hist.size(); ++y) if (thorough() || !big(x) || !big(y)) e({(long long)x, (long long)y});
        }, run_pair, 60, true});
    }
    return f;
}
}  // namespace
int main(int argc, char** argv) { return mc::main(argc, argv, families); }
