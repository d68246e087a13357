// C23: fields, accessors and elements are the ones of the encoding.
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/validator.hpp"
#include "common/containers.hpp"
#include "gen.hpp"
#include "mc.hpp"
#include "phase0.hpp"
using namespace eth;
using mc::Family;
using mc::Ints;
using mc::Run;
using std::string;
using std::vector;
using u8 = std::uint8_t;

namespace {
#ifdef MC_MAINNET
const phase0::Preset& preset() { return phase0::mainnet; }
#else
const phase0::Preset& preset() { return phase0::minimal; }
#endif
int c_evals;
std::map<string, const ref::Type*>& schemas() { static auto m = phase0::containers(preset()); return m; }

// on the heap: a state is larger than a stack
template <class T> std::unique_ptr<T> decoded(const ref::Bytes& b, const string& what) {
    auto t = std::make_unique<T>();
    if (!t->deserialize(b.cbegin(), b.cend())) throw mc::Violation{what + " could not be decoded"};
    return t;
}
// Length specifications: all slots at the same small length, each slot alone longer, and growing lengths.
vector<gen::Spec> specs(const ref::Type& t) {
    auto sl = gen::slots(t);
    vector<gen::Spec> o;
    auto add = [&](vector<long long> l) {
        for (std::size_t i = 0; i < l.size(); ++i) l[i] = std::min<long long>(l[i], (long long)std::min<std::uint64_t>(sl[i].t->n, 1 << 20));
        for (int mode = 0; mode < 3; ++mode)
            for (int fill : {gen::PATTERN, gen::ZEROS, gen::ONES, gen::EQUAL}) {
                gen::Spec s;
                s.len = l;
                s.mode = mode;
                s.fill = fill;
                o.push_back(s);
            }
    };
    add(vector<long long>(sl.size(), 0));
    if (sl.empty()) return o;
    for (long long k : {1, 2, 3}) add(vector<long long>(sl.size(), k));
    vector<long long> up;
    for (std::size_t i = 0; i < sl.size(); ++i) up.push_back((long long)i + 1);
    add(up);
    for (std::size_t i = 0; i < sl.size(); ++i) {
        vector<long long> l(sl.size(), 1);
        l[i] = sl[i].t->k == ref::Type::BITLIST ? 67 : 5;
        add(l);
        l.assign(sl.size(), 2);
        l[i] = 0;
        add(l);
    }
    return o;
}
template <class T> struct Field {
    string name;
    ref::Bytes (*get)(const T&);
    void (*set)(T&, const T&);
};
struct Any {
    string name;
    const ref::Type* t;
    vector<gen::Spec> specs;
    std::function<void(const ref::Value&, const ref::Value&, std::size_t, Run&)> run;
    std::size_t nfields;
};
template <class T> Any any(const string& name, vector<Field<T>> f) {
    const ref::Type* t = schemas().at(name);
    Any a{name, t, specs(*t), nullptr, f.size()};
    if (f.size() != t->fields.size()) { fprintf(stderr, "%s: %zu fields\n", name.c_str(), f.size()); exit(2); }
    a.run = [name, t, f](const ref::Value& v, const ref::Value& w, std::size_t k, Run& r) {
        auto bv = ref::encode(*t, v), bw = ref::encode(*t, w);
        auto px = decoded<T>(bv, name), py = decoded<T>(bw, name);
        T &x = *px, &y = *py;
        for (std::size_t i = 0; i < f.size(); ++i) {
            auto& fld = *std::find_if(f.begin(), f.end(), [&](auto& q) { return q.name == t->fields[i].first; });
            auto want = ref::encode(*t->fields[i].second, v.kids[i]);
            auto got = fld.get(x);
            if (got != want) r.fail("%s::%s holds %s, encoded was %s", name.c_str(), fld.name.c_str(), mc::hex(got.data(), got.size()).c_str(), mc::hex(want.data(), want.size()).c_str());
            r.count(c_evals);
        }
        if (x.serialize() != bv) r.fail("%s: reading the fields changed the object", name.c_str());
        auto& fld = *std::find_if(f.begin(), f.end(), [&](auto& q) { return q.name == t->fields[k].first; });
        if (fld.set) {
            fld.set(x, y);
            auto m = v;
            m.kids[k] = w.kids[k];
            auto bm = ref::encode(*t, m);
            auto got = x.serialize();
            if (got != bm) r.fail("%s after its %s was assigned is encoded as %s, want %s", name.c_str(), fld.name.c_str(), mc::hex(got.data(), got.size()).c_str(), mc::hex(bm.data(), bm.size()).c_str());
            if (x.hash_tree_root() != ref::root(*t, m)) r.fail("%s after its %s was assigned has a wrong root", name.c_str(), fld.name.c_str());
            if (!(x == *decoded<T>(bm, name))) r.fail("%s after its %s was assigned differs from the same value decoded", name.c_str(), fld.name.c_str());
            if (y.serialize() != bw) r.fail("assigning %s::%s changed the source", name.c_str(), fld.name.c_str());
            r.count(c_evals);
        }
    };
    return a;
}
#define P(n) {#n, [](const X& x) -> ref::Bytes { return x.n.serialize(); }, [](X& x, const X& y) { x.n = y.n; }}
#define A(n) {#n, [](const X& x) -> ref::Bytes { return x.n().serialize(); }, nullptr}
template <class X> Any make(const char*);
#define TYPE(T, ...) template <> Any make<T>(const char* n) { using X = T; return any<X>(n, {__VA_ARGS__}); }
TYPE(Fork, P(previous_version), P(current_version), P(epoch))
TYPE(ForkData, P(current_version), P(genesis_validators_root))
TYPE(Checkpoint, P(epoch), P(root))
TYPE(SigningData, P(object_root), P(domain))
TYPE(AttestationData, P(slot), P(index), P(beacon_block_root), P(source), P(target))
TYPE(IndexedAttestation, P(attesting_indices), P(data), P(signature))
TYPE(PendingAttestation, P(aggregation_bits), P(data), P(inclusion_delay), P(proposer_index))
TYPE(Attestation, P(aggregation_bits), P(data), P(signature))
TYPE(Eth1Data, P(deposit_root), P(deposit_count), P(block_hash))
TYPE(DepositMessage, P(pubkey), P(withdrawal_credentials), P(amount))
TYPE(DepositData, P(pubkey), P(withdrawal_credentials), P(amount), P(signature))
TYPE(Deposit, P(proof), P(data))
TYPE(BeaconBlockHeader, P(slot), P(proposer_index), P(parent_root), P(state_root), P(body_root))
TYPE(SignedBeaconBlockHeader, P(message), P(signature))
TYPE(VoluntaryExit, P(epoch), P(validator_index))
TYPE(SignedVoluntaryExit, P(message), P(signature))
TYPE(ProposerSlashing, P(signed_header_1), P(signed_header_2))
TYPE(AttesterSlashing, P(attestation_1), P(attestation_2))
TYPE(BeaconBlockBody, A(randao_reveal), A(eth1_data), A(graffiti), A(proposer_slashings), A(attester_slashings), A(attestations), A(deposits), A(voluntary_exits))
TYPE(BeaconBlock, A(slot), A(proposer_index), A(parent_root), A(state_root), A(body))
TYPE(SignedBeaconBlock, P(message), P(signature))
TYPE(BeaconState, A(genesis_time), A(genesis_validators_root), A(slot), A(fork), A(latest_block_header), A(block_roots), A(state_roots), A(historical_roots), A(eth1_data), A(eth1_data_votes),
     A(eth1_deposit_index), A(validators), A(balances), A(randao_mixes), A(slashings), A(previous_epoch_attestations), A(current_epoch_attestations), A(justification_bits),
     A(previous_justified_checkpoint), A(current_justified_checkpoint), A(finalized_checkpoint))
const vector<Any>& all() {
    static const vector<Any> v = [] {
        vector<Any> o;
#define M(T) o.push_back(make<T>(#T));
        M(Fork) M(ForkData) M(Checkpoint) M(SigningData) M(AttestationData) M(IndexedAttestation) M(PendingAttestation) M(Attestation) M(Eth1Data) M(DepositMessage) M(DepositData) M(Deposit) M(BeaconBlockHeader)
        M(SignedBeaconBlockHeader) M(VoluntaryExit) M(SignedVoluntaryExit) M(ProposerSlashing) M(AttesterSlashing) M(BeaconBlockBody) M(BeaconBlock) M(SignedBeaconBlock) M(BeaconState)
        return o;
    }();
    return v;
}

// ---- sequences
struct Seq {
    string name;
    const ref::Type* t;
    std::function<void(long long, long long, Run&)> run;  // length, operation
};
ref::Value seq_value(const ref::Type& t, long long len, int fill, int mode = 1) {
    gen::Spec s;
    auto sl = gen::slots(t);
    for (std::size_t i = 0; i < sl.size(); ++i) s.len.push_back(i == 0 && t.k == ref::Type::LIST ? len : 3);
    s.fill = fill;
    s.mode = mode;
    return gen::build(t, s);
}
template <class X> void elements(const X& c, const ref::Type& t, const ref::Value& v, const char* what, Run& r) {
    if (std::size_t(c.size()) != v.kids.size()) r.fail("%s %s: size() is %zu, want %zu", t.name.c_str(), what, std::size_t(c.size()), v.kids.size());
    if (std::size_t(c.cend() - c.cbegin()) != v.kids.size()) r.fail("%s %s: %zu elements, want %zu", t.name.c_str(), what, std::size_t(c.cend() - c.cbegin()), v.kids.size());
    std::size_t i = 0;
    for (auto it = c.cbegin(); it != c.cend(); ++it, ++i)
        if (it->serialize() != ref::encode(*t.elem, v.kids[i])) r.fail("%s %s: element %zu is %s", t.name.c_str(), what, i, ref::hexstr(it->serialize()).c_str());
    if (c.serialize() != ref::encode(t, v)) r.fail("%s %s: the encoding is not that of its elements", t.name.c_str(), what);
    if (c.hash_tree_root() != ref::root(t, v)) r.fail("%s %s: the root is not that of its elements", t.name.c_str(), what);
    r.count(c_evals);
}
template <class X, class E, bool LIST> Seq seq(const ref::Type* t) {
    Seq s{t->name, t, nullptr};
    s.run = [t](long long len, long long op, Run& r) {
        auto construct = [&] { if constexpr (LIST) return X(std::size_t(t->n)); else return X(); };
        X x = construct();
        if (!LIST) len = (long long)t->n;
        auto v = seq_value(*t, len, gen::PATTERN), w = seq_value(*t, len, gen::PATTERN2);
        auto b = ref::encode(*t, v);
        if (!x.deserialize(b.cbegin(), b.cend())) r.fail("%s: %lld elements could not be decoded", t->name.c_str(), len);
        elements(x, *t, v, "decoded", r);
        const char* what = "?";
        if (op < len) {  // write element op through the iterator
            what = "after an element was written through an iterator";
            auto e = ref::encode(*t->elem, w.kids[std::size_t(op)]);
            E n;
            if (!n.deserialize(e.cbegin(), e.cend())) r.fail("an element could not be decoded");
            *(x.begin() + op) = n;
            v.kids[std::size_t(op)] = w.kids[std::size_t(op)];
            elements(x, *t, v, what, r);
            std::size_t i = 0;
            for (auto& q : std::vector<E>(x.begin(), x.end())) { if (q.serialize() != ref::encode(*t->elem, v.kids[i])) r.fail("%s %s: iterating gives a wrong element %zu", t->name.c_str(), what, i); ++i; }
        } else if constexpr (LIST) {
            if constexpr (requires { x.data(); }) {
                switch (op - len) {
                    case 0: {
                        what = "after an element was removed through data()";
                        if (!len) break;
                        x.data().pop_back();
                        v.kids.pop_back();
                        break;
                    }
                    case 1: {
                        what = "after an element was added through data()";
                        if (std::uint64_t(len) >= t->n) break;
                        auto e = ref::encode(*t->elem, seq_value(*t, len + 1, gen::PATTERN2).kids.back());
                        E n;
                        if (!n.deserialize(e.cbegin(), e.cend())) r.fail("an element could not be decoded");
                        x.data().push_back(n);
                        v.kids.push_back(*ref::decode(*t->elem, e));
                        break;
                    }
                    case 2: {
                        what = "after its elements were cleared through data()";
                        x.data().clear();
                        v.kids.clear();
                        break;
                    }
                    case 3: {
                        what = "filled element by element through data()";
                        X y = construct();
                        for (auto& kid : w.kids) {
                            auto e = ref::encode(*t->elem, kid);
                            E n;
                            if (!n.deserialize(e.cbegin(), e.cend())) r.fail("an element could not be decoded");
                            y.data().push_back(n);
                        }
                        elements(y, *t, w, what, r);
                        break;
                    }
                    case 4: {
                        what = "after its limit was changed";
                        if constexpr (requires { x.limit(std::size_t(1)); }) {
                            for (std::uint64_t lim : {std::uint64_t(len), std::uint64_t(len) + 1, std::uint64_t(len) * 2 + 1, t->n, std::uint64_t(1) << 40}) {
                                if (!lim) continue;
                                auto t2 = ref::list(t->elem, lim);
                                x.limit(std::size_t(lim));
                                elements(x, *t2, v, what, r);
                                if (!x.deserialize(b.cbegin(), b.cend())) r.fail("%s: %lld elements are refused under the limit %llu", t->name.c_str(), len, (unsigned long long)lim);
                            }
                            if (len > 1) {
                                x.limit(std::size_t(len - 1));
                                if (x.deserialize(b.cbegin(), b.cend())) r.fail("%s: %lld elements are accepted under the limit %lld", t->name.c_str(), len, len - 1);
                                x.limit(std::size_t(len));
                                if (!x.deserialize(b.cbegin(), b.cend())) r.fail("%s: %lld elements are refused under the limit %lld", t->name.c_str(), len, len);
                            }
                            x.limit(std::size_t(t->n));
                        }
                        break;
                    }
                }
                elements(x, *t, v, what, r);
            }
        }
        r.desc("%s with %lld elements, %s", t->name.c_str(), len, what);
        r.distinct(mc::hash_ints({len, op}, mc::fnv(t->name.data(), t->name.size())));
    };
    return s;
}
const vector<Seq>& seqs() {
    static const vector<Seq> v = [] {
        auto& s = schemas();
        auto u = ref::u64(), b32 = ref::bytes(32);
        vector<Seq> o;
        o.push_back(seq<VectorFixedSizedParts<Slot, 1>, Slot, false>(ref::vec(u, 1)));
        o.push_back(seq<VectorFixedSizedParts<Slot, 9>, Slot, false>(ref::vec(u, 9)));
        o.push_back(seq<VectorFixedSizedParts<Boolean, 33>, Boolean, false>(ref::vec(ref::boolean(), 33)));
        o.push_back(seq<VectorFixedSizedParts<Root, 33>, Root, false>(ref::vec(b32, 33)));
        o.push_back(seq<VectorFixedSizedParts<Checkpoint, 3>, Checkpoint, false>(ref::vec(s["Checkpoint"], 3)));
        o.push_back(seq<ListFixedSizedParts<Slot>, Slot, true>(ref::list(u, 20)));
        o.push_back(seq<ListFixedSizedParts<Boolean>, Boolean, true>(ref::list(ref::boolean(), 70)));
        o.push_back(seq<ListFixedSizedParts<Root>, Root, true>(ref::list(b32, 16777216)));
        o.push_back(seq<ListFixedSizedParts<Validator>, Validator, true>(ref::list(s["Validator"], 1099511627776ull)));
        o.push_back(seq<ListFixedSizedParts<Deposit>, Deposit, true>(ref::list(s["Deposit"], 16)));
        o.push_back(seq<ListFixedSizedParts<Eth1Data>, Eth1Data, true>(ref::list(s["Eth1Data"], 32)));
        o.push_back(seq<ListVariableSizedParts<Attestation>, Attestation, true>(ref::list(s["Attestation"], 128)));
        o.push_back(seq<ListVariableSizedParts<AttesterSlashing>, AttesterSlashing, true>(ref::list(s["AttesterSlashing"], 2)));
        return o;
    }();
    return v;
}
vector<Family> families() {
    vector<Family> f;
    f.push_back({"fields", "every container with named fields x a grid of list lengths (all 0..3, rising, each list alone longer or empty) x 3 nestings x 4 fills x every field: each field read by name is the encoded one; assigning one public field from another value changes that field of the encoding, root and equality only",
                 [](auto& go) {
                     for (std::size_t i = 0; i < all().size(); ++i) {
                         auto n = all()[i].specs.size();
                         bool big = all()[i].t->fixed == 0 && all()[i].name == "BeaconState" && preset().epochs_per_historical_vector > 64;
                         for (std::size_t a = 0; a < n; a += big && !mc::opt.thorough() ? 12 : 1)
                             for (std::size_t k = 0; k < (all()[i].name.starts_with("Beacon") && all()[i].name != "BeaconBlockHeader" ? 1 : all()[i].nfields); ++k) {
                                 go({(long long)i, (long long)a, (long long)(a * 7 + 5) % (long long)n, (long long)k});
                                 if (mc::opt.thorough() && !big) for (std::size_t b = 0; b < n; b += 5) go({(long long)i, (long long)a, (long long)b, (long long)k});
                             }
                     }
                 },
                 [](const Ints& v, Run& r) {
                     auto& a = all()[std::size_t(v[0])];
                     auto x = gen::build(*a.t, a.specs[std::size_t(v[1])]);
                     auto sw = a.specs[std::size_t(v[2])];
                     if (sw.fill == gen::PATTERN) sw.fill = gen::PATTERN2;
                     auto y = gen::build(*a.t, sw);
                     a.run(x, y, std::size_t(v[3]), r);
                     r.desc("%s, value %lld, field %s from value %lld", a.name.c_str(), v[1], a.t->fields[std::size_t(v[3])].first.c_str(), v[2]);
                     r.distinct(mc::hash_ints(v, 2300));
                 }});
    f.push_back({"elements", "13 kinds of vectors and lists, every length up to 20 (thorough 64), one write per element, additions and removals through data(), changes of the limit: size, elements, encoding and root follow",
                 [](auto& go) {
                     for (std::size_t i = 0; i < seqs().size(); ++i) {
                         auto& s = seqs()[i];
                         long long cap = mc::opt.thorough() ? 64 : 20;
                         if (s.t->k == ref::Type::VECTOR) { for (long long op = 0; op < (long long)s.t->n; ++op) go({(long long)i, 0, op}); continue; }
                         for (long long l = 0; l <= cap && std::uint64_t(l) <= s.t->n; ++l) for (long long op = 0; op < l + 5; ++op) go({(long long)i, l, op});
                     }
                 },
                 [](const Ints& v, Run& r) { seqs()[std::size_t(v[0])].run(v[1], v[2], r); }});
    return f;
}
}  // namespace
int main(int argc, char** argv) {
    c_evals = mc::counter("operations_judged");
    return mc::main(argc, argv, families);
}
