// C04: every place where one thread can be preempted inside an operation, with another thread running there.
//
// The operation of thread A is executed one machine instruction at a time. In front of every instruction of this
// program (the library is linked into it; the system's libraries are not interrupted) the process is duplicated; in
// the duplicate another thread B runs all operations to their end, or up to each of its own instructions, then A
// continues. What A and B computed has to be what they compute alone.
#include <sstream>

#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/validator.hpp"
#include "common/containers.hpp"
#include "gen.hpp"
#include "helpers/math.hpp"
#include "mc.hpp"
#include "phase0.hpp"
#include "sched.hpp"
#include "ssz/hashtree.hpp"
using namespace eth;
using mc::Family;
using mc::Ints;
using mc::Run;
using ssz::Hasher;

namespace {
std::map<string, const ref::Type*>& schemas() { static auto m = phase0::containers(phase0::minimal); return m; }

// ---- the operations
struct Ctx {  // what one thread works on
    Bv in[16];                   // blocks to hash
    vector<ssz::Chunk> chunks;
    Bv att_b, ia_b, body_b, val_b, slots_b, roots_b, bits_b, bv_b, vec_b, cp_b;
    string att_y, cp_y, bits_y;
    Attestation att, att2;
    IndexedAttestation ia;
    std::unique_ptr<BeaconBlockBody> body;
    Validator val;
    Checkpoint cp;
    ListFixedSizedParts<Slot> slots{100};
    ListFixedSizedParts<Root> roots{9};
    ListVariableSizedParts<Attestation> atts{3};
    VectorFixedSizedParts<Root, 5> vec;
    Bitlist bits{2048};
    Bitvector<9> bv;
    Slot slot;
    Bytes32 b32;
    std::uint64_t n = 0;
    const BeaconState* state = nullptr;
};
template <class T> void load(T& t, const Bv& b) { if (!t.deserialize(b.cbegin(), b.cend())) { fprintf(stderr, "cannot set up\n"); _exit(2); } }
Bv enc(const ref::Type* t, int fill, long long len) {
    gen::Spec s;
    for (std::size_t i = 0; i < gen::slots(*t).size(); ++i) s.len.push_back(len);
    s.fill = fill;
    s.mode = 1;
    return ref::encode(*t, gen::build(*t, s));
}
Ctx* make_ctx(int k) {
    auto& S = schemas();
    auto* c = new Ctx;
    int fill = k ? gen::PATTERN2 : gen::PATTERN;
    for (std::size_t n = 0; n < 16; ++n) for (std::size_t j = 0; j < 64 * n; ++j) c->in[n].push_back(std::uint8_t(mc::mix(j * 31 + n + std::size_t(k) * 1000) >> 9));
    c->chunks.resize(5);
    for (std::size_t i = 0; i < 5; ++i) for (std::size_t j = 0; j < 32; ++j) c->chunks[i][j] = std::uint8_t(mc::mix(i * 32 + j + std::size_t(k) * 777) >> 5);
    auto u = ref::u64(), r = ref::bytes(32);
    c->att_b = enc(S["Attestation"], fill, k ? 11 : 20);
    c->ia_b = enc(S["IndexedAttestation"], fill, k ? 3 : 5);
    c->body_b = enc(S["BeaconBlockBody"], fill, 1);
    c->val_b = enc(S["Validator"], fill, 0);
    c->cp_b = enc(S["Checkpoint"], fill, 0);
    c->slots_b = enc(ref::list(u, 100), fill, k ? 9 : 6);
    c->roots_b = enc(ref::list(r, 9), fill, k ? 3 : 4);
    c->vec_b = enc(ref::vec(r, 5), fill, 0);
    c->bits_b = enc(ref::bitlist(2048), fill, k ? 30 : 19);
    c->bv_b = enc(ref::bitvec(9), fill, 0);
    auto al = enc(ref::list(S["Attestation"], 3), fill, 2);
    load(c->att, c->att_b);
    c->att2 = c->att;
    load(c->ia, c->ia_b);
    c->body = std::make_unique<BeaconBlockBody>();
    load(*c->body, c->body_b);
    load(c->val, c->val_b);
    load(c->cp, c->cp_b);
    load(c->slots, c->slots_b);
    load(c->roots, c->roots_b);
    load(c->atts, al);
    load(c->vec, c->vec_b);
    load(c->bits, c->bits_b);
    load(c->bv, c->bv_b);
    for (int j = 0; j < 32; ++j) c->b32[std::size_t(j)] = std::uint8_t(mc::mix(std::uint64_t(j + 50 * k)) >> 3);
    c->slot = mc::mix(std::uint64_t(k) + 3);
    c->n = mc::mix(std::uint64_t(k) + 4);
    ref::yaml_text(ref::yaml(*S["Checkpoint"], *ref::decode(*S["Checkpoint"], c->cp_b)), c->cp_y, true);
    c->bits_y = ref::hexstr(c->bits_b);
    static const BeaconState* st = new BeaconState;
    c->state = st;
    return c;
}
Bv bytes(const ssz::Chunk& c) { return Bv(c.begin(), c.end()); }
Bv bytes(const string& s) { return Bv(s.begin(), s.end()); }
struct Op {
    string name;
    std::function<Bv(const Ctx&)> run;
};
template <class T> Bv reread(T t, const Bv& b) {
    Bv o{std::uint8_t(t.deserialize(b.cbegin(), b.cend()))};
    auto s = t.serialize();
    o.insert(o.end(), s.begin(), s.end());
    return o;
}
const vector<Op>& ops() {
    static const vector<Op> v = [] {
        vector<Op> o;
        static const char* names[] = {"SSE", "AVX", "AVX2", "SHA"};
        Hasher::IMPL impls[] = {Hasher::IMPL::SSE, Hasher::IMPL::AVX, Hasher::IMPL::AVX2, Hasher::IMPL::SHA};
        for (int i = 0; i < 4; ++i) {
            if (!(Hasher::implemented() & impls[i])) continue;
            vector<std::size_t> ns{1};
            if (i == 1) ns.push_back(4);
            if (i == 2) ns.push_back(8);
            if (i == 3) { ns.push_back(2); ns.push_back(3); }
            if (mc::opt.thorough()) { ns.push_back(5); ns.push_back(13); }
            for (auto n : ns)
                o.push_back({string("hash ") + std::to_string(n) + " blocks with " + names[i], [n, impl = impls[i]](const Ctx& c) {
                                 Bv out(32 * n);
                                 Hasher(impl).hash_64b_blocks(out.data(), c.in[n].data(), n);
                                 return out;
                             }});
        }
        o.push_back({"hash 3 blocks with the default", [](const Ctx& c) { Bv out(96); Hasher().hash_64b_blocks(out.data(), c.in[3].data(), 3); return out; }});
        o.push_back({"detect implementations", [](const Ctx&) { return Bv{std::uint8_t(Hasher::implemented())}; }});
        o.push_back({"Merkle tree of 5 chunks, limit 9", [](const Ctx& c) { ssz::HashTree t(c.chunks, 9); t.mix_in(5); Bv r; for (auto& x : t.hash_tree()) r.insert(r.end(), x.begin(), x.end()); return r; }});
        o.push_back({"Merkle tree of 130 bytes", [](const Ctx& c) { Bv b(c.in[3].begin(), c.in[3].begin() + 130); ssz::HashTree t(b, 0); return bytes(t.hash_tree_root()); }});
        o.push_back({"Slot root", [](const Ctx& c) { return bytes(c.slot.hash_tree_root()); }});
        o.push_back({"Bytes32 root", [](const Ctx& c) { return bytes(c.b32.hash_tree_root()); }});
        o.push_back({"Slot list root", [](const Ctx& c) { return bytes(c.slots.hash_tree_root()); }});
        o.push_back({"Root list root", [](const Ctx& c) { return bytes(c.roots.hash_tree_root()); }});
        o.push_back({"Root vector root", [](const Ctx& c) { return bytes(c.vec.hash_tree_root()); }});
        o.push_back({"Bitlist root", [](const Ctx& c) { return bytes(c.bits.hash_tree_root()); }});
        o.push_back({"Bitvector root", [](const Ctx& c) { return bytes(c.bv.hash_tree_root()); }});
        o.push_back({"Checkpoint root", [](const Ctx& c) { return bytes(c.cp.hash_tree_root()); }});
        o.push_back({"Validator root", [](const Ctx& c) { return bytes(c.val.hash_tree_root()); }});
        o.push_back({"Attestation root", [](const Ctx& c) { return bytes(c.att.hash_tree_root()); }});
        o.push_back({"Attestation list root", [](const Ctx& c) { return bytes(c.atts.hash_tree_root()); }});
        o.push_back({"Attestation serialize", [](const Ctx& c) { return c.att.serialize(); }});
        o.push_back({"Attestation list serialize", [](const Ctx& c) { return c.atts.serialize(); }});
        o.push_back({"BeaconBlockBody serialize", [](const Ctx& c) { return c.body->serialize(); }});
        o.push_back({"Validator serialize", [](const Ctx& c) { return c.val.serialize(); }});
        o.push_back({"Slot list serialize", [](const Ctx& c) { return c.slots.serialize(); }});
        o.push_back({"Bitlist serialize", [](const Ctx& c) { return c.bits.serialize(); }});
        o.push_back({"Attestation deserialize", [](const Ctx& c) { return reread(Attestation{}, c.att_b); }});
        o.push_back({"IndexedAttestation deserialize", [](const Ctx& c) { return reread(IndexedAttestation{}, c.ia_b); }});
        o.push_back({"Validator deserialize", [](const Ctx& c) { return reread(Validator{}, c.val_b); }});
        o.push_back({"Root list deserialize", [](const Ctx& c) { return reread(ListFixedSizedParts<Root>{9}, c.roots_b); }});
        o.push_back({"Bitlist deserialize", [](const Ctx& c) { return reread(Bitlist{2048}, c.bits_b); }});
        o.push_back({"Bitvector deserialize", [](const Ctx& c) { return reread(Bitvector<9>{}, c.bv_b); }});
        o.push_back({"Attestation equality", [](const Ctx& c) { return Bv{std::uint8_t(c.att == c.att2), std::uint8_t(c.att.data == c.ia.data)}; }});
        o.push_back({"is_slashable, is_valid", [](const Ctx& c) { return Bv{std::uint8_t(c.att.data.is_slashable(c.ia.data)), std::uint8_t(c.ia.is_valid(*c.state))}; }});
        o.push_back({"validator predicates", [](const Ctx& c) { return Bv{std::uint8_t(c.val.is_active(c.slot)), std::uint8_t(c.val.is_slashable(c.slot)), std::uint8_t(c.val.is_eligible_for_activation_queue())}; }});
        o.push_back({"Attestation copy", [](const Ctx& c) { Attestation a = c.att, b; b = a; Attestation m = std::move(a); return m == b ? b.serialize() : Bv{}; }});
        o.push_back({"Bytes32 text", [](const Ctx& c) { auto s = c.b32.to_string(); Bytes32 b; b.from_string(s); return b.serialize(); }});
        o.push_back({"Bitlist text", [](const Ctx& c) { Bitlist b{2048}; b.from_hexstring(c.bits_y); return bytes(b.to_string()); }});
        o.push_back({"Bitvector text", [](const Ctx& c) { Bitvector<9> b; b.from_hexstring(c.bv.to_string()); return b.serialize(); }});
        o.push_back({"printing bits", [](const Ctx& c) { std::ostringstream s; s << c.bits << c.bv; return bytes(s.str()); }});
        o.push_back({"Checkpoint to YAML", [](const Ctx& c) { auto n = c.cp.encode(); return bytes(n["epoch"].Scalar() + n["root"].Scalar()); }});
        o.push_back({"Checkpoint from YAML", [](const Ctx& c) { Checkpoint p; bool ok = p.decode(YAML::Load(c.cp_y)); auto b = p.serialize(); b.push_back(ok); return b; }});
        o.push_back({"integer functions", [](const Ctx& c) {
                         auto s = helpers::integer_squareroot<std::uint64_t>(c.n);
                         return Bytes8{s}.serialize();
                     }});
        o.push_back({"log2ceil", [](const Ctx& c) { return Bv{std::uint8_t(helpers::log2ceil(c.n >> 7))}; }});
        if (mc::opt.thorough()) o.push_back({"BeaconBlockBody root", [](const Ctx& c) { return bytes(c.body->hash_tree_root()); }});
        return o;
    }();
    return v;
}
Bv everything(const Ctx& c) {
    Bv o;
    for (auto& op : ops()) {
        auto r = op.run(c);
        o.push_back(std::uint8_t(r.size()));
        o.insert(o.end(), r.begin(), r.end());
    }
    return o;
}

struct Measured { long long places[2], total[2], changes[2]; };
vector<Measured> measured;
int c_sched, c_instr, c_static, c_blocked;

void measure() {
    for (auto& op : ops()) {
        Measured m{};
        for (int warm = 0; warm < 2; ++warm) {
            long long out[3];
            // set up in a duplicate, then measure there
            int fd[2];
            if (pipe(fd)) { perror("pipe"); _exit(2); }
            pid_t q = fork();
            if (q == 0) {
                close(fd[0]);
                const Ctx* c = make_ctx(0);
                if (warm) { op.run(*c); everything(*c); }
                alone([&] { return op.run(*c); }, true, out);
                if (write(fd[1], out, sizeof out) != sizeof out) _exit(1);
                _exit(0);
            }
            close(fd[1]);
            ssize_t n = read(fd[0], out, sizeof out);
            close(fd[0]);
            int st;
            waitpid(q, &st, 0);
            if (n != sizeof out) { fprintf(stderr, "cannot measure %s\n", op.name.c_str()); exit(2); }
            m.places[warm] = out[0];
            m.total[warm] = out[1];
            m.changes[warm] = out[2];
        }
        measured.push_back(m);
    }
}

void run_case(const Ints& v, Run& r, bool two) {
    // operation, warm, shared, first place, end, (operation of B, places of B)
    auto& op = ops()[std::size_t(v[0])];
    bool warm = v[1], shared = v[2];
    const Ctx *a = make_ctx(0), *b = shared ? a : make_ctx(1);
    std::function<Bv()> fa = [&] { return op.run(*a); }, fb = [&] { return two ? ops()[std::size_t(v[5])].run(*b) : everything(*b); };
    auto wa = alone(fa), wb = alone(fb);
    if (warm) { fa(); fb(); }
    setup_process();
    install();
    SC->mode = two ? PREEMPT2 : PREEMPT;
    SC->lo = v[3];
    SC->hi = v[4];
    if (two) SC->bn = v[6];
    SC->b = &fb;
    run_stepped(fa, &wa, &wb);
    SC->mode = OFF;
    r.count(c_sched, SC->c_sched);
    r.count(c_blocked, SC->c_blocked);
    if (v[3] == 0 && !shared && !two) { r.count(c_instr, measured[std::size_t(v[0])].total[warm]); r.count(c_static, measured[std::size_t(v[0])].changes[warm]); }
    r.desc("%s, preempted at instructions %lld..%lld by %s %s, %s (%d schedules)", op.name.c_str(), v[3], v[4] - 1, two ? ops()[std::size_t(v[5])].name.c_str() : "all operations", shared ? "on the same const objects" : "on other objects",
           warm ? "after both were used" : "first use", SC->c_sched);
    if (!SC->bad.empty()) r.fail("%s (%s, %s): %s", op.name.c_str(), shared ? "same const objects" : "distinct objects", warm ? "warm" : "first use", SC->bad.c_str());
}

vector<Family> families() {
    c_sched = mc::counter("schedules");
    c_instr = mc::counter("instructions_stepped");
    c_static = mc::counter("instructions_that_changed_static_storage");
    c_blocked = mc::counter("schedules_where_B_waited_for_A");
    measure();
    vector<Family> f;
    bool T = mc::opt.thorough();
    f.push_back({"one-preemption", "every operation as thread A x first use or warm x B on other objects or on the same const objects x preemption of A in front of each of its instructions of this program: B runs all operations to the end there, then A continues",
                 [](auto& go) {
                     const long long C = 200;
                     for (std::size_t i = 0; i < ops().size(); ++i)
                         for (int warm = 0; warm < 2; ++warm)
                             for (int shared = 0; shared < 2; ++shared)
                                 for (long long k = 0; k < measured[i].places[warm] + 20; k += C) go({(long long)i, warm, shared, k, k + C});
                 },
                 [](const Ints& v, Run& r) { run_case(v, r, false); }, 120, true});
    const long long cap = T ? 1200000 : 30000;
    f.push_back({"two-preemptions", "pairs of operations with at most 30000 (thorough 1200000) pairs of places: A is preempted in front of each of its instructions, B there runs up to each of its own and waits until A has ended, then B ends",
                 [cap](auto& go) {
                     for (std::size_t i = 0; i < ops().size(); ++i)
                         for (std::size_t j = 0; j < ops().size(); ++j) {
                             long long n = measured[i].places[0], m = measured[j].places[0];
                             if (n * m > cap || (i != j && n * m > cap / 10)) continue;
                             for (int shared = 0; shared < 2; ++shared)
                                 for (long long k = 0; k < n + 5; k += std::max(1ll, 200 / std::max(1ll, m))) go({(long long)i, 0, shared, k, k + std::max(1ll, 200 / std::max(1ll, m)), (long long)j, m + 5});
                         }
                 },
                 [](const Ints& v, Run& r) { run_case(v, r, true); }, 120, true});
    return f;
}
}  // namespace
int main(int argc, char** argv) { return mc::main(argc, argv, families); }
