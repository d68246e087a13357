// C25: every allocation of every operation of every type is refused once.
#include <algorithm>

#include "alloc.hpp"
#include "gen.hpp"
#include "mc.hpp"
#include "ops.hpp"
#include "phase0.hpp"
using mc::Family;
using mc::Ints;
using mc::Run;
using std::string;
using std::vector;
using Bv = vector<std::uint8_t>;

namespace {
vector<TypeOps> T;
struct Input { Bv enc[2], bad; string yaml[2]; bool big; };
vector<Input> inputs;
void make_inputs() {
    for (auto& t : T) {
        Input in;
        for (int k = 0; k < 2; ++k) {
            gen::Spec s;
            for (auto& sl : gen::slots(*t.schema)) s.len.push_back((long long)std::min<std::uint64_t>(sl.t->n ? sl.t->n : 100, sl.t->k == ref::Type::BITLIST ? (k ? 11 : 300) : sl.nested ? 2 - k : k ? 2 : 3));
            s.fill = k ? gen::PATTERN2 : gen::PATTERN;
            auto v = gen::build(*t.schema, s);
            in.enc[k] = ref::encode(*t.schema, v);
            ref::yaml_text(ref::yaml(*t.schema, v), in.yaml[k], true);
        }
        in.bad = in.enc[0];
        in.bad.push_back(0xff);
        in.bad.push_back(0xff);
        in.big = in.enc[0].size() > 3000;
        inputs.push_back(in);
    }
}
// One run of an operation: o is only read, m may be changed.
struct Ctx {
    const TypeOps& t;
    const Input& in;
    const void* o;   // holds enc[0]
    void* m;         // holds enc[1]
    void* fresh;     // memory of no object
    bool made = false;
    Bv result;
};
void flat(Bv& o, const ref::Y& y) {
    o.push_back(std::uint8_t(y.k));
    o.insert(o.end(), y.s.begin(), y.s.end());
    for (std::size_t i = 0; i < y.seq.size(); ++i) { if (i < y.keys.size()) o.insert(o.end(), y.keys[i].begin(), y.keys[i].end()); flat(o, y.seq[i]); }
}
enum Kind { READ, MAKE, CHANGE };
struct Act { const char* name; Kind kind; bool yaml; void (*run)(Ctx&); };
const Act acts[] = {
    {"root", READ, false, [](Ctx& c) { auto h = c.t.root(c.o); c.result.assign(h.begin(), h.end()); }},
    {"serialize", READ, false, [](Ctx& c) { c.result = c.t.serialize(c.o); }},
    {"comparison", READ, false, [](Ctx& c) { bool e = c.t.eq(c.o, c.m), n = c.t.ne(c.o, c.m), s = c.t.eq(c.o, c.o); c.result.assign({e, n, s}); }},
    {"construction", MAKE, false, [](Ctx& c) { c.t.make(c.fresh); c.made = true; }},
    {"copy construction", MAKE, false, [](Ctx& c) { c.t.copy_make(c.fresh, c.o); c.made = true; }},
    {"copy assignment", CHANGE, false, [](Ctx& c) { c.t.copy_assign(c.m, c.o); }},
    {"move assignment", CHANGE, false, [](Ctx& c) { c.t.copy_make(c.fresh, c.o); c.made = true; c.t.move_assign(c.m, c.fresh); }},
    {"deserialize", CHANGE, false, [](Ctx& c) { bool ok = c.t.deserialize(c.m, c.in.enc[0], 0, c.in.enc[0].size()); c.result.assign({ok}); }},
    {"deserialize into a new object", MAKE, false, [](Ctx& c) { c.t.make(c.fresh); c.made = true; bool ok = c.t.deserialize(c.fresh, c.in.enc[0], 0, c.in.enc[0].size()); c.result.assign({ok}); }},
    {"deserialize invalid bytes", CHANGE, false, [](Ctx& c) { c.t.deserialize(c.m, c.in.bad, 0, c.in.bad.size()); }},
    {"encode as YAML", READ, true, [](Ctx& c) { flat(c.result, c.t.yaml_tree(c.o)); }},
    {"decode YAML", CHANGE, true, [](Ctx& c) { bool ok = c.t.yaml_load(c.m, c.in.yaml[0]); c.result.assign({ok}); }},
};
constexpr int NACTS = sizeof acts / sizeof *acts;
struct Outcome { bool threw = false, fired = false; long long calls = 0, leaked = 0; string what; };
// Runs act a with its allocation number k refused (0: none) and judges what is left.
Outcome attempt(std::size_t ti, int a, long long k, const Bv* want, Bv* got, Run& r) {
    auto& t = T[ti];
    auto& in = inputs[ti];
    auto& S = mcalloc::state;
    Outcome out;
    long long before = S.blocks;
    {
        Obj o(t), m(t);
        void* fresh = Obj::mem(t, 0x3C);
        if (!o.deserialize(in.enc[0]) || !m.deserialize(in.enc[1])) r.fail("%s: a valid encoding was refused", t.name.c_str());
        Ctx c{t, in, o.ptr(), m.ptr(), fresh, false, {}};
        c.result.reserve(100);
        S.calls = 0;
        S.failed = 0;
        S.fail_at = k;
        S.counting = true;
        try { acts[a].run(c); }
        catch (const std::bad_alloc&) { out.threw = true; out.what = "std::bad_alloc"; }
        catch (const std::exception&) { out.threw = true; out.what = "exception"; }
        S.counting = false;
        S.fail_at = 0;
        out.calls = S.calls;
        out.fired = S.failed > 0;
        auto bad = [&](const char* m) { r.fail("%s: %s, with its allocation number %lld refused: %s", t.name.c_str(), acts[a].name, k, m); };
        if (k && !out.fired) { if (c.made) t.destroy(fresh); free(fresh); return out; }
        if (!out.threw && (!k || !acts[a].yaml)) {  // the standard streams, which yaml-cpp uses, swallow such exceptions
            // it has to be as if memory had not run out
            if (want && c.result != *want) bad("it returned normally with a different result");
            if (acts[a].kind == MAKE && string(acts[a].name) != "construction" && t.serialize(fresh) != in.enc[0]) bad("it returned normally, and the new object has a different value");
            if (acts[a].kind == CHANGE && string(acts[a].name) != "deserialize invalid bytes" && m.serialize() != in.enc[0]) bad("it returned normally, and the object has a different value");
        }
        if (got) *got = c.result;
        // what it only reads has not changed
        if (o.serialize() != in.enc[0]) bad("the object it reads has changed");
        if (acts[a].kind != CHANGE && m.serialize() != in.enc[1]) bad("another object has changed");
        // what it changes can be used and set again
        try {
            if (acts[a].kind == CHANGE) {
                (void)m.serialize();
                if (!acts[a].yaml || !in.big) (void)m.root();
                Obj copy(m);
                if (!(copy == m)) bad("a copy of the object compares unequal");
                if (k % 2) {
                    if (!m.deserialize(in.enc[0])) bad("the object cannot be decoded into again");
                } else
                    t.copy_assign(m.ptr(), o.ptr());
                if (m.serialize() != in.enc[0] || !(m == o) || (!in.big && m.root() != o.root())) bad("the object cannot be set again");
            }
        } catch (const std::exception& e) { bad(("the object cannot be used: " + string(e.what())).c_str()); }
        if (c.made) t.destroy(fresh);
        free(fresh);
        c.result = Bv{};
        out.what = string{};
    }
    out.leaked = S.blocks - before - (got && got->capacity() ? 1 : 0);
    return out;
}
int c_points, c_ops;
constexpr long long CHUNK = 64;
// the number of allocations of an operation
long long calls_of(std::size_t ti, int a) {
    Run r;
    Bv got;
    attempt(ti, a, 0, nullptr, &got, r);
    return attempt(ti, a, 0, nullptr, &got, r).calls;
}
vector<long long> ncalls;
void run_points(const Ints& v, Run& r) {
    auto ti = std::size_t(v[0]);
    int a = int(v[1]);
    r.desc("%s: %s, allocations %lld to %lld of it refused, one at a time", T[ti].name.c_str(), acts[a].name, v[2], v[3] - 1);
    r.distinct(mc::hash_ints(v));
    Bv want;
    attempt(ti, a, 0, nullptr, &want, r);
    r.count(c_ops);
    for (long long k = v[2]; k < v[3]; ++k) {
        auto o = attempt(ti, a, k, &want, nullptr, r);
        if (!o.fired) break;
        r.count(c_points);
        if (o.leaked > 0 && !acts[a].yaml) {
            // what is kept for later is kept once
            long long more = 0;
            for (int i = 0; i < 3; ++i) more += attempt(ti, a, k, &want, nullptr, r).leaked > 0;
            if (more == 3) r.fail("%s: %s, with its allocation number %lld refused: memory is never released", T[ti].name.c_str(), acts[a].name, k);
        }
    }
}
vector<Family> families() {
    register_a(T); register_b(T); register_c(T); register_d(T); register_e(T); register_f(T);
    make_inputs();
    c_points = mc::counter("allocations_refused");
    c_ops = mc::counter("operation_groups");
    for (std::size_t t = 0; t < T.size(); ++t) for (int a = 0; a < NACTS; ++a) ncalls.push_back(calls_of(t, a));
    vector<Family> f;
    f.push_back({"refused", "every type x 12 operations x each of its allocations (quick: at most the first 1500 and the last 64): refused once; the operation throws or gives its right result, what it only reads is unchanged, what it changes can be used, decoded into, assigned and destroyed, nothing leaks",
                 [](auto& go) {
                     for (std::size_t t = 0; t < T.size(); ++t)
                         for (int a = 0; a < NACTS; ++a) {
                             long long n = ncalls[t * NACTS + std::size_t(a)], lim = mc::opt.thorough() ? 1 << 30 : 1500;
                             for (long long k = 1; k <= std::min(n, lim); k += CHUNK) go({(long long)t, a, k, std::min(std::min(n, lim) + 1, k + CHUNK)});
                             if (n > lim) go({(long long)t, a, std::max(lim + 1, n - CHUNK), n + 1});
                         }
                 },
                 run_points, 240});
    return f;
}
}  // namespace
int main(int argc, char** argv) { return mc::main(argc, argv, families); }
