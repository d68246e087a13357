// C28: the work of an operation grows with its input and no faster; it does not grow with repetition.
// The library and the adapters are compiled so that every edge of the control flow is reported; the bytes moved by the
// C library's functions and the blocks hashed by the assembly routines are counted where they are called.
#include <algorithm>
#include <csetjmp>
#include <cstring>
#include <map>

#include "gen.hpp"
#include "mc.hpp"
#include "ops.hpp"
#include "phase0.hpp"
using mc::Family;
using mc::Ints;
using mc::Run;
using std::string;
using std::vector;
using Bv = vector<std::uint8_t>;

namespace {
enum What { EDGES, BYTES, BLOCKS, NWHAT };
const double least[NWHAT] = {8, 8, 0.125};  // per byte: no more than this is never too much
const char* const unit[NWHAT] = {"control flow edges executed", "bytes moved by the C library", "blocks hashed"};
struct Count { long long n[NWHAT]; };
bool counting;
Count now, most;
sigjmp_buf out_of_bounds;
inline void add(What w, std::size_t k) {
    if (!counting) return;
    now.n[w] += (long long)k;
    if (now.n[w] > most.n[w]) { counting = false; siglongjmp(out_of_bounds, 1); }
}
}  // namespace
extern "C" {
void __sanitizer_cov_trace_pc() { add(EDGES, 1); }
// These stand in for the C library's in the program and in every shared library.
void* memcpy(void* a, const void* b, std::size_t n) {
    add(BYTES, n);
    void* r = a;
    asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* a, const void* b, std::size_t n) {
    auto d = static_cast<char*>(a);
    auto s = static_cast<const char*>(b);
    if (d <= s || d >= s + n) return memcpy(a, b, n);
    add(BYTES, n);
    std::size_t k = n;
    for (; k >= 8; k -= 8) { std::uint64_t x; __builtin_memcpy(&x, s + k - 8, 8); __builtin_memcpy(d + k - 8, &x, 8); }
    while (k--) { d[k] = s[k]; asm volatile("" : : : "memory"); }
    return a;
}
void* memset(void* a, int b, std::size_t n) {
    add(BYTES, n);
    void* r = a;
    asm volatile("rep stosb" : "+D"(a), "+c"(n) : "a"(b) : "memory");
    return r;
}
int memcmp(const void* a, const void* b, std::size_t n) {
    add(BYTES, n);
    auto x = static_cast<const unsigned char*>(a);
    auto y = static_cast<const unsigned char*>(b);
    for (std::size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, std::size_t n) { return memcmp(a, b, n); }
#define HASH(name) \
    __attribute__((weak)) void __real_##name(unsigned char*, const unsigned char*, std::size_t); \
    void __wrap_##name(unsigned char* o, const unsigned char* i, std::size_t n) { add(BLOCKS, n); __real_##name(o, i, n); }
HASH(sha256_shani)
HASH(sha256_8_avx2)
HASH(sha256_4_avx)
}

namespace {
vector<TypeOps> T;
constexpr long long FREE = 1ll << 60;
// Runs f with its work counted; false: it exceeded the limit and was left.
template <class F>
bool measure(const Count& limit, Count& got, const F& f) {
    most = limit;
    now = Count{};
    bool done = false;
    if (sigsetjmp(out_of_bounds, 0) == 0) {
        counting = true;
        try { f(); } catch (const std::exception&) {}
        counting = false;
        done = true;
    }
    got = now;
    return done;
}

enum Act { DECODE, REFUSE_LONG, REFUSE_SHORT, REFUSE_LAST, REFUSE_ALL, REFUSE_OFFSETS, REFUSE_ZERO, REFUSE_FF, REDECODE, ENCODE, ROOT, EQUAL, COPY, ASSIGN, DESTROY, SIZE, YAML_READ, YAML_WRITE, NACT };
const char* const act_name[NACT] = {"decoding", "decoding (one byte too many)", "decoding (one byte too few)", "decoding (last byte changed)", "decoding (all bytes inverted)", "decoding (each offset the end)",
    "decoding as many zeros", "decoding as many bytes 0xff", "decoding a second time", "encoding", "hashing", "comparing", "copying", "assigning", "destroying", "measuring", "reading from YAML", "writing to YAML"};
struct Point { std::size_t n; Count c; };
// Bytes per length: the shapes that grow
struct Shape { std::size_t slot; int mode; };  // slot: which list grows; all of them if there is none of that number
vector<long long> sizes_of(const TypeOps& t, const Shape& sh) {
    auto sl = gen::slots(*t.schema);
    vector<long long> v;
    std::size_t cap = mc::opt.thorough() ? 1 << 23 : 1 << 20;
    long long lim = 0;
    for (std::size_t i = 0; i < sl.size(); ++i) if (sh.slot >= sl.size() || sh.slot == i) lim = std::max(lim, (long long)std::min<std::uint64_t>(sl[i].t->n, 1ull << 40));
    for (long long l = 0; l <= lim; l = l < 4 ? l + 1 : l * 2) {
        gen::Spec s;
        double est = 1;
        for (std::size_t i = 0; i < sl.size(); ++i) {
            bool grows = sh.slot >= sl.size() || sh.slot == i;
            long long x = std::min<long long>(grows ? l : 1, (long long)std::min<std::uint64_t>(sl[i].t->n, 1ull << 40));
            if (grows) { double e = sl[i].t->k == ref::Type::BITLIST ? x / 8.0 : double(x) * double(gen::elem_size(*sl[i].t)); est = sl[i].nested ? est * (1 + double(x)) : est + e; }
        }
        if (est > double(cap) && v.size() > 3) break;
        v.push_back(l);
    }
    return v;
}
ref::Value value_of(const TypeOps& t, const Shape& sh, long long l) {
    auto sl = gen::slots(*t.schema);
    gen::Spec s;
    for (std::size_t i = 0; i < sl.size(); ++i) {
        bool grows = sh.slot >= sl.size() || sh.slot == i;
        s.len.push_back((long long)std::min<std::uint64_t>(grows ? (std::uint64_t)l : 1, sl[i].t->n));
    }
    s.mode = sh.mode;
    return gen::build(*t.schema, s);
}
int c_ops;
// Decoding what is refused may end anywhere, so its cost is compared with that of decoding what is accepted.
bool like_decoding(int a) { return a >= REFUSE_LONG && a <= REFUSE_FF; }
// All operations on one value; hist holds the work of the smaller ones.
void point(Run& r, const TypeOps& t, ref::Value val, bool counts, std::map<int, vector<Point>>& hist) {
    auto e = ref::encode(*t.schema, val);
    string text;
    if (e.size() <= (mc::opt.thorough() ? 1u << 20 : 1u << 17)) ref::yaml_text(ref::yaml(*t.schema, val), text, true);
    val = {};
    Obj* o = new Obj(t);
    for (int a = 0; a < NACT; ++a) {
        if ((a == YAML_READ || a == YAML_WRITE) && text.empty()) continue;
        // the work of smaller inputs, per byte, bounds that of larger ones
        std::size_t n = std::max<std::size_t>(e.size(), 64);
        Count lim;
        auto& base = hist[like_decoding(a) ? DECODE : a];
        bool judged = false;
        for (int w = 0; w < NWHAT; ++w) {
            double per = 0;
            for (auto& p : base) if (8 * p.n <= n || (like_decoding(a) && p.n <= n)) { per = std::max({per, least[w], double(p.c.n[w]) / double(p.n)}); judged = true; }
            lim.n[w] = judged ? (long long)(4 * per * double(n)) + 10000 : FREE;
        }
        Count got;
        bool ok = true, accepted = true;
        Bv x = e;
        switch (a) {
            case REFUSE_LONG: x.push_back(0); break;
            case REFUSE_SHORT: if (!x.empty()) x.pop_back(); break;
            case REFUSE_LAST: if (!x.empty()) x.back() ^= 0xff; break;
            case REFUSE_ALL: for (auto& b : x) b = std::uint8_t(~b); break;
            case REFUSE_OFFSETS: {
                // a table of offsets as large as the input
                Bv y;
                x.resize(x.size() / 4 * 4);
                for (std::size_t i = 0; i < x.size(); i += 4) ref::put32(y, x.size());
                x = y;
                break;
            }
            case REFUSE_ZERO: std::fill(x.begin(), x.end(), 0); break;
            case REFUSE_FF: std::fill(x.begin(), x.end(), 0xff); break;
            default: break;
        }
        if (like_decoding(a)) {
            auto* q = new Obj(t);
            ok = measure(lim, got, [&] { (void)q->deserialize(x); });
            if (ok) delete q;
        } else {
            switch (a) {
                case DECODE: case REDECODE: ok = measure(lim, got, [&] { accepted = o->deserialize(e); }); break;
                case ENCODE: { Bv s; ok = measure(lim, got, [&] { s = o->serialize(); }); break; }
                case ROOT: ok = measure(lim, got, [&] { (void)o->root(); }); break;
                case EQUAL: { Obj p(*o); ok = measure(lim, got, [&] { accepted = p == *o; }); break; }
                case COPY: { void* m = Obj::mem(t, 0); ok = measure(lim, got, [&] { t.copy_make(m, o->ptr()); }); if (ok) t.destroy(m); free(m); break; }
                case ASSIGN: { auto* p = new Obj(t); ok = measure(lim, got, [&] { *p = *o; }); if (ok) delete p; break; }
                case DESTROY: { void* m = Obj::mem(t, 0); t.copy_make(m, o->ptr()); ok = measure(lim, got, [&] { t.destroy(m); }); free(m); break; }
                case SIZE: ok = measure(lim, got, [&] { (void)o->ssz_size(); }); break;
                case YAML_READ: { auto* p = new Obj(t); ok = measure(lim, got, [&] { accepted = p->yaml_load(text); }); if (ok) delete p; break; }
                case YAML_WRITE: { ref::Y y; ok = measure(lim, got, [&] { (void)o->yaml_dump(); }); break; }
            }
            if (ok && !accepted) r.fail("%s: %s went wrong", t.name.c_str(), act_name[a]);
        }
        r.count(c_ops);
        if (!ok) {
            int w = 0;
            while (w < NWHAT - 1 && got.n[w] <= lim.n[w]) ++w;
            string h;
            for (auto& p : base) h += " " + std::to_string(p.n) + ":" + std::to_string(p.c.n[w]);
            r.fail("%s: %s %zu bytes takes more than %lld %s; for fewer bytes it took%s", t.name.c_str(), act_name[a], e.size(), lim.n[w], unit[w], h.c_str());
        }
        if (r.verbose) fprintf(stderr, "  %s, %zu bytes: %s: %lld edges, %lld bytes moved, %lld blocks\n", t.name.c_str(), e.size(), act_name[a], got.n[0], got.n[1], got.n[2]);
        if (!like_decoding(a) && counts) base.push_back({n, got});
    }
    delete o;
}
void run_growth(const Ints& v, Run& r) {
    auto& t = T[std::size_t(v[0])];
    Shape sh{std::size_t(v[1]), int(v[2])};
    r.desc("%s: %s lists of growing length", t.name.c_str(), sh.slot >= gen::slots(*t.schema).size() ? "all" : ("number " + std::to_string(sh.slot) + " of its").c_str());
    r.distinct(mc::hash_ints(v));
    std::map<int, vector<Point>> hist;
    for (auto l : sizes_of(t, sh)) point(r, t, value_of(t, sh, l), l >= 2, hist);
}
vector<vector<std::size_t>> groups;
void run_sizes(const Ints& v, Run& r) {
    auto& g = groups[std::size_t(v[0])];
    r.desc("%s to %s", T[g[0]].name.c_str(), T[g.back()].name.c_str());
    r.distinct(mc::hash_ints(v));
    std::map<int, vector<Point>> hist;
    for (auto t : g) point(r, T[t], value_of(T[t], {99, 0}, 1), T[t].schema->fixed >= 64, hist);
}
void run_repeat(const Ints& v, Run& r) {
    auto& t = T[std::size_t(v[0])];
    r.desc("%s: every operation again and again", t.name.c_str());
    r.distinct(mc::hash_ints(v));
    auto sl = gen::slots(*t.schema);
    Bv e[2];
    string text[2];
    for (int k = 0; k < 2; ++k) {
        auto val = value_of(t, {99, 0}, 2 + k);
        e[k] = ref::encode(*t.schema, val);
        ref::yaml_text(ref::yaml(*t.schema, val), text[k], true);
    }
    bool big = e[0].size() > 20000;
    auto* o = new Obj(t);
    Count first[2][8]{};
    int rounds = big ? 20 : 200;
    for (int i = 0; i < rounds; ++i) {
        auto& b = e[i % 2];
        for (int a = 0; a < 8; ++a) {
            if (big && a >= 6) continue;
            Count lim, got;
            auto& f = first[i % 2][a];
            for (int w = 0; w < NWHAT; ++w) lim.n[w] = i < 10 ? FREE : 3 * f.n[w] + 1000;
            bool ok = measure(lim, got, [&] {
                switch (a) {
                    case 0: o->deserialize(b); break;
                    case 1: (void)o->serialize(); break;
                    case 2: (void)o->root(); break;
                    case 3: { Obj p(*o); (void)(p == *o); break; }
                    case 4: { Obj p(t); p = *o; *o = std::move(p); break; }
                    case 5: { Obj p(t); p.deserialize(b); break; }
                    case 6: o->yaml_load(text[i % 2]); break;
                    case 7: (void)o->yaml_dump(); break;
                }
            });
            r.count(c_ops);
            if (!ok) r.fail("%s: operation number %d of 8, done for the %dth time, takes more than three times the work of the first times", t.name.c_str(), a, i + 1);
            if (i < 10) for (int w = 0; w < NWHAT; ++w) f.n[w] = std::max(f.n[w], got.n[w]);
        }
    }
    delete o;
}
vector<Family> families() {
    register_a(T); register_b(T); register_c(T); register_d(T); register_e(T); register_f(T);
    c_ops = mc::counter("operations_measured");
    // the fixed sized types that differ in a number only
    std::map<string, vector<std::size_t>> by;
    for (std::size_t i = 0; i < T.size(); ++i) {
        auto x = T[i].name;
        if (!T[i].schema->fixed || T[i].consensus) continue;
        while (!x.empty() && (isdigit((unsigned char)x.back()) || x.back() == ']')) x.pop_back();
        by[x].push_back(i);
    }
    for (auto& [k, g] : by) {
        std::stable_sort(g.begin(), g.end(), [](auto a, auto b) { return T[a].schema->fixed < T[b].schema->fixed; });
        if (g.size() > 2) groups.push_back(g);
    }
    vector<Family> f;
    f.push_back({"sizes", "Bytes, bit vectors and vectors of integers, booleans, byte strings and validators, by template, from 64 bytes to 32 KiB and more: the same for the 18 operations on types of growing size",
                 [](auto& go) { for (std::size_t g = 0; g < groups.size(); ++g) go({(long long)g}); }, run_sizes, 600});
    f.push_back({"growth", "every type x each of its lists growing alone, and all together, from empty to 1 MiB (thorough: 8 MiB; YAML: 128 KiB, 1 MiB) or the limit, by doubling x 18 operations (decoding valid and seven kinds of invalid bytes, encoding, hashing, comparing, copying, ...): edges, bytes moved and blocks hashed per byte of input are at most 4 times the most for any input of at most an eighth of the size",
                 [](auto& go) {
                     for (std::size_t t = 0; t < T.size(); ++t) {
                         auto n = gen::slots(*T[t].schema).size();
                         for (std::size_t s = 0; s < n; ++s) go({(long long)t, (long long)s, 0});
                         go({(long long)t, 99, 0});
                         go({(long long)t, 99, 2});
                     }
                 },
                 run_growth, 600});
    f.push_back({"repeat", "every type x 8 operations, done 200 times (objects above 20000 bytes: 20) on two values by turns: never more than three times the work of the first ten times",
                 [](auto& go) { for (std::size_t t = 0; t < T.size(); ++t) go({(long long)t}); }, run_repeat, 600});
    return f;
}
}  // namespace
int main(int argc, char** argv) { return mc::main(argc, argv, families); }
