// C04 for every operation of every type.
//
// First the memory an operation shares with others is made read-only: static storage of the program and everything
// allocated before, that is the object, its arguments and what earlier operations left. An operation that runs through
// writes nothing but its own result: every interleaving with others of this kind is equivalent to a sequential one.
// The others are traced: the places of their accesses to the pages they write are the only ones where the order of
// two threads matters, and at each of them the process is duplicated and thread B runs the same operation there.
#include <algorithm>
#include <map>
#include <set>
#include <thread>
#include <tuple>

#include "gen.hpp"
#include "mc.hpp"
#include "ops.hpp"
#include "phase0.hpp"
#include "sched.hpp"
using mc::Family;
using mc::Ints;
using mc::Run;

namespace {
constexpr std::size_t PAGE = 4096, ARENA = 1ull << 32, MAXRANGES = 8, MAXDIRTY = 4096, MAXHITS = 1 << 20, MAXTRACED = 400, MAXSTEPS = 200000, ALL = 3000;
// ---- memory
constexpr std::uint64_t IN_USE = 0x600d600d600d600dull, FREED = 0xdeaddeaddeaddeadull;
struct alignas(4096) Memory {
    char* base;                                    // arenas
    std::atomic<std::size_t> used[2];
    int cur;                                       // where new allocates
    char* ranges[MAXRANGES][2];                    // what is protected
    int nranges;
    char* open;                          // page opened for one instruction
    char* dirty[MAXDIRTY];                         // pages that were written
    int ndirty;
    struct Hit { long long k; std::uintptr_t line; bool write; };
    Hit* hits;                                     // accesses to protected pages
    long nhits;
    bool tracing;
    char fill[4096];
};
constinit Memory M{};
// Everything ever allocated with new lies in an arena: what static initialisation left, too.
void* allocate(std::size_t n) {
    if (!M.base) {
        void* m = mmap(nullptr, 2 * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return nullptr;
        M.base = static_cast<char*>(m);
    }
    n = (n + 31) / 16 * 16;
    auto o = M.used[M.cur].fetch_add(n + 16);
    if (o + n + 16 > ARENA) return nullptr;
    auto* h = reinterpret_cast<std::uint64_t*>(M.base + std::size_t(M.cur) * ARENA + o);
    h[0] = IN_USE;
    h[1] = n;
    return h + 2;
}
// Nothing is used again: what is freed is overwritten, and freed once.
void release(void* p) {
    if (!(M.base && p >= M.base && p < M.base + 2 * ARENA)) { free(p); return; }
    auto* h = static_cast<std::uint64_t*>(p) - 2;
    if (h[0] != IN_USE) abort();
    h[0] = FREED;
    memset(p, 0xDD, h[1]);
}
}  // namespace
void* operator new(std::size_t n) { void* p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }

namespace {
void prepare_memory() {
    M.hits = static_cast<Memory::Hit*>(mmap(nullptr, MAXHITS * sizeof(Memory::Hit), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (M.hits == MAP_FAILED) { perror("mmap"); _exit(2); }
}
void add_range(char* lo, char* hi) { if (lo < hi) { M.ranges[M.nranges][0] = lo; M.ranges[M.nranges][1] = hi; ++M.nranges; } }
// static storage without the handlers' own, and the first arena
void make_ranges() {
    auto up = [](const void* p) { return reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(p) + PAGE - 1) / PAGE * PAGE); };
    auto down = [](const void* p) { return reinterpret_cast<char*>(reinterpret_cast<std::uintptr_t>(p) / PAGE * PAGE); };
    M.nranges = 0;
    std::vector<std::pair<char*, char*>> mine{{reinterpret_cast<char*>(&M), reinterpret_cast<char*>(&M + 1)}, {reinterpret_cast<char*>(&sched_page), reinterpret_cast<char*>(&sched_page + 1)}};
    std::sort(mine.begin(), mine.end());
    char* lo = down(&__data_start);
    for (auto& m : mine) { add_range(lo, m.first); lo = m.second; }
    add_range(lo, up(&_end));
    add_range(M.base, up(M.base + M.used[0]));
}
bool in_ranges(char* p) {
    for (int i = 0; i < M.nranges; ++i) if (p >= M.ranges[i][0] && p < M.ranges[i][1]) return true;
    return false;
}
void protect(int how) { for (int i = 0; i < M.nranges; ++i) mprotect(M.ranges[i][0], std::size_t(M.ranges[i][1] - M.ranges[i][0]), how); }
void on_segv(int, siginfo_t* si, void* uc) {
    int err = errno;
    char* p = reinterpret_cast<char*>(reinterpret_cast<std::uintptr_t>(si->si_addr) / PAGE * PAGE);
    if (M.tracing) {
        bool known = false;
        for (int i = 0; i < M.ndirty; ++i) known |= M.dirty[i] == p;
        if (known) {
            mprotect(p, PAGE, PROT_READ | PROT_WRITE);
            if (M.open && M.open != p) mprotect(M.open, PAGE, PROT_READ | PROT_WRITE);
            M.open = p;
            if (M.nhits < long(MAXHITS)) M.hits[M.nhits++] = {SC->k, reinterpret_cast<std::uintptr_t>(si->si_addr) / 64, bool(static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_ERR] & 2)};
            errno = err;
            return;
        }
    } else if (in_ranges(p)) {
        mprotect(p, PAGE, PROT_READ | PROT_WRITE);
        if (M.ndirty < int(MAXDIRTY)) M.dirty[M.ndirty++] = p;
        errno = err;
        return;
    }
    signal(SIGSEGV, SIG_DFL);
}
void close_page() {
    bool stop = SC->total > (long long)MAXSTEPS;
    if (stop) SC->mode = OFF;
    if (!M.open && !stop) return;
    M.open = nullptr;
    if (stop) { for (int i = 0; i < M.ndirty; ++i) mprotect(M.dirty[i], PAGE, PROT_READ | PROT_WRITE); return; }
    for (int i = 0; i < M.ndirty; ++i) mprotect(M.dirty[i], PAGE, PROT_NONE);
}
void install_segv() {
    struct sigaction sa {};
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigemptyset(&sa.sa_mask);
    sigaction(SIGSEGV, &sa, nullptr);
}

// ---- operations
vector<TypeOps> T;
struct World {
    const TypeOps* t;
    void *o, *p;  // two objects
    Bv enc, other, bad;
    string yaml, bad_yaml;
};
void* raw(const TypeOps& t) { return ::operator new(t.size + 64); }
void* loaded(const TypeOps& t, const Bv& e) {
    void* o = raw(t);
    t.make(o);
    if (!t.deserialize(o, e, 0, e.size())) { fprintf(stderr, "cannot set up %s\n", t.name.c_str()); _exit(2); }
    return o;
}
struct Input { Bv enc[2]; string yaml[2], bad_yaml; };
vector<Input> inputs;
void make_inputs() {
    for (auto& t : T) {
        Input in;
        for (int k = 0; k < 2; ++k) {
            gen::Spec s;
            for (auto& sl : gen::slots(*t.schema)) s.len.push_back((long long)std::min<std::uint64_t>(sl.t->n ? sl.t->n : 100, sl.t->k == ref::Type::BITLIST ? (k ? 11 : 300) : sl.nested ? 2 - k : k ? 2 : 3));
            s.fill = k ? gen::PATTERN2 : gen::PATTERN;
            auto v = gen::build(*t.schema, s);
            in.enc[k] = ref::encode(*t.schema, v);
            ref::yaml_text(ref::yaml(*t.schema, v), in.yaml[k], true);
        }
        in.bad_yaml = "{a: [1, 2], b: 3}";
        inputs.push_back(in);
    }
}
World world(std::size_t ti, int k) {
    auto& in = inputs[ti];
    World w{&T[ti], loaded(T[ti], in.enc[k]), loaded(T[ti], in.enc[1 - k]), in.enc[k], in.enc[1 - k], in.enc[k], in.yaml[k], in.bad_yaml};
    w.bad.push_back(0xff);
    return w;
}
void put(Bv& o, const Bv& x) { o.insert(o.end(), x.begin(), x.end()); }
void flat(Bv& o, const ref::Y& y) {
    o.push_back(std::uint8_t(y.k));
    o.insert(o.end(), y.s.begin(), y.s.end());
    for (std::size_t i = 0; i < y.seq.size(); ++i) { if (i < y.keys.size()) o.insert(o.end(), y.keys[i].begin(), y.keys[i].end()); flat(o, y.seq[i]); }
}
struct Temp {
    const TypeOps& t;
    void* m;
    explicit Temp(const TypeOps& t) : t{t}, m{raw(t)} { t.make(m); }
    Temp(const TypeOps& t, const void* o) : t{t}, m{raw(t)} { t.copy_make(m, o); }
    ~Temp() { t.destroy(m); ::operator delete(m); }
};
struct Act { const char* name; Bv (*run)(const World&); };
const Act acts[] = {
    {"root", [](const World& w) { auto c = w.t->root(w.o); return Bv(c.begin(), c.end()); }},
    {"serialize", [](const World& w) { return w.t->serialize(w.o); }},
    {"comparison", [](const World& w) { return Bv{w.t->eq(w.o, w.p), w.t->ne(w.o, w.p), w.t->eq(w.o, w.o), std::uint8_t(w.t->ssz_size(w.o))}; }},
    {"encode as YAML", [](const World& w) { Bv o; flat(o, w.t->yaml_tree(w.o)); return o; }},
    {"copy", [](const World& w) { Temp a(*w.t, w.o), b(*w.t); w.t->copy_assign(b.m, a.m); return w.t->serialize(b.m); }},
    {"move", [](const World& w) { Temp a(*w.t, w.o), b(*w.t); w.t->move_assign(b.m, a.m); return w.t->serialize(b.m); }},
    {"construction", [](const World& w) { Temp a(*w.t); return w.t->serialize(a.m); }},
    {"deserialize", [](const World& w) { Temp a(*w.t); Bv o{w.t->deserialize(a.m, w.enc, 0, w.enc.size())}; put(o, w.t->serialize(a.m)); return o; }},
    {"deserialize over a copy", [](const World& w) { Temp a(*w.t, w.p); Bv o{w.t->deserialize(a.m, w.enc, 0, w.enc.size())}; put(o, w.t->serialize(a.m)); return o; }},
    {"deserialize invalid bytes", [](const World& w) { Temp a(*w.t); return Bv{w.t->deserialize(a.m, w.bad, 0, w.bad.size())}; }},
    {"decode YAML", [](const World& w) { Temp a(*w.t); Bv o{w.t->yaml_load(a.m, w.yaml)}; put(o, w.t->serialize(a.m)); return o; }},
    {"decode invalid YAML", [](const World& w) { Temp a(*w.t); try { return Bv{w.t->yaml_load(a.m, w.bad_yaml)}; } catch (const std::exception&) { return Bv{7}; } }},
};
constexpr int NACTS = sizeof acts / sizeof *acts;

// ---- in a process of its own: the pages written by one execution
struct Found { int pages; long places; };
// first use; later use; use after the objects were changed
constexpr int NSTATES = 3;
string label(std::size_t ti, int a, int state) { return T[ti].name + ": " + acts[a].name + (state == 0 ? " (first use)" : state == 2 ? " (after a change)" : ""); }
void prepare(std::initializer_list<World*> ws, int a, int state) {
    if (state == 0) return;
    for (auto* x : ws) try { acts[a].run(*x); } catch (...) {}
    if (state < 2) return;
    for (auto* x : ws) {
        bool ok = x->t->deserialize(x->o, x->other, 0, x->other.size()) && x->t->deserialize(x->p, x->enc, 0, x->enc.size());
        if (!ok) _exit(2);
    }
}
void detect_here(const World& w, int a) {
    make_ranges();
    M.cur = 1;
    protect(PROT_READ);
    try { acts[a].run(w); } catch (...) {}
    protect(PROT_READ | PROT_WRITE);
}
// returns the places (of A's instructions) where the order of accesses matters; none if the operation writes nothing shared
vector<long long> places_of(std::size_t ti, int a, int state, int& pages, bool trace) {
    int p[2];
    if (pipe(p)) { perror("pipe"); _exit(2); }
    fflush(stdout);
    pid_t q = fork();
    if (q == 0) {
        close(p[0]);
        M.cur = 0;
        setup_process();
        World w = world(ti, 0), w1 = world(ti, 1);
        prepare({&w, &w1}, a, state);
        install_segv();
        // first which pages, then, in the same state again, which instructions
        int d[2];
        if (pipe(d)) _exit(2);
        pid_t c = fork();
        if (c == 0) {
            detect_here(w, a);
            if (write(d[1], &M.ndirty, sizeof M.ndirty) < 0 || write(d[1], M.dirty, sizeof(char*) * std::size_t(M.ndirty)) < 0) _exit(2);
            _exit(0);
        }
        close(d[1]);
        if (read(d[0], &M.ndirty, sizeof M.ndirty) != sizeof M.ndirty) _exit(2);
        if (M.ndirty && read(d[0], M.dirty, sizeof(char*) * std::size_t(M.ndirty)) != ssize_t(sizeof(char*) * std::size_t(M.ndirty))) _exit(2);
        waitpid(c, nullptr, 0);
        std::set<long long> s;
        if (trace && M.ndirty) {
            install();
            M.cur = 1;
            M.tracing = true;
            SC->mode = TRACE;
            SC->after_step = close_page;
            std::function<Bv()> f = [&] { return acts[a].run(w); };
            for (int i = 0; i < M.ndirty; ++i) mprotect(M.dirty[i], PAGE, PROT_NONE);
            string err;
            set_tf();
            try { f(); } catch (...) {}
            clear_tf();
            SC->mode = OFF;
            for (int i = 0; i < M.ndirty; ++i) mprotect(M.dirty[i], PAGE, PROT_READ | PROT_WRITE);
            // what is near an address that was written counts
            std::set<std::uintptr_t> lines;
            for (long i = 0; i < M.nhits; ++i) if (M.hits[i].write) for (int j = -1; j <= 1; ++j) lines.insert(M.hits[i].line + std::uintptr_t(j));
            for (long i = 0; i < M.nhits; ++i)
                if (lines.count(M.hits[i].line)) for (long long j = -2; j <= 1; ++j) if (M.hits[i].k + j >= 0) s.insert(M.hits[i].k + j);
            if (!s.empty() && *s.rbegin() - *s.begin() <= (long long)ALL) for (long long k = *s.begin(), e = *s.rbegin(); k < e; ++k) s.insert(k);
        }
        vector<long long> o{M.ndirty};
        o.insert(o.end(), s.begin(), s.end());
        auto* b = reinterpret_cast<const char*>(o.data());
        std::size_t n = o.size() * sizeof o[0], k = 0;
        while (k < n) { auto m = write(p[1], b + k, n - k); if (m <= 0) break; k += std::size_t(m); }
        _exit(0);
    }
    close(p[1]);
    string got;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, std::size_t(n));
    close(p[0]);
    int st;
    waitpid(q, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || got.size() < sizeof(long long)) { fprintf(stderr, "%s fails on its own (status %d)\n", label(ti, a, state).c_str(), st); exit(2); }
    vector<long long> o(got.size() / sizeof(long long));
    memcpy(o.data(), got.data(), o.size() * sizeof(long long));
    pages = int(o[0]);
    return {o.begin() + 1, o.end()};
}
struct Flagged { std::size_t ti; int a; int state; int pages; vector<long long> places; };
vector<Flagged> flagged;
int c_indep, c_conf, c_sched, c_blocked, c_ops;

// slices of the operations in processes of their own
vector<Flagged> in_parallel(const vector<std::size_t>& ids, bool trace) {
    std::size_t n = ids.size();
    int W = std::max(1, int(sysconf(_SC_NPROCESSORS_ONLN)));
    vector<pid_t> ps;
    vector<int> fds;
    fflush(stdout);
    for (int w = 0; w < W; ++w) {
        int p[2];
        if (pipe(p)) { perror("pipe"); exit(2); }
        pid_t q = fork();
        if (q == 0) {
            close(p[0]);
            FILE* o = fdopen(p[1], "w");
            for (std::size_t j = std::size_t(w); j < n; j += std::size_t(W)) {
                int pages = 0;
                auto i = ids[j];
                auto l = places_of(i / NSTATES / NACTS, int(i / NSTATES % NACTS), int(i % NSTATES), pages, trace);
                long long h[3] = {(long long)i, pages, (long long)l.size()};
                fwrite(h, sizeof h, 1, o);
                fwrite(l.data(), sizeof l[0], l.size(), o);
                fflush(o);
            }
            fclose(o);
            _exit(0);
        }
        close(p[1]);
        ps.push_back(q);
        fds.push_back(p[0]);
    }
    std::size_t seen = 0;
    vector<std::thread> rd;
    vector<vector<Flagged>> got(std::size_t(W), vector<Flagged>{});
    vector<std::size_t> cnt(std::size_t(W), 0);
    for (int w = 0; w < W; ++w)
        rd.emplace_back([&, w] {
            FILE* f = fdopen(fds[std::size_t(w)], "r");
            long long h[3];
            while (fread(h, sizeof h, 1, f) == 1) {
                auto i = std::size_t(h[0]);
                Flagged x{i / NSTATES / NACTS, int(i / NSTATES % NACTS), int(i % NSTATES), int(h[1]), vector<long long>(std::size_t(h[2]))};
                if (h[2] && fread(x.places.data(), sizeof(long long), std::size_t(h[2]), f) != std::size_t(h[2])) break;
                ++cnt[std::size_t(w)];
                if (h[1]) got[std::size_t(w)].push_back(std::move(x));
            }
            fclose(f);
        });
    for (auto& t : rd) t.join();
    for (auto p : ps) waitpid(p, nullptr, 0);
    vector<Flagged> o;
    for (int w = 0; w < W; ++w) { seen += cnt[std::size_t(w)]; for (auto& x : got[std::size_t(w)]) o.push_back(std::move(x)); }
    if (seen != n) { fprintf(stderr, "%zu of %zu operations could be scanned\n", seen, n); exit(2); }
    return o;
}
void scan() {
    vector<std::size_t> ids(T.size() * NACTS * NSTATES);
    for (std::size_t i = 0; i < ids.size(); ++i) ids[i] = i;
    auto found = in_parallel(ids, false);
    // at most MAXTRACED of them, those on small objects first
    std::sort(found.begin(), found.end(), [](auto& x, auto& y) {
        auto key = [](auto& z) { return std::make_tuple(inputs[z.ti].enc[0].size(), z.ti, z.a, z.state); };
        return key(x) < key(y);
    });
    ids.clear();
    for (auto& f : found) if (ids.size() < MAXTRACED) ids.push_back((f.ti * NACTS + std::size_t(f.a)) * NSTATES + std::size_t(f.state));
    flagged = in_parallel(ids, true);
    // the shortest first
    std::stable_sort(flagged.begin(), flagged.end(), [](auto& x, auto& y) {
        return std::make_tuple(x.places.size(), x.ti, x.a, x.state) < std::make_tuple(y.places.size(), y.ti, y.a, y.state);
    });
    if (getenv("MC_VERBOSE"))
        for (auto& f : flagged) fprintf(stderr, "writes shared memory: %s, %d pages, %zu places\n", label(f.ti, f.a, f.state).c_str(), f.pages, f.places.size());
}
void run_independence(const Ints& v, Run& r) {
    auto ti = std::size_t(v[0]);
    int a = int(v[1]);
    int state = int(v[2]);
    r.desc("%s", label(ti, a, state).c_str());
    r.distinct(mc::hash_ints(v));
    int pages = 0;
    places_of(ti, a, state, pages, false);
    r.count(c_ops);
    r.count(pages ? c_conf : c_indep);
}
void run_conflict(const Ints& v, Run& r) {
    auto& f = flagged[std::size_t(v[0])];
    bool shared = v[1];
    int ba = int(v[4]);
    M.cur = 0;
    setup_process();
    World w0 = world(f.ti, 0), w1 = world(f.ti, 1);
    const World &a = w0, &b = shared ? w0 : w1;
    std::function<Bv()> fa = [&] { return acts[f.a].run(a); }, fb = [&] { return acts[ba].run(b); };
    prepare({&w0, &w1}, f.a, f.state);
    auto wa = alone(fa), wb = alone(fb);
    install();
    M.cur = 1;
    SC->mode = PREEMPT_AT;
    SC->at = f.places.data() + v[2];
    SC->at_end = f.places.data() + std::min<long long>(v[3], (long long)f.places.size());
    SC->b = &fb;
    run_stepped(fa, &wa, &wb);
    SC->mode = OFF;
    r.count(c_sched, SC->c_sched);
    r.count(c_blocked, SC->c_blocked);
    r.distinct(mc::hash_ints(v));
    auto what = label(f.ti, f.a, f.state);
    r.desc("%s, preempted at its accesses %lld..%lld to shared pages it writes by: %s on %s (%d schedules)", what.c_str(), v[2], v[3] - 1, acts[ba].name, shared ? "the same objects" : "other objects", SC->c_sched);
    if (!SC->bad.empty()) r.fail("%s, and %s (%s): %s", what.c_str(), acts[ba].name, shared ? "same const objects" : "distinct objects", SC->bad.c_str());
}
vector<Family> families() {
    register_a(T); register_b(T); register_c(T); register_d(T); register_e(T); register_f(T);
    make_inputs();
    prepare_memory();
    c_ops = mc::counter("operations_checked_for_shared_writes");
    c_indep = mc::counter("operations_that_write_nothing_shared");
    c_conf = mc::counter("operations_that_write_shared_memory");
    c_sched = mc::counter("schedules");
    c_blocked = mc::counter("schedules_where_B_waited_for_A");
    scan();
    vector<Family> f;
    f.push_back({"independence", "every type x 12 operations x first use, later use, use after a change: executed with static storage and all memory allocated before read-only, which shows that it writes nothing it could share, or marks it for the family conflicts",
                 [](auto& go) {
                     for (std::size_t t = 0; t < T.size(); ++t) for (int a = 0; a < NACTS; ++a) for (int s = 0; s < NSTATES; ++s) go({(long long)t, a, s});
                 },
                 run_independence, 120, true});
    for (int same : {1, 0})
        f.push_back({same ? "conflicts" : "conflicts-with-others",
                     string("operations that write shared memory: A is preempted around each of its accesses to the pages it writes, thread B runs ") + (same ? "the same operation" : "each other operation") + " on other or the same objects there, then A continues",
                     [same](auto& go) {
                         for (std::size_t i = 0; i < flagged.size(); ++i)
                             for (int b = 0; b < NACTS; ++b)
                                 if ((b == flagged[i].a) == bool(same))
                                     for (int sh = 0; sh < 2; ++sh) for (long long k = 0; k < (long long)flagged[i].places.size(); k += 100) go({(long long)i, sh, k, k + 100, b});
                     },
                     run_conflict, 240, true});
    return f;
}
}  // namespace
int main(int argc, char** argv) { return mc::main(argc, argv, families); }
