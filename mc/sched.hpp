// A controlled scheduler: thread A is executed one machine instruction at a time; in front of chosen instructions of
// this program the process is duplicated, and in the duplicate another thread B runs before A continues.
#pragma once
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <new>
#include <string>
#include <vector>

extern "C" char __executable_start, etext, __data_start, _end;

namespace {
using std::string;
using std::vector;
using Bv = vector<std::uint8_t>;

// ---- the scheduler
enum Mode { OFF, COUNT, PREEMPT, PREEMPT2, MEASURE, TRACE, PREEMPT_AT };
struct Sched {
    Mode mode = OFF;
    long long k = 0, total = 0;      // instructions of this program, all instructions
    long long lo = 0, hi = 0;        // places to preempt at
    long long bn = 0;                // places of B (two preemptions)
    long long changes = 0;           // instructions that changed static storage
    char* snapshot = nullptr;
    // in a duplicate
    bool duplicate = false;
    const std::function<Bv()>* b = nullptr;
    Bv b_result;
    string b_error;
    pthread_t b_thread;
    std::atomic<int> b_state{0};     // 0 running, 1 done, 2 waiting at its preemption
    std::atomic<int> go{0};
    std::atomic<int> tid{0};
    long long b_stop = -1, b_k = 0;
    const Bv *want_a = nullptr, *want_b = nullptr;
    int c_sched = 0;
    int c_blocked = 0;
    bool blocked = false;
    string bad;
    // places to preempt at in PREEMPT_AT, in increasing order
    const long long *at = nullptr, *at_end = nullptr;
    void (*after_step)() = nullptr;  // TRACE
};
// What the handlers read lies on a page of its own: the rest of static storage may be inaccessible while tracing.
struct alignas(4096) SchedPage {
    Sched* s = nullptr;
    char *text_lo = nullptr, *text_hi = nullptr;
    char fill[4096 - 3 * sizeof(void*)];
} sched_page;
#define SC sched_page.s
thread_local bool is_b = false;

void setup_process() {
    if (SC) return;
    void* m = mmap(nullptr, sizeof(Sched), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) _exit(2);
    SC = new (m) Sched;
    sched_page.text_lo = &__executable_start;
    sched_page.text_hi = &etext;
}
[[gnu::always_inline]] inline void set_tf() {
    asm volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
}
[[gnu::always_inline]] inline void clear_tf() {
    asm volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
}
[[gnu::noinline]] Bv guarded(const std::function<Bv()>& f, string& err) {
    try { return f(); }
    catch (const std::exception& e) { err = string("exception: ") + e.what(); }
    catch (...) { err = "exception"; }
    return {};
}
char thread_state(int tid) {
    char p[64], b[512];
    snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
    FILE* f = fopen(p, "r");
    if (!f) return '?';
    std::size_t n = fread(b, 1, sizeof b - 1, f);
    fclose(f);
    b[n] = 0;
    char* q = strrchr(b, ')');
    return q && q[1] ? q[2] : '?';
}
void* b_main(void*) {
    is_b = true;
    SC->tid = int(syscall(SYS_gettid));
    if (SC->b_stop >= 0) {
        set_tf();
        SC->b_result = guarded(*SC->b, SC->b_error);
        clear_tf();
    } else
        SC->b_result = guarded(*SC->b, SC->b_error);
    SC->b_state = 1;
    return nullptr;
}
// In the duplicate, at A's preemption: let B run until it is done, waits at its own preemption, or is blocked by A.
void run_b() {
    alarm(120);
    if (pthread_create(&SC->b_thread, nullptr, b_main, nullptr)) _exit(3);
    int asleep = 0;
    for (long long i = 0;; ++i) {
        if (SC->b_state.load()) return;
        if (i < 2000) { sched_yield(); continue; }
        usleep(500);
        int t = SC->tid.load();
        if (t && thread_state(t) == 'S') { if (++asleep > 8) { SC->blocked = true; return; } } else asleep = 0;
        if (i > 2000 + 8000) return;  // B spins
    }
}
void on_trap(int, siginfo_t*, void* uc_) {
    auto* uc = static_cast<ucontext_t*>(uc_);
    auto& fl = uc->uc_mcontext.gregs[REG_EFL];
    int err = errno;
    char* pc = reinterpret_cast<char*>(uc->uc_mcontext.gregs[REG_RIP]);
    bool mine = pc >= sched_page.text_lo && pc < sched_page.text_hi;
    if (is_b) {
        if (mine && SC->b_k++ == SC->b_stop) {
            fl &= ~0x100ll;
            SC->b_state = 2;
            while (!SC->go.load()) usleep(100);
        }
        errno = err;
        return;
    }
    if (SC->mode == OFF) { fl &= ~0x100ll; return; }
    ++SC->total;
    if (SC->mode == MEASURE) {
        std::size_t n = std::size_t(&_end - &__data_start);
        if (SC->snapshot && memcmp(SC->snapshot, &__data_start, n)) { ++SC->changes; memcpy(SC->snapshot, &__data_start, n); }
        if (mine) ++SC->k;
        errno = err;
        return;
    }
    if (SC->mode == TRACE) {
        if (mine) ++SC->k;
        SC->after_step();
        errno = err;
        return;
    }
    if (!mine) { errno = err; return; }
    long long k = SC->k++;
    if (SC->mode == PREEMPT_AT) {
        while (SC->at != SC->at_end && *SC->at < k) ++SC->at;
        if (SC->at == SC->at_end) { fl &= ~0x100ll; errno = err; return; }
        SC->lo = *SC->at;
        SC->hi = SC->at_end[-1] + 1;
    }
    if (SC->mode == PREEMPT || SC->mode == PREEMPT2 || SC->mode == PREEMPT_AT) {
        if (k >= SC->hi) { fl &= ~0x100ll; errno = err; return; }
        if (k >= SC->lo) {
            for (long long j = 0; j < (SC->mode == PREEMPT2 ? SC->bn : 1); ++j) {
                pid_t p = fork();
                if (p == 0) {
                    SC->duplicate = true;
                    SC->b_stop = SC->mode == PREEMPT2 ? j : -1;
                    fl &= ~0x100ll;
                    run_b();
                    errno = err;
                    return;
                }
                if (p < 0) { SC->bad = "fork failed"; SC->mode = OFF; fl &= ~0x100ll; return; }
                int st = 0;
                while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
                ++SC->c_sched;
                if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 20)) { if (WEXITSTATUS(st) == 20) ++SC->c_blocked; continue; }
                char b[400];
                const char* what = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "did not end" : strsignal(WTERMSIG(st)))
                                   : WEXITSTATUS(st) == 10 ? "the interrupted thread's result is wrong" : WEXITSTATUS(st) == 11 ? "the interrupting thread's result is wrong" : WEXITSTATUS(st) == 3 ? "cannot create a thread" : "ended the process";
                int n = snprintf(b, sizeof b, "preempted at instruction %lld of this program (offset 0x%llx)", k, (long long)(pc - sched_page.text_lo));
                if (SC->mode == PREEMPT2) n += snprintf(b + n, sizeof b - std::size_t(n), ", the other thread at its instruction %lld", j);
                snprintf(b + n, sizeof b - std::size_t(n), ": %s", what);
                SC->bad = b;
                SC->mode = OFF;
                fl &= ~0x100ll;
                errno = err;
                return;
            }
        }
    }
    errno = err;
}
void install() {
    struct sigaction sa {};
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigemptyset(&sa.sa_mask);
    sigaction(SIGTRAP, &sa, nullptr);
}
// Runs a in steps. In a duplicate it ends the process with the verdict.
[[gnu::noinline]] Bv stepped(const std::function<Bv()>& a, string& err) {
    set_tf();
    Bv r = guarded(a, err);
    clear_tf();
    return r;
}
void run_stepped(const std::function<Bv()>& a, const Bv* wa, const Bv* wb) {
    string err;
    Bv r = stepped(a, err);
    if (!SC->duplicate) return;
    SC->go = 1;
    pthread_join(SC->b_thread, nullptr);
    if (!err.empty() || r != *wa) _exit(10);
    if (!SC->b_error.empty() || SC->b_result != *wb) _exit(11);
    _exit(SC->blocked ? 20 : 0);
}
// The result of f in a process of its own.
Bv alone(const std::function<Bv()>& f, bool measure = false, long long* out = nullptr) {
    int p[2];
    if (pipe(p)) { perror("pipe"); _exit(2); }
    fflush(stdout);
    pid_t q = fork();
    if (q == 0) {
        close(p[0]);
        string err;
        Bv r;
        long long nums[3] = {0, 0, 0};
        if (measure) {
            setup_process();
            install();
            std::size_t n = std::size_t(&_end - &__data_start);
            SC->mode = MEASURE;
            SC->snapshot = static_cast<char*>(malloc(n));
            memcpy(SC->snapshot, &__data_start, n);
            r = stepped(f, err);
            nums[0] = SC->k; nums[1] = SC->total; nums[2] = SC->changes;
        } else
            r = guarded(f, err);
        Bv o(reinterpret_cast<std::uint8_t*>(nums), reinterpret_cast<std::uint8_t*>(nums) + sizeof nums);
        o.insert(o.end(), r.begin(), r.end());
        std::size_t k = 0;
        while (k < o.size()) { auto n = write(p[1], o.data() + k, o.size() - k); if (n <= 0) break; k += std::size_t(n); }
        _exit(err.empty() ? 0 : 1);
    }
    close(p[1]);
    Bv got;
    std::uint8_t b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) got.insert(got.end(), b, b + n);
    close(p[0]);
    int st = 0;
    waitpid(q, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || got.size() < 24) { fprintf(stderr, "an operation fails on its own\n"); _exit(2); }
    if (out) memcpy(out, got.data(), 24);
    return Bv(got.begin() + 24, got.end());
}
}  // namespace
