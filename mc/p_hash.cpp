// C01: the digest of every block is right. C02: hashing touches nothing but its buffers, and keeps the calling convention.
#include <cpuid.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdio>
#include <cstring>

#include "mc.hpp"
#include "ref_sha.hpp"
#include "ssz/hasher.hpp"

using mc::Family;
using mc::Ints;
using mc::Run;
using ssz::Hasher;
using Emit = std::function<void(const Ints&)>;
using U8 = unsigned char;

namespace {
bool thorough() { return mc::opt.thorough(); }
struct Impl { const char* name; Hasher h; };
std::vector<Impl> impls;
void make_impls() {
    // what this CPU has, asked for directly
    unsigned a = 0, b = 0, c = 0, d = 0, b7 = 0;
    __get_cpuid(1, &a, &b, &c, &d);
    unsigned c1 = c;
    if (__get_cpuid_count(7, 0, &a, &b, &c, &d)) b7 = b;
    bool avx = c1 & bit_AVX;
    if (avx) impls.push_back({"SSE", Hasher(Hasher::IMPL::SSE)});
    if (avx) impls.push_back({"AVX", Hasher(Hasher::IMPL::AVX)});
    if (b7 & bit_AVX2) impls.push_back({"AVX2", Hasher(Hasher::IMPL::AVX2)});
    if (b7 & bit_SHA) impls.push_back({"SHA", Hasher(Hasher::IMPL::SHA)});
    impls.push_back({"default", Hasher()});
    impls.push_back({"NONE", Hasher(Hasher::IMPL::NONE)});
    if (impls.size() == 2 || !avx) impls.clear();  // the default needs something to run on
}
void digest(const U8* in, U8* out) {
    auto d = ref::sha256(in, 64);
    std::memcpy(out, d.data(), 32);
}
// a stream of different blocks and their digests
std::vector<U8> stream, stream_d;
std::size_t max_blocks() { return thorough() ? (1u << 21) + 64 : (1u << 17) + 64; }
void make_stream(std::size_t blocks) {
    stream.resize(blocks * 64);
    stream_d.resize(blocks * 32);
    for (std::size_t i = 0; i < stream.size(); i += 8) { auto x = mc::mix(i / 8 + 77); std::memcpy(&stream[i], &x, 8); }
    for (std::size_t i = 0; i < blocks; ++i) digest(&stream[i * 64], &stream_d[i * 32]);
}
std::vector<U8> aligned_buf(std::size_t n) { return std::vector<U8>(n + 192); }
U8* at(std::vector<U8>& v, std::size_t off) { return reinterpret_cast<U8*>((reinterpret_cast<std::uintptr_t>(v.data()) + 63) / 64 * 64 + off); }

void compare(Run& r, const Impl& im, const U8* got, const U8* want, std::size_t n, const char* what) {
    if (!std::memcmp(got, want, n * 32)) return;
    std::size_t i = 0;
    while (!std::memcmp(got + i * 32, want + i * 32, 32)) ++i;
    r.fail("%s: digest of block %zu of %zu is %s, not %s (%s)", im.name, i, n, mc::hex(got + i * 32, 32).c_str(), mc::hex(want + i * 32, 32).c_str(), what);
}

// every number of blocks; several placements of the input in the stream
void run_counts(const Ints& c, Run& r) {
    auto& im = impls[std::size_t(c[0])];
    auto n = std::size_t(c[1]), first = std::size_t(c[2]);
    r.desc("%s, %zu blocks, from block %zu of the stream", im.name, n, first);
    r.distinct(mc::hash_ints(c));
    std::vector<U8> out(n * 32 + 64, 0xEE);
    im.h.hash_64b_blocks(out.data() + 32, stream.data() + first * 64, n);
    compare(r, im, out.data() + 32, &stream_d[first * 32], n, "distinct blocks");
    for (std::size_t i = 0; i < 32; ++i) if (out[i] != 0xEE || out[n * 32 + 32 + i] != 0xEE) r.fail("%s: %zu blocks: bytes next to the output were written", im.name, n);
}
void gen_counts(const Emit& e) {
    std::size_t top = thorough() ? 8300 : 2200;
    for (std::size_t k = 0; k < impls.size(); ++k) {
        for (std::size_t n = 0; n <= top; ++n) for (std::size_t f : {std::size_t(0), n % 31 + 1, 64 - n % 64}) e({(long long)k, (long long)n, (long long)f});
        for (std::size_t p = 512; p <= max_blocks(); p *= 2)
            for (int d = -9; d <= 9; ++d) { auto n = (long long)p + d; if (n > (long long)top && n <= (long long)max_blocks() - 64) e({(long long)k, n, 0}); }
    }
}
// every alignment of input and output
void gen_align(const Emit& e) {
    for (std::size_t k = 0; k < impls.size(); ++k)
        for (long long a = 0; a < 64; ++a) for (long long b = 0; b < 64; ++b) e({(long long)k, a, b});
}
void run_align(const Ints& c, Run& r) {
    auto& im = impls[std::size_t(c[0])];
    auto a = std::size_t(c[1]), b = std::size_t(c[2]);
    r.desc("%s, input at 64k+%zu, output at 64k+%zu, 1..%d blocks", im.name, a, b, thorough() ? 72 : 40);
    r.distinct(mc::hash_ints(c));
    static auto in = aligned_buf(64 * 64), out = aligned_buf(64 * 32);
    for (std::size_t n = 1; n <= (thorough() ? 72u : 40u); ++n) {
        std::memset(out.data(), 0x11, out.size());
        std::memcpy(at(in, a), stream.data(), n * 64);
        im.h.hash_64b_blocks(at(out, b), at(in, a), n);
        compare(r, im, at(out, b), stream_d.data(), n, "alignment");
        if (std::memcmp(at(in, a), stream.data(), n * 64)) r.fail("%s: the input was changed", im.name);
    }
}
// one bit, or one byte, of one block that differs from the other blocks: (lanes) x (positions) x (values)
std::vector<U8> bit_d[2], byte_d[2];  // digests of blocks of zeros / ones with that change
void make_single() {
    for (int bg = 0; bg < 2; ++bg) {
        bit_d[bg].resize(512 * 32);
        byte_d[bg].resize(64 * 256 * 32);
        U8 m[64];
        for (int i = 0; i < 512; ++i) {
            std::memset(m, bg ? 0xff : 0, 64);
            m[i / 8] ^= U8(1 << (i % 8));
            digest(m, &bit_d[bg][std::size_t(i) * 32]);
        }
        for (int i = 0; i < 64; ++i)
            for (int v = 0; v < 256; ++v) {
                std::memset(m, bg ? 0xff : 0, 64);
                m[i] = U8(v);
                digest(m, &byte_d[bg][std::size_t(i * 256 + v) * 32]);
            }
    }
}
void gen_bit(const Emit& e) {
    long long top = thorough() ? 68 : 36;
    for (std::size_t k = 0; k < impls.size(); ++k)
        for (long long n = 1; n <= top; ++n) for (long long j = 0; j < n; ++j) for (long long bg = 0; bg < 2; ++bg) e({(long long)k, n, j, bg});
}
void run_bit(const Ints& c, Run& r) {
    auto& im = impls[std::size_t(c[0])];
    auto n = std::size_t(c[1]), j = std::size_t(c[2]);
    int bg = int(c[3]);
    r.desc("%s, %zu blocks of %s, each single bit of block %zu flipped", im.name, n, bg ? "ones" : "zeros", j);
    r.distinct(mc::hash_ints(c));
    std::vector<U8> in(n * 64, bg ? 0xff : 0), out(n * 32), want(n * 32);
    U8 base[32];
    digest(std::vector<U8>(64, bg ? 0xff : 0).data(), base);
    for (std::size_t i = 0; i < n; ++i) std::memcpy(&want[i * 32], base, 32);
    for (std::size_t i = 0; i < 512; ++i) {
        in[j * 64 + i / 8] ^= U8(1 << (i % 8));
        std::memcpy(&want[j * 32], &bit_d[bg][i * 32], 32);
        im.h.hash_64b_blocks(out.data(), in.data(), n);
        compare(r, im, out.data(), want.data(), n, "single bit");
        in[j * 64 + i / 8] ^= U8(1 << (i % 8));
    }
}
void gen_byte(const Emit& e) {
    for (std::size_t k = 0; k < impls.size(); ++k)
        for (long long n : {1, 2, 4, 8, 9, 16})
            for (long long j = 0; j < n; ++j) for (long long p = 0; p < 64; ++p) for (long long bg = 0; bg < 2; ++bg) e({(long long)k, n, j, p, bg});
}
void run_byte(const Ints& c, Run& r) {
    auto& im = impls[std::size_t(c[0])];
    auto n = std::size_t(c[1]), j = std::size_t(c[2]), p = std::size_t(c[3]);
    int bg = int(c[4]);
    r.desc("%s, %zu blocks of %s, byte %zu of block %zu through its 256 values", im.name, n, bg ? "ones" : "zeros", p, j);
    r.distinct(mc::hash_ints(c));
    std::vector<U8> in(n * 64, bg ? 0xff : 0), out(n * 32), want(n * 32);
    U8 base[32];
    digest(in.data(), base);
    for (std::size_t i = 0; i < n; ++i) std::memcpy(&want[i * 32], base, 32);
    for (std::size_t v = 0; v < 256; ++v) {
        in[j * 64 + p] = U8(v);
        std::memcpy(&want[j * 32], &byte_d[bg][(p * 256 + v) * 32], 32);
        im.h.hash_64b_blocks(out.data(), in.data(), n);
        compare(r, im, out.data(), want.data(), n, "single byte");
    }
}
// words of extreme values: every pair of the 16 words of a block x pairs of values, in every lane at once
constexpr std::uint32_t words[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x000000ff, 0xff000000u, 0x5a827999};
void gen_word(const Emit& e) {
    for (std::size_t k = 0; k < impls.size(); ++k) for (long long i = 0; i < 16; ++i) for (long long j = i + 1; j < 16; ++j) e({(long long)k, i, j});
}
void run_word(const Ints& c, Run& r) {
    auto& im = impls[std::size_t(c[0])];
    r.desc("%s, 64 blocks: words %lld and %lld through 8 x 8 extreme values", im.name, c[1], c[2]);
    r.distinct(mc::hash_ints(c));
    std::vector<U8> in(64 * 64), out(64 * 32), want(64 * 32);
    for (std::size_t x = 0; x < 8; ++x)
        for (std::size_t y = 0; y < 8; ++y) {
            auto* b = &in[(x * 8 + y) * 64];
            std::memset(b, 0x33, 64);
            std::memcpy(b + c[1] * 4, &words[x], 4);
            std::memcpy(b + c[2] * 4, &words[y], 4);
            digest(b, &want[(x * 8 + y) * 32]);
        }
    im.h.hash_64b_blocks(out.data(), in.data(), 64);
    compare(r, im, out.data(), want.data(), 64, "extreme words");
}
// sequences of calls: what a call leaves behind must not matter to the next
void gen_seq(const Emit& e) {
    long long top = thorough() ? 40 : 20;
    for (std::size_t k = 0; k < impls.size(); ++k) for (std::size_t l = 0; l < impls.size(); ++l)
        for (long long n = 0; n <= top; ++n) for (long long m = 0; m <= top; ++m) e({(long long)k, (long long)l, n, m});
}
void run_seq(const Ints& c, Run& r) {
    auto &p = impls[std::size_t(c[0])], &q = impls[std::size_t(c[1])];
    auto n = std::size_t(c[2]), m = std::size_t(c[3]);
    r.desc("%s on %zu blocks, %s on %zu blocks, %s again", p.name, n, q.name, m, p.name);
    r.distinct(mc::hash_ints(c));
    std::vector<U8> a(n * 32 + 32), b(m * 32 + 32), a2(n * 32 + 32);
    p.h.hash_64b_blocks(a.data(), stream.data(), n);
    q.h.hash_64b_blocks(b.data(), stream.data() + 64 * 3, m);
    p.h.hash_64b_blocks(a2.data(), stream.data() + 64 * 5, n);
    compare(r, p, a.data(), stream_d.data(), n, "first of a sequence of calls");
    compare(r, q, b.data(), stream_d.data() + 32 * 3, m, "second of a sequence of calls");
    compare(r, p, a2.data(), stream_d.data() + 32 * 5, n, "third of a sequence of calls");
}

// more blocks than 32-bit byte counts can express. The same memory appears again and again in the input; in the output, all but its ends.
void gen_huge(const Emit& e) {
    for (std::size_t k = 0; k < impls.size(); ++k)
        for (long long n : thorough() ? std::vector<long long>{(1 << 25) + 5, (1 << 26) - 1, (1 << 26) + 3, (1 << 27) + 9} : std::vector<long long>{(1 << 26) + 3}) e({(long long)k, n});
}
void run_huge(const Ints& c, Run& r) {
    auto& im = impls[std::size_t(c[0])];
    auto n = std::size_t(c[1]);
    r.desc("%s, %zu blocks", im.name, n);
    r.distinct(mc::hash_ints(c));
    const std::size_t cyc = 1 << 20, in_len = (n * 64 + cyc - 1) / cyc * cyc, out_len = (n * 32 + cyc - 1) / cyc * cyc, per = cyc / 64;
    auto reserve = [](std::size_t len) {
        void* p = mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
        return static_cast<U8*>(p);
    };
    int fi = memfd_create("in", 0), fo = memfd_create("out", 0);
    if (fi < 0 || fo < 0 || ftruncate(fi, long(cyc)) || ftruncate(fo, long(cyc))) { perror("memfd"); _exit(2); }
    U8 *in = reserve(in_len), *out = reserve(out_len);
    for (std::size_t x = 0; x < in_len; x += cyc) if (mmap(in + x, cyc, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fi, 0) == MAP_FAILED) _exit(2);
    std::memcpy(in, stream.data(), cyc);
    for (std::size_t x = 0; x < out_len; x += cyc) {
        bool own = x < 2 * cyc || x + 3 * cyc >= out_len;
        if (mmap(out + x, cyc, PROT_READ | PROT_WRITE, MAP_FIXED | (own ? MAP_PRIVATE | MAP_ANONYMOUS : MAP_SHARED), own ? -1 : fo, 0) == MAP_FAILED) _exit(2);
    }
    im.h.hash_64b_blocks(out, in, n);
    auto one = [&](std::size_t i) {
        if (std::memcmp(out + i * 32, &stream_d[i % per * 32], 32)) r.fail("%s: digest of block %zu of %zu is wrong", im.name, i, n);
    };
    for (std::size_t i = 0; i < 6 * per; ++i) one(i);
    for (std::size_t i = n - 6 * per; i < n; ++i) one(i);
    munmap(in, in_len);
    munmap(out, out_len);
    close(fi);
    close(fo);
}

// ---- C02
const Hasher* cur;
__attribute__((noinline)) void call_hasher(U8* o, const U8* i, std::size_t n) { cur->hash_64b_blocks(o, i, n); }
}  // namespace
struct Regs {
    std::uint64_t before[6], after[6];  // rbx rbp r12 r13 r14 r15
    std::uint64_t rsp0, rsp1, flags;
    std::uint32_t mx0, mx1;
    std::uint16_t cw0, cw1, tag;
    std::uint64_t canary_ok;
};
extern "C" {
Regs mc_regs;
void (*mc_target)(U8*, const U8*, std::size_t);
void mc_trampoline(U8*, const U8*, std::size_t);
std::uint8_t mc_fenv[32];
}
// Calls mc_target with known values in the registers it has to keep, records what it leaves in them.
asm(R"(
.text
.globl mc_trampoline
mc_trampoline:
    push %rbx
    push %rbp
    push %r12
    push %r13
    push %r14
    push %r15
    sub $136, %rsp
    lea mc_regs(%rip), %rax
    stmxcsr 120(%rax)
    fnstcw 128(%rax)
    movabs $0x1122334455667788, %r10
    mov %r10, 0(%rsp)
    mov %r10, 8(%rsp)
    mov %r10, 16(%rsp)
    mov %r10, 24(%rsp)
    mov %r10, 32(%rsp)
    mov %r10, 40(%rsp)
    mov %r10, 48(%rsp)
    mov %r10, 56(%rsp)
    mov %r10, 64(%rsp)
    mov %r10, 120(%rsp)
    mov %r10, 128(%rsp)
    mov 0(%rax), %rbx
    mov 8(%rax), %rbp
    mov 16(%rax), %r12
    mov 24(%rax), %r13
    mov 32(%rax), %r14
    mov 40(%rax), %r15
    mov %rsp, 96(%rax)
    mov mc_target(%rip), %r11
    call *%r11
    lea mc_regs(%rip), %rax
    mov %rsp, 104(%rax)
    mov 96(%rax), %rsp
    mov %rbx, 48(%rax)
    mov %rbp, 56(%rax)
    mov %r12, 64(%rax)
    mov %r13, 72(%rax)
    mov %r14, 80(%rax)
    mov %r15, 88(%rax)
    pushfq
    pop %r10
    mov %r10, 112(%rax)
    cld
    stmxcsr 124(%rax)
    fnstcw 130(%rax)
    fnstenv mc_fenv(%rip)
    fldenv mc_fenv(%rip)
    mov mc_fenv+8(%rip), %r10w
    mov %r10w, 132(%rax)
    movabs $0x1122334455667788, %r10
    xor %r11, %r11
    cmp %r10, 0(%rsp)
    jne 1f
    cmp %r10, 8(%rsp)
    jne 1f
    cmp %r10, 16(%rsp)
    jne 1f
    cmp %r10, 24(%rsp)
    jne 1f
    cmp %r10, 32(%rsp)
    jne 1f
    cmp %r10, 40(%rsp)
    jne 1f
    cmp %r10, 48(%rsp)
    jne 1f
    cmp %r10, 56(%rsp)
    jne 1f
    cmp %r10, 64(%rsp)
    jne 1f
    cmp %r10, 120(%rsp)
    jne 1f
    cmp %r10, 128(%rsp)
    jne 1f
    inc %r11
1:  mov %r11, 136(%rax)
    add $136, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbp
    pop %rbx
    ret
)");
namespace {
void call(Run& r, const Impl& im, U8* o, const U8* i, std::size_t n) {
    static_assert(offsetof(Regs, rsp0) == 96 && offsetof(Regs, flags) == 112 && offsetof(Regs, mx0) == 120 && offsetof(Regs, cw0) == 128 && offsetof(Regs, tag) == 132 && offsetof(Regs, canary_ok) == 136);
    cur = &im.h;
    mc_target = call_hasher;
    for (std::size_t k = 0; k < 6; ++k) mc_regs.before[k] = 0xb10c000000000000ull + k * 0x111;
    mc_trampoline(o, i, n);
    static const char* names[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (std::size_t k = 0; k < 6; ++k) if (mc_regs.after[k] != mc_regs.before[k]) r.fail("%s: %zu blocks: the callee-saved register %s was changed", im.name, n, names[k]);
    if (mc_regs.rsp1 != mc_regs.rsp0) r.fail("%s: %zu blocks: the stack pointer was changed", im.name, n);
    if (mc_regs.flags & 0x400) r.fail("%s: %zu blocks: the direction flag was left set", im.name, n);
    if ((mc_regs.mx0 ^ mc_regs.mx1) & ~0x3fu) r.fail("%s: %zu blocks: MXCSR was changed", im.name, n);
    if (mc_regs.cw0 != mc_regs.cw1) r.fail("%s: %zu blocks: the x87 control word was changed", im.name, n);
    if (mc_regs.tag != 0xffff) r.fail("%s: %zu blocks: the x87/MMX registers were left in use", im.name, n);
    if (!mc_regs.canary_ok) r.fail("%s: %zu blocks: the stack of the caller was written", im.name, n);
}
// A region between two inaccessible pages.
struct Guarded {
    U8 *map, *lo, *hi;
    std::size_t len;
    explicit Guarded(std::size_t bytes) {
        len = (bytes + 4095) / 4096 * 4096;
        map = static_cast<U8*>(mmap(nullptr, len + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (map == MAP_FAILED) _exit(2);
        lo = map + 65536;
        hi = lo + len;
        mprotect(lo, len, PROT_READ | PROT_WRITE);
    }
    ~Guarded() { munmap(map, len + 2 * 65536); }
};
// n blocks; the input and the output each flush against an inaccessible page before or after, shifted by `off` from the other side
void gen_guard(const Emit& e) {
    long long top = thorough() ? 600 : 140;
    for (std::size_t k = 0; k < impls.size(); ++k) {
        for (long long n = 1; n <= top; ++n) for (long long i = 0; i < 2; ++i) for (long long o = 0; o < 2; ++o) e({(long long)k, n, i, o});
        for (long long n : {255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10007, 65536, 65537})
            if (n > top) for (long long i = 0; i < 2; ++i) for (long long o = 0; o < 2; ++o) e({(long long)k, n, i, o});
    }
}
void run_guard(const Ints& c, Run& r) {
    auto& im = impls[std::size_t(c[0])];
    auto n = std::size_t(c[1]);
    r.desc("%s, %zu blocks, input (read-only) %s and output %s an inaccessible page", im.name, n, c[2] ? "ends at" : "begins after", c[3] ? "ends at" : "begins after");
    r.distinct(mc::hash_ints(c));
    Guarded in(n * 64), out(n * 32);
    std::memset(in.lo, 0x99, in.len);
    std::memset(out.lo, 0x77, out.len);
    U8* i = c[2] ? in.hi - n * 64 : in.lo;
    U8* o = c[3] ? out.hi - n * 32 : out.lo;
    std::memcpy(i, stream.data(), n * 64);
    mprotect(in.lo, in.len, PROT_READ);
    call(r, im, o, i, n);
    compare(r, im, o, stream_d.data(), n, "between inaccessible pages");
    for (U8* p = out.lo; p < out.hi; ++p)
        if ((p < o || p >= o + n * 32) && *p != 0x77) r.fail("%s: %zu blocks: a byte %td from the output was written", im.name, n, p - o);
}
// the input and the output back to back, and one inside the other's page
void gen_near(const Emit& e) {
    long long top = thorough() ? 200 : 60;
    for (std::size_t k = 0; k < impls.size(); ++k) for (long long n = 1; n <= top; ++n) for (long long order = 0; order < 2; ++order) for (long long gap : {0, 1, 16, 32, 64}) e({(long long)k, n, order, gap});
}
void run_near(const Ints& c, Run& r) {
    auto& im = impls[std::size_t(c[0])];
    auto n = std::size_t(c[1]), gap = std::size_t(c[3]);
    r.desc("%s, %zu blocks, output %zu bytes %s the input", im.name, n, gap, c[2] ? "before" : "after");
    r.distinct(mc::hash_ints(c));
    Guarded g(n * 96 + gap);
    std::memset(g.lo, 0x55, g.len);
    U8* first = g.hi - n * 96 - gap;
    U8* i = c[2] ? first + n * 32 + gap : first;
    U8* o = c[2] ? first : first + n * 64 + gap;
    std::memcpy(i, stream.data(), n * 64);
    call(r, im, o, i, n);
    compare(r, im, o, stream_d.data(), n, "adjacent buffers");
    if (std::memcmp(i, stream.data(), n * 64)) r.fail("%s: %zu blocks: the input was changed", im.name, n);
    for (U8* p = g.lo; p < g.hi; ++p)
        if (!(p >= o && p < o + n * 32) && !(p >= i && p < i + n * 64) && *p != 0x55) r.fail("%s: %zu blocks: a byte that belongs to neither buffer was written", im.name, n);
}
void run_none(const Ints& c, Run& r) {
    auto& im = impls[std::size_t(c[0])];
    r.desc("%s, no blocks, inaccessible buffers (variant %lld)", im.name, c[1]);
    r.distinct(mc::hash_ints(c));
    Guarded g(4096);
    U8* p = c[1] == 0 ? g.hi : c[1] == 1 ? g.map : nullptr;
    call(r, im, p, p, 0);
    call(r, im, g.hi, g.map + 17, 0);
}
std::vector<Family> families() {
    make_impls();
    std::vector<Family> f;
    if (mc::opt.prop == "C01") {
        make_stream(max_blocks());
        make_single();
        f.push_back({"counts", "every implementation x every number of blocks up to the bound, and powers of two plus or minus 9 above it, at three places of a stream of different blocks", gen_counts, run_counts});
        f.push_back({"alignments", "every implementation x 64 input alignments x 64 output alignments, with 1 to 40 (thorough 72) blocks each", gen_align, run_align});
        f.push_back({"bits", "every implementation x number of blocks up to the bound x block x each of its 512 bits, over zeros and ones", gen_bit, run_bit});
        f.push_back({"bytes", "every implementation x 1, 2, 4, 8, 9, 16 blocks x block x byte position x 256 values, over zeros and ones", gen_byte, run_byte});
        f.push_back({"words", "every pair of words of a block x 8 x 8 extreme values", gen_word, run_word});
        f.push_back({"sequences", "three calls in a row: pairs of implementations x pairs of numbers of blocks", gen_seq, run_seq});
        f.push_back({"huge", "every implementation on more than 2^26 blocks (4 GiB of input)", gen_huge, run_huge, 300});
    } else {
        make_stream(65600);
        f.push_back({"guards", "every implementation x number of blocks, buffers against inaccessible pages on either side, read-only input, registers and caller's stack checked", gen_guard, run_guard});
        f.push_back({"adjacent", "input and output next to each other in both orders with gaps", gen_near, run_near});
        f.push_back({"nothing", "zero blocks with inaccessible and null buffers", [](const Emit& e) { for (std::size_t k = 0; k < impls.size(); ++k) for (long long v = 0; v < 3; ++v) e({(long long)k, v}); }, run_none});
    }
    return f;
}
}  // namespace
int main(int argc, char** argv) { return mc::main(argc, argv, families); }
