// C03: what Hasher::implemented() reports, and that all of it runs, on every processor of a list that QEMU emulates.
#include <cpuid.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

#include "mc.hpp"
#include "ref_sha.hpp"
#include "ssz/hasher.hpp"

using mc::Family;
using mc::Ints;
using mc::Run;
using ssz::Hasher;
using I = Hasher::IMPL;
using Emit = std::function<void(const Ints&)>;

namespace {
struct Name { I i; const char* n; };
constexpr Name names[] = {{I::SSE, "SSE"}, {I::AVX, "AVX"}, {I::AVX2, "AVX2"}, {I::SHA, "SHA"}};

bool right(const Hasher& h) {
    for (std::size_t n = 0; n <= 37; ++n) {
        std::vector<unsigned char> in(n * 64 + 1), out(n * 32 + 1, 0x5c);
        for (std::size_t i = 0; i < in.size(); ++i) in[i] = (unsigned char)(mc::mix(i + 1000 * n) >> 9);
        h.hash_64b_blocks(out.data(), in.data(), n);
        for (std::size_t i = 0; i < n; ++i)
            if (std::memcmp(&out[i * 32], ref::sha256(&in[i * 64], 64).data(), 32)) return false;
        if (out[n * 32] != 0x5c) return false;
    }
    return true;
}
void dirty_stack(int depth) {
    volatile unsigned char b[512];
    for (auto& x : b) x = 0xff;
    if (depth) dirty_stack(depth - 1);
}
// Runs on the emulated processor; says what it finds line by line, so that the last line tells where it died.
int probe() {
    setvbuf(stdout, nullptr, _IOLBF, 4096);
    unsigned a, b, c, d;
    __cpuid(0, a, b, c, d);
    unsigned max = a, c1 = 0, b7 = 0;
    __cpuid(1, a, b, c, d);
    c1 = c;
    if (max >= 7) { __cpuid_count(7, 0, a, b, c, d); b7 = b; }
    bool sse3 = c1 & 1, avx = c1 & (1u << 28), avx2 = b7 & (1u << 5), sha = b7 & (1u << 29);
    printf("cpu sse3=%d avx=%d avx2=%d sha=%d leaves=%u\n", sse3, avx, avx2, sha, max);
    auto first = Hasher::implemented();
    for (int k = 0; k < 8; ++k) {
        dirty_stack(k * 3);
        auto x = Hasher::implemented();
        if (x != first) { printf("bad: reports %d, then %d\n", int(first), int(x)); return 1; }
    }
    printf("reports");
    for (auto& n : names) if (!!(first & n.i)) printf(" %s", n.n);
    printf("\n");
    auto has = [&](I i) { return !!(first & i); };
    if (has(I::SHA) != sha) { printf("bad: SHA %s\n", sha ? "is not reported" : "is reported without the SHA extensions"); return 1; }
    if (has(I::AVX2) != avx2) { printf("bad: AVX2 %s\n", avx2 ? "is not reported" : "is reported without AVX2"); return 1; }
    if (has(I::AVX) != avx) { printf("bad: AVX %s\n", avx ? "is not reported" : "is reported without AVX"); return 1; }
    for (auto& n : names)
        if (has(n.i)) {
            printf("running %s\n", n.n);
            if (!right(Hasher(n.i))) { printf("bad: %s computes a wrong digest\n", n.n); return 1; }
        }
    if (!!first) {
        printf("running the default\n");
        if (!right(Hasher())) { printf("bad: the default computes a wrong digest\n"); return 1; }
        printf("running the one chosen for NONE\n");
        if (!right(Hasher(I::NONE))) { printf("bad: the one chosen for NONE computes a wrong digest\n"); return 1; }
    }
    printf("fine\n");
    return 0;
}
std::string self() {
    char b[PATH_MAX] = {};
    if (readlink("/proc/self/exe", b, sizeof b - 1) < 0) { perror("readlink"); exit(2); }
    return b;
}
std::string output(const std::vector<std::string>& cmd, int& st) {
    int p[2];
    if (pipe(p)) { perror("pipe"); _exit(2); }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (!pid) {
        dup2(p[1], 1);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 2);
        close(p[0]);
        close(p[1]);
        std::vector<char*> a;
        for (auto& s : cmd) a.push_back(const_cast<char*>(s.c_str()));
        a.push_back(nullptr);
        execvp(a[0], a.data());
        _exit(127);
    }
    close(p[1]);
    std::string o;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, std::size_t(n));
    close(p[0]);
    waitpid(pid, &st, 0);
    return o;
}
std::vector<std::string> cpus;
int c_reports[5];
void make_cpus() {
    // processors that have each prefix of the history of the vector extensions, with and without the SHA extensions
    const char* chain[] = {"-pni", "-ssse3", "-sse4.1", "-sse4.2", "-avx", "-avx2"};
    const char* with_avx = ",-fma,-f16c,-xsavec,-vaes,-vpclmulqdq,-gfni";
    for (int have = 0; have <= 6; ++have)
        for (int sha = 0; sha < 2; ++sha) {
            if (sha && have < 3) continue;
            std::string s = "max";
            for (int k = have; k < 6; ++k) s += std::string(",") + chain[k];
            if (have < 5) s += with_avx;
            if (!sha) s += ",-sha-ni";
            cpus.push_back(s);
            // the same without leaf 7
            if (!sha && have < 6) for (const char* l : {"1", "2", "4", "5", "6"}) cpus.push_back(s + ",level=" + l);
            for (const char* extra : {",-bmi1,-bmi2", ",-erms", ",-movbe", ",-adx", ",-popcnt"}) cpus.push_back(s + extra);
        }
    // every model that QEMU knows
    int st = 0;
    output({"qemu-x86_64", "/bin/true"}, st);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "QEMU does not work\n"); exit(2); }
    std::istringstream in(output({"qemu-x86_64", "-cpu", "help"}, st));
    std::string line, word;
    std::vector<std::string> models;
    bool on = false;
    while (std::getline(in, line)) {
        if (line.rfind("Available CPUs", 0) == 0) { on = true; continue; }
        if (line.rfind("Recognized", 0) == 0) break;
        std::istringstream l(line);
        if (on && l >> word) { if (word == "x86" && !(l >> word)) continue; models.push_back(word); }
    }
    for (auto& m : models) {
        if (m == "host") continue;
        std::string o = output({"qemu-x86_64", "-cpu", m, "/bin/true"}, st);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) continue;  // cannot run 64-bit programs
        cpus.push_back(m);
        cpus.push_back(m + ",+sha-ni,+ssse3,+sse4.1,+pni");
        cpus.push_back(m + ",-avx2");
        // asked for leaf 7, these answer with their last leaf
        for (const char* l : {"1", "2", "4", "5", "6"}) cpus.push_back(m + ",level=" + l);
        cpus.push_back(m + ",-avx,-avx2,-fma,-f16c");
    }
    cpus.push_back("");  // this very processor
}
void run_cpu(const Ints& c, Run& r) {
    auto& cpu = cpus[std::size_t(c[0])];
    r.distinct(mc::fnv(cpu.data(), cpu.size()));
    int st = 0;
    std::vector<std::string> cmd;
    if (!cpu.empty()) cmd = {"qemu-x86_64", "-cpu", cpu};
    cmd.push_back(self());
    cmd.push_back("probe");
    std::string o = output(cmd, st);
    std::string flat = o;
    for (auto& x : flat) if (x == '\n') x = ';';
    r.desc("%s: %s", cpu.empty() ? "this processor" : cpu.c_str(), flat.c_str());
    if (o.rfind("cpu ", 0) != 0) r.fail("%s: the probe did not start: status %d, %s", cpu.c_str(), st, flat.c_str());
    auto at = o.find("reports");
    std::string rep = at == std::string::npos ? "" : o.substr(at, o.find('\n', at) - at);
    for (int k = 0; k < 4; ++k) if ((rep + " ").find(std::string(" ") + names[k].n + " ") != std::string::npos) r.count(c_reports[k]);
    if (rep == "reports") r.count(c_reports[4]);
    if (WIFSIGNALED(st)) r.fail("on the processor '%s' the library was killed by signal %d: %s", cpu.c_str(), WTERMSIG(st), flat.c_str());
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) r.fail("on the processor '%s': %s", cpu.c_str(), flat.c_str());
}
std::vector<Family> families() {
    make_cpus();
    for (int k = 0; k < 4; ++k) c_reports[k] = mc::counter(std::string("processors_reporting_") + names[k].n);
    c_reports[4] = mc::counter("processors_reporting_nothing");
    return {{"processors", "processors with every prefix of SSE3..AVX2 with and without the SHA extensions and with small cpuid leaves; every x86-64 model of QEMU as it is, with SHA added, without AVX2, without AVX, with 1 to 6 cpuid leaves; this processor",
             [](const Emit& e) { for (std::size_t i = 0; i < cpus.size(); ++i) e({(long long)i}); }, run_cpu, 120}};
}
}  // namespace
int main(int argc, char** argv) {
    if (argc == 2 && !strcmp(argv[1], "probe")) return probe();
    return mc::main(argc, argv, families);
}
