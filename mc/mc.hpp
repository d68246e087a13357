// Bounded exhaustive explorer: every case of a family is generated in a fixed order, executed on the real code
// in one of several worker processes, and judged. Violations are re-executed before they are reported.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {
using Ints = std::vector<long long>;

struct Violation {
    std::string msg;
};

// Handed to the code that runs one case.
struct Run {
    bool verbose = false;      // describe the case
    std::string description;   // what this case is, for people
    std::vector<std::uint64_t>* hashes = nullptr;
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // Counts this case as non-trivial; h identifies its input.
    void distinct(std::uint64_t h) { if (hashes) hashes->push_back(h); }
    void count(int counter, long long n = 1);
    void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Family {
    std::string name;
    std::string rule;  // how the cases are made, and the bounds
    std::function<void(const std::function<void(const Ints&)>&)> gen;
    std::function<void(const Ints&, Run&)> run;
    double timeout = 60;  // seconds of CPU for one case
    bool fork_each = false;  // run each case in a process of its own
};

// Names an additional counter of the evidence; returns its handle for Run::count.
int counter(const std::string& name);

struct Options {
    std::string prop, tier = "quick", out, replay, replay_dir = ".";
    std::string tag;   // which build this is
    std::string only;  // restrict to one family
    long long seed = 1;
    int workers = 0;
    double budget = 0;
    bool thorough() const { return tier == "thorough"; }
};
extern Options opt;

extern unsigned long long as_limit;  // bytes of address space a worker may have
int main(int argc, char** argv, const std::function<std::vector<Family>()>& families);

inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
    auto c = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline std::uint64_t hash_ints(const Ints& v, std::uint64_t h = 7) {
    for (auto x : v) h = mix(h ^ std::uint64_t(x));
    return h;
}
std::string hex(const void* p, std::size_t n, std::size_t max = 64);
}  // namespace mc
