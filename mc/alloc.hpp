// What is allocated with new: counted, and refused on demand. Linked into the programs of C25 and C26 only.
#pragma once
namespace mcalloc {
struct State {
    long long live, blocks;     // bytes and blocks allocated now
    long long peak;             // most bytes since it was set
    long long calls;            // allocations since it was set
    long long fail_at;          // the allocation (counted by calls) that fails; 0: none
    long long failed;           // allocations refused
    bool counting;              // calls are counted
};
extern State state __attribute__((weak));
}  // namespace mcalloc
