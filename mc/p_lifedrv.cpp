// C27: runs the programs linked in every order, for every type and every time of first use.
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <cstring>
#include <map>

#include "mc.hpp"
#include "ops.hpp"
using mc::Family;
using mc::Ints;
using mc::Run;
extern char** environ;
namespace {
std::vector<std::string> progs, names;
const char* WHEN[] = {"before main", "in main", "in a thread", "after main", "before main, in main, in a thread, at exit, after main"};
void run(const Ints& v, Run& r) {
    auto& prog = progs[std::size_t(v[0])];
    std::string ty = "MC_LIFE_TYPE=" + std::to_string(v[1]), when = std::string("MC_LIFE_WHEN=") + WHEN[v[2]];
    std::vector<char*> env;
    for (char** e = environ; *e; ++e) env.push_back(*e);
    env.push_back(ty.data());
    env.push_back(when.data());
    env.push_back(nullptr);
    int p[2];
    if (pipe(p)) { perror("pipe"); _exit(2); }
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, p[1], 1);
    posix_spawn_file_actions_addclose(&fa, p[0]);
    char* argv[] = {prog.data(), nullptr};
    pid_t q;
    if (posix_spawn(&q, prog.c_str(), &fa, nullptr, argv, env.data())) { perror("spawn"); _exit(2); }
    posix_spawn_file_actions_destroy(&fa);
    close(p[1]);
    std::string out;
    char b[512];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, std::size_t(n));
    close(p[0]);
    int st = 0;
    waitpid(q, &st, 0);
    r.distinct(mc::hash_ints(v));
    r.desc("program linked in order %s, type number %lld, used %s", names[std::size_t(v[0])].c_str(), v[1], WHEN[v[2]]);
    if (WIFSIGNALED(st)) r.fail("type number %lld used %s, program linked in order %s: %s", v[1], WHEN[v[2]], names[std::size_t(v[0])].c_str(), strsignal(WTERMSIG(st)));
    if (WEXITSTATUS(st)) r.fail("program linked in order %s, used %s: %s (status %d)", names[std::size_t(v[0])].c_str(), WHEN[v[2]], out.c_str(), WEXITSTATUS(st));
}
std::vector<Family> families() {
    std::map<std::string, std::string> side;
    for (char** e = environ; *e; ++e)
        if (!strncmp(*e, "MC_SIDE_", 8)) {
            auto* q = strchr(*e, '=');
            side[std::string(*e + 8, q)] = q + 1;
        }
    for (auto& [n, p] : side) names.push_back(n), progs.push_back(p);
    long long types = atoi(getenv("MC_TYPES") ? getenv("MC_TYPES") : "128");
    return {{"orders", "the object files with initializers, the using one (0) and the library's, linked in every order (from four on, every rotation and reverse); every type; used first before main, in main, in another thread, after main, or at all times",
             [types](auto& go) { for (std::size_t p = 0; p < progs.size(); ++p) for (long long t = 0; t < types; ++t) for (int w = 0; w < 5; ++w) go({(long long)p, t, w}); }, run, 120}};
}
}  // namespace
int main(int argc, char** argv) { return mc::main(argc, argv, families); }
