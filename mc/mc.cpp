#include "mc.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <typeinfo>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif

namespace mc {
Options opt;
namespace {
constexpr int MAXW = 64, MAXF = 64, MAXI = 64, MAXC = 64;
struct Slot {
    std::atomic<long long> fam, idx, n;
    long long ints[MAXI];
    std::atomic<double> cpu0, wall0;
    std::atomic<int> state;  // 0 idle, 1 in a case, 2 finished, 3 failed
};
struct Shared {
    std::atomic<int> stop;
    std::atomic<int> capped;
    std::atomic<long long> cases[MAXF];
    std::atomic<long long> generated[MAXF];
    std::atomic<long long> ctr[MAXC];
    Slot slot[MAXW];
} *sh;
std::vector<std::string> counter_names;

double now(clockid_t c) {
    timespec t{};
    clock_gettime(c, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
std::string vfmt(const char* fmt, va_list ap) {
    char buf[8192];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}
std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
std::string js(const Ints& v) {
    std::string o = "[";
    for (std::size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]);
    return o + "]";
}

// Runs one case; returns "" or the violation.
std::string run_case(const Family& f, const Ints& v, Run& r) {
    try {
        f.run(v, r);
        return "";
    } catch (const Violation& x) {
        return x.msg;
    } catch (const std::exception& x) {
        return std::string("unexpected exception ") + typeid(x).name() + ": " + x.what();
    } catch (...) {
        return "unexpected exception of unknown type";
    }
}

struct Outcome {
    bool bad = false;
    std::string msg, desc;
};
std::string status_text(int st) {
    if (WIFSIGNALED(st)) return std::string("the code under test was killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
    return "the code under test ended the process with status " + std::to_string(WEXITSTATUS(st));
}

// Runs body() in a child with a CPU limit; body returns "" or a violation.
Outcome in_child(double timeout, const std::function<std::string(std::string&)>& body) {
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        close(p[0]);
        std::string d;
        std::string m = body(d);
        std::string out = m + '\0' + d;
        std::size_t k = 0;
        while (k < out.size()) { auto n = write(p[1], out.data() + k, out.size() - k); if (n <= 0) break; k += std::size_t(n); }
        _exit(m.empty() ? 0 : 10);
    }
    close(p[1]);
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    std::string got;
    double w0 = now(CLOCK_MONOTONIC);
    int st = 0;
    bool timed = false;
    for (;;) {
        char b[4096];
        ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, std::size_t(n));
        pid_t q = waitpid(pid, &st, WNOHANG);
        if (q == pid) {
            while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, std::size_t(n));
            break;
        }
        clockid_t c;
        double cpu = clock_getcpuclockid(pid, &c) == 0 ? now(c) : 0;
        if (cpu > timeout || now(CLOCK_MONOTONIC) - w0 > 6 * timeout + 30) {
            timed = true;
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(2000);
    }
    close(p[0]);
    Outcome o;
    auto z = got.find('\0');
    std::string m = got.substr(0, z), d = z == std::string::npos ? "" : got.substr(z + 1);
    o.desc = d;
    if (timed) { o.bad = true; o.msg = "no result within " + std::to_string(int(timeout)) + " s of CPU"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o.bad = false;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { o.bad = true; o.msg = m; }
    else { o.bad = true; o.msg = status_text(st); }
    return o;
}

}  // namespace
unsigned long long as_limit = 12ull << 30;
namespace {
void quiet_limits() {
    rlimit c{0, 0};
    setrlimit(RLIMIT_CORE, &c);
#ifndef MC_ASAN
    rlimit a{as_limit, as_limit};
    setrlimit(RLIMIT_AS, &a);
#endif
}

std::string tmpdir;
void worker(int w, int W, const std::vector<Family>& fams, double deadline) {
    Slot& s = sh->slot[w];
    std::vector<std::uint64_t> hashes;
    std::ofstream samples(tmpdir + "/s" + std::to_string(w));
    for (std::size_t fi = 0; fi < fams.size(); ++fi) {
        const Family& f = fams[fi];
        if (!opt.only.empty() && f.name != opt.only) continue;
        long long idx = 0;
        struct Stop {};
        double last_check = 0;
        try {
            f.gen([&](const Ints& v) {
                long long me = idx++;
                if (me % W != w) return;
                if (sh->stop.load(std::memory_order_relaxed)) throw Stop{};
                double t = now(CLOCK_MONOTONIC);
                if (t - last_check > 0.2) {
                    last_check = t;
                    if (t > deadline) { sh->capped.store(1); throw Stop{}; }
                }
                if (v.size() > MAXI) { fprintf(stderr, "case too long\n"); _exit(2); }
                s.n = (long long)v.size();
                for (std::size_t i = 0; i < v.size(); ++i) s.ints[i] = v[i];
                s.fam = (long long)fi;
                s.idx = me;
                s.wall0 = t;
                s.cpu0 = now(CLOCK_PROCESS_CPUTIME_ID);
                s.state = 1;
                Run r;
                r.hashes = &hashes;
                r.verbose = me < 3;
                std::string m;
                if (f.fork_each) {
                    auto o = in_child(f.timeout, [&](std::string& d) { Run q; q.verbose = r.verbose; auto x = run_case(f, v, q); d = q.description; return x; });
                    if (o.bad) m = o.msg.empty() ? "failed" : o.msg;
                    r.description = o.desc;
                    hashes.push_back(hash_ints(v, fnv(f.name.data(), f.name.size())));
                } else
                    m = run_case(f, v, r);
                if (!m.empty()) {
                    std::ofstream(tmpdir + "/v" + std::to_string(w)) << m;
                    s.state = 3;
                    sh->stop = 1;
                    _exit(11);
                }
                s.state = 0;
                sh->cases[fi].fetch_add(1, std::memory_order_relaxed);
                if (r.verbose && !r.description.empty()) samples << f.name << '\t' << r.description << '\n';
            });
            if (w == 0) sh->generated[fi] = idx;
        } catch (Stop&) {
            break;
        }
        if (hashes.size() > 4000000) {
            std::sort(hashes.begin(), hashes.end());
            hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
        }
    }
    samples.close();
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    std::ofstream(tmpdir + "/h" + std::to_string(w), std::ios::binary).write(reinterpret_cast<const char*>(hashes.data()), std::streamsize(hashes.size() * 8));
    s.state = 2;
    _exit(0);
}
}  // namespace

void Run::fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    auto m = vfmt(fmt, ap);
    va_end(ap);
    throw Violation{m};
}
void Run::desc(const char* fmt, ...) {
    if (!verbose) return;
    va_list ap;
    va_start(ap, fmt);
    description += vfmt(fmt, ap);
    va_end(ap);
}
int counter(const std::string& name) {
    for (std::size_t i = 0; i < counter_names.size(); ++i)
        if (counter_names[i] == name) return int(i);
    counter_names.push_back(name);
    if (counter_names.size() > MAXC) { fprintf(stderr, "too many counters\n"); exit(2); }
    return int(counter_names.size() - 1);
}
void Run::count(int c, long long n) { if (sh) sh->ctr[c].fetch_add(n, std::memory_order_relaxed); }

std::string hex(const void* p, std::size_t n, std::size_t max) {
    static const char* d = "0123456789abcdef";
    auto c = static_cast<const unsigned char*>(p);
    std::string o;
    for (std::size_t i = 0; i < n && i < max; ++i) { o += d[c[i] >> 4]; o += d[c[i] & 15]; }
    if (n > max) o += "...(" + std::to_string(n) + " bytes)";
    return o;
}

int main(int argc, char** argv, const std::function<std::vector<Family>()>& make) {
    bool probe = false;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], b = argv[i + 1];
        if (a == "--prop") opt.prop = b;
        else if (a == "--tier") opt.tier = b;
        else if (a == "--seed") opt.seed = atoll(b.c_str());
        else if (a == "--out") opt.out = b;
        else if (a == "--replay") opt.replay = b;
        else if (a == "--replay-dir") opt.replay_dir = b;
        else if (a == "--workers") opt.workers = atoi(b.c_str());
        else if (a == "--budget") opt.budget = atof(b.c_str());
        else if (a == "--tag") opt.tag = b;
        else if (a == "--only") opt.only = b;
        else if (a == "--probe") probe = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    signal(SIGPIPE, SIG_IGN);
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    auto fams = make();
    for (auto& f : fams) std::replace(f.name.begin(), f.name.end(), ' ', '-');  // names are words in replays
    if (fams.size() > MAXF) { fprintf(stderr, "too many families\n"); return 2; }
    quiet_limits();
    if (probe) return 0;  // it starts

    if (!opt.replay.empty()) {
        // A replay is "family i0 i1 ..." (one case), or "family prefix W w idx".
        std::istringstream in(opt.replay);
        std::string fam;
        in >> fam;
        Ints v;
        std::string tok;
        bool prefix = false;
        while (in >> tok) { if (tok == "prefix") prefix = true; else v.push_back(atoll(tok.c_str())); }
        for (auto& f : fams)
            if (f.name == fam) {
                auto o = in_child(f.timeout * (prefix ? 50 : 1), [&](std::string& d) -> std::string {
                    Run r;
                    r.verbose = true;
                    if (!prefix) { auto m = run_case(f, v, r); d = r.description; return m; }
                    long long idx = 0;
                    std::string m;
                    struct Done {};
                    try {
                        f.gen([&](const Ints& c) {
                            long long me = idx++;
                            if (me % v[0] != v[1]) return;
                            r.description.clear();
                            m = run_case(f, c, r);
                            if (!m.empty() || me >= v[2]) throw Done{};
                        });
                    } catch (Done&) {}
                    d = r.description;
                    return m;
                });
                printf("case: %s\nresult: %s\n", o.desc.c_str(), o.bad ? o.msg.c_str() : "holds");
                return o.bad ? 1 : 0;
            }
        fprintf(stderr, "no family %s\n", fam.c_str());
        return 2;
    }

    int W = opt.workers > 0 ? opt.workers : int(std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)));
    W = std::min(W, MAXW);
    char tmpl[] = "/tmp/mcXXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    tmpdir = tmpl;
    double t0 = now(CLOCK_MONOTONIC);
    double budget = opt.budget > 0 ? opt.budget : 500;
    std::vector<pid_t> pid(std::size_t(W), 0);
    fflush(stdout);
    for (int w = 0; w < W; ++w) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) {
            // diagnostics of the code under test (sanitizers) go to a file
            int fd = open((tmpdir + "/e" + std::to_string(w)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
            worker(w, W, fams, t0 + budget);
        }
        pid[std::size_t(w)] = p;
    }
    struct Bad { int w; std::string msg; };
    std::vector<Bad> bad;
    int left = W;
    std::vector<bool> gone(std::size_t(W), false);
    while (left > 0) {
        usleep(5000);
        for (int w = 0; w < W; ++w) {
            if (gone[std::size_t(w)]) continue;
            int st;
            Slot& s = sh->slot[w];
            pid_t q = waitpid(pid[std::size_t(w)], &st, WNOHANG);
            if (q == pid[std::size_t(w)]) {
                gone[std::size_t(w)] = true;
                --left;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (s.state == 3) {
                    std::ifstream in(tmpdir + "/v" + std::to_string(w));
                    std::stringstream b;
                    b << in.rdbuf();
                    bad.push_back({w, b.str()});
                } else if (s.state == 1)
                    bad.push_back({w, status_text(st)});
                else if (s.state == 2) bad.push_back({w, ""});
                else {
                    fprintf(stderr, "worker %d died outside a case: %s\n", w, status_text(st).c_str());
                    bad.push_back({w, ""});
                }
                sh->stop = 1;
                continue;
            }
            if (s.state == 1) {
                clockid_t c;
                double cpu = clock_getcpuclockid(pid[std::size_t(w)], &c) == 0 ? now(c) : 0;
                auto& f = fams[std::size_t(s.fam.load())];
                if (!f.fork_each && (cpu - s.cpu0 > f.timeout || now(CLOCK_MONOTONIC) - s.wall0 > 6 * f.timeout + 60)) {
                    kill(pid[std::size_t(w)], SIGKILL);
                }
            }
        }
    }
    // the first failing case in enumeration order
    std::sort(bad.begin(), bad.end(), [](const Bad& a, const Bad& b) {
        auto &x = sh->slot[a.w], &y = sh->slot[b.w];
        return std::make_pair(x.fam.load(), x.idx.load()) < std::make_pair(y.fam.load(), y.idx.load());
    });
    int rc = 0;
    std::string viol;
    for (auto& b : bad) {
        if (b.msg.empty()) { rc = 2; continue; }
        Slot& s = sh->slot[b.w];
        const Family& f = fams[std::size_t(s.fam.load())];
        Ints v(s.ints, s.ints + s.n.load());
        fprintf(stderr, "family %s case %s: %s\n", f.name.c_str(), js(v).c_str(), b.msg.c_str());
        {
            std::ifstream in(tmpdir + "/e" + std::to_string(b.w));
            std::string line;
            for (int i = 0; i < 12 && std::getline(in, line); ++i) fprintf(stderr, "  | %s\n", line.c_str());
        }
        std::string replay = f.name, how;
        for (auto x : v) replay += " " + std::to_string(x);
        Outcome o;
        bool confirmed = false;
        for (int k = 0; k < 2 && !confirmed; ++k) {
            o = in_child(f.timeout, [&](std::string& d) { Run r; r.verbose = true; auto m = run_case(f, v, r); d = r.description; return m; });
            confirmed = o.bad;
        }
        how = "single case, re-executed in a fresh process";
        if (!confirmed) {
            long long want = s.idx;
            int w = b.w;
            o = in_child(f.timeout * 50, [&](std::string& d) -> std::string {
                Run r;
                long long idx = 0;
                std::string m;
                struct Done {};
                try {
                    f.gen([&](const Ints& c) {
                        long long me = idx++;
                        if (me % W != w) return;
                        r.verbose = me == want;
                        m = run_case(f, c, r);
                        if (!m.empty() || me >= want) throw Done{};
                    });
                } catch (Done&) {}
                d = r.description;
                return m;
            });
            confirmed = o.bad;
            replay = f.name + " prefix " + std::to_string(W) + " " + std::to_string(w) + " " + std::to_string(want);
            how = "the cases before it in the same process, re-executed in a fresh process";
        }
        if (!confirmed) {
            fprintf(stderr, "not reproduced: not reported\n");
            rc = 2;
            continue;
        }
        mkdir(opt.replay_dir.c_str(), 0755);
        std::string path = opt.replay_dir + "/" + opt.prop + (opt.tag.empty() ? "" : "-" + opt.tag) + "-" + f.name + ".json";
        std::ofstream(path) << "{\"property\": " << js(opt.prop) << ", \"build\": " << js(opt.tag) << ", \"tier\": " << js(opt.tier)
                            << ", \"family\": " << js(f.name) << ", \"replay\": " << js(replay) << ", \"how\": " << js(how)
                            << ", \"case\": " << js(o.desc) << ", \"violation\": " << js(o.msg.empty() ? b.msg : o.msg) << "}\n";
        viol = path;
        fprintf(stderr, "confirmed (%s): %s\n  case: %s\n", how.c_str(), o.msg.c_str(), o.desc.c_str());
        rc = 1;
        break;
    }
    // evidence of this run
    std::vector<std::uint64_t> all;
    std::map<std::string, std::vector<std::string>> samples;
    for (int w = 0; w < W; ++w) {
        std::ifstream in(tmpdir + "/h" + std::to_string(w), std::ios::binary);
        std::uint64_t x;
        while (in.read(reinterpret_cast<char*>(&x), 8)) all.push_back(x);
        std::ifstream si(tmpdir + "/s" + std::to_string(w));
        std::string line;
        while (std::getline(si, line)) {
            auto t = line.find('\t');
            if (t != std::string::npos) samples[line.substr(0, t)].push_back(line.substr(t + 1, 400));
        }
    }
    std::sort(all.begin(), all.end());
    long long distinct = std::unique(all.begin(), all.end()) - all.begin();
    std::ofstream o(opt.out);
    long long total = 0;
    o << "{\"tag\": " << js(opt.tag) << ", \"families\": [";
    bool first = true;
    for (std::size_t i = 0; i < fams.size(); ++i) {
        if (!opt.only.empty() && fams[i].name != opt.only) continue;
        long long c = sh->cases[i];
        total += c;
        o << (first ? "" : ",") << "\n {\"family\": " << js(fams[i].name) << ", \"rule\": " << js(fams[i].rule) << ", \"executed\": " << c
          << ", \"enumerated\": " << sh->generated[i].load() << ", \"complete\": " << (sh->generated[i] == c && c > 0 ? "true" : "false") << ", \"samples\": [";
        auto& s = samples[fams[i].name];
        for (std::size_t k = 0; k < s.size() && k < 3; ++k) o << (k ? "," : "") << js(s[k]);
        o << "]}";
        first = false;
    }
    o << "], \"evaluations\": " << total << ", \"distinct\": " << distinct << ", \"capped\": " << (sh->capped ? "true" : "false") << ", \"counters\": {";
    for (std::size_t i = 0; i < counter_names.size(); ++i) o << (i ? "," : "") << js(counter_names[i]) << ": " << sh->ctr[i].load();
    o << "}, \"wall_s\": " << now(CLOCK_MONOTONIC) - t0 << ", \"violation\": " << js(viol) << "}\n";
    o.close();
    DIR* d = opendir(tmpl);
    if (d) {
        while (auto e = readdir(d))
            if (e->d_name[0] != '.') unlink((tmpdir + "/" + e->d_name).c_str());
        closedir(d);
    }
    rmdir(tmpl);
    return rc;
}
}  // namespace mc
