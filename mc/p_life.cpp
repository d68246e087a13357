// C27, the program that is run: uses the library in the initializer of a static object, in main, in another thread, and
// in the destructor of a static object. MC_LIFE_TYPE says for which type, MC_LIFE_FIRST before what it is used first.
#include <pthread.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>

#include "gen.hpp"
#include "ops.hpp"
#include "phase0.hpp"
using Bv = std::vector<std::uint8_t>;
namespace {
void check(bool ok, const char* phase, const TypeOps& t, const char* what) {
    if (ok) return;
    dprintf(1, "%s: %s is wrong %s", t.name.c_str(), what, phase);
    _exit(9);
}
void use(const char* phase) {
    const char *ty = getenv("MC_LIFE_TYPE"), *when = getenv("MC_LIFE_WHEN");
    if (!ty || !when) return;
    if (!strstr(when, phase)) return;
    std::vector<TypeOps> T;
    register_a(T); register_b(T); register_c(T); register_d(T); register_e(T); register_f(T);
    auto& t = T[std::size_t(atoi(ty))];
    auto& sch = *t.schema;
    try {
        for (int k = 0; k < 3; ++k) {
            gen::Spec s;
            for (auto& sl : gen::slots(sch)) s.len.push_back((long long)std::min<std::uint64_t>(sl.t->n ? sl.t->n : 100, k == 0 ? 0 : sl.t->k == ref::Type::BITLIST ? 300 : sl.nested ? 1 : k + 1));
            s.fill = k == 0 ? gen::ZEROS : k == 1 ? gen::PATTERN : gen::PATTERN2;
            auto v = gen::build(sch, s);
            auto enc = ref::encode(sch, v);
            Obj o(t);
            if (k == 0) {
                auto z = ref::zero(sch);
                check(o.serialize() == ref::encode(sch, z), phase, t, "the encoding of a new object");
                check(o.root() == ref::root(sch, z), phase, t, "the root of a new object");
            }
            check(o.deserialize(enc), phase, t, "the decision about a valid encoding");
            check(o.serialize() == enc, phase, t, "an encoding");
            check(o.root() == ref::root(sch, v), phase, t, "a root");
            if (enc.size() < 3000) {
                std::string text;
                ref::yaml_text(ref::yaml(sch, v), text, true);
                Obj y(t);
                check(y.yaml_load(text), phase, t, "the decision about a YAML document");
                check(y == o && y.serialize() == enc, phase, t, "the value read from YAML");
            }
            auto bad = enc;
            bad.push_back(0xff);
            if (sch.fixed) check(!o.deserialize(bad), phase, t, "the decision about an invalid encoding");
        }
    } catch (const std::exception& e) {
        dprintf(1, "%s: %s %s", t.name.c_str(), e.what(), phase);
        _exit(9);
    }
}
struct Static {
    Static() { use("before main"); }
    ~Static() { use("after main"); }
} object;
}  // namespace
int main() {
    use("in main");
    pthread_t p;
    if (pthread_create(&p, nullptr, [](void*) -> void* { use("in a thread"); return nullptr; }, nullptr)) return 2;
    pthread_join(p, nullptr);
    atexit([] { use("at exit"); });
    return 0;
}
