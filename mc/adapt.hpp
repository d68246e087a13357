#pragma once
#include <new>
#include <utility>
#include "ops.hpp"
#include "phase0.hpp"
#include "yaml-cpp/yaml.h"

inline ref::Y y_of(const YAML::Node& n) {
    ref::Y y;
    if (n.IsScalar()) y.s = n.Scalar();
    else if (n.IsSequence()) {
        y.k = ref::Y::SEQ;
        for (auto it = n.begin(); it != n.end(); ++it) y.seq.push_back(y_of(*it));
    } else if (n.IsMap()) {
        y.k = ref::Y::MAP;
        for (auto it = n.begin(); it != n.end(); ++it) y.add(it->first.Scalar(), y_of(it->second));
    } else
        y.s = n.IsNull() ? "<null>" : "<undefined>";
    return y;
}

// LIMIT >= 0: the constructor takes the limit of the list.
template <class T, long long LIMIT = -1>
TypeOps ops_of(std::string name, const ref::Type* schema, bool consensus = false) {
    TypeOps o;
    o.name = std::move(name);
    o.schema = schema;
    o.consensus = consensus;
    o.size = sizeof(T);
    o.align = alignof(T);
    o.make = [](void* p) {
        if constexpr (LIMIT >= 0) ::new (p) T(std::size_t(LIMIT));
        else ::new (p) T;
    };
    o.destroy = [](void* p) { static_cast<T*>(p)->~T(); };
    o.copy_make = [](void* p, const void* q) { ::new (p) T(*static_cast<const T*>(q)); };
    o.move_make = [](void* p, void* q) { ::new (p) T(std::move(*static_cast<T*>(q))); };
    o.copy_assign = [](void* p, const void* q) { *static_cast<T*>(p) = *static_cast<const T*>(q); };
    o.move_assign = [](void* p, void* q) { *static_cast<T*>(p) = std::move(*static_cast<T*>(q)); };
    o.deserialize = [](void* p, const std::vector<std::uint8_t>& b, std::size_t from, std::size_t to) -> bool {
        return static_cast<T*>(p)->deserialize(b.cbegin() + std::ptrdiff_t(from), b.cbegin() + std::ptrdiff_t(to));
    };
    o.serialize = [](const void* p) -> std::vector<std::uint8_t> { return static_cast<const T*>(p)->serialize(); };
    o.root = [](const void* p) -> ref::Chunk { return static_cast<const T*>(p)->hash_tree_root(); };
    o.eq = [](const void* p, const void* q) -> bool { return *static_cast<const T*>(p) == *static_cast<const T*>(q); };
    o.ne = [](const void* p, const void* q) -> bool { return *static_cast<const T*>(p) != *static_cast<const T*>(q); };
    o.ssz_size = [](const void* p) -> std::size_t { return static_cast<const T*>(p)->get_ssz_size(); };
    o.yaml_load = [](void* p, const std::string& s) -> bool { return static_cast<T*>(p)->decode(YAML::Load(s)); };
    o.yaml_tree = [](const void* p) -> ref::Y { return y_of(static_cast<const T*>(p)->encode()); };
    o.yaml_dump = [](const void* p) -> std::string {
        YAML::Emitter e;
        e << static_cast<const T*>(p)->encode();
        return e.c_str();
    };
    return o;
}
#ifdef MC_MAINNET
inline const phase0::Preset& preset() { return phase0::mainnet; }
#else
inline const phase0::Preset& preset() { return phase0::minimal; }
#endif
inline std::map<std::string, const ref::Type*>& schemas() {
    static auto m = phase0::containers(preset());
    return m;
}
