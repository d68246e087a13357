// The public operations of one type of the library, with the type erased.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "ref_ssz.hpp"

struct TypeOps {
    std::string name;
    const ref::Type* schema = nullptr;
    bool consensus = false;  // one of the phase0 containers
    std::size_t size = 0, align = 0;
    void (*make)(void*) = nullptr;
    void (*destroy)(void*) = nullptr;
    void (*copy_make)(void*, const void*) = nullptr;
    void (*move_make)(void*, void*) = nullptr;
    void (*copy_assign)(void*, const void*) = nullptr;
    void (*move_assign)(void*, void*) = nullptr;
    bool (*deserialize)(void*, const std::vector<std::uint8_t>&, std::size_t, std::size_t) = nullptr;
    std::vector<std::uint8_t> (*serialize)(const void*) = nullptr;
    ref::Chunk (*root)(const void*) = nullptr;
    bool (*eq)(const void*, const void*) = nullptr;
    bool (*ne)(const void*, const void*) = nullptr;
    std::size_t (*ssz_size)(const void*) = nullptr;
    bool (*yaml_load)(void*, const std::string&) = nullptr;           // parse the text, decode into the object
    ref::Y (*yaml_tree)(const void*) = nullptr;                       // encode
    std::string (*yaml_dump)(const void*) = nullptr;                  // encode, write as text
};
void register_a(std::vector<TypeOps>&);
void register_b(std::vector<TypeOps>&);
void register_c(std::vector<TypeOps>&);
void register_d(std::vector<TypeOps>&);
void register_e(std::vector<TypeOps>&);
void register_f(std::vector<TypeOps>&);

// An object of the library in memory that was filled with a pattern before construction.
class Obj {
    const TypeOps* t;
    void* m;
   public:
    static void* mem(const TypeOps& t, int fill) {
        std::size_t a = std::max<std::size_t>(t.align, 16);
        void* p = std::aligned_alloc(a, (t.size + a - 1) / a * a);
        if (!p) throw std::bad_alloc();
        std::memset(p, fill, t.size);
        return p;
    }
    explicit Obj(const TypeOps& ops, int fill = 0xA5) : t{&ops}, m{mem(ops, fill)} { t->make(m); }
    Obj(const Obj& o) : t{o.t}, m{mem(*o.t, 0x5A)} { t->copy_make(m, o.m); }
    Obj(Obj&& o) : t{o.t}, m{mem(*o.t, 0x5A)} { t->move_make(m, o.m); }
    Obj& operator=(const Obj& o) { t->copy_assign(m, o.m); return *this; }
    Obj& operator=(Obj&& o) { t->move_assign(m, o.m); return *this; }
    ~Obj() { t->destroy(m); std::free(m); }
    void* ptr() { return m; }
    const TypeOps& ops() const { return *t; }
    bool deserialize(const std::vector<std::uint8_t>& b) { return t->deserialize(m, b, 0, b.size()); }
    bool deserialize(const std::vector<std::uint8_t>& b, std::size_t from, std::size_t to) { return t->deserialize(m, b, from, to); }
    std::vector<std::uint8_t> serialize() const { return t->serialize(m); }
    ref::Chunk root() const { return t->root(m); }
    bool operator==(const Obj& o) const { return t->eq(m, o.m); }
    bool operator!=(const Obj& o) const { return t->ne(m, o.m); }
    std::size_t ssz_size() const { return t->ssz_size(m); }
    bool yaml_load(const std::string& s) { return t->yaml_load(m, s); }
    ref::Y yaml_tree() const { return t->yaml_tree(m); }
    std::string yaml_dump() const { return t->yaml_dump(m); }
};
