#pragma once
#include "Kokkos_Core.hpp"
#include "Kokkos_Bitset.hpp"
#include <map>
#include <mutex>
namespace Kokkos {
struct UnorderedMapInsertResult {
    bool ok = false, ex = false;
    uint32_t idx = 0;
    bool success() const { return ok; }
    bool existing() const { return ex; }
    bool failed() const { return !ok && !ex; }
    uint32_t index() const { return idx; }
};
template <class K, class V, class D = Serial, class H = void, class E = void>
class UnorderedMap {
    struct Impl {
        std::mutex m;
        std::map<std::remove_const_t<K>, uint32_t> at;
        std::vector<std::remove_const_t<K>> keys;
        std::vector<std::remove_const_t<V>> vals;
        size_t cap = 0;
    };
    std::shared_ptr<Impl> p;

public:
    using size_type = uint32_t;
    using insert_result = UnorderedMapInsertResult;
    explicit UnorderedMap(size_t cap = 0) : p(std::make_shared<Impl>())
    {
        p->cap = cap;
        p->keys.reserve(cap);
        p->vals.reserve(cap);
    }
    insert_result insert(const K& k, const V& v = V()) const
    {
        std::lock_guard<std::mutex> g(p->m);
        auto it = p->at.find(k);
        if (it != p->at.end())
            return {false, true, it->second};
        if (p->keys.size() >= p->cap)
            return {};
        uint32_t i = p->keys.size();
        p->at[k] = i;
        p->keys.push_back(k);
        p->vals.push_back(v);
        return {true, false, i};
    }
    uint32_t find(const K& k) const
    {
        std::lock_guard<std::mutex> g(p->m);
        auto it = p->at.find(k);
        return it == p->at.end() ? ~0u : it->second;
    }
    bool exists(const K& k) const { return find(k) != ~0u; }
    bool valid_at(uint32_t i) const { return i < p->keys.size(); }
    K key_at(uint32_t i) const { return p->keys[i]; }
    V& value_at(uint32_t i) const { return p->vals[i]; }
    uint32_t size() const { return p->keys.size(); }
    uint32_t capacity() const { return p->cap; }
    void clear()
    {
        p->at.clear();
        p->keys.clear();
        p->vals.clear();
    }
    bool rehash(size_t c = 0)
    {
        p->cap = c;
        return true;
    }
};
}  // namespace Kokkos
