#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos {
template <class D = Serial>
class Bitset {
    View<unsigned*> w_;
    unsigned n_ = 0;

public:
    explicit Bitset(unsigned n = 0) : w_("bitset", n), n_(n) {}
    unsigned size() const { return n_; }
    unsigned count() const
    {
        unsigned c = 0;
        for (unsigned i = 0; i < n_; ++i)
            c += w_(i) != 0;
        return c;
    }
    bool set(unsigned i) const { return i < n_ && !atomic_exchange(&w_(i), 1u); }
    bool reset(unsigned i) const { return i < n_ && atomic_exchange(&w_(i), 0u); }
    bool test(unsigned i) const { return i < n_ && atomic_load(&w_(i)); }
    void set() { deep_copy(w_, 1u); }
    void reset() { deep_copy(w_, 0u); }
    void clear() { deep_copy(w_, 0u); }
};
template <class D = Serial>
using ConstBitset = Bitset<D>;
}  // namespace Kokkos
