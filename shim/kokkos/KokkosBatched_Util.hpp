#pragma once
#include "Kokkos_Core.hpp"
namespace KokkosBatched {
struct Trans {
    struct Transpose {
        static constexpr bool transposed = true;
    };
    struct NoTranspose {
        static constexpr bool transposed = false;
    };
    struct ConjTranspose {
        static constexpr bool transposed = true;
    };
};
struct Algo {
    struct Level3 {
        struct Unblocked {};
        struct Blocked {};
    };
    struct Level2 {
        struct Unblocked {};
        struct Blocked {};
    };
    using Gemm = Level3;
    using Gemv = Level2;
};
}  // namespace KokkosBatched
namespace KokkosBlas {
using KokkosBatched::Algo;
using KokkosBatched::Trans;
}
