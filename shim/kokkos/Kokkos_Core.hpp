// A small, strict, sequential/threaded stand-in for the part of Kokkos that
// symmetrix uses (Kokkos itself is a git submodule that is not present in this
// sandbox).  It follows the documented host semantics, and adds what a test
// bench wants:
//   - every View access is bounds checked; uninitialised allocations are poisoned;
//   - views copied inside a kernel are not reference counted (as in Kokkos);
//   - three ways of running a kernel, chosen by Kokkos::shim::config():
//       Ordered   one thread, iterations in order, teams of one;
//       Shuffled  one thread, iterations and leagues in a seeded random order,
//                 teams of 1..max_team members that are really interleaved
//                 (coroutines that switch at barriers and, at random, at nested
//                 constructs), range reductions split into random chunks;
//       Threads   real threads (for ThreadSanitizer).
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <iostream>

#include <pthread.h>
#include <ucontext.h>

#if defined(__SANITIZE_ADDRESS__)
#define KSHIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define KSHIM_ASAN 1
#endif
#endif
#ifdef KSHIM_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_VERSION 40500
#define KOKKOS_ENABLE_SERIAL 1
#define KOKKOS_ASSERT(x) ((void)0)
#define KOKKOS_IF_ON_HOST(CODE) KSHIM_STRIP CODE
#define KOKKOS_IF_ON_DEVICE(CODE)
#define KSHIM_STRIP(...) __VA_ARGS__

namespace Kokkos {

// ---------------------------------------------------------------- shim state
namespace shim {

enum Mode { Ordered = 0, Shuffled = 1, Threads = 2 };

struct Config {
    Mode mode = Ordered;
    uint64_t seed = 1;
    int max_team = 3;    // AUTO team sizes are drawn from 1..max_team
    int workers = 3;     // league / range workers in Threads mode
    bool initialized = false;
};
inline Config& config()
{
    static Config c;
    return c;
}
inline uint64_t& rng_state()
{
    static uint64_t s = 0x9E3779B97F4A7C15ull;
    return s;
}
inline void reseed(Mode m, uint64_t seed)
{
    config().mode = m;
    config().seed = seed;
    rng_state() = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
}
inline uint64_t rnd()
{
    uint64_t z = (rng_state() += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }

inline int& in_parallel()
{
    static thread_local int v = 0;
    return v;
}
inline const char*& kernel_name()
{
    static const char* n = "";
    return n;
}
[[noreturn]] inline void die(const std::string& what)
{
    std::fprintf(stderr, "KOKKOS-SHIM: %s (kernel '%s')\n", what.c_str(), kernel_name());
    std::fflush(stderr);
    std::abort();
}

inline std::vector<int64_t> order(int64_t n)
{
    std::vector<int64_t> p(n);
    for (int64_t i = 0; i < n; ++i)
        p[i] = i;
    if (config().mode != Ordered)
        for (int64_t i = n - 1; i > 0; --i)
            std::swap(p[i], p[rnd(i + 1)]);
    return p;
}

struct KernelScope {
    const char* old;
    explicit KernelScope(const std::string& n) : old(kernel_name())
    {
        static std::string keep;
        keep = n;
        kernel_name() = keep.c_str();
        ++in_parallel();
    }
    ~KernelScope()
    {
        --in_parallel();
        kernel_name() = "";
        (void)old;
    }
};
}  // namespace shim

// ---------------------------------------------------------------- spaces etc.
struct LayoutRight {};
struct LayoutLeft {};
struct LayoutStride {};

struct Serial;
struct HostSpace {
    using memory_space = HostSpace;
    using execution_space = Serial;
    using device_type = Serial;
};
using SharedSpace = HostSpace;
using SharedHostPinnedSpace = HostSpace;
struct ScratchMemorySpace {
    using memory_space = ScratchMemorySpace;
    char* base = nullptr;
    size_t size = 0;
    size_t* used = nullptr;
    int copies = 1;
    void* get_shmem(size_t n) const
    {
        n = (n + 7) / 8 * 8;
        if (!used || *used + n > size)
            return nullptr;
        void* p = base + *used;
        *used += n;
        return p;
    }
};
struct Serial {
    using execution_space = Serial;
    using memory_space = HostSpace;
    using device_type = Serial;
    using array_layout = LayoutRight;
    using scratch_memory_space = ScratchMemorySpace;
    using size_type = size_t;
    static int concurrency() { return 1; }
    void fence(const std::string& = "") const {}
    static const char* name() { return "Serial"; }
};
using DefaultExecutionSpace = Serial;
using DefaultHostExecutionSpace = Serial;
template <class E, class M>
struct Device {
    using execution_space = E;
    using memory_space = M;
    using device_type = Device;
};

enum MemoryTraitsFlags { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
template <unsigned T = 0>
struct MemoryTraits {
    static constexpr bool is_atomic = (T & Atomic) != 0;
    static constexpr bool is_unmanaged = (T & Unmanaged) != 0;
};
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
using MemoryManaged = MemoryTraits<0>;

struct WithoutInitializing_t {};
struct SequentialHostInit_t {};
struct AllowPadding_t {};
inline constexpr WithoutInitializing_t WithoutInitializing{};
inline constexpr SequentialHostInit_t SequentialHostInit{};
inline constexpr AllowPadding_t AllowPadding{};
struct ALL_t {
    constexpr ALL_t operator()() const { return {}; }
};
inline constexpr ALL_t ALL{};
struct AUTO_t {
    constexpr AUTO_t operator()() const { return {}; }
};
inline constexpr AUTO_t AUTO{};

template <class A, class B>
using pair = std::pair<A, B>;
template <class A, class B>
auto make_pair(A a, B b)
{
    return std::pair<A, B>(a, b);
}
template <class T, size_t N>
using Array = std::array<T, N>;

struct ViewCtorProp {
    std::string label;
    bool init = true;
    void add(const std::string& s) { label = s; }
    void add(const char* s) { label = s; }
    void add(WithoutInitializing_t) { init = false; }
    void add(SequentialHostInit_t) {}
    void add(AllowPadding_t) {}
    void add(Serial) {}
    void add(HostSpace) {}
};
template <class... A>
ViewCtorProp view_alloc(const A&... a)
{
    ViewCtorProp p;
    (p.add(a), ...);
    return p;
}

// ---------------------------------------------------------------- View
namespace shim {
template <class T>
struct data_traits {
    using element = T;
    static constexpr int rank = 0;
    static constexpr int dyn = 0;
};
template <class T>
struct data_traits<T*> {
    using element = typename data_traits<T>::element;
    static constexpr int rank = 1 + data_traits<T>::rank;
    static constexpr int dyn = 1 + data_traits<T>::dyn;
};
template <class T, size_t N>
struct data_traits<T[N]> {
    using element = typename data_traits<T>::element;
    static constexpr int rank = 1 + data_traits<T>::rank;
    static constexpr int dyn = data_traits<T>::dyn;
};
template <class T>
struct static_ext {
    static void fill(size_t*) {}
};
template <class T>
struct static_ext<T*> {
    static void fill(size_t* e) { static_ext<T>::fill(e); }
};
template <class T, size_t N>
struct static_ext<T[N]> {
    // extents are listed outermost first; the dynamic ones (pointers) come first
    static void fill(size_t* e)
    {
        *e = N;
        static_ext<T>::fill(e + 1);
    }
};
template <class T>
struct strip_ptr {
    using type = T;
};
template <class T>
struct strip_ptr<T*> {
    using type = typename strip_ptr<T>::type;
};
template <class T, int R>
struct add_ptr {
    using type = typename add_ptr<T, R - 1>::type*;
};
template <class T>
struct add_ptr<T, 0> {
    using type = T;
};
template <class L, class... P>
struct pick_layout {
    using type = L;
};
template <class L, class F, class... P>
struct pick_layout<L, F, P...> {
    static constexpr bool is = std::is_same_v<F, LayoutRight> || std::is_same_v<F, LayoutLeft> || std::is_same_v<F, LayoutStride>;
    using type = std::conditional_t<is, F, typename pick_layout<L, P...>::type>;
};
template <class F>
struct is_atomic_trait : std::false_type {};
template <unsigned T>
struct is_atomic_trait<MemoryTraits<T>> : std::bool_constant<(T & Atomic) != 0> {};

struct Record {
    std::atomic<long> count{1};
    std::string label;
    char* mem = nullptr;
    size_t n = 0;
    void (*destroy)(char*, size_t) = nullptr;
};
template <class T>
Record* make_record(const std::string& label, size_t n, bool init)
{
    auto* r = new Record;
    r->label = label;
    r->n = n;
    r->mem = static_cast<char*>(::operator new(n * sizeof(T) + 1, std::align_val_t(64)));
    T* p = reinterpret_cast<T*>(r->mem);
    if constexpr (std::is_trivially_default_constructible_v<T> && std::is_trivially_copyable_v<T>) {
        if (init)
            for (size_t i = 0; i < n; ++i)
                new (p + i) T();
        else if constexpr (std::is_floating_point_v<T>)
            for (size_t i = 0; i < n; ++i)
                new (p + i) T(std::numeric_limits<T>::quiet_NaN());
        else
            std::memset(r->mem, 0x7b, n * sizeof(T));
    } else {
        for (size_t i = 0; i < n; ++i)
            new (p + i) T();
        r->destroy = [](char* m, size_t k) {
            T* q = reinterpret_cast<T*>(m);
            for (size_t i = 0; i < k; ++i)
                q[i].~T();
        };
    }
    return r;
}
inline void release(Record* r)
{
    if (r && r->count.fetch_sub(1, std::memory_order_acq_rel) == 1) {
        if (r->destroy)
            r->destroy(r->mem, r->n);
        ::operator delete(r->mem, std::align_val_t(64));
        delete r;
    }
}

template <class T>
struct atomic_ref_proxy {
    T* p;
    operator T() const { return __atomic_load_n(p, __ATOMIC_RELAXED); }
    static void add(T* p, T v)
    {
        std::atomic_ref<T> a(*p);
        a.fetch_add(v, std::memory_order_relaxed);
    }
    const atomic_ref_proxy& operator+=(T v) const { add(p, v); return *this; }
    const atomic_ref_proxy& operator-=(T v) const { add(p, -v); return *this; }
    const atomic_ref_proxy& operator=(T v) const
    {
        std::atomic_ref<T> a(*p);
        a.store(v, std::memory_order_relaxed);
        return *this;
    }
};
}  // namespace shim

template <class DataType, class... P>
class View {
    using DT = shim::data_traits<DataType>;

public:
    using data_type = DataType;
    using value_type = typename DT::element;
    using element_type = value_type;
    using non_const_value_type = std::remove_const_t<value_type>;
    using const_value_type = std::add_const_t<value_type>;
    using pointer_type = value_type*;
    using array_layout = typename shim::pick_layout<LayoutRight, P...>::type;
    using execution_space = Serial;
    using memory_space = HostSpace;
    using device_type = Serial;
    using size_type = size_t;
    using traits = View;
    static constexpr int rank = DT::rank;
    static constexpr int Rank = DT::rank;
    static constexpr int rank_dynamic = DT::dyn;
    using HostMirror = View<typename shim::add_ptr<non_const_value_type, rank>::type, array_layout>;
    using host_mirror_type = HostMirror;
    using non_const_type = HostMirror;
    using const_type = View<typename shim::add_ptr<const_value_type, rank>::type, array_layout>;
    static constexpr bool atomic_access = (shim::is_atomic_trait<P>::value || ...);
    using reference_type = std::conditional_t<atomic_access, shim::atomic_ref_proxy<value_type>, value_type&>;

private:
    template <class D2, class... P2>
    friend class View;
    value_type* ptr_ = nullptr;
    size_t ext_[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    size_t str_[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    shim::Record* rec_ = nullptr;

    void drop()
    {
        shim::release(rec_);
        rec_ = nullptr;
    }
    void track(shim::Record* r)
    {
        if (r && !shim::in_parallel()) {
            r->count.fetch_add(1, std::memory_order_relaxed);
            rec_ = r;
        } else {
            rec_ = nullptr;
        }
    }
    void set_dims(std::initializer_list<size_t> dims)
    {
        size_t tmp[8] = {0};
        shim::static_ext<DataType>::fill(tmp + rank_dynamic);
        if ((int)dims.size() > rank)
            shim::die("View '" + label() + "' constructed with too many extents");
        // Kokkos lets trailing dynamic extents be omitted (then they are zero)
        size_t k = 0;
        for (size_t d : dims)
            tmp[k++] = d;
        for (int i = 0; i < rank; ++i)
            ext_[i] = tmp[i];
        layout();
    }
    void layout()
    {
        if constexpr (std::is_same_v<array_layout, LayoutLeft>) {
            size_t s = 1;
            for (int i = 0; i < rank; ++i) {
                str_[i] = s;
                s *= ext_[i];
            }
        } else {
            size_t s = 1;
            for (int i = rank - 1; i >= 0; --i) {
                str_[i] = s;
                s *= ext_[i];
            }
        }
    }
    template <class I>
    static size_t dim(I n)
    {
        if constexpr (std::is_signed_v<I>)
            if (n < 0)
                shim::die("View constructed with negative extent");
        return static_cast<size_t>(n);
    }
    template <int D, class I>
    size_t off(I i) const
    {
        bool bad;
        if constexpr (std::is_signed_v<I>)
            bad = i < 0 || static_cast<size_t>(i) >= ext_[D];
        else
            bad = static_cast<size_t>(i) >= ext_[D];
        if (__builtin_expect(bad, 0))
            shim::die("View '" + label() + "' access out of bounds: index " + std::to_string(i) + " in dimension " +
                      std::to_string(D) + " of extent " + std::to_string(ext_[D]));
        return static_cast<size_t>(i) * str_[D];
    }
    template <size_t... D, class... I>
    size_t offset(std::index_sequence<D...>, I... i) const
    {
        return (size_t(0) + ... + off<(int)D>(i));
    }

public:
    View() { shim::static_ext<DataType>::fill(ext_ + rank_dynamic); }
    ~View()
    {
        if (rec_)
            drop();
    }
    View(const View& o) : ptr_(o.ptr_)
    {
        std::memcpy(ext_, o.ext_, sizeof ext_);
        std::memcpy(str_, o.str_, sizeof str_);
        track(o.rec_);
    }
    View& operator=(const View& o)
    {
        if (this != &o) {
            shim::Record* old = rec_;
            ptr_ = o.ptr_;
            std::memcpy(ext_, o.ext_, sizeof ext_);
            std::memcpy(str_, o.str_, sizeof str_);
            track(o.rec_);
            shim::release(old);
        }
        return *this;
    }
    template <class D2, class... P2,
              class = std::enable_if_t<!std::is_same_v<View<D2, P2...>, View> && View<D2, P2...>::rank == rank &&
                                       std::is_convertible_v<typename View<D2, P2...>::value_type (*)[], value_type (*)[]>>>
    View(const View<D2, P2...>& o) : ptr_(o.ptr_)
    {
        std::memcpy(ext_, o.ext_, sizeof ext_);
        std::memcpy(str_, o.str_, sizeof str_);
        if constexpr (!std::is_same_v<array_layout, LayoutStride>) {
            bool any = true;
            for (int i = 0; i < rank; ++i)
                any = any && ext_[i] > 0;
            if (any) {
                // dimension 0 (LayoutRight) / rank-1 (LayoutLeft) may be padded
                if constexpr (std::is_same_v<array_layout, LayoutRight>) {
                    size_t s = 1;
                    for (int i = rank - 1; i >= 0; --i) {
                        if (ext_[i] != 1 && ((i > 0 || rank == 1) ? str_[i] != s : str_[i] < s))
                            shim::die("View '" + o.label() + "' assigned to an incompatible LayoutRight view");
                        s *= ext_[i];
                    }
                } else {
                    size_t s = 1;
                    for (int i = 0; i < rank; ++i) {
                        if (ext_[i] != 1 && ((i < rank - 1 || rank == 1) ? str_[i] != s : str_[i] < s))
                            shim::die("View '" + o.label() + "' assigned to an incompatible LayoutLeft view");
                        s *= ext_[i];
                    }
                }
            }
        }
        track(o.rec_);
    }
    template <class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
    explicit View(const ViewCtorProp& p, I... n)
    {
        if (shim::in_parallel())
            shim::die("View '" + p.label + "' allocated inside a kernel");
        set_dims({dim(n)...});
        rec_ = shim::make_record<non_const_value_type>(p.label, size(), p.init);
        ptr_ = reinterpret_cast<value_type*>(rec_->mem);
    }
    template <class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
    explicit View(const std::string& label, I... n) : View(view_alloc(label), n...)
    {
    }
    template <class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
    explicit View(const char* label, I... n) : View(view_alloc(std::string(label)), n...)
    {
    }
    template <class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
    explicit View(value_type* p, I... n) : ptr_(p)
    {
        set_dims({dim(n)...});
    }
    template <class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
    explicit View(const ScratchMemorySpace& s, I... n)
    {
        set_dims({dim(n)...});
        ptr_ = static_cast<value_type*>(s.get_shmem(size() * sizeof(value_type)));
        if (!ptr_ && size())
            shim::die("team scratch exhausted: set_scratch_size too small");
    }
    // strided view onto existing memory (subview)
    static View wrap(value_type* p, const size_t* e, const size_t* s, shim::Record* r)
    {
        View v;
        v.ptr_ = p;
        for (int i = 0; i < rank; ++i) {
            v.ext_[i] = e[i];
            v.str_[i] = s[i];
        }
        v.track(r);
        return v;
    }
    shim::Record* record() const { return rec_; }

    template <class... I>
    static size_t shmem_size(I... n)
    {
        size_t s = sizeof(value_type);
        ((s *= static_cast<size_t>(n)), ...);
        return (s + 7) / 8 * 8;
    }
    template <class... I>
    static size_t required_allocation_size(I... n)
    {
        return shmem_size(n...);
    }

    size_t extent(size_t i) const { return i < (size_t)rank ? ext_[i] : 1; }
    int extent_int(size_t i) const { return static_cast<int>(extent(i)); }
    size_t stride(size_t i) const { return str_[i]; }
    size_t stride_0() const { return str_[0]; }
    size_t size() const
    {
        size_t s = 1;
        for (int i = 0; i < rank; ++i)
            s *= ext_[i];
        return s;
    }
    size_t span() const { return size(); }
    bool span_is_contiguous() const
    {
        size_t s = 1;
        for (int i = rank - 1; i >= 0; --i) {
            if (ext_[i] > 1 && str_[i] != s)
                return false;
            s *= ext_[i];
        }
        return true;
    }
    bool is_allocated() const { return ptr_ != nullptr; }
    value_type* data() const { return ptr_; }
    std::string label() const { return rec_ ? rec_->label : std::string("?"); }
    long use_count() const { return rec_ ? rec_->count.load() : 0; }

    template <class... I>
    reference_type operator()(I... i) const
    {
        static_assert(sizeof...(I) == (size_t)rank, "wrong number of View indices");
        static_assert((std::is_convertible_v<I, int64_t> && ...));
        value_type* p = ptr_ + offset(std::make_index_sequence<sizeof...(I)>{}, to_index(i)...);
        if constexpr (atomic_access)
            return reference_type{p};
        else
            return *p;
    }
    template <class I>
    reference_type operator[](I i) const
    {
        static_assert(rank == 1);
        return (*this)(i);
    }
    template <class... I>
    reference_type access(I... i) const
    {
        return (*this)(i...);
    }

private:
    template <class I>
    static auto to_index(I i)
    {
        if constexpr (std::is_integral_v<I>)
            return i;
        else
            return static_cast<int64_t>(i);
    }
};

template <class T>
struct is_view : std::false_type {};
template <class D, class... P>
struct is_view<View<D, P...>> : std::true_type {};
template <class T>
inline constexpr bool is_view_v = is_view<T>::value;

namespace shim {
template <class V, class F, class... I>
void for_each_index(const V& v, F&& f, I... i)
{
    if constexpr (sizeof...(I) == (size_t)V::rank)
        f(i...);
    else
        for (size_t k = 0; k < v.extent(sizeof...(I)); ++k)
            for_each_index(v, f, i..., k);
}
}  // namespace shim

template <class D, class... P, class S, class = std::enable_if_t<!is_view_v<S>>>
void deep_copy(const View<D, P...>& dst, const S& value)
{
    using T = typename View<D, P...>::value_type;
    shim::for_each_index(dst, [&](auto... i) { dst(i...) = static_cast<T>(value); });
}
template <class D1, class... P1, class D2, class... P2>
void deep_copy(const View<D1, P1...>& dst, const View<D2, P2...>& src)
{
    using T = typename View<D1, P1...>::value_type;
    static_assert((int)View<D1, P1...>::rank == (int)View<D2, P2...>::rank, "deep_copy rank mismatch");
    for (int i = 0; i < View<D1, P1...>::rank; ++i)
        if (dst.extent(i) != src.extent(i))
            shim::die("deep_copy of views with different extents ('" + dst.label() + "' extent " + std::to_string(dst.extent(i)) +
                      ", '" + src.label() + "' extent " + std::to_string(src.extent(i)) + ")");
    if (static_cast<const void*>(dst.data()) == static_cast<const void*>(src.data()))
        return;
    shim::for_each_index(dst, [&](auto... i) { dst(i...) = static_cast<T>(src(i...)); });
}
template <class D, class... P>
void deep_copy(typename View<D, P...>::non_const_value_type& dst, const View<D, P...>& src)
{
    static_assert(View<D, P...>::rank == 0);
    dst = src();
}
template <class A, class B>
void deep_copy(const Serial&, const A& a, const B& b)
{
    deep_copy(a, b);
}

template <class D, class... P, class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
void realloc(const ViewCtorProp& prop, View<D, P...>& v, I... n)
{
    const std::string label = v.is_allocated() ? v.label() : prop.label;
    v = View<D, P...>();
    ViewCtorProp p = prop;
    p.label = label;
    v = View<D, P...>(p, n...);
}
template <class D, class... P, class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
void realloc(View<D, P...>& v, I... n)
{
    realloc(ViewCtorProp{}, v, n...);
}
template <class D, class... P, class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
void realloc(WithoutInitializing_t, View<D, P...>& v, I... n)
{
    realloc(view_alloc(WithoutInitializing), v, n...);
}
template <class D, class... P, class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
void resize(const ViewCtorProp& prop, View<D, P...>& v, I... n)
{
    ViewCtorProp p = prop;
    p.label = v.label();
    View<D, P...> w(p, n...);
    if (v.is_allocated())
        shim::for_each_index(w, [&](auto... i) {
            size_t idx[] = {static_cast<size_t>(i)...};
            for (int d = 0; d < View<D, P...>::rank; ++d)
                if (idx[d] >= v.extent(d))
                    return;
            w(i...) = v(i...);
        });
    v = w;
}
template <class D, class... P, class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
void resize(View<D, P...>& v, I... n)
{
    resize(ViewCtorProp{}, v, n...);
}
template <class D, class... P, class... I, class = std::enable_if_t<(std::is_integral_v<I> && ...)>>
void resize(WithoutInitializing_t, View<D, P...>& v, I... n)
{
    resize(view_alloc(WithoutInitializing), v, n...);
}

// host and device memory are the same space: mirrors alias, as in a host build
template <class D, class... P>
View<D, P...> create_mirror_view(const View<D, P...>& v)
{
    return v;
}
template <class S, class D, class... P>
View<D, P...> create_mirror_view(const S&, const View<D, P...>& v)
{
    return v;
}
template <class S, class D, class... P>
View<D, P...> create_mirror_view_and_copy(const S&, const View<D, P...>& v, const std::string& = "")
{
    return v;
}
template <class D, class... P>
typename View<D, P...>::HostMirror create_mirror(const View<D, P...>& v)
{
    using M = typename View<D, P...>::HostMirror;
    return [&]<size_t... I>(std::index_sequence<I...>) { return M(v.label(), v.extent(I)...); }(std::make_index_sequence<M::rank>{});
}

namespace shim {
template <class A>
struct slice_keeps : std::bool_constant<!std::is_integral_v<A>> {};
template <class V, int In, int Out>
void do_slices(const V&, size_t&, size_t*, size_t*)
{
}
template <class V, int In, int Out, class A, class... R>
void do_slices(const V& v, size_t& off, size_t* e, size_t* s, const A& a, const R&... r)
{
    if constexpr (std::is_integral_v<A>) {
        if (static_cast<int64_t>(a) < 0 || static_cast<size_t>(a) >= v.extent(In))
            die("subview index out of bounds");
        off += static_cast<size_t>(a) * v.stride(In);
        do_slices<V, In + 1, Out>(v, off, e, s, r...);
    } else if constexpr (std::is_same_v<A, ALL_t>) {
        e[Out] = v.extent(In);
        s[Out] = v.stride(In);
        do_slices<V, In + 1, Out + 1>(v, off, e, s, r...);
    } else {
        const int64_t b = static_cast<int64_t>(a.first), t = static_cast<int64_t>(a.second);
        if (b < 0 || t < b || static_cast<size_t>(t) > v.extent(In))
            die("subview range [" + std::to_string(b) + "," + std::to_string(t) + ") of view '" + v.label() +
                "' out of bounds (extent " + std::to_string(v.extent(In)) + ")");
        e[Out] = static_cast<size_t>(t - b);
        s[Out] = v.stride(In);
        off += static_cast<size_t>(b) * v.stride(In);
        do_slices<V, In + 1, Out + 1>(v, off, e, s, r...);
    }
}
}  // namespace shim

template <class D, class... P, class... A>
auto subview(const View<D, P...>& v, A... a)
{
    using V = View<D, P...>;
    static_assert(sizeof...(A) == (size_t)V::rank);
    constexpr int out = (0 + ... + (shim::slice_keeps<A>::value ? 1 : 0));
    using R = View<typename shim::add_ptr<typename V::value_type, out>::type, LayoutStride>;
    size_t e[8] = {0}, s[8] = {0}, off = 0;
    shim::do_slices<V, 0, 0>(v, off, e, s, a...);
    return R::wrap(v.data() ? v.data() + off : nullptr, e, s, v.record());
}
template <class V, class... A>
using Subview = decltype(subview(std::declval<V>(), std::declval<A>()...));

// ---------------------------------------------------------------- atomics
template <class T, class V>
void atomic_add(T* p, const V& v)
{
    std::atomic_ref<T>(*p).fetch_add(static_cast<T>(v), std::memory_order_relaxed);
}
template <class T, class V>
void atomic_sub(T* p, const V& v)
{
    std::atomic_ref<T>(*p).fetch_sub(static_cast<T>(v), std::memory_order_relaxed);
}
template <class T, class V>
T atomic_fetch_add(T* p, const V& v)
{
    return std::atomic_ref<T>(*p).fetch_add(static_cast<T>(v), std::memory_order_relaxed);
}
template <class T, class V>
T atomic_fetch_sub(T* p, const V& v)
{
    return std::atomic_ref<T>(*p).fetch_sub(static_cast<T>(v), std::memory_order_relaxed);
}
template <class T, class V>
T atomic_add_fetch(T* p, const V& v)
{
    return std::atomic_ref<T>(*p).fetch_add(static_cast<T>(v), std::memory_order_relaxed) + static_cast<T>(v);
}
template <class T>
void atomic_inc(T* p) { atomic_add(p, T(1)); }
template <class T>
void atomic_dec(T* p) { atomic_sub(p, T(1)); }
template <class T>
void atomic_increment(T* p) { atomic_add(p, T(1)); }
template <class T>
void atomic_decrement(T* p) { atomic_sub(p, T(1)); }
template <class T, class V>
void atomic_store(T* p, const V& v) { std::atomic_ref<T>(*p).store(static_cast<T>(v), std::memory_order_relaxed); }
template <class T>
T atomic_load(T* p) { return std::atomic_ref<T>(*p).load(std::memory_order_relaxed); }
template <class T, class V>
T atomic_exchange(T* p, const V& v) { return std::atomic_ref<T>(*p).exchange(static_cast<T>(v), std::memory_order_relaxed); }
template <class T>
T atomic_compare_exchange(T* p, T c, T v)
{
    std::atomic_ref<T>(*p).compare_exchange_strong(c, v, std::memory_order_relaxed);
    return c;
}
template <class T, class V>
void atomic_max(T* p, const V& v)
{
    T o = atomic_load(p);
    while (o < v && !std::atomic_ref<T>(*p).compare_exchange_weak(o, v, std::memory_order_relaxed)) {}
}
template <class T, class V>
void atomic_min(T* p, const V& v)
{
    T o = atomic_load(p);
    while (v < o && !std::atomic_ref<T>(*p).compare_exchange_weak(o, v, std::memory_order_relaxed)) {}
}

// ---------------------------------------------------------------- maths
using std::abs;
using std::acos;
using std::asin;
using std::atan;
using std::atan2;
using std::cbrt;
using std::ceil;
using std::cos;
using std::cosh;
using std::erf;
using std::exp;
using std::fabs;
using std::floor;
using std::fma;
using std::fmax;
using std::fmin;
using std::fmod;
using std::hypot;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::log;
using std::pow;
using std::round;
using std::sin;
using std::sinh;
using std::sqrt;
using std::tan;
using std::tanh;
template <class T>
constexpr T max(T a, T b) { return a < b ? b : a; }
template <class T>
constexpr T min(T a, T b) { return b < a ? b : a; }
template <class T>
constexpr T clamp(T x, T lo, T hi) { return x < lo ? lo : (hi < x ? hi : x); }
using std::swap;
namespace Experimental {
using Kokkos::sqrt;
using Kokkos::exp;
}
namespace numbers {
inline constexpr double pi = 3.14159265358979323846;
}

// ---------------------------------------------------------------- reducers
template <class S, class Space = HostSpace>
struct Sum {
    using value_type = S;
    S* p;
    explicit Sum(S& r) : p(&r) {}
    void init(S& v) const { v = S(); }
    void join(S& d, const S& s) const { d += s; }
    S& reference() const { return *p; }
};
template <class S, class Space = HostSpace>
struct Prod {
    using value_type = S;
    S* p;
    explicit Prod(S& r) : p(&r) {}
    void init(S& v) const { v = S(1); }
    void join(S& d, const S& s) const { d *= s; }
    S& reference() const { return *p; }
};
template <class S, class Space = HostSpace>
struct Max {
    using value_type = S;
    S* p;
    explicit Max(S& r) : p(&r) {}
    void init(S& v) const { v = std::numeric_limits<S>::lowest(); }
    void join(S& d, const S& s) const { if (d < s) d = s; }
    S& reference() const { return *p; }
};
template <class S, class Space = HostSpace>
struct Min {
    using value_type = S;
    S* p;
    explicit Min(S& r) : p(&r) {}
    void init(S& v) const { v = std::numeric_limits<S>::max(); }
    void join(S& d, const S& s) const { if (s < d) d = s; }
    S& reference() const { return *p; }
};
template <class S, class Space = HostSpace>
struct LAnd {
    using value_type = S;
    S* p;
    explicit LAnd(S& r) : p(&r) {}
    void init(S& v) const { v = S(1); }
    void join(S& d, const S& s) const { d = d && s; }
    S& reference() const { return *p; }
};
template <class S, class Space = HostSpace>
struct LOr {
    using value_type = S;
    S* p;
    explicit LOr(S& r) : p(&r) {}
    void init(S& v) const { v = S(0); }
    void join(S& d, const S& s) const { d = d || s; }
    S& reference() const { return *p; }
};

namespace shim {
template <class R, class = void>
struct red {  // plain scalar: sum
    using value_type = R;
    R* p;
    explicit red(R& r) : p(&r) {}
    void init(value_type& v) const { v = value_type(); }
    void join(value_type& d, const value_type& s) const { d += s; }
    void store(const value_type& v) const { *p = v; }
};
template <class R>
struct red<R, std::void_t<decltype(std::declval<const R&>().reference())>> {
    using value_type = typename R::value_type;
    R r;
    explicit red(const R& x) : r(x) {}
    void init(value_type& v) const { r.init(v); }
    void join(value_type& d, const value_type& s) const { r.join(d, s); }
    void store(const value_type& v) const { r.reference() = v; }
};
template <class D, class... P>
struct red<View<D, P...>, void> {
    using value_type = typename View<D, P...>::value_type;
    View<D, P...> v;
    explicit red(const View<D, P...>& x) : v(x) { static_assert(View<D, P...>::rank == 0); }
    void init(value_type& x) const { x = value_type(); }
    void join(value_type& d, const value_type& s) const { d += s; }
    void store(const value_type& x) const { v() = x; }
};
template <class R>
using red_t = red<std::remove_const_t<std::remove_reference_t<R>>>;
}  // namespace shim

// ---------------------------------------------------------------- policies
struct ChunkSize {
    int v;
    explicit ChunkSize(int x) : v(x) {}
};
struct Dynamic {};
struct Static {};
template <class T>
struct Schedule {};
template <class T>
struct IndexType {};
template <class T, T V>
struct LaunchBoundsT {};
template <unsigned T, unsigned M>
struct LaunchBounds {};

template <class... P>
struct RangePolicy {
    int64_t b, e;
    using member_type = int64_t;
    template <class A, class B, class... R, class = std::enable_if_t<std::is_convertible_v<A, int64_t> && std::is_convertible_v<B, int64_t>>>
    RangePolicy(A begin, B end, R...) : b(static_cast<int64_t>(begin)), e(static_cast<int64_t>(end))
    {
        if (e < b)
            e = b;
    }
    template <class A, class B>
    RangePolicy(const Serial&, A begin, B end) : RangePolicy(begin, end)
    {
    }
};

enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate O = Iterate::Default, Iterate I = Iterate::Default>
struct Rank {
    static constexpr unsigned rank = N;
};
namespace shim {
template <class... P>
struct find_rank;
template <class F, class... P>
struct find_rank<F, P...> : find_rank<P...> {};
template <unsigned N, Iterate O, Iterate I, class... P>
struct find_rank<Rank<N, O, I>, P...> {
    static constexpr unsigned value = N;
};
template <unsigned N>
struct Point {
    int64_t v[N];
    template <class... A, class = std::enable_if_t<sizeof...(A) == N && (std::is_convertible_v<A, int64_t> && ...)>>
    Point(A... a) : v{static_cast<int64_t>(a)...}
    {
    }
    template <class T>
    Point(const std::array<T, N>& a)
    {
        for (unsigned i = 0; i < N; ++i)
            v[i] = static_cast<int64_t>(a[i]);
    }
};
}  // namespace shim
template <class... P>
struct MDRangePolicy {
    static constexpr unsigned rank = shim::find_rank<P...>::value;
    int64_t lo[rank], hi[rank];
    MDRangePolicy(const shim::Point<rank>& l, const shim::Point<rank>& u)
    {
        for (unsigned i = 0; i < rank; ++i) {
            lo[i] = l.v[i];
            hi[i] = std::max(l.v[i], u.v[i]);
        }
    }
    MDRangePolicy(const shim::Point<rank>& l, const shim::Point<rank>& u, const shim::Point<rank>&) : MDRangePolicy(l, u) {}
    MDRangePolicy(const Serial&, const shim::Point<rank>& l, const shim::Point<rank>& u) : MDRangePolicy(l, u) {}
    int64_t count() const
    {
        int64_t n = 1;
        for (unsigned i = 0; i < rank; ++i)
            n *= hi[i] - lo[i];
        return n;
    }
    template <class F, size_t... D, class... X>
    void call(const F& f, int64_t flat, std::index_sequence<D...>, X&... x) const
    {
        int64_t idx[rank];
        for (int i = rank - 1; i >= 0; --i) {
            const int64_t n = hi[i] - lo[i];
            idx[i] = lo[i] + flat % n;
            flat /= n;
        }
        f(idx[D]..., x...);
    }
};

struct PerTeamValue {
    size_t v;
};
struct PerThreadValue {
    size_t v;
};

namespace shim {

// One team: T members that meet at barriers.
struct Team {
    int64_t league_rank = 0, league_size = 1;
    int size = 1;
    bool chunked = true;
    // scratch
    std::vector<std::unique_ptr<char[]>> mem;  // per level x (team + each thread)
    size_t team_bytes[2] = {0, 0}, thread_bytes[2] = {0, 0};
    std::vector<void*> slots;
    // synchronisation
    struct Sched* sched = nullptr;      // coroutine mode
    pthread_barrier_t* bar = nullptr;   // thread mode
    void barrier(int rank);
    void maybe_yield(int rank);
    void make_scratch()
    {
        for (int lev = 0; lev < 2; ++lev) {
            alloc(team_bytes[lev]);
            for (int t = 0; t < size; ++t)
                alloc(thread_bytes[lev]);
        }
        slots.assign(size, nullptr);
    }
    void alloc(size_t n)
    {
        mem.emplace_back(new char[n + 8]);
        std::memset(mem.back().get(), 0xFF, n);
    }
    char* team_mem(int lev) { return mem[lev * (size + 1)].get(); }
    char* thread_mem(int lev, int rank) { return mem[lev * (size + 1) + 1 + rank].get(); }
};

// coroutine scheduler
struct Fiber {
    ucontext_t ctx;
    char* stack = nullptr;
    std::function<void(int)> body;
    int rank = 0;
    int state = 0;  // 0 runnable, 1 at barrier, 2 finished
    void* fake = nullptr;
};
struct Sched {
    static constexpr size_t stack_size = 512 * 1024;
    ucontext_t main_ctx;
    void* main_fake = nullptr;
    const void* main_bottom = nullptr;
    size_t main_size = 0;
    std::vector<Fiber> f;
    int current = -1;
    static std::vector<char*>& pool()
    {
        static std::vector<char*> p;
        return p;
    }
    static void enter(unsigned lo, unsigned hi)
    {
        auto* s = reinterpret_cast<Sched*>((static_cast<uintptr_t>(hi) << 32) | lo);
#ifdef KSHIM_ASAN
        __sanitizer_finish_switch_fiber(nullptr, &s->main_bottom, &s->main_size);
#endif
        Fiber& me = s->f[s->current];
        me.body(me.rank);
        me.state = 2;
#ifdef KSHIM_ASAN
        __sanitizer_start_switch_fiber(nullptr, s->main_bottom, s->main_size);
#endif
        swapcontext(&me.ctx, &s->main_ctx);
    }
    void to_main(Fiber& me)
    {
#ifdef KSHIM_ASAN
        __sanitizer_start_switch_fiber(&me.fake, main_bottom, main_size);
#endif
        swapcontext(&me.ctx, &main_ctx);
#ifdef KSHIM_ASAN
        __sanitizer_finish_switch_fiber(me.fake, &main_bottom, &main_size);
#endif
    }
    void run(int n, const std::function<void(int)>& body)
    {
        f.resize(n);
        auto& p = pool();
        for (int i = 0; i < n; ++i) {
            if (p.empty())
                p.push_back(static_cast<char*>(std::malloc(stack_size)));
            f[i].stack = p.back();
            p.pop_back();
            f[i].body = body;
            f[i].rank = i;
            f[i].state = 0;
            getcontext(&f[i].ctx);
            f[i].ctx.uc_stack.ss_sp = f[i].stack;
            f[i].ctx.uc_stack.ss_size = stack_size;
            f[i].ctx.uc_link = nullptr;
            const auto a = reinterpret_cast<uintptr_t>(this);
            makecontext(&f[i].ctx, reinterpret_cast<void (*)()>(enter), 2, static_cast<unsigned>(a), static_cast<unsigned>(a >> 32));
        }
        for (;;) {
            std::vector<int> ready;
            int waiting = 0, done = 0;
            for (int i = 0; i < n; ++i) {
                if (f[i].state == 0)
                    ready.push_back(i);
                else if (f[i].state == 1)
                    ++waiting;
                else
                    ++done;
            }
            if (ready.empty()) {
                if (done == n)
                    break;
                if (done)
                    die("team_barrier not reached by every team member");
                for (auto& x : f)
                    x.state = 0;
                (void)waiting;
                continue;
            }
            current = ready[rnd(ready.size())];
            Fiber& x = f[current];
#ifdef KSHIM_ASAN
            __sanitizer_start_switch_fiber(&main_fake, x.stack, stack_size);
#endif
            swapcontext(&main_ctx, &x.ctx);
#ifdef KSHIM_ASAN
            __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
        }
        for (auto& x : f)
            p.push_back(x.stack);
    }
};
inline void Team::barrier(int rank)
{
    if (size == 1)
        return;
    if (sched) {
        sched->f[rank].state = 1;
        sched->to_main(sched->f[rank]);
    } else if (bar) {
        pthread_barrier_wait(bar);
    }
}
inline void Team::maybe_yield(int rank)
{
    if (size > 1 && sched && rnd(4) == 0)
        sched->to_main(sched->f[rank]);
}
}  // namespace shim

struct TeamMember {
    shim::Team* t;
    int rank_;
    mutable size_t used_team[2] = {0, 0};
    mutable size_t used_thread[2] = {0, 0};
    using execution_space = Serial;
    using scratch_memory_space = ScratchMemorySpace;
    using team_handle = TeamMember;
    TeamMember(shim::Team* team, int r) : t(team), rank_(r) {}
    int league_rank() const { return static_cast<int>(t->league_rank); }
    int league_size() const { return static_cast<int>(t->league_size); }
    int team_rank() const { return rank_; }
    int team_size() const { return t->size; }
    void team_barrier() const { t->barrier(rank_); }
    ScratchMemorySpace team_scratch(int lev) const { return {t->team_mem(lev), t->team_bytes[lev], &used_team[lev], 1}; }
    ScratchMemorySpace team_shmem() const { return team_scratch(0); }
    ScratchMemorySpace thread_scratch(int lev) const { return {t->thread_mem(lev, rank_), t->thread_bytes[lev], &used_thread[lev], 1}; }
    template <class T>
    void team_broadcast(T& v, int root) const
    {
        if (t->size == 1)
            return;
        t->slots[rank_] = &v;
        team_barrier();
        T x = *static_cast<T*>(t->slots[root]);
        team_barrier();
        v = x;
        team_barrier();
    }
    template <class R>
    void team_reduce(const R& r) const
    {
        if (t->size == 1)
            return;
        using T = typename R::value_type;
        t->slots[rank_] = &r.reference();
        team_barrier();
        T x;
        r.init(x);
        for (int i = 0; i < t->size; ++i)
            r.join(x, *static_cast<T*>(t->slots[i]));
        team_barrier();
        r.reference() = x;
        team_barrier();
    }
};

inline PerTeamValue PerTeam(size_t n) { return {n}; }
inline PerTeamValue PerTeam(int n) { return {static_cast<size_t>(n)}; }
inline PerThreadValue PerThread(size_t n) { return {n}; }
inline PerThreadValue PerThread(int n) { return {static_cast<size_t>(n)}; }
struct PerTeamMember {
    const TeamMember& m;
};
struct PerThreadMember {
    const TeamMember& m;
};
inline PerTeamMember PerTeam(const TeamMember& m) { return {m}; }
inline PerThreadMember PerThread(const TeamMember& m) { return {m}; }

template <class... P>
struct TeamPolicy {
    using member_type = TeamMember;
    using execution_space = Serial;
    int64_t league;
    int team;  // <=0: AUTO
    size_t team_bytes[2] = {0, 0}, thread_bytes[2] = {0, 0};
    static int size_of(AUTO_t) { return 0; }
    template <class I>
    static int size_of(I i)
    {
        return static_cast<int>(i);
    }
    template <class L, class T, class = std::enable_if_t<std::is_integral_v<L>>>
    TeamPolicy(L l, T t) : league(static_cast<int64_t>(l)), team(size_of(t))
    {
    }
    template <class L, class T, class V, class = std::enable_if_t<std::is_integral_v<L>>>
    TeamPolicy(L l, T t, V) : TeamPolicy(l, t)
    {
    }
    template <class L, class T>
    TeamPolicy(const Serial&, L l, T t) : TeamPolicy(l, t)
    {
    }
    template <class L, class T, class V>
    TeamPolicy(const Serial&, L l, T t, V) : TeamPolicy(l, t)
    {
    }
    TeamPolicy& set_scratch_size(int lev, PerTeamValue a)
    {
        team_bytes[lev] = a.v;
        return *this;
    }
    TeamPolicy& set_scratch_size(int lev, PerThreadValue a)
    {
        thread_bytes[lev] = a.v;
        return *this;
    }
    TeamPolicy& set_scratch_size(int lev, PerTeamValue a, PerThreadValue b)
    {
        team_bytes[lev] = a.v;
        thread_bytes[lev] = b.v;
        return *this;
    }
    TeamPolicy& set_chunk_size(int) { return *this; }
    template <class... A>
    int team_size_recommended(const A&...) const { return 1; }
    template <class... A>
    int team_size_max(const A&...) const { return 8; }
    int league_size() const { return static_cast<int>(league); }
};

// ---- nested ranges
struct NestedRange {
    const TeamMember* m;
    int64_t b, e;
    bool split;  // share iterations between the team members
};
template <class I>
NestedRange TeamThreadRange(const TeamMember& m, I n) { return {&m, 0, static_cast<int64_t>(n), true}; }
template <class I, class J>
NestedRange TeamThreadRange(const TeamMember& m, I b, J e) { return {&m, static_cast<int64_t>(b), static_cast<int64_t>(e), true}; }
template <class I>
NestedRange TeamVectorRange(const TeamMember& m, I n) { return {&m, 0, static_cast<int64_t>(n), true}; }
template <class I, class J>
NestedRange TeamVectorRange(const TeamMember& m, I b, J e) { return {&m, static_cast<int64_t>(b), static_cast<int64_t>(e), true}; }
template <class I>
NestedRange ThreadVectorRange(const TeamMember& m, I n) { return {&m, 0, static_cast<int64_t>(n), false}; }
template <class I, class J>
NestedRange ThreadVectorRange(const TeamMember& m, I b, J e) { return {&m, static_cast<int64_t>(b), static_cast<int64_t>(e), false}; }

template <unsigned N, bool Split>
struct NestedMD {
    const TeamMember* m;
    int64_t n[N];
    int64_t count() const
    {
        int64_t c = 1;
        for (unsigned i = 0; i < N; ++i)
            c *= std::max<int64_t>(0, n[i]);
        return c;
    }
};
template <class R, class M>
struct TeamVectorMDRange : NestedMD<R::rank, true> {
    template <class... I>
    TeamVectorMDRange(const M& m, I... n) : NestedMD<R::rank, true>{&m, {static_cast<int64_t>(n)...}}
    {
    }
};
template <class R, class M>
struct TeamThreadMDRange : NestedMD<R::rank, true> {
    template <class... I>
    TeamThreadMDRange(const M& m, I... n) : NestedMD<R::rank, true>{&m, {static_cast<int64_t>(n)...}}
    {
    }
};
template <class R, class M>
struct ThreadVectorMDRange : NestedMD<R::rank, false> {
    template <class... I>
    ThreadVectorMDRange(const M& m, I... n) : NestedMD<R::rank, false>{&m, {static_cast<int64_t>(n)...}}
    {
    }
};

namespace shim {
// iterations of [b,e) that belong to member m
template <class F>
void my_share(const TeamMember& m, int64_t b, int64_t e, bool split, F&& f)
{
    if (!split || m.team_size() == 1) {
        for (int64_t i = b; i < e; ++i)
            f(i);
        return;
    }
    const int64_t n = e - b, T = m.team_size(), r = m.team_rank();
    if (m.t->chunked) {
        const int64_t c = (n + T - 1) / T;
        for (int64_t i = b + r * c; i < std::min(e, b + (r + 1) * c); ++i)
            f(i);
    } else {
        for (int64_t i = b + r; i < e; i += T)
            f(i);
    }
}
template <unsigned N, class F, size_t... D, class... X>
void md_call(const int64_t* n, int64_t flat, const F& f, std::index_sequence<D...>, X&... x)
{
    int64_t idx[N];
    for (int i = N - 1; i >= 0; --i) {
        idx[i] = flat % n[i];
        flat /= n[i];
    }
    f(idx[D]..., x...);
}

template <class Tup, class... R, size_t... I>
void team_join(const TeamMember& m, Tup& vals, std::tuple<R...>& reds, std::index_sequence<I...>)
{
    if (m.t->size > 1) {
        m.t->slots[m.rank_] = &vals;
        m.team_barrier();
        Tup acc;
        (std::get<I>(reds).init(std::get<I>(acc)), ...);
        for (int r = 0; r < m.t->size; ++r) {
            Tup& o = *static_cast<Tup*>(m.t->slots[r]);
            (std::get<I>(reds).join(std::get<I>(acc), std::get<I>(o)), ...);
        }
        m.team_barrier();
        (std::get<I>(reds).store(std::get<I>(acc)), ...);
    } else {
        (std::get<I>(reds).store(std::get<I>(vals)), ...);
    }
}
}  // namespace shim

template <class F>
void parallel_for(const NestedRange& r, const F& f)
{
    r.m->t->maybe_yield(r.m->rank_);
    shim::my_share(*r.m, r.b, r.e, r.split, [&](int64_t i) { f(i); });
    r.m->t->maybe_yield(r.m->rank_);
}
namespace shim {
template <unsigned N, bool S, class F>
void md_for(const NestedMD<N, S>& r, const F& f)
{
    r.m->t->maybe_yield(r.m->rank_);
    my_share(*r.m, 0, r.count(), S, [&](int64_t i) { md_call<N>(r.n, i, f, std::make_index_sequence<N>{}); });
    r.m->t->maybe_yield(r.m->rank_);
}
}  // namespace shim
template <class R, class M, class F>
void parallel_for(const TeamVectorMDRange<R, M>& r, const F& f) { shim::md_for<R::rank, true>(r, f); }
template <class R, class M, class F>
void parallel_for(const TeamThreadMDRange<R, M>& r, const F& f) { shim::md_for<R::rank, true>(r, f); }
template <class R, class M, class F>
void parallel_for(const ThreadVectorMDRange<R, M>& r, const F& f) { shim::md_for<R::rank, false>(r, f); }

template <class F, class... R>
void parallel_reduce(const NestedRange& r, const F& f, R&&... out)
{
    static_assert(sizeof...(R) > 0);
    std::tuple<shim::red_t<R>...> reds{shim::red_t<R>(out)...};
    std::tuple<typename shim::red_t<R>::value_type...> vals;
    constexpr auto seq = std::make_index_sequence<sizeof...(R)>{};
    [&]<size_t... I>(std::index_sequence<I...>) {
        (std::get<I>(reds).init(std::get<I>(vals)), ...);
        shim::my_share(*r.m, r.b, r.e, r.split, [&](int64_t i) { f(i, std::get<I>(vals)...); });
        if (!r.split)
            (std::get<I>(reds).store(std::get<I>(vals)), ...);
    }(seq);
    if (r.split)
        shim::team_join(*r.m, vals, reds, seq);
}
namespace shim {
template <unsigned N, bool S, class F, class... R>
void md_reduce(const NestedMD<N, S>& r, const F& f, R&&... out)
{
    std::tuple<red_t<R>...> reds{red_t<R>(out)...};
    std::tuple<typename red_t<R>::value_type...> vals;
    constexpr auto seq = std::make_index_sequence<sizeof...(R)>{};
    [&]<size_t... I>(std::index_sequence<I...>) {
        (std::get<I>(reds).init(std::get<I>(vals)), ...);
        my_share(*r.m, 0, r.count(), S, [&](int64_t i) { md_call<N>(r.n, i, f, std::make_index_sequence<N>{}, std::get<I>(vals)...); });
        if (!S)
            (std::get<I>(reds).store(std::get<I>(vals)), ...);
    }(seq);
    if (S)
        team_join(*r.m, vals, reds, seq);
}
}  // namespace shim
template <class R, class M, class F, class... O>
void parallel_reduce(const TeamVectorMDRange<R, M>& r, const F& f, O&&... o) { shim::md_reduce<R::rank, true>(r, f, o...); }
template <class R, class M, class F, class... O>
void parallel_reduce(const TeamThreadMDRange<R, M>& r, const F& f, O&&... o) { shim::md_reduce<R::rank, true>(r, f, o...); }
template <class R, class M, class F, class... O>
void parallel_reduce(const ThreadVectorMDRange<R, M>& r, const F& f, O&&... o) { shim::md_reduce<R::rank, false>(r, f, o...); }

namespace shim {
template <class F>
struct scan_arg : scan_arg<decltype(&F::operator())> {};
template <class C, class R, class A, class T, class B>
struct scan_arg<R (C::*)(A, T&, B) const> {
    using type = T;
};
template <class C, class R, class A, class T, class B>
struct scan_arg<R (C::*)(A, T&, B)> {
    using type = T;
};
}  // namespace shim
// exclusive scan over a nested range
template <class F>
void parallel_scan(const NestedRange& r, const F& f)
{
    using T = typename shim::scan_arg<F>::type;
    if (!r.split || r.m->t->size == 1) {
        T u{};
        for (int64_t i = r.b; i < r.e; ++i)
            f(i, u, true);
        return;
    }
    const auto& m = *r.m;
    const int64_t n = r.e - r.b, S = m.team_size(), c = (n + S - 1) / S;
    const int64_t b = std::min(r.e, r.b + m.rank_ * c), e = std::min(r.e, b + c);
    T u{};
    for (int64_t i = b; i < e; ++i)
        f(i, u, false);
    m.t->slots[m.rank_] = &u;
    m.team_barrier();
    T start{};
    for (int k = 0; k < m.rank_; ++k)
        start += *static_cast<T*>(m.t->slots[k]);
    m.team_barrier();
    for (int64_t i = b; i < e; ++i)
        f(i, start, true);
}

template <class F>
void single(const PerTeamMember& p, const F& f)
{
    p.m.t->maybe_yield(p.m.rank_);
    if (p.m.rank_ == 0)
        f();
    p.m.t->maybe_yield(p.m.rank_);
}
template <class F, class T>
void single(const PerTeamMember& p, const F& f, T& v)
{
    if (p.m.rank_ == 0)
        f(v);
    p.m.team_broadcast(v, 0);
}
template <class F>
void single(const PerThreadMember&, const F& f)
{
    f();
}
template <class F, class T>
void single(const PerThreadMember&, const F& f, T& v)
{
    f(v);
}

// ---- top level launches
namespace shim {

// run body(k) for k in [0,n) under the configured schedule; body must be callable
// from several threads in Threads mode.
template <class B>
void launch_flat(int64_t n, const B& body)
{
    if (n <= 0)
        return;
    if (config().mode == Threads && n > 1) {
        const int W = static_cast<int>(std::min<int64_t>(config().workers, n));
        const auto p = order(n);
        std::vector<std::vector<int64_t>> mine(W);
        for (int64_t i = 0; i < n; ++i)
            mine[i < W ? i : rnd(W)].push_back(p[i]);
        std::vector<std::thread> th;
        for (int w = 0; w < W; ++w)
            th.emplace_back([&, w] {
                ++in_parallel();
                for (int64_t i : mine[w])
                    body(i, w);
                --in_parallel();
            });
        for (auto& t : th)
            t.join();
        return;
    }
    if (config().mode == Ordered) {
        for (int64_t i = 0; i < n; ++i)
            body(i, 0);
        return;
    }
    const int W = std::max(1, config().workers);
    for (int64_t i : order(n))
        body(i, static_cast<int>(i % W));
}
inline int lanes() { return config().mode == Ordered ? 1 : std::max(1, config().workers); }

template <class Pol, class B>
void launch_teams(const Pol& pol, const B& body)
{
    const int64_t n = pol.league;
    if (n <= 0)
        return;
    const auto& cfg = config();
    int T = pol.team > 0 ? pol.team : 1;
    if (pol.team <= 0 && cfg.mode != Ordered)
        T = 1 + static_cast<int>(rnd(cfg.max_team));
    const bool chunked = cfg.mode == Ordered || rnd(2) == 0;
    auto prepare = [&](Team& t, int64_t lr) {
        t.league_rank = lr;
        t.league_size = n;
        t.size = T;
        t.chunked = chunked;
        for (int l = 0; l < 2; ++l) {
            t.team_bytes[l] = pol.team_bytes[l];
            t.thread_bytes[l] = pol.thread_bytes[l];
        }
        t.make_scratch();
    };
    if (cfg.mode == Threads && (n > 1 || T > 1)) {
        const int W = static_cast<int>(std::min<int64_t>(cfg.workers, n));
        const auto p = order(n);
        std::vector<std::vector<int64_t>> mine(W);
        for (int64_t i = 0; i < n; ++i)
            mine[i < W ? i : rnd(W)].push_back(p[i]);
        std::vector<Team> teams(n);
        for (int64_t i = 0; i < n; ++i)
            prepare(teams[i], i);
        std::vector<pthread_barrier_t> bars(W);
        for (auto& b : bars)
            pthread_barrier_init(&b, nullptr, T);
        for (int w = 0; w < W; ++w)
            for (int64_t i : mine[w])
                teams[i].bar = T > 1 ? &bars[w] : nullptr;
        std::vector<std::thread> th;
        for (int w = 0; w < W; ++w)
            for (int r = 0; r < T; ++r)
                th.emplace_back([&, w, r] {
                    ++in_parallel();
                    for (int64_t i : mine[w]) {
                        TeamMember m(&teams[i], r);
                        body(m, w * T + r);
                    }
                    --in_parallel();
                });
        for (auto& t : th)
            t.join();
        for (auto& b : bars)
            pthread_barrier_destroy(&b);
        return;
    }
    for (int64_t i : order(n)) {
        Team t;
        prepare(t, i);
        if (T == 1) {
            TeamMember m(&t, 0);
            body(m, 0);
        } else {
            Sched s;
            t.sched = &s;
            s.run(T, [&](int r) {
                TeamMember m(&t, r);
                body(m, r);
            });
        }
    }
}
}  // namespace shim

template <class I, class F, class = std::enable_if_t<std::is_integral_v<I>>>
void parallel_for(const std::string& name, I n, const F& f)
{
    shim::KernelScope k(name);
    shim::launch_flat(static_cast<int64_t>(n), [&](int64_t i, int) { f(i); });
}
template <class... P, class F>
void parallel_for(const std::string& name, const RangePolicy<P...>& p, const F& f)
{
    shim::KernelScope k(name);
    shim::launch_flat(p.e - p.b, [&](int64_t i, int) { f(p.b + i); });
}
template <class... P, class F>
void parallel_for(const std::string& name, const MDRangePolicy<P...>& p, const F& f)
{
    shim::KernelScope k(name);
    shim::launch_flat(p.count(), [&](int64_t i, int) { p.call(f, i, std::make_index_sequence<MDRangePolicy<P...>::rank>{}); });
}
template <class... P, class F>
void parallel_for(const std::string& name, const TeamPolicy<P...>& p, const F& f)
{
    shim::KernelScope k(name);
    shim::launch_teams(p, [&](const TeamMember& m, int) { f(m); });
}
template <class I, class F, class = std::enable_if_t<std::is_integral_v<I>>>
void parallel_for(I n, const F& f, const std::string& name = "") { parallel_for(name, n, f); }
template <class... P, class F>
void parallel_for(const RangePolicy<P...>& p, const F& f) { parallel_for(std::string(), p, f); }
template <class... P, class F>
void parallel_for(const MDRangePolicy<P...>& p, const F& f) { parallel_for(std::string(), p, f); }
template <class... P, class F>
void parallel_for(const TeamPolicy<P...>& p, const F& f) { parallel_for(std::string(), p, f); }

namespace shim {
// call(i, vals...) for each flat index, with per-lane partial results joined at the end
template <class Launch, class... R>
void reduce_over(const Launch& launch, int nlanes, R&&... out)
{
    using Vals = std::tuple<typename red_t<R>::value_type...>;
    std::tuple<red_t<R>...> reds{red_t<R>(out)...};
    std::vector<Vals> lane(nlanes);
    [&]<size_t... I>(std::index_sequence<I...>) {
        for (auto& v : lane)
            (std::get<I>(reds).init(std::get<I>(v)), ...);
        launch(lane);
        Vals acc;
        (std::get<I>(reds).init(std::get<I>(acc)), ...);
        for (int64_t l : order(nlanes))
            (std::get<I>(reds).join(std::get<I>(acc), std::get<I>(lane[l])), ...);
        (std::get<I>(reds).store(std::get<I>(acc)), ...);
    }(std::make_index_sequence<sizeof...(R)>{});
}
}  // namespace shim
template <class... P, class F, class... R>
void parallel_reduce(const std::string& name, const RangePolicy<P...>& p, const F& f, R&&... out)
{
    shim::KernelScope k(name);
    shim::reduce_over(
        [&](auto& lane) {
            shim::launch_flat(p.e - p.b, [&](int64_t i, int w) { std::apply([&](auto&... v) { f(p.b + i, v...); }, lane[w]); });
        },
        shim::lanes(), out...);
}
template <class I, class F, class... R, class = std::enable_if_t<std::is_integral_v<I>>>
void parallel_reduce(const std::string& name, I n, const F& f, R&&... out)
{
    parallel_reduce(name, RangePolicy<>(0, n), f, out...);
}
template <class... P, class F, class... R>
void parallel_reduce(const std::string& name, const MDRangePolicy<P...>& p, const F& f, R&&... out)
{
    shim::KernelScope k(name);
    shim::reduce_over(
        [&](auto& lane) {
            shim::launch_flat(p.count(), [&](int64_t i, int w) {
                std::apply([&](auto&... v) { p.call(f, i, std::make_index_sequence<MDRangePolicy<P...>::rank>{}, v...); }, lane[w]);
            });
        },
        shim::lanes(), out...);
}
template <class... P, class F, class... R>
void parallel_reduce(const std::string& name, const TeamPolicy<P...>& p, const F& f, R&&... out)
{
    // every team member contributes (as in Kokkos, where only the value of each thread is joined)
    shim::KernelScope k(name);
    const int L = std::max(1, shim::config().workers) * std::max({1, shim::config().max_team, p.team});
    shim::reduce_over(
        [&](auto& lane) {
            shim::launch_teams(p, [&](const TeamMember& m, int w) { std::apply([&](auto&... v) { f(m, v...); }, lane[w]); });
        },
        L, out...);
}
template <class I, class F, class... R, class = std::enable_if_t<std::is_integral_v<I>>>
void parallel_reduce(I n, const F& f, R&&... out) { parallel_reduce(std::string(), RangePolicy<>(0, n), f, out...); }
template <class... P, class F, class... R>
void parallel_reduce(const RangePolicy<P...>& p, const F& f, R&&... out) { parallel_reduce(std::string(), p, f, out...); }
template <class... P, class F, class... R>
void parallel_reduce(const MDRangePolicy<P...>& p, const F& f, R&&... out) { parallel_reduce(std::string(), p, f, out...); }
template <class... P, class F, class... R>
void parallel_reduce(const TeamPolicy<P...>& p, const F& f, R&&... out) { parallel_reduce(std::string(), p, f, out...); }

// scan: blocks are pre-summed with final=false, then replayed with final=true
template <class... P, class F, class... Tot>
void parallel_scan(const std::string& name, const RangePolicy<P...>& p, const F& f, Tot&&... total)
{
    using T = typename shim::scan_arg<F>::type;
    shim::KernelScope k(name);
    const int64_t n = p.e - p.b;
    std::vector<int64_t> cut{0};
    if (shim::config().mode != shim::Ordered)
        while (cut.back() < n)
            cut.push_back(std::min<int64_t>(n, cut.back() + 1 + shim::rnd(n)));
    else if (n > 0)
        cut.push_back(n);
    const int64_t B = static_cast<int64_t>(cut.size()) - 1;
    std::vector<T> sum(B + 1);
    if (B > 1)
        shim::launch_flat(B, [&](int64_t b, int) {
            T u{};
            for (int64_t i = cut[b]; i < cut[b + 1]; ++i)
                f(p.b + i, u, false);
            sum[b] = u;
        });
    std::vector<T> start(B + 1);
    T acc{};
    for (int64_t b = 0; b < B; ++b) {
        start[b] = acc;
        acc += sum[b];
    }
    std::vector<T> last(B + 1);
    shim::launch_flat(B, [&](int64_t b, int) {
        T u = start[b];
        for (int64_t i = cut[b]; i < cut[b + 1]; ++i)
            f(p.b + i, u, true);
        last[b] = u;
    });
    if constexpr (sizeof...(Tot) > 0)
        ((total = B > 0 ? last[B - 1] : T{}), ...);
}
template <class I, class F, class... Tot, class = std::enable_if_t<std::is_integral_v<I>>>
void parallel_scan(const std::string& name, I n, const F& f, Tot&&... t) { parallel_scan(name, RangePolicy<>(0, n), f, t...); }
template <class I, class F, class... Tot, class = std::enable_if_t<std::is_integral_v<I>>>
void parallel_scan(I n, const F& f, Tot&&... t) { parallel_scan(std::string(), RangePolicy<>(0, n), f, t...); }
template <class... P, class F, class... Tot>
void parallel_scan(const RangePolicy<P...>& p, const F& f, Tot&&... t) { parallel_scan(std::string(), p, f, t...); }

inline void fence(const std::string& = "") {}

// ---------------------------------------------------------------- init
struct InitializationSettings {
    InitializationSettings& set_num_threads(int) { return *this; }
    InitializationSettings& set_disable_warnings(bool) { return *this; }
    InitializationSettings& set_map_device_id_by(const std::string&) { return *this; }
    InitializationSettings& set_device_id(int) { return *this; }
    InitializationSettings& set_print_configuration(bool) { return *this; }
};
inline bool is_initialized() { return shim::config().initialized; }
inline bool is_finalized() { return false; }
inline void initialize(const InitializationSettings& = {})
{
    if (shim::config().initialized)
        shim::die("Kokkos initialized twice");
    shim::config().initialized = true;
}
inline void initialize(int&, char**) { initialize(); }
inline void finalize()
{
    if (!shim::config().initialized)
        shim::die("Kokkos finalized without being initialized");
    shim::config().initialized = false;
}
struct ScopeGuard {
    ScopeGuard() { initialize(); }
    ScopeGuard(int&, char**) { initialize(); }
    ~ScopeGuard() { finalize(); }
};
template <class... A>
void printf(const char* f, A... a)
{
    std::printf(f, a...);
}
[[noreturn]] inline void abort(const char* m) { shim::die(m); }

}  // namespace Kokkos
