#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos {
template <class D, class... P>
class DualView {
public:
    using t_dev = View<D, P...>;
    using t_host = View<D, P...>;
    using t_dev_const = typename t_dev::const_type;
    t_dev d_view;
    t_host h_view;
    DualView() = default;
    template <class... I>
    explicit DualView(const std::string& label, I... n) : d_view(label, n...)
    {
        h_view = d_view;
    }
    explicit DualView(const t_dev& d) : d_view(d), h_view(d) {}
    template <class Dev>
    const t_dev& view() const { return d_view; }
    const t_dev& view_device() const { return d_view; }
    const t_host& view_host() const { return h_view; }
    template <class Dev>
    void sync() {}
    template <class Dev>
    void modify() {}
    void sync_host() {}
    void sync_device() {}
    void modify_host() {}
    void modify_device() {}
    void clear_sync_state() {}
    template <class... I>
    void resize(I... n)
    {
        Kokkos::resize(d_view, n...);
        h_view = d_view;
    }
    template <class... I>
    void realloc(I... n)
    {
        Kokkos::realloc(d_view, n...);
        h_view = d_view;
    }
    size_t extent(int i) const { return d_view.extent(i); }
    size_t size() const { return d_view.size(); }
};
}  // namespace Kokkos
