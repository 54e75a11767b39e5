// KOKKOS-package side of the stand-in (host back end: device and host views are the same memory).
#pragma once
#include "lammps_shim.h"
#include "Kokkos_Core.hpp"
#include "Kokkos_DualView.hpp"
#include "Kokkos_UnorderedMap.hpp"
#include "Kokkos_Bitset.hpp"

typedef Kokkos::DefaultExecutionSpace LMPDeviceType;
typedef Kokkos::DefaultHostExecutionSpace LMPHostType;
typedef double X_FLOAT; typedef double F_FLOAT; typedef double E_FLOAT; typedef double V_FLOAT; typedef double KK_FLOAT; typedef double KK_ACC_FLOAT;

template <class T> struct ExecutionSpaceFromDevice { static constexpr LAMMPS_NS::ExecutionSpace space = LAMMPS_NS::Device; };

template <class DeviceType> struct ArrayTypes {
    typedef Kokkos::DualView<int*> tdual_int_1d;
    typedef Kokkos::DualView<int**, Kokkos::LayoutRight> tdual_int_2d;
    typedef Kokkos::DualView<double*> tdual_double_1d, tdual_xfloat_1d, tdual_float_1d, tdual_kkfloat_1d, tdual_kkacc_1d, ttransform_kkacc_1d, ttransform_kkfloat_1d, tdual_efloat_1d;
    typedef Kokkos::DualView<double**, Kokkos::LayoutRight> tdual_x_array, tdual_f_array, ttransform_kkfloat_1d_3_lr, ttransform_kkacc_1d_3;
    typedef Kokkos::DualView<int*> tdual_tagint_1d;
    typedef Kokkos::View<int*> t_int_1d; typedef Kokkos::View<int**, Kokkos::LayoutRight> t_neighbors_2d;
    typedef Kokkos::View<double*> t_double_1d;
};
typedef ArrayTypes<LMPDeviceType> DAT;
typedef ArrayTypes<LMPHostType> HAT;
template <class DeviceType> using AT = ArrayTypes<DeviceType>;

namespace LAMMPS_NS {
typedef Kokkos::DualView<int*> dual_hash_type;
enum : unsigned { EMPTY_MASK = 0, X_MASK = 1, V_MASK = 2, F_MASK = 4, TAG_MASK = 8, TYPE_MASK = 16, MASK_MASK = 32, IMAGE_MASK = 64, Q_MASK = 128, ENERGY_MASK = 1 << 16, VIRIAL_MASK = 1 << 17, ALL_MASK = 0xffffffffu };

class KokkosBase {
public:
    virtual ~KokkosBase() = default;
    virtual int pack_forward_comm_kokkos(int, DAT::tdual_int_1d, DAT::tdual_double_1d&, int, int*) { return 0; }
    virtual void unpack_forward_comm_kokkos(int, int, DAT::tdual_double_1d&) {}
    virtual int pack_reverse_comm_kokkos(int, int, DAT::tdual_double_1d&) { return 0; }
    virtual void unpack_reverse_comm_kokkos(int, DAT::tdual_int_1d, DAT::tdual_double_1d&) {}
};

class MemoryKokkos : public Memory {
public:
    template <class TYPE> TYPE create_kokkos(TYPE& data, double*& array, int n1, const char* name) { data = TYPE(std::string(name), n1); array = data.h_view.data(); return data; }
    template <class TYPE> void destroy_kokkos(TYPE& data, double*& array) { data = TYPE(); array = nullptr; }
    template <class TYPE> void destroy_kokkos(TYPE& data) { data = TYPE(); }
};

class AtomKokkos : public Atom {
public:
    DAT::tdual_x_array k_x; DAT::tdual_f_array k_f; DAT::tdual_int_1d k_type; DAT::tdual_tagint_1d k_tag;
    DAT::tdual_int_1d k_map_array; dual_hash_type k_map_hash;
    void sync(int, uint64_t) override {}
    void modified(int, uint64_t) override {}
    template <class DeviceType> static int map_kokkos(tagint t, int style, const DAT::tdual_int_1d& arr, const dual_hash_type& hash)
    {
        if (style == MAP_ARRAY) return t >= 0 && t < (int)arr.d_view.extent(0) ? arr.d_view(t) : -1;
        return t >= 0 && t < (int)hash.d_view.extent(0) ? hash.d_view(t) : -1;
    }
};
class KokkosLMP { public: int kokkos_exists = 1, ngpus = 0, nthreads = 1; };

template <class DeviceType> class NeighListKokkos : public NeighList {
public:
    int maxneighs = 0;
    Kokkos::View<int**, Kokkos::LayoutRight> d_neighbors;
    Kokkos::View<int*> d_ilist, d_numneigh;
};
}  // namespace LAMMPS_NS
