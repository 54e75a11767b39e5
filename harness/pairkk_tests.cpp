// pair_style symmetrix/mace/kk (both precisions) on the LAMMPS and Kokkos stand-ins.
#include "lammps_shim_kk.h"
#include "pair_common.hpp"
#include "pair_symmetrix_mace_kokkos.h"
using namespace pc;
using namespace LAMMPS_NS;
namespace ks = Kokkos::shim;

namespace {
struct Init { Init() { ks::config().initialized = true; } } init_;
struct KKWorld : World {
    using World::World;
    bool single = false, device_forward = true, device_reverse = true;
    std::unique_ptr<Pair> make_pair(LAMMPS* l) override { if (single) return std::make_unique<PairSymmetrixMACEKokkos<LMPDeviceType, float>>(l); return std::make_unique<PairSymmetrixMACEKokkos<LMPDeviceType, double>>(l); }
    std::unique_ptr<Atom> make_atom() override { auto a = std::make_unique<AtomKokkos>(); return a; }
    std::unique_ptr<Memory> make_memory(lmpw::Rank& k) override { auto m = std::make_unique<MemoryKokkos>(); k.lmp.memoryKK = m.get(); return m; }
    std::unique_ptr<NeighList> make_list() override { return std::make_unique<NeighListKokkos<LMPDeviceType>>(); }
    static AtomKokkos& kk(lmpw::Rank& k) { return static_cast<AtomKokkos&>(*k.atom); }
    void resize_atoms(lmpw::Rank& k) override {
        AtomKokkos& a = kk(k); k.lmp.atomKK = &a; int n = a.nmax, old = (int)a.k_x.extent(0);
        DAT::tdual_x_array x("x", n, 3); DAT::tdual_f_array f("f", n, 3); DAT::tdual_int_1d t("type", n), g("tag", n);
        for (int i = 0; i < std::min(n, old); ++i) { for (int d = 0; d < 3; ++d) { x.h_view(i, d) = a.k_x.h_view(i, d); f.h_view(i, d) = a.k_f.h_view(i, d); } t.h_view(i) = a.k_type.h_view(i); g.h_view(i) = a.k_tag.h_view(i); }
        a.k_x = x; a.k_f = f; a.k_type = t; a.k_tag = g;
        k.xp.resize(n); k.fp.resize(n); for (int i = 0; i < n; ++i) { k.xp[i] = &a.k_x.h_view(i, 0); k.fp[i] = &a.k_f.h_view(i, 0); }
        a.x = k.xp.data(); a.f = k.fp.data(); a.type = a.k_type.h_view.data(); a.tag = a.k_tag.h_view.data();
    }
    void publish(lmpw::Rank& k) override {
        World::publish(k);
        auto& l = static_cast<NeighListKokkos<LMPDeviceType>&>(*k.list); int nall = k.atom->nlocal + k.atom->nghost, mx = 1;
        for (auto& v : k.neigh) mx = std::max(mx, (int)v.size());
        mx += rng.below(3); int rows = std::max(nall, 1);
        l.maxneighs = mx; l.d_neighbors = Kokkos::View<int**, Kokkos::LayoutRight>(Kokkos::view_alloc("neighbors", Kokkos::WithoutInitializing), rows, mx); l.d_ilist = Kokkos::View<int*>("ilist", rows); l.d_numneigh = Kokkos::View<int*>("numneigh", rows);
        for (int i = 0; i < nall; ++i) { l.d_ilist(i) = k.ilist[i]; l.d_numneigh(i) = k.numneigh[i]; for (size_t j = 0; j < k.neigh[i].size(); ++j) l.d_neighbors(i, (int)j) = k.neigh[i][j]; }
        l.ilist = nullptr; l.numneigh = nullptr; l.firstneigh = nullptr;   // host arrays are not filled for device lists
        AtomKokkos& a = kk(k); DAT::tdual_int_1d m("map", (int)a.map_table.size()); for (size_t i = 0; i < a.map_table.size(); ++i) m.h_view((int)i) = a.map_table[i];
        a.k_map_array = DAT::tdual_int_1d(); a.k_map_hash = dual_hash_type(); if (a.map_style == Atom::MAP_ARRAY) a.k_map_array = m; else a.k_map_hash = m;
    }
    KokkosBase& base(lmpw::Rank& k) { return dynamic_cast<KokkosBase&>(*k.pair); }
    static DAT::tdual_int_1d ilist(const vector<int>& v) { DAT::tdual_int_1d d("sendlist", (int)v.size() + 2); for (size_t i = 0; i < v.size(); ++i) d.h_view((int)i) = v[i]; for (int q = 0; q < 2; ++q) d.h_view((int)v.size() + q) = 0x7b7b7b7b; return d; }
    DAT::tdual_double_1d dbuf(const vector<double>& v) { DAT::tdual_double_1d d("buf", (int)v.size() + rng.below(4)); Kokkos::deep_copy(d.h_view, std::nan("")); for (size_t i = 0; i < v.size(); ++i) d.h_view((int)i) = v[i]; return d; }
    static void back(DAT::tdual_double_1d& d, vector<double>& v) { for (size_t i = 0; i < v.size(); ++i) v[i] = d.h_view((int)i); }
    void pack_f(lmpw::Rank& k, lmpw::Swap& w, vector<double>& buf) override { if (!device_forward) return World::pack_f(k, w, buf); auto d = dbuf(buf); check_n(base(k).pack_forward_comm_kokkos((int)w.sendlist.size(), ilist(w.sendlist), d, flag(w), w.pbc.data()), buf); back(d, buf); }
    void unpack_f(lmpw::Rank& k, lmpw::Swap& w, vector<double>& buf) override { if (!device_forward) return World::unpack_f(k, w, buf); auto d = dbuf(buf); base(k).unpack_forward_comm_kokkos(w.recvnum, w.firstrecv, d); }
    void pack_r(lmpw::Rank& k, lmpw::Swap& w, vector<double>& buf) override { if (!device_reverse) return World::pack_r(k, w, buf); auto d = dbuf(buf); check_n(base(k).pack_reverse_comm_kokkos(w.recvnum, w.firstrecv, d), buf); back(d, buf); }
    void unpack_r(lmpw::Rank& k, lmpw::Swap& w, vector<double>& buf) override { if (!device_reverse) return World::unpack_r(k, w, buf); auto d = dbuf(buf); base(k).unpack_reverse_comm_kokkos((int)w.sendlist.size(), ilist(w.sendlist), d); }
};
void schedule(Src& s, Ctx& ctx) {
    int k = s.integer(0, 3); uint64_t seed = s.raw(0xffffff);
    ks::config().max_team = s.integer(1, 4);
#ifdef __SANITIZE_THREAD__
    // teams of one: members of a larger team may store the same value to the same place, which is not a conflict in Kokkos' terms
    ks::config().max_team = 1; ks::config().workers = 2 + (int)(seed % 3); ks::reseed(ks::Threads, seed); (void)k; (void)ctx; return;
#endif
    ks::reseed(k == 0 ? ks::Ordered : ks::Shuffled, seed);
    ctx.label(k == 0 ? "ordered" : "shuffled"); ctx.describe(k == 0 ? "ordered " : "shuffled ");
}
void run(Src& s, Ctx& ctx, int steps, int atoms) {   // steps 0: many atoms
    Files fs;
    bool single = s.chance(30), df = s.boolean(), dr = s.boolean(); ctx.label(single ? "single precision" : "double precision");
    if (df) ctx.label("device forward communication"); if (dr) ctx.label("device reverse communication");
    ks::reseed(ks::Ordered, 1);
    auto mk = [&](int a, int b, int c) { auto w = std::make_unique<KKWorld>(a, b, c); w->single = single; w->device_forward = df; w->device_reverse = dr; return std::unique_ptr<World>(std::move(w)); };
    auto unit = [&] { return single ? 1.1e-5 : 2e-14; }; auto sched = [&] { schedule(s, ctx); };
    if (steps) history(s, ctx, mk, unit, sched, 2, steps, atoms); else large(s, ctx, mk, unit, sched);
    ks::reseed(ks::Ordered, 1);
}
}

PBT_PROPERTY(pairkk_history, "pair_style symmetrix/mace/kk in double and single precision, its three communication modes, host or device communication buffers, on 1-6 ranks (brick grids, ranks without atoms, periodic/triclinic/open boxes), 1-5 successive computes with kept lists, new decompositions, other structures and reloaded models under ordered and shuffled schedules: total and per-atom energies, forces and virial equal the model definition evaluated on the undecomposed structure; every view access in range; non-trivial: at least two atoms, three edges and a ghost atom") { run(s, ctx, 5, 7); }

PBT_PROPERTY(pairkk_large, "pair_style symmetrix/mace/kk in both precisions, host or device buffers, ordered, shuffled or threaded schedules, on 27-1728 atoms (jittered lattices with vacancies, orthogonal and tilted, periodic in any directions) on 1-6 ranks, three modes, 1-3 successive computes with kept lists or new decompositions: total and per-atom energies, forces and virial equal the model definition on the undecomposed structure; non-trivial: at least 3 pairs and at least one ghost atom") { run(s, ctx, 0, 0); }

PBT_PROPERTY(pairkk_commands, "the same command sequences for symmetrix/mace/kk in both precisions; non-trivial: a rejected input, or an evaluation with a non-identity map") {
    Files fs; bool single = s.chance(30); ks::reseed(ks::Ordered, 1);
    commands(s, ctx, [&](int a, int b, int c) { auto w = std::make_unique<KKWorld>(a, b, c); w->single = single; return std::unique_ptr<World>(std::move(w)); }, [&] { return single ? 1.1e-5 : 2e-14; });
}
