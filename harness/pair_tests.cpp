// pair_style symmetrix/mace on the LAMMPS stand-in.
#include "pair_common.hpp"
#include "pair_symmetrix_mace.h"
using namespace pc;

namespace {
struct PlainWorld : World { using World::World; std::unique_ptr<LAMMPS_NS::Pair> make_pair(LAMMPS_NS::LAMMPS* l) override { return std::make_unique<LAMMPS_NS::PairSymmetrixMACE>(l); } };
std::unique_ptr<World> mk(int a, int b, int c) { return std::make_unique<PlainWorld>(a, b, c); }
}

PBT_PROPERTY(pair_history, "pair_style symmetrix/mace in its three communication modes on 1-6 ranks (brick grids with even and uneven splits, ranks without atoms, periodic/triclinic/open boxes, several image layers), 1-5 successive computes with kept lists, new decompositions, other structures and reloaded models, all energy/virial flag combinations, forces added to existing ones: total and per-atom energies, forces and virial equal the model definition evaluated on the undecomposed structure; non-trivial: at least two atoms, three edges and a ghost atom") {
    Files fs;
    history(s, ctx, mk, [] { return 2e-14; }, [] {}, 2, 5, 7);
}

PBT_PROPERTY(pair_large, "pair_style symmetrix/mace on 27-1728 atoms (jittered lattices with vacancies, orthogonal and tilted, periodic in any directions) on 1-6 ranks, three modes, 1-3 successive computes with kept lists or new decompositions: total and per-atom energies, forces and virial equal the model definition on the undecomposed structure; non-trivial: at least 3 pairs and at least one ghost atom") {
    Files fs; large(s, ctx, mk, [] { return 2e-14; }, [] {});
}

PBT_PROPERTY(pair_commands, "pair_style/pair_coeff/run command sequences for symmetrix/mace: 1-5 model elements out of 118, 1-8 LAMMPS types mapped to them in any order and multiplicity, invalid modes, unknown or missing elements, wrong counts, missing files, no atom map, newton off, user communication cutoffs, per-atom virial requests: everything invalid is rejected with an error, everything valid runs and gives each atom the energy of the element named for its type; non-trivial: a rejected input, or an evaluation with a non-identity map") {
    Files fs; commands(s, ctx, mk, [] { return 2e-14; });
}
