// A simulated LAMMPS run: R ranks on a brick grid, CommBrick-style ghost exchange (staged by dimension, ghosts of
// ghosts, periodic images, several layers), full neighbour lists, newton on.  Ranks are threads, one running at a time;
// a communication call is a rendezvous at which the last rank to arrive carries out the staged exchange.
#pragma once
#include <algorithm>
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>
#include "lammps_shim.h"

namespace lmpw {
using namespace LAMMPS_NS;
using V3 = std::array<double, 3>;

struct Box { V3 origin{}; std::array<V3, 3> cell{}; std::array<bool, 3> pbc{}; };
inline std::array<V3, 3> inverse_rows(const std::array<V3, 3>& c)   // frac_d = row[d] . (x - origin)
{
    auto cross = [](const V3& a, const V3& b) { return V3{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; };
    std::array<V3, 3> r{cross(c[1], c[2]), cross(c[2], c[0]), cross(c[0], c[1])};
    double vol = c[0][0] * r[0][0] + c[0][1] * r[0][1] + c[0][2] * r[0][2];
    for (auto& v : r) for (auto& x : v) x /= vol;
    return r;
}
inline double dot3(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

struct Swap { int dim, sendproc, recvproc; std::vector<int> sendlist; int recvnum = 0, firstrecv = 0; std::array<int, 3> pbc{0, 0, 0}; };

struct Rank {
    LAMMPS lmp;
    std::unique_ptr<Error> error; std::unique_ptr<Memory> memory; std::unique_ptr<Atom> atom; std::unique_ptr<Comm> comm;
    std::unique_ptr<Force> force; std::unique_ptr<Neighbor> neighbor; std::unique_ptr<Domain> domain; std::unique_ptr<Update> update;
    std::unique_ptr<Pair> pair; std::unique_ptr<NeighList> list;
    std::vector<double> xs, fs; std::vector<double*> xp, fp; std::vector<int> types, tags;
    std::vector<Swap> swaps;
    std::vector<int> ilist, numneigh; std::vector<std::vector<int>> neigh; std::vector<int*> first;
};

struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } int below(int n) { return n > 0 ? (int)(next() % (uint64_t)n) : 0; } double uni() { return (double)(next() >> 11) / 9007199254740992.0; } };

class World {
public:
    int P[3], R;
    std::array<std::vector<double>, 3> cuts;    // fractional boundaries, P+1 entries
    Box box;
    std::vector<std::unique_ptr<Rank>> ranks;
    int ntypes = 1;
    Rng rng{1};

    World(int px, int py, int pz) : P{px, py, pz}, R(px * py * pz) {}
    virtual ~World() = default;
    virtual std::unique_ptr<Atom> make_atom() { return std::make_unique<Atom>(); }
    virtual std::unique_ptr<Memory> make_memory(Rank&) { return std::make_unique<Memory>(); }
    virtual std::unique_ptr<NeighList> make_list() { return std::make_unique<NeighList>(); }
    virtual std::unique_ptr<Pair> make_pair(LAMMPS*) = 0;
    virtual void resize_atoms(Rank& k)          // storage for nmax atoms; keeps contents
    {
        Atom& a = *k.atom;
        k.xs.resize(3 * a.nmax); k.fs.resize(3 * a.nmax); k.types.resize(a.nmax); k.tags.resize(a.nmax); k.xp.resize(a.nmax); k.fp.resize(a.nmax);
        for (int i = 0; i < a.nmax; ++i) { k.xp[i] = k.xs.data() + 3 * i; k.fp[i] = k.fs.data() + 3 * i; }
        a.x = k.xp.data(); a.f = k.fp.data(); a.type = k.types.data(); a.tag = k.tags.data();
    }
    virtual void publish(Rank& k)               // lists and maps are complete
    {
        k.first.clear(); for (auto& v : k.neigh) k.first.push_back(v.data());
        NeighList& l = *k.list; l.ilist = k.ilist.data(); l.numneigh = k.numneigh.data(); l.firstneigh = k.first.data();
    }
    virtual void pack_f(Rank& k, Swap& w, std::vector<double>& buf) { check_n(k.pair->pack_forward_comm((int)w.sendlist.size(), w.sendlist.data(), buf.data(), flag(w), w.pbc.data()), buf); }
    virtual void unpack_f(Rank& k, Swap& w, std::vector<double>& buf) { k.pair->unpack_forward_comm(w.recvnum, w.firstrecv, buf.data()); }
    virtual void pack_r(Rank& k, Swap& w, std::vector<double>& buf) { check_n(k.pair->pack_reverse_comm(w.recvnum, w.firstrecv, buf.data()), buf); }
    virtual void unpack_r(Rank& k, Swap& w, std::vector<double>& buf) { k.pair->unpack_reverse_comm((int)w.sendlist.size(), w.sendlist.data(), buf.data()); }
    static int flag(Swap& w) { return w.pbc[0] || w.pbc[1] || w.pbc[2]; }
    static void check_n(int n, std::vector<double>& buf) { if (n > (int)buf.size()) throw LAMMPSException("pack returned " + std::to_string(n) + " values for a message of " + std::to_string(buf.size())); }

    void create(double skin, double cutghostuser, int map_style, int newton)
    {
        for (int r = 0; r < R; ++r) {
            ranks.push_back(std::make_unique<Rank>());
            Rank& k = *ranks.back(); LAMMPS& l = k.lmp;
            k.error = std::make_unique<Error>(&l); k.memory = make_memory(k); k.atom = make_atom(); k.comm = std::make_unique<Comm>(); k.force = std::make_unique<Force>();
            k.neighbor = std::make_unique<Neighbor>(); k.domain = std::make_unique<Domain>(); k.update = std::make_unique<Update>(); k.list = make_list();
            l.error = k.error.get(); l.memory = k.memory.get(); l.atom = k.atom.get(); l.comm = k.comm.get(); l.force = k.force.get(); l.neighbor = k.neighbor.get(); l.domain = k.domain.get(); l.update = k.update.get();
            k.comm->lmp = &l; k.comm->me = r; k.comm->nprocs = R; for (int d = 0; d < 3; ++d) k.comm->procgrid[d] = P[d];
            k.comm->cutghostuser = cutghostuser; k.comm->on_forward = [this, r] { meet(r, true); }; k.comm->on_reverse = [this, r] { meet(r, false); };
            k.neighbor->skin = skin; k.atom->ntypes = ntypes; k.atom->map_style = k.atom->map_user = map_style; k.force->newton = k.force->newton_pair = newton;
            k.pair = make_pair(&l); k.force->pair = k.pair.get();
        }
    }
    // LAMMPS::init order: pair (init_style, init_one), then neighbor, then comm
    void init()
    {
        for (auto& p : ranks) {
            p->neighbor->requests.clear();
            p->pair->init();
            p->neighbor->cutneighmax = p->pair->cutforce + p->neighbor->skin;
            p->pair->list = p->list.get();
        }
    }
    int loc(int r, int d) const { return d == 2 ? r % P[2] : d == 1 ? r / P[2] % P[1] : r / P[2] / P[1]; }
    int rank_at(int x, int y, int z) const { return (x * P[1] + y) * P[2] + z; }
    int neighbour(int r, int d, int dir) const { int c[3] = {loc(r, 0), loc(r, 1), loc(r, 2)}; c[d] += dir; if (c[d] < 0) { if (!box.pbc[d]) return -1; c[d] += P[d]; } if (c[d] >= P[d]) { if (!box.pbc[d]) return -1; c[d] -= P[d]; } return rank_at(c[0], c[1], c[2]); }

    std::array<V3, 3> rows; std::array<double, 3> cutf{};
    V3 frac(const V3& x) const { V3 y{x[0] - box.origin[0], x[1] - box.origin[1], x[2] - box.origin[2]}; return {dot3(rows[0], y), dot3(rows[1], y), dot3(rows[2], y)}; }
    V3 wrap(V3 x) const { V3 f = frac(x); for (int d = 0; d < 3; ++d) if (box.pbc[d]) { double k = std::floor(f[d]); if (k != 0) for (int e = 0; e < 3; ++e) x[e] -= k * box.cell[d][e]; } return x; }

    // atom ids: 1..n, or (id_gap > 0) any distinct positive numbers in any order
    std::vector<int> ids; int id_gap = 0;
    void new_ids(int n) { ids.clear(); int t = 0; for (int i = 0; i < n; ++i) ids.push_back(t += 1 + (id_gap ? rng.below(id_gap + 1) : 0)); if (id_gap) for (int i = n - 1; i > 0; --i) std::swap(ids[i], ids[rng.below(i + 1)]); }
    int index(int tag) const { return id_gap == 0 ? tag - 1 : (int)(std::find(ids.begin(), ids.end(), tag) - ids.begin()); }
    // new decomposition: owned atoms, ghosts, lists
    void reneighbor(const std::vector<V3>& pos, const std::vector<int>& type)
    {
        rows = inverse_rows(box.cell);
        if (ids.size() != pos.size()) new_ids((int)pos.size());
        std::vector<std::vector<int>> own(R); std::vector<V3> px;
        for (size_t i = 0; i < pos.size(); ++i) {
            V3 x = wrap(pos[i]), f = frac(x); px.push_back(x); int c[3];
            for (int d = 0; d < 3; ++d) { c[d] = 0; while (c[d] + 1 < P[d] && f[d] >= cuts[d][c[d] + 1]) ++c[d]; }
            own[rank_at(c[0], c[1], c[2])].push_back((int)i);
        }
        for (int r = 0; r < R; ++r) {
            Rank& k = *ranks[r]; Atom& a = *k.atom; auto& o = own[r];
            for (int i = (int)o.size() - 1; i > 0; --i) std::swap(o[i], o[rng.below(i + 1)]);
            a.natoms = (bigint)pos.size(); a.nlocal = (int)o.size(); a.nghost = 0; a.map_tag_max = ids.empty() ? 0 : *std::max_element(ids.begin(), ids.end());
            grow(k, a.nlocal);
            for (int i = 0; i < a.nlocal; ++i) { for (int d = 0; d < 3; ++d) a.x[i][d] = px[o[i]][d]; a.type[i] = type[o[i]]; a.tag[i] = ids[o[i]]; }
        }
        borders(); build_lists(); maps();
        for (auto& p : ranks) publish(*p);
    }
    void grow(Rank& k, int n) { if (n > k.atom->nmax) { k.atom->nmax = n + rng.below(5); resize_atoms(k); } }
    void borders()
    {
        double cut = 0;
        for (auto& p : ranks) { p->swaps.clear(); cut = std::max(cut, std::max(p->comm->cutghostuser, p->neighbor->cutneighmax)); }
        for (int d = 0; d < 3; ++d) {
            cutf[d] = cut * std::sqrt(dot3(rows[d], rows[d]));
            double w = 1; for (int i = 0; i < P[d]; ++i) w = std::min(w, cuts[d][i + 1] - cuts[d][i]);
            int need = (int)(cutf[d] / w) + 1; if (!box.pbc[d]) need = std::min(need, P[d] - 1);
            std::vector<int> nfirst(R, 0), nlast(R, 0);
            for (int ineed = 0; ineed < 2 * need; ++ineed) {
                bool left = ineed % 2 == 0;
                if (left) for (int r = 0; r < R; ++r) { nfirst[r] = nlast[r]; nlast[r] = ranks[r]->atom->nlocal + ranks[r]->atom->nghost; }
                std::vector<Swap> sw(R);
                for (int r = 0; r < R; ++r) {
                    Rank& k = *ranks[r]; Swap& w2 = sw[r]; w2.dim = d;
                    w2.sendproc = neighbour(r, d, left ? -1 : 1); w2.recvproc = neighbour(r, d, left ? 1 : -1);
                    double lo = cuts[d][loc(r, d)], hi = cuts[d][loc(r, d) + 1], mid = 0.5 * (lo + hi), a, b;
                    if (left) { a = ineed < 2 ? -1e300 : mid; b = lo + cutf[d]; if (loc(r, d) == 0) w2.pbc[d] = 1; }
                    else { a = hi - cutf[d]; b = ineed < 2 ? 1e300 : mid; if (loc(r, d) == P[d] - 1) w2.pbc[d] = -1; }
                    if (w2.sendproc < 0) continue;
                    for (int i = nfirst[r]; i < nlast[r]; ++i) { double f = frac({k.atom->x[i][0], k.atom->x[i][1], k.atom->x[i][2]})[d]; if (f >= a && f <= b) w2.sendlist.push_back(i); }
                }
                for (int r = 0; r < R; ++r) {   // receive
                    Swap& mine = sw[r]; Rank& k = *ranks[r]; mine.firstrecv = k.atom->nlocal + k.atom->nghost;
                    if (mine.recvproc < 0) continue;
                    Rank& from = *ranks[mine.recvproc]; Swap& src = sw[mine.recvproc]; mine.recvnum = (int)src.sendlist.size();
                    grow(k, mine.firstrecv + mine.recvnum);
                    for (int q = 0; q < mine.recvnum; ++q) {
                        int i = src.sendlist[q], g = mine.firstrecv + q; Atom &A = *k.atom, &B = *from.atom;
                        for (int e = 0; e < 3; ++e) A.x[g][e] = B.x[i][e] + src.pbc[d] * box.cell[d][e];
                        A.type[g] = B.type[i]; A.tag[g] = B.tag[i];
                    }
                    k.atom->nghost += mine.recvnum;
                    if (k.atom->nghost > 6000) throw std::length_error("too many ghosts");
                }
                for (int r = 0; r < R; ++r) ranks[r]->swaps.push_back(sw[r]);
            }
        }
    }
    void build_lists()
    {
        for (auto& p : ranks) {
            Rank& k = *p; Atom& a = *k.atom; int nall = a.nlocal + a.nghost; bool ghost = false;
            for (auto& q : k.neighbor->requests) { if (!(q->flags & NeighConst::REQ_FULL)) throw LAMMPSException("half neighbour list requested"); ghost = ghost || (q->flags & NeighConst::REQ_GHOST); }
            if (k.neighbor->requests.empty()) throw LAMMPSException("no neighbour list requested");
            double c = k.pair->cutforce + k.neighbor->skin, c2 = c * c;
            k.list->inum = a.nlocal; k.list->gnum = ghost ? a.nghost : 0;
            k.ilist.clear(); k.numneigh.clear(); k.neigh.clear();
            for (int i = 0; i < nall; ++i) {
                std::vector<int> v;
                if (i < a.nlocal || ghost) {
                    for (int j = 0; j < nall; ++j) { if (j == i) continue; double t = 0; for (int e = 0; e < 3; ++e) { double q = a.x[i][e] - a.x[j][e]; t += q * q; } if (t <= c2) v.push_back(j); }
                    for (int q = (int)v.size() - 1; q > 0; --q) std::swap(v[q], v[rng.below(q + 1)]);
                    for (auto& j : v) j |= (int)((unsigned)rng.below(4) << SBBITS);
                    k.ilist.push_back(i); k.numneigh.push_back((int)v.size());
                } else { k.ilist.push_back(0x7b7b7b7b); k.numneigh.push_back(0x7b7b7b7b); }
                k.neigh.push_back(std::move(v));
            }
            if (k.ilist.empty()) { k.ilist.push_back(0); k.numneigh.push_back(0); }
        }
    }
    void maps()
    {
        for (auto& p : ranks) { Atom& a = *p->atom; a.map_table.assign(a.map_tag_max + 1, -1); if (a.map_style != Atom::MAP_NONE) for (int i = a.nlocal + a.nghost - 1; i >= 0; --i) a.map_table[a.tag[i]] = i; }
    }
    // positions moved (by less than half the skin) since the lists were built; ghosts follow their owners
    void move(const std::vector<V3>& pos)
    {
        for (auto& p : ranks) for (int i = 0; i < p->atom->nlocal; ++i) { V3 x = wrap_like(pos[index(p->atom->tag[i])], p->atom->x[i]); for (int e = 0; e < 3; ++e) p->atom->x[i][e] = x[e]; }
        if (ranks.empty()) return;
        for (size_t w = 0; w < ranks[0]->swaps.size(); ++w)
            for (auto& p : ranks) { Swap& m = p->swaps[w]; if (m.recvproc < 0) continue; Rank& from = *ranks[m.recvproc]; Swap& src = from.swaps[w]; for (int q = 0; q < m.recvnum; ++q) for (int e = 0; e < 3; ++e) p->atom->x[m.firstrecv + q][e] = from.atom->x[src.sendlist[q]][e] + src.pbc[src.dim] * box.cell[src.dim][e]; }
    }
    // atoms change type while the lists stay (as fix atom/swap does); ghosts follow their owners
    void retype(const std::vector<int>& type) { for (auto& p : ranks) for (int i = 0; i < p->atom->nlocal + p->atom->nghost; ++i) p->atom->type[i] = type[index(p->atom->tag[i])]; }
    V3 wrap_like(V3 x, const double* old) const { V3 d{old[0] - x[0], old[1] - x[1], old[2] - x[2]}; for (int k = 0; k < 3; ++k) if (box.pbc[k]) { double n = std::round(dot3(rows[k], d)); for (int e = 0; e < 3; ++e) x[e] += n * box.cell[k][e]; } return x; }

    void reverse_forces()
    {
        for (int w = (int)ranks[0]->swaps.size() - 1; w >= 0; --w)
            for (auto& p : ranks) { Swap& m = p->swaps[w]; if (m.recvproc < 0) continue; Rank& from = *ranks[m.recvproc]; Swap& src = from.swaps[w]; for (int q = 0; q < m.recvnum; ++q) for (int e = 0; e < 3; ++e) from.atom->f[src.sendlist[q]][e] += p->atom->f[m.firstrecv + q][e]; }
    }

    // ---- running the ranks
    std::mutex mu; std::condition_variable cv; int turn = 0; bool aborted = false; std::vector<int> state, kind; std::string error; bool error_is_lammps = false; int exchanges = 0;
    // state: 0 ready or running, 1 waiting at a rendezvous, 2 done
    struct Stop {};
    void note(const std::string& e, bool lammps) { if (error.empty()) { error = e.empty() ? "error" : e; error_is_lammps = lammps; } }
    void pass(int r)
    {
        for (int q = 1; q <= R && !aborted; ++q) { int c = (r + q) % R; if (state[c] == 0) { turn = c; cv.notify_all(); return; } }
        for (int q = 0; q < R; ++q) if (state[q] == 1) { note("deadlock: some ranks communicate and others do not", false); aborted = true; }
        cv.notify_all();
    }
    void meet(int r, bool forward)
    {
        std::unique_lock<std::mutex> lk(mu);
        if (aborted) throw Stop{};
        state[r] = 1; kind[r] = forward;
        if (std::count(state.begin(), state.end(), 1) == R) {
            try { if (std::count(kind.begin(), kind.end(), (int)forward) != R) throw std::runtime_error("ranks disagree about the communication to perform"); exchange(forward); }
            catch (const std::exception& e) { note(e.what(), false); aborted = true; cv.notify_all(); throw Stop{}; }
            for (auto& x : state) x = 0;
            turn = r;
            return;
        }
        pass(r);
        cv.wait(lk, [&] { return turn == r || aborted; });
        if (aborted) throw Stop{};
    }
    void exchange(bool forward)
    {
        ++exchanges;
        int n = (int)ranks[0]->swaps.size();
        for (int q = 0; q < n; ++q) {
            int w = forward ? q : n - 1 - q; std::vector<std::vector<double>> buf(R);
            for (int r = 0; r < R; ++r) {
                Rank& k = *ranks[r]; Swap& m = k.swaps[w]; size_t cnt = forward ? m.sendlist.size() : (size_t)m.recvnum;
                buf[r].assign(cnt * (forward ? k.pair->comm_forward : k.pair->comm_reverse), std::numeric_limits<double>::quiet_NaN());
                if (cnt) { if (forward) pack_f(k, m, buf[r]); else pack_r(k, m, buf[r]); }
            }
            for (int r = 0; r < R; ++r) {
                Rank& k = *ranks[r]; Swap& m = k.swaps[w];
                if (forward) { if (m.recvproc >= 0 && m.recvnum) unpack_f(k, m, buf[m.recvproc]); }
                else if (m.sendproc >= 0 && !m.sendlist.empty()) unpack_r(k, m, buf[m.sendproc]);
            }
        }
    }
    void compute(int eflag, int vflag)
    {
        error.clear(); error_is_lammps = false; aborted = false; state.assign(R, 0); kind.assign(R, 0); turn = 0;
        auto body = [&](int r) {
            { std::unique_lock<std::mutex> lk(mu); cv.wait(lk, [&] { return turn == r || aborted; }); if (aborted) return; }
            std::string msg; bool bad = false, lam = false;
            try { ranks[r]->pair->compute(eflag, vflag); }
            catch (const LAMMPSException& e) { bad = lam = true; msg = e.what(); }
            catch (const std::exception& e) { bad = true; msg = e.what(); }
            catch (const Stop&) { return; }
            std::unique_lock<std::mutex> lk(mu); state[r] = 2;
            if (bad) { note(msg, lam); aborted = true; cv.notify_all(); }
            else pass(r);
        };
        if (R == 1) { body(0); return; }
        std::vector<std::thread> t; for (int r = 0; r < R; ++r) t.emplace_back(body, r);
        for (auto& x : t) x.join();
    }
};
}  // namespace lmpw
