// A small stand-in for the part of LAMMPS that pair styles see (LAMMPS itself is not in this sandbox).
// Members, flags and call order follow the LAMMPS sources (Pair::ev_setup, Pair::init, CommBrick, NPairFullBin(Ghost)).
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <regex>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#define FLERR __FILE__, __LINE__
#ifndef NEIGHMASK
#define NEIGHMASK 0x1FFFFFFF
#endif
#ifndef SBBITS
#define SBBITS 30
#endif
#ifndef MIN
#define MIN(A, B) ((A) < (B) ? (A) : (B))
#define MAX(A, B) ((A) > (B) ? (A) : (B))
#endif

namespace LAMMPS_NS {
typedef int tagint;
typedef int imageint;
typedef int64_t bigint;

class LAMMPS;
class Memory;
class MemoryKokkos;
class Error;
class Universe;
class Input;
class Atom;
class AtomKokkos;
class Update;
class Neighbor;
class Comm;
class Domain;
class Force;
class Modify;
class Group;
class Output;
class Timer;
class Pair;
class NeighList;
class NeighRequest;
class KokkosLMP;

struct LAMMPSException : std::exception {
    std::string msg;
    explicit LAMMPSException(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};

namespace shim_fmt {
inline void put(std::ostringstream& o, const std::string& f, size_t at) { o << f.substr(at); }
template <class T, class... A>
void put(std::ostringstream& o, const std::string& f, size_t at, const T& v, const A&... a)
{
    size_t l = f.find('{', at), r = l == std::string::npos ? l : f.find('}', l);
    if (r == std::string::npos) { o << f.substr(at); return; }
    o << f.substr(at, l - at) << v;
    put(o, f, r + 1, a...);
}
}
namespace fmt_shim {
template <class... A> std::string format(const std::string& f, const A&... a) { std::ostringstream o; shim_fmt::put(o, f, 0, a...); return o.str(); }
}
}
namespace fmt { using LAMMPS_NS::fmt_shim::format; }
namespace LAMMPS_NS {

class Pointers {
public:
    explicit Pointers(LAMMPS* ptr);
    virtual ~Pointers() = default;
    LAMMPS* lmp;
    Memory*& memory; Error*& error; Universe*& universe; Input*& input;
    Atom*& atom; Update*& update; Neighbor*& neighbor; Comm*& comm; Domain*& domain; Force*& force; Modify*& modify; Group*& group; Output*& output; Timer*& timer;
    AtomKokkos*& atomKK; MemoryKokkos*& memoryKK;
};

class LAMMPS {
public:
    Memory* memory = nullptr; Error* error = nullptr; Universe* universe = nullptr; Input* input = nullptr;
    Atom* atom = nullptr; Update* update = nullptr; Neighbor* neighbor = nullptr; Comm* comm = nullptr; Domain* domain = nullptr; Force* force = nullptr;
    Modify* modify = nullptr; Group* group = nullptr; Output* output = nullptr; Timer* timer = nullptr;
    AtomKokkos* atomKK = nullptr; MemoryKokkos* memoryKK = nullptr; KokkosLMP* kokkos = nullptr;
    FILE* screen = nullptr; FILE* logfile = nullptr; FILE* infile = nullptr;
    int world = 0;
    std::string log;        // messages
    std::vector<std::string> warnings;
};
inline Pointers::Pointers(LAMMPS* p)
    : lmp(p), memory(p->memory), error(p->error), universe(p->universe), input(p->input), atom(p->atom), update(p->update), neighbor(p->neighbor), comm(p->comm),
      domain(p->domain), force(p->force), modify(p->modify), group(p->group), output(p->output), timer(p->timer), atomKK(p->atomKK), memoryKK(p->memoryKK) {}

class Error {
public:
    LAMMPS* l;
    explicit Error(LAMMPS* p) : l(p) {}
    enum { NOLASTLINE = -3, NOPOINTER = -2, ARGZERO = -1 };
    [[noreturn]] void all(const std::string&, int, const std::string& s) { throw LAMMPSException(s); }
    template <class... A> [[noreturn]] void all(const std::string&, int, const std::string& f, const A&... a) { throw LAMMPSException(fmt::format(f, a...)); }
    template <class... A> [[noreturn]] void all(const std::string&, int, int, const std::string& f, const A&... a) { throw LAMMPSException(fmt::format(f, a...)); }
    template <class... A> [[noreturn]] void one(const std::string&, int, const std::string& f, const A&... a) { throw LAMMPSException(fmt::format(f, a...)); }
    template <class... A> [[noreturn]] void one(const std::string&, int, int, const std::string& f, const A&... a) { throw LAMMPSException(fmt::format(f, a...)); }
    template <class... A> void warning(const std::string&, int, const std::string& f, const A&... a) { l->warnings.push_back(fmt::format(f, a...)); }
    template <class... A> void message(const std::string&, int, const std::string& f, const A&... a) { l->log += fmt::format(f, a...); }
};

namespace utils {
template <class... A> void logmesg(LAMMPS* l, const std::string& f, const A&... a) { l->log += fmt::format(f, a...); }
inline double numeric(const char*, int, const std::string& s, bool, LAMMPS*) { char* e; double v = std::strtod(s.c_str(), &e); if (*e || s.empty()) throw LAMMPSException("Expected floating point parameter instead of '" + s + "' in input script or data file"); return v; }
inline int inumeric(const char*, int, const std::string& s, bool, LAMMPS*) { char* e; long v = std::strtol(s.c_str(), &e, 10); if (*e || s.empty()) throw LAMMPSException("Expected integer parameter instead of '" + s + "' in input script or data file"); return (int)v; }
template <class... A> [[noreturn]] void missing_cmd_args(const std::string&, int, const std::string& cmd, Error*) { throw LAMMPSException("Illegal " + cmd + " command: missing argument(s)"); }
inline bool strmatch(const std::string& a, const std::string& b) { try { return std::regex_search(a, std::regex(b)); } catch (const std::regex_error&) { return a.find(b) != std::string::npos; } }
inline std::vector<std::string> split_words(const std::string& s) { std::istringstream i(s); std::vector<std::string> w; for (std::string x; i >> x;) w.push_back(x); return w; }
inline std::string trim(const std::string& s) { size_t b = s.find_first_not_of(" \t\r\n\f"), e = s.find_last_not_of(" \t\r\n\f"); return b == std::string::npos ? "" : s.substr(b, e - b + 1); }
inline std::string lowercase(std::string s) { for (auto& c : s) c = std::tolower((unsigned char)c); return s; }
inline std::string uppercase(std::string s) { for (auto& c : s) c = std::toupper((unsigned char)c); return s; }
inline bool is_integer(const std::string& s) { char* e; std::strtol(s.c_str(), &e, 10); return !s.empty() && !*e; }
inline bool is_double(const std::string& s) { char* e; std::strtod(s.c_str(), &e); return !s.empty() && !*e; }
inline bool file_is_readable(const std::string& p) { FILE* f = std::fopen(p.c_str(), "r"); if (f) std::fclose(f); return f != nullptr; }
inline bool logical(const char*, int, const std::string& s, bool, LAMMPS*) { if (s == "yes" || s == "on" || s == "true") return true; if (s == "no" || s == "off" || s == "false") return false; throw LAMMPSException("Expected boolean parameter instead of '" + s + "' in input script or data file"); }
inline char* strdup(const std::string& s) { char* c = new char[s.size() + 1]; std::strcpy(c, s.c_str()); return c; }
}

class Memory {
public:
    template <class T> static void poison(T* p, size_t n)
    {
        if constexpr (std::is_floating_point_v<T>) { for (size_t i = 0; i < n; ++i) p[i] = std::numeric_limits<T>::quiet_NaN(); }
        else std::memset((void*)p, 0x7b, n * sizeof(T));
    }
    void* smalloc(bigint n, const char*) { return n ? std::malloc(n) : nullptr; }
    void sfree(void* p) { std::free(p); }
    template <class T> T* create(T*& a, int n, const char*) { a = n > 0 ? (T*)std::malloc(sizeof(T) * n) : nullptr; if (n > 0) poison(a, n); return a; }
    template <class T> T* grow(T*& a, int n, const char*) { a = (T*)std::realloc((void*)a, sizeof(T) * (n > 0 ? n : 1)); return a; }
    template <class T> void destroy(T*& a) { std::free((void*)a); a = nullptr; }
    template <class T> T** create(T**& a, int n1, int n2, const char*)
    {
        T* d = (T*)std::malloc(sizeof(T) * (size_t)n1 * n2 + 1); poison(d, (size_t)n1 * n2);
        a = (T**)std::malloc(sizeof(T*) * n1 + 1);
        for (int i = 0; i < n1; ++i) a[i] = d + (size_t)i * n2;
        return a;
    }
    template <class T> void destroy(T**& a) { if (!a) return; std::free((void*)a[0]); std::free((void*)a); a = nullptr; }
};

class Atom {
public:
    enum { GROW = 0, RESTART = 1, BORDER = 2 };
    enum { ATOMIC = 0, MOLECULAR = 1, TEMPLATE = 2 };
    enum MapStyle { MAP_NONE = 0, MAP_ARRAY = 1, MAP_HASH = 2, MAP_YES = 3 };
    int ntypes = 1;
    bigint natoms = 0;
    int nlocal = 0, nghost = 0, nmax = 0, nfirst = 0;
    int tag_enable = 1;
    double** x = nullptr;
    double** f = nullptr;
    int* type = nullptr;
    tagint* tag = nullptr;
    int* mask = nullptr;
    int map_style = MAP_ARRAY, map_user = MAP_ARRAY;
    tagint map_tag_max = 0;
    std::vector<int> map_table;          // by tag, -1 absent
    int map(tagint t) const { return t >= 0 && t < (int)map_table.size() ? map_table[t] : -1; }
    virtual ~Atom() = default;
    virtual void sync(int, uint64_t) {}
    virtual void modified(int, uint64_t) {}
};

class Update {
public:
    bigint ntimestep = 0;
    double dt = 0.001;
};

class Force {
public:
    Pair* pair = nullptr;
    int newton = 1, newton_pair = 1, newton_bond = 1;
    double boltz = 8.617343e-5, nktv2p = 1.6021765e6, qqrd2e = 14.399645, ftm2v = 1.0 / 1.0364269e-4;
    double special_lj[4] = {1, 1, 1, 1}, special_coul[4] = {1, 1, 1, 1};
};

class Domain {
public:
    int dimension = 3, triclinic = 0;
    int xperiodic = 1, yperiodic = 1, zperiodic = 1;
    double boxlo[3] = {0, 0, 0}, boxhi[3] = {1, 1, 1}, prd[3] = {1, 1, 1};
};

class Comm {
public:
    int me = 0, nprocs = 1, nthreads = 1;
    int ghost_velocity = 0;
    double cutghostuser = 0;
    int procgrid[3] = {1, 1, 1};
    LAMMPS* lmp = nullptr;
    std::function<void()> on_forward, on_reverse;
    double get_comm_cutoff();
    void modify_params(int narg, char** arg)
    {
        for (int i = 0; i < narg;) {
            if (!std::strcmp(arg[i], "cutoff")) {
                if (i + 2 > narg) throw LAMMPSException("Illegal comm_modify command");
                cutghostuser = utils::numeric(FLERR, arg[i + 1], false, lmp);
                if (cutghostuser < 0) throw LAMMPSException("Invalid cutoff in comm_modify command");
                i += 2;
            } else throw LAMMPSException("Unknown comm_modify keyword " + std::string(arg[i]));
        }
    }
    void forward_comm(Pair*) { on_forward(); }
    void forward_comm_pair(Pair*) { on_forward(); }
    void reverse_comm(Pair*) { on_reverse(); }
    void reverse_comm_pair(Pair*) { on_reverse(); }
};

class NeighList {
public:
    virtual ~NeighList() = default;
    int inum = 0, gnum = 0;
    int* ilist = nullptr;
    int* numneigh = nullptr;
    int** firstneigh = nullptr;
    int index = 0;
};
namespace NeighConst {
enum { REQ_DEFAULT = 0, REQ_FULL = 1 << 0, REQ_GHOST = 1 << 1, REQ_SIZE = 1 << 2, REQ_HISTORY = 1 << 3, REQ_OCCASIONAL = 1 << 4, REQ_NEWTON_ON = 1 << 8, REQ_NEWTON_OFF = 1 << 9 };
}
class NeighRequest {
public:
    int flags = 0;
    bool kokkos_host = false, kokkos_device = false;
    double cut = 0;
    void set_kokkos_host(bool b) { kokkos_host = b; }
    void set_kokkos_device(bool b) { kokkos_device = b; }
    void set_cutoff(double c) { cut = c; }
    void enable_full() { flags |= NeighConst::REQ_FULL; }
    void enable_ghost() { flags |= NeighConst::REQ_GHOST; }
    int get_flags() const { return flags; }
};
class Neighbor {
public:
    double skin = 0.3, cutneighmax = 0;
    int ago = 0;
    std::vector<std::unique_ptr<NeighRequest>> requests;
    NeighRequest* add_request(Pair*, int flags = 0) { requests.push_back(std::make_unique<NeighRequest>()); requests.back()->flags = flags; return requests.back().get(); }
};
inline double Comm::get_comm_cutoff() { return std::max(cutghostuser, lmp->neighbor->cutneighmax); }

enum ExecutionSpace { Host, Device };

class Pair : protected Pointers {
public:
    enum { ENERGY_NONE = 0, ENERGY_GLOBAL = 1, ENERGY_ATOM = 2 };
    enum { VIRIAL_NONE = 0, VIRIAL_PAIR = 1, VIRIAL_FDOTR = 2, VIRIAL_ATOM = 4, VIRIAL_CENTROID = 8 };
    double eng_vdwl = 0, eng_coul = 0;
    double virial[6] = {0, 0, 0, 0, 0, 0};
    double* eatom = nullptr;
    double** vatom = nullptr;
    double** cvatom = nullptr;
    double cutforce = 0;
    double** cutsq = nullptr;
    int** setflag = nullptr;
    int comm_forward = 0, comm_reverse = 0, comm_reverse_off = 0;
    int single_enable = 1, born_matrix_enable = 0, single_hessian_enable = 0, restartinfo = 1, respa_enable = 0, one_coeff = 0, manybody_flag = 0, unit_convert_flag = 0;
    int no_virial_fdotr_compute = 0, writedata = 0, finitecutflag = 0, ghostneigh = 0;
    double** cutghost = nullptr;
    int evflag = 0, eflag_either = 0, eflag_global = 0, eflag_atom = 0, vflag_either = 0, vflag_global = 0, vflag_atom = 0, cvflag_atom = 0, vflag_fdotr = 0;
    int maxeatom = 0, maxvatom = 0;
    int kokkosable = 0, reverse_comm_device = 0, copymode = 0;
    ExecutionSpace execution_space = Host;
    unsigned int datamask_read = 0, datamask_modify = 0;
    NeighList* list = nullptr;
    int allocated = 0;
    int nelements = 0;
    char** elements = nullptr;
    int* map = nullptr;

    explicit Pair(LAMMPS* l) : Pointers(l) {}
    ~Pair() override { if (copymode) return; std::free(eatom); if (elements) { for (int i = 0; i < nelements; i++) delete[] elements[i]; delete[] elements; } }
    virtual void compute(int, int) = 0;
    virtual void settings(int, char**) = 0;
    virtual void coeff(int, char**) = 0;
    virtual void init_style() { neighbor->add_request(this); }
    virtual double init_one(int, int) { return 0; }
    virtual void allocate() {}
    virtual int pack_forward_comm(int, int*, double*, int, int*) { return 0; }
    virtual void unpack_forward_comm(int, int, double*) {}
    virtual int pack_reverse_comm(int, int, double*) { return 0; }
    virtual void unpack_reverse_comm(int, int*, double*) {}

    void init()
    {
        if (!allocated) error->all(FLERR, "All pair coeffs are not set");
        for (int i = 1; i <= atom->ntypes; i++) if (setflag[i][i] == 0) error->all(FLERR, "All pair coeffs are not set");
        init_style();
        cutforce = 0;
        for (int i = 1; i <= atom->ntypes; i++)
            for (int j = i; j <= atom->ntypes; j++) {
                double c = init_one(i, j);
                cutsq[i][j] = cutsq[j][i] = c * c;
                cutforce = std::max(cutforce, c);
            }
    }
    void ev_init(int eflag, int vflag, int alloc = 1)
    {
        if (eflag || vflag) ev_setup(eflag, vflag, alloc);
        else evflag = eflag_either = eflag_global = eflag_atom = vflag_either = vflag_global = vflag_atom = cvflag_atom = vflag_fdotr = 0;
    }
    void ev_setup(int eflag, int vflag, int alloc = 1)
    {
        eflag_either = eflag;
        eflag_global = eflag & ENERGY_GLOBAL;
        eflag_atom = eflag & ENERGY_ATOM;
        vflag_global = vflag & (VIRIAL_PAIR | VIRIAL_FDOTR);
        vflag_atom = vflag & VIRIAL_ATOM;
        if (vflag & VIRIAL_CENTROID) vflag_atom = 1;
        vflag_either = vflag_global || vflag_atom;
        evflag = eflag_either || vflag_either;
        if (eflag_atom && atom->nmax > maxeatom) {
            maxeatom = atom->nmax;
            if (alloc) { memory->destroy(eatom); memory->create(eatom, comm->nthreads * maxeatom, "pair:eatom"); }
        }
        if (eflag_global) eng_vdwl = eng_coul = 0.0;
        if (vflag_global) for (int i = 0; i < 6; i++) virial[i] = 0.0;
        if (eflag_atom && alloc) for (int i = 0, n = atom->nlocal + (force->newton ? atom->nghost : 0); i < n; i++) eatom[i] = 0.0;
        if (vflag_global == VIRIAL_FDOTR && no_virial_fdotr_compute == 0) { vflag_fdotr = 1; vflag_global = 0; if (vflag_atom == 0) vflag_either = 0; if (vflag_either == 0 && eflag_either == 0) evflag = 0; }
        else vflag_fdotr = 0;
    }
    void map_element2type(int narg, char** arg, bool update_setflag = true)
    {
        const int ntypes = atom->ntypes;
        if (narg != ntypes) error->all(FLERR, "Number of element to type mappings does not match number of atom types");
        if (elements) { for (int i = 0; i < nelements; i++) delete[] elements[i]; delete[] elements; }
        elements = new char*[ntypes];
        for (int i = 0; i < ntypes; i++) elements[i] = nullptr;
        nelements = 0;
        map[0] = -1;
        for (int i = 1; i <= narg; i++) {
            const std::string entry = arg[i - 1];
            if (entry == "NULL") { map[i] = -1; continue; }
            int j = 0;
            for (; j < nelements; j++) if (entry == elements[j]) break;
            map[i] = j;
            if (j == nelements) elements[nelements++] = utils::strdup(entry);
        }
        if (!update_setflag) return;
        int count = 0;
        for (int i = 1; i <= ntypes; i++) for (int j = i; j <= ntypes; j++) { setflag[i][j] = 0; if (map[i] >= 0 && map[j] >= 0) { setflag[i][j] = 1; count++; } }
        if (count == 0) error->all(FLERR, "Incorrect args for pair coefficients");
    }
    void v_tally_global(const double* v) { for (int k = 0; k < 6; k++) virial[k] += v[k]; }
    void ev_tally_full(int i, double evdwl, double ecoul, double fpair, double dx, double dy, double dz)
    {
        if (eflag_either) {
            if (eflag_global) { eng_vdwl += 0.5 * evdwl; eng_coul += 0.5 * ecoul; }
            if (eflag_atom) eatom[i] += 0.5 * (evdwl + ecoul);
        }
        if (vflag_global) { const double v[6] = {0.5 * dx * dx * fpair, 0.5 * dy * dy * fpair, 0.5 * dz * dz * fpair, 0.5 * dx * dy * fpair, 0.5 * dx * dz * fpair, 0.5 * dy * dz * fpair}; v_tally_global(v); }
    }
    void ev_tally_xyz(int i, int j, int nlocal, int newton_pair, double evdwl, double ecoul, double fx, double fy, double fz, double dx, double dy, double dz)
    {
        const double si = newton_pair || i < nlocal ? 0.5 : 0.0, sj = newton_pair || j < nlocal ? 0.5 : 0.0;
        if (eflag_either) {
            if (eflag_global) { eng_vdwl += (si + sj) * evdwl; eng_coul += (si + sj) * ecoul; }
            if (eflag_atom) { if (si > 0) eatom[i] += si * (evdwl + ecoul); if (sj > 0) eatom[j] += sj * (evdwl + ecoul); }
        }
        if (vflag_global) { const double s = si + sj, v[6] = {s * dx * fx, s * dy * fy, s * dz * fz, s * dx * fy, s * dx * fz, s * dy * fz}; v_tally_global(v); }
    }
    void ev_tally_xyz_full(int i, double evdwl, double ecoul, double fx, double fy, double fz, double dx, double dy, double dz)
    {
        if (eflag_either) {
            if (eflag_global) { eng_vdwl += 0.5 * evdwl; eng_coul += 0.5 * ecoul; }
            if (eflag_atom) eatom[i] += 0.5 * (evdwl + ecoul);
        }
        if (vflag_global) { const double v[6] = {0.5 * dx * fx, 0.5 * dy * fy, 0.5 * dz * fz, 0.5 * dx * fy, 0.5 * dx * fz, 0.5 * dy * fz}; v_tally_global(v); }
    }
    void virial_fdotr_compute()
    {
        for (int i = 0; i < 6; i++) virial[i] = 0.0;
        for (int i = 0; i < atom->nlocal + atom->nghost; i++) { double *x = atom->x[i], *f = atom->f[i]; virial[0] += x[0] * f[0]; virial[1] += x[1] * f[1]; virial[2] += x[2] * f[2]; virial[3] += x[1] * f[0]; virial[4] += x[2] * f[0]; virial[5] += x[2] * f[1]; }
        vflag_fdotr = 0;
    }
};
}  // namespace LAMMPS_NS
