// The Python side of /repo inside the harness: the bindings are linked in, the package is imported from /repo's sources.
#pragma once
#include <pybind11/embed.h>
#include <pybind11/complex.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <cmath>
#include <cstdlib>
#include <memory>
#include "mace_model.hpp"
namespace py = pybind11;
using namespace pybind11::literals;
extern "C" PyObject* PyInit_symmetrix();

namespace pyh {
using namespace pbt;
using namespace mm;
using std::vector;
struct Files { ~Files() { drop_mem_files(); } };

struct World {
    py::module_ np, ase, json, pkg, core;
    py::object Atoms, Symmetrix, stub, stub_ns;
    std::string import_error;
};
inline void (*&before_import())() { static void (*f)() = nullptr; return f; }   // prepares the modules the package imports, in place of the recording stand-in
inline World*& world() { static World* w = nullptr; return w; }

inline void start_python() {
    setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONNOUSERSITE", "1", 1);
    static py::scoped_interpreter* guard = nullptr;
    guard = new py::scoped_interpreter(false);   // never torn down: the workers end with _exit
    const char* repo = getenv("VERIF_REPO");
    std::string src = std::string(repo ? repo : "/repo") + "/symmetrix/source";
    world() = new World;
    World& w = *world();
    py::exec("import logging, sys, warnings\nlogging.disable(logging.CRITICAL)\nwarnings.simplefilter('ignore')\nsys.dont_write_bytecode = True");
    auto sys = py::module_::import("sys");
    w.np = py::module_::import("numpy"); w.np.attr("seterr")("all"_a = "ignore"); w.ase = py::module_::import("ase"); w.json = py::module_::import("json");
    sys.attr("path").attr("insert")(0, src);
    // the compiled module of this harness in place of the installed one
    w.core = py::reinterpret_steal<py::module_>(PyInit_symmetrix());
    w.core.attr("__name__") = "symmetrix.symmetrix";
    sys.attr("modules")["symmetrix.symmetrix"] = w.core;
    // the conversion of torch models needs torch and mace: a recording stand-in
    py::dict ns; w.stub_ns = ns;
    py::exec(R"(
import types
calls = []
answer = [None]
def extract_mace_data(*args, **kwargs):
    calls.append((args, kwargs))
    if isinstance(answer[0], Exception): raise answer[0]
    return answer[0]
stub = types.ModuleType('symmetrix.extract_mace_data')
stub.extract_mace_data = extract_mace_data
)", ns);
    if (before_import()) before_import()(); else sys.attr("modules")["symmetrix.extract_mace_data"] = ns["stub"];
    w.Atoms = w.ase.attr("Atoms");
    try { w.pkg = py::module_::import("symmetrix"); w.Symmetrix = w.pkg.attr("Symmetrix"); }
    catch (py::error_already_set& e) { w.import_error = e.what(); }
}
inline World& get() { if (!world()->import_error.empty()) fail("the package cannot be imported: " + world()->import_error); return *world(); }
struct AtStart { AtStart() { before_fork() = start_python; } };

template <class F> bool raises(F&& f, std::string* what = nullptr) { try { f(); return false; } catch (py::error_already_set& e) { if (what) *what = e.what(); return true; } }
inline vector<double> doubles(py::handle h) { py::object a = world()->np.attr("asarray")(h, "dtype"_a = "float64").attr("reshape")(-1).attr("tolist")(); return a.cast<vector<double>>(); }
}  // namespace pyh
