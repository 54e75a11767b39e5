// install.sh of pair_symmetrix run in scratch LAMMPS trees; the trees are then configured and built with cmake.
// The stand-in LAMMPS tree has the layout install.sh sees (src, src/KOKKOS, cmake/CMakeLists.txt with a "lammps" library in
// the LAMMPS_Targets export set); the checkouts hold the real install.sh with small stand-in sources that report their checkout.
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "pbt.hpp"
using namespace pbt;
namespace fs = std::filesystem;
using std::string;
using std::vector;

namespace {
string repo() { const char* r = getenv("VERIF_REPO"); return r ? r : "/repo"; }
void put(const fs::path& p, const string& t) { std::ofstream o(p, std::ios::binary); o << t; }
string get(const fs::path& p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
// runs a command as an unprivileged user (where that user exists) in the scratch directory, with output to a file
int run(const fs::path& cwd, const vector<string>& a, const fs::path& log) {
    pid_t p = fork();
    if (p == 0) {
        if (chdir(cwd.c_str())) _exit(120);
        int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666), nul = open("/dev/null", O_RDONLY); dup2(nul, 0); dup2(fd, 1); dup2(fd, 2);
        if (getuid() == 0) { if (setgid(65534) == 0) (void)!setuid(65534); }
        setenv("PWD", cwd.c_str(), 1); setenv("HOME", cwd.c_str(), 1); setenv("TMPDIR", log.parent_path().c_str(), 1); unsetenv("CDPATH"); unsetenv("BASH_ENV"); unsetenv("ENV"); unsetenv("CXXFLAGS"); unsetenv("MAKEFLAGS"); unsetenv("CMAKE_GENERATOR");
        vector<char*> v; for (auto& x : a) v.push_back((char*)x.c_str()); v.push_back(nullptr);
        execvp(v[0], v.data()); _exit(122);
    }
    int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 200;
}
struct Scratch {
    fs::path d;
    Scratch() { const char* t = getenv("TMPDIR"); string s = string(t ? t : "/tmp") + "/inst_XXXXXX"; if (!mkdtemp(s.data())) abort(); d = fs::canonical(s); chmod(d.c_str(), 0755); }
    ~Scratch() { std::error_code e; fs::remove_all(d, e); }
};
const char* FILES[4][2] = {{"src", "pair_symmetrix_mace.h"}, {"src", "pair_symmetrix_mace.cpp"}, {"src/KOKKOS", "pair_symmetrix_mace_kokkos.h"}, {"src/KOKKOS", "pair_symmetrix_mace_kokkos.cpp"}};
string stub(int f, int id) {
    switch (f) {
    case 0: return str("#pragma once\nint pair_plain();\nconst int plain_header = ", id, ";\n");
    case 1: return str("#include \"pair_symmetrix_mace.h\"\n#include \"which.hpp\"\nint pair_plain() { return ", id, " + 10 * plain_header + 100 * symmetrix_which() + 1000 * which_header; }\n");
    case 2: return str("#pragma once\nint pair_kokkos();\nconst int kokkos_header = ", id, ";\n");
    default: return str("#include \"pair_symmetrix_mace_kokkos.h\"\n#include \"which.hpp\"\nint pair_kokkos() { return ", id, " + 10 * kokkos_header + 100 * symmetrix_which() + 1000 * which_header; }\n");
    }
}
void make_checkout(const fs::path& c, int id) {
    fs::create_directories(c / "pair_symmetrix"); fs::create_directories(c / "libsymmetrix/source");
    fs::copy_file(repo() + "/pair_symmetrix/install.sh", c / "pair_symmetrix/install.sh"); fs::permissions(c / "pair_symmetrix/install.sh", fs::perms(0755));
    for (int f = 0; f < 4; ++f) put(c / "pair_symmetrix" / FILES[f][1], stub(f, id));
    put(c / "libsymmetrix/CMakeLists.txt", "cmake_minimum_required(VERSION 3.20)\nproject(LibSymmetrix)\nadd_library(symmetrix source/which.cpp)\ntarget_include_directories(symmetrix PUBLIC source)\n");
    put(c / "libsymmetrix/source/which.hpp", str("#pragma once\nint symmetrix_which();\nconst int which_header = ", id, ";\n"));
    put(c / "libsymmetrix/source/which.cpp", str("#include \"which.hpp\"\nint symmetrix_which() { return ", id, "; }\n"));
}
const char* NAMES[] = {"sym", "a b", "x.y-z_1", "c++ (1)", "d'e", "f&g", "@2", "h=i,j", "~k", "\xC3\xA9t\xC3\xA9", "libsymmetrix", "-v"};
const char* EXTRA[] = {"# symmetrix comes last\n", "set(MY_OPTION \"a b\")\n", "\n\n", "set(X \"back\\\\slash \\$ {}\")\n", "#-n\n", "if(FALSE)\n  target_link_libraries(lammps PRIVATE other)\nendif()\n", "option(SYMMETRIX_KOKKOS \"\" ON)\n", "message(STATUS \"* %s %d\")\n", "target_include_directories(lammps PRIVATE ${CMAKE_CURRENT_BINARY_DIR})\n",
    // instructions of the tree's own that resemble those of the installation
    "if(FALSE)\ntarget_link_libraries(lammps PRIVATE symmetrix_extras)\nendif()\n", "if(FALSE)\ntarget_link_libraries(lammps PRIVATE nonsymmetrix)\nendif()\n", "if(FALSE)\ntarget_include_directories(lammps PRIVATE ${D}/libsymmetrix/source/extras)\nendif()\n", "if(FALSE)\nadd_subdirectory(${D}/libsymmetrix libsymmetrix_extras)\nendif()\n", "if(FALSE)\ninstall(TARGETS symmetrix_extras EXPORT LAMMPS_Targets)\nendif()\n", "if(FALSE)\ntarget_link_libraries(other PRIVATE symmetrix)\nendif()\n"};
vector<string> lines(const string& t) { vector<string> o; std::istringstream i(t); for (string l; std::getline(i, l);) if (!l.empty()) o.push_back(l); return o; }   // blank lines do not matter
}  // namespace

PBT_PROPERTY(install_histories, "install.sh run 1-3 times, from one or two checkouts, on a scratch LAMMPS tree (generated directory names with spaces and punctuation, relative, absolute, slash-terminated and linked paths, called from its own or another directory, leftovers of an earlier installation or of one by an older version, local edits of the build instructions between runs): every run succeeds, the four files are those of the last checkout, the lines of the tree's own build instructions are all kept in order, and the tree configures, builds and runs with the library of the last checkout; non-trivial: more than one run, or a directory name with a special character") {
    Scratch sc; fs::path top = sc.d, log = top / "log.txt"; put(log, "");
    const int NN = sizeof NAMES / sizeof *NAMES; auto name = [&](int salt) { int k = s.integer(0, NN - 1); if (s.chance(40)) k = 0; return string(k == NN - 1 ? "v" : "") + NAMES[k] + (salt ? std::to_string(salt) : ""); };
    bool nested = s.chance(20); string mid = s.chance(40) ? name(0) : "w"; fs::create_directories(top / mid);
    int nc = s.chance(35) ? 2 : 1; vector<fs::path> co; bool special = false;
    for (int c = 0; c < nc; ++c) { co.push_back(top / mid / name(c + 1)); make_checkout(co[c], c + 1); }
    fs::path lmp = (nested ? co[0] : top / mid) / name(7); fs::create_directories(lmp / "src/KOKKOS"); fs::create_directories(lmp / "cmake");
    for (auto& p : {co[0], co.back(), lmp}) for (char ch : p.string().substr(top.string().size())) if (!isalnum((unsigned char)ch) && ch != '/') special = true;
    put(lmp / "src/main.cpp", "#include <cstdio>\nint pair_plain(); int pair_kokkos();\nint main() { std::printf(\"%d %d\", pair_plain(), pair_kokkos()); }\n"); put(lmp / "src/lammps.cpp", "int lammps_version() { return 1; }\n");
    string own = "cmake_minimum_required(VERSION 3.20)\nproject(lammps CXX)\nget_filename_component(D ${CMAKE_CURRENT_SOURCE_DIR}/.. ABSOLUTE)\nfile(GLOB SRC ${D}/src/[^m]*.cpp ${D}/src/KOKKOS/*.cpp)\nadd_library(lammps ${SRC})\ntarget_include_directories(lammps PRIVATE ${D}/src ${D}/src/KOKKOS)\nadd_executable(lmp ${D}/src/main.cpp)\ntarget_link_libraries(lmp PRIVATE lammps)\n"
                 "install(TARGETS lammps EXPORT LAMMPS_Targets DESTINATION lib)\ninstall(EXPORT LAMMPS_Targets FILE T.cmake DESTINATION share)\n";
    for (int k = s.integer(0, 2); k > 0; --k) own += EXTRA[s.integer(0, (int)(sizeof EXTRA / sizeof *EXTRA) - 1)];
    if (s.chance(30) && own.back() == '\n') own.pop_back();
    string before = own;
    if (s.chance(15)) { ctx.label("installed by an older version"); ctx.describe("installed by an older version "); string p = (co[0] / "pair_symmetrix").string(); before += str("\nadd_subdirectory(", p, "/../libsymmetrix libsymmetrix)\ntarget_include_directories(lammps PRIVATE ", p, "/../libsymmetrix/source)\ntarget_link_libraries(lammps PRIVATE symmetrix)\ninstall(TARGETS symmetrix EXPORT LAMMPS_Targets)\n\n"); }
    put(lmp / "cmake/CMakeLists.txt", before);
    if (s.chance(25)) { int f = s.integer(0, 3); auto p = lmp / FILES[f][0] / FILES[f][1]; int kind = s.integer(0, 2); ctx.label("leftover"); if (kind == 0) put(p, "#error stale\n"); else fs::create_symlink(kind == 1 ? fs::path("/nonexistent/x.cpp") : co.back() / "pair_symmetrix" / FILES[f][1], p); ctx.describe("leftover ", FILES[f][1], " "); }
    ctx.describe("checkouts ", nc, " at [", co[0].string().substr(top.string().size()), "]", nc > 1 ? str(" [", co[1].string().substr(top.string().size()), "]") : string(), " lammps [", lmp.string().substr(top.string().size()), "]");
    auto give = [&] { if (getuid() == 0) { lchown(top.c_str(), 65534, 65534); for (auto& e : fs::recursive_directory_iterator(top)) lchown(e.path().c_str(), 65534, 65534); } };
    int runs = s.integer(1, 3), last = 0; bool update = false; ctx.nontrivial = runs > 1 || special; if (runs > 1) ctx.label("run again"); if (nc > 1) ctx.label("two checkouts"); if (special) ctx.label("special characters");
    for (int r = 0; r < runs; ++r) {
        last = s.integer(0, nc - 1); fs::path script = co[last] / "pair_symmetrix", cwd = script; int form = s.integer(0, 3); bool elsewhere = s.chance(25);
        if (elsewhere) cwd = s.boolean() ? co[last] : top;
        string arg = form == 0 ? fs::relative(lmp, cwd).string() : form == 1 ? lmp.string() : form == 2 ? fs::relative(lmp, cwd).string() + "/" : string();
        if (form == 3) { fs::path l = top / "link to lammps"; if (!fs::is_symlink(l)) fs::create_directory_symlink(lmp, l); arg = l.string(); }
        string cmd = elsewhere ? (s.boolean() ? (script / "install.sh").string() : "./" + fs::relative(script / "install.sh", cwd).string()) : "./install.sh";
        ctx.describe(" | run from checkout ", last, " cwd=", cwd == script ? "its own" : cwd.string().substr(top.string().size()) + "/", " path=", form == 0 ? "relative" : form == 1 ? "absolute" : form == 2 ? "relative/" : "link");
        if (elsewhere) ctx.label("called from elsewhere");
        give(); int rc = run(cwd, {"bash", cmd, arg}, log); if (rc > 119 && rc < 123) throw Discard{};
        check(rc == 0, str("install.sh exited with ", rc, ": ", get(log).substr(0, 300)));
        if (r + 1 < runs && s.chance(40)) {
            int k = s.integer(0, 1);
            if (k == 0) { string add = str("\n# local edit ", r, "\nset(LOCAL", r, " 1)\n"); auto t = get(lmp / "cmake/CMakeLists.txt"); put(lmp / "cmake/CMakeLists.txt", t + add); own += add; ctx.describe(" | edited"); ctx.label("edited"); }
            else { put(lmp / "cmake/CMakeLists.txt", own); ctx.describe(" | restored"); ctx.label("restored"); }
        }
    }
    if (s.chance(30)) { for (int f = 0; f < 4; ++f) put(co[last] / "pair_symmetrix" / FILES[f][1], stub(f, last + 1) + "// updated\n"); update = true; }   // an update of the checkout reaches the tree
    for (int f = 0; f < 4; ++f) { auto p = lmp / FILES[f][0] / FILES[f][1]; check(fs::exists(p), str(FILES[f][1], " is missing or leads nowhere")); check(get(p) == get(co[last] / "pair_symmetrix" / FILES[f][1]), str(FILES[f][1], " is not that of the checkout last installed", update ? " and since updated" : "")); check(get(p).find(stub(f, last + 1)) == 0, str(FILES[f][1], " was changed")); }
    { auto want = lines(own), got = lines(get(lmp / "cmake/CMakeLists.txt")); size_t k = 0; for (auto& l : got) if (k < want.size() && (l == want[k])) ++k; while (k < want.size() && want[k].empty()) ++k; check(k == want.size(), str("the build instructions lost the line: ", k < want.size() ? want[k] : "")); }
    fs::create_directory(top / "b"); give();
    int rc = run(top, {"cmake", "-G", "Ninja", "-S", (lmp / "cmake").string(), "-B", (top / "b").string(), "-DCMAKE_CXX_COMPILER_WORKS=1", "-DCMAKE_C_COMPILER_WORKS=1", "-DCMAKE_CXX_FLAGS=-O0"}, log); if (rc > 119 && rc < 123) throw Discard{};
    check(rc == 0, str("the tree does not configure: ", get(log).substr(0, 700)));
    rc = run(top, {"cmake", "--build", (top / "b").string(), "-j", "1"}, log); { string t = get(log); check(rc == 0, str("the tree does not build: ", t.substr(t.size() > 700 ? t.size() - 700 : 0))); }
    rc = run(top, {(top / "b/lmp").string()}, log); string want = str((last + 1) * 1111, " ", (last + 1) * 1111); check(rc == 0 && get(log) == want, str("the program built from the tree reports ", get(log), ", expected ", want));
}

PBT_PROPERTY(install_refuses, "install.sh called with no or several arguments, or with a path that is not a LAMMPS tree (absent, empty, without src or without cmake): it fails with a message and leaves the build instructions of every tree as they were; non-trivial: all") {
    Scratch sc; fs::path top = sc.d, log = top / "log.txt"; put(log, ""); make_checkout(top / "sym", 1); ctx.nontrivial = true;
    auto tree = [&](const string& n) { fs::create_directories(top / n / "src/KOKKOS"); fs::create_directories(top / n / "cmake"); put(top / n / "cmake/CMakeLists.txt", str("# ", n, "\n")); };
    tree("one"); tree("two"); tree("three"); fs::create_directories(top / "empty"); fs::remove_all(top / "two/src"); fs::remove_all(top / "three/cmake");
    vector<string> paths{(top / "one").string(), (top / "two").string(), (top / "three").string(), (top / "empty").string(), (top / "absent").string(), "../../one", "../../two", "../../absent"}, args{"bash", "./install.sh"};
    int n = s.integer(0, 3); for (int i = 0; i < n; ++i) args.push_back(paths[s.integer(n == 1 ? 1 : 0, 7)]);
    if (n == 1 && args.back() == paths[5]) args.back() = "absent";
    ctx.describe(n, " arguments"); for (size_t i = 2; i < args.size(); ++i) ctx.describe(" [", args[i].find(top.string()) == 0 ? args[i].substr(top.string().size()) : args[i], "]");
    if (getuid() == 0) { lchown(top.c_str(), 65534, 65534); for (auto& e : fs::recursive_directory_iterator(top)) lchown(e.path().c_str(), 65534, 65534); }
    int rc = run(top / "sym/pair_symmetrix", args, log); if (rc > 119 && rc < 123) throw Discard{};
    check(rc != 0, "the call was accepted"); check(!get(log).empty(), "no message");
    for (string t : {"one", "two"}) check(get(top / t / "cmake/CMakeLists.txt") == str("# ", t, "\n"), str("the build instructions of ", t, " were changed"));
}
