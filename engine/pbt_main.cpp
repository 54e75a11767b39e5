// Runner: forks workers, collects statistics, shrinks failures, writes replay files.
#include "pbt.hpp"
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

namespace pbt {

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static const size_t MAXTAPE = 1 << 17;
enum Status { RUNNING = 0, DONE = 1, FAILED = 2 };
struct Slot {
    volatile int status;
    volatile uint64_t case_idx;
    volatile uint64_t n_done, n_discard, n_nontrivial;
    volatile double case_start;
    volatile uint64_t tape_len;
    char msg[8192];
    char desc[8192];
    uint64_t tape[MAXTAPE];
};

struct Outcome { int kind; std::string msg, desc; std::vector<uint64_t> tape; };  // kind 0 ok 1 fail 2 discard

static Outcome execute(const Prop& p, Src& src, Ctx& ctx, Slot* slot) {
    Outcome o; o.kind = 0;
    if (slot) {
        slot->tape_len = 0;
        src.on_draw = [slot](uint64_t v) { if (slot->tape_len < MAXTAPE) { slot->tape[slot->tape_len] = v; slot->tape_len = slot->tape_len + 1; } };
    }
    try { p.fn(src, ctx); }
    catch (Fail& f) { o.kind = 1; o.msg = f.msg; }
    catch (Discard&) { o.kind = 2; }
    catch (std::exception& e) { o.kind = 1; o.msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { o.kind = 1; o.msg = "unexpected exception of unknown type"; }
    o.desc = ctx.desc; o.tape = src.tape;
    return o;
}

static void put(char* dst, size_t n, const std::string& s) { std::snprintf(dst, n, "%s", s.c_str()); }

static std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

static std::string errfile;   // where a child's stderr goes
static std::string tail_of(const std::string& f) {
    std::ifstream in(f); std::string all((std::istreambuf_iterator<char>(in)), {});
    // keep the informative lines of a sanitizer report
    std::istringstream is(all); std::string line, out; int n = 0;
    while (std::getline(is, line)) {
        if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("Assertion") != std::string::npos
            || line.find("    #") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("SHIM") != std::string::npos || n < 4) { out += line + "\n"; if (++n > 16) break; }
    }
    return out;
}

// run one tape in a fresh child; returns outcome (crash and hang count as failures)
static double g_case_limit = 60;
static Outcome run_child_seq(const Prop& p, const std::vector<std::vector<uint64_t>>& before, const std::vector<uint64_t>& tape, Slot* slot, double limit_factor = 1) {
    slot->status = RUNNING; slot->msg[0] = 0; slot->desc[0] = 0; slot->tape_len = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
        for (auto& b : before) { Src bs(b); Ctx bc; execute(p, bs, bc, nullptr); }
        Src src(tape); Ctx ctx;
        Outcome o = execute(p, src, ctx, slot);
        put(slot->msg, sizeof slot->msg, o.msg); put(slot->desc, sizeof slot->desc, o.desc);
        slot->status = o.kind == 1 ? FAILED : DONE;
        _exit(0);
    }
    double t0 = now(); int st = 0; bool hung = false;
    useconds_t nap = 50;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        if (now() - t0 > g_case_limit * limit_factor) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(nap); if (nap < 5000) nap *= 2;
    }
    Outcome o; o.tape.assign(slot->tape, slot->tape + slot->tape_len);
    if (hung) { o.kind = 1; o.msg = str("no result after ", g_case_limit, " s (such cases take milliseconds)"); return o; }
    if (slot->status == FAILED) { o.kind = 1; o.msg = slot->msg; o.desc = slot->desc; return o; }
    if (slot->status == DONE && WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.kind = 0; o.desc = slot->desc; return o; }
    o.kind = 1;
    o.msg = str("crash: ", WIFSIGNALED(st) ? str("signal ", WTERMSIG(st)) : str("exit status ", WEXITSTATUS(st)), "\n", tail_of(errfile));
    return o;
}

static Outcome run_child(const Prop& p, const std::vector<uint64_t>& tape, Slot* slot) { return run_child_seq(p, {}, tape, slot); }

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, Outcome& bo, Slot* slot, double budget, int& steps) {
    double t0 = now();
    auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    std::set<uint64_t> tried;
    bool hangy = bo.msg.rfind("no result", 0) == 0;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        if (hangy || now() - t0 > budget) return false;
        if (!tried.insert(hash64(cand.data(), cand.size() * 8)).second) return false;
        ++steps;
        Outcome o = run_child(p, cand, slot);
        if (o.kind == 1 && o.msg.rfind("no result", 0) != 0) {
            std::vector<uint64_t> t = o.tape.empty() ? cand : o.tape;
            if (better(t, best)) { best = t; bo = o; return true; }
        }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2);; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size();) {
                auto c = best; c.erase(c.begin() + i, c.begin() + i + chunk);
                if (attempt(c)) progress = true; else i += chunk;
                if (now() - t0 > budget) return best;
            }
            if (chunk == 1) break;
        }
        for (size_t chunk = std::max<size_t>(1, best.size() / 2);; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size(); i += chunk) {
                auto c = best; bool any = false;
                for (size_t k = i; k < i + chunk; ++k) if (c[k]) { c[k] = 0; any = true; }
                if (any && attempt(c)) progress = true;
                if (now() - t0 > budget) return best;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size(); ++i) {
            uint64_t lo = 0;
            while (i < best.size() && best[i] > lo) {
                auto c = best; uint64_t mid = lo + (best[i] - lo) / 2; c[i] = mid;
                if (attempt(c)) progress = true; else lo = mid + 1;
                if (now() - t0 > budget) return best;
            }
        }
    }
    return best;
}

static void write_replay(const std::string& path, const std::string& harness, const std::string& prop, const std::vector<uint64_t>& tape, const Outcome& o, uint64_t seed, uint64_t idx, const std::vector<std::vector<uint64_t>>& before = {}) {
    std::ofstream f(path);
    // "before": cases that have to run earlier in the same process (empty for ordinary failures)
    f << "{\"harness\": \"" << harness << "\", \"test\": \"" << prop << "\", \"seed\": " << seed << ", \"case\": " << idx << ",\n \"message\": \"" << json_escape(o.msg) << "\",\n \"case_description\": \"" << json_escape(o.desc) << "\",\n";
    if (!before.empty()) {
        f << " \"before\": [";
        for (size_t b = 0; b < before.size(); ++b) { f << (b ? ",\n" : "") << "["; for (size_t i = 0; i < before[b].size(); ++i) f << (i ? "," : "") << before[b][i]; f << "]"; }
        f << "],\n";
    }
    f << " \"tape\": [";
    for (size_t i = 0; i < tape.size(); ++i) f << (i ? "," : "") << tape[i];
    f << "]}\n";
}

static std::vector<uint64_t> read_tape(const std::string& path) {
    std::ifstream in(path); std::string all((std::istreambuf_iterator<char>(in)), {});
    std::vector<uint64_t> t;
    size_t p = all.rfind("\"tape\"");
    if (p == std::string::npos) return t;
    p = all.find('[', p) + 1;
    while (p < all.size() && all[p] != ']') { char* e; t.push_back(strtoull(&all[p], &e, 10)); p = e - all.data(); while (p < all.size() && (all[p] == ',' || all[p] == ' ')) ++p; }
    return t;
}

static Outcome run_seeded(const Prop& p, uint64_t cs, Slot* slot) {
    slot->status = RUNNING; slot->tape_len = 0;
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
        Src src(cs); Ctx ctx; execute(p, src, ctx, slot); _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    Outcome o; o.kind = 0; o.tape.assign(slot->tape, slot->tape + slot->tape_len); return o;
}

static std::vector<std::vector<uint64_t>> read_before(const std::string& path) {
    std::ifstream in(path); std::string all((std::istreambuf_iterator<char>(in)), {});
    std::vector<std::vector<uint64_t>> r;
    size_t p = all.rfind("\n \"before\"");
    if (p == std::string::npos) return r;
    p = all.find('[', p) + 1;
    while (p < all.size() && all[p] != ']') {
        if (all[p] == '[') {
            ++p; r.emplace_back();
            while (p < all.size() && all[p] != ']') { if (all[p] == ',') { ++p; continue; } char* e; r.back().push_back(strtoull(&all[p], &e, 10)); p = e - all.data(); }
        }
        ++p;
    }
    return r;
}

int run_main(int argc, char** argv) {
    std::string name, out, replay, replay_out, harness = "harness", tmp = "/tmp";
    uint64_t seed = 1, cases = 1000; int workers = 8; double tlimit = 300, shrink_budget = 60;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") name = next(); else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(next().c_str(), 0, 10); else if (a == "--workers") workers = atoi(next().c_str());
        else if (a == "--time") tlimit = atof(next().c_str()); else if (a == "--out") out = next();
        else if (a == "--replay") replay = next(); else if (a == "--replay-out") replay_out = next();
        else if (a == "--harness") harness = next(); else if (a == "--tmp") tmp = next();
        else if (a == "--shrink") shrink_budget = atof(next().c_str()); else if (a == "--case-limit") g_case_limit = atof(next().c_str());
        else if (a == "--list") list = true;
    }
    if (list) { for (auto& p : registry()) std::cout << p.name << "\n"; return 0; }
    const Prop* prop = nullptr;
    for (auto& p : registry()) if (p.name == name) prop = &p;
    if (!prop) { std::cerr << "no such property: " << name << "\n"; return 2; }
    if (workers < 1) workers = 1;
    if (before_fork()) before_fork()();
    errfile = str(tmp, "/pbt_err_", getpid());
    Slot* slots = (Slot*)mmap(0, sizeof(Slot) * (workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (slots == MAP_FAILED) { perror("mmap"); return 2; }
    Slot* extra = slots + workers;

    if (!replay.empty()) {
        auto tape = read_tape(replay);
        auto before = read_before(replay);
        Outcome o = run_child_seq(*prop, before, tape, extra, 1 + (double)before.size());
        unlink(errfile.c_str());
        if (o.kind == 1) { std::cout << "REPLAY FAILS: " << o.msg << "\n" << o.desc << "\n"; return 1; }
        std::cout << "REPLAY PASSES\n" << o.desc << "\n"; return 0;
    }

    double t0 = now();
    uint64_t base = hash64(name.data(), name.size()) ^ (seed * 0x9e3779b97f4a7c15ull);
    std::vector<pid_t> pids(workers, 0);
    auto statfile = [&](int w) { return str(tmp, "/pbt_stat_", getpid(), "_", w); };
    std::string mypid = str(getpid());
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < workers; ++w) {
        slots[w].status = RUNNING; slots[w].case_start = now();
        std::string sf = statfile(w), ef = str(errfile, "_", w);
        pid_t pid = fork();
        if (pid == 0) {
            Slot* sl = slots + w;
            int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
            std::unordered_set<uint64_t> seen; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
            for (uint64_t i = w; i < cases; i += workers) {
                if (now() - t0 > tlimit) break;
                sl->case_idx = i; sl->case_start = now();
                uint64_t cs = base + i * 0xd1342543de82ef95ull; splitmix(cs);
                Src src(cs); Ctx ctx;
                Outcome o = execute(*prop, src, ctx, sl);
                if (o.kind == 1) {
                    put(sl->msg, sizeof sl->msg, o.msg); put(sl->desc, sizeof sl->desc, o.desc);
                    sl->status = FAILED; _exit(0);
                }
                sl->n_done = sl->n_done + 1;
                if (o.kind == 2) { sl->n_discard = sl->n_discard + 1; continue; }
                for (auto& l : ctx.labels) labels[l]++;
                if (ctx.nontrivial) {
                    if (seen.insert(hash64(o.tape.data(), o.tape.size() * 8)).second) sl->n_nontrivial = sl->n_nontrivial + 1;
                    if (samples.size() < 2) samples.push_back(o.desc.substr(0, 900));
                }
            }
            std::ofstream f(sf);
            for (auto& [l, n] : labels) f << "L " << n << " " << l << "\n";
            for (auto& s2 : samples) f << "S " << json_escape(s2) << "\n";
            f.close();
            sl->status = DONE; _exit(0);
        }
        pids[w] = pid;
    }
    // supervise
    int failed_w = -1; std::string crash_msg; std::vector<uint64_t> ftape; uint64_t fidx = 0;
    int alive = workers;
    while (alive > 0 && failed_w < 0) {
        int st; pid_t pid = waitpid(-1, &st, WNOHANG);
        if (pid > 0) {
            int w = -1; for (int k = 0; k < workers; ++k) if (pids[k] == pid) w = k;
            if (w < 0) continue;
            pids[w] = 0; --alive;
            if (slots[w].status == DONE && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            failed_w = w;
            if (slots[w].status != FAILED)
                crash_msg = str("crash: ", WIFSIGNALED(st) ? str("signal ", WTERMSIG(st)) : str("exit status ", WEXITSTATUS(st)), "\n", tail_of(str(errfile, "_", w)));
        } else {
            for (int k = 0; k < workers; ++k)
                if (pids[k] && slots[k].status == RUNNING && now() - slots[k].case_start > g_case_limit) { failed_w = k; crash_msg = str("no result after ", g_case_limit, " s (such cases take milliseconds)"); }
            usleep(2000);
        }
    }
    int rc = 0; Outcome fo; int steps = 0;
    if (failed_w >= 0) {
        Slot& sl = slots[failed_w];
        ftape.assign(sl.tape, sl.tape + sl.tape_len); fidx = sl.case_idx;
        fo.kind = 1; fo.msg = sl.status == FAILED ? std::string(sl.msg) : crash_msg; fo.desc = sl.desc; fo.tape = ftape;
    }
    for (int k = 0; k < workers; ++k) if (pids[k]) { kill(pids[k], SIGKILL); int st; waitpid(pids[k], &st, 0); }
    if (failed_w >= 0) {
        // confirm in fresh processes before believing it
        Outcome o = run_child(*prop, ftape, extra), first = fo;
        // A data race seen by the thread sanitizer is a fact about the code even if the threads do not meet again
        const bool race = fo.msg.find("ThreadSanitizer: data race") != std::string::npos;
        for (int k = 0; race && o.kind != 1 && k < 10; ++k) o = run_child(*prop, ftape, extra);
        auto seen_race = [&] {
            rc = 1; fo = first; fo.msg = "(seen once, not reproduced on demand) " + first.msg;
            if (!replay_out.empty()) write_replay(replay_out, harness, name, ftape, fo, seed, fidx);
            std::cout << "FAILED " << name << ": " << fo.msg << "\n" << fo.desc << "\n";
        };
        if (o.kind != 1 && race) seen_race();
        else if (o.kind != 1) {
            // It depends on earlier cases of that worker (process-wide state in the code under test):
            // reproduce the history, and keep the shortest suffix of it that still fails.
            std::vector<std::vector<uint64_t>> hist, bestb; Outcome ho; bool found = false;
            for (uint64_t i = failed_w; i < fidx; i += workers) {
                uint64_t cs = base + i * 0xd1342543de82ef95ull; splitmix(cs);
                // the tape of case i: run it in a child of its own to record it
                hist.emplace_back(); hist.back().push_back(cs);
            }
            auto tapes_of = [&](size_t k) {   // the last k cases before the failing one, as tapes
                std::vector<std::vector<uint64_t>> b;
                for (size_t i = hist.size() - k; i < hist.size(); ++i) { Outcome r = run_seeded(*prop, hist[i][0], extra); b.push_back(r.tape); }
                return b;
            };
            double hb = now();
            for (size_t k = 1; !found && now() - hb < 90; k *= 4) {
                if (k > hist.size()) k = hist.size();
                if (k == 0) break;
                auto b = tapes_of(k);
                ho = run_child_seq(*prop, b, ftape, extra, 3);
                if (ho.kind == 1) { bestb = b; found = true; }
                if (k == hist.size()) break;
            }
            for (bool prog = found; prog && now() - hb < 120;) {   // drop cases that are not needed
                prog = false;
                for (size_t chunk = std::max<size_t>(1, bestb.size() / 2);; chunk /= 2) {
                    for (size_t i = 0; i + chunk <= bestb.size() && now() - hb < 120;) {
                        auto c = bestb; c.erase(c.begin() + i, c.begin() + i + chunk);
                        Outcome r = run_child_seq(*prop, c, ftape, extra, 3);
                        if (r.kind == 1) { bestb = c; ho = r; prog = true; } else i += chunk;
                    }
                    if (chunk == 1) break;
                }
            }
            int again = 0;
            if (found) for (int k = 0; k < 3; ++k) if (run_child_seq(*prop, bestb, ftape, extra, 3).kind == 1) ++again;
            if (again == 3) {
                rc = 1; fo = ho; fo.msg = str("after ", bestb.size(), " earlier case(s) in the same process: ", ho.msg);
                if (!replay_out.empty()) write_replay(replay_out, harness, name, ftape, fo, seed, fidx, bestb);
                std::cout << "FAILED " << name << ": " << fo.msg << "\n" << fo.desc << "\n";
            } else {
                std::cout << "UNREPRODUCIBLE " << fo.msg << "\n";
                rc = 3;
            }
        } else {
            fo = o;
            if (fo.tape.empty()) fo.tape = ftape;
            Outcome unshrunk = fo;
            auto best = shrink(*prop, fo.tape, fo, extra, shrink_budget, steps);
            int again = 0;
            int need = fo.msg.rfind("no result", 0) == 0 ? 1 : 3;
            for (int k = 0; k < need; ++k) { Outcome r = run_child(*prop, best, extra); if (r.kind == 1) ++again; }
            if (again < need && !race) {   // e.g. reads of memory that happens to hold other values in each process: judge the case as first found
                int hits = 0; for (int k = 0; k < 12 && hits < 4; ++k) { Outcome r = run_child(*prop, unshrunk.tape, extra); if (r.kind == 1) { ++hits; fo = r; } }
                if (hits >= 3) { again = need; best = unshrunk.tape; fo.msg += " (not in every run of this case)"; }
            }
            if (again < need && race) seen_race();
            else if (again < need) { std::cout << "UNREPRODUCIBLE after shrinking (" << again << "/" << need << "): " << fo.msg << "\n"; rc = 3; }
            else {
                rc = 1;
                if (!replay_out.empty()) write_replay(replay_out, harness, name, best, fo, seed, fidx);
                std::cout << "FAILED " << name << ": " << fo.msg << "\n" << fo.desc << "\n(case " << fidx << " of seed " << seed << ", shrunk in " << steps << " steps to " << best.size() << " choices)\n";
            }
        }
    }
    // statistics
    uint64_t done = 0, disc = 0, nt = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
    for (int w = 0; w < workers; ++w) {
        done += slots[w].n_done; disc += slots[w].n_discard; nt += slots[w].n_nontrivial;
        std::ifstream f(statfile(w)); std::string line;
        while (std::getline(f, line)) {
            if (line[0] == 'L') { char* e; uint64_t n = strtoull(line.c_str() + 2, &e, 10); labels[e + 1] += n; }
            else if (samples.size() < 4) samples.push_back(line.substr(2));
        }
        f.close(); unlink(statfile(w).c_str()); unlink(str(errfile, "_", w).c_str());
    }
    unlink(errfile.c_str());
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"test\": \"" << name << "\", \"evaluations\": " << done - disc << ", \"discarded\": " << disc << ", \"distinct_nontrivial\": " << nt
          << ", \"requested\": " << cases << ", \"wall_s\": " << now() - t0 << ", \"rule\": \"" << json_escape(prop->rule) << "\", \"rc\": " << rc << ", \"shrink_steps\": " << steps
          << ", \"message\": \"" << json_escape(fo.msg) << "\", \"labels\": {";
        bool first = true;
        for (auto& [l, n] : labels) { f << (first ? "" : ", ") << "\"" << json_escape(l) << "\": " << n; first = false; }
        f << "}, \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? ", " : "") << "\"" << samples[i] << "\"";
        f << "]}\n";
    }
    return rc;
}
}  // namespace pbt

#ifndef PBT_FUZZER
int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#else
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    static const pbt::Prop* prop = nullptr;
    if (!prop) { const char* n = getenv("PBT_PROP"); for (auto& p : pbt::registry()) if (p.name == n) prop = &p; if (!prop) abort(); }
    std::vector<uint64_t> tape;   // one byte: 0..223 literal; 224.. : next 8 bytes
    for (size_t i = 0; i < size;) {
        uint8_t b = data[i++];
        if (b < 224) tape.push_back(b);
        else { uint64_t v = 0; for (int k = 0; k < 7 && i < size; ++k) v = v << 8 | data[i++]; tape.push_back(v); }
    }
    pbt::Src src(tape); pbt::Ctx ctx;
    try { prop->fn(src, ctx); }
    catch (pbt::Discard&) {}
    catch (pbt::Fail& f) {
        if (const char* o = getenv("PBT_REPLAY_OUT")) { pbt::Outcome oc; oc.msg = f.msg; oc.desc = ctx.desc; pbt::write_replay(o, getenv("PBT_HARNESS") ? getenv("PBT_HARNESS") : "", prop->name, src.tape, oc, 0, 0); }
        fprintf(stderr, "PROPERTY FAILED: %s\n", f.msg.c_str()); abort();
    }
    return 0;
}
#endif
