// simdrv gen|run|search
#include "scn.h"
#include "gen.h"
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static string esc(const string &s) {
    string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) o += fmt("\\u%04x", c); else o += c; } return o;
}
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static PropDef *find_prop(const string &id) { for (auto &p : props()) if (p.id == id) return &p; return nullptr; }

static string variant = "plain", vdir, trace_path, states_path; static bool keep = false; static string asan_lib;

static string mk_scratch() {
    for (string base : {"/dev/shm", "/tmp"}) { string t = base + "/psim_XXXXXX"; vector<char> b(t.begin(), t.end()); b.push_back(0); if (mkdtemp(b.data())) return b.data(); }
    perror("mkdtemp"); exit(3);
}
static string result_json(Scn *s, Plan &pl, double t0) {
    World &w = s->w;
    string o = fmt("{\"prop\":\"%s\",\"seed\":%lu,\"hash\":\"%016lx\",\"sim_us\":%ld,\"wall\":%.3f,\"rpcs\":%lu,\"steps\":%lu,\"plan_ops\":%zu", pl.prop.c_str(), (unsigned long) pl.seed, (unsigned long) w.hash, (long) w.now, wall() - t0, (unsigned long) w.total_rpcs, (unsigned long) w.steps, pl.ops.size());
    auto mp = [&](const char *n, map<string, uint64_t> &m) { o += fmt(",\"%s\":{", n); bool f = true; for (auto &k : m) { o += fmt("%s\"%s\":%lu", f ? "" : ",", esc(k.first).c_str(), (unsigned long) k.second); f = false; } o += "}"; };
    mp("faults", w.faults); mp("ops", w.ops); mp("stat", s->stat);
    o += fmt(",\"nstates\":%zu", w.states.size());
    if (!states_path.empty()) if (FILE *f = fopen(states_path.c_str(), "a")) { for (uint64_t x : w.states) { uint32_t v = (uint32_t) (x ^ x >> 32); fwrite(&v, 4, 1, f); } fclose(f); }
    int n = 0;
    o += ",\"viol\":["; for (auto &v : w.viol) { o += fmt("%s{\"prop\":\"%s\",\"what\":\"%s\",\"detail\":\"%s\"}", n++ ? "," : "", v.prop.c_str(), esc(v.what).c_str(), esc(v.detail.substr(0, 1500)).c_str()); } o += "]}";
    return o;
}
// runs one plan in this process; the caller forks when it wants isolation
static string run_plan(Plan pl, bool trace, const string &scratch) {
    double t0 = wall(); PropDef *d = find_prop(pl.prop); if (!d) { fprintf(stderr, "no scenario for %s\n", pl.prop.c_str()); exit(3); }
    Cfg c; c.scratch = scratch; c.libsim = scratch + "/libsim.so"; c.trace = trace; c.trace_path = trace_path; c.keep = keep; c.asan = variant == "asan"; c.asan_lib = asan_lib;
    if (symlink((vdir + "/libsim.so").c_str(), c.libsim.c_str()) < 0 || symlink((vdir + "/" + variant).c_str(), (scratch + "/mod").c_str()) < 0) { perror("symlink"); exit(3); }
    std::unique_ptr<Scn> s(d->make(pl, c)); s->run(); return result_json(s.get(), s->pl, t0);
}
static string run_isolated(const Plan &pl, bool trace, double limit) {
    int pf[2]; if (pipe(pf) < 0) exit(3);
    string scratch = mk_scratch();
    pid_t pid = fork();
    if (pid == 0) {
        close(pf[0]); prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0);
        string r = run_plan(pl, trace, scratch); size_t o = 0; while (o < r.size()) { ssize_t n = write(pf[1], r.data() + o, r.size() - o); if (n <= 0) break; o += n; }
        _exit(0);
    }
    close(pf[1]); string r; char b[65536]; double t0 = wall(); fcntl(pf[0], F_SETFL, O_NONBLOCK); bool timeout = false;
    for (;;) {
        ssize_t n = read(pf[0], b, sizeof b); if (n > 0) { r.append(b, n); continue; } if (n == 0) break;
        if (wall() - t0 > limit) { timeout = true; break; }
        fd_set fs; FD_ZERO(&fs); FD_SET(pf[0], &fs); timeval tv{1, 0}; select(pf[0] + 1, &fs, 0, 0, &tv);
    }
    close(pf[0]); if (timeout || r.empty()) kill(pid, SIGKILL);
    int st; waitpid(pid, &st, 0);
    if (timeout) r = fmt("{\"prop\":\"%s\",\"seed\":%lu,\"error\":\"run exceeded %.0f s of real time\"}", pl.prop.c_str(), (unsigned long) pl.seed, limit);
    else if (r.empty() || r.back() != '}') r = fmt("{\"prop\":\"%s\",\"seed\":%lu,\"error\":\"simulator ended with status %d\"}", pl.prop.c_str(), (unsigned long) pl.seed, st);
    if (!keep) rm_rf(scratch); else fprintf(stderr, "scratch %s\n", scratch.c_str());
    return r;
}
static Plan gen_plan(const string &prop, uint64_t seed) {
    PropDef *d = find_prop(prop); if (!d) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); exit(3); }
    Plan p; p.prop = prop; p.seed = seed; Rng r(hmix(seed, hstr(prop))); d->gen(p, r); rename_streams(p, Rng(hmix(seed, hstr(prop + "/names"))));
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    return p;
}
int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage: simdrv gen|run|search|list ...\n"); return 3; }
    signal(SIGPIPE, SIG_IGN);
    string mode = argv[1], prop, plan, out; uint64_t seed = 0, a = 0, b = 0, step = 1; double tlimit = 1e9, each = 120; int cpu = -1; bool trace = false;
    char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); string exe(self, sl > 0 ? sl : 0); vdir = exe.substr(0, exe.rfind('/'));
    for (int i = 2; i < argc; i++) {
        string k = argv[i]; auto v = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--prop") prop = v(); else if (k == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (k == "--plan") plan = v(); else if (k == "--trace") { trace = true; trace_path = v(); }
        else if (k == "--from") a = strtoull(v().c_str(), 0, 10); else if (k == "--to") b = strtoull(v().c_str(), 0, 10); else if (k == "--step") step = strtoull(v().c_str(), 0, 10);
        else if (k == "--time") tlimit = atof(v().c_str()); else if (k == "--each") each = atof(v().c_str()); else if (k == "--cpu") cpu = atoi(v().c_str()); else if (k == "--variant") variant = v(); else if (k == "--keep") keep = true; else if (k == "--asan-lib") asan_lib = v(); else if (k == "--states") states_path = v();
        else { fprintf(stderr, "unknown argument %s\n", k.c_str()); return 3; }
    }
    if (cpu >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    if (mode == "list") { for (auto &p : props()) puts(p.id.c_str()); return 0; }
    if (mode == "gen") { fputs(gen_plan(prop, seed).text().c_str(), stdout); return 0; }
    if (mode == "run") {
        Plan p; string err; if (plan.empty()) p = gen_plan(prop, seed); else if (!Plan::parse(read_file(plan), p, err)) { fprintf(stderr, "bad plan: %s\n", err.c_str()); return 3; }
        string r = run_isolated(p, trace, each); puts(r.c_str()); while (waitpid(-1, 0, WNOHANG) > 0) {} return r.find("\"viol\":[]") != string::npos ? 0 : 1;
    }
    if (mode == "search") {
        double t0 = wall();
        for (uint64_t s = a; s < b && wall() - t0 < tlimit; s += step) { string r = run_isolated(gen_plan(prop, s), false, each); puts(r.c_str()); fflush(stdout); while (waitpid(-1, 0, WNOHANG) > 0) {} }
        return 0;
    }
    return 3;
}
