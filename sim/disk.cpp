#include "disk.h"
#include <cerrno>
#include <sys/stat.h>
bool is_dir(const string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISDIR(st.st_mode); }
int64_t file_size(const string &p) { struct stat st; return stat(p.c_str(), &st) ? -1 : st.st_size; }
void Disk::kill_node(int node, us_t down) {
    s.w.fault("crash"); crashes++; crash_t.push_back(s.w.now); s.nodes[node].killed = true; s.w.trace("node %d crashes", node);
    for (auto &p : s.w.procs) if (p->node == node && p->st != PS_DEAD) s.w.kill_proc(p.get());
    if (on_kill) on_kill(node);
    s.w.after(down, [this, node] { if (!s.crashed) s.start_node(node); });
}
void Disk::attach() {
    s.w.file_gate = [this](Proc *p, int op, const string &path, int64_t n, const string &path2) {
        FileDecision d = { n, 0, false }; if (deny && deny(p, op, path, path2)) { d.err = EACCES; return d; }
        for (auto &k : kills) if (k.armed && k.node == p->node && k.after-- <= 0) {
            k.armed = false; int node = k.node; us_t down = k.down;
            if (k.torn && op == OP_FWRITE && n > 1) { d.allow = 1 + s.w.filerng.below(n - 1); torn_path = path; s.w.fault("torn write"); kills.push_back({node, -1, down, false, false}); if (pre) pre(p, op, path, d.allow, path2); return d; }
            kill_node(node, down); d.kill = true; return d;
        }
        for (auto &x : wins) if (s.w.now >= x.a && s.w.now < x.b && (x.match.empty() || path.find(x.match) != string::npos) && s.w.filerng.chance(x.p)) {
            if (x.kind == "short") { if (op == OP_FWRITE && n > 1) { d.allow = 1 + s.w.filerng.below(n - 1); shorted[path].push_back(s.w.now); s.w.fault("short write"); } continue; }
            if (x.kind == "full") {
                if (op == OP_FWRITE) { if (x.budget >= n) { x.budget -= n; continue; } if (x.budget > 0) { d.allow = x.budget; x.budget = 0; shorted[path].push_back(s.w.now); s.w.fault("disk full, short write"); continue; } d.err = ENOSPC; }
                else if (op == OP_FMKDIR && x.budget <= 0) d.err = ENOSPC;
                else if (op == OP_FOPEN && x.budget <= 0 && (n & 0100) && file_size(path) < 0) d.err = ENOSPC;
                else if (op == OP_FUNLINK) { x.budget += 4096; continue; }
                if (d.err) s.w.fault("disk full");
            } else if (x.kind == "eio") { if (op == OP_FWRITE || op == OP_FRENAME || op == OP_FTRUNC) { d.err = EIO; s.w.fault("I/O error"); } }
            else if (x.kind == "open") { if (op == OP_FOPEN) { d.err = x.p > 0.5 ? EMFILE : EACCES; s.w.fault("open fails"); } }
            else if (x.kind == "rename") { if (op == OP_FRENAME) { d.err = EIO; s.w.fault("rename fails"); } }
            else if (x.kind == "unlink") { if (op == OP_FUNLINK) { d.err = EIO; s.w.fault("unlink fails"); } }
            if (d.err) { t_fault = s.w.now; faulted[path].push_back(s.w.now); if (!path2.empty()) faulted[path2].push_back(s.w.now); s.w.trace("file operation %d on %s fails: %d", op, path.c_str() + std::min(path.size(), s.cfg.scratch.size()), d.err); return d; }
        }
        if (pre) pre(p, op, path, d.allow, path2);
        return d;
    };
    s.w.file_done = [this](Proc *p, int op, const string &path, int64_t r, const string &path2) {
        if (post) post(p, op, path, r, path2);
        for (auto &k : kills) if (k.after == -1 && !k.armed && k.node == p->node && k.down >= 0) { us_t down = k.down; k.down = -1; kill_node(k.node, down); return; }
    };
}
bool Disk::apply(const Op &o) {
    if (o.verb == "disk") { Win x; x.a = s.w.now; x.b = s.w.now + o.n("dur") * MS; x.kind = o.s("kind"); x.match = o.s("match"); x.p = o.f("p", 1); x.budget = o.n("budget"); wins.push_back(x); return true; }
    if (o.verb == "crash") {
        int node = (int) o.n("node"); kills.push_back({node, (int) o.n("after"), o.n("down", 500) * MS, o.n("torn") != 0, true}); size_t i = kills.size() - 1;
        s.w.after(2 * SEC, [this, i] { if (kills[i].armed) { kills[i].armed = false; int n = kills[i].node; us_t d = kills[i].down; kills[i].down = -1; kill_node(n, d); } });
        return true;
    }
    return false;
}
void g_diskfaults(Plan &p, Rng &r, us_t end, const string &match) {
    int n = (int) r.range(1, 3);
    for (int i = 0; i < n; i++) {
        Op &o = p.op(r.range(0, end / MS) * MS, "disk"); string k = r.pick<string>({"full", "full", "eio", "open", "short", "short", "rename", "unlink"});
        o.set("kind", k).set("dur", r.pick<int64_t>({1, 20, 200, 1000, 5000})); if (k == "full") o.set("budget", r.pick<int64_t>({0, 1, 5, 11, 100, r.range(0, 3000), r.range(0, 60000)})); else if (r.chance(0.6)) o.set("p", r.pick<string>({"0.02", "0.1", "0.5"}));
        if (!match.empty() && r.chance(0.5)) o.set("match", match);
    }
}
