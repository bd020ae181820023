// P21: every session that ended is in the access log exactly once, as itself, with the bytes that crossed its connection.
#include "scn.h"
#include "gen.h"
#include "disk.h"
#include <algorithm>
#include <csignal>

struct P21 : Scn {
    Disk disk; std::set<string> logs; int rots = 0; vector<us_t> kill_t, rot_t; vector<std::pair<us_t, us_t>> stall_t; map<string, Op> ops; vector<Op> fulls;
    P21(Plan &p, const Cfg &c) : Scn(p, c), disk(*this) {}
    void setup() override { disk.attach(); for (auto &o : pl.ops) if (o.verb == "pub" || o.verb == "play") ops[o.s("id")] = o; for (auto &o : pl.ops) if (o.verb == "disk") fulls.push_back(o); }
    vector<Proc *> workers() { vector<Proc *> v; for (auto &p : w.procs) if (!p->direct_child && p->st != PS_DEAD) v.push_back(p.get()); std::sort(v.begin(), v.end(), [](Proc *a, Proc *b) { return a->vpid < b->vpid; }); return v; }
    bool apply(const Op &o) override {
        if (disk.apply(o)) return true;
        if (o.verb == "wkill") { auto v = workers(); if (v.size() > 1) { w.fault("worker killed"); kill_t.push_back(w.now); w.kill_proc(v[o.n("no") % v.size()]); } return true; }
        if (o.verb == "logrot") {               // what logrotate does: rename, then tell the master to open its files again
            int k = ++rots; rot_t.push_back(w.now); for (auto &f : list_dir(nodes[0].prefix + "/data")) if (f.size() > 4 && f.substr(f.size() - 4) == ".acc") { string q = nodes[0].prefix + "/data/" + f; rename(q.c_str(), (q + fmt(".%d", k)).c_str()); }
            w.fault("log files renamed"); w.after(o.n("gap") * MS, [this] { if (nodes[0].p && nodes[0].p->st != PS_DEAD) w.signal_proc(nodes[0].p, SIGUSR1); }); return true;
        }
        if (o.verb == "pstall") stall_t.push_back({w.now, w.now + o.n("dur") * MS});
        return Scn::apply(o);
    }
    struct Line { string file; vector<string> f; bool used = false; us_t t; int64_t in, out, secs; };
    struct Sess { string id, ip, cmd, name, args, kind; ActorConn *ac; us_t t_conn, t_stop, t_dead, t_began; bool began; int slow; };
    string parg(const Op &o, const string &k) { for (auto &x : split(o.s("args"), '&')) if (x.compare(0, k.size() + 1, k + "=") == 0) return x.substr(k.size() + 1); return "parg_" + k; }
    void finish() override {
        vector<Sess> ss;
        for (auto &p : pubs) { Sess x; x.id = p->id; x.ip = p->ip; x.cmd = "PUBLISH"; x.name = p->name; x.args = p->args; x.kind = "rtmp"; x.ac = p->ac; x.t_conn = p->t_conn; x.t_stop = p->t_stop; x.t_dead = p->t_dead; x.began = p->t_start >= 0 || p->rejected; x.t_began = p->t_start >= 0 ? p->t_start : INT64_MAX / 2; ss.push_back(x); }
        for (auto &p : plays) { Sess x; x.id = p->id; x.ip = p->ip; x.cmd = "PLAY"; x.name = p->name; x.args = p->args; x.kind = p->kind; x.ac = p->ac; x.t_conn = p->t_conn; x.t_stop = p->t_stop; x.t_dead = p->t_dead; x.t_began = p->t_start >= 0 ? p->t_start : p->last_rx >= 0 ? p->last_rx : INT64_MAX / 2; x.began = p->t_start >= 0 || (p->kind != "rtmp" && p->bytes > 0); ss.push_back(x); }
        map<string, Sess *> by; for (auto &x : ss) { if (by.count(x.ip)) return; by[x.ip] = &x; }
        // the logs
        map<string, vector<Line>> all; std::set<string> names; for (auto &k : pl.kn) if (k.first.compare(0, 14, "app.access_log") == 0) { string f = split(k.second, ' ')[0]; size_t e = f.rfind('/'); names.insert(f.substr(e + 1)); }
        if (names.empty()) return;
        bool dfault = !fulls.empty(), torn = false;
        auto fs = list_dir(nodes[0].prefix + "/data"); std::stable_sort(fs.begin(), fs.end(), [](const string &a, const string &b) { return (a.back() == 'c') < (b.back() == 'c'); });   // the current file last
        for (auto &f : fs) for (auto &n : names) if (f == n || f.compare(0, n.size() + 1, n + ".") == 0) {
            string d = read_file(nodes[0].prefix + "/data/" + f); size_t a = 0;
            while (a < d.size()) {
                size_t b = d.find('\n', a); string l = b == string::npos ? d.substr(a) : d.substr(a, b - a); bool whole = b != string::npos; a = whole ? b + 1 : d.size();
                Line x; x.file = n; x.f = split(l, '|'); stat["log lines"]++;
                if (!whole || x.f.size() != 15 || x.f[0] != "B" || x.f[14] != "E") { if (dfault) { torn = true; continue; } bad("a malformed line in the access log", l.substr(0, 200)); continue; }
                x.t = (us_t) (atof(x.f[11].c_str()) * 1e6) - w.wall_off; x.in = atoll(x.f[6].c_str()); x.out = atoll(x.f[7].c_str()); x.secs = atoll(x.f[8].c_str()); all[n].push_back(x);
            }
        }
        for (auto &n : names) {
            us_t T = 0; for (auto &k : pl.kn) if (k.first.compare(0, 14, "app.access_log") == 0 && k.second.find(n + " ") != string::npos) { size_t e = k.second.find("trunc="); if (e != string::npos) T = atoll(k.second.c_str() + e + 6) * (k.second.find("ms", e) != string::npos ? MS : SEC); }
            map<string, vector<Line *>> per; auto &v = all[n]; std::stable_sort(v.begin(), v.end(), [](const Line &a, const Line &b) { return a.t < b.t; });
            for (auto &l : v) {
                auto i = by.find(l.f[1]); if (i == by.end()) { bad("a line in the access log belongs to no client", l.f[1] + " " + l.f[2] + " " + l.f[4]); continue; }
                per[l.f[1]].push_back(&l); Sess &x = *i->second; const Op &o = ops[x.id];
                string want = x.cmd; bool none = l.f[2] == "NONE";
                if (none ? x.began : l.f[2] != want) bad("a session is logged with the wrong command", x.id + " " + l.f[2]);
                if (l.f[3] != "live") bad("a session is logged with the wrong application", x.id + " " + l.f[3]);
                if (l.f[4] != (none ? "" : x.name)) bad("a session is logged with the wrong stream name", x.id + " " + l.f[4].substr(0, 300));
                string wa = x.args.substr(0, 255); if (l.f[5] != (none ? "" : wa)) bad("a session is logged with the wrong arguments", x.id + " " + x.kind + " " + l.f[5].substr(0, 600) + fmt(" (%zu bytes, not %zu)", l.f[5].size(), x.args.size()));
                if (l.f[10] != (none ? "" : "default/live/" + x.name)) bad("a session is logged with the wrong stream", x.id + " " + l.f[10].substr(0, 600));
                if (!none && l.f[12] != parg(o, "id")) bad("a session is logged with the wrong value of an argument", x.id + " " + l.f[12].substr(0, 300));
                us_t slack = 1100 * MS + 2 * link(o).lat * 4; for (auto &s : stall_t) slack += s.second - s.first;
                if (l.secs * SEC > l.t - x.t_conn + slack || l.secs * SEC < l.t - x.t_conn - slack - SEC) bad("a session is logged with the wrong duration", x.id + fmt(" %ld s, connected %ld ms before", (long) l.secs, (long) ((l.t - x.t_conn) / MS)));
            }
            for (auto &x : ss) {
                auto &ls = per[x.ip]; Conn *c = x.ac ? x.ac->c : nullptr; if (!c) continue;
                int srv = 1 - x.ac->side; bool over = !c->e[srv].open && c->established; bool killed = false; for (us_t k : kill_t) if (over && x.t_dead >= k && x.t_dead < k + SEC) killed = true;
                for (us_t k : kill_t) if (x.t_conn < k + SEC && (x.t_stop < 0 || x.t_stop > k - SEC) && (x.t_dead < 0 || x.t_dead > k - SEC)) killed = true;   // its worker may have been the one
                if (!kill_t.empty() && x.ac->vanished) killed = true;
                bool lossy = false; if (dfault) for (auto &o : pl.ops) if ((o.verb == "stall" || o.verb == "rate" || o.verb == "hold") && o.s("id") == x.id) lossy = true;   // it may have ended long before its client knew
                for (auto &d : fulls) { us_t a = d.t, b = d.t + d.n("dur") * MS + 1500 * MS; us_t e = std::min(x.t_stop >= 0 ? x.t_stop : INT64_MAX / 2, x.t_dead >= 0 ? x.t_dead : INT64_MAX / 2); if (x.ac->vanished || (e > a - 3 * SEC && e < b + 3 * SEC)) lossy = true; }
                vector<Line *> fin; int64_t li = -1, lo = -1; us_t lt = -1;
                int64_t hs = x.kind == "rtmp" ? 3073 : 0, in = (int64_t) c->p[srv].total_out - hs, out = (int64_t) c->p[1 - srv].total_in - hs; if (x.kind != "rtmp") in = 0;
                for (auto *l : ls) {
                    if (l->in < li || l->out < lo) bad("the byte counts of a session go backwards", x.id + fmt(" %ld/%ld after %ld/%ld", (long) l->in, (long) l->out, (long) li, (long) lo));
                    if (T && lt >= 0 && l->t - lt > T + 300 * MS && stall_t.empty() && !dfault) bad("a periodic line of a session is missing", x.id + fmt(" %ld ms between two lines", (long) ((l->t - lt) / MS)));
                    li = l->in; lo = l->out; lt = l->t;
                }
                bool early = ls.size() == 1 && ls[0]->f[2] == "NONE"; stat["sessions looked up"]++;
                if (!T) {
                    if (ls.size() > 1) bad("a session is logged more than once", x.id + fmt(" %zu lines in %s", ls.size(), n.c_str()));
                    if (!over && !ls.empty()) bad("a session is logged before it has ended", x.id);
                }
                if (over && ls.empty() && x.began && !killed && !lossy) bad("a session that ended is not logged", x.id + " " + x.kind + " in " + n);
                if (over && !ls.empty() && !killed && !lossy) {
                    Line *l = ls.back(); stat["sessions compared"]++; if (early) stat["sessions that did nothing"]++;
                    if (x.kind == "rtmp" ? l->in != in : l->in != 0) bad("a session is logged with the wrong number of bytes received", x.id + " " + x.kind + fmt(": %ld, and the connection carried %ld", (long) l->in, (long) in));
                    int64_t d = x.kind == "rtmp" ? 0 : 600; if (l->out > out || l->out < out - d) bad("a session is logged with the wrong number of bytes sent", x.id + " " + x.kind + fmt(": %ld, and the connection carried %ld", (long) l->out, (long) out));
                }
                if (T && !dfault && over && !ls.empty() && !killed && !lossy && stall_t.empty() && x.began && x.t_stop >= 0) { int64_t k = (ls.back()->t - x.t_began) / T - 1; if ((int64_t) ls.size() < k) bad("a periodic line of a session is missing", x.id + fmt(" %zu lines in %ld ms", ls.size(), (long) ((ls.back()->t - x.t_began) / MS))); }
            }
        }
        (void) torn;
    }
};
static void gen21(Plan &p, Rng &r) {
    g_common(p, r); g_live_conf(p, r); p.set("rtmp.out_queue", r.pick<int64_t>({200, 1000, 4096})); p.set("rtmp.timeout", r.pick<string>({"2s", "5s"})); p.set("rtmp.ping", r.pick<string>({"1s", "3s"})); p.set("rtmp.ping_timeout", "1s");
    p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }"); p.set("loc.location#ts", "/ts { ts_live 1935 app=live; }"); if (r.chance(0.3)) p.set("app.mpegts_cache_time", "3s"); if (r.chance(0.3)) p.set("app.cache_time", "2s");
    p.set("rtmpmain.log_format", "x 'B|$remote_addr|$command|$app|$name|$args|$bytes_received|$bytes_sent|$session_time|$connection|$stream|$msec|$parg_id|${flashver}|E'");
    p.set("app.access_log", "data/a.acc x"); if (r.chance(0.4)) p.set("app.access_log#2", "data/b.acc x"); if (r.chance(0.4)) p.set("app.access_log#3", string("data/t.acc x trunc=") + r.pick<string>({"1s", "3s", "500ms"}));
    int wk = (int) r.pick<int64_t>({0, 0, 0, 2, 3}); if (wk) { p.set("sim.workers", wk); p.set("main.stream_zone", "buckets=1024 streams=256"); p.set("events.multi_listen", "unix:@PREFIX@/rtmp 1935"); p.set("events.multi_listen#2", "unix:@PREFIX@/http 80"); p.set("app.rtmp_auto_pull", "on"); p.set("app.rtmp_auto_pull_port", "unix:@PREFIX@/rtmp"); }
    us_t end = r.range(5, 14) * SEC; int ns = (int) r.range(1, 3), np = 0, nv = 0, n = 0;
    auto who = [&](Op &o, const string &id, const string &name, bool http) {
        o.set("ip", fmt("10.7.%d.%d", ++n / 200, n % 200 + 1)); string a = r.chance(0.2) ? "" : "id=" + id + (r.chance(0.3) ? "&x=" + string(r.range(1, 200), 'y') : ""); if (http && r.chance(0.1)) a += (a.empty() ? "" : "&") + string("k=") + string(r.range(200, 400), 'z');
        if (!http && a.size() + name.size() > 250) a = a.substr(0, 250 - name.size()); o.set("name", name).set("args", a); g_link(o, r, &p);
    };
    for (int s = 0; s < ns; s++) {
        string name = r.chance(0.15) ? fmt("s%d", s) + string(r.range(200, 248), 'n') : fmt("s%d", s); us_t t = r.range(50, 2000) * MS;
        for (int g = 0, k = (int) r.range(1, 3); g < k && t < end - SEC; g++) {
            Op &o = p.op(t, "pub"); string id = fmt("p%d", np++); o.set("id", id); g_media(o, r, p); who(o, id, name, false); if (r.chance(0.1)) o.set("die", r.range(1, 20000));
            us_t te = r.range(t / MS, end / MS) * MS; if (r.chance(0.8)) p.op(te, "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset", "closestream", "fcunpub", "vanish"})); else te = end;
            if (r.chance(0.2)) p.op(r.range(t, te), "hold").set("id", id).set("dur", r.range(20, 2000));
            t = r.chance(0.6) ? te + r.range(100, 1500) * MS : t + r.range(500, 3000) * MS;
        }
        for (int i = 0, k = (int) r.range(1, 6); i < k; i++) {
            us_t tp = r.range(20, (end - SEC) / MS) * MS; string id = fmt("v%d", nv++); Op &o = p.op(tp, "play"); string kind = r.pick<string>({"rtmp", "rtmp", "flv", "ts"}); o.set("id", id).set("buflen", 100); if (kind != "rtmp") o.set("kind", kind).set("http10", r.chance(0.2)); who(o, id, name, kind != "rtmp"); if (kind == "rtmp" && r.chance(0.2)) o.set("eager", 1); if (r.chance(0.1)) o.set("die", r.range(1, 6000));
            if (r.chance(0.4)) p.op(r.range(tp, end), "stall").set("id", id).set("dur", r.pick<int64_t>({r.range(20, 1500), r.range(3000, 20000)}));
            if (r.chance(0.2)) p.op(tp + 100 * MS, "rate").set("id", id).set("bps", r.range(2000, 60000));
            if (r.chance(0.7)) p.op(r.range(tp, end), "unplay").set("id", id).set("mode", kind == "rtmp" ? r.pick<string>({"close", "reset", "unplay", "vanish"}) : r.pick<string>({"close", "reset", "vanish"}));
        }
    }
    if (r.chance(0.4)) for (int i = 0, k = (int) r.range(1, 3); i < k; i++) p.op(r.range(500, end / MS) * MS, "logrot").set("gap", r.pick<int64_t>({0, 10, 500}));
    if (wk && r.chance(0.2)) p.op(r.range(1000, end / MS) * MS, "wkill").set("no", r.below(4));
    if (r.chance(0.25)) g_diskfaults(p, r, end, ".acc"); if (r.chance(0.15)) p.op(r.range(1, end / SEC) * SEC, "pstall").set("node", 0).set("dur", r.range(10, 1500));
    p.end = end + 8 * SEC;
}
static PropReg reg("P21", gen21, make_scn<P21>);
