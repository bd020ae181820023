// P22: access rules and connection limits hold for every session, in every order of arrivals and departures.
#include "scn.h"
#include "gen.h"
#include "disk.h"
#include <algorithm>
#include <arpa/inet.h>

struct P22 : Scn {
    using Scn::Scn;
    struct Rule { bool deny; int what; uint32_t addr, mask; };
    vector<Rule> rules; map<string, Op> ops; int64_t maxc = 0; int kills = 0; static constexpr us_t D = 500 * MS; vector<us_t> kill_t; us_t deadline = 8 * SEC;
    static uint32_t ip4(const string &s) { in_addr a; return inet_pton(AF_INET, s.c_str(), &a) == 1 ? ntohl(a.s_addr) : 0; }
    void parse(const string &prefix) {      // the rules of one level, in the order they are written
        for (const char *first : {"allow", "deny"}) {
            string v = pl.k(prefix + first); if (v.empty()) continue; v = string(first) + " " + v;
            for (auto &x : split(v, ';')) {
                vector<string> t; for (auto &y : split(x, ' ')) if (!y.empty()) t.push_back(y);
                if (t.size() < 2) continue; Rule r; r.deny = t[0] == "deny"; r.what = t.size() == 2 ? 3 : t[1] == "publish" ? 1 : 2; string a = t.back();
                size_t sl = a.find('/'); int bits = sl == string::npos ? 32 : atoi(a.c_str() + sl + 1); if (a == "all") bits = 0;
                r.mask = bits ? 0xffffffffu << (32 - bits) : 0; r.addr = a == "all" ? 0 : ip4(a.substr(0, sl)) & r.mask; rules.push_back(r);
            }
        }
    }
    bool denied(const string &ip, int what) { uint32_t a = ip4(ip); for (auto &r : rules) if ((r.what & what) && (a & r.mask) == r.addr) return r.deny; return false; }
    string real_ip(const string &id, const string &ip) { string px = ops.count(id) ? ops[id].s("px") : ""; return px.empty() || px == "unknown" ? ip : px; }
    bool pden(PubS &p) { return denied(real_ip(p.id, p.ip), 1); } bool vden(PlayS &p) { return p.kind == "rtmp" && denied(real_ip(p.id, p.ip), 2); }
    vector<Proc *> workers() { vector<Proc *> v; for (auto &p : w.procs) if (!p->direct_child && p->st != PS_DEAD) v.push_back(p.get()); std::sort(v.begin(), v.end(), [](Proc *a, Proc *b) { return a->slot < b->slot; }); return v; }
    void setup() override { for (auto &o : pl.ops) if (o.verb == "pub" || o.verb == "play") ops[o.s("id")] = o; parse("app."); parse("rtmp."); parse("rtmpmain."); maxc = pl.kn_("rtmpmain.max_connections"); }
    bool apply(const Op &o) override {
        if (o.verb == "wkill") { auto v = workers(); if (v.size() > 1) { w.fault("worker killed"); kills++; kill_t.push_back(w.now); w.kill_proc(v[o.n("no") % v.size()]); } return true; }
        return Scn::apply(o);
    }
    void on_pub_status(PubS *p, const string &, const string &code) override { if (pden(*p) && code == "NetStream.Publish.Start") bad("a publisher that the rules deny is told it is publishing", p->id + " from " + real_ip(p->id, p->ip)); }
    void finish() override {
        if (pl.kn_("sim.nodes", 1) != 1) return;
        if (maxc) limits(); else access();
    }
    void access() {
        std::set<string> ok; bool anyd = false;
        for (auto &p : pubs) {
            bool d = pden(*p); if (!d) { ok.insert(p->name); } else anyd = true;
            us_t end = p->t_stop >= 0 ? p->t_stop : w.now;
            if (d) { stat["denied publishers"]++; if (p->t_dead < 0 && end > p->t_conn + deadline) bad("a publisher that the rules deny is neither refused nor ended", p->id + " from " + real_ip(p->id, p->ip)); continue; }
            stat["allowed publishers"]++;
            if (end < p->t_conn + 2 * SEC || (end < p->t_conn + deadline && p->t_dead < 0)) continue;
            if (p->t_start < 0 && !p->rejected) bad("a publisher that the rules allow is refused", p->id + " from " + real_ip(p->id, p->ip) + " " + p->dead_why);
            if (p->t_dead >= 0 && p->t_stop < 0 && !p->rejected) bad("a publisher that the rules allow is ended", p->id + " from " + real_ip(p->id, p->ip) + " " + p->dead_why);
        }
        for (auto &p : plays) {
            us_t end = p->t_stop >= 0 ? p->t_stop : w.now;
            if (vden(*p)) {
                stat["denied players"]++; if (!p->rx.empty() || !p->metas.empty()) bad("a player that the rules deny receives the stream", p->id + " from " + real_ip(p->id, p->ip) + fmt(": %zu messages", p->rx.size()));
                for (auto &x : p->status) if (x.second == "NetStream.Play.Start") bad("a player that the rules deny is told it is playing", p->id + " from " + real_ip(p->id, p->ip));
                if (p->t_dead < 0 && end > p->t_conn + deadline) bad("a player that the rules deny is neither refused nor ended", p->id + " from " + real_ip(p->id, p->ip));
                continue;
            }
            stat["allowed players"]++;
            if (p->kind == "rtmp" && p->t_dead >= 0 && p->t_stop < 0) bad("a player that the rules allow is ended", p->id + " from " + real_ip(p->id, p->ip) + " " + p->dead_why);
            for (auto &r : p->rx) if (r.pub >= 0 && !r.hdr && !r.empty && pden(*pubs[r.pub])) { bad("players receive what a denied publisher sends", p->id + " of " + p->name + " from " + pubs[r.pub]->id); break; }
            AvOpt o; o.check_start = false; o.check_end = false; o.ts_exact = false; check_av(*this, *p, o);
            if (!ok.count(p->name)) for (auto &x : p->status) if (x.second.find("Publish") != string::npos || x.second.find("publish") != string::npos || x.second == "user.begin" || x.second == "user.eof") { bad("players are told of a publisher that the rules deny", p->id + " of " + p->name + ": " + x.second); break; }
            // and it gets the stream
            for (auto &q : pubs) if (q->name == p->name && !pden(*q) && !q->rejected && q->t_start >= 0 && p->rx.empty() && p->kind == "rtmp" && q->sent.size() > 100) { us_t a = std::max(q->t_start, p->t_conn) + 6 * SEC, b = std::min(end, q->t_stop >= 0 ? q->t_stop : w.now); if (b > a && q->t_dead < 0 && !q->paused) bad("a player that the rules allow does not get the stream", p->id + " of " + p->name); }
        }
        // nothing a denied publisher did is left on disk
        std::set<string> no; for (auto &p : pubs) if (!ok.count(p->name)) no.insert(p->name);
        if (anyd) for (auto &f : walk(nodes[0].prefix + "/data")) { stat["files checked"]++; for (auto &c : split(f.substr(nodes[0].prefix.size() + 6), '/')) for (auto &n : no) if (c.compare(0, n.size(), n) == 0) bad("a denied publisher left files", f.substr(nodes[0].prefix.size())); }
    }
    struct Iv { string id; us_t a, b0, b1; bool refused, early; };
    void limits() {
        vector<Iv> v;
        auto add = [&](const string &id, us_t a, us_t stop, us_t dead, const string &mode, ActorConn *ac, bool start) {
            Iv i; i.id = id; i.a = a; us_t e = INT64_MAX / 2; bool van = ac->vanished; us_t tv = ac->t_vanish;
            i.b0 = std::min({stop >= 0 ? stop : e, dead >= 0 ? dead : e, van ? tv : e}); i.b1 = i.b0; (void) mode;
            if (van) { i.b1 = e; Conn *c = ac->c; us_t g = gone.count(ac) ? gone[ac] : e; i.b1 = g; (void) c; }
            if (dead >= 0 && (stop < 0 || dead < stop)) for (us_t k : kill_t) if (dead >= k - 100 * MS && dead < k + SEC) i.b1 = std::max(i.b1, k + 3 * SEC);   // its slot comes back with the new worker
            i.refused = !start && dead >= 0 && (stop < 0 || dead <= stop) && dead <= a + D + 500 * MS; i.early = !start && !i.refused;
            for (us_t k : kill_t) if (i.refused && a > k - 2 * SEC && a < k + 2 * SEC) i.early = true;
            v.push_back(i);
        };
        for (auto &p : pubs) add(p->id, p->t_conn, p->t_stop, p->t_dead, p->stop_mode, p->ac, p->t_start >= 0 || !p->status.empty());
        for (auto &p : plays) if (p->kind == "rtmp") add(p->id, p->t_conn, p->t_stop, p->t_dead, p->stop_mode, p->ac, p->t_start >= 0 || !p->status.empty());
        for (auto &i : v) {
            if (i.early) continue;      // never got far enough to tell
            int lower = 0, upper = 0; bool near_kill = false; for (us_t k : kill_t) if (i.a > k - SEC && i.a < k + 3 * SEC) near_kill = true;
            for (auto &j : v) if (&j != &i) {
                if (!j.refused && !j.early && j.a < i.a - D && j.b0 > i.a + D) lower++;
                us_t b = std::max(j.b1, j.b0) + D; if (j.a < i.a + D && b > i.a - D) upper++;
            }
            if (!i.refused && lower >= maxc) bad("more connections are admitted than max_connections", i.id + fmt(" while %d are open, the limit is %ld", lower, (long) maxc));
            if (i.refused && upper < maxc && !near_kill) bad("a connection is refused although the limit is not reached", i.id + fmt(" while at most %d are open, the limit is %ld", upper, (long) maxc));
            stat[i.refused ? "connections refused" : "connections admitted"]++;
        }
    }
    map<ActorConn *, us_t> gone;
    void poll() {
        auto look = [&](ActorConn *a) { if (a && a->vanished && a->c && !gone.count(a)) { int srv = 1 - a->side; if (a->c->established && (!a->c->e[srv].open || a->c->dead)) gone[a] = w.now; } };
        for (auto &p : pubs) look(p->ac); for (auto &p : plays) look(p->ac);
    }
    void start_nodes() override { Scn::start_nodes(); for (us_t t = 50 * MS; t < pl.end; t += 50 * MS) w.at(t, [this] { poll(); }); }
};
static const vector<string> ips = {"10.1.0.1", "10.1.0.2", "10.1.0.17", "10.2.0.1", "10.3.3.3", "192.168.1.5"};
static string one_rule(Rng &r, bool &deny) {
    deny = r.chance(0.55); string a = r.pick<string>({"all", "10.1.0.0/28", "10.1.0.0/16", "10.0.0.0/8", "192.168.0.0/16", "10.2.0.0/24", "x", "x", "x"}); if (a == "x") a = r.pick(ips);
    return r.pick<string>({"", "", "publish ", "play "}) + a;
}
static void gen22(Plan &p, Rng &r) {
    g_common(p, r); g_live_conf(p, r); p.set("rtmp.out_queue", 4096); p.set("rtmp.timeout", "3s"); p.set("rtmp.ping", "2s"); p.set("rtmp.ping_timeout", "1s"); p.kn.erase("rtmp.play_time_fix");
    us_t end = r.range(9, 18) * SEC; int np = 0, nv = 0;
    if (r.chance(0.5)) {
        bool proxy = r.chance(0.3); if (proxy) p.set("sim.rtmp_listen", "1935 proxy_protocol"); p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }");
        int lv = (int) r.range(1, 3);
        for (int l = 0; l < lv; l++) { string pre = l == 0 ? "app." : r.chance(0.5) ? "rtmp." : "rtmpmain.", v; if (p.kn.count(pre + "allow") || p.kn.count(pre + "deny")) continue; int n = (int) r.range(1, 4); bool d0 = false, d; for (int i = 0; i < n; i++) { string x = one_rule(r, d); if (!i) { d0 = d; v = x; } else v += string("; ") + (d ? "deny " : "allow ") + x; } p.set(pre + (d0 ? "deny" : "allow"), v); }
        g_disk(p, r, 0.25); if (r.chance(0.3)) { p.set("app.cache_time", "2s"); p.set("app.send_all", "on"); }
        int ns = (int) r.range(1, 4);
        auto who = [&](Op &o) { if (proxy) { o.set("seg", r.pick<int64_t>({0, 1})); o.set("ip", "10.9.0.1"); o.set("px", r.chance(0.1) ? "unknown" : r.pick(ips)); if (r.chance(0.2)) o.set("ip", r.pick(ips)); } else o.set("ip", r.pick(ips)); };
        for (int s = 0; s < ns; s++) {
            string name = fmt("%c%d", 'a' + s, s); us_t t = r.range(50, 3000) * MS;
            for (int g = 0, n = (int) r.range(1, 4); g < n && t < end - SEC; g++) {
                Op &o = p.op(t, "pub"); string id = fmt("p%d", np++); o.set("id", id).set("name", name); g_media(o, r, p); g_link(o, r, &p); who(o);
                us_t te = r.range(t, end); if (r.chance(0.7)) p.op(te, "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset"})); else te = end;
                t = r.chance(0.5) ? te + r.range(100, 1500) * MS : t + r.range(500, 3000) * MS;
            }
            for (int i = 0, n = (int) r.range(1, 5); i < n; i++) {
                us_t tp = r.range(20, (end - SEC) / MS) * MS; string id = fmt("v%d", nv++); Op &o = p.op(tp, "play"); bool flv = r.chance(0.15); o.set("id", id).set("name", name).set("buflen", 100); if (flv) o.set("kind", "flv"); g_link(o, r, &p); if (!flv) who(o); if (!flv && r.chance(0.2)) o.set("eager", 1);
                if (r.chance(0.3)) p.op(r.range(tp, end), "unplay").set("id", id).set("mode", flv ? "close" : r.pick<string>({"close", "reset", "unplay"}));
            }
        }
        p.end = end + 10 * SEC;
    } else {
        p.set("rtmpmain.max_connections", r.range(1, 6)); int wk = (int) r.pick<int64_t>({0, 0, 2, 3}); if (wk) p.set("sim.workers", wk); int n = (int) r.range(6, 24); us_t t = 50 * MS; if (r.chance(0.5)) { p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }"); }
        for (int i = 0; i < n; i++) {
            bool pub = r.chance(0.3), flv = !pub && p.kn.count("loc.location#flv") && r.chance(0.3); string id = fmt(pub ? "p%d" : "v%d", pub ? np++ : nv++); Op &o = p.op(t, pub ? "pub" : "play"); o.set("id", id).set("name", fmt("s%d", pub ? np : (int) r.below(3) + 1)); if (pub) o.set("fps", 10); if (flv) o.set("kind", "flv"); o.set("lat", r.pick<int64_t>({100, 5000})).set("seg", r.pick<int64_t>({0, 1, 2}));
            us_t d = r.pick<us_t>({r.range(1, 300), r.range(300, 3000), r.range(3000, 20000)}) * MS;
            if (r.chance(0.8)) p.op(t + d, pub ? "unpub" : "unplay").set("id", id).set("mode", r.pick<string>({"close", "close", "reset", "vanish"}));
            t += r.pick<us_t>({r.range(1, 50), r.range(50, 900), r.range(900, 2500)}) * MS;
        }
        if (wk && r.chance(0.4)) for (int i = 0, k = (int) r.range(1, 2); i < k; i++) p.op(r.range(1000, t / MS) * MS, "wkill").set("no", r.below(4));
        // slots that were freed can be used again
        for (int i = 0; i < 2; i++) { Op &o = p.op(t + 12 * SEC + i * SEC, "play"); o.set("id", fmt("z%d", i)).set("name", "s1").set("buflen", 100); p.op(t + 16 * SEC, "unplay").set("id", fmt("z%d", i)).set("mode", "close"); }
        p.end = t + 20 * SEC;
    }
}
static PropReg reg("P22", gen22, make_scn<P22>);
