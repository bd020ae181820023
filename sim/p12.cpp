// P12: any worker can serve any stream. Several workers, relays between them, workers that die and are replaced.
#include "scn.h"
#include "gen.h"
#include <algorithm>

struct P12 : Scn {
    using Scn::Scn;
    us_t t_fault = 0; int kills = 0; map<string, Op> ops; map<string, bool> redone; us_t t_quit = -1; bool single = true; vector<std::unique_ptr<Op>> again; map<Conn *, int> owner; map<string, us_t> lost_at;
    void setup() override {
        for (auto &o : pl.ops) { if (o.verb == "quit") t_quit = o.t; if (o.verb == "pub" || o.verb == "play") ops[o.s("id")] = o; }
        for (us_t t = 100 * MS; t < pl.end; t += 100 * MS) w.at(t, [this] { poll(); });
    }
    vector<Proc *> workers() { vector<Proc *> v; for (auto &p : w.procs) if (!p->direct_child && p->st != PS_DEAD) v.push_back(p.get()); std::sort(v.begin(), v.end(), [](Proc *a, Proc *b) { return a->slot < b->slot; }); return v; }
    bool apply(const Op &o) override {
        if (o.verb == "wkill") { auto v = workers(); if (v.size() > 1) { w.fault("worker killed"); kills++; t_fault = w.now; w.kill_proc(v[o.n("no") % v.size()]); } return true; }
        if (o.verb == "wstall") { auto v = workers(); if (!v.empty()) { w.fault("worker stall"); v[o.n("no") % v.size()]->stall_until = w.now + o.n("dur") * MS; t_fault = std::max(t_fault, w.now + o.n("dur") * MS); } return true; }
        if ((o.verb == "unpub" || o.verb == "unplay" || o.verb == "epoch") && ops.count(o.s("id"))) { string id = o.s("id"); while (redone[id] && ops.count(id + "r")) id += "r"; if (o.verb != "epoch") redone[id] = true; Op q = o; q.set("id", id); return Scn::apply(q); }
        return Scn::apply(o);
    }
    // who loses its connection through no doing of its own comes back, as encoders and players do
    void poll() {
        if (t_quit >= 0 && w.now >= t_quit - SEC) return;
        auto back = [&](const string &id, us_t t_dead, us_t t_stop) {
            if (t_dead < 0 || t_stop >= 0 || redone[id] || w.now < t_dead + 400 * MS) return; redone[id] = true;
            auto u = std::make_unique<Op>(ops[id]); string nid = id + "r"; u->set("id", nid); u->kv.erase("die"); u->t = w.now; ops[nid] = *u;
            stat["sessions that came back"]++; w.trace("%s", u->text().c_str()); Op *op = u.get(); again.push_back(std::move(u)); Scn::apply(*op);
        };
        for (size_t i = 0; i < pubs.size(); i++) if (!ops[pubs[i]->id].has("dup")) back(pubs[i]->id, pubs[i]->t_dead, pubs[i]->t_stop);
        for (size_t i = 0; i < plays.size(); i++) back(plays[i]->id, plays[i]->t_dead, plays[i]->t_stop);
        // progress: a publisher sends, a player listens, nothing has failed for long enough
        for (auto &p : plays) {
            if (p->st > 1 || p->t_stop >= 0 || p->t_dead >= 0 || p->t_conn < 0) continue;
            PubS *q = nullptr; for (auto &x : pubs) if (x->name == p->name && !ops[x->id].has("dup") && x->st == 1 && x->t_start >= 0 && x->t_stop < 0 && x->t_dead < 0) q = x.get();
            if (!q || q->sent.size() < 20) continue;
            us_t from = std::max({t_fault, p->t_req >= 0 ? p->t_req : p->t_conn, q->t_start});
            for (auto &x : pubs) if (x->name == p->name) { from = std::max(from, x->t_stop); from = std::max(from, x->t_dead); }
            bool calm = !kills && !t_fault; us_t lim = (calm ? 3 : 12) * SEC + (us_t) q->mc.gop * SEC / std::max(1, q->mc.fps) + q->batch * 2; if (uplink_slow(*q)) p->t_req = w.now;
            if (w.now < from + lim) continue;
            us_t got = -1; for (size_t i = p->rx.size(); i-- > 0 && got < 0;) if (p->rx[i].pub == q->order || (p->rx[i].pub >= 0 && ops[pubs[p->rx[i].pub]->id].has("dup"))) got = msg({p->rx[i].pub, p->rx[i].idx}).t_sent;
            us_t last = -1; for (auto &m : q->sent) if (!m.hdr && m.t_sent < w.now - 3 * SEC) last = m.t_sent;
            if (last < from + lim - 3 * SEC) continue;
            stat["players up to date"]++;
            if (got < last - 3 * SEC && link_full(*p) < w.now - 4 * SEC && !uplink_slow(*q)) { bad("a player does not get a stream that is being published", p->id + fmt(" of %s: last message it has was published at %.3f s, publisher %s started at %.3f s, last fault %.3f s, now %.3f s", p->name.c_str(), got / 1e6, q->id.c_str(), q->t_start / 1e6, t_fault / 1e6, w.now / 1e6)); p->tolerant = true; p->st = 3; }
        }
        // a publisher is accepted once nobody else holds the stream and nothing has failed for a while
        for (auto &q : pubs) if (!ops[q->id].has("dup") && q->t_start < 0 && q->t_dead < 0 && q->t_stop < 0 && q->t_pubreq >= 0 && w.now > std::max(q->t_pubreq, t_fault) + 10 * SEC) { bad("a publisher gets no answer", q->id); q->t_start = w.now; }
    }
    void finish() override {
        if (pl.kn_("sim.workers") < 2 || pl.k("app.rtmp_auto_pull") != "on" || !pl.kn.count("events.multi_listen") || !pl.kn.count("main.stream_zone") || !pl.kn.count("app.rtmp_auto_pull_port")) return;
        int nw = 0; std::set<int> used; for (auto &p : w.procs) if (!p->direct_child) nw++; stat["workers"] += nw;
        for (auto &p : plays) {
            AvOpt o; o.no_loss = kills == 0; o.check_start = false; o.check_end = false; o.ts_exact = true; check_av(*this, *p, o);
            if (!p->rx.empty()) stat["players served"]++;
        }
        if (!kills) {
            for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0 && !ops[p->id].has("dup")) bad("a publisher is ended although nothing failed", p->id + fmt(" at %.3f s: %s", p->t_dead / 1e6, p->dead_why.c_str()));
            for (auto &p : plays) if (p->t_dead >= 0 && p->t_stop < 0) bad("a player is ended although nothing failed", p->id + fmt(" at %.3f s: %s", p->t_dead / 1e6, p->dead_why.c_str()));
        }
        // everyone has left: no stream is owned any more
        for (auto &g : gets) if (g->url == "/sys_stat?final" && g->p.status == 200) {
            auto m = sys_stat(g->p.body); stat["idle zones"]++;
            if (m.count("ngx_stream_zone alloc") && m["ngx_stream_zone alloc"]) bad("a stream is still owned although everybody left", fmt("%ld streams in the zone", (long) m["ngx_stream_zone alloc"]));
        }
    }
};
static void gen12(Plan &p, Rng &r) {
    g_common(p, r); g_live_conf(p, r); p.kn.erase("rtmp.play_time_fix"); p.set("rtmp.out_queue", 4096);
    p.set("sim.workers", r.pick<int64_t>({2, 2, 3, 4})); p.set("main.stream_zone", fmt("buckets=%d streams=%d", r.pick<int>({1, 2, 16}), r.pick<int>({4, 16, 64})));
    p.set("events.multi_listen", "unix:@PREFIX@/rtmp 1935"); p.set("events.multi_listen#2", "unix:@PREFIX@/http 80"); p.set("app.rtmp_auto_pull", "on"); p.set("app.rtmp_auto_pull_port", "unix:@PREFIX@/rtmp");
    if (r.chance(0.3)) p.set("app.relay_reconnect", r.pick<string>({"200ms", "1s", "3s"}));
    p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }");
    us_t end = r.range(8, 20) * SEC; int ns = (int) r.range(1, 3), np = 0, nv = 0;
    for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); us_t t = r.range(50, 4000) * MS; int gens = r.chance(0.4) ? 2 : 1;
        for (int g = 0; g < gens; g++) {
            Op &o = p.op(t, "pub"); string id = fmt("p%d", np++); o.set("id", id).set("name", name); g_media(o, r, p); g_link(o, r, &p); o.kv.erase("eager"); o.kv.erase("ts0"); o.kv.erase("inter");
            us_t te = std::min(t + (g + 1 < gens ? r.range(2500, 6000) * MS : end), end);
            if (r.chance(0.2)) p.op(r.range(t + 100 * MS, te), "epoch").set("id", id).set("what", r.pick<string>({"both", "v", "a"}));
            if (g + 1 < gens || r.chance(0.3)) p.op(te, "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset", "closestream"}));
            t = te + r.range(1000, 3500) * MS;
        }
        int n = (int) r.range(1, 6);
        for (int i = 0; i < n; i++) {
            us_t tp = r.range(20, end / MS) * MS; string id = fmt("v%d", nv++); Op &o = p.op(tp, "play"); string kind = r.chance(0.25) ? "flv" : "rtmp"; o.set("id", id).set("name", name).set("buflen", r.pick<int64_t>({-1, 100, 3000})); if (kind != "rtmp") o.set("kind", kind); g_link(o, r, &p);
            if (r.chance(0.35)) p.op(r.range(tp, end), "unplay").set("id", id).set("mode", kind == "rtmp" ? r.pick<string>({"close", "reset", "unplay"}) : r.pick<string>({"close", "reset"}));
        }
    }
    int nk = r.chance(0.5) ? (int) r.range(1, 3) : 0; for (int i = 0; i < nk; i++) p.op(r.range(300, end / MS) * MS, "wkill").set("no", r.range(0, 3));
    if (r.chance(0.25)) p.op(r.range(300, end / MS) * MS, "wstall").set("no", r.range(0, 3)).set("dur", r.range(10, 2500));
    if (r.chance(0.2)) p.op(r.range(1, end / SEC) * SEC, "clock").set("by", r.range(-3600000, 3600000));
    us_t q = end + 16 * SEC; p.op(q, "quit"); p.op(q + 12 * SEC, "get").set("url", "/sys_stat?final");
    p.end = q + 13 * SEC;
}
static PropReg reg("P12", gen12, make_scn<P12>);
