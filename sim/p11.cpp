// P11: cross-server relay. Real servers relay to one another over a network that fails.
#include "scn.h"
#include "gen.h"
#include <algorithm>

struct P11 : Scn {
    using Scn::Scn;
    us_t t_fault = 0, t_quit = -1; map<string, Op> ops; map<string, bool> redone; vector<std::unique_ptr<Op>> again; bool faulty = false; bool push = false, http = false; int nurls = 1; us_t reconn = 3 * SEC;
    std::set<std::pair<int, int>> cut; struct Half { Conn *c; int alive; int node; us_t up; uint64_t sent; }; vector<Half> half; std::set<Conn *> silent; vector<std::pair<us_t, us_t>> refuse[4], hole[4]; map<string, vector<us_t>> tries; vector<std::pair<us_t, us_t>> downs[4];
    int node_of(const string &ip) { for (auto &n : nodes) if (n.ip == ip) return n.id; return -1; }
    virtual bool served(const string &) { return true; }
    virtual string relays() { return push ? "push" : "pull"; }      // the directive of the edge that makes them
    void fault(us_t until) { faulty = true; t_fault = std::max(t_fault, until); }
    void setup() override {
        push = pl.k("x.mode") == "push"; http = pl.k("x.mode") == "http"; nurls = (int) pl.kn_("x.urls", 1); string rc = pl.k("app.relay_reconnect", "3s"); reconn = rc.find("ms") != string::npos ? atoll(rc.c_str()) * MS : atoll(rc.c_str()) * SEC;
        for (auto &o : pl.ops) { if (o.verb == "quit") t_quit = o.t; if (o.verb == "pub" || o.verb == "play") ops[o.s("id")] = o; }
        w.connect_policy = [this](Sock *sk, const string &ip, int port) {
            int from = sk->node;
            tries[fmt("%d>%s:%d", from, ip.c_str(), port)].push_back(w.now);
            if (ip == "10.9.9.9") { w.fault("connection refused"); return 1; } if (ip == "10.9.9.8") { w.fault("connection black hole"); return 2; }
            int n = node_of(ip); if (n < 0) return 0;
            for (auto &x : refuse[n]) if (w.now >= x.first && w.now < x.second) { w.fault("connection refused"); return 1; }
            for (auto &x : hole[n]) if (w.now >= x.first && w.now < x.second) { w.fault("connection black hole"); return 2; }
            return 0;
        };
        w.link_blocked = [this](Conn *c) { if (silent.count(c)) return true; if (cut.empty()) return false; int a = node_of(c->e[0].ip), b = node_of(c->e[1].ip); return a >= 0 && b >= 0 && cut.count({std::min(a, b), std::max(a, b)}) > 0; };
        for (us_t t = 100 * MS; t < pl.end; t += 100 * MS) w.at(t, [this] { poll(); });
    }
    bool apply(const Op &o) override {
        int n = (int) o.n("node"); us_t d = o.n("dur") * MS;
        if (o.verb == "nrefuse" || o.verb == "nhole") { if (n < (int) nodes.size()) { (o.verb == "nrefuse" ? refuse : hole)[n].push_back({w.now, w.now + d}); fault(w.now + d); } return true; }
        if (o.verb == "ncut") { int b = (int) o.n("b"); std::pair<int, int> k = {std::min(n, b), std::max(n, b)}; w.fault("partition"); cut.insert(k); fault(w.now + d); w.after(d, [this, k] { cut.erase(k); w.trace("heal %d %d", k.first, k.second); w.kick_conns(); }); return true; }
        if (o.verb == "nreset") { int k = 0; for (auto &c : w.conns) if (!c->dead && c->established && node_of(c->e[0].ip) >= 0 && node_of(c->e[1].ip) >= 0 && node_of(c->e[0].ip) != node_of(c->e[1].ip)) { k++; w.conn_reset(c.get()); } if (k) { w.fault("relay connections reset"); fault(w.now); } return true; }
        if (o.verb == "ncrash") {
            if (n >= (int) nodes.size() || !nodes[n].p || nodes[n].p->st == PS_DEAD) return true;
            w.fault("node crash"); nodes[n].killed = true; downs[n].push_back({w.now, w.now + d}); fault(w.now + d + 500 * MS); for (auto &p : w.procs) if (p->node == n && p->st != PS_DEAD) w.kill_proc(p.get());
            w.after(d, [this, n] { if (!crashed) start_node(n); }); return true;
        }
        if (o.verb == "npower") {       // the node loses power: its peers are not told, only a later packet of theirs is answered with a reset
            if (n >= (int) nodes.size() || !nodes[n].p || nodes[n].p->st == PS_DEAD) return true;
            w.fault("node loses power"); nodes[n].killed = true; fault(w.now + d + 500 * MS);
            for (auto &c : w.conns) { int a = node_of(c->e[0].ip), b = node_of(c->e[1].ip); if (c->dead || !c->established || a < 0 || b < 0 || a == b || (a != n && b != n)) continue; int al = a == n ? 1 : 0; if (!c->e[al].open) continue; half.push_back({c.get(), al, n, w.now + d, c->p[1 - al].total_in}); silent.insert(c.get()); w.fault("half-open connection"); }
            for (auto &p : w.procs) if (p->node == n && p->st != PS_DEAD) w.kill_proc(p.get());
            w.after(d, [this, n] { if (!crashed) start_node(n); }); return true;
        }
        if (o.verb == "pstall") fault(w.now + d);
        if ((o.verb == "unpub" || o.verb == "unplay" || o.verb == "epoch") && ops.count(o.s("id"))) { string id = o.s("id"); while (redone[id] && ops.count(id + "r")) id += "r"; if (o.verb != "epoch") redone[id] = true; Op q = o; q.set("id", id); return Scn::apply(q); }
        return Scn::apply(o);
    }
    void poll() {
        for (size_t i = 0; i < half.size(); i++) { auto &h = half[i]; if (w.now < h.up || h.c->p[1 - h.alive].total_in == h.sent) continue; silent.erase(h.c); if (h.c->e[h.alive].open) { w.conn_reset(h.c); stat["half-open connections found out"]++; fault(w.now); } half.erase(half.begin() + i--); }
        if (t_quit >= 0 && w.now >= t_quit - SEC) return;
        auto back = [&](const string &id, us_t t_dead, us_t t_stop) {
            if (t_dead < 0 || t_stop >= 0 || redone[id] || w.now < t_dead + 400 * MS) return; redone[id] = true;
            auto u = std::make_unique<Op>(ops[id]); string nid = id + "r"; u->set("id", nid); u->t = w.now; ops[nid] = *u;
            stat["sessions that came back"]++; w.trace("%s", u->text().c_str()); Op *op = u.get(); again.push_back(std::move(u)); Scn::apply(*op);
        };
        for (size_t i = 0; i < pubs.size(); i++) back(pubs[i]->id, pubs[i]->t_dead, pubs[i]->t_stop);
        for (size_t i = 0; i < plays.size(); i++) back(plays[i]->id, plays[i]->t_dead, plays[i]->t_stop);
        for (auto &p : plays) {
            if (p->st > 1 || p->t_stop >= 0 || p->t_dead >= 0 || p->t_conn < 0) continue;
            PubS *q = nullptr; for (auto &x : pubs) if (x->name == p->name && x->st == 1 && x->t_start >= 0 && x->t_stop < 0 && x->t_dead < 0) q = x.get();
            if (!q || q->sent.size() < 20 || !served(p->name)) continue;
            us_t from = std::max({t_fault, p->t_req >= 0 ? p->t_req : p->t_conn, q->t_start});
            for (auto &x : pubs) if (x->name == p->name) { from = std::max(from, x->t_stop); from = std::max(from, x->t_dead); }
            us_t lim = (!faulty ? 4 * SEC + (nurls - 1) * (reconn + SEC) : 12 * SEC + nurls * (reconn + SEC)) + (us_t) q->mc.gop * SEC / std::max(1, q->mc.fps) + q->batch * 2; if (uplink_slow(*q)) p->t_req = w.now;
            if (w.now < from + lim) continue;
            us_t got = -1; for (size_t i = p->rx.size(); i-- > 0 && got < 0;) if (p->rx[i].pub == q->order) got = msg({p->rx[i].pub, p->rx[i].idx}).t_sent;
            us_t last = -1; for (auto &m : q->sent) if (!m.hdr && m.t_sent < w.now - 3 * SEC) last = m.t_sent;
            if (last < from + lim - 3 * SEC) continue;
            stat[p->node == q->node ? "local players up to date" : "far players up to date"]++;
            if (got < last - 3 * SEC && link_full(*p) < w.now - 4 * SEC && !uplink_slow(*q)) {
                bool ho = false; for (auto &h : half) if (http && h.c->e[h.alive].open && node_of(h.c->e[h.alive].ip) == p->node) ho = true;
                bad(ho ? "a pull over HTTP never notices that its origin lost power" : p->node == q->node ? "a local player does not get a stream that is being published" : fmt("a player of a relayed stream does not get it (%s)", pl.k("x.mode").c_str()), p->id + fmt(" of %s: last message it has was published at %.3f s, publisher %s started at %.3f s, last fault %.3f s, now %.3f s", p->name.c_str(), got / 1e6, q->id.c_str(), q->t_start / 1e6, t_fault / 1e6, w.now / 1e6)); p->st = 3; }
        }
        for (auto &q : pubs) if (q->t_start < 0 && q->t_dead < 0 && q->t_stop < 0 && q->t_pubreq >= 0 && q->status.empty() && w.now > std::max(q->t_pubreq, t_fault) + 10 * SEC) { bad("a publisher gets no answer", q->id); q->t_start = w.now; }
    }
    void finish() override {
        if (pl.kn_("sim.nodes") < 2) return;
        for (auto &p : plays) { AvOpt o; o.no_loss = !faulty; o.check_start = false; o.check_end = false; o.ts_exact = true; check_av(*this, *p, o); if (!p->rx.empty()) stat["players served"]++; }
        if (!faulty) {
            for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0) bad("a publisher is ended although nothing failed", p->id + fmt(" at %.3f s: %s", p->t_dead / 1e6, p->dead_why.c_str()));
            for (auto &p : plays) if (p->t_dead >= 0 && p->t_stop < 0 && !(p->kind == "flv" && p->rx.empty())) bad("a player is ended although nothing failed", p->id + fmt(" at %.3f s: %s", p->t_dead / 1e6, p->dead_why.c_str()));
        }
        // nobody is left: no relay goes on
        if (t_quit >= 0 && w.now > t_quit + 10 * SEC) {
            for (auto &c : w.conns) { int a = node_of(c->e[0].ip), b = node_of(c->e[1].ip); if (a >= 0 && b >= 0 && a != b && c->established && !c->dead && (c->e[0].open || c->e[1].open)) bad("a relay connection is left when nobody needs it", fmt("node %d to node %d", a, b)); }
            for (auto &t : tries) if (t.first[0] != '-' && !t.second.empty() && t.second.back() > t_quit + 5 * SEC) bad("a relay is still tried when nobody needs it", t.first + fmt(" at %.3f s", t.second.back() / 1e6));
            stat["idle relays checked"]++;
        }
        // and do not stop: a peer that is down is tried again within relay_reconnect as long as the stream is needed
        std::set<string> need; bool calm = nurls == 1 && !http && pl.kn_("sim.nodes") == 2 && pl.k("x.mode") != "" && relays() != "" && pl.k("n0.app." + relays()) != "";
        for (auto &o : pl.ops) { if (o.verb == "pstall" || o.verb == "hold" || o.verb == "stall" || ((o.verb == "ncrash" || o.verb == "npower") && o.n("node") == 0)) calm = false; if (o.n("node") == 0 && (o.verb == "pub" || o.verb == "play")) { if (push == (o.verb == "pub")) need.insert(o.s("name")); else if (!push) calm = false; } }
        if (calm && need.size() == 1) for (auto &v : tries["0>10.0.0.2:1935"]) {
            bool rf = false, ho = false; for (auto &x : refuse[1]) if (v >= x.first && v < x.second) rf = true; for (auto &x : hole[1]) if (v >= x.first && v < x.second) ho = true; if (!rf && !ho) continue;
            us_t lim = v + (ho ? 2 : 1) * reconn + 1500 * MS + 20 * pl.kn_("sim.sched_delay", 300); if (lim > w.now || (t_quit >= 0 && lim > t_quit)) continue; bool on = false, again = false;
            auto cov = [&](us_t a, us_t b, us_t c) { if (a >= 0 && a < v && (b < 0 || b > lim) && (c < 0 || c > lim)) on = true; };
            if (push) { for (auto &p : pubs) if (p->node == 0 && !uplink_slow(*p)) cov(p->t_start, p->t_stop, p->t_dead); } else for (auto &p : plays) if (p->node == 0) cov(p->t_req, p->t_stop, p->t_dead);
            for (auto &x : tries["0>10.0.0.2:1935"]) if (x > v && x <= lim) again = true;
            if (!on) continue; stat["attempts followed by another"]++; if (!again) { bad("a peer that is down is not tried again in time", fmt("%s at %.3f s, no attempt until %.3f s", ho ? "no answer" : "refused", v / 1e6, lim / 1e6)); break; }
        }
        // attempts thin out: per stream, no more than this many in any ten seconds
        std::set<string> names; for (auto &p : pubs) names.insert(p->name); for (auto &p : plays) names.insert(p->name);
        for (auto &t : tries) {
            if (faulty || t.first[0] == '-' || (t.first.find("10.9.9.") == string::npos)) continue;   // a relay that succeeded and broke is retried at once, so only without faults
            auto &v = t.second; int lim = (int) names.size() * (int) (12 + 12 * SEC / std::max<us_t>(reconn, 100 * MS)) * 2 + (int) pubs.size() * 3 + (int) plays.size() * 3;
            for (size_t i = 0, j = 0; i < v.size(); i++) { while (v[i] - v[j] > 10 * SEC) j++; if ((int) (i - j) > lim) { bad("a peer that cannot be reached is tried without backoff", t.first + fmt(": %d attempts within 10 s", (int) (i - j))); break; } }
            stat["attempts at dead peers"] += v.size();
        }
    }
};
static void gen11(Plan &p, Rng &r) {
    g_common(p, r); g_live_conf(p, r); p.kn.erase("rtmp.play_time_fix"); p.set("rtmp.out_queue", 4096);
    string mode = r.pick<string>({"pull", "pull", "push", "push", "http"}); p.set("x.mode", mode); bool three = r.chance(0.35); p.set("sim.nodes", three ? 3 : 2);
    p.set("rtmp.timeout", "4s"); p.set("rtmp.ping", "2s"); p.set("rtmp.ping_timeout", "2s");
    p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }");
    if (r.chance(0.5)) p.set("app.relay_reconnect", r.pick<string>({"300ms", "1s", "2s"}));
    if (r.chance(0.3)) p.set("app.failed_reconnect", r.pick<string>({"10ms", "50ms", "500ms"}));
    string sch = mode == "http" ? "http://" : "rtmp://", tail = mode == "http" ? " app=flv" : r.chance(0.5) ? " app=live" : ""; int urls = 1; string prt = mode == "http" ? ":80" : r.chance(0.5) ? ":1935" : "";
    string u; auto dead = [&] { if (r.chance(0.3)) { u += sch + r.pick<string>({"10.9.9.9", "10.9.9.8"}) + " "; urls++; } };
    dead(); u += sch + "10.0.0.2" + prt; if (three && mode != "push") { u += " " + sch + "10.0.0.3" + prt; urls++; } if (r.chance(0.3)) { u += " "; size_t n = u.size(); dead(); if (u.size() == n) u.pop_back(); else u.pop_back(); }
    p.set("x.urls", urls);
    if (mode == "push") { p.set("n0.app.push", u + tail); if (three) p.set(r.chance(0.5) ? "n0.app.push#2" : "n1.app.push", "rtmp://10.0.0.3" + tail); }
    else { p.set("n0.app.pull", u + tail); if (three) p.set("n2.app.pull", "rtmp://10.0.0.2"); }
    us_t end = r.range(8, 20) * SEC; int ns = (int) r.range(1, 3), np = 0, nv = 0; int src = mode == "push" ? 0 : 1;
    for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); us_t t = r.range(50, 4000) * MS; int gens = r.chance(0.4) ? 2 : 1;
        for (int g = 0; g < gens; g++) {
            Op &o = p.op(t, "pub"); string id = fmt("p%d", np++); o.set("id", id).set("name", name).set("node", src); g_media(o, r, p); g_link(o, r, &p); o.kv.erase("eager"); o.kv.erase("ts0"); o.kv.erase("inter");
            us_t te = std::min(t + (g + 1 < gens ? r.range(2500, 6000) * MS : end), end);
            if (r.chance(0.2)) p.op(r.range(t + 100 * MS, te), "epoch").set("id", id).set("what", r.pick<string>({"both", "v", "a"}));
            if (g + 1 < gens || r.chance(0.3)) p.op(te, "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset", "closestream"}));
            t = te + r.range(1000, 3500) * MS;
        }
        int n = (int) r.range(1, 5);
        for (int i = 0; i < n; i++) {
            us_t tp = r.range(20, end / MS) * MS; string id = fmt("v%d", nv++); Op &o = p.op(tp, "play"); string kind = r.chance(0.25) ? "flv" : "rtmp"; int nd = r.chance(0.8) ? (mode == "push" ? (three && r.chance(0.5) ? 2 : 1) : 0) : (int) r.below(three ? 3 : 2); o.set("id", id).set("name", name).set("node", nd).set("buflen", r.pick<int64_t>({-1, 100, 3000})); if (kind != "rtmp") o.set("kind", kind); g_link(o, r, &p);
            if (r.chance(0.35)) p.op(r.range(tp, end), "unplay").set("id", id).set("mode", kind == "rtmp" ? r.pick<string>({"close", "reset", "unplay"}) : r.pick<string>({"close", "reset"}));
        }
    }
    int nf = r.chance(0.65) ? (int) r.range(1, 3) : 0;
    for (int i = 0; i < nf; i++) {
        us_t t = r.range(300, end / MS) * MS; int64_t d = r.pick<int64_t>({r.range(10, 400), r.range(400, 3000), r.range(3000, 9000)}); int nd = (int) r.below(three ? 3 : 2);
        switch (r.below(7)) {
        case 0: p.op(t, "nrefuse").set("node", nd).set("dur", d); break;
        case 1: p.op(t, "nhole").set("node", nd).set("dur", d); break;
        case 2: p.op(t, "ncut").set("node", 0).set("b", three ? 1 + (int) r.below(2) : 1).set("dur", d); break;
        case 3: p.op(t, "nreset"); break;
        case 5: p.op(t, "npower").set("node", nd).set("dur", d); break;
        case 4: p.op(t, "ncrash").set("node", nd).set("dur", d); break;
        default: p.op(t, "pstall").set("node", nd).set("dur", std::min<int64_t>(d, 6000));
        }
        if (r.chance(0.3)) p.op(t + r.range(0, 500) * MS, "nreset");
    }
    if (hmix(p.seed, 1101) % 8 == 0 && mode != "http" && !three) {       // one stream, one target, which is away for long
        p.set(mode == "push" ? "n0.app.push" : "n0.app.pull", "rtmp://10.0.0.2" + tail); p.set("x.urls", 1); if (hmix(p.seed, 1102) % 2) p.set("app.relay_reconnect", "300ms"); string nm; for (auto &o : p.ops) if (nm.empty() && o.verb == "pub") nm = o.s("name");
        std::set<string> gone; for (auto &o : p.ops) if (o.has("name") && o.s("name") != nm) gone.insert(o.s("id")); p.ops.erase(std::remove_if(p.ops.begin(), p.ops.end(), [&](const Op &o) { return o.has("id") && gone.count(o.s("id")) > 0; }), p.ops.end());
        us_t t = (2000 + (int64_t) (hmix(p.seed, 1103) % 6000)) * MS; p.op(t, hmix(p.seed, 1104) % 3 ? "nrefuse" : "nhole").set("node", 1).set("dur", 4000 + (int64_t) (hmix(p.seed, 1105) % 9000)); p.op(t + 20 * MS, "nreset");
    }
    if (r.chance(0.15)) p.op(r.range(1, end / SEC) * SEC, "clock").set("by", r.range(-3600000, 3600000));
    us_t q = end + 34 * SEC; p.op(q, "quit"); p.end = q + 15 * SEC;
}
static PropReg reg("P11", gen11, make_scn<P11>);

// P27: relays directed by a callback server. The same servers and faults, but where to pull from and push to is asked for each stream.
struct P27 : P11 {
    using P11::P11;
    struct Call { us_t t, t_ans = -1; string call, act, name, cid, mode; int code = -1; bool loc = false; };
    vector<Call> calls; vector<std::unique_ptr<HttpSrv>> cbs; map<string, const Op *> pol; map<string, int> asked; vector<std::pair<us_t, us_t>> outages; std::set<string> gaveup; us_t tmo = SEC, slack = 600 * MS; bool upd = false, done = false; string dir;
    bool served(const string &name) override { return !gaveup.count(name); }
    void setup() override {
        P11::setup(); auto cp = w.connect_policy; w.connect_policy = [this, cp](Sock *sk, const string &ip, int port) { if (ip == "10.8.0.2") return 0; return cp(sk, ip, port); };
        dir = pl.k("n0.app.on_pull") != "" ? "pull" : "push"; string c = pl.k("n0.app.on_" + dir); upd = c.find("update,") != string::npos || c.find(",update") != string::npos; done = c.find("done") != string::npos; tmo = pl.kn_("x.timeout", 1000) * MS; slack += 16 * pl.kn_("sim.sched_delay", 300);
        for (auto &o : pl.ops) if (o.verb == "cb") pol[o.s("name") + "/" + o.s("act")] = &o;
        listen();
    }
    string relays() override { for (auto &o : pl.ops) if (o.verb == "cb" || o.verb == "cbdown") return ""; return "on_" + dir; }
    void listen() { w.listen("10.8.0.2", 80, [this](ActorConn *a) { cbs.push_back(std::make_unique<HttpSrv>(&w, a)); cbs.back()->on_req = [this](HttpSrv *h) { request(h); }; }); }
        void request(HttpSrv *h) {
        string l = h->p.line; size_t a = l.find(' '), b = l.rfind(' '), q = l.find('?'); if (q == string::npos || l.compare(0, 4, "GET ") || l.substr(a + 1, q - a - 1) != "/cb") { bad("a malformed callback request", l); h->reply(200, "", true); return; }
        map<string, string> m; for (auto &x : split(l.substr(q + 1, b - q - 1), '&')) { size_t e = x.find('='); string k = x.substr(0, e); if (m.count(k)) bad("a callback carries an argument twice", l); m[k] = e == string::npos ? "" : url_decode(x.substr(e + 1)); }
        Call c; c.t = w.now; c.call = m["call"]; c.act = m["act"]; c.name = m["name"]; c.cid = m["clientid"]; w.trace("callback %s", l.c_str()); stat["callbacks"]++;
        if (c.call != dir) bad("a callback of the wrong kind", l);
        if (m["app"] != "live" || m["domain"] != "sim.test" || m["tag"] != "x") bad("a callback about a relay names something else", l);
        bool known = false; for (auto &o : pl.ops) if ((o.verb == "pub" || o.verb == "play") && o.s("name") == c.name) known = true; if (!known) { bad("a callback about a stream that nobody has", l); h->reply(200, "", true); return; }
        const Op *o = nullptr; auto i = pol.find(c.name + "/" + c.act); if (i != pol.end() && asked[c.name + "/" + c.act]++ < i->second->n("n", 1)) o = i->second;
        c.mode = o ? o->s("mode", "ok") : "ok"; us_t d = o ? o->n("delay") * MS : (int64_t) (hmix(pl.seed, calls.size()) % 3) * 5 * MS; int code = o ? (int) o->n("code", 0) : 0; bool ka = hmix(pl.seed, calls.size() + 77) & 1; if (!code) code = c.act == "start" ? 302 : 200;
        if (c.mode != "ok") w.fault("callback " + c.mode); else if (code != 302 && c.act == "start") w.fault("callback refuses"); if (d > 100 * MS) w.fault("callback answers late");
        if (o) fault(w.now + std::max(d, tmo) + SEC);
        if (c.act == "start" && code == 200 && c.mode == "ok") gaveup.insert(c.name);
        c.loc = c.mode == "ok" && code / 100 == 3; size_t ix = calls.size(); calls.push_back(c); string name = c.name;
        auto act = [=, this] {
            if (h->dead) return; Call &c = calls[ix];
            if (c.mode == "drop") { h->ac->close(); h->dead = true; return; }
            if (c.mode == "rst") { h->ac->reset(); h->dead = true; return; }
            if (c.mode == "hang") return;
            string loc; if (code / 100 == 3) switch (c.mode == "ok" ? hmix(pl.seed, name.size() + 5) % 3 : 9) {
                case 0: loc = "rtmp://10.0.0.2/live/" + name; break; case 1: loc = "rtmp://10.0.0.2:1935/live"; break; case 2: loc = "rtmp://10.0.0.2:1935/live/" + name + "?a=b"; break;
                default: if (c.mode == "dead") loc = "rtmp://10.9.9.9/live/" + name; else if (c.mode == "hole") loc = "rtmp://10.9.9.8/live/" + name; else if (c.mode == "garbage") loc = o->s("loc"); }
            string r = fmt("HTTP/1.1 %d X\r\n", code) + (loc.empty() ? "" : "Location: " + loc + "\r\n") + (hmix(pl.seed, 9) % 3 == 0 ? "Domain: sim.test\r\n" : "") + fmt("Content-Length: 2\r\nConnection: %s\r\n\r\nok", ka ? "keep-alive" : "close");
            if (c.mode == "partial") { h->ac->send(r.substr(0, 8)); return; }
            if (c.mode == "partialdrop") { h->ac->send(r.substr(0, 8)); h->ac->close(); h->dead = true; return; }
            h->ac->send(r); c.t_ans = w.now; c.code = code; if (!ka) { h->ac->close(); h->dead = true; }
        };
        if (d) w.after(d, act); else act();
    }
    bool apply(const Op &o) override {
        if (o.verb == "cb") return true;
        if (o.verb == "cbdown") {
            us_t d = o.n("dur") * MS; string m = o.s("mode", "refuse"); w.fault("callback server " + m); outages.push_back({w.now, w.now + d}); fault(w.now + d + tmo + SEC);
            w.unlisten("10.8.0.2", 80); for (auto &h : cbs) if (!h->dead) { if (m == "vanish") h->ac->vanish(); else h->ac->reset(); h->dead = true; }
            if (m == "vanish") w.listen("10.8.0.2", 80, [this](ActorConn *a) { a->vanish(); });
            w.after(d, [this] { w.unlisten("10.8.0.2", 80); listen(); }); return true;
        }
        return P11::apply(o);
    }
    void finish() override {
        if (dir.empty() || pl.k("n0.app.on_" + dir) == "" || pl.kn_("sim.nodes") < 2) return;
        P11::finish();
        // who is asked about
        bool held = false; for (auto &o : pl.ops) if (o.verb == "pstall" || o.verb == "hold" || o.verb == "stall") held = true;
        for (auto &c : calls) {
            if (c.act != "start" || held) continue; bool need = false; us_t g = slack + SEC;
            if (dir == "pull") { for (auto &p : plays) if (p->node == 0 && p->name == c.name && p->t_conn >= 0 && p->t_conn <= c.t) { us_t e = p->t_stop; if (p->t_dead >= 0 && (e < 0 || p->t_dead < e)) e = p->t_dead; if (e < 0 || e + g > c.t) need = true; } }
            else for (auto &p : pubs) if (p->node == 0 && p->name == c.name && p->t_conn >= 0 && p->t_conn <= c.t) { us_t e = p->t_stop; if (p->t_dead >= 0 && (e < 0 || p->t_dead < e)) e = p->t_dead; if (e < 0 || e + g > c.t || uplink_slow(*p)) need = true; }
            if (!need) bad("a relay is asked for that nobody needs", c.name + fmt(" at %.3f s", c.t / 1e6)); else stat["relays asked for"]++;
        }
        for (auto &o : pl.ops) if ((o.verb == "ncrash" || o.verb == "npower") && o.n("node") == 0) return;       // a server that is killed reports nothing
        // a refusal ends those it was asked for, and a relay that is declined is not asked for again on their account
        if (!held) for (size_t i = 0; i < calls.size(); i++) {
            Call &c = calls[i]; if (c.act != "start" || c.t_ans < 0 || c.t_ans > c.t + std::min(tmo, reconn) - slack) continue; us_t lim = c.t_ans + slack + SEC; if (lim > w.now || (t_quit >= 0 && lim > t_quit)) continue;
            if (c.code >= 400) {
                if (dir == "pull") { bool local = false; int np = 0; for (auto &p : plays) if (p->node == 0 && p->name == c.name && p->t_conn >= 0 && p->t_conn <= c.t_ans + slack) np++; bool only = np == 1; for (auto &q : pubs) if (q->node == 0 && q->name == c.name) local = true; if (!local) for (auto &p : plays) if (p->node == 0 && p->name == c.name && p->st != 3 && p->t_req >= 0 && (p->t_req < c.t_ans - slack || (only && p->t_req <= c.t)) && (p->t_stop < 0 || p->t_stop > lim) && (p->t_dead < 0 || p->t_dead > lim)) { bad("a player waits on though its stream was refused", p->id + fmt(": refused at %.3f s with %d", c.t_ans / 1e6, c.code)); return; } }
                else for (auto &p : pubs) if (p->node == 0 && p->name == c.name && p->t_start >= 0 && p->t_start < c.t && (p->t_stop < 0 || p->t_stop > lim) && (p->t_dead < 0 || p->t_dead > lim) && !uplink_slow(*p)) { bad("a publisher goes on though its stream was refused", p->id + fmt(": refused at %.3f s with %d", c.t_ans / 1e6, c.code)); return; }
                stat["refused relays checked"]++;
            }
            if (c.code == 200) {
                for (size_t j = i + 1; j < calls.size(); j++) {
                    Call &d = calls[j]; if (d.act != "start" || d.name != c.name || d.t <= c.t_ans) continue; bool why = false;
                    for (auto &q : pubs) if (q->node == 0 && q->name == c.name && ((q->t_conn >= c.t - slack && q->t_conn <= d.t) || (q->t_pubreq >= c.t - slack && q->t_pubreq <= d.t) || (q->t_stop >= c.t - slack && q->t_stop <= d.t) || (q->t_dead >= c.t - slack && q->t_dead <= d.t))) why = true;
                    if (dir == "pull") for (auto &p : plays) if (p->node == 0 && p->name == c.name && ((p->t_conn >= c.t - slack && p->t_conn <= d.t) || (p->t_req >= c.t - slack && p->t_req <= d.t))) why = true;
                    if (!why) { bad("a relay that was declined is asked for again", c.name + fmt(" at %.3f s, declined at %.3f s", d.t / 1e6, c.t_ans / 1e6)); return; }
                    break;
                }
                stat["declined relays checked"]++;
            }
        }
        map<string, vector<Call *>> of; for (auto &c : calls) of[c.name].push_back(&c);
        for (auto &x : of) {
            int ns = 0, nd = 0, nrel = 0; us_t t_done = -1; bool last200 = false; std::set<us_t> open;
            for (auto c : x.second) {
                if (c->act == "start") { ns++; if (c->loc && c->t_ans >= 0 && c->t_ans < c->t + std::min(tmo, reconn) - slack) nrel++; last200 = c->t_ans >= 0 && c->code == 200; }
                else if (c->act == "update") { if (!upd) bad("an update callback without its stage configured", x.first); if (done && outages.empty() && !held && nd >= ns && c->t > t_done + slack) { bad("a relay that is not there is reported to go on", x.first + fmt(" at %.3f s: %d asked for, %d ended", c->t / 1e6, ns, nd)); break; } if (last200 && nd >= ns) bad("updates about a relay that was declined", x.first); stat["updates about relays"]++; }
                else if (c->act == "done") { if (!done) bad("a done callback without its stage configured", x.first); nd++; t_done = c->t; if (outages.empty() && !held && nd > ns) { bad("more done callbacks than relays", x.first + fmt(" at %.3f s: %d asked for", c->t / 1e6, ns)); break; } }
                else { bad("a callback of an unknown stage", c->act); return; }
            }
            if (done && outages.empty() && t_quit >= 0 && w.now > t_quit + 12 * SEC) { if (nd < nrel) { bad("a relay ended without its done callback", x.first + fmt(": %d asked for, %d granted, %d reported as ended", ns, nrel, nd)); return; } stat["relays accounted for"] += nrel; }
        }
        if (upd && done && outages.empty() && !held) for (auto &x : of) {
            string oc = pl.k("n0.app.on_" + dir); us_t lim = atoll(oc.c_str() + oc.find("update=") + 7) * MS + tmo + slack + SEC;
            for (size_t i = 0; i < x.second.size(); i++) {
                Call *c = x.second[i]; bool over = false; for (size_t j = i; j-- > 0 && x.second[j]->t > c->t - slack;) if (x.second[j]->act == "done") over = true; if (over || c->act == "done" || (c->act == "start" && !(c->loc && c->t_ans >= 0 && c->t_ans < c->t + std::min(tmo, reconn) - slack))) continue;
                us_t nx = i + 1 < x.second.size() ? x.second[i + 1]->t : w.now; if (nx > c->t + lim) { bad("a relay that goes on is not reported", x.first + fmt(": %s at %.3f s, the next callback at %.3f s", c->act.c_str(), c->t / 1e6, nx / 1e6)); break; } stat["relays reported in time"]++;
            }
        }
        if (t_quit >= 0) for (auto &c : calls) if (c.t > t_quit + 12 * SEC) { bad("callbacks about a relay go on when nobody is left", c.act + " " + c.name + fmt(" at %.3f s", c.t / 1e6)); break; }
    }
};
static void gen27(Plan &p, Rng &r) {
    gen11(p, r); bool pull = p.k("x.mode") != "push"; for (auto &k : {"n0.app.push", "n0.app.push#2", "n1.app.push", "n0.app.pull", "n2.app.pull"}) p.kn.erase(k);
    p.set("sim.nodes", 2); p.set("x.mode", pull ? "pull" : "push"); p.set("x.urls", 1); for (auto &o : p.ops) { if (o.n("node") == 2) o.set("node", 1); if (o.n("b") == 2) o.set("b", 1); }
    int tmo = (int) r.pick<int64_t>({700, 1000, 2000}); p.set("x.timeout", tmo);
    p.set(pull ? "n0.app.on_pull" : "n0.app.on_push", "http://10.8.0.2/cb stage=" + r.pick<string>({"start,update,done", "start,update,done", "start,done", "start,update", "start"}) + fmt(" timeout=%dms update=%dms args=tag=x", tmo, (int) r.pick<int64_t>({500, 1000, 3000})));
    std::set<string> names; us_t end = 0; for (auto &o : p.ops) { if (o.has("name")) names.insert(o.s("name")); if (o.verb == "quit") end = o.t - 34 * SEC; }
    int i = 0; if (r.chance(0.6)) for (auto &n : names) for (const char *act : {"start", "start", "update", "done"}) {
        if (string(act) == "start" && hmix(p.seed, 2750 + i) % 4 == 0) { Op &o = p.op(0, "cb"); o.set("name", n).set("act", act).set("n", hmix(p.seed, 2770 + i) % 3 + 1).set("code", hmix(p.seed, 2790 + i) % 2 ? 200 : hmix(p.seed, 2810 + i) % 2 ? 404 : 500); if (hmix(p.seed, 2830 + i) % 2) o.set("delay", (int64_t) (hmix(p.seed, 2850 + i) % (tmo * 3 / 4))); i++; break; }
        i++;
        if (!r.chance(0.35)) continue; Op &o = p.op(0, "cb"); o.set("name", n).set("act", act).set("n", r.range(1, 3));
        switch (r.below(6)) {
        case 0: o.set("code", string(act) == "start" ? r.pick<int64_t>({400, 403, 404, 404, 500, 503, 200}) : r.pick<int64_t>({204, 404, 500})); break;
        case 1: o.set("mode", r.pick<string>({"drop", "rst", "hang", "partial", "partialdrop"})); break;
        case 2: o.set("delay", tmo + r.range(-300, 2500)); break;
        case 3: o.set("mode", r.pick<string>({"dead", "hole", "none"})); break;
        case 4: o.set("mode", "garbage").set("loc", r.pick<string>({"x", "rtmp://", "rtmp:///live/s0", "rtmp://10.0.0.2:99999/live", "http://", "/live/s0", "rtmp://10.0.0.2:1935/", "rtmp://10.0.0.2:1935//", "rtmp://10.0.0.2:/live/s0", "ftp://10.0.0.2/live", "rtmp://10.0.0.2:1935/live/", "rtmp://no.such.host/live", string(600, 'a')})); break;
        default: o.set("delay", r.pick<int64_t>({30, 200, tmo / 2}));
        }
    }
    if (r.chance(0.4)) { static const std::set<string> nf = {"nrefuse", "nhole", "ncut", "nreset", "ncrash", "npower", "pstall"}; p.ops.erase(std::remove_if(p.ops.begin(), p.ops.end(), [](const Op &o) { return nf.count(o.verb) > 0; }), p.ops.end()); }
    if (r.chance(0.25)) p.op(r.range(300, end / MS) * MS, "cbdown").set("dur", r.range(200, 3000)).set("mode", r.pick<string>({"refuse", "vanish"}));
}
static PropReg reg27("P27", gen27, make_scn<P27>);
