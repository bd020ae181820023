// P20: the configuration is reloaded at run time, whole and only when it is valid, and what it does not change goes on.
#include "scn.h"
#include "gen.h"
#include <unistd.h>
#include <sys/stat.h>

struct P20 : Scn {
    using Scn::Scn;
    struct Ver { us_t t; bool valid; vector<std::pair<string, string>> srv; string def; std::set<string> pulls; string what; };
    vector<Ver> vers; us_t intv = SEC, lim = 0; string file, pdom, pid; int nconf = 0; std::unique_ptr<HttpSrv> dummy; vector<std::unique_ptr<HttpSrv>> cbs; map<string, std::pair<us_t, string>> sids; vector<std::pair<us_t, us_t>> bad_t; vector<std::pair<us_t, us_t>> refuse, hole; vector<us_t> tries; vector<std::pair<us_t, int64_t>> heap;
    static us_t dur(const string &s) { return s.find("ms") != string::npos ? atoll(s.c_str()) * MS : atoll(s.c_str()) * SEC; }
    // the file that an op writes, and what it means
    string render(const Op &o, Ver &v) {
        string kind = o.s("kind"); v.valid = true; v.what = kind.empty() ? fmt("%d", nconf) : kind;
        int pad = (int) o.n("pad"); string c, ind = "    "; auto comment = [&](int n) { while (n > 0) { int k = std::min(n, 70); c += "# " + string(k, "abcdefgh{};\"'"[rng.below(13)]) + "\n"; n -= k; } };
        if (kind == "empty") { if (o.n("pad")) comment(pad); return c; }
        comment(pad); c += "rtmp {\n"; for (auto &x : split(o.s("pulls"), ',')) if (!x.empty()) { v.pulls.insert(x); c += ind + "static_pull rtmp://" + nodes[1].ip + "/live domain=" + pdom + " app=live name=" + x + ";\n"; }
        if (kind == "badpull") c += ind + "static_pull rtmp://" + nodes.back().ip + " domain=" + pdom + " name=q;\n"; if (kind == "dup" && !v.pulls.empty()) c += ind + "static_pull rtmp://" + nodes[1].ip + " domain=" + pdom + " app=live name=" + *v.pulls.rbegin() + ";\n";
        if (kind != "nosrv") {
            v.def = o.s("def"); c += ind + "server {\n        server_name none.test;\n" + (v.def.empty() ? "" : "        serverid " + v.def + ";\n") + "    }\n"; comment(pad / 2);
            if (!pid.empty()) { c += ind + "server { server_name " + pdom + "; serverid " + pid + "; }\n"; v.srv.push_back({pdom, pid}); }
            for (auto &x : split(o.s("srv"), ',')) if (x.find(':') != string::npos) { string n = x.substr(0, x.find(':')), k = x.substr(x.find(':') + 1); v.srv.push_back({n, k}); c += ind + "server {\n        server_name " + n + ";\n" + (o.n("apps") ? "        application live { }\n" : "") + "        serverid " + k + ";\n    }\n"; }
        }
        if (kind == "badarg") c += ind + "server { server_name u.test; serverid; }\n"; if (kind == "unknown") c += ind + "nothing_of_this_name on;\n"; if (kind == "badserver") c += ind + "server { server_name *; }\n"; if (kind == "badregex") c += ind + "server { server_name \"~^(a\"; serverid x; }\n"; if (kind == "noblock") c += ind + "server;\n"; if (kind == "misplaced") c += ind + "serverid y;\n";
        c += "}\n"; if (kind == "after") c += "junk on;\n"; if (kind == "brace") c += "}\n"; if (kind == "open") c += "rtmp {\n"; if (kind == "quote") c += "rtmp \"x\n";
        if (kind == "cut") { size_t a = c.find("rtmp {") + 6, b = c.rfind('}'); c.resize(a + (size_t) o.n("at") % (b - a)); }
        static const std::set<string> inv = {"badarg", "unknown", "badserver", "badregex", "noblock", "misplaced", "after", "brace", "open", "quote", "cut", "badpull"}; if (inv.count(kind) || (kind == "dup" && !v.pulls.empty())) v.valid = false;
        return c;
    }
    void put(const string &c, Ver v, bool ren) { v.t = w.now; vers.push_back(v); if (ren) { write_file(file + ".new", c); rename((file + ".new").c_str(), file.c_str()); } else write_file(file, c); w.trace("file is %s (%s), %zu bytes", v.what.c_str(), v.valid ? "valid" : "invalid", c.size()); w.fault(v.valid ? "configuration changed" : "invalid configuration written"); }
    void edit(const Op &o, bool first) {
        Ver v; string c = render(o, v); nconf++; string how = o.s("how", "ren");
        if (first) { v.t = 0; vers.push_back(v); write_file(file, c); return; }
        if (o.s("kind") == "missing") { v.t = w.now; v.valid = false; v.what = "missing"; vers.push_back(v); unlink(file.c_str()); w.fault("configuration file removed"); return; }
        if (o.s("kind") == "dir") { v.t = w.now; v.valid = false; v.what = "dir"; vers.push_back(v); unlink(file.c_str()); mkdir(file.c_str(), 0755); w.fault("configuration file is a directory"); return; }
        rmdir(file.c_str());
        if (how == "two") { size_t a = c.find("rtmp {"), b = c.rfind('}'); if (a != string::npos && b > a + 6) { Ver h = v; h.valid = false; h.what = "half written"; put(c.substr(0, a + 6 + (size_t) o.n("at") % (b - a - 6)), h, false); int k = nconf; w.after(o.n("dur", 5) * MS, [this, c, v, k] { if (k == nconf) put(c, v, false); }); return; } }
        put(c, v, how == "ren");
    }
    // which configurations may be in force
    vector<const Ver *> possible(us_t t) const { vector<const Ver *> o; for (size_t i = vers.size(); i-- > 0;) { if (vers[i].t > t) continue; us_t e = i + 1 < vers.size() ? std::min(vers[i + 1].t, t) : t; if (!vers[i].valid) continue; o.push_back(&vers[i]); if (e - vers[i].t >= lim || i == 0) break; } return o; }
    static string lookup(const Ver &v, const string &d) {
        for (auto &x : v.srv) if (x.first == d) return x.second;
        size_t best = 0; string id; bool hit = false; for (auto &x : v.srv) if (x.first.compare(0, 2, "*.") == 0) { string s = x.first.substr(1); if (d.size() > s.size() && d.compare(d.size() - s.size(), s.size(), s) == 0 && s.size() > best) { best = s.size(); id = x.second; hit = true; } } if (hit) return id;
        for (auto &x : v.srv) if (x.first.size() > 2 && x.first.compare(x.first.size() - 2, 2, ".*") == 0) { string s = x.first.substr(0, x.first.size() - 1); if (d.size() > s.size() && d.compare(0, s.size(), s) == 0 && s.size() > best) { best = s.size(); id = x.second; hit = true; } } if (hit) return id;
        if (d == "none.test") return v.def.empty() ? "default" : v.def;
        for (auto &x : v.srv) if (x.first[0] == '~' && d.size() > 4 && d[0] == 'r' && d.substr(d.size() - 3) == ".re" && d.find_first_not_of("0123456789", 1) == d.size() - 3) return x.second;
        return v.def.empty() ? "default" : v.def;
    }
    bool must(const string &s, us_t t) const { auto p = possible(t); if (p.empty()) return false; for (auto v : p) if (!v->pulls.count(s)) return false; return true; }
    bool may(const string &s, us_t a, us_t b) const { for (auto v : possible(b)) if (v->pulls.count(s)) return true; for (auto v : possible(a)) if (v->pulls.count(s)) return true; for (auto &v : vers) if (v.t >= a && v.t <= b && v.valid && v.pulls.count(s)) return true; return false; }
    bool faulty(us_t a, us_t b) const { for (auto &x : bad_t) if (x.second >= a && x.first <= b) return true; return false; }
    void setup() override {
        intv = dur(pl.k("x.interval", "1s")); pdom = pl.k("x.pdom", "default"); pid = pl.k("x.pid"); lim = intv + 60 * MS + 30 * pl.kn_("sim.sched_delay", 300); for (auto &o : pl.ops) if (o.verb == "pstall") lim += o.n("dur") * MS;
        for (int i = 0; i < 2 && i < (int) nodes.size(); i++) { mkdir(nodes[i].prefix.c_str(), 0755); mkdir((nodes[i].prefix + "/data").c_str(), 0755); } file = nodes[0].prefix + "/data/dyn.conf";
        bool any = false; for (auto &o : pl.ops) if (o.verb == "conf" && o.t == 0) { edit(o, true); any = true; break; } if (!any) { Ver v; v.t = 0; v.valid = true; vers.push_back(v); write_file(file, ""); }
        w.listen("10.8.0.2", 80, [this](ActorConn *a) { cbs.push_back(std::make_unique<HttpSrv>(&w, a)); cbs.back()->on_req = [this](HttpSrv *h) { auto arg = [&](const string &k) { size_t i = h->p.line.find(k); return i == string::npos ? string() : h->p.line.substr(i + k.size(), h->p.line.find_first_of(" &", i + k.size()) - i - k.size()); }; string tok = arg("tok="); if (!tok.empty() && !sids.count(tok)) sids[tok] = {w.now, arg("sid=")}; w.trace("%s has %s", tok.c_str(), arg("sid=").c_str()); h->reply(200, "OK"); }; });
        w.connect_policy = [this](Sock *sk, const string &ip, int port) {
            if (sk->node != 0 || nodes.size() < 2 || ip != nodes[1].ip || port != 1935) return 0; tries.push_back(w.now);
            for (auto &x : refuse) if (w.now >= x.first && w.now < x.second) { w.fault("connection refused"); return 1; }
            for (auto &x : hole) if (w.now >= x.first && w.now < x.second) { w.fault("connection black hole"); return 2; } return 0;
        };
    }
    bool apply(const Op &o) override {
        if (o.verb == "conf") { if (o.t == 0 && w.now == 0 && nconf == 1) { nconf++; return true; } if (pl.kn_("x.soak")) { Proc *p = nodes[0].p; if (p && p->st != PS_DEAD) heap.push_back({w.now, p->heap_bytes}); } edit(o, false); return true; }
        us_t d = o.n("dur") * MS; if (o.verb == "nrefuse") { refuse.push_back({w.now, w.now + d}); bad_t.push_back({w.now, w.now + d}); return true; } if (o.verb == "nhole") { hole.push_back({w.now, w.now + d}); bad_t.push_back({w.now, w.now + d}); return true; }
        if (o.verb == "nreset") { int k = 0; for (auto &c : w.conns) if (!c->dead && c->established && nodes.size() > 1 && c->e[0].ip == nodes[0].ip && c->e[1].ip == nodes[1].ip) { k++; w.conn_reset(c.get()); } if (k) { w.fault("relay connections reset"); bad_t.push_back({w.now, w.now}); } return true; }
        if (o.verb == "ctl") { fetch(0, "/control/" + o.s("m") + "?srv=" + o.s("srv") + "&app=live&name=" + o.s("name", "nobody"), [this](HttpGet *g) { w.trace("control answers %d", g->conn_err ? -1 : g->p.status); if (g->p.status != 200) bad("a control request is refused", g->url); else stat["control requests"]++; }); return true; }
        if (o.verb == "pstall") bad_t.push_back({w.now, w.now + d});
        if (o.verb == "ncrash") { int n = (int) o.n("node"); if (n >= (int) nodes.size() || !nodes[n].p || nodes[n].p->st == PS_DEAD) return true; w.fault("node crash"); nodes[n].killed = true; bad_t.push_back({w.now, w.now + d + 500 * MS}); for (auto &p : w.procs) if (p->node == n && p->st != PS_DEAD) w.kill_proc(p.get()); w.after(d, [this, n] { if (!crashed) start_node(n); }); return true; }
        return Scn::apply(o);
    }
    void finish() override {
        // sessions live under the server id that the configuration in force gives their domain
        for (auto &p : pubs) {
            if (p->node != 0 || pl.k("n0.app.on_publish").find("sid=$serverid") == string::npos) continue; size_t tk = p->args.find("tok="); if (tk == string::npos) continue; string tok = p->args.substr(tk + 4); string dom = "sim.test"; if (p->tcurl.compare(0, 7, "rtmp://") == 0) dom = p->tcurl.substr(7, p->tcurl.find('/', 7) - 7);
            if (!sids.count(tok)) { if (p->t_start >= 0) bad("a publisher was not announced", p->id); continue; } auto &x = sids[tok]; std::set<string> ok; us_t a = p->t_conn; for (auto v : possible(a)) ok.insert(lookup(*v, dom)); for (auto v : possible(x.first)) ok.insert(lookup(*v, dom)); for (auto &v : vers) if (v.valid && v.t >= a && v.t <= x.first) ok.insert(lookup(v, dom));
            stat["sessions checked"]++; if (ok.size() == 1) stat["sessions with one possible server id"]++;
            if (!ok.count(x.second)) { string l; for (auto &k : ok) l += " " + k; bad("a session got a server id that no configuration in force gives it", p->id + " in " + dom + " has " + x.second + ", expected" + l + fmt(" at %.3f s", x.first / 1e6)); }
            if (p->t_dead >= 0 && p->t_stop < 0 && !p->rejected) bad("a session ended for no reason", p->id);
        }
        us_t lat = 500 * MS + 20 * pl.kn_("sim.sched_delay", 300), R = dur(pl.k("app.relay_reconnect", "3s")) + 2 * SEC + 30 * pl.kn_("sim.sched_delay", 300);
        for (auto &p : plays) {
            if (p->node != 0) continue; std::set<std::pair<int, int>> got; us_t end = p->t_stop >= 0 ? p->t_stop : w.now;
            for (auto &m : p->rx) { if (m.pub < 0) continue; got.insert({m.pub, m.idx}); if (!may(p->name, m.t - lat - 200 * MS, m.t)) { bad("a static pull goes on after it was removed", p->id + " " + p->name + fmt(" at %.3f s", m.t / 1e6)); break; } }
            if (p->t_dead >= 0 && p->t_stop < 0) { bad("a player of a configured stream is sent away", p->id + fmt(" at %.3f s ", p->t_dead / 1e6) + p->dead_why); continue; }
            if (p->t_start < 0) { if (end > p->t_conn + 3 * SEC) bad("a player is not accepted", p->id); continue; }
            for (auto &q : pubs) {
                if (q->node != 1 || q->name != p->name || q->t_start < 0) continue; us_t from = -1; bool was = false; int lost = 0, seen = 0, firstl = -1;
                for (size_t i = 0; i < q->sent.size(); i++) {
                    auto &m = q->sent[i]; if (m.meta || m.hdr) continue; bool ok = must(p->name, m.t_sent) && !faulty(m.t_sent - 25 * SEC, m.t_sent + lat) && m.t_sent > q->t_start && m.t_sent > p->t_start + 200 * MS && m.t_sent < end - lat && (q->t_stop < 0 || m.t_sent < q->t_stop - 300 * MS) && (q->t_dead < 0 || m.t_sent < q->t_dead - lat);
                    if (!ok) { from = -1; was = false; continue; } if (!was) { from = m.t_sent; was = true; }
                    if (m.t_sent < from + R) continue; seen++; if (!got.count({q->order, (int) i}) && !got.count({(int) (&q - &pubs[0]), (int) i})) { lost++; if (firstl < 0) firstl = (int) i; }
                }
                stat["frames that had to come through a static pull"] += seen;
                if (lost) { bad(lost == seen ? "a configured static pull does not run" : "a static pull that stays configured is interrupted", p->id + " of " + p->name + fmt(": %d of %d frames missing, first at %.3f s", lost, seen, q->sent[firstl].t_sent / 1e6)); break; }
            }
        }
        // as many connections to the origin as there are static pulls
        if (nodes.size() > 1) { auto ps = possible(w.now); us_t quiet = 0; for (auto &v : vers) quiet = std::max(quiet, v.t); if (ps.size() == 1 && quiet + lim + 2 * SEC < w.now && !faulty(w.now - 25 * SEC, w.now)) { int n = 0; for (auto &c : w.conns) if (!c->dead && c->established && c->e[0].ip == nodes[0].ip && c->e[1].ip == nodes[1].ip && c->e[0].open) n++; stat["connection counts compared"]++; if (n > (int) ps[0]->pulls.size()) bad("more static pulls run than are configured", fmt("%d, %zu configured", n, ps[0]->pulls.size())); if (n < (int) ps[0]->pulls.size()) bad("fewer static pulls run than are configured", fmt("%d, %zu configured", n, ps[0]->pulls.size())); } }
        if (pl.kn_("x.soak") && heap.size() >= 30) { size_t n = heap.size(); bool g = true; for (size_t i = n - 20; i + 2 < n; i += 2) if (heap[i + 2].second <= heap[i].second) g = false; stat["reloads under watch for growth"] += n; if (g) bad("memory in use grows with every reload", fmt("%ld bytes at %.1f s, %ld bytes at %.1f s", (long) heap[n - 20].second, heap[n - 20].first / 1e6, (long) heap[n - 1].second, heap[n - 1].first / 1e6)); }
        stat["versions of the file"] += vers.size();
    }
};
static void gen20(Plan &p, Rng &r) {
    g_common(p, r); string iv = r.pick<string>({"200ms", "500ms", "1s", "1s"}); us_t I = iv == "200ms" ? 200 * MS : iv == "500ms" ? 500 * MS : SEC; p.set("x.interval", iv); p.set("n0.main.dynamic_conf", "@PREFIX@/data/dyn.conf " + iv);
    bool pulls = r.chance(0.65), soak = r.chance(0.12); p.set("sim.nodes", 2); p.set("rtmp.out_queue", 8192); p.set("loc.location", "/control { rtmp_control all; }");
    p.set("n0.app.on_publish", "http://10.8.0.2/cbpublish stage=start timeout=2s args=tok=$parg_tok&sid=$serverid"); p.set("app.on_publish", "-"); p.set("app.relay_reconnect", r.pick<string>({"300ms", "1s", "3s"}));
    bool zdom = pulls && r.chance(0.4); if (zdom) { p.set("x.pdom", "z.test"); if (r.chance(0.6)) p.set("x.pid", "kz"); }
    const vector<string> pats = {"a.test", "b.test", "*.w.test", "*.y.w.test", "t.*", "~^r[0-9]+\\.re$", "x.w.test"}, doms = {"a.test", "b.test", "x.w.test", "q.w.test", "z.y.w.test", "t.foo", "r12.re", "none.test", "other.test"};
    us_t end = r.range(8, 20) * SEC; int ns = (int) r.range(1, 4), nv = 0, np = 0; const vector<string> bads = {"badarg", "unknown", "badserver", "badregex", "noblock", "misplaced", "after", "after", "brace", "open", "quote", "cut", "cut", "badpull", "dup", "dup"};
    auto fill = [&](Op &o) {
        string srv; for (auto &x : pats) if (r.chance(0.5)) srv += (srv.empty() ? "" : ",") + x + ":k" + std::to_string(r.range(1, 9)); o.set("srv", srv); if (!pulls && r.chance(0.3)) o.set("def", fmt("kd%d", (int) r.below(4))); if (r.chance(0.2)) o.set("apps", 1); if (r.chance(0.2)) o.set("pad", r.pick<int64_t>({10, 3800, 4050, 4090, 9000}));
        if (pulls) { string s; for (int i = 0; i < ns; i++) if (r.chance(0.6)) s += (s.empty() ? "" : ",") + fmt("s%d", i); o.set("pulls", s); }
    };
    fill(p.op(0, "conf")); bool odd = p.k("x.pid").empty();
    if (soak) { p.set("x.soak", 1); Op a = p.ops.back(), b; string iv2; Op &o = p.op(I, "conf"); fill(o); a = o; Op &q = p.op(2 * I, "conf"); fill(q); b = q; b.set("pad", r.range(11, 60)); p.ops.pop_back(); p.ops.pop_back(); bool inv = r.chance(0.4); if (inv) b.set("kind", r.pick<string>(bads)).set("at", r.range(1, 3000)); us_t step = I + 300 * MS + 30 * p.kn_("sim.sched_delay"); int n = 60; for (int i = 0; i < n; i++) { Op &c = p.op(i * step + 10 * MS, "conf"); int id = c.id; us_t t = c.t; c = i % 2 ? a : b; c.id = id; c.t = t; c.verb = "conf"; } end = n * step + SEC; p.end = end + 3 * SEC; return; }
    int ne = (int) r.range(2, 9); us_t t = r.range(300, 2500) * MS;
    for (int i = 0; i < ne && t < end; i++) {
        Op &o = p.op(t, "conf"); fill(o); if (r.chance(0.45)) o.set("kind", r.chance(0.15) ? r.pick<string>({"missing", "missing", "dir"}) : odd && r.chance(0.2) ? r.pick<string>({"empty", "nosrv"}) : r.pick<string>(bads)).set("at", r.range(0, 3000)); else if (r.chance(0.25)) o.set("how", "two").set("at", r.range(0, 3000)).set("dur", r.pick<int64_t>({1, 5, 50, 700, 2500})); else if (r.chance(0.3)) o.set("how", "inplace");
        if (i && r.chance(0.2)) { Op *f = nullptr; for (auto &x : p.ops) if (x.verb == "conf") { f = &x; break; } Op &u = p.ops.back(); for (string k : {"srv", "pulls", "def", "pad", "apps"}) { u.kv.erase(k); if (f->has(k)) u.set(k, f->s(k)); } }
        t += r.pick<us_t>({r.range(5, 300), r.range(300, 1500), r.range(1500, 5000)}) * MS;
    }
    for (int i = 0, n = (int) r.range(4, 20); i < n; i++) { us_t tt = r.range(20, end / MS) * MS; string id = fmt("p%d", np++); Op &o = p.op(tt, "pub"); o.set("id", id).set("name", id).set("args", "tok=" + id).set("fps", 5).set("gop", 10).set("lat", r.pick<int64_t>({100, 3000})).set("vhost", r.pick<string>(doms)); p.op(tt + r.range(200, 2500) * MS, "unpub").set("id", id).set("mode", r.pick<string>({"close", "reset", "unpub"})); }
    if (pulls) for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); us_t t0 = r.range(10, 1500) * MS; int g = r.chance(0.25) ? 2 : 1;
        for (int k = 0; k < g; k++) { string id = fmt("o%d_%d", s, k); Op &o = p.op(t0, "pub"); o.set("id", id).set("node", 1).set("name", name).set("fps", 10).set("gop", 10).set("lat", 100); us_t e = k + 1 < g ? t0 + r.range(2000, 6000) * MS : end + 20 * SEC; if (k + 1 < g || r.chance(0.2)) p.op(std::min(e, end), "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset"})); t0 = e + r.range(500, 2000) * MS; }
        for (int k = 0, n = (int) r.range(1, 2); k < n; k++) { us_t tt = r.range(10, end / MS) * MS; string id = fmt("v%d", nv++); Op &o = p.op(tt, "play"); o.set("id", id).set("name", name).set("lat", 100); if (zdom) o.set("vhost", "z.test"); if (r.chance(0.3)) p.op(tt + r.range(500, 6000) * MS, "unplay").set("id", id).set("mode", "close"); }
    }
    if (pulls && r.chance(0.35)) for (int i = 0, n = (int) r.range(1, 3); i < n; i++) { us_t tt = r.range(100, end / MS) * MS; int k = (int) r.below(4); if (k == 0) p.op(tt, "nrefuse").set("dur", r.range(50, 4000)); else if (k == 1) p.op(tt, "nhole").set("dur", r.range(50, 3000)); else if (k == 2) p.op(tt, "nreset"); else p.op(tt, "ncrash").set("node", 1).set("dur", r.range(50, 2500)); if (k < 2 && r.chance(0.7)) p.op(tt + r.range(1, 400) * MS, "nreset"); }
    for (int i = 0; i < 3; i++) if (r.chance(0.3)) p.op(r.range(100, end / MS) * MS, "ctl").set("m", r.pick<string>({"drop/client", "drop/publisher", "drop/subscriber"})).set("srv", r.pick<string>({"", "", "none.test", "kz9"}));
    if (r.chance(0.2)) p.op(r.range(1, end / SEC) * SEC, "clock").set("by", r.range(-86400000, 86400000)); if (r.chance(0.15)) p.op(r.range(1, end / SEC) * SEC, "pstall").set("node", 0).set("dur", r.range(10, 1500));
    p.end = end + 8 * SEC;
}
static PropReg reg("P20", gen20, make_scn<P20>);
