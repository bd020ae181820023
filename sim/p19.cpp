// P19: the dynamic resolver serves fresh addresses and survives DNS failure.
#include "scn.h"
#include "gen.h"
#include <arpa/inet.h>

struct P19 : Scn {
    using Scn::Scn;
    struct Rec { us_t t; std::set<string> ips; int64_t ttl; };
    struct Query { us_t t; string name, server; int type, id; us_t t_eff = -1; int n = 0; };      // t_eff: the first answer to it reached the server
    struct Ans { us_t t; std::set<string> ips; bool v6; };
    struct Att { us_t t; string name, ip; };
    map<string, vector<Rec>> recs; map<string, vector<Query>> qs; map<string, vector<Ans>> eff; vector<Att> att; vector<std::pair<us_t, us_t>> bad_t; vector<std::unique_ptr<HttpSrv>> cbs; map<string, int> calls; map<string, us_t> t_call;
    struct Mode { string mode; us_t until = -1; int64_t p = 100; }; map<string, Mode> mode; uint64_t nq = 0; us_t refresh = 5 * SEC, tmo = SEC; int64_t valid = -1; us_t dly = 0; bool dyn = true, v6 = false;
    const vector<string> ports = {"80", "1935", "8081"}; const vector<string> names = {"cb.sim.test", "push.sim.test", "pull.sim.test"};
    static us_t dur(const string &s) { return s.find("ms") != string::npos ? atoll(s.c_str()) * MS : atoll(s.c_str()) * SEC; }
    Rec *cur(const string &n, us_t t) { Rec *x = nullptr; for (auto &r : recs[n]) if (r.t <= t) x = &r; return x; }
    void setup() override {
        refresh = dur(pl.k("events.dynamic_refresh_interval", "5s")); tmo = pl.kn_("x.timeout", 1000) * MS; dyn = pl.k("main.dynamic_resolver") != "off"; dly = pl.kn_("x.delay", 1) * MS; string rv = pl.k("events.resolver"); size_t v = rv.find("valid="); if (v != string::npos) valid = atoll(rv.c_str() + v + 6); v6 = rv.find("ipv6=off") == string::npos;
        w.on_udp = [this](Sock *s, const string &d) { query(s, d); };
        w.connect_policy = [this](Sock *s, const string &ip, int port) { if (s->node != 0) return 0; if (ip == "?") { bad("a connection to something that is not an address", fmt("at %.3f s", w.now / 1e6)); return 0; } for (size_t i = 0; i < 3; i++) if (ports[i] == fmt("%d", port)) { att.push_back({w.now, names[i], ip}); w.trace("connects to %s for %s", ip.c_str(), names[i].c_str()); return i ? 1 : 0; } if (port < 53 || port > 53) bad("a connection to a port nobody named", ip + fmt(":%d", port)); return 0; };
        for (int i = 1; i <= 9; i++) w.listen(fmt("10.60.0.%d", i), 80, [this](ActorConn *a) { cbs.push_back(std::make_unique<HttpSrv>(&w, a)); cbs.back()->on_req = [this](HttpSrv *h) { size_t k = h->p.line.find("tok="); string t = k == string::npos ? "" : h->p.line.substr(k + 4, h->p.line.find_first_of(" &", k) - k - 4); calls[t]++; t_call[t] = w.now; h->reply(200, "OK"); }; });
    }
    static void p16(string &o, int v) { o += (char) (v >> 8); o += (char) v; } static void p32(string &o, uint32_t v) { p16(o, v >> 16); p16(o, v & 65535); }
    void query(Sock *s, const string &d) {
        if (d.size() < 17 || s->dst_port != 53) { bad("a malformed DNS query", fmt("%zu bytes to port %d", d.size(), s->dst_port)); return; }
        int id = (uint8_t) d[0] << 8 | (uint8_t) d[1]; string nm; size_t i = 12; while (i < d.size() && d[i]) { size_t l = (uint8_t) d[i]; if (!nm.empty()) nm += '.'; nm += d.substr(i + 1, l); i += l + 1; } if (i + 5 > d.size()) { bad("a malformed DNS query", nm); return; }
        int type = (uint8_t) d[i + 1] << 8 | (uint8_t) d[i + 2]; string quest = d.substr(12, i + 5 - 12); string srv = s->dst_ip; stat["DNS queries"]++;
        if (!recs.count(nm)) { bad("a query for a name nobody configured", nm); return; }
        auto &ql = qs[nm]; size_t qi = ql.size(); for (size_t k = 0; k < ql.size(); k++) if (ql[k].id == id && ql[k].type == type && w.now < ql[k].t + 70 * SEC) qi = k; if (qi == ql.size()) { Query q; q.t = w.now; q.name = nm; q.type = type; q.id = id; ql.push_back(q); } ql[qi].n++; ql[qi].server = srv;
        uint64_t h = hmix(pl.seed, ++nq); Mode m; if (mode.count(srv)) m = mode[srv]; if (mode.count("*") && w.now < mode["*"].until) m = mode["*"]; if (w.now >= m.until || (int64_t) (h % 100) >= m.p) m.mode = "ok"; h = hmix(h, 7);
        w.trace("DNS query %d for %s type %d to %s: %s", id, nm.c_str(), type, srv.c_str(), m.mode.c_str()); if (m.mode != "ok") { w.fault("DNS " + m.mode); bad_t.push_back({w.now, w.now}); }
        if (m.mode == "drop") return;
        Rec *r = cur(nm, w.now); std::set<string> ips; string ans; int n = 0, rc = 0; vector<string> list; for (auto &x : r->ips) if ((x.find(':') != string::npos) == (type == 28)) list.push_back(x);
        for (size_t k = list.size(); k > 1; k--) std::swap(list[k - 1], list[(h >> (k * 3)) % k]);
        if (m.mode == "servfail") rc = 2; else if (m.mode == "nxdomain") rc = 3; else if (m.mode == "refused") rc = 5; else if (m.mode == "formerr") rc = 1;
        if (rc == 0 && m.mode != "empty") {
            bool cn = (h >> 40) % 4 == 0 && !list.empty(); string ref = "\xc0\x0c";
            if (cn) { string al("\x05" "alias\x03" "sim\x04" "test\0", 16); ans += ref; p16(ans, 5); p16(ans, 1); p32(ans, (uint32_t) r->ttl); p16(ans, (int) al.size()); int off = 12 + (int) quest.size() + 12; ans += al; n++; ref.clear(); p16(ref, 0xc000 | off); }
            for (auto &x : list) { ans += ref; p16(ans, type); p16(ans, 1); p32(ans, (uint32_t) r->ttl); char b[16]; int l = type == 28 ? 16 : 4; inet_pton(type == 28 ? AF_INET6 : AF_INET, x.c_str(), b); p16(ans, l); ans += string(b, l); ips.insert(x); n++; }
        }
        string o; int rid = m.mode == "wrongid" ? id ^ 0x5a5a : id; p16(o, rid); p16(o, 0x8180 | rc); p16(o, 1); p16(o, m.mode == "badcount" ? n + 3 : n); p16(o, 0); p16(o, 0); o += quest + ans;
        if (m.mode == "garbage") { o.clear(); for (int k = 0, l = (int) (h % 120); k < l; k++) o += (char) hmix(h, k); if (o.size() > 2 && (h >> 20) % 2) { o[0] = d[0]; o[1] = d[1]; } }
        if (m.mode == "cut") o.resize(h % (o.size() + 1));
        if (m.mode == "wrongname") { o = string(); p16(o, id); p16(o, 0x8180); p16(o, 1); p16(o, n); p32(o, 0); string q2 = quest; q2[1] = 'x'; o += q2 + ans; }
        bool good = m.mode == "ok" || m.mode == "delay" || m.mode == "dup"; us_t dl = dly + (us_t) (h >> 16) % 2000; if (m.mode == "delay") dl += 50 * MS + (us_t) (h % 9000) * MS;
        if (m.mode == "delay") bad_t.push_back({w.now, w.now + dl});
        auto send = [&](us_t d) { w.udp_deliver(s, o, d); int sid = s->id; w.after(d, [=, this] { arrive(nm, qi, good, ips, sid); }); };
        send(dl); if (m.mode == "dup") { send(dl + (us_t) (h % 3000) * MS); send(dl + 1); }
    }
    // only the first answer to the question that is open counts
    void arrive(const string &nm, size_t qi, bool good, std::set<string> ips, int) {
        auto &ql = qs[nm]; Query &q = ql[qi]; if (q.t_eff >= 0) return; for (size_t k = qi + 1; k < ql.size(); k++) if (ql[k].type == q.type) return;      // an older question
        if (!good) { return; } q.t_eff = w.now;
        // with IPv6 the answers to both questions make one result
        if (v6) { Query *o = nullptr; for (size_t k = 0; k < ql.size(); k++) if (ql[k].type != q.type) o = &ql[k]; if (!o || o->t_eff < 0) { part[nm] = ips; return; } for (auto &x : part[nm]) ips.insert(x); part[nm].clear(); }
        if (!ips.empty()) { Ans a; a.t = w.now; a.ips = ips; a.v6 = false; for (auto &x : ips) if (x.find(':') != string::npos) a.v6 = true; eff[nm].push_back(a); stat["answers that arrived"]++; }
    }
    map<string, std::set<string>> part;
    bool apply(const Op &o) override {
        if (o.verb == "rec") { Rec r; r.t = w.now; r.ttl = o.n("ttl", 1); for (auto &x : split(o.s("ips"), ',')) if (!x.empty()) r.ips.insert(x); if (!recs[o.s("name")].empty()) w.fault("DNS record changed"); recs[o.s("name")].push_back(r); return true; }
        if (o.verb == "dns") { Mode m; m.mode = o.s("mode"); m.until = w.now + o.n("dur") * MS; m.p = o.n("p", 100); mode[o.s("server", "*")] = m; bad_t.push_back({w.now, m.until}); return true; }
        return Scn::apply(o);
    }
    bool faulty(us_t a, us_t b) { for (auto &x : bad_t) if (x.second >= a && x.first <= b) return true; return false; }
    int64_t ttl_at(const string &n) { int64_t m = 0; for (auto &r : recs[n]) m = std::max(m, r.ttl); return valid >= 0 ? valid : m; }
    void finish() override {
        us_t slack = 2500 * MS + 20 * pl.kn_("sim.sched_delay", 300) + dly * 3;
        for (auto &a : att) {
            stat["connections made"]++; auto &e = eff[a.name]; bool ever = false, told = false; for (auto &r : recs[a.name]) if (r.t <= a.t && r.ips.count(a.ip)) ever = true; for (auto &x : e) if (x.t <= a.t && x.ips.count(a.ip)) told = true;
            string what = fmt("%s for %s at %.3f s", a.ip.c_str(), a.name.c_str(), a.t / 1e6);
            if (!ever) { bad("a connection to an address that was never published", what); continue; }
            if (!told && !faulty(0, a.t)) { bad("a connection to an address that no answer named", what); continue; }
            // published until when?
            us_t until = -1; for (size_t i = 0; i < recs[a.name].size(); i++) { auto &r = recs[a.name][i]; if (r.t <= a.t && r.ips.count(a.ip)) until = i + 1 < recs[a.name].size() ? recs[a.name][i + 1].t : INT64_MAX / 2; }
            us_t lim = ttl_at(a.name) * SEC + refresh + slack; if (until + lim < a.t && !faulty(until - 65 * SEC, a.t)) bad("a changed record is not picked up", what + fmt(", withdrawn at %.3f s", until / 1e6));
            us_t last = -1, newer = -1; for (auto &x : e) if (x.t <= a.t) { if (x.ips.count(a.ip)) last = x.t; } for (auto &x : e) if (x.t > last && x.t + lim < a.t && newer < 0) newer = x.t;
            if (last >= 0 && newer >= 0) { int k = 0; for (auto &b : bad_t) if (b.second >= last && b.first <= a.t) k++; if (!k) bad("an address is used that newer answers do not name", what + fmt(", last named at %.3f s, newer answer at %.3f s", last / 1e6, newer / 1e6)); }
            if (until < a.t) stat["uses of a withdrawn address within the limit"]++;
        }
        for (auto &p : pubs) {
            if (calls[p->id] > 1) bad("a caller was answered twice", p->id + fmt(": %d callbacks", calls[p->id])); int st = 0; for (auto &x : p->status) if (x.second == "NetStream.Publish.Start") st++; if (st > 1) bad("a caller was answered twice", p->id);
            us_t end = p->t_stop >= 0 ? p->t_stop : w.now; if (p->t_pubreq < 0) continue; us_t q = p->t_pubreq, lag = slack + 300 * MS; bool decided = p->t_start >= 0 || p->t_dead >= 0; us_t td = p->t_start >= 0 ? p->t_start : p->t_dead; us_t nres = calls[p->id] ? t_call[p->id] : td;
            if (end > q + tmo + lag && (!decided || td > q + tmo + lag)) { bad("a caller is never answered", p->id + fmt(" publishes at %.3f s", q / 1e6)); continue; }
            stat["callers answered"] += decided; if (p->t_start >= 0) { stat["callers told an address"]++; continue; }
            if (end < q + tmo + lag) continue; bool names_v6 = false; for (auto &r : recs["cb.sim.test"]) for (auto &x : r.ips) if (x.find(':') != string::npos) names_v6 = true; if (names_v6) continue; (void) nres;
            // it was refused: was an address known in time?
            bool known = false; auto &e = eff["cb.sim.test"]; if (dyn) { for (auto &x : e) if (x.t < q + tmo - 500 * MS - slack / 4) { if (!faulty(q - 70 * SEC, q + tmo) || x.t < q - refresh - slack) known = true; } } else if (!faulty(q - 70 * SEC, q + tmo) && dly * 2 < tmo / 2) known = true;
            if (known) bad("a known address is not used", p->id + fmt(" publishes at %.3f s and is refused at %.3f s", q / 1e6, td / 1e6));
        }
        // when everything is well again, the relay reaches the current address
        us_t lastf = 0; for (auto &b : bad_t) lastf = std::max(lastf, b.second); for (auto &n : names) for (auto &r : recs[n]) lastf = std::max(lastf, r.t);
        if (pl.k("app.push") != "") for (auto &p : pubs) if (p->t_start >= 0 && p->t_stop < 0 && p->t_dead < 0) {
            us_t from = std::max(lastf, p->t_start) + ttl_at("push.sim.test") * SEC + refresh + 8 * SEC + slack + 2 * 10 * SEC; if (from + 8 * SEC > pl.end) continue; bool hit = false, any = false; Rec *r = cur("push.sim.test", pl.end); for (auto &a : att) if (a.name == "push.sim.test" && a.t > from) { any = true; if (r->ips.count(a.ip)) hit = true; }
            bool v = false; for (auto &x : r->ips) if (x.find(':') != string::npos) v = true; if (v) continue;
            if (!any) bad("no attempt to relay although the address is known", p->id); else if (!hit) bad("the relay never tries the current address", p->id); else stat["relays at the current address"]++;
        }
    }
};
static void gen19(Plan &p, Rng &r) {
    g_common(p, r); p.set("sim.sched_delay", r.pick<int64_t>({50, 300, 2000}));
    bool two = r.chance(0.3), six = r.chance(0.25); string rv = two ? "10.53.0.1 10.53.0.2" : "10.53.0.1"; if (r.chance(0.3)) rv += fmt(" valid=%ds", (int) r.range(1, 4)); if (!six) rv += " ipv6=off";
    p.set("events.resolver", rv); p.set("events.dynamic_refresh_interval", r.pick<string>({"300ms", "1s", "1s", "2s", "5s"})); p.set("events.resolver_timeout", r.pick<string>({"1s", "3s", "10s", "60s"})); if (r.chance(0.2)) p.set("events.dynamic_domain_buckets", r.pick<int64_t>({1, 3, 101}));
    int tmo = (int) r.pick<int64_t>({1000, 3000}); p.set("x.timeout", tmo); p.set("x.delay", r.pick<int64_t>({0, 1, 20, 200})); if (r.chance(0.25)) p.set("main.dynamic_resolver", "off");
    p.set("app.on_publish", fmt("http://cb.sim.test/pub stage=start timeout=%dms args=tok=$parg_tok", tmo)); p.set("app.relay_reconnect", r.pick<string>({"300ms", "1s"})); p.set("rtmp.timeout", "60s"); p.set("main.keepalive", "10ms");
    if (r.chance(0.7)) p.set("app.push", "rtmp://push.sim.test app=live"); else if (r.chance(0.5)) p.set("app.pull", "http://pull.sim.test:8081 app=flv");
    bool pull = p.kn.count("app.pull"); us_t end = r.range(8, 25) * SEC; int np = 0;
    for (string n : {"cb.sim.test", "push.sim.test", "pull.sim.test"}) {
        auto ips = [&] { string s; int k = (int) r.pick<int64_t>({1, 1, 2, 3, 8, 9}); std::set<int> u; while ((int) u.size() < k) u.insert((int) r.range(1, 9)); for (int x : u) s += (s.empty() ? "10.60.0." : ",10.60.0.") + std::to_string(x); if (six && r.chance(0.7)) for (int x = 0, m = (int) r.pick<int64_t>({1, 2, 8}); x < m; x++) s += fmt(",fd00::%d", x + 1); return s; };
        int64_t ttl = r.pick<int64_t>({0, 1, 2, 5, 30}); p.op(0, "rec").set("name", n).set("ips", ips()).set("ttl", ttl);
        for (int i = 0, c = (int) r.range(0, 3); i < c; i++) p.op(r.range(500, end / MS) * MS, "rec").set("name", n).set("ips", ips()).set("ttl", ttl);
    }
    int nf = r.chance(0.75) ? (int) r.range(1, 5) : 0;
    for (int i = 0; i < nf; i++) { Op &o = p.op(r.chance(0.3) ? 0 : r.range(0, end / MS) * MS, "dns"); o.set("mode", r.pick<string>({"drop", "drop", "servfail", "nxdomain", "refused", "formerr", "delay", "delay", "dup", "dup", "empty", "wrongid", "wrongname", "garbage", "cut", "badcount"})).set("dur", r.pick<int64_t>({r.range(50, 2000), r.range(2000, 12000)})).set("p", r.pick<int64_t>({100, 100, 50, 20})); if (two && r.chance(0.4)) o.set("server", r.chance(0.5) ? "10.53.0.1" : "10.53.0.2"); }
    int n = (int) r.range(4, 16);
    for (int i = 0; i < n; i++) {
        us_t t = (r.chance(0.3) ? r.range(0, 800) : r.range(10, end / MS)) * MS; string id = fmt("p%d", np++); Op &o = p.op(t, "pub"); o.set("id", id).set("name", id).set("args", "tok=" + id).set("fps", 5).set("gop", 10).set("lat", r.pick<int64_t>({100, 3000})).set("seg", r.pick<int64_t>({0, 1, 2}));
        if (r.chance(0.8)) p.op(t + r.pick<us_t>({r.range(20, 1500), r.range(2000, 8000)}) * MS, "unpub").set("id", id).set("mode", r.pick<string>({"close", "reset", "unpub"}));
    }
    if (pull) for (int i = 0; i < 3; i++) { us_t t = r.range(10, end / MS) * MS; string id = fmt("v%d", i); p.op(t, "play").set("id", id).set("name", fmt("q%d", i)); p.op(t + r.range(1000, 8000) * MS, "unplay").set("id", id).set("mode", "close"); }
    p.end = end + r.pick<us_t>({8, 8, 50}) * SEC;
}
static PropReg reg("P19", gen19, make_scn<P19>);
