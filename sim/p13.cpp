// P13: callbacks decide who is admitted, and bracket every session.
#include "scn.h"
#include "gen.h"

struct P13 : Scn {
    using Scn::Scn;
    struct Call { us_t t = 0, t_ans = -1; string tok, call, act, name, app, domain, cid; int code = -1; string mode; bool resp = false; };   // resp: a usable answer was sent in full
    vector<Call> calls; vector<std::unique_ptr<HttpSrv>> cbs; us_t tmo = 1 * SEC, upd = 0, slack = 400 * MS; bool down = false, ign = false, gate_pub = false, gate_play = false, st_upd = false, st_done = false; vector<std::pair<us_t, us_t>> outages, idles; std::set<HttpSrv *> busy; map<HttpSrv *, us_t> last_act; map<string, const Op *> pol;
    static us_t dur(const string &s) { return s.find("ms") != string::npos ? atoll(s.c_str()) * MS : atoll(s.c_str()) * SEC; }
    static map<string, string> args(const string &line) {
        map<string, string> m; size_t a = line.find(' '), b = line.rfind(' '); string u = line.substr(a + 1, b - a - 1); size_t q = u.find('?'); m["_path"] = u.substr(0, q); if (q == string::npos) return m;
        for (auto &x : split(u.substr(q + 1), '&')) { size_t e = x.find('='); string k = x.substr(0, e); m[(m.count(k) ? k + "#2" : k)] = e == string::npos ? "" : x.substr(e + 1); }
        return m;
    }
    void setup() override {
        ign = pl.k("app.ignore_invalid_notify") == "on"; gate_pub = pl.k("app.on_publish") != ""; gate_play = pl.k("app.on_play") != ""; tmo = pl.kn_("x.timeout", 1000) * MS; upd = pl.kn_("x.update", 1000) * MS;
        string s = pl.k("app.on_publish") + pl.k("app.on_play"); st_upd = s.find("update,") != string::npos || s.find(",update") != string::npos; st_done = s.find("done") != string::npos;
        slack += 4 * pl.kn_("sim.sched_delay", 300) * 4;
        for (auto &o : pl.ops) if (o.verb == "cb") pol[o.s("tok") + "/" + o.s("act")] = &o;
        listen();
    }
    void listen() {
        w.listen("10.8.0.2", 80, [this](ActorConn *a) {
            cbs.push_back(std::make_unique<HttpSrv>(&w, a)); HttpSrv *h = cbs.back().get();
            h->on_req = [this](HttpSrv *h) { request(h); };
        });
    }
    void request(HttpSrv *h) {
        auto m = args(h->p.line); Call c; c.t = w.now; c.tok = m["tok"]; c.call = m["call"]; c.act = m["act"]; c.name = url_decode(m["name"]); c.app = url_decode(m["app"]); c.domain = m["domain"]; c.cid = m["clientid"];
        w.trace("callback %s", h->p.line.c_str()); stat["callbacks"]++;
        if (h->p.line.compare(0, 4, "GET ") != 0 || m["_path"] != "/cb" + c.call) bad("a malformed callback request", h->p.line);
        for (auto &i : m) if (i.first.find("#2") != string::npos) bad("a callback carries an argument twice", h->p.line);
        const Op *o = nullptr; auto i = pol.find(c.tok + "/" + c.act); if (i != pol.end()) o = i->second; if (c.tok.empty()) { auto k = pol.find("*/" + c.call); if (k != pol.end()) o = k->second; }
        c.mode = o ? o->s("mode", "ok") : "ok"; us_t d = o ? o->n("delay") * MS : 0; int code = o ? (int) o->n("code", 200) : 200; bool ka = o ? o->n("ka") : hmix(pl.seed, calls.size()) & 1; bool clen = o ? o->n("clen", 1) : true, chunked = o && o->n("chunked"); string body(o ? o->n("body") : 2, 'x');
        if (!clen && !chunked) ka = false;
        size_t ix = calls.size(); calls.push_back(c); if (c.mode != "ok") w.fault("callback " + c.mode); else if (code >= 300) w.fault("callback refuses");
        busy.insert(h); last_act[h] = w.now + d;
        auto act = [=, this] {
            if (h->dead) return; Call &c = calls[ix];
            if (c.mode != "hang" && c.mode != "partial" && c.mode != "dribble") busy.erase(h);
            if (c.mode == "drop") { h->ac->close(); h->dead = true; return; }
            if (c.mode == "rst") { h->ac->reset(); h->dead = true; return; }
            if (c.mode == "hang") return;
            string b = body; if (chunked) b = body.empty() ? "0\r\n\r\n" : fmt("%zx\r\n", body.size()) + body + "\r\n0\r\n\r\n";
            string r = fmt("HTTP/1.1 %d X\r\nServer: sim\r\n", code); if (chunked) r += "Transfer-Encoding: chunked\r\n"; else if (clen) r += fmt("Content-Length: %zu\r\n", body.size()); r += fmt("Connection: %s\r\n\r\n", ka ? "keep-alive" : "close");
            if (c.mode == "partial") { h->ac->send(r.substr(0, r.size() / 2)); return; }
            if (c.mode == "partialdrop") { h->ac->send(r.substr(0, r.size() / 2)); h->ac->close(); h->dead = true; return; }
            if (c.mode == "nobody") { h->ac->send(r); c.t_ans = w.now; c.code = code; c.resp = true; return; }
            if (c.mode == "dribble") { string all = r + b; for (size_t k = 0; k < all.size(); k++) w.after(k * 2 * MS, [this, h, all, k, ka, ix, code, r] { if (h->dead) return; h->ac->send(all.substr(k, 1)); if (k + 1 == r.size()) { Call &c = calls[ix]; c.t_ans = w.now; c.code = code; c.resp = true; } if (k + 1 == all.size()) busy.erase(h); if (k + 1 == all.size() && !ka) { h->ac->close(); h->dead = true; } }); return; }
            h->ac->send(r + b); c.t_ans = w.now; c.code = code; c.resp = true; if (!ka) { h->ac->close(); h->dead = true; }
        };
        if (d) w.after(d, act); else act();
    }
    bool apply(const Op &o) override {
        if (o.verb == "cb") return true;
        if (o.verb == "quit") { for (auto &p : pubs) if (p->st < 2) { us_t t = p->t_stop; stop_pub(p.get(), "reset"); if (t >= 0) p->t_stop = t; } for (auto &p : plays) if (p->st < 2) { us_t t = p->t_stop; stop_play(p.get(), "reset"); if (t >= 0) p->t_stop = t; } }
        if (o.verb == "cbdown") {      // the callback server is gone for a while
            us_t d = o.n("dur") * MS; string m = o.s("mode", "refuse"); w.fault("callback server " + m); outages.push_back({w.now, w.now + d + (m == "vanish" ? 60 * SEC : 0)});   // a kept-alive connection may have died silently
            w.unlisten("10.8.0.2", 80); for (auto &h : cbs) if (!h->dead) { if (m == "vanish") h->ac->vanish(); else h->ac->reset(); h->dead = true; }
            if (m == "vanish") w.listen("10.8.0.2", 80, [this](ActorConn *a) { a->vanish(); });
            w.after(d, [this] { w.unlisten("10.8.0.2", 80); listen(); }); return true;
        }
        if (o.verb == "cbidle") { idles.push_back({w.now, w.now}); for (auto &h : cbs) if (!h->dead && !busy.count(h.get())) { h->ac->close(); h->dead = true; } w.fault("callback server closes idle connections"); return true; }
        return Scn::apply(o);
    }
    bool in_outage(us_t a, us_t b) { for (auto l : {&outages, &idles}) for (auto &x : *l) if (a <= x.second + 3500 * MS && b >= x.first) return true; return false; }
    struct Sess { string id, what, kind, name, app; bool gated; us_t t_req, t_eff, t_stop, t_dead, t_conn; string stop_mode; bool repub = false, eager = false; vector<std::pair<us_t, string>> *status; ActorConn *ac; bool refused_later = false, held = false; int http = 0; us_t lat; };
    void finish() override {
        vector<Sess> ss;
        for (auto &p : pubs) { Sess s; s.id = p->id; s.what = "publisher"; s.kind = "rtmp"; s.name = p->name; s.app = p->app; s.gated = gate_pub; s.t_req = p->t_pubreq; s.t_eff = p->t_start; s.t_stop = p->t_stop; s.t_dead = p->t_dead; s.t_conn = p->t_conn; s.stop_mode = p->stop_mode; s.status = &p->status; s.ac = p->ac; for (auto &x : p->status) if (x.second.find("BadName") != string::npos) s.refused_later = true; ss.push_back(s); }
        for (auto &p : plays) { Sess s; s.id = p->id; s.what = p->kind == "rtmp" ? "player" : "HTTP-" + p->kind + " viewer"; s.kind = p->kind; s.name = p->name; s.app = p->app; s.gated = gate_play; s.t_req = p->t_req; s.t_eff = p->kind == "rtmp" ? p->t_start : p->http_status == 200 ? p->t_start : -1; if (p->t_first >= 0 && (s.t_eff < 0 || p->t_first < s.t_eff)) s.t_eff = p->t_first; s.t_stop = p->t_stop; s.t_dead = p->t_dead; s.t_conn = p->t_conn; s.stop_mode = p->stop_mode; s.status = &p->status; s.ac = p->ac; s.http = p->http_status; ss.push_back(s); }
        for (auto &s : ss) for (auto &o : pl.ops) { if ((o.verb == "hold" || o.verb == "stall") && o.s("id") == s.id) s.held = true; if ((o.verb == "pub" || o.verb == "play" || o.verb == "repub") && o.s("id") == s.id) { s.lat = (o.n("lat", 500) + o.n("jit", 0)) * 3; s.repub = o.verb == "repub"; s.eager = o.n("eager"); } }
        map<string, string> cid_of; std::set<string> known;
        for (auto &s : ss) known.insert(s.id);
        for (auto &c : calls) { if (c.call != "publish" && c.call != "play") continue; if (!known.count(c.tok)) bad("a callback for a session which does not exist", c.call + " " + c.act + " " + c.tok); }
        for (auto &s : ss) if (s.gated) check(s);
        // a callback server that never finishes its answer is given up
        if (pl.k("main.header_timeout") == "2s") for (auto h : busy) { if (!h->dead && last_act[h] + tmo + 4 * SEC + slack < pl.end) bad("a connection to a silent callback server is kept for ever", fmt("last request at %.3f s", last_act[h] / 1e6)); else if (h->dead) stat["silent callback servers given up"]++; }
        // on_stream brackets the life of every stream
        if (pl.k("app.on_stream") != "") { map<string, vector<Call *>> by; for (auto &c : calls) if (c.call == "stream") by[c.name].push_back(&c);
            for (auto &i : by) { int open = 0; string line; if (!outages.empty()) continue; bool gone = false; for (auto &v : plays) if (v->name == i.first && v->stop_mode == "vanish") gone = true; for (auto &v : pubs) if (v->name == i.first && v->stop_mode == "vanish") gone = true; if (gone) continue; auto &q = i.second; for (size_t k = 0; k + 1 < q.size(); k++) { bool want_start = k % 2 == 0; if ((q[k]->act == "start") != want_start && (q[k + 1]->act == "start") == want_start && q[k + 1]->t < q[k]->t + slack) std::swap(q[k], q[k + 1]); } for (auto c : i.second) line += " " + c->act; for (auto c : i.second) { if (c->act == "start") { if (open++) bad("a stream was started twice in a row", i.first + ":" + line); } else if (c->act == "done") { if (!open--) bad("a stream ended that was not started", i.first + ":" + line); } } stat["streams bracketed"]++; if (open && st_sdone()) bad("the end of a stream was not announced", i.first + ":" + line); } }
    }
    bool st_sdone() { return pl.k("app.on_stream").find("done") != string::npos; }
    void check(Sess &s) {
        string who = s.what + " " + s.id; vector<Call *> st, up, dn, all; for (auto &c : calls) if (c.tok == s.id && (c.call == "publish" || c.call == "play")) { all.push_back(&c); (c.act == "start" ? st : c.act == "update" ? up : dn).push_back(&c); }
        stat["sessions checked"]++;
        us_t dead = s.t_dead, end = s.t_stop >= 0 ? s.t_stop : dead; if (dead >= 0 && (end < 0 || dead < end)) end = dead;
        // identity
        for (auto c : all) {
            if (c->call != (s.what == "publisher" ? "publish" : "play")) bad("a callback of the wrong kind", who + ": " + c->call);
            if (c->name != s.name || c->app != s.app || c->domain != "sim.test") bad("a callback names the wrong stream", who + ": " + c->domain + "/" + c->app + "/" + c->name);
            if (c->cid != all[0]->cid || c->cid.empty()) bad("the callbacks of a session carry different client ids", who + ": " + all[0]->cid + " and " + c->cid);
            if (c->t < s.t_conn) bad("a callback before its session", who);
        }
        if (st.size() > 1) bad("more than one start callback for one session", who + fmt(": %zu", st.size()));
        // admission
        Call *c = st.empty() ? nullptr : st[0]; bool effective = s.t_eff >= 0 && !(s.refused_later && s.what == "publisher");
        bool media_heard = false; us_t t_heard = -1;
        if (s.what == "publisher") for (auto &v : plays) for (auto &r : v->rx) if (r.pub >= 0 && !r.hdr && pubs[r.pub]->id == s.id) { if (t_heard < 0 || r.t < t_heard) t_heard = r.t; media_heard = true; }
        us_t eff = s.t_eff; if (media_heard && (eff < 0 || t_heard < eff)) eff = t_heard;
        bool ok_code = c && c->resp && c->code >= 200 && c->code < 300;
        if (eff >= 0 && !(s.refused_later && !media_heard)) {
            stat["admitted"]++;
            if (!c) { if (!ign) bad(s.what == "publisher" ? "a publish took effect without its callback" : "a play took effect without its callback", who); else if (!in_outage(s.t_req, eff)) bad("a session took effect and its start callback was never made", who); }
            else if (!ok_code && !(ign && !c->resp)) bad(s.what == "publisher" ? "a publish took effect though the callback server did not agree" : "a play took effect though the callback server did not agree", who + fmt(" at %.3f s: %s %d", eff / 1e6, c->mode.c_str(), c->code));
            else if (ok_code && eff < c->t_ans && !(ign && eff > c->t + tmo - 50 * MS)) bad("a session took effect before the callback server answered", who + fmt(": %.3f s, answered %.3f s", eff / 1e6, c->t_ans / 1e6));
            else if (!ok_code && ign && c->mode == "hang" && !in_outage(c->t, eff) && eff < s.t_req + tmo - 10 * MS) bad("a session took effect before its callback timed out", who);
        }
        // nobody left before the decision, nothing stood in the way: it has to be taken in time
        us_t gone = end >= 0 ? end : pl.end; bool link_ok = !s.held && s.ac && !(s.stop_mode == "vanish");
        if (c && link_ok) {
            bool late = c->t_ans < 0 || c->t_ans > c->t + tmo - 30 * MS, maybe = c->t_ans >= 0 && c->t_ans > c->t - slack + tmo && c->t_ans < c->t + tmo + slack;
            us_t decided = c->resp && !late ? c->t_ans : c->t + tmo;
            bool granted = c->resp && !late ? ok_code : ign; if (c->resp && !ok_code && !late) granted = false;
            if (!maybe && granted && (s.t_stop < 0 || s.t_stop > decided + slack + s.lat + 500 * MS) && pl.end > decided + slack + s.lat + 500 * MS) {
                if (s.refused_later) {} else if (s.what == "publisher" && (s.t_eff < 0 || s.t_eff > decided + slack + s.lat)) bad("a publish was not started though the callback server agreed", who + fmt(": decided %.3f s", decided / 1e6));
                else if (s.kind == "rtmp" && s.what == "player" && pl.k("app.publish_notify") != "on" && (s.t_eff < 0 || s.t_eff > decided + slack + s.lat)) bad("a play was not started though the callback server agreed", who + fmt(": decided %.3f s, effective %.3f s", decided / 1e6, s.t_eff / 1e6));
                else stat["admitted in time"]++;
            }
            if (!maybe && !granted && (s.t_stop < 0 || s.t_stop > decided + slack + s.lat)) {
                if (dead < 0 || dead > decided + slack + s.lat) bad("a refused " + string(s.what == "publisher" ? "publisher" : s.what) + " was not disconnected", who + fmt(": decided %.3f s, disconnected %.3f s", decided / 1e6, dead / 1e6));
                else { stat["refused in time"]++; bool told = false, wrong = false; for (auto &x : *s.status) { if (x.second.find("Forbidden") != string::npos || x.second.find("Failed") != string::npos || x.second.find("BadName") != string::npos) told = true; if (s.what == "publisher" && x.second.find("NetStream.Play") == 0) wrong = true; }
                    if (s.kind == "rtmp" && !told && !s.eager) bad("a refused " + s.what + " was not told", who); if (wrong) bad("a refused publisher was told that its play is forbidden", who); if (s.kind != "rtmp" && s.http == 200) bad("a refused viewer got a normal response", who); }
            }
        }
        if (!c && s.t_req >= 0 && link_ok && !s.repub && (s.t_stop < 0 || s.t_stop > s.t_req + slack + s.lat + 4 * SEC) && !ign) { // the callback never got through
            if (!in_outage(s.t_req, s.t_req + s.lat + slack)) { if (!s.refused_later) bad("no start callback for a session", who); }
            else if (dead < 0 || dead > s.t_req + s.lat + slack + tmo + 200 * MS) bad("a session whose callback failed was not disconnected", who + fmt(": asked %.3f s, disconnected %.3f s", s.t_req / 1e6, dead / 1e6));
        }
        // updates
        us_t grant = ok_code ? c->t_ans : -1; if (!up.empty() && !st_upd) bad("an update callback without its stage configured", who);
        if (st_upd && grant >= 0 && !s.refused_later && grant < c->t + tmo - slack) {
            us_t last = grant; us_t a0 = grant; (void) a0; us_t pause = 0;
            auto gapchk = [&](us_t a, us_t b, us_t lim) { if (b - a > lim && !in_outage(a, b)) bad("the update callbacks of a session stopped", who + fmt(": none between %.3f and %.3f s", a / 1e6, b / 1e6)); };
            for (auto u : up) { if (end >= 0 && u->t > end + slack + s.lat && link_ok && s.stop_mode != "closestream" + string("x")) bad("an update callback after the end of the session", who + fmt(": at %.3f s, ended %.3f s", u->t / 1e6, end / 1e6)); if (u->t - last < upd - 60 * MS - slack) bad("update callbacks come too often", who + fmt(": %.3f and %.3f s", last / 1e6, u->t / 1e6)); gapchk(last, u->t, upd + pause + slack); last = u->t; pause = u->resp && u->t_ans < u->t + tmo ? u->t_ans - u->t : tmo; stat["updates checked"]++; }
            us_t till = end >= 0 && link_ok ? end : end >= 0 ? std::min(end, pl.end) : pl.end; gapchk(last, till, upd + pause + slack);
        }
        // done
        if (dn.size() > 1) bad("more than one done callback for one session", who + fmt(": %zu", dn.size()));
        if (!dn.empty() && !st_done) bad("a done callback without its stage configured", who);
        for (auto d : dn) if (link_ok && (end < 0 || d->t < end - slack)) { if (!(s.t_dead < 0 && s.t_stop < 0 && s.ac->vanished)) bad("a done callback before the end of the session", who + fmt(": %.3f s", d->t / 1e6)); }
        if (st_done && ok_code && end >= 0 && link_ok && pl.end > end + slack + s.lat + 1500 * MS && !in_outage(end, end + slack + s.lat)) {
            if (dn.empty()) bad("a session ended without its done callback", who + fmt(": ended %.3f s (%s)", end / 1e6, s.stop_mode.c_str())); else if (dn[0]->t > end + slack + s.lat + 500 * MS) bad("a done callback came late", who + fmt(": %.3f s, ended %.3f s", dn[0]->t / 1e6, end / 1e6)); else stat["done callbacks checked"]++;
        }
        for (auto d : dn) for (auto u : up) if (u->t > d->t + slack) bad("an update callback after the done callback", who);
    }
};
static void gen13(Plan &p, Rng &r) {
    g_common(p, r); p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }"); p.set("loc.location#ts", "/ts { ts_live 1935 app=live; }"); p.set("app.mpegts_cache_time", "1s");
    int tmo = (int) r.pick<int64_t>({500, 1000, 2000}), upd = (int) r.pick<int64_t>({300, 700, 1500}); p.set("x.timeout", tmo); p.set("x.update", upd);
    auto stage = [&] { return r.pick<string>({"start,update,done", "start,update,done", "start,done", "start,update", "start"}); }; string stg = stage();
    auto dir = [&](const string &call, const string &stages) { return "http://10.8.0.2/cb" + call + " stage=" + stages + fmt(" timeout=%dms update=%dms", tmo, upd) + " args=tok=$parg_tok"; };
    bool gp = r.chance(0.85), gv = !gp || r.chance(0.8);
    if (gp) p.set("app.on_publish", dir("publish", stg));
    if (gv) p.set("app.on_play", dir("play", stg));
    if (r.chance(0.3)) p.set("app.on_stream", "http://10.8.0.2/cbstream stage=start,done");
    if (r.chance(0.25)) { p.set("app.on_meta", fmt("http://10.8.0.2/cbmeta stage=start%s timeout=%dms update=%dms", r.pick<string>({"", ",done", ",update,done"}).c_str(), tmo, upd)); if (r.chance(0.5)) p.set("app.on_meta_once", "off"); if (r.chance(0.5)) p.set("app.on_meta_type", r.pick<string>({"audio", "both"})); }
    if (r.chance(0.3)) p.set("app.ignore_invalid_notify", "on");
    if (r.chance(0.2)) p.set("app.publish_notify", "on");
    if (r.chance(0.3)) p.set("app.cache_time", "2s");
    if (r.chance(0.3)) p.set("main.keepalive", r.pick<string>({"500ms", "2s"}));
    p.set("main.header_timeout", "2s"); p.set("rtmp.timeout", "10s"); us_t end = r.range(6, 12) * SEC; int np = 0, nv = 0, ns = (int) r.range(1, 3);
    auto policy = [&](us_t t, const string &tok, const string &act, double badness) {
        if (r.chance(0.3)) return; Op &o = p.op(0, "cb"); o.set("tok", tok).set("act", act); (void) t;
        if (r.chance(badness)) { int k = (int) r.below(4); if (k == 0) o.set("code", r.pick<int64_t>({301, 302, 400, 401, 403, 404, 500, 502, 503})); else if (k == 1) o.set("mode", r.pick<string>({"drop", "rst", "hang", "partial", "partialdrop"})); else if (k == 2) o.set("delay", tmo + r.range(300, 2000)); else o.set("mode", "hang"); }
        else if (r.chance(0.2)) o.set("mode", r.pick<string>({"dribble", "nobody"})); else o.set("code", r.pick<int64_t>({200, 200, 200, 201, 204, 206}));
        if (!o.has("delay")) o.set("delay", r.pick<int64_t>({0, 0, 1, 30, 200, tmo / 4})); o.set("ka", r.chance(0.5)).set("clen", r.chance(0.8)).set("chunked", r.chance(0.2)).set("body", r.pick<int64_t>({0, 2, 2, 100, 5000}));
    };
    double badness = r.pick<double>({0.1, 0.3, 0.6});
    for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); us_t t = r.range(50, 1500) * MS; int gens = (int) r.range(1, 3);
        for (int g = 0; g < gens; g++) {
            if (t > end) break; Op &o = p.op(t, "pub"); string id = fmt("p%d", np++); o.set("id", id).set("name", name).set("args", "tok=" + id); g_link(o, r, &p); o.set("gop", 12).set("fps", 10).set("eager", r.chance(0.3)); us_t dur = r.range(1500, 6000) * MS;
            policy(t, id, "start", badness); policy(t, id, "update", badness); policy(t, id, "done", badness);
            if (r.chance(0.7)) p.op(t + (r.chance(0.25) ? r.range(0, 600) * MS : dur), "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset", "closestream", "fcunpub", "vanish"}));
            else if (r.chance(0.3)) { string id2 = fmt("p%d", np++); p.op(t + dur, "repub").set("of", id).set("id", id2).set("name", name).set("args", "tok=" + id2).set("mode", r.pick<string>({"close", "delete"})).set("dur", r.pick<int64_t>({1, 300})); policy(t, id2, "start", badness); }
            if (r.chance(0.3)) p.op(r.range(t, t + dur), "epoch").set("id", id);
            t += dur + r.range(-500, 1500) * MS;
        }
        int n = (int) r.range(1, 4);
        for (int i = 0; i < n; i++) {
            us_t tp = r.range(20, end / MS) * MS; string id = fmt("v%d", nv++), kind = r.pick<string>({"rtmp", "rtmp", "flv", "ts"}); Op &o = p.op(tp, "play"); o.set("id", id).set("name", name).set("args", "tok=" + id).set("eager", r.chance(0.3)); if (kind != "rtmp") o.set("kind", kind); g_link(o, r, &p);
            policy(tp, id, "start", badness); policy(tp, id, "update", badness); policy(tp, id, "done", badness);
            if (r.chance(0.6)) p.op(tp + r.range(0, 5000) * MS, "unplay").set("id", id).set("mode", r.pick<string>({"close", "reset", "unplay", "vanish"}));
        }
    }
    for (auto &c : {"stream", "meta"}) if (r.chance(0.4)) { Op &o = p.op(0, "cb"); o.set("tok", "*").set("act", c).set("delay", r.pick<int64_t>({0, 50, 800})).set("ka", r.chance(0.5)); }
    if (r.chance(0.25)) p.op(r.range(500, end / MS) * MS, "cbdown").set("dur", r.range(200, 3000)).set("mode", r.pick<string>({"refuse", "vanish"}));
    for (int i = 0; i < 3; i++) if (r.chance(0.3)) p.op(r.range(500, end / MS) * MS, "cbidle");
    if (r.chance(0.3)) p.op(r.range(1, end / SEC) * SEC, "clock").set("by", r.range(-86400000, 86400000));
    p.op(end + 4 * SEC, "quit"); p.end = end + 9 * SEC;
}
static PropReg reg("P13", gen13, make_scn<P13>);
