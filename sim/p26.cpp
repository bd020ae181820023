// P26: the server that is asked about every recording decides what is recorded, and is told what has been.
#include "scn.h"
#include "gen.h"
#include "disk.h"
#include "tsdec.h"
#include <algorithm>

struct P26 : Scn {
    using Scn::Scn;
    Disk disk{*this};
    struct Call { us_t t = 0, t_ans = -1; string tok, act, name, app, domain, cid, index, file; int64_t begin = -1, end = -1; int code = -1; string mode; bool resp = false; };
    vector<Call> calls; vector<std::unique_ptr<HttpSrv>> cbs; vector<std::pair<us_t, us_t>> outages; map<string, const Op *> pol; us_t tmo = SEC, slack = 600 * MS; bool st_upd = false, st_done = false, dflt = false;
    void setup() override {
        tmo = pl.kn_("x.timeout", 1000) * MS; string s = pl.k("app.on_record"); st_upd = s.find("update,") != string::npos || s.find(",update") != string::npos; st_done = s.find("done") != string::npos; dflt = pl.k("app.live_record") == "on"; slack += 16 * pl.kn_("sim.sched_delay", 300);
        for (auto &o : pl.ops) if (o.verb == "cb") pol[o.s("tok") + "/" + o.s("act")] = &o;
        disk.attach(); listen();
    }
    void listen() { w.listen("10.8.0.2", 80, [this](ActorConn *a) { cbs.push_back(std::make_unique<HttpSrv>(&w, a)); cbs.back()->on_req = [this](HttpSrv *h) { request(h); }; }); }
    void request(HttpSrv *h) {
        string l = h->p.line; size_t a = l.find(' '), b = l.rfind(' '), q = l.find('?'); if (q == string::npos || l.compare(0, 4, "GET ") || l.substr(a + 1, q - a - 1) != "/cb") { bad("a malformed callback request", l); h->reply(200, "", true); return; }
        map<string, string> m; for (auto &x : split(l.substr(q + 1, b - q - 1), '&')) { size_t e = x.find('='); string k = x.substr(0, e); if (m.count(k)) bad("a callback carries an argument twice", l); m[k] = e == string::npos ? "" : url_decode(x.substr(e + 1)); }
        Call c; c.t = w.now; c.tok = m["tok"]; c.act = m["act"]; c.name = m["name"]; c.app = m["app"]; c.domain = m["domain"]; c.cid = m["clientid"]; c.index = m["index"]; c.file = m["file"]; if (m.count("begintime")) c.begin = atoll(m["begintime"].c_str()); if (m.count("endtime")) c.end = atoll(m["endtime"].c_str());
        { string x = l, pre = nodes[0].prefix; for (size_t i; (i = x.find(pre)) != string::npos; ) x.replace(i, pre.size(), "@"); w.trace("callback %s", x.c_str()); } stat["callbacks"]++;
        if (m["call"] != "record") bad("a callback of the wrong kind", l);
        if ((l.find("&file=") != string::npos) != (c.act != "start") || (c.begin >= 0) != (c.act != "start")) bad("a callback about a recording does not say which", l);
        const Op *o = nullptr; auto i = pol.find(c.tok + "/" + c.act); if (i != pol.end()) o = i->second;
        c.mode = o ? o->s("mode", "ok") : "ok"; us_t d = o ? o->n("delay") * MS : 0; int code = o ? (int) o->n("code", 200) : 200; bool ka = o ? o->n("ka") : hmix(pl.seed, calls.size()) & 1;
        if (c.mode != "ok") w.fault("callback " + c.mode); else if (code >= 300) w.fault("callback refuses"); if (d) w.fault("callback answers late");
        size_t ix = calls.size(); calls.push_back(c);
        auto act = [=, this] {
            if (h->dead) return; Call &c = calls[ix];
            if (c.mode == "drop") { h->ac->close(); h->dead = true; return; }
            if (c.mode == "rst") { h->ac->reset(); h->dead = true; return; }
            if (c.mode == "hang") return;
            string r = fmt("HTTP/1.1 %d X\r\nContent-Length: 2\r\nConnection: %s\r\n\r\nok", code, ka ? "keep-alive" : "close");
            if (c.mode == "partial") { h->ac->send(r.substr(0, 8)); return; }
            if (c.mode == "partialdrop") { h->ac->send(r.substr(0, 8)); h->ac->close(); h->dead = true; return; }
            h->ac->send(r); c.t_ans = w.now; c.code = code; c.resp = true; if (!ka) { h->ac->close(); h->dead = true; }
        };
        if (d) w.after(d, act); else act();
    }
    bool apply(const Op &o) override {
        if (o.verb == "cb") return true;
        if (o.verb == "quit") { for (auto &p : pubs) if (p->st < 2) { us_t t = p->t_stop; stop_pub(p.get(), "reset"); if (t >= 0) p->t_stop = t; } for (auto &p : plays) if (p->st < 2) stop_play(p.get(), "reset"); return true; }
        if (o.verb == "cbdown") {
            us_t d = o.n("dur") * MS; string m = o.s("mode", "refuse"); w.fault("callback server " + m); outages.push_back({w.now, w.now + d + (m == "vanish" ? 60 * SEC : 0)});
            w.unlisten("10.8.0.2", 80); for (auto &h : cbs) if (!h->dead) { if (m == "vanish") h->ac->vanish(); else h->ac->reset(); h->dead = true; }
            if (m == "vanish") w.listen("10.8.0.2", 80, [this](ActorConn *a) { a->vanish(); });
            w.after(d, [this] { w.unlisten("10.8.0.2", 80); listen(); }); return true;
        }
        return disk.apply(o) || Scn::apply(o);
    }
    bool in_outage(us_t a, us_t b) { for (auto &x : outages) if (a <= x.second + 3500 * MS && b >= x.first) return true; return false; }
    static string base(const string &p) { return p.substr(p.rfind('/') + 1); }
    void walk(const string &d, vector<string> &out) { for (auto &x : list_dir(d)) { string p = d + "/" + x; if (is_dir(p)) walk(p, out); else out.push_back(p); } }
    map<string, std::set<string>> media;     // publisher -> files with its media
    map<string, int> nmsg;
    void finish() override {
        if (pl.k("app.on_record") == "" || pl.k("app.live_record_path") == "") return;
        std::set<string> known; for (auto &p : pubs) known.insert(p->id);
        for (auto &c : calls) if (!known.count(c.tok)) { bad("a callback for a session which does not exist", c.act + " " + c.tok); return; }
        vector<string> files; walk(nodes[0].prefix + "/data/lr", files);
        bool df = false; for (auto &d : disk.faulted) if (d.first.find("/data") != string::npos) df = true;
        for (auto &f : files) if (f.size() > 3 && f.substr(f.size() - 3) == ".ts") {
            stat["recordings read"]++; string d = read_file(f), dir = f.substr(0, f.rfind('/')), day = base(dir); dir = dir.substr(0, dir.rfind('/')); string name = base(dir); string b = base(f), x = dir + "/index/" + day + "/" + b.substr(0, b.rfind('_')) + "-" + b.substr(b.rfind('_') + 1); x = x.substr(0, x.size() - 3) + ".m3u8"; dir = dir.substr(0, dir.rfind('/')); string app = base(dir);
            size_t lim = 0; for (auto &l : split(read_file(x), '\n')) { size_t i = l.find("&endsize="); if (i != string::npos) lim = std::max(lim, (size_t) atoll(l.c_str() + i + 9) + 1); } if (lim > d.size()) { bad("an index entry goes beyond its recording", b); return; } d.resize(lim);      // the rest is still being written
            vector<TsPes> pes; TsParser ts; ts.strict_cc = false; ts.on_pes = [&](TsPes &p) { pes.push_back(p); }; ts.feed(d.data(), d.size()); ts.flush(); if (df) continue;
            vector<TsUnit> u; TsOpt o; o.who = "recording " + base(f); o.a_slack = 1; if (ts.bad) { bad("a recording is not a valid transport stream", base(f) + ": " + ts.why); return; } if (!ts_units(*this, *this, pes, name, app, o, u)) return;
            for (auto &y : u) { media[pubs[y.pub]->id].insert(f); nmsg[pubs[y.pub]->id]++; }
        }
        for (auto &p : pubs) check(*p, df);
        for (auto &p : plays) if (p->kind == "rtmp") { AvOpt o; o.check_start = false; check_av(*this, *p, o); }
    }
    void check(PubS &p, bool df) {
        string who = "publisher " + p.id; vector<Call *> st, up, dn; for (auto &c : calls) if (c.tok == p.id) (c.act == "start" ? st : c.act == "update" ? up : dn).push_back(&c);
        us_t dead = p.t_dead, end = p.t_stop >= 0 ? p.t_stop : dead; if (dead >= 0 && (end < 0 || dead < end)) end = dead; string cid;
        for (auto l : {&st, &up, &dn}) for (auto c : *l) {
            if (c->name != p.name || c->app != p.app || c->domain != "sim.test") bad("a callback names the wrong stream", who + ": " + c->domain + "/" + c->app + "/" + c->name);
            if (cid.empty()) cid = c->cid; if (c->cid != cid || cid.empty()) bad("the callbacks of a session carry different client ids", who + ": " + cid + " and " + c->cid);
            if (c->t < p.t_conn) bad("a callback before its session", who);
        }
        if (st.size() > 1) { bad("more than one start callback for one recording", who + fmt(": %zu", st.size())); return; }
        if (p.t_pubreq < 0 || again(p)) return;      // a session publishes once
        Call *c = st.empty() ? nullptr : st[0]; us_t lat = p_lat(p); bool held = impaired(p); us_t mid = p.ac && p.ac->vanished ? 1 : 0;
        if (!c) { if (!in_outage(p.t_pubreq, p.t_pubreq + lat + slack) && !held && !mid && (p.t_stop < 0 || p.t_stop > p.t_pubreq + lat + slack) && !p.rejected) bad("a publisher whose recording nobody was asked about", who); }
        bool in_time = c && c->resp && c->t_ans < c->t + tmo - slack, late = c && !(c->resp && c->t_ans < c->t + tmo + slack);
        bool refused = in_time && c->code != 200, granted = in_time && c->code == 200;
        us_t decided = in_time ? c->t_ans : c ? c->t + tmo : p.t_pubreq + lat + tmo;
        // whatever the answer, the publish goes on
        if (!held && !mid && !p.rejected && (p.t_stop < 0 || p.t_stop > decided + slack + lat) && pl.end > decided + slack + lat && (!p.t_dead || dead < 0 || dead > decided)) {
            if (p.t_start < 0 || p.t_start > decided + slack + lat) bad("a publish does not go on though its recording has been decided", who + fmt(": decided %.3f s, started %.3f s", decided / 1e6, p.t_start / 1e6)); else stat["publishes that went on"]++;
        }
        if (c && in_time && p.t_start >= 0 && p.t_start < c->t_ans) bad("a publish goes on before its recording has been decided", who);
        if (dead >= 0 && p.t_stop < 0 && !p.rejected) bad("a publisher is closed on account of its recording", who + ": " + p.dead_why);
        // what is recorded
        bool rec = granted || (c && late && dflt), norec = refused || (c && late && !dflt); size_t nf = media[p.id].size();
        if (df) {} else if (norec) { if (nf) { bad(refused ? "a recording that was refused has been made" : "a recording has been made that nobody asked for", who + ": " + base(*media[p.id].begin())); return; } stat["recordings not made"]++; }
        else if (rec && p.graceful() && !held && p.t_start >= 0 && w.now - p.t_stop > 2 * SEC) {
            int want = 0; bool hv = false, ha = false; for (auto &m : p.sent) { if (m.hdr) { (m.type == 9 ? hv : ha) = true; continue; } if ((m.type == 9 && hv && !p.mc.hevc) || (m.type == 8 && ha)) want++; }
            if (contested(p)) {} else if (nmsg[p.id] != want) { bad(nmsg[p.id] ? "a recording is not complete" : "a recording that was granted has not been made", who + fmt(": %d of %d messages", nmsg[p.id], want)); return; } else stat["complete recordings"]++;
        }
        // what is said about it
        if (!up.empty() && !st_upd) bad("an update callback without its stage configured", who);
        if (!dn.empty() && !st_done) bad("a done callback without its stage configured", who);
        if (dn.size() > 1) { bad("more than one done callback for one recording", who + fmt(": %zu", dn.size())); return; }
        if (norec && !df && (end < 0 || end > decided) && (!up.empty() || !dn.empty())) bad("a callback about a recording that is not made", who);
        for (auto d : dn) { if (end < 0 || (!held && !mid && d->t < end)) bad("a done callback before the end of the session", who); for (auto u : up) if (u->t > d->t + slack) bad("an update callback after the done callback", who); }
        bool clean = !df && outages.empty() && !held;
        for (auto u : up) if (clean && u->file.empty()) bad("an update callback does not name a file", who);
        std::set<string> told; vector<Call *> all = up; for (auto d : dn) all.push_back(d); std::stable_sort(all.begin(), all.end(), [](Call *a, Call *b) { return a->begin < b->begin; });
        string pre = nodes[0].prefix + "/data/lr/"; int64_t prev_end = -1, prev_begin = -1;
        if (clean) for (auto u : all) {
            if (u->file.empty()) { if (nf) bad("a callback does not name the file that has been recorded", who); continue; }
            if (u->file.compare(0, pre.size(), pre) || u->index.compare(0, pre.size(), pre) || !exists(u->file) || !exists(u->index)) { bad("a callback names a file that does not exist", who + ": " + u->file + " " + u->index); continue; }
            if (!told.insert(u->file).second) bad("two callbacks name the same file", who + ": " + base(u->file));
            if (!media[p.id].count(u->file)) { bad("a callback names a file without media of its publisher", who + ": " + base(u->file)); continue; }
            // the times are those of the entries of the index
            bool b = false, e = false; for (auto &l : split(read_file(u->index), '\n')) { size_t i = l.find("&starttime="), j = l.find("&endtime="); if (i == string::npos || j == string::npos) continue; if (atoll(l.c_str() + i + 11) == u->begin) b = true; if (atoll(l.c_str() + j + 9) == u->end) e = true; }
            if (!b || !e) bad("a callback says times that are not those of the index", who + fmt(": %ld to %ld, %s", (long) u->begin, (long) u->end, base(u->index).c_str())); else stat["callbacks about files checked"]++;
            if (u->begin < prev_end - 600 || u->begin <= prev_begin || u->end < u->begin - 600) bad("the times of callbacks overlap", who + fmt(": from %ld to %ld", (long) u->begin, (long) u->end)); prev_end = u->end; prev_begin = u->begin;
        }
        if (st_done && rec && granted && clean && !mid && end >= 0 && pl.end > end + slack + lat + 2 * SEC && p.t_start >= 0 && !contested(p)) {
            if (dn.empty()) { bad("a recording ended without its done callback", who + fmt(": ended %.3f s (%s)", end / 1e6, p.stop_mode.c_str())); return; }
            if (dn[0]->t > end + slack + lat && !jittery(p)) bad("a done callback came late", who + fmt(": %.3f s, ended %.3f s", dn[0]->t / 1e6, end / 1e6)); else stat["done callbacks checked"]++;
            if (st_upd) for (auto &f : media[p.id]) if (!told.count(f)) { bad("nobody was told of a file that has been recorded", who + ": " + base(f)); return; }
        }
    }
    bool again(PubS &p) { for (auto &o : pl.ops) if (o.verb == "repub" && o.s("id") == p.id) return true; return false; }
    bool jittery(PubS &p) { for (auto &o : pl.ops) if ((o.verb == "pub" || o.verb == "repub") && o.s("id") == p.id) return o.n("jit", 0) >= 5000; return false; }      // what is still under way may be a lot
    us_t p_lat(PubS &p) { for (auto &o : pl.ops) if ((o.verb == "pub" || o.verb == "repub") && o.s("id") == p.id) return (o.n("lat", 500) + o.n("jit", 0)) * 6 + (o.verb == "repub" ? 600 * MS : 0); return 0; }
    bool impaired(PubS &p) { for (auto &o : pl.ops) { if ((o.verb == "hold" || o.verb == "stall") && o.s("id") == p.id) return true; if (o.verb == "pstall") return true; } return uplink_slow(p); }
    bool contested(PubS &p) { for (auto &o : pubs) if (o.get() != &p && o->name == p.name && o->t_conn < (p.t_stop >= 0 ? p.t_stop : w.now) + 100 * MS && (o->t_stop >= 0 ? o->t_stop : w.now) + SEC > p.t_conn) return true; return p.rejected; }
};
static void gen26(Plan &p, Rng &r) {
    g_common(p, r); int tmo = (int) r.pick<int64_t>({700, 1000, 2000}); p.set("x.timeout", tmo); bool multi = r.chance(0.3); if (multi) p.set("sim.workers", r.range(2, 3));
    p.set("app.on_record", "http://10.8.0.2/cb stage=" + r.pick<string>({"start,update,done", "start,update,done", "start,done", "start,update", "start"}) + fmt(" timeout=%dms args=tok=$parg_tok", tmo));
    p.set("app.live_record", r.pick<string>({"on", "off"})); p.set("app.live_record_path", "@PREFIX@/data/lr"); p.set("app.live_record_interval", r.pick<string>({"1s", "2s", "3s", "600s"})); p.set("app.live_record_min_fragment", r.pick<string>({"100ms", "500ms", "1s"})); p.set("app.live_record_max_fragment", r.pick<string>({"1s", "2s", "5s"}));
    if (r.chance(0.4)) p.set("app.live_record_buffer", r.pick<int64_t>({400, 4096, 100000})); if (r.chance(0.3)) p.set("main.keepalive", r.pick<string>({"500ms", "2s"}));
    p.set("main.header_timeout", "2s"); p.set("rtmp.timeout", "10s"); p.set("rtmp.out_queue", 4096); us_t end = r.range(6, 14) * SEC; int np = 0, ns = (int) r.range(1, 3);
    double badness = r.pick<double>({0.1, 0.4, 0.7});
    auto policy = [&](const string &tok, const string &act) {
        if (r.chance(0.25)) return; Op &o = p.op(0, "cb"); o.set("tok", tok).set("act", act);
        if (r.chance(badness)) { int k = (int) r.below(4); if (k <= 1) o.set("code", r.pick<int64_t>({201, 204, 301, 400, 403, 404, 500, 503})); else if (k == 2) o.set("mode", r.pick<string>({"drop", "rst", "hang", "partial", "partialdrop"})); else o.set("delay", tmo + r.range(900, 2500)); }
        if (!o.has("delay")) o.set("delay", r.pick<int64_t>({0, 0, 1, 30, tmo / 5})); o.set("ka", r.chance(0.5));
    };
    for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); us_t t = r.range(50, 1500) * MS; int gens = (int) r.range(1, 3);
        for (int g = 0; g < gens && t < end; g++) {
            Op &o = p.op(t, "pub"); string id = fmt("p%d", np++); o.set("id", id).set("name", name).set("args", "tok=" + id); g_media(o, r, p); o.kv.erase("interleave"); o.kv.erase("eager"); g_link(o, r, &p); us_t dur = r.range(500, 7000) * MS;
            policy(id, "start"); policy(id, "update"); policy(id, "done");
            if (multi || r.chance(0.75)) p.op(t + (r.chance(0.3) ? r.range(0, tmo + 500) * MS : dur), "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset", "closestream", "fcunpub", "vanish"}));
            else if (r.chance(0.5)) { string id2 = fmt("p%d", np++); p.op(t + (r.chance(0.3) ? r.range(0, tmo + 500) * MS : dur), "repub").set("of", id).set("id", id2).set("name", name).set("args", "tok=" + id2).set("mode", r.pick<string>({"close", "delete"})).set("dur", r.pick<int64_t>({1, 300})); policy(id2, "start"); policy(id2, "done"); }
            if (multi) { if (p.ops.back().s("mode") == "vanish") break; t = p.ops.back().t + r.range(1000, 2500) * MS; } else t += dur + r.range(-500, 1500) * MS;      // workers do not know of each other's publishers at once
        }
        int n = (int) r.range(0, 2); for (int i = 0; i < n; i++) { Op &o = p.op(r.range(20, end / MS) * MS, "play"); o.set("id", fmt("v%d_%d", s, i)).set("name", name); g_link(o, r, &p); }
    }
    if (r.chance(0.25)) p.op(r.range(300, end / MS) * MS, "cbdown").set("dur", r.range(200, 3000)).set("mode", r.pick<string>({"refuse", "vanish"}));
    if (r.chance(0.2)) g_diskfaults(p, r, end, r.pick<string>({"/lr/", "/index/", ".ts"}));
    p.op(end + 4 * SEC, "quit"); p.end = end + 9 * SEC;
}
static PropReg reg("P26", gen26, make_scn<P26>);
