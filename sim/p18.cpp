// P18: the status pages list exactly the sessions there are, and control requests reach exactly the sessions they name.
#include "scn.h"
#include "gen.h"
#include <algorithm>

// a small JSON reader
struct Js { char t = 'n'; double n = 0; bool b = false; string s; vector<Js> a; vector<std::pair<string, Js>> o; const Js *get(const string &k) const { for (auto &x : o) if (x.first == k) return &x.second; return nullptr; } string str(const string &k) const { auto *x = get(k); return x ? x->s : ""; } int64_t num(const string &k) const { auto *x = get(k); return x ? (int64_t) x->n : -1; } bool flag(const string &k) const { auto *x = get(k); return x && x->b; } };
struct JsP {
    const string &s; size_t i = 0; bool err = false; explicit JsP(const string &x) : s(x) {}
    void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) i++; }
    Js val(int d = 0) {
        Js v; ws(); if (err || i >= s.size() || d > 40) { err = true; return v; } char c = s[i];
        if (c == '{') { v.t = 'o'; i++; ws(); if (i < s.size() && s[i] == '}') { i++; return v; } for (;;) { ws(); Js k = val(d + 1); if (k.t != 's') err = true; ws(); if (err || i >= s.size() || s[i] != ':') { err = true; return v; } i++; v.o.push_back({k.s, val(d + 1)}); ws(); if (err || i >= s.size()) { err = true; return v; } if (s[i] == ',') { i++; continue; } if (s[i] == '}') { i++; return v; } err = true; return v; } }
        if (c == '[') { v.t = 'a'; i++; ws(); if (i < s.size() && s[i] == ']') { i++; return v; } for (;;) { v.a.push_back(val(d + 1)); ws(); if (err || i >= s.size()) { err = true; return v; } if (s[i] == ',') { i++; continue; } if (s[i] == ']') { i++; return v; } err = true; return v; } }
        if (c == '"') { v.t = 's'; i++; while (i < s.size() && s[i] != '"') { if ((unsigned char) s[i] < 0x20) { err = true; return v; } if (s[i] == '\\') { i++; if (i >= s.size()) break; char e = s[i]; if (e == 'u') { v.s += (char) strtol(s.substr(i + 1, 4).c_str(), nullptr, 16); i += 5; continue; } v.s += e == 'n' ? '\n' : e == 't' ? '\t' : e == 'r' ? '\r' : e == 'b' ? '\b' : e == 'f' ? '\f' : e; i++; continue; } v.s += s[i++]; } if (i >= s.size()) { err = true; return v; } i++; return v; }
        if (s.compare(i, 4, "true") == 0) { v.t = 'b'; v.b = true; i += 4; return v; } if (s.compare(i, 5, "false") == 0) { v.t = 'b'; i += 5; return v; } if (s.compare(i, 4, "null") == 0) { i += 4; return v; }
        char *e; v.n = strtod(s.c_str() + i, &e); if (e == s.c_str() + i) { err = true; return v; } v.t = 'd'; i = e - s.c_str(); return v;
    }
};
// tags of an XML document: false if they are not balanced or the text has stray markup
static bool xml_ok(const string &s, string &why) {
    vector<string> st; size_t i = 0;
    while (i < s.size()) {
        if (s[i] == '&') { size_t e = s.find(';', i); if (e == string::npos || e - i > 7) { why = "stray & in: " + s.substr(i > 30 ? i - 30 : 0, 60); return false; } i = e + 1; continue; }
        if ((unsigned char) s[i] < 0x20 && !strchr("\r\n\t", s[i])) { why = "control character"; return false; }
        if (s[i] != '<') { i++; continue; }
        size_t e = s.find('>', i); if (e == string::npos) { why = "unterminated tag"; return false; }
        string t = s.substr(i + 1, e - i - 1); i = e + 1; if (t.empty()) { why = "empty tag"; return false; }
        if (t[0] == '?') continue; if (t.back() == '/') continue;
        if (t[0] == '/') { if (st.empty() || st.back() != t.substr(1)) { why = "unexpected <" + t + ">"; return false; } st.pop_back(); } else { for (char c : t) if (!isalnum((unsigned char) c) && c != '_') { why = "bad tag <" + t + ">"; return false; } st.push_back(t); }
    }
    if (!st.empty()) why = "<" + st.back() + "> not closed"; return st.empty();
}

struct P18 : Scn {
    using Scn::Scn;
    struct Ses { string id, ip, proto, srv, app, name; bool pub; PubS *p = nullptr; PlayS *v = nullptr; us_t lo, hi = INT64_MAX / 4, out_lo = INT64_MAX / 4, out_hi = INT64_MAX / 4; bool vague = false; us_t srv_gone = -1; ActorConn *ac = nullptr; vector<us_t> may_drop; string full() const { return srv + "/" + app + "/" + name; } };
    struct Ctl { Op o; us_t t0, t1 = -1; int status = 0; string body; string ip; int64_t clientid = -1; bool sent = false; };
    struct Page { us_t t0, t1; string body; int kind; bool done; };
    map<string, Op> ops; vector<std::unique_ptr<Ctl>> ctls; vector<Page> pages; map<ActorConn *, us_t> gone; static constexpr us_t S = 3 * SEC;
    void setup() override { for (auto &o : pl.ops) if (o.verb == "pub" || o.verb == "play") ops[o.s("id")] = o; }
    string ip_of(const string &id) { if (PubS *p = pub(id)) return p->ip; if (PlayS *p = play(id)) return p->ip; return ""; }
    bool apply(const Op &o) override {
        if (o.verb == "stat") { int k = o.s("what") == "xml"; fetch(0, k ? "/rtmp_stat" : "/sys_stat", [this, k](HttpGet *g) { pages.push_back({g->t_start, w.now, g->p.body, k, g->p.status == 200 && !g->conn_err}); if (g->p.status != 200) bad("a status page is not served", g->url + fmt(" %d", g->p.status)); }); return true; }
        if (o.verb == "ctl") {
            ctls.push_back(std::make_unique<Ctl>()); Ctl *c = ctls.back().get(); c->o = o; c->t0 = w.now;
            if (!o.has("target")) { send(c); return true; }
            c->ip = ip_of(o.s("target")); if (c->ip.empty()) { return true; }
            fetch(0, "/sys_stat", [this, c](HttpGet *g) {     // the id of the session, as an operator would look it up
                JsP jp(g->p.body); Js j = jp.val(); const Js *ls = j.get("live_stream"), *sa = ls ? ls->get("server_array") : nullptr;
                if (sa) for (auto &sv : sa->a) if (auto *st = sv.get("stream_array")) for (auto &x : st->a) if (auto *ca = x.get("client_array")) for (auto &cl : ca->a) if (cl.str("remote_address") == c->ip) c->clientid = cl.num("id");
                c->t0 = w.now; if (c->clientid >= 0) send(c);
            });
            return true;
        }
        return Scn::apply(o);
    }
    void send(Ctl *c) {
        c->sent = true; const Op &o = c->o; string u = "/control/" + o.s("sec") + "/" + o.s("method"), q; auto add = [&](const string &k, const string &v) { q += (q.empty() ? "?" : "&") + k + "=" + v; };
        if (o.has("srv")) add("srv", o.s("srv"));
        if (o.has("app")) add("app", o.s("app"));
        if (o.has("name")) add("name", o.s("name"));
        if (o.has("addr")) add("addr", o.s("addr"));
        if (c->clientid >= 0) add("clientid", fmt("%ld", (long) c->clientid)); else if (o.has("clientid")) add("clientid", o.s("clientid"));
        if (o.has("newname")) add("newname", o.s("newname"));
        w.trace("control %s%s", u.c_str(), q.c_str());
        fetch(0, u + q, [this, c](HttpGet *g) { c->t1 = w.now; c->status = g->conn_err ? -1 : g->p.status; c->body = g->p.body; w.trace("control answers %d %s", c->status, c->body.substr(0, 20).c_str()); });
    }
    void poll() {
        auto look = [&](ActorConn *a) { if (a && a->c && !gone.count(a)) { int srv = 1 - a->side; if (a->c->established && (!a->c->e[srv].open || a->c->dead)) gone[a] = w.now; } };
        for (auto &p : pubs) look(p->ac); for (auto &p : plays) look(p->ac);
    }
    void start_nodes() override { Scn::start_nodes(); for (us_t t = 50 * MS; t < pl.end; t += 50 * MS) w.at(t, [this] { poll(); }); }
    vector<Ses> ses;
    void sessions() {
        auto fill = [&](Ses &s, us_t t_conn, us_t t_start, us_t t_stop, us_t t_dead, const string &mode, ActorConn *ac) {
            s.lo = t_conn; if (t_start >= 0) s.hi = t_start; s.ac = ac; s.srv_gone = gone.count(ac) ? gone[ac] : -1; us_t e = INT64_MAX / 4;
            s.srv = pl.k("rtmp.serverid", "default"); bool quiet = mode == "vanish" || (ac && ac->vanished);
            s.out_lo = std::min(t_stop >= 0 ? t_stop : e, t_dead >= 0 ? t_dead : e); if (s.srv_gone >= 0) s.out_lo = std::min(s.out_lo, s.srv_gone - 60 * MS);
            if (t_stop >= 0 && !quiet) s.out_hi = t_stop + S; if (s.srv_gone >= 0) s.out_hi = std::min(s.out_hi, s.srv_gone + 100 * MS); s.out_hi = std::max(s.out_hi, s.out_lo);
        };
        for (auto &p : pubs) { Ses s; s.id = p->id; s.ip = p->ip; s.proto = "rtmp"; s.pub = true; s.p = p.get(); s.app = p->app; s.name = p->name; fill(s, p->t_conn, p->t_start, p->t_stop, p->t_dead, p->stop_mode, p->ac); s.vague = p->rejected; ses.push_back(s); }
        for (auto &p : plays) { Ses s; s.id = p->id; s.ip = p->ip; s.proto = p->kind; s.pub = false; s.v = p.get(); s.app = p->app; s.name = p->name; fill(s, p->t_conn, p->t_start, p->t_stop, p->t_dead, p->stop_mode, p->ac); ses.push_back(s); }
    }
    bool may(const Ses &s, us_t a, us_t b) { return s.lo <= b && s.out_hi >= a; }
    bool must(const Ses &s, us_t a, us_t b) { if (s.vague || s.hi > a || s.out_lo <= b) return false; for (us_t t : s.may_drop) if (t <= b) return false; return true; }
    void finish() override {
        sessions();
        std::sort(ctls.begin(), ctls.end(), [](auto &a, auto &b) { return a->t0 < b->t0; });
        auto hit = [&](Ctl &c, Ses &s) {
            string m = c.o.s("method"); if (!c.o.has("srv") || s.srv != c.o.s("srv")) return false;
            if (c.o.has("addr")) return false;     // of nobody
            if (c.o.has("app") && !c.o.s("app").empty()) { if (s.app != c.o.s("app")) return false; if (c.o.has("name") && s.name != c.o.s("name")) return false; }
            if (c.clientid >= 0 && s.ip != c.ip) return false; if (c.clientid < 0 && c.o.has("clientid")) return false;
            if (m == "publisher" && !s.pub) return false; if (m == "subscriber" && s.pub) return false; return m == "publisher" || m == "subscriber" || m == "client";
        };
        bool redirected = false;
        for (auto &cp : ctls) {
            Ctl &c = *cp; if (!c.sent) continue;
            string sec = c.o.s("sec"), m = c.o.s("method"), what = sec + "/" + m; 
            if (c.t1 < 0 || c.status < 0) { if (w.now > c.t0 + 5 * SEC) bad("a control request is not answered", what); continue; }
            bool valid = (sec == "drop" || sec == "pause" || sec == "resume" || sec == "redirect") && (m == "publisher" || m == "subscriber" || m == "client") && c.o.has("srv") && (sec != "redirect" || c.o.has("newname"));
            int lo = 0, hi = 0; string who;
            vector<Ses *> mu; for (auto &s : ses) if (valid && hit(c, s)) { if (must(s, c.t0, c.t1)) { lo++; mu.push_back(&s); } if (may(s, c.t0, c.t1)) { hi++; who += " " + s.id; } }
            if (!valid) { if (c.status == 200 && !(sec == "redirect" && !c.o.has("newname"))) bad("a malformed control request succeeds", what); stat["malformed control requests"]++; }
            else {
                stat["control requests"]++; 
                if (c.status != 200) { bad("a control request is refused", what + fmt(" %d", c.status)); continue; }
                int64_t n = atoll(c.body.c_str()); if (c.body.empty() || c.body.find_first_not_of("0123456789") != string::npos) bad("a control request answers no count", what + ": " + c.body.substr(0, 40));
                else if (n < lo || n > hi) bad("a control request reports a wrong number of sessions", what + fmt(": %ld, should be %d to %d:", (long) n, lo, hi) + who);
                if (lo) stat["control requests that reach someone"]++;
            }
            if (valid && (sec == "drop" || sec == "redirect")) for (auto &s : ses) if (hit(c, s) && may(s, c.t0, c.t1)) { s.may_drop.push_back(c.t0); if (sec == "redirect") { s.vague = true; redirected = true; } }
            if (valid && sec == "drop") for (auto *s : mu) { stat["sessions dropped"]++; if ((s->srv_gone < 0 || s->srv_gone > c.t1 + 2 * SEC) && w.now > c.t1 + 2 * SEC && (s->out_lo > c.t1 + 2 * SEC || s->srv_gone >= 0)) bad("a dropped session stays open", what + " " + s->id); }
            if (valid && sec == "redirect") for (auto *s : mu) { stat["sessions redirected"]++; redirect(c, *s); }
            if (valid && sec == "pause" && m != "subscriber") for (auto *s : mu) if (s->pub) pause(c, *s);
        }
        for (auto &s : ses) {     // nobody else was harmed
            us_t t_stop = s.p ? s.p->t_stop : s.v->t_stop, t_dead = s.p ? s.p->t_dead : s.v->t_dead; if (t_dead < 0 || t_stop >= 0 || s.vague) continue;
            bool ok = false; for (us_t t : s.may_drop) if (t_dead >= t) ok = true;
            if (!ok) bad("a session that no request named is ended", s.id + " of " + s.full() + " " + (s.p ? s.p->dead_why : s.v->dead_why));
        }
        for (auto &g : pages) if (g.done) { if (g.kind) xml(g); else json(g); }
        if (!redirected) for (auto &p : plays) {
            bool paused = false; for (auto &cp : ctls) if (cp->o.s("sec") == "pause" && (!cp->o.has("name") || cp->o.s("name") == p->name)) paused = true;
            bool dup = false; for (auto &q : pubs) for (auto &q2 : pubs) if (q != q2 && q->name == q2->name) dup = true;
            map<string, int> nn; for (auto &q : pubs) nn[q->name]++;
            if (p->kind != "ts" && !paused && !dup) { AvOpt o; o.check_start = o.check_end = false; o.ts_exact = false; check_av(*this, *p, o); }
        }
    }
    void redirect(Ctl &c, Ses &s) {
        string to = c.o.s("newname"); if (s.out_lo < c.t1 + 6 * SEC) return;
        if (s.v && s.v->kind != "ts") {
            bool there = false; for (auto &q : pubs) if (q->name == to && q->app == s.app && q->t_start >= 0 && q->t_start < c.t0 - SEC && !q->rejected && (q->t_stop < 0 || q->t_stop > c.t1 + 6 * SEC) && q->t_dead < 0) there = true;
            bool got = false; for (auto &r : s.v->rx) if (r.pub >= 0 && pubs[r.pub]->name == to && r.t > c.t0) got = true;
            if (there && !got) bad("a redirected player does not get the other stream", s.id + " to " + to);
        }
    }
    void pause(Ctl &c, Ses &s) {
        PubS &q = *s.p; us_t res = INT64_MAX / 4; for (auto &d : ctls) if (d->sent && d.get() != &c && d->t0 > c.t0 - SEC && (d->o.s("sec") == "resume" || d->o.s("sec") == "redirect" || d->o.s("sec") == "drop")) res = std::min(res, d->t0);
        if (uplink_slow(q)) return; 
        for (auto &p : plays) for (auto &r : p->rx) if (r.pub == q.order && !r.hdr && !r.empty) { Pub &m = q.sent[r.idx]; if (m.t_sent > c.t1 && m.t_sent < res - 2 * SEC && r.t < res) { bad("a paused publisher is still heard", p->id + " of " + q.id); return; } }
        stat["publishers paused"]++;
        // resumed: heard again from the next key frame on
        us_t r1 = -1; for (auto &d : ctls) if (d->sent && d->status == 200 && d->o.s("sec") == "resume" && d->t0 > c.t1 && (d->o.s("method") == "publisher" || d->o.s("method") == "client") && d->o.s("srv") == s.srv && !d->o.has("addr") && !d->o.has("target") && !d->o.has("clientid") && (!d->o.has("app") || (d->o.s("app") == s.app && (!d->o.has("name") || d->o.s("name") == s.name)))) r1 = d->t1;
        if (r1 < 0) return; for (auto &d : ctls) if (d.get() != &c && d->t0 > c.t0 && d->o.s("sec") != "resume") return;
        us_t key = -1; for (auto &m : q.sent) if (m.t_sent > r1 + 200 * MS && m.key && !m.hdr) { key = m.t_sent; break; }
        if (key < 0 || s.out_lo < key + 4 * SEC || q.paused) return;
        bool sentafter = false; for (auto &m : q.sent) if (m.t_sent > key + SEC && m.t_sent < key + 2 * SEC) sentafter = true;
        if (!sentafter) return;
        for (auto &v : ses) if (v.v && v.v->kind == "rtmp" && v.full() == s.full() && must(v, c.t0, key + 4 * SEC)) { if (link_full(*v.v) > key - 3 * SEC || !v.v->stalls.empty()) continue; bool got = false; for (auto &r : v.v->rx) if (r.pub == q.order && !r.hdr && r.t > key) got = true; stat["publishers resumed"]++; if (!got) bad("a resumed publisher is not heard again", v.id + " of " + q.id); }
    }
    void json(Page &g) {
        JsP jp(g.body); Js j = jp.val(); if (jp.err) { bad("the statistics are not valid JSON", fmt("at %zu: ", jp.i) + g.body.substr(jp.i > 40 ? jp.i - 40 : 0, 100)); return; }
        stat["statistics pages"]++; const Js *ls = j.get("live_stream"), *sa = ls ? ls->get("server_array") : nullptr; if (!sa) { bad("the statistics are incomplete"); return; }
        map<string, int> seen; std::set<int64_t> ids;
        for (auto &sv : sa->a) {
            string srv = sv.str("serverid"); int64_t tot[5] = {0, 0, 0, 0, 0}; const char *kk[5] = {"total_clients", "rtmp_clients", "flv_clients", "ts_clients", "hls_clients"}; const Js *st = sv.get("stream_array"); if (!st) { bad("the statistics are incomplete"); return; }
            for (auto &x : st->a) {
                string full = x.str("name"); int64_t c[5] = {0, 0, 0, 0, 0}; const Js *ca = x.get("client_array"); if (!ca) { bad("the statistics are incomplete"); return; }
                bool any = false; for (auto &s : ses) if (s.full() == full && s.srv == srv && (s.vague || may(s, g.t0, g.t1))) any = true;
                if (!any) bad("a stream is listed that nobody publishes or plays", full);
                for (auto &cl : ca->a) {
                    string ip = cl.str("remote_address"); bool pub = cl.flag("publishing"); Ses *s = nullptr; for (auto &y : ses) if (y.ip == ip) s = &y;
                    string pr = cl.str("protocol"); string me = pr == "rtmp" ? "rtmp" : pr.find("flv") != string::npos ? "flv" : pr.find("ts") != string::npos ? "ts" : pr;
                    int64_t id = cl.num("id"); if (!ids.insert(id).second) bad("two sessions are listed with one id", fmt("%ld", (long) id));
                    if (!s) { bad("a client is listed that never connected", ip + " on " + full); continue; }
                    if (seen[s->id]++) bad("a client is listed twice", s->id);
                    if (!s->vague && !may(*s, g.t0, g.t1)) bad("a client is listed that is not connected", s->id + fmt(" gone since %.3f, page of %.3f", s->out_hi / 1e6, g.t0 / 1e6));
                    if (!s->vague && s->full() != full) bad("a client is listed with another stream", s->id + ": " + full);
                    if (pub != s->pub) bad("a client is listed in the wrong role", s->id);
                    if (me != s->proto) bad("a client is listed with the wrong protocol", s->id + ": " + pr);
                    if (cl.flag("relay") || cl.flag("interprocess")) bad("a client is listed as a relay", s->id);
                    if (!pub) { c[0]++; if (me == "rtmp") c[1]++; else if (me == "flv") c[2]++; else if (me == "ts") c[3]++; else c[4]++; }
                    stat["clients listed"]++;
                }
                for (int i = 0; i < 5; i++) { tot[i] += c[i]; if (x.num(kk[i]) != c[i]) bad("a stream's number of clients is not that of the clients listed", full + fmt(": %s %ld, listed %ld", kk[i], (long) x.num(kk[i]), (long) c[i])); }
                // what it says about the media
                PubS *q = nullptr; int n = 0; for (auto &s : ses) if (s.pub && s.full() == full && (s.vague || may(s, g.t0, g.t1))) { n++; q = s.p; if (!must(s, g.t0, g.t1)) n = 9; }
                if (n == 1 && q->t_start < g.t0 - 2 * SEC && !uplink_slow(*q)) { const Js *m = x.get("meta"), *v = m ? m->get("video") : nullptr, *a = m ? m->get("audio") : nullptr; if (!m) bad("the stream's codecs are not listed", full); else { stat["codecs listed"]++; if (v && q->mc.video && !q->nohdr && v->str("codec") != (q->mc.hevc ? "H265" : "H264") && v->str("codec") != "") codec(full, v->str("codec"), q->mc.hevc); (void) a; } }
            }
            for (int i = 0; i < 5; i++) if (sv.num(kk[i]) != tot[i]) bad("a server's number of clients is not the sum of its streams'", srv + fmt(": %s %ld, sum %ld", kk[i], (long) sv.num(kk[i]), (long) tot[i]));
        }
        for (auto &s : ses) if (must(s, g.t0, g.t1) && !seen[s.id]) bad("a connected client is not listed", s.id + " of " + s.full() + fmt(" since %.3f, page of %.3f", s.hi / 1e6, g.t0 / 1e6));
        int64_t na = ls->num("naccepted"); int alo = 0, ahi = 0; for (auto &s : ses) if (s.proto == "rtmp") { if (s.lo <= g.t1) ahi++; if (s.hi <= g.t0) alo++; }
        if (na < alo || na > ahi) bad("the number of accepted connections is wrong", fmt("%ld, should be %d to %d", (long) na, alo, ahi));
    }
    void codec(const string &full, const string &c, bool hevc) { if (c != (hevc ? "H265" : "H264") && !(hevc && c == "HEVC")) bad("the stream's codec is wrong", full + ": " + c); }
    static int count(const string &s, const string &x) { int n = 0; for (size_t i = 0; (i = s.find(x, i)) != string::npos; i += x.size()) n++; return n; }
    void xml(Page &g) {
        string why; if (!xml_ok(g.body, why)) { bad("the statistics are not well-formed XML", why); return; }
        stat["statistics pages"]++; int lo = 0, hi = 0, plo = 0, phi = 0; for (auto &s : ses) { bool mu = must(s, g.t0, g.t1), ma = s.vague || may(s, g.t0, g.t1); lo += mu; hi += ma; if (s.pub) { plo += mu; phi += ma; } }
        int n = count(g.body, "<client>"), np = 0; for (size_t i = 0; (i = g.body.find("<client>", i)) != string::npos; i++) { size_t e = g.body.find("</client>", i); if (g.body.substr(i, e - i).find("<publishing/>") != string::npos) np++; }
        if (n < lo || n > hi) bad("the XML statistics list a wrong number of clients", fmt("%d, should be %d to %d", n, lo, hi));
        if (np < plo || np > phi) bad("the XML statistics list a wrong number of publishers", fmt("%d, should be %d to %d", np, plo, phi));
        for (auto &s : ses) { bool l = g.body.find("<remote_address>" + s.ip + "</remote_address>") != string::npos; if (!l && must(s, g.t0, g.t1)) bad("a connected client is not listed in the XML statistics", s.id); if (l && !s.vague && !may(s, g.t0, g.t1)) bad("a client that is not connected is listed in the XML statistics", s.id); }
        // sums
        int64_t sum = 0, tot = 0; for (size_t i = 0; (i = g.body.find("<stream>", i)) != string::npos; i++) { size_t e = g.body.find("</stream>", i); string x = g.body.substr(i, e - i); size_t k = x.find("<nclients>"); int64_t c = k == string::npos ? -1 : atoll(x.c_str() + k + 10); if (c != count(x, "<client>")) bad("the XML statistics contradict themselves", fmt("%ld clients, %d listed", (long) c, count(x, "<client>"))); sum += c; }
        for (size_t i = 0; (i = g.body.find("</stream>\r\n<nclients>", i)) != string::npos; i++) tot += atoll(g.body.c_str() + i + 21); if (sum != tot) bad("the XML statistics contradict themselves", fmt("sum %ld, total %ld", (long) sum, (long) tot));
    }
};
static void gen18(Plan &p, Rng &r) {
    g_common(p, r); g_live_conf(p, r); p.set("rtmp.out_queue", 4096); p.set("rtmp.ping", "60s"); p.kn.erase("rtmp.play_time_fix");
    p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }"); p.set("loc.location#ts", "/ts { ts_live 1935 app=live; }"); p.set("loc.location#ctl", "/control { rtmp_control all; }"); p.set("sim.apps", "live,vod");
    if (r.chance(0.3)) { p.set("app.cache_time", "2s"); p.set("app.send_all", "on"); } if (r.chance(0.3)) p.set("app.mpegts_cache_time", "2s");
    us_t end = r.range(6, 14) * SEC; int np = 0, nv = 0, ns = (int) r.range(1, 4); struct St { string srv, app, name; }; vector<St> sts; vector<string> ids; if (r.chance(0.3)) p.set("rtmp.serverid", "sv-1"); string sid = p.k("rtmp.serverid", "default"); bool odd = r.chance(0.2);
    for (int s = 0; s < ns; s++) {
        St st{sid, r.chance(0.75) ? "live" : "vod", r.chance(0.3) ? "s" : r.chance(0.3) ? "s1" : odd ? r.pick<string>({"x<y>z", "q\"r", "a'b", "t&u=1", "a/b", "x\\y", "t\xc3\xa4"}) : fmt("s%d", s)};
        bool dup = false; for (auto &x : sts) if (x.srv == st.srv && x.app == st.app && x.name == st.name) dup = true; if (dup) continue; sts.push_back(st); bool plain = st.name.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789") == string::npos;
        us_t t = r.range(50, 2500) * MS;
        for (int g = 0, n = (int) r.range(0, 3); g < n && t < end - SEC; g++) {
            Op &o = p.op(t, "pub"); string id = fmt("p%d", np); ids.push_back(id); o.set("id", id).set("app", st.app).set("name", st.name).set("ip", fmt("10.4.0.%d", ++np)); g_media(o, r, p); g_link(o, r, &p); o.kv.erase("big"); o.kv.erase("bigmax");
            us_t te = r.range(t, end); if (r.chance(0.6)) p.op(te, "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset", "closestream"})); else te = end;
            t = r.chance(0.8) ? te + r.range(100, 1500) * MS : t + r.range(500, 3000) * MS;
        }
        for (int i = 0, n = (int) r.range(0, 5); i < n; i++) {
            us_t tp = r.range(20, (end - SEC) / MS) * MS; string id = fmt("v%d", nv); ids.push_back(id); string kind = st.app == "live" && plain ? r.pick<string>({"rtmp", "rtmp", "flv", "ts"}) : "rtmp";
            Op &o = p.op(tp, "play"); o.set("id", id).set("app", st.app).set("name", st.name).set("buflen", 100).set("ip", fmt("10.5.0.%d", ++nv)); if (kind != "rtmp") o.set("kind", kind); else if (r.chance(0.2)) o.set("eager", 1); g_link(o, r, &p);
            if (r.chance(0.5)) p.op(r.range(tp, end), "unplay").set("id", id).set("mode", kind != "rtmp" ? r.pick<string>({"close", "reset"}) : r.pick<string>({"close", "reset", "unplay"}));
        }
    }
    if (sts.empty() || ids.empty()) return;
    for (int i = 0, n = (int) r.range(2, 12); i < n; i++) { p.op(r.range(100, (end + 4 * SEC) / MS) * MS, "stat").set("what", r.pick<string>({"json", "json", "xml"})); }
    int nc = r.chance(0.8) ? (int) r.range(1, 6) : 0; bool pauses = r.chance(0.35), red = r.chance(0.08);
    for (int i = 0; i < nc; i++) {
        Op &o = p.op(r.range(500, (end + SEC) / MS) * MS, "ctl"); us_t t = o.t; const St &st = r.pick(sts); string sec = pauses ? r.pick<string>({"pause", "resume", "pause", "resume", "drop"}) : red ? r.pick<string>({"redirect", "drop"}) : "drop"; o.set("sec", sec).set("method", r.pick<string>({"publisher", "subscriber", "client"})); if (sec == "pause" || sec == "resume") o.set("method", r.pick<string>({"publisher", "publisher", "client"}));
        bool plain = st.name.find_first_of("&=?# ") == string::npos; o.set("srv", st.srv); if (r.chance(0.8) || !plain) { o.set("app", st.app); if (r.chance(0.8) && plain) o.set("name", st.name); }
        if (r.chance(0.3)) { string id = r.pick(ids); o.set("target", id); for (auto &q : p.ops) if ((q.verb == "pub" || q.verb == "play") && q.s("id") == id && r.chance(0.8)) { for (auto &oo : p.ops) if (&oo == &o) break; o.kv.erase("name"); o.kv.erase("app"); o.set("srv", sid); if (r.chance(0.5)) o.set("app", q.s("app")); break; } }
        else if (r.chance(0.1)) o.set("clientid", 999999); else if (r.chance(0.1)) o.set("addr", "203.0.113.9");
        if (sec == "redirect") o.set("newname", r.pick(sts).name.substr(0, 2));
        if (r.chance(0.1)) { int k = (int) r.below(5); if (k == 0) o.kv.erase("srv"); else if (k == 1) o.set("method", "everyone"); else if (k == 2) o.set("sec", "stop"); else if (k == 3) o.set("srv", "nowhere.test"); else o.set("name", string(r.range(1, 300), 'n')).set("app", st.app); }
        if (r.chance(0.4)) p.op(t + r.range(1, 800) * MS, "stat").set("what", r.pick<string>({"json", "xml"}));
    }
    if (r.chance(0.2)) p.op(r.range(1, end / SEC) * SEC, "pstall").set("node", 0).set("dur", r.range(10, 1200));
    if (r.chance(0.15)) p.op(r.range(1, end / SEC) * SEC, "clock").set("by", r.range(-3600000, 3600000));
    for (auto &id : ids) { if (r.chance(0.12)) p.op(r.range(1, end / SEC) * SEC, "hold").set("id", id).set("dur", r.range(20, 2500)); if (id[0] == 'v' && r.chance(0.12)) p.op(r.range(1, end / SEC) * SEC, "stall").set("id", id).set("dur", r.range(20, 3000)); }
    p.end = end + 8 * SEC;
}
static PropReg reg("P18", gen18, make_scn<P18>);
