// P07: HLS+ sessions (playlists and segments served from memory).
#include "scn.h"
#include "gen.h"
#include "tsdec.h"
#include <algorithm>
#include <cmath>

struct P07 : Scn {
    using Scn::Scn;
    struct Ent { uint64_t id; double dur; bool disc; string uri; };
    struct Seg { us_t t_listed = -1, t_req = -1, t_done = -1, t_listed_last = -1; double dur = 0; bool disc = false; int status = 0; bool got = false; vector<TsUnit> u; HttpGet *h = nullptr; bool slow = false; };
    struct View {
        string id, name, host, url, sid; us_t t0 = -1, t_stop = -1, t_url = -1, poll = 500 * MS; int64_t lag = 0, rate = 0, skip = 0; bool on = false, lost = false; HttpGet *h = nullptr; us_t t_ok = -1, t_poll = -1, t_lastpoll = -1, stuck = -1; uint64_t seq = 0; bool have = false; map<uint64_t, Seg> segs; vector<std::pair<us_t, int>> answers; LinkParam lp; string mode; int polls = 0, gone = 0; us_t t_first = -1; vector<us_t> t_ent; uint64_t maxid = 0; string ip;
    };
    vector<std::unique_ptr<View>> views; vector<std::unique_ptr<HttpGet>> hs; map<string, string> sids; int64_t fraglen = 5000, playlen = 15000, maxfrag = 50000; size_t win = 3, minf = 2; us_t timeout = 45 * SEC; bool jump = false; us_t fwd = 0;
    static int64_t ms(const string &s) { return s.size() > 2 && s.substr(s.size() - 2) == "ms" ? atoll(s.c_str()) : atoll(s.c_str()) * 1000; }
    void setup() override {
        fraglen = ms(pl.k("app.hls2_fragment", "5s")); playlen = pl.kn.count("app.hls2_playlist_length") ? ms(pl.k("app.hls2_playlist_length")) : fraglen * 3; maxfrag = pl.kn.count("app.hls2_max_fragment") ? ms(pl.k("app.hls2_max_fragment")) : fraglen * 10; win = playlen / fraglen; minf = pl.kn_("app.hls2_minfrags", 2); timeout = playlen * 3 * MS;
        for (auto &o : pl.ops) if (o.verb == "clock") { jump = true; }
    }
    View *view(const string &id) { for (auto &v : views) if (v->id == id) return v.get(); return nullptr; }
    bool apply(const Op &o) override {
        if (o.verb == "hls") {
            views.push_back(std::make_unique<View>()); View *v = views.back().get(); v->id = o.s("id"); v->name = o.s("name"); v->host = o.s("host", "sim.test"); v->poll = o.n("poll", 500) * MS; v->lag = o.n("lag"); v->rate = o.n("rate"); v->skip = o.n("skip"); v->t0 = w.now; v->on = true; v->lp = link(o); v->ip = fmt("10.2.1.%d", (int) views.size());
            v->sid = o.s("sid"); if (!v->sid.empty()) { v->url = "/hls2/" + v->name + ".m3u8?session=" + v->sid; v->t_url = w.now; poll(v); } else master(v);
            return true;
        }
        if (o.verb == "unhls") { View *v = view(o.s("id")); if (v && v->on) { v->on = false; v->t_stop = w.now; v->mode = o.s("mode"); if (v->mode == "reset") { w.fault("viewer reset"); for (auto &h : hs) if (h->url.find(v->sid.empty() ? "?" : v->sid) != string::npos && h->t_done < 0 && !h->dead) { h->ac->reset(); h->dead = true; } } } return true; }
        if (o.verb == "rehls") { View *v = view(o.s("id")); if (v && !v->on && !v->url.empty()) { v->on = true; v->t_stop = -1; poll(v); } return true; }       // polls again after a break
        if (o.verb == "double") { View *v = view(o.s("id")); if (v && !v->url.empty()) { bool rst = o.n("rst"); w.fault("the same playlist asked for twice at once"); HttpGet *h = get(v, v->url); HttpGet *g = h; if (rst) w.after(o.n("after", 5) * MS, [this, g] { if (g->t_done < 0 && !g->dead) { g->ac->reset(); g->dead = true; } }); h->on_done = [this, v, h] { if (h->p.status == 200) playlist(v, h, false); }; } return true; }
        if (o.verb == "old") { View *v = view(o.s("id")); if (v && !v->sid.empty()) { int64_t n = o.n("n"); uint64_t id = o.n("abs") ? (uint64_t) n : n + (int64_t) v->maxid; w.fault("a segment that may not exist asked for"); HttpGet *h = get(v, fmt("/hls2/%s-%lu.ts?session=%s", v->name.c_str(), (unsigned long) id, v->sid.c_str())); h->on_done = [this, v, h, id] { ts(v, h, id, true); }; } return true; }
        return Scn::apply(o);
    }
    HttpGet *get(View *v, string u) { if (pl.k("app.access_log") != "") u += (u.find('?') == string::npos ? "?" : "&") + ("flashver=FV-" + v->id); hs.push_back(std::make_unique<HttpGet>(&w, nodes[0].ip, port_http, u, v->lp, v->ip, false, v->host)); return hs.back().get(); }
    void master(View *v) {
        HttpGet *h = get(v, "/hls2/" + v->name + ".m3u8?u=" + v->id);
        h->on_done = [this, v, h] {
            if (h->dead && h->p.status == 0) return;
            if (h->p.status != 200) { bad("a master playlist is refused", v->id + fmt(": %d", h->p.status)); return; }
            auto l = split(h->p.body, '\n'); string pre = "http://" + v->host + "/hls2/" + v->name + ".m3u8?session=";
            if (l.size() < 3 || l[0] != "#EXTM3U" || l[2].compare(0, pre.size(), pre)) { bad("a master playlist is malformed", v->id + ": " + h->p.body); return; }
            v->url = l[2].substr(("http://" + v->host).size()); string s = l[2].substr(pre.size()); v->sid = s.substr(0, s.find('&')); if (v->url.find("&u=" + v->id) == string::npos) bad("a master playlist loses the arguments of its request", v->id + ": " + v->url);
            if (!sids.insert({v->sid, v->id}).second) bad("two viewers got the same session", v->id + " and " + sids[v->sid] + ": " + v->sid);
            v->t_url = w.now; if (v->on) poll(v);
        };
    }
    void poll(View *v) {
        if (!v->on) return;
        if (v->h && v->h->t_done < 0 && !v->h->dead) return;
        v->t_lastpoll = w.now; v->polls++; HttpGet *h = v->h = get(v, v->url); us_t t = w.now;
        h->on_done = [this, v, h, t] { v->answers.push_back({w.now, h->p.status}); if (h->p.status == 200) playlist(v, h, true, t); else if (h->p.status) v->gone++; w.after(v->poll, [this, v, h] { if (v->h == h) poll(v); }); };
    }
    void once(View *v, const string &what, const string &d) { if (!v->lost) { v->lost = true; bad(what, v->id + ": " + d); } }
    void playlist(View *v, HttpGet *h, bool main, us_t t_req = -1) {
        if (h->conn_err) return;
        const string &d = h->p.body; vector<string> l; size_t i = 0; string why; stat["playlists checked"]++;
        while (i < d.size()) { size_t e = d.find('\n', i); if (e == string::npos) { once(v, "a playlist is not complete", d); return; } l.push_back(d.substr(i, e - i)); i = e + 1; }
        if (l.size() < 4 || l[0] != "#EXTM3U" || l[1] != "#EXT-X-VERSION:3" || l[2].compare(0, 22, "#EXT-X-MEDIA-SEQUENCE:") || l[3].compare(0, 22, "#EXT-X-TARGETDURATION:")) { once(v, "a playlist is not complete", fmt("%zu bytes: ", d.size()) + d.substr(0, 200)); return; }
        uint64_t seq = strtoull(l[2].c_str() + 22, 0, 10); int target = atoi(l[3].c_str() + 22); vector<Ent> es; bool disc = false; double dur = -1;
        for (size_t k = 4; k < l.size(); k++) {
            if (l[k] == "#EXT-X-DISCONTINUITY") { disc = true; continue; }
            if (!l[k].compare(0, 8, "#EXTINF:")) { dur = atof(l[k].c_str() + 8); continue; }
            string pre = v->name + "-"; if (l[k].compare(0, pre.size(), pre) || dur < 0) { once(v, "a playlist has a malformed entry", l[k]); return; }
            Ent e; e.id = strtoull(l[k].c_str() + pre.size(), 0, 10); e.dur = dur; e.disc = disc; e.uri = l[k]; dur = -1; disc = false;
            if (l[k].find(fmt("%s%lu.ts?session=%s&", pre.c_str(), (unsigned long) e.id, v->sid.c_str())) != 0) { once(v, "a playlist entry names another session or segment", l[k]); return; }
            if (e.id != seq + es.size()) { once(v, "a playlist's entries do not follow its media sequence", d); return; }
            if ((int) floor(e.dur + 0.4999) > target) { once(v, "a segment lasts longer than the target duration", l[k] + fmt(": %.3f, target %d", e.dur, target)); return; }
            es.push_back(e);
        }
        bool fresh = v->have && jumped_out(v); (void) fresh;
        if (es.size() < minf || (win >= minf && es.size() > win)) { once(v, "a playlist lists too few or too many segments", fmt("%zu, window %zu, at least %zu", es.size(), win, minf)); return; }
        if (!main) return;
        if (v->have && seq < v->seq) {
            if (broke(v)) { v->segs.clear(); stat["sessions started over"]++; v->maxid = 0; }
            else { once(v, "the media sequence number goes backwards", fmt("%lu after %lu at %.3f s", (unsigned long) seq, (unsigned long) v->seq, w.now / 1e6)); return; }
        } else if (v->have && v->maxid && es.back().id < v->maxid) {
            if (broke(v)) { v->segs.clear(); v->maxid = 0; stat["sessions started over"]++; } else { once(v, "a playlist loses its newest segments", fmt("%lu after %lu", (unsigned long) es.back().id, (unsigned long) v->maxid)); return; }
        }
        v->t_ent.push_back(w.now); v->have = true; v->seq = seq; v->t_ok = w.now; if (v->t_first < 0) v->t_first = w.now;
        for (auto &e : es) {
            bool nw = !v->segs.count(e.id); Seg &s = v->segs[e.id]; s.t_listed_last = w.now;
            if (nw) {
                s.t_listed = w.now; s.dur = e.dur; s.disc = e.disc; v->maxid = std::max(v->maxid, e.id); uint64_t id = e.id; string u = "/hls2/" + e.uri;
                if (v->skip && (id % v->skip) == 0) continue;
                if (v->lag) { w.after(v->lag * MS, [this, v, id, u] { if (v->on && v->segs.count(id)) seg(v, id, u); }); } else seg(v, id, u);
            } else if (fabs(s.dur - e.dur) > 0.0015 || s.disc != e.disc) {
                if (broke(v)) { v->segs.clear(); return; }
                once(v, "a playlist changes an entry it listed before", fmt("%s: %.3f, was %.3f", e.uri.c_str(), e.dur, s.dur)); return; }
        }
    }
    bool jumped_out(View *) { return false; }
    // the session may have expired: not polled for longer than its timeout, or the wall clock moved
    bool broke(View *v) { if (jump) return true; us_t last = v->t0; for (auto &h : hs) if (h->url.find(v->sid) != string::npos && h->url.find(".m3u8") != string::npos) { if (h->t_start - last > timeout - SEC) return true; last = h->t_done >= 0 ? h->t_done : h->t_start; if (h->t_done < 0 && w.now - h->t_start > timeout - SEC) return true; if (h->t_done - h->t_start > timeout - SEC) return true; } return false; }
    void seg(View *v, uint64_t id, const string &u) {
        Seg &s = v->segs[id]; s.t_req = w.now; HttpGet *h = s.h = get(v, u); if (v->rate) { h->ac->set_rate(v->rate); s.slow = true; w.fault("slow fetch"); }
        h->on_done = [this, v, h, id] { ts(v, h, id, false); };
    }
    // a publisher which sent a whole playlist and more at once
    bool burst(View *v, us_t from) { for (auto &q : pubs) if (q->name == v->name) for (size_t i = q->sent.size(), k = i; i-- > 0;) { auto &m = q->sent[i]; if (m.t_sent < from) break; while (k > i + 1 && q->sent[k - 1].t_sent > m.t_sent + 100 * MS) k--; if (k < q->sent.size() + 1 && k > 0 && llabs((int64_t) q->sent[k - 1].ts - (int64_t) m.ts) > std::max<int64_t>(fraglen / 2, 200)) return true; } return false; }
    void ts(View *v, HttpGet *h, uint64_t id, bool stray) {
        if (h->p.status == 0) return;
        auto it = v->segs.find(id); Seg *s = it == v->segs.end() ? nullptr : &it->second; if (!stray && !s) return;
        if (h->p.status != 200) {
            if (s && !stray) { s->t_done = w.now; s->status = h->p.status; if (s->t_req - s->t_listed_last < 100 * MS && v->lp.lat < 50 * MS && !broke(v) && v->on && h->p.status != 410 && !burst(v, s->t_listed_last - SEC)) once(v, "a listed segment cannot be fetched", fmt("%lu: %d", (unsigned long) id, h->p.status)); }
            if (h->p.status >= 500) once(v, "a segment request fails", fmt("%lu: %d", (unsigned long) id, h->p.status));
            return;
        }
        if (s) s->status = 200;
        string &d = h->p.body; if (!h->p.done) { if (!h->conn_err && !broke(v) && v->t_stop < 0) once(v, "a segment is not served in full", fmt("%lu: %zu bytes", (unsigned long) id, d.size())); return; }
        if (d.empty() || d.size() % 188) { once(v, "a segment is not a transport stream", fmt("%lu: %zu bytes", (unsigned long) id, d.size())); return; }
        TsParser t; vector<TsPes> pes; t.on_pes = [&](TsPes &p) { pes.push_back(p); }; t.feed(d.data(), d.size()); t.flush(); stat["segments checked"]++;
        if (t.bad) { once(v, "a segment is not a valid transport stream", fmt("%lu: ", (unsigned long) id) + t.why); return; }
        TsOpt o; o.who = fmt("segment %lu of %s", (unsigned long) id, v->id.c_str()); o.last_partial = false; vector<TsUnit> u; if (!ts_units(*this, *this, pes, v->name, "live", o, u)) { v->lost = true; return; }
        for (auto &p : pes) if (!t.types.count(p.pid)) { once(v, "a segment's program table does not list its media", fmt("%lu: pid %d", (unsigned long) id, p.pid)); return; }
        if (stray) { if (broke(v)) return; if (s && s->got && (u.size() != s->u.size() || (!u.empty() && (u[0].idx != s->u[0].idx || u[0].pub != s->u[0].pub)))) once(v, "a segment changes between two fetches", fmt("%lu", (unsigned long) id)); if (s && !s->got && s->t_done < 0 && s->t_listed >= 0) {} else if (!s) for (auto &x : v->segs) if (x.second.got && x.second.u.size() && u.size() && x.second.u[0].pub == u[0].pub && x.second.u[0].idx == u[0].idx && x.first != id) once(v, "a segment is served under another number", fmt("%lu as %lu", (unsigned long) x.first, (unsigned long) id)); return; }
        s->got = true; s->u = u; s->t_done = w.now; stat["access units compared"] += u.size();
        for (auto &x : u) { PubS &q = *pubs[x.pub]; if (q.rejected && q.t_start < 0) { once(v, "a segment holds media of a refused publisher", fmt("%lu", (unsigned long) id)); return; } }
    }
    void check(View &v) {
        // what follows what
        const Seg *a = nullptr; uint64_t ai = 0; map<std::pair<int, int>, int> last;
        int nu = 0, oq = (int) pl.kn_("rtmp.out_queue", 4096); bool small = oq < 2048;   // what the cache holds may fill a small queue at once, and what comes next finds no room
        for (auto &i : v.segs) {
            const Seg &s = i.second; if (!s.got) { a = nullptr; last.clear(); continue; } if (ai + 1 != i.first) { last.clear(); a = nullptr; }
            int fv = -1; for (auto &u : s.u) if (u.type == 9) { fv = u.idx; break; }
            for (auto &u : s.u) {
                auto k = std::make_pair(u.pub, (int) u.type); PubS &q = *pubs[u.pub]; nu++;
                if (last.count(k)) { int l = last[k]; if (u.idx <= l) { once(&v, "segments hold a message twice or out of order", fmt("%lu: #%d after #%d of %s", (unsigned long) i.first, u.idx, l, q.id.c_str())); return; } for (int n = l + 1; n < u.idx; n++) if (q.sent[n].type == u.type && !q.sent[n].hdr && !(small && nu < oq)) { once(&v, "segments miss messages in the middle", fmt("%lu: #%d after #%d of %s", (unsigned long) i.first, u.idx, l, q.id.c_str())); return; } }
                last[k] = u.idx; stat["messages in order"]++;
            }
            if (s.u.size()) {
                PubS &q = *pubs[s.u[0].pub]; bool one = true, plain = true; for (auto &u : s.u) if (u.pub != s.u[0].pub) one = false;
                for (size_t n = 1; n < q.sent.size(); n++) if ((int64_t) q.sent[n].ts - (int64_t) q.sent[n - 1].ts < -900 || (int64_t) q.sent[n].ts - (int64_t) q.sent[n - 1].ts > 1000) plain = false;
                if (one && plain && pl.kn_("rtmp.out_queue", 4096) >= 2048 && q.mc.video && fv >= 0 && s.dur * 1000 + 1500 < maxfrag && a && a->dur * 1000 + 1500 < maxfrag && ai + 1 == i.first && a->u.size() && a->u[0].pub == q.order && a->u.back().pub == q.order && pl.k("app.hls2_fragment_slicing") != "aligned") { if (!q.sent[fv].key) { once(&v, "a segment does not start at a keyframe", fmt("%lu: #%d of %s, the one before lasts %.3f s", (unsigned long) i.first, fv, q.id.c_str(), a->dur)); return; } stat["segments start at keyframes"]++;
                    if (a->dur * 1000 + 1 < fraglen && ai > 0) { once(&v, "a segment is shorter than the fragment length", fmt("%lu: %.3f s", (unsigned long) ai, a->dur)); return; } }
            }
            a = &s; ai = i.first;
        }
    }
    bool waited = false;
    // what a viewer said of itself stays what it said for as long as its session lasts
    void logged() {
        if (pl.k("app.access_log") == "") return;
        for (auto &l : split(read_file(nodes[0].prefix + "/data/a.acc"), '\n')) {
            if (l.empty()) continue; auto f = split(l, '|'); if (f.size() != 7 || f[0] != "H" || f[6] != "E") { bad("a line of the access log is not the one configured", url_escape(l)); return; }
            if (f[5].find("session=") == string::npos) continue; size_t k = f[5].find("flashver=FV-"); if (k == string::npos) continue;
            string id = f[5].substr(k + 12); id = id.substr(0, id.find('&')); View *v = view(id); if (!v) continue; stat["session lines checked"]++;
            if (f[4] != "FV-" + id || f[2] != v->host || f[3].compare(0, v->host.size() + 8, "http://" + v->host + "/")) { bad("a session's log line does not say what its viewer said", url_escape(l)); return; }
        }
    }
    void finish() override {
        logged();
        for (auto &v : views) if (!v->lost && !broke(v.get())) check(*v);
        // a viewer who keeps asking is served as long as the publisher sends
        for (auto &vp : views) {
            View &v = *vp; if (v.lost || v.url.empty() || v.t_url < 0 || broke(&v)) continue;
            us_t till = v.t_stop >= 0 ? v.t_stop : pl.end;
            for (auto &qp : pubs) {
                PubS &q = *qp; if (q.name != v.name || q.t_start < 0 || q.rejected || !q.mc.video || q.nohdr) continue; bool alone = true; for (auto &o : pubs) if (o.get() != &q && o->name == q.name) alone = false; if (!alone || uplink_slow(q)) continue;
                us_t qe = q.t_stop >= 0 ? q.t_stop : q.t_dead >= 0 ? q.t_dead : pl.end; int64_t gop = q.mc.gop * 1000 / std::max(1, q.mc.fps), step = fraglen + gop + 500; bool plain = q.speed == 1; for (size_t n = 1; n < q.sent.size(); n++) { int64_t d = (int64_t) q.sent[n].ts - (int64_t) q.sent[n - 1].ts; if (d < -900 || d > 1000 || q.sent[n].t_sent - q.sent[n - 1].t_sent > SEC) plain = false; } for (auto &o : pl.ops) if (o.verb == "pstall" || ((o.verb == "rate" || o.verb == "pubpause" || o.verb == "stall" || o.verb == "hold") && (o.s("id") == q.id || o.s("id") == v.id))) plain = false;
                if (!plain) continue;
                us_t from = std::max(v.t_url, q.t_start), need = from + (us_t) ((minf + 1) * step + 2000) * MS + v.lp.lat * 6;
                if (std::min(till, qe) > need + SEC && (v.t_first < 0 || v.t_first > need)) { bad("a viewer is not served though the stream is published", v.id + fmt(": asked at %.3f s, first playlist %.3f s", v.t_url / 1e6, v.t_first / 1e6)); return; }
                if (v.t_first >= 0) stat["viewers served"]++;
                if (v.t_first >= 0 && std::min(till, qe) > need + 5 * SEC && !v.lag && !v.rate && !v.skip && v.mode != "reset") { const Seg *s = nullptr; for (auto &i : v.segs) if (i.second.got && i.second.u.size()) s = &i.second; us_t e = std::min(till, qe); if (s) { int l = -1; for (auto &u : s->u) if (u.pub == q.order) l = u.idx; us_t lim = (us_t) (2 * step + 2000) * MS + v.poll + v.lp.lat * 8 + 2 * SEC; if (l >= 0 && q.sent[l].t_sent < e - lim) bad("a viewer falls behind for no reason", v.id + fmt(": #%d of %.3f s at %.3f s", l, q.sent[l].t_sent / 1e6, e / 1e6)); else stat["viewers current"]++; } }
            }
        }
        for (auto &v : views) for (auto &a : v->answers) if (a.second >= 500 && !v->lost) { once(v.get(), "a playlist request fails", fmt("%d at %.3f s", a.second, a.first / 1e6)); }
        // the others
        if (pl.kn_("rtmp.out_queue", 4096) >= 2048) for (auto &p : plays) if (p->kind == "rtmp") { AvOpt o; check_av(*this, *p, o); if (p->t_dead >= 0 && p->t_stop < 0) bad("HLS+ viewers end a player", p->id); }
        for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0 && !p->rejected) bad("HLS+ viewers end a publisher", p->id + ": " + p->dead_why);
        // everything is returned once nobody asks any more
        if (pl.kn_("x.idle", 0)) for (auto &g : gets) if (g->url.find("idlecheck") != string::npos) { stat["idle status pages"]++; if (g->p.status != 200) bad("the status page is not served", fmt("%d", g->p.status)); else if (g->p.body.find("\"stream_array\":\t[]") == string::npos) bad("sessions which nobody polls any more are kept", g->p.body.substr(0, 900)); }
    }
};
static void gen07(Plan &p, Rng &r) {
    gen_live(p, r, {"rtmp"}); for (auto &k : {"app.hls", "app.hls_path", "app.dash", "app.dash_path", "app.recorder#1", "app.live_record", "app.live_record_path", "rtmp.out_cork", "app.sync"}) p.kn.erase(k);
    p.ops.erase(std::remove_if(p.ops.begin(), p.ops.end(), [](const Op &o) { return o.verb == "clock"; }), p.ops.end());
    p.set("loc.location#hls2", "/hls2 { hls2_live 1935 app=live; }"); p.set("app.hls2", "on"); p.set("rtmp.out_queue", 4096);
    int fr = (int) r.pick<int64_t>({300, 500, 1000, 1000, 2000}), wn = (int) r.range(2, 6); p.set("app.hls2_fragment", fmt("%dms", fr)); p.set("app.hls2_playlist_length", fmt("%dms", fr * wn)); p.set("app.hls2_minfrags", r.range(1, std::min(wn, 3))); p.set("app.mpegts_cache_time", fmt("%dms", fr * wn + (int) r.pick<int64_t>({6000, 10000, 20000})));
    if (r.chance(0.1)) { p.set("rtmp.out_queue", r.pick<int64_t>({128, 256})); if (r.chance(0.3)) { fr = 6000; wn = 2; p.set("app.hls2_fragment", "6000ms"); p.set("app.hls2_playlist_length", "12000ms"); p.set("app.hls2_minfrags", 1); p.set("app.mpegts_cache_time", "20000ms"); } }
    if (r.chance(0.3)) p.set("app.hls2_max_fragment", fmt("%dms", (int) (fr * r.pick<double>({1.5, 3, 5}))));
    if (r.chance(0.1)) p.set("app.hls2_fragment_slicing", "aligned");
    for (auto &o : p.ops) if (o.verb == "pub" || o.verb == "repub") { o.kv.erase("video"); if (o.n("ts0") > 4000000000ll) o.set("ts0", 100000000); }
    us_t last = p.end; int n = (int) r.range(1, 4); vector<string> names; for (auto &o : p.ops) if (o.verb == "pub") names.push_back(o.s("name"));
    p.end += fr * wn * MS + 4 * SEC; last = p.end;
    for (int i = 0; i < n && !names.empty(); i++) {
        us_t t = r.range(50, 5000) * MS; string id = fmt("h%d", i); Op &o = p.op(t, "hls"); o.set("id", id).set("name", r.pick(names)).set("poll", r.pick<int64_t>({100, 300, fr / 2, fr, fr * 2})); g_link(o, r, &p);
        if (r.chance(0.15)) o.set("lag", r.range(1, fr * wn * 2)); if (r.chance(0.15)) o.set("rate", r.pick<int64_t>({20000, 60000, 200000})); if (r.chance(0.1)) o.set("skip", r.range(2, 3));
        if (r.chance(0.1)) o.set("sid", fmt("mysid-%d", i));
        if (r.chance(0.5)) { us_t te = t + r.range(0, (last - t) / MS) * MS; p.op(te, "unhls").set("id", id).set("mode", r.pick<string>({"stop", "reset"})); if (r.chance(0.4)) p.op(te + r.range(0, fr * wn * 4) * MS, "rehls").set("id", id); }
        int k = r.chance(0.3) ? (int) r.range(1, 4) : 0; for (int j = 0; j < k; j++) { if (r.chance(0.5)) { Op &d = p.op(t + r.range(100, 8000) * MS, "double"); d.set("id", id).set("rst", r.chance(0.5)); d.set("after", r.pick<int64_t>({0, 1, 5, 100})); } else { Op &d = p.op(t + r.range(100, 12000) * MS, "old"); d.set("id", id).set("n", r.pick<int64_t>({0, 0, 1, 1, 1, 2, 3, -1, -2, -wn, -wn - 1, -wn - 2, -2 * wn, -2 * wn - 1})); } }
    }
    if (r.chance(0.4)) { p.set("rtmpmain.log_format", "x 'H|$name|$domain|$tcurl|$flashver|$args|E'"); p.set("app.access_log", "data/a.acc x"); }
    if (r.chance(0.15)) p.op(r.range(1, last / SEC) * SEC, "clock").set("by", r.range(-86400000, 86400000));
    if (r.chance(0.5)) {   // everybody leaves
        p.set("x.idle", 1); us_t t = p.end; for (auto &o : p.ops) t = std::max(t, o.t); t += 100 * MS; vector<string> ps, vs, hv; for (auto &o : p.ops) { if (o.verb == "pub" || o.verb == "repub") ps.push_back(o.s("id")); if (o.verb == "play") vs.push_back(o.s("id")); if (o.verb == "hls") hv.push_back(o.s("id")); }
        for (auto &i : ps) p.op(t, "unpub").set("id", i).set("mode", "close"); for (auto &i : vs) p.op(t, "unplay").set("id", i).set("mode", "close"); for (auto &i : hv) p.op(t, "unhls").set("id", i).set("mode", "reset");
        for (auto &o : p.ops) if (o.verb == "clock" && o.n("by") < 0) o.set("by", -o.n("by"));
        us_t te = t + (us_t) fr * wn * 3 * MS + ((us_t) fr * wn * 3 + 3000) * MS / 2 + 75 * SEC; p.op(te, "get").set("url", "/sys_stat?idlecheck"); p.end = te + SEC;
    }
}
static PropReg reg("P07", gen07, make_scn<P07>);
