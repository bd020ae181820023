// P05: HTTP-TS playback.
#include "scn.h"
#include "gen.h"
#include "tsdec.h"
#include <algorithm>

struct P05 : Scn {
    using Scn::Scn;
    void finish() override {
        bool idle = pl.k("app.idle_streams", "on") == "on";
        for (auto &p : plays) if (p->kind == "ts") {
            HttpParser &h = p->h->p; string who = "player " + p->id;
            if (h.bad) { bad("the HTTP response of a TS viewer is malformed", who + ": " + h.why); continue; }
            if (p->ts.bad) { bad("the body of a TS viewer is not a valid transport stream", who + ": " + p->ts.why); continue; }
            if (p->ts.npkt >= 1 && !p->ts.pat) { bad("a TS viewer's stream does not begin with the program tables", who); continue; }
            if (p->t_dead >= 0 && p->t_stop < 0 && !p->h->conn_err && !p->ts.buf.empty()) { bad("a TS response ends inside a packet", who + fmt(": %zu bytes left", p->ts.buf.size())); continue; }
            TsOpt o; o.who = who; o.partial = pl.k("app.mpegts_send_all") == "off"; if (pl.k("app.mpegts_sync") == "20ms") o.a_slack = 20 * 90 + 90; o.until = p->t_stop >= 0 ? p->t_stop : p->t_dead >= 0 ? p->t_dead : w.now;
            p->ts.flush();
            vector<TsUnit> u; if (!ts_units(*this, *p->sc, p->pes, p->name, p->app, o, u)) continue;
            if (!ts_order(*this, u, o, p->kind + " player")) continue;
            bool left = true; for (auto &q : pubs) if (q->name == p->name) left = left && q->t_stop < 0 && q->t_dead < 0;     // a publisher that leaves takes the cached tail along
            if (p->ts.disc && left) bad("ts player sees a continuity counter jump without missing access units", who);
            bool rej = false; for (auto &x : u) if (pubs[x.pub]->rejected && pubs[x.pub]->t_start < 0) { bad("ts player received media of a refused publisher", who + fmt(": message #%d of %s", x.idx, pubs[x.pub]->id.c_str())); rej = true; break; }
            if (!rej) player(*p, u, idle);
        } else if (p->kind == "rtmp") { AvOpt o; o.check_end = idle; check_av(*this, *p, o); }
        for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0 && !p->rejected) bad("server closed the connection of a healthy publisher", fmt("publisher %s at %.3f s: %s", p->id.c_str(), p->t_dead / 1e6, p->dead_why.c_str()));
    }
    void player(PlayS &p, vector<TsUnit> &u, bool idle) {
        bool partial = pl.k("app.mpegts_send_all") == "off"; string who = "player " + p.id;
        if (p.t_stop < 0 && !p.h->conn_err && p.t_dead >= 0 && p.h->p.status == 200) {       // ended by the server
            bool gone = false; for (auto &q : pubs) if (q->name == p.name && (q->t_stop >= 0 || q->t_dead >= 0)) { us_t t = q->t_stop >= 0 ? q->t_stop : q->t_dead; if (t < p.t_dead && t > p.t_conn - 6 * SEC) gone = true; }
            if (!(gone && !idle)) { bad("server ended the response of a healthy TS viewer", fmt("%s at %.3f s", who.c_str(), p.t_dead / 1e6)); return; }
        }
        for (auto &qp : pubs) {
            PubS &q = *qp; if (q.name != p.name || q.rejected || q.t_start < 0 || !q.mc.video || q.nohdr) continue;
            // a viewer that was there in time starts at a keyframe published after it joined, or earlier
            us_t from = awake(p.t_req) + 100 * MS; if (p.t_conn > 0) from = std::max(from, awake(p.t_conn) + 500 * MS); from = awake(from);
            vector<int> all, got; for (size_t i = 0; i < q.sent.size(); i++) if (q.sent[i].type == 9 && !q.sent[i].hdr) all.push_back((int) i);
            for (auto &x : u) if (x.pub == q.order && x.type == 9) got.push_back(x.idx);
            bool open = p.t_stop < 0 && p.t_dead < 0;
            int need = -1; for (int i : all) if (q.sent[i].key && q.sent[i].t_sent > from) { need = i; break; }
            if (open && need >= 0 && (got.empty() ? q.sent[need].t_sent < w.now - 3 * SEC && (q.graceful() || q.st == 1) && !uplink_slow(q) : got[0] > need) && link_full(p) < 0 && p.stalls.empty()) { bad(got.empty() ? "ts player receives nothing" : "ts player starts late", fmt("%s: %s, keyframe #%d of publisher %s was published %.3f s after it joined", who.c_str(), got.empty() ? "no video" : fmt("first is #%d", got[0]).c_str(), need, q.id.c_str(), (q.sent[need].t_sent - from) / 1e6)); return; }
            if (open && !partial && !got.empty() && link_full(p) < 0 && p.stalls.empty() && (q.st == 1 || q.graceful()) && !uplink_slow(q)) {
                for (int v = 1; v >= 0; v--) {
                    int last = -1, ty = v ? 9 : 8; for (auto &x : u) if (x.pub == q.order && x.type == ty) last = x.idx;
                    if (last < 0) continue;
                    for (size_t i = last + 1; i < q.sent.size(); i++) if (q.sent[i].type == ty && !q.sent[i].hdr && q.sent[i].t_sent < w.now - 4 * SEC && (v || i + 2 * 1500 / std::max(1, q.mc.a_ms) < q.sent.size())) {        // up to mpegts_audio_delay of audio waits for its PES
                         bad("ts player misses the last messages", fmt("%s: last %s of publisher %s is #%d, #%zu was published", who.c_str(), v ? "video" : "audio", q.id.c_str(), last, i)); return; }
                    stat["complete tails"]++;
                }
            }
        }
    }
};
static void gen05(Plan &p, Rng &r) {
    gen_live(p, r, {"ts", "ts", "ts", "rtmp"});
    p.set("loc.location#ts", "/ts { ts_live 1935 app=live; }");
    p.set("app.mpegts_cache_time", r.pick<string>({"1s", "2s", "5s", "10s"})); p.set("app.mpegts_send_all", r.chance(0.7) ? "on" : "off"); if (p.k("app.mpegts_send_all") == "off" && r.chance(0.5)) p.set("app.mpegts_one_off_send", r.pick<string>({"500ms", "1s"}));
    p.set("rtmp.out_queue", 4096);
    if (r.chance(0.2)) p.set("app.mpegts_audio_delay", r.pick<string>({"0", "50ms", "1s"}));
    if (r.chance(0.2)) p.set("app.mpegts_sync", r.pick<string>({"0", "20ms"}));
    if (r.chance(0.2)) p.set("app.mpegts_audio_buffer_size", r.pick<int64_t>({2000, 8192}));
    if (r.chance(0.2)) p.set("app.idle_streams", "off");
    if (r.chance(0.2)) p.set("httpmain.postpone_output", "0");
    if (r.chance(0.2)) p.set("httpmain.tcp_nopush", "on");
    if (r.chance(0.3)) { int n = (int) r.range(1, 2); for (int i = 0; i < n; i++) { Op &o = p.op(r.range(500, 9000) * MS, "pub"); string id = fmt("d%d", i); o.set("id", id).set("name", fmt("s%d", (int) r.below(2))).set("dup", 1); g_media(o, r, p); g_link(o, r, &p); o.set("eager", 1).set("limit", 4000); p.op(o.t + r.range(200, 6000) * MS, "unpub").set("id", id).set("mode", r.pick<string>({"close", "reset", "unpub"})); } }    // refused while the stream is published
    for (auto &o : p.ops) if (o.verb == "pub" || o.verb == "repub") { o.kv.erase("video"); if (o.n("ts0") > 4000000000ll) o.set("ts0", 100000000); }
}
static PropReg reg("P05", gen05, make_scn<P05>);
