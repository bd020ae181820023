// P04: HTTP-FLV playback.
#include "scn.h"
#include "gen.h"

// codec configuration before the frames that need it (RTMP and FLV players)
void check_headers(Scn &s, PlayS &p) {
    map<int, std::pair<int, int>> hdr;          // kind -> (publisher, index) of the last header seen
    string who = p.kind + " player " + p.id;
    for (size_t i = 0; i < p.rx.size(); i++) {
        Recv &r = p.rx[i]; int v = r.type == 9; if (r.pub < 0 || r.empty) continue;
        PubS &q = *s.pubs[r.pub];
        if (r.hdr) { hdr[v] = {r.pub, r.idx}; continue; }
        int need = -1; for (int k = r.idx - 1; k >= 0; k--) if (q.sent[k].hdr && q.sent[k].type == r.type) { need = k; break; }
        if (need < 0) continue;                  // nothing to configure
        auto it = hdr.find(v); bool ok = it != hdr.end() && (q.sent[need].data == s.msg(it->second).data);
        if (!ok) { s.bad(p.kind + (it == hdr.end() || it->second.first != r.pub ? " player received a coded frame before its codec header" : " player received a coded frame after a codec header that is not the current one"), fmt("%s: %s message #%d of publisher %s needs header #%d, last header received %s", who.c_str(), v ? "video" : "audio", r.idx, q.id.c_str(), need, it == hdr.end() ? "none" : fmt("#%d of publisher %s", it->second.second, s.pubs[it->second.first]->id.c_str()).c_str())); return; }
        s.stat["frames with their codec header"]++;
    }
}
struct P04 : Scn {
    using Scn::Scn;
    void finish() override {
        bool idle = pl.k("app.idle_streams", "on") == "on"; us_t tmo = pl.kn_("sim.timeout_s", 60) * SEC;
        for (auto &p : plays) if (p->kind == "flv") {
            HttpParser &h = p->h->p; string who = "player " + p->id;
            if (h.bad) { bad("the HTTP response of an FLV viewer is malformed", who + ": " + h.why); continue; }
            if (p->flv.bad) { bad("the body of an FLV viewer is not FLV", who + ": " + p->flv.why); continue; }
            if (h.headers_done && h.status != 200 && p->rx.size()) bad("FLV viewer gets media with an error status", who + fmt(": %d", h.status));
            if (p->t_stop < 0 && !p->h->conn_err && p->t_dead >= 0) {       // ended by the server
                bool pub_gone = false; for (auto &q : pubs) if (q->name == p->name && (q->t_stop >= 0 || q->t_dead >= 0)) { us_t t = q->t_stop >= 0 ? q->t_stop : q->t_dead; if (t < p->t_dead && t > p->t_conn - 6 * SEC) pub_gone = true; }
                bool waited = p->rx.empty() && p->t_dead - p->t_conn >= tmo - SEC;
                if (!(pub_gone && !idle) && !waited) { if (h.status == 200 || h.status == 0) bad("server ended the response of a healthy FLV viewer", fmt("%s at %.3f s", who.c_str(), p->t_dead / 1e6)); }
            }
            if (p->t_stop < 0 && p->t_dead < 0 && !idle) for (auto &q : pubs) if (q->name == p->name && q->graceful() && q->t_stop > p->t_conn && p->t_first >= 0 && p->t_first < q->t_stop && q->t_stop < w.now - 4 * SEC && link_full(*p) < q->t_stop) { bad("FLV response does not end when the stream ends", fmt("%s: publisher %s stopped at %.3f s", who.c_str(), q->id.c_str(), q->t_stop / 1e6)); break; }
            AvOpt o; o.check_end = idle; check_av(*this, *p, o); check_headers(*this, *p);
        } else if (p->kind == "rtmp") { AvOpt o; o.check_end = idle; check_av(*this, *p, o); }
        for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0) bad("server closed the connection of a healthy publisher", fmt("publisher %s at %.3f s: %s", p->id.c_str(), p->t_dead / 1e6, p->dead_why.c_str()));
    }
};
static void gen04(Plan &p, Rng &r) {
    gen_live(p, r, {"flv", "flv", "flv", "rtmp"});
    p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }");
    if (r.chance(0.3)) p.set("app.idle_streams", "off");
    if (r.chance(0.2)) p.set("httpmain.postpone_output", "0");
    if (r.chance(0.2)) p.set("httpmain.output_buffers", "1 4k");
    if (r.chance(0.2)) p.set("httpmain.tcp_nopush", "on");
    if (r.chance(0.1)) p.set("http.chunked_transfer_encoding", "off");
}
static PropReg reg("P04", gen04, make_scn<P04>);
