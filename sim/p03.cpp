// P03: one active publisher per stream; priorities and failover.
#include "scn.h"
#include "gen.h"
#include <algorithm>

struct P03 : Scn {
    using Scn::Scn;
    us_t slack() { return 2 * SEC; }
    static int pri(PubS &q) { size_t k = q.args.find("pubpri="); if (k == string::npos) return 0; string v = q.args.substr(k + 7); size_t e = v.find('&'); v = v.substr(0, e); for (char c : v) if (c < '0' || c > '9') return 0; return v.empty() ? 0 : atoi(v.c_str()); }
    us_t leave(PubS &q) { us_t t = q.t_stop >= 0 ? q.t_stop : INT64_MAX / 4; if (q.t_dead >= 0) t = std::min(t, q.t_dead); return t; }
    // when the server has certainly let go of it
    us_t gone(PubS &q) { us_t t = leave(q); if (t > pl.end) return t; return t + (q.stop_mode == "vanish" ? 8 * SEC : slack()); }
    us_t answered(PubS &q) { for (auto &s : q.status) if (s.second.find("Publish.") != string::npos) return s.first; return -1; }
    bool admitted(PubS &q) { return q.t_start >= 0; }
    void finish() override {
        for (auto &up : pubs) {
            PubS &q = *up; us_t ans = answered(q); string who = fmt("publisher %s (stream %s, priority %d)", q.id.c_str(), q.name.c_str(), pri(q));
            bool bad_name = false; for (auto &s : q.status) if (s.second == "NetStream.Publish.BadName") bad_name = true;
            if (bad_name && admitted(q)) { bad("a publisher was both refused and started", who); continue; }
            if (ans < 0) { if (q.t_stop < 0 && q.t_dead < 0 && q.t_pubreq >= 0 && q.t_pubreq < w.now - 5 * SEC) bad("a publish request was never answered", who); if (q.t_dead >= 0 && q.t_stop < 0) bad("a publisher was disconnected without an answer", who); continue; }
            us_t req = q.eager ? q.t_conn : q.t_pubreq; bool must = false, may = false; string other;
            for (auto &ux : pubs) {
                PubS &x = *ux; if (&x == &q || x.name != q.name || pri(x) != pri(q)) continue;
                us_t xreq = x.eager ? x.t_conn : x.t_pubreq; if (xreq < 0) continue;
                if (admitted(x) && x.t_start < req && leave(x) > ans) { must = true; other = x.id; }
                if (xreq < ans && gone(x) > req && (admitted(x) || answered(x) < 0)) { may = true; }
            }
            if (must && admitted(q)) { bad("a second publisher was admitted to a stream that is being published", fmt("%s started at %.3f s while %s is publishing", who.c_str(), ans / 1e6, other.c_str())); return; }
            if (!may && !admitted(q)) { bad("a publisher was refused although nobody is publishing the stream", fmt("%s asked at %.3f s, refused at %.3f s", who.c_str(), req / 1e6, ans / 1e6)); return; }
            stat[admitted(q) ? "publishers admitted" : "publishers refused"]++;
            if (admitted(q) && q.t_dead >= 0 && q.t_stop < 0) bad("server closed the connection of the active publisher", fmt("%s at %.3f s: %s", who.c_str(), q.t_dead / 1e6, q.dead_why.c_str()));
        }
        for (auto &p : plays) player(*p);
    }
    // intervals in which q is certainly the one to be heard
    vector<std::pair<us_t, us_t>> sole(PubS &q) {
        vector<std::pair<us_t, us_t>> v; if (!admitted(q)) return v;
        us_t a = q.t_start, b = std::min(leave(q), w.now); vector<std::pair<us_t, us_t>> cut;
        for (auto &ux : pubs) { PubS &x = *ux; if (&x == &q || x.name != q.name) continue; us_t xr = x.eager ? x.t_conn : x.t_pubreq; if (xr < 0) continue; bool adm = admitted(x) || answered(x) < 0; if (!adm) continue; if (pri(x) >= pri(q)) cut.push_back({xr, gone(x)}); }
        std::sort(cut.begin(), cut.end());
        for (auto &c : cut) { if (c.second <= a) continue; if (c.first >= b) break; if (c.first > a) v.push_back({a, c.first}); a = std::max(a, c.second); }
        if (a < b) v.push_back({a, b});
        return v;
    }
    void player(PlayS &p) {
        string who = p.kind + " player " + p.id; map<int, std::set<int>> have; map<int, int> last; us_t lim = p.t_stop >= 0 ? p.t_stop : p.t_dead >= 0 ? p.t_dead : w.now;
        bool idle = pl.k("app.idle_streams", "on") == "on";
        for (size_t i = 0; i < p.rx.size(); i++) {
            Recv &r = p.rx[i]; if (r.empty) continue;
            if (r.pub < 0) { bad("a player received a message that was never published", who); return; }
            PubS &q = *pubs[r.pub]; if (q.name != p.name) { bad("a player received a message of another stream", who); return; }
            if (!r.hdr && !admitted(q) && answered(q) >= 0) { bad("a player hears a refused publisher", fmt("%s: %s message #%d of publisher %s at %.3f s", who.c_str(), r.type == 9 ? "video" : "audio", r.idx, q.id.c_str(), r.t / 1e6)); return; }
            Pub &m = msg({r.pub, r.idx}); us_t ts = m.t_sent;
            for (auto &ux : pubs) { PubS &x = *ux; if (x.name != q.name || &x == &q || !admitted(x) || pri(x) <= pri(q)) continue; if (ts > x.t_start && r.t < leave(x) && !r.hdr) { bad("a player hears a publisher while one of higher priority is active", fmt("%s: message #%d of publisher %s (priority %d) sent at %.3f s arrived at %.3f s while %s (priority %d) publishes from %.3f s", who.c_str(), r.idx, q.id.c_str(), pri(q), ts / 1e6, r.t / 1e6, x.id.c_str(), pri(x), x.t_start / 1e6)); return; } }
            if (r.hdr) continue;
            int key = r.pub * 2 + (r.type == 9); if (last.count(key) && r.idx <= last[key]) {
                bool other = false; for (size_t k = i; k-- > 0;) { if (p.rx[k].pub == r.pub && p.rx[k].type == r.type && !p.rx[k].hdr && p.rx[k].idx >= r.idx) break; if (p.rx[k].pub >= 0 && p.rx[k].pub != r.pub && pri(*pubs[p.rx[k].pub]) > pri(q)) other = true; }
                bad(string("a player received messages twice or out of order") + (other && pl.kn.count("app.cache_time") ? " (cached GOP sent again when falling back to a publisher of lower priority)" : ""), fmt("%s: #%d of publisher %s after #%d", who.c_str(), r.idx, q.id.c_str(), last[key])); if (!other) return; }
            last[key] = r.idx; have[r.pub].insert(r.idx); stat["messages compared"]++;
        }
        if (p.t_dead >= 0 && p.t_stop < 0) {          // idle_streams off ends players with the stream; then nobody may be publishing
            bool why = false; if (!idle) { why = true; for (auto &q : pubs) if (q->name == p.name) for (auto &iv : sole(*q)) if (iv.first + slack() < p.t_dead && p.t_dead < iv.second && p.t_conn < p.t_dead - SEC) why = false; if (p.t_start < 0 && p.kind == "rtmp") why = true; bool anyh = false; for (auto &q : pubs) if (q->name == p.name && leave(*q) < p.t_dead + SEC && gone(*q) + 6 * SEC > p.t_dead) anyh = true; if (anyh && p.t_dead - p.t_conn < 9 * SEC && !why) { /* keep */ } }
            if (!why) { bad("a player was disconnected while its stream is being published", fmt("%s at %.3f s: %s", who.c_str(), p.t_dead / 1e6, p.dead_why.c_str())); return; }
        }
        if (p.t_start < 0) return;
        bool wait_video = pl.k("app.wait_video") == "on", inter = pl.k("app.interleave") == "on";
        for (auto &uq : pubs) {
            PubS &q = *uq; if (q.name != p.name) continue;
            for (auto &iv : sole(q)) {
                us_t a = std::max(iv.first, p.t_start), b = std::min(iv.second, lim); if (b - a < SEC) continue;
                for (auto &s : p.status) if (s.first > a + slack() && s.first < b && (s.second == "NetStream.Play.UnpublishNotify" || s.second == "NetStream.Play.Stop" || s.second == "user.eof")) { bad("a player is told that the stream ended while its publisher goes on", fmt("%s: %s at %.3f s, publisher %s active %.3f..%.3f s", who.c_str(), s.second.c_str(), s.first / 1e6, q.id.c_str(), iv.first / 1e6, iv.second / 1e6)); return; }
                // complete from the first keyframe on
                int first = -1; bool vid = q.mc.video; for (size_t i = 0; i < q.sent.size(); i++) { Pub &m = q.sent[i]; if (m.hdr || m.meta || m.t_sent <= a) continue; if (vid ? m.key : m.type == 8) { first = (int) i; break; } }
                if (first < 0) continue;
                for (size_t i = first; i < q.sent.size(); i++) {
                    Pub &m = q.sent[i]; if (m.hdr || m.meta) continue; if (m.t_sent > b - 2500 * MS) break;
                    if (m.type == 8 && vid && (wait_video || inter) && i < (size_t) first + 3) continue;
                    if (!have[q.order].count((int) i) && !(uplink_slow(q) || link_full(p) > m.t_sent - SEC)) { bad(have[q.order].empty() ? "a player never hears the active publisher" : "a player misses messages of the active publisher", fmt("%s: %s message #%zu of publisher %s sent at %.3f s (alone since %.3f s, until %.3f s)", who.c_str(), m.type == 9 ? "video" : "audio", i, q.id.c_str(), m.t_sent / 1e6, iv.first / 1e6, iv.second / 1e6)); return; }
                    stat["messages required"]++;
                }
                stat["intervals checked"]++;
            }
        }
    }
};
static void gen03(Plan &p, Rng &r) {
    g_common(p, r); g_live_conf(p, r); p.set("rtmp.out_queue", 4096); p.set("rtmp.ping", "2s"); p.set("rtmp.ping_timeout", "2s"); p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }");
    if (r.chance(0.3)) p.set("app.idle_streams", "off");
    if (r.chance(0.3)) { p.set("app.cache_time", r.pick<string>({"1s", "5s"})); p.set("app.send_all", "on"); }
    bool prio = r.chance(0.5); us_t end = r.range(8, 22) * SEC; int ns = (int) r.range(1, 2), np = 0, nv = 0; us_t last = 0;
    for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); int n = (int) r.range(2, 5); us_t t = r.range(50, 1000) * MS;
        for (int i = 0; i < n; i++) {
            Op &o = p.op(t, "pub"); string id = fmt("p%d", np++); o.set("id", id).set("name", name); g_media(o, r, p); o.kv.erase("big"); o.kv.erase("bigmax"); o.kv.erase("inter"); o.kv.erase("batch"); if (!prio || r.chance(0.5)) o.kv.erase("eager");
            o.set("seg", r.pick<int64_t>({0, 1, 2})).set("lat", r.pick<int64_t>({100, 300, 5000, 20000})).set("jit", r.pick<int64_t>({0, 200, 5000})).set("cap0", 300000).set("cap1", 300000);
            if (prio && r.chance(0.7)) o.set("args", "pubpri=" + r.pick<string>({"0", "1", "2", "10", "x", "99999", "1&x=2"}));
            if (r.chance(0.75)) { us_t te = t + r.pick<int64_t>({200, 1500, 4000, 8000}) * MS + r.below(1500) * MS; if (te < end) p.op(te, "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset", "closestream", "fcunpub", "vanish"})); last = te; }
            else last = end;
            // around, before or well after the previous one leaves
            int k = (int) r.below(4); t = k == 0 ? t + r.range(100, 2000) * MS : k == 1 ? std::max<us_t>(t, last + r.range(-500, 500) * MS) : k == 2 ? std::max<us_t>(t, last + r.range(2100, 4000) * MS) : t + r.range(500, 6000) * MS;
            if (t > end) t = r.range(1000, end / MS) * MS;
        }
        int m = (int) r.range(1, 4);
        for (int i = 0; i < m; i++) {
            us_t tp = r.range(20, end / MS) * MS; string id = fmt("v%d", nv++); Op &o = p.op(tp, "play"); o.set("id", id).set("name", name).set("seg", r.pick<int64_t>({0, 1, 2})).set("lat", r.pick<int64_t>({100, 300, 5000})).set("cap0", 300000).set("cap1", 300000); if (r.chance(0.3)) o.set("kind", "flv");
            if (r.chance(0.3)) p.op(r.range(tp, end + SEC), "unplay").set("id", id).set("mode", r.pick<string>({"close", "reset"}));
        }
    }
    if (r.chance(0.2)) p.op(r.range(1, end / SEC) * SEC, "clock").set("by", r.range(-3600000, 3600000));
    p.end = end + 10 * SEC;
}
static PropReg reg("P03", gen03, make_scn<P03>);
