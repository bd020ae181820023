// P15: slow consumers cost only themselves.
#include "scn.h"
#include "gen.h"

struct P15 : Scn {
    using Scn::Scn;
    int64_t queue() { return pl.kn_("rtmp.out_queue", 2048); } int64_t merge() { return pl.kn_("app.merge_frame", 32); }
    void setup() override {
        for (us_t t = SEC; t < pl.end; t += 700 * MS) w.at(t, [this] { probe(); });
    }
    void probe() {
        int n = 0, ns = 0; us_t gone = 0; bool left = !plays.empty(); for (auto &p : plays) if (p->t_dead < 0 || p->t_dead > w.now - SEC) { n++; ns += slow(*p); }
        int np = 0; for (auto &p : pubs) if (p->t_dead < 0) np++;
        if (pl.kn.count("x.quit") && w.now > pl.kn_("x.quit") * MS + 2 * SEC) { gone = 1; for (auto &p : plays) if (p->t_dead < 0 && p->t_stop < 0) return; for (auto &p : pubs) if (p->t_dead < 0 && p->t_stop < 0) return; }
        if (!gone && (n == 0 || np == 0)) return;
        // players that keep up hold next to nothing; frames are shared by all who wait for them
        (void) left; int64_t lim = gone ? 100 : ns * (queue() + merge() + 40) + n * 150 + np * 60 + 200;
        fetch(0, "/sys_stat", [this, lim, gone](HttpGet *g) {
            if (g->p.status != 200) return;
            auto m = sys_stat(g->p.body); int64_t used = m["ngx_rtmp_shared alloc frame"] - m["ngx_rtmp_shared free frame"];
            if (!m.count("ngx_rtmp_shared alloc frame")) return;
            stat["memory probes"]++;
            if (gone) { stat["probes after everyone left"]++; if (used > lim) bad("the server keeps frames after everyone has left", fmt("%ld frames", (long) used)); return; }
            if (used > lim) bad("server holds more frames than the configured queues allow", fmt("at %.3f s: %ld frames in use, bound %ld", w.now / 1e6, (long) used, (long) lim));
        });
    }
    bool slow(PlayS &p) { for (auto &o : pl.ops) if ((o.verb == "rate" || o.verb == "stall" || o.verb == "hold") && o.s("id") == p.id) return true; return false; }
    void finish() override {
        us_t tmo = pl.kn_("sim.timeout_ms", 60000) * MS;
        for (auto &p : plays) {
            string who = p->kind + " player " + p->id; bool sl = slow(*p);
            if (p->kind == "rtmp" && p->r->rd.bad) { bad(string(sl ? "slow" : "healthy") + " rtmp player received a malformed chunk stream", who + ": " + p->r->rd.why); continue; }
            if (p->kind == "flv" && (p->h->p.bad || p->flv.bad)) { bad(string(sl ? "slow" : "healthy") + " flv player received a malformed stream", who + ": " + p->flv.why + p->h->p.why); continue; }
            AvOpt o; if (sl) o.no_loss = false;
            check_av(*this, *p, o);
            if (!sl) {
                stat["healthy players"]++;
                if (p->t_dead >= 0 && p->t_stop < 0) bad("server closed the connection of a healthy player", fmt("%s at %.3f s: %s", who.c_str(), p->t_dead / 1e6, p->dead_why.c_str()));
                // not delayed by the others
                for (auto &r : p->rx) if (r.pub >= 0 && !r.hdr && !r.empty) { Pub &m = msg({r.pub, r.idx}); PubS &q = *pubs[r.pub]; (void) q; us_t base = std::max(m.t_sent, p->t_start); if (r.t - base > 1500 * MS && link_full(*p) < m.t_sent - 2 * SEC) { bad("a healthy player is delayed", fmt("%s: message #%d of publisher %s arrives %.3f s late", who.c_str(), r.idx, q.id.c_str(), (r.t - base) / 1e6)); break; } stat["delays checked"]++; }
                continue;
            }
            stat["slow players"]++;
            // backlog after a stall: what was published before the reader came back and delivered afterwards
            for (auto &st : p->stalls) {
                if (st.second > p->impair_end + 1 && p->impair_end >= 0 && 0) continue;
                int64_t n = 0; size_t bytes = 0, first = 0; bool any = false;
                for (auto &r : p->rx) if (r.t >= st.second && r.pub >= 0 && !r.hdr && !r.empty) { Pub &m = msg({r.pub, r.idx}); if (m.t_sent < st.second - 300 * MS) { n++; bytes += m.data.size(); } }
                (void) first; (void) any;
                // the transport holds at most its window; find how many of the oldest fit
                size_t cap = p->ac->c ? p->ac->c->p[p->ac->side].cap : 0; int64_t k = 0; size_t sum = 0;
                for (auto &r : p->rx) if (r.t >= st.second && r.pub >= 0 && !r.hdr && !r.empty) { Pub &m = msg({r.pub, r.idx}); if (m.t_sent >= st.second - 300 * MS || sum > cap) break; sum += m.data.size(); k++; }
                if (n - k > queue() + merge() + 2) { bad("a slow player got a longer backlog than its queue", fmt("%s: %ld messages published before %.3f s delivered afterwards, about %ld of them were in the transport, queue %ld", who.c_str(), (long) n, st.second / 1e6, (long) k, (long) queue())); break; }
                stat["backlogs"]++;
            }
            // no progress for the timeout: disconnected
            us_t full = p->ac->c ? p->ac->c->p[p->ac->side].t_nospace : -1;
            for (auto &o2 : pl.ops) if (o2.verb == "stall" && o2.s("id") == p->id && o2.n("dur") * MS > tmo + 20 * SEC && full >= 0 && p->t_stop < 0) {
                us_t from = std::max(full, o2.t);
                bool gone = !p->ac->c || p->ac->c->dead || !p->ac->c->e[1].open;
                if (from + tmo + 2 * SEC < w.now && !gone) { bad("a player without progress is not disconnected", fmt("%s: link full since %.3f s, timeout %.1f s, now %.3f s", who.c_str(), from / 1e6, tmo / 1e6, w.now / 1e6)); }
                else if (gone) stat["stalled players disconnected"]++;
            }
            // progress: not disconnected
            us_t longest = 0; for (auto &st : p->stalls) longest = std::max(longest, st.second - st.first); bool rate = false; for (auto &o2 : pl.ops) if (o2.verb == "rate" && o2.s("id") == p->id) rate = true;
            if (p->t_dead >= 0 && p->t_stop < 0 && longest < tmo - 2 * SEC && !rate && p->stalls.size() <= 1) bad("a player that made progress was disconnected", fmt("%s at %.3f s", who.c_str(), p->t_dead / 1e6));
        }
        for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0) bad("server closed the connection of a healthy publisher", fmt("publisher %s at %.3f s: %s", p->id.c_str(), p->t_dead / 1e6, p->dead_why.c_str()));
    }
};
static void gen15(Plan &p, Rng &r) {
    g_common(p, r); p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }");
    p.set("rtmp.out_queue", r.pick<int64_t>({437, 484, 667, 1024})); p.set("app.merge_frame", r.pick<int64_t>({1, 2, 8, 32}));
    int64_t tmo = r.pick<int64_t>({3000, 5000, 8000}); p.set("rtmp.timeout", fmt("%ldms", (long) tmo)); p.set("sim.timeout_ms", tmo);
    if (r.chance(0.5)) p.set("rtmp.chunk_size", r.pick<int64_t>({128, 1024, 4096, 65536}));
    if (r.chance(0.2)) p.set("app.interleave", "on");
    if (r.chance(0.3)) p.set("app.sync", r.pick<string>({"0", "10ms", "1s"}));
    p.set("rtmp.ping", "60s");
    us_t end = r.range(10, 25) * SEC; int ns = (int) r.range(1, 2), nv = 0;
    for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); us_t t = r.range(50, 500) * MS;
        Op &o = p.op(t, "pub"); o.set("id", fmt("p%d", s)).set("name", name).set("gop", r.pick<int64_t>({5, 12, 25, 50})).set("fps", r.pick<int64_t>({10, 25, 30})).set("big", "0").set("vmax", r.pick<int64_t>({200, 1500, 4000})); if (r.chance(0.3)) o.set("bf", 1);
        o.set("seg", r.pick<int64_t>({0, 1, 2})).set("lat", r.pick<int64_t>({100, 300, 5000}));
        int nh = (int) r.range(1, 2), nl = (int) r.range(1, 3);
        for (int i = 0; i < nh + nl; i++) {
            us_t tp = r.range(20, i < nh ? 4000 : 3000) * MS; string id = fmt("v%d", nv++); Op &v = p.op(tp, "play"); v.set("id", id).set("name", name).set("seg", r.pick<int64_t>({0, 1, 2})).set("lat", r.pick<int64_t>({100, 300, 5000})); if (r.chance(0.3)) v.set("kind", "flv");
            if (i < nh) continue;
            v.set("cap0", r.pick<int64_t>({2048, 4096, 16384})).set("cap1", 65536);
            us_t ts = tp + r.range(200, 4000) * MS; int k = (int) r.below(5);
            if (k == 0) p.op(ts, "rate").set("id", id).set("bps", r.pick<int64_t>({200, 1000, 4000, 10000}));
            else if (k == 1) p.op(ts, "stall").set("id", id).set("dur", 100000);
            else if (k == 2) { us_t d = r.range(500, tmo - 2500); p.op(ts, "stall").set("id", id).set("dur", (int64_t) d); }
            else if (k == 3) { p.op(ts, "rate").set("id", id).set("bps", r.pick<int64_t>({200, 1000, 4000})); p.op(ts + r.range(2, 6) * SEC, "rate").set("id", id).set("bps", 0); }
            else { p.op(ts, "hold").set("id", id).set("dur", r.range(500, std::max<int64_t>(600, tmo - 2500))); }
            if (r.chance(0.2)) p.op(ts + r.range(1, 8) * SEC, "unplay").set("id", id).set("mode", r.pick<string>({"close", "reset", "vanish"}));
        }
    }
    if (r.chance(0.3)) p.op(r.range(1, end / SEC) * SEC, "clock").set("by", r.range(-3600000, 3600000));
    p.end = end + 4 * SEC; if (r.chance(0.5)) { p.set("x.quit", (end + SEC) / MS); std::set<string> ids, left; for (auto &o : p.ops) { if (o.verb == "play" || o.verb == "pub") ids.insert(o.s("id")); if (o.verb == "unplay") left.insert(o.s("id")); } for (auto &i : ids) if (!left.count(i)) p.op(end + SEC, i[0] == 'p' ? "unpub" : "unplay").set("id", i).set("mode", "reset"); p.end = end + 8 * SEC; }
}
static PropReg reg("P15", gen15, make_scn<P15>);
