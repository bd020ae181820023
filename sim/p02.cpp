// P02: a player that joins late starts decodable.
#include "scn.h"
#include "gen.h"

struct P02 : Scn {
    using Scn::Scn;
    void finish() override {
        bool cache = pl.kn.count("app.cache_time") && pl.k("app.cache_time") != "0"; string meta = pl.k("app.meta", "on"); bool low = cache && pl.k("app.low_latency") == "on";
        for (auto &p : plays) {
            if (p->kind == "flv" && (p->h->p.bad || p->flv.bad)) continue;          // P04
            if (p->kind == "rtmp" && p->r->rd.bad) continue;                       // P01
            AvOpt o; o.ts_exact = !cache;
            // with a cache the timestamps may be rebased where they jump: exact only where nothing jumps
            if (cache && pl.k("app.zero_start") != "on" && pl.k("app.fix_timestamp") != "500ms") { int n = 0; for (auto &q : pubs) if (q->name == p->name) n++; bool jump = false; for (auto &x : pl.ops) if (x.verb == "tsjump" || x.verb == "pubpause") jump = true; if (n == 1 && !jump) o.ts_exact = true; }
            o.check_end = !cache; o.no_loss = !low; o.gop = cache; check_av(*this, *p, o); check_headers(*this, *p);
            string who = p->kind + " player " + p->id;
            // metadata before the first coded frame
            map<int, bool> seen;
            for (auto &r : p->rx) {
                if (r.pub < 0 || r.empty || seen[r.pub]) continue;
                PubS &q = *pubs[r.pub]; if (!r.hdr) seen[r.pub] = true; else continue;
                if (q.nometa || meta == "off") continue;
                // some metadata of this publisher (or equal to it) came no later than this frame
                bool got = false; vector<double> want; for (auto &k : q.sent) if (k.meta) want.push_back(amf_all(k.data)[2].get("width")->n);
                if (want.empty() || !q.sent[0].meta) continue;
                for (auto &m : p->metas) if (m.first <= r.t) { vector<Amf> a = amf_all(m.second); size_t i = a.size() && a[0].s == "@setDataFrame" ? 2 : 1; if (a.size() > i && a[i].get("width")) for (double x : want) if (a[i].get("width")->n == x) got = true; }
                if (!got) { bad(p->kind + " player received coded frames before the metadata", fmt("%s: first frame of publisher %s is message #%d", who.c_str(), q.id.c_str(), r.idx)); break; }
                stat["metadata first"]++;
            }
            if (cache && !low) {     // the cache must be delivered at once: a player never waits for a keyframe that is in the cache
                us_t ct = pl.kn_("sim.cache_ms") * MS;
                for (auto &qp : pubs) { PubS &q = *qp; if (q.name != p->name || q.t_start < 0 || p->t_start < 0 || q.interleave || !q.mc.video) continue;
                    // publisher active at the join, a keyframe no older than the cache, and the publisher went on
                    int key = -1, after = -1; for (size_t i = 0; i < q.sent.size(); i++) { Pub &m = q.sent[i]; if (m.type != 9 || m.hdr) continue; if (m.t_sent < p->t_req - 300 * MS && m.key) key = (int) i; if (m.t_sent > p->t_start + 700 * MS && after < 0) after = (int) i; }
                    uint32_t newest = 0; for (auto &m : q.sent) if (m.type == 9 && !m.hdr && m.t_sent <= p->t_first) newest = std::max(newest, m.ts);
                    if (key >= 0 && (us_t) (newest - q.sent[key].ts) * MS > ct - 100 * MS) continue;      // may be evicted by the time the burst is sent
                    if (key < 0 || after < 0 || (q.t_stop >= 0 && q.t_stop < p->t_start + 3 * SEC) || (p->t_stop >= 0 && p->t_stop < p->t_start + 4 * SEC) || (q.t_dead >= 0) || p->stalls.size() || link_full(*p) >= 0) continue;
                    int first = -1; for (auto &r : p->rx) if (r.pub == q.order && r.type == 9 && !r.hdr) { first = r.idx; break; }
                    if (first < 0) continue;
                    stat["joins with a cached keyframe"]++;
                    if (first > key) bad("the cached keyframe is not sent to a late player", fmt("%s joined at %.3f s; keyframe #%d was published at %.3f s, first video frame received is #%d", who.c_str(), p->t_req / 1e6, key, q.sent[key].t_sent / 1e6, first));
                }
            }
        }
    }
};
static void gen02(Plan &p, Rng &r) {
    gen_live(p, r, {"rtmp", "rtmp", "flv"});
    p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }");
    for (auto &o : p.ops) if (o.verb == "pub") { o.kv.erase("nometa"); if (r.chance(0.5)) o.set("gop", r.pick<int64_t>({5, 10, 12, 25, 50})); }
    p.set("app.wait_key", "on");
    if (r.chance(0.7)) {
        int64_t ms = r.pick<int64_t>({200, 500, 1000, 3000, 6000}); p.set("app.cache_time", fmt("%ldms", (long) ms)); p.set("sim.cache_ms", ms);
        if (r.chance(0.4)) p.set("app.send_all", "on");
        if (r.chance(0.2)) p.set("app.low_latency", "on");
        if (r.chance(0.3)) p.set("app.fix_timestamp", r.pick<string>({"0", "500ms", "10s"}));
        if (r.chance(0.2)) p.set("app.zero_start", "on");
        for (auto it = p.ops.begin(); it != p.ops.end();) if (it->verb == "tsjump" && r.chance(0.5)) it = p.ops.erase(it); else ++it;
    }
}
static PropReg reg("P02", gen02, make_scn<P02>);
