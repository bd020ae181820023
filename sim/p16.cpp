// P16: everything a session used is returned when it ends. The same activity is repeated; memory and descriptors must not grow.
#include "scn.h"
#include "gen.h"

struct P16 : Scn {
    using Scn::Scn;
    us_t period = 0; int cycles = 0, want = 0; bool extended = false; struct Snap { int64_t bytes, blocks; int fds, conns; }; vector<vector<Snap>> snaps; std::vector<std::unique_ptr<Op>> shifted;
    void setup() override {
        period = pl.kn_("sim.period", 20) * SEC; want = (int) pl.kn_("sim.cycles", 7); pl.end = 0; extend(want);
    }
    void extend(int to) {
        for (; cycles < to; cycles++) { int k = cycles;
            // every cycle is delayed, scheduled and delivered alike
            w.at(k * period, [this] { w.netrng = Rng(pl.seed * 3 + 1); w.sched = Rng(pl.seed * 5 + 2); });
            if (k) for (auto &o : pl.ops) {
                auto u = std::make_unique<Op>(o); Op *op = u.get(); shifted.push_back(std::move(u)); op->t += k * period;
                for (string a : {"id", "of"}) if (op->has(a)) op->set(a, op->s(a) + fmt("_%d", k));
                w.at(op->t, [this, op] { w.trace("%s", op->text().c_str()); apply(*op); });
            }
            snaps.resize(k + 1);
            w.at((k + 1) * period - 50 * MS, [this, k] {
                for (auto &p : w.procs) { if (p->st == PS_DEAD || (p->is_worker == false && pl.kn_("sim.workers", 0))) continue; snaps[k].push_back({p->heap_bytes, p->heap_blocks, (int) p->fds.size(), w.open_conns_of(p.get())}); w.trace("idle %d: heap %ld bytes in %ld blocks, %zu fds, %d connections", k, (long) p->heap_bytes, (long) p->heap_blocks, p->fds.size(), w.open_conns_of(p.get())); }
                w.shm->pad = k == want - 4 ? 1 : k == want - 1 ? 2 : 0;
            });
            w.at((k + 1) * period - 300 * MS, [this] { for (auto &g : gets) if (g->t_done < 0 && g->t_start < w.now - 10 * SEC) bad("a request was never answered", g->url); });
        }
        pl.end = cycles * period + SEC;
    }
    // growth in each of the last n repetitions
    bool grows(size_t i, int n, int what) {
        for (int k = cycles - n; k < cycles; k++) { Snap &a = snaps[k - 1][i], &b = snaps[k][i]; if (what == 0 ? b.bytes <= a.bytes : what == 1 ? b.blocks <= a.blocks : b.fds <= a.fds) return false; }
        return true;
    }
    // free lists fill up slowly and then stop; what has grown four times in a row has to go on growing to count
    bool more() override {
        if (cycles > want || extended) return false;
        extended = true; size_t n = SIZE_MAX; for (auto &s : snaps) n = std::min(n, s.size());
        for (size_t i = 0; i < n; i++) for (int x = 0; x < 3; x++) if (grows(i, 4, x)) { stat["growth followed up"]++; extend(want + 16); return true; }
        return false;
    }
    void finish() override {
        size_t n = SIZE_MAX; for (auto &s : snaps) n = std::min(n, s.size());
        for (size_t i = 0; i < n; i++) {
            string who = fmt("process %zu", i);
            int lo = cycles - 4, span = extended && cycles > want ? 20 : 4; bool fds = grows(i, span, 2), mem = grows(i, span, 0) || grows(i, span, 1);
            if (fds) bad("open descriptors grow with every repetition", who + fmt(": %d, %d, %d, %d", snaps[lo][i].fds, snaps[lo + 1][i].fds, snaps[lo + 2][i].fds, snaps[lo + 3][i].fds));
            else if (mem) bad("memory in use grows with every repetition of the same activity", who + fmt(": bytes %ld, %ld, %ld, %ld; blocks %ld, %ld, %ld, %ld", (long) snaps[lo][i].bytes, (long) snaps[lo + 1][i].bytes, (long) snaps[lo + 2][i].bytes, (long) snaps[lo + 3][i].bytes, (long) snaps[lo][i].blocks, (long) snaps[lo + 1][i].blocks, (long) snaps[lo + 2][i].blocks, (long) snaps[lo + 3][i].blocks));
            if (snaps[cycles - 1][i].conns) bad("connections stay open after everything ended", who + fmt(": %d", snaps[cycles - 1][i].conns));
            stat["idle snapshots"] += cycles;
        }
        for (auto &g : gets) if (g->url.find("final") != string::npos) {
            stat["idle status pages"]++;
            if (g->p.body.find("\"stream_array\":\t[]") == string::npos) bad("a stream is still listed after everything ended", g->p.body.substr(0, 900));
            if (g->p.body.find("\"total_clients\":\t0") == string::npos) bad("clients are still counted after everything ended", g->p.body.substr(0, 900));
        }
    }
};
static void gen16(Plan &p, Rng &r) {
    g_common(p, r); g_live_conf(p, r);
    p.set("rtmp.out_queue", r.pick<int64_t>({512, 1024, 4096})); p.set("rtmp.timeout", "4s"); p.set("rtmp.ping", "2s"); p.set("rtmp.ping_timeout", "2s");
    p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }"); p.set("loc.location#ts", "/ts { ts_live 1935 app=live; }");
    vector<string> kinds = {"rtmp", "rtmp", "flv", "ts"};
    if (r.chance(0.4)) p.set("app.cache_time", r.pick<string>({"1s", "5s"}));
    if (r.chance(0.7)) p.set("app.mpegts_cache_time", r.pick<string>({"1s", "5s"}));
    if (r.chance(0.2)) p.set("app.idle_streams", "off");
    if (r.chance(0.25)) { p.set("app.live_record", "on"); p.set("app.live_record_path", "@PREFIX@/data/lr"); }
    if (r.chance(0.25)) { p.set("app.hls", "on"); p.set("app.hls_path", "@PREFIX@/data/hls"); p.set("app.hls_fragment", "1s"); p.set("app.hls_playlist_length", "3s"); }
    if (r.chance(0.25)) { p.set("app.recorder#1", "r1 { record all; record_path @PREFIX@/data; record_suffix .flv; }"); }
    if (r.chance(0.25)) { p.set("app.dash", "on"); p.set("app.dash_path", "@PREFIX@/data/dash"); p.set("app.dash_fragment", "1s"); }
    if (hmix(p.seed, 77) % 6 == 0) { p.set("app.on_record", "http://10.8.0.2/cb stage=start,update,done timeout=500ms"); p.set("app.live_record_path", "@PREFIX@/data/lr"); }     // nobody answers
    us_t end = r.range(3, 6) * SEC; int ns = (int) r.range(1, 2), np = 0, nv = 0;
    for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); us_t t = r.range(100, 800) * MS; string id = fmt("p%d", np++);
        Op &o = p.op(t, "pub"); o.set("id", id).set("name", name); g_media(o, r, p); g_link(o, r, &p); o.kv.erase("big"); o.kv.erase("bigmax");
        us_t te = r.range(t + 500 * MS, end);
        if (r.chance(0.3)) p.op(r.range(t + 100 * MS, te), "epoch").set("id", id).set("what", r.pick<string>({"both", "v", "a"}));
        if (r.chance(0.3)) p.op(r.range(t + 100 * MS, te), "meta").set("id", id);
        if (r.chance(0.3)) { Op &q = p.op(te, "repub"); string nid = fmt("p%d", np++); q.set("of", id).set("id", nid).set("name", r.chance(0.7) ? name : "other").set("mode", r.pick<string>({"close", "delete"})).set("dur", r.range(100, 800)); te += r.range(1000, 2500) * MS; id = nid; }
        p.op(te, "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset", "closestream", "fcunpub", "vanish"}));
        if (r.chance(0.3)) { Op &d = p.op(r.range(t, te), "pub"); string did = fmt("p%d", np++); d.set("id", did).set("name", name).set("eager", r.chance(0.5)).set("limit", 1000); if (r.chance(0.3)) d.set("args", "pubpri=5"); p.op(r.range(d.t + 100 * MS, end + SEC), "unpub").set("id", did).set("mode", r.pick<string>({"unpub", "close", "reset", "vanish"})); }
        int n = (int) r.range(0, 4);
        for (int i = 0; i < n; i++) {
            us_t tp = r.range(20, end / MS) * MS; string vid = fmt("v%d", nv++), kind = kinds[r.below(kinds.size())]; Op &v = p.op(tp, "play"); v.set("id", vid).set("name", name).set("eager", r.chance(0.2)); if (kind != "rtmp") v.set("kind", kind); g_link(v, r, &p);
            if (r.chance(0.2)) p.op(r.range(tp, end), "stall").set("id", vid).set("dur", r.range(20, 3000));
            p.op(r.range(tp, end + SEC), "unplay").set("id", vid).set("mode", r.pick<string>({"close", "reset", kind == "rtmp" ? "vanish" : "reset", kind == "rtmp" ? "unplay" : "close"}));
        }
    }
    for (auto &o : p.ops) if (o.verb == "pub" || o.verb == "repub") { o.kv.erase("ts0"); }
    if (r.chance(0.5)) p.op(end / 2, "get").set("url", "/sys_stat");
    if (r.chance(0.5)) p.op(end / 2 + 10, "get").set("url", "/rtmp_stat");
    if (r.chance(0.3)) p.op(end / 2 + 10, "get").set("url", r.pick<string>({"/flv/none.flv", "/ts/none.ts", "/flv/", "/nothing"}));
    p.set("sim.period", (end + SEC) / SEC + 14); p.set("sim.cycles", 7);
    p.op((end + SEC) / SEC * SEC + SEC, "quit");
    p.op((end + SEC) / SEC * SEC + 13 * SEC, "get").set("url", "/sys_stat?final");
}
static PropReg reg("P16", gen16, make_scn<P16>);
