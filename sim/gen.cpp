#include "gen.h"
void g_common(Plan &p, Rng &r) {
    p.set("sim.sched_delay", r.pick<int64_t>({50, 300, 300, 2000, 8000})); p.set("sim.ready_limit", r.pick<int64_t>({0, 0, 0, 1, 3}));
}
void g_link(Op &o, Rng &r, const Plan *p) {
    bool fat = o.has("big"); if (p && !fat) for (auto &q : p->ops) if (q.has("big") && q.s("name") == o.s("name")) fat = true;
    bool slow = p && p->kn_("sim.sched_delay", 300) > 1000;
    o.set("seg", r.pick<int64_t>({0, 0, 1, 1, 2, 3})); o.set("lat", fat ? r.pick<int64_t>({100, 300, 3000}) : r.pick<int64_t>({100, 300, 5000, 20000})); o.set("jit", fat ? 200 : r.pick<int64_t>({0, 200, 5000}));
    // windows: never so small that the link cannot carry the stream
    if (r.chance(0.3)) { if (o.n("lat") <= 300 && !(fat && slow)) o.set("jit", 100).set("cap0", r.pick<int64_t>({4096, 16384, 200000})).set("cap1", r.pick<int64_t>({4096, 16384, 200000})); else o.set("cap0", 300000).set("cap1", 300000); }
    if (o.n("seg") == 3) { bool t = r.chance(0.3) && !fat; o.set("seg", t ? 3 : 2); if (t) o.set("jit", 200); }
}
void g_live_conf(Plan &p, Rng &r) {
    if (r.chance(0.5)) p.set("rtmp.chunk_size", r.chance(0.7) ? r.pick<int64_t>({128, 512, 1024, 4096, 10000, 65536}) : r.range(128, 6000));
    if (r.chance(0.3)) p.set("rtmp.out_cork", r.pick<int64_t>({1, 8, 64}));
    if (r.chance(0.4)) p.set("app.merge_frame", r.pick<int64_t>({1, 2, 8, 32}));
    if (r.chance(0.2)) p.set("app.interleave", "on");
    if (r.chance(0.3)) p.set("app.wait_video", "on");
    if (r.chance(0.2)) p.set("app.wait_key", "off");
    if (r.chance(0.3)) p.set("app.publish_notify", "on");
    if (r.chance(0.2)) p.set("app.play_restart", "on");
    if (r.chance(0.3)) p.set("app.meta", r.pick<string>({"copy", "off", "on"}));
    if (r.chance(0.2)) p.set("rtmp.ack_window", r.pick<int64_t>({5000, 50000, 1000000}));
    if (r.chance(0.2)) p.set("app.sync", r.pick<string>({"0", "10ms", "1s"}));
    if (r.chance(0.2)) p.set("rtmp.play_time_fix", "on");
    if (r.chance(0.2)) p.set("rtmp.ping", r.pick<string>({"1s", "3s", "60s"}));
}
// features that write the stream to disk, next to the one under test
void g_disk(Plan &p, Rng &r, double chance) {
    if (r.chance(chance)) { p.set("app.hls", "on"); p.set("app.hls_path", "@PREFIX@/data/hls"); p.set("app.hls_fragment", r.pick<string>({"500ms", "1s", "3s"})); p.set("app.hls_playlist_length", "5s"); if (r.chance(0.3)) p.set("app.hls_nested", "on"); }
    if (r.chance(chance)) { p.set("app.dash", "on"); p.set("app.dash_path", "@PREFIX@/data/dash"); p.set("app.dash_fragment", r.pick<string>({"500ms", "1s", "3s"})); p.set("app.dash_playlist_length", "5s"); if (r.chance(0.3)) p.set("app.dash_nested", "on"); }
    if (r.chance(chance)) p.set("app.recorder#1", r.pick<string>({"r1 { record all; record_path @PREFIX@/data/rec; record_suffix .flv; }", "r1 { record all; record_path @PREFIX@/data/rec; record_unique on; }", "r1 { record keyframes; record_path @PREFIX@/data/rec; }", "r1 { record audio video; record_path @PREFIX@/data/rec; record_interval 2s; }"}));
    if (r.chance(chance)) { p.set("app.live_record", "on"); p.set("app.live_record_path", "@PREFIX@/data/lr"); }
}
void g_media(Op &o, Rng &r, Plan &p) {
    int k = (int) r.below(10);
    if (k == 0 && p.k("app.wait_video") != "on" && p.k("app.interleave") != "on") o.set("video", 0); else if (k == 1) o.set("audio", 0);
    if (r.chance(0.15)) o.set("hevc", 1);
    o.set("gop", r.pick<int64_t>({1, 5, 12, 25, 50})).set("fps", r.pick<int64_t>({10, 25, 30}));
    if (r.chance(0.3)) o.set("vmin", 1).set("vmax", r.pick<int64_t>({60, 400}));
    if (r.chance(0.2)) o.set("big", "0.3").set("bigmax", r.pick<int64_t>({30000, 120000}));
    if (r.chance(0.4)) o.set("chunk", r.chance(0.6) ? r.pick<int64_t>({32, 60, 128, 1000, 65536}) : r.range(20, r.pick<int64_t>({200, 6000})));
    if (r.chance(0.25)) { p.set("rtmp.max_streams", r.pick<int64_t>({520, 2000})); vector<int64_t> c = {4, 5, 6, 7, 8, 31, 62, 63, 64, 65, 255, 256, 318, 319, 320, 321, 500}; for (auto k : {"vcs", "acs", "dcs"}) { size_t i = r.below(c.size()); o.set(k, c[i]); c.erase(c.begin() + i); } if (r.chance(0.3)) o.set("vcs", 320).set("acs", 319).set("dcs", 64).set("inter", 1); }
    if (r.chance(0.3)) o.set("comp", r.pick<int64_t>({0, 2}));
    if (r.chance(0.2)) o.set("inter", 1);
    if (r.chance(0.3)) o.set("batch", r.pick<int64_t>({100, 400, 1000}));
    if (r.chance(0.15)) o.set("ts0", r.pick<int64_t>({1, 5000, 16776000, 16777215, 100000000, 11929000, 47720500, 95442000, 4294900000ll - 200000000}));
    if (r.chance(0.15)) o.set("eager", 1);
    if (r.chance(0.1)) o.set("nometa", 1);
    if (r.chance(0.2)) o.set("bf", 1);
    if (r.chance(0.2)) o.set("nals", r.range(2, 5));
    if (r.chance(0.08)) o.set("edge", "0.1");
    if (r.chance(0.08)) o.set("amax", r.pick<int64_t>({2100, 6000}));
}
void gen_live(Plan &p, Rng &r, const vector<string> &kinds) {
    g_common(p, r); g_live_conf(p, r); bool tight = r.chance(0.25); p.set("rtmp.out_queue", tight ? r.pick<int64_t>({437, 484, 542, 590, 667}) : r.pick<int64_t>({2700, 4096, 3500})); // tight: the queue wraps, and nothing ever falls behind
    us_t end = r.range(5, 14) * SEC; int ns = (int) r.range(1, 3), np = 0, nv = 0;
    for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); us_t t = r.range(50, 1500) * MS; int gens = r.chance(0.35) ? 2 : 1;
        for (int g = 0; g < gens; g++) {
            Op &o = p.op(t, "pub"); string id = fmt("p%d", np++); o.set("id", id).set("name", name); g_media(o, r, p); g_link(o, r, &p);
            us_t dur = g + 1 < gens ? r.range(1500, 4000) * MS : end; us_t te = std::min(t + dur, end);
            if (r.chance(0.3)) p.op(r.range(t + 100 * MS, te), "epoch").set("id", id).set("what", r.pick<string>({"both", "v", "a"}));
            if (r.chance(0.2)) p.op(r.range(t + 100 * MS, te), "meta").set("id", id);
            if (!tight && r.chance(0.2)) p.op(r.range(t + 100 * MS, te), "hold").set("id", id).set("dur", r.range(20, 1500));
            if (!tight && r.chance(0.15)) p.op(r.range(t + 100 * MS, te), "pubpause").set("id", id).set("dur", r.range(100, 2500));
            if (r.chance(0.15)) p.op(r.range(t + 100 * MS, te), "tsjump").set("id", id).set("by", r.range(200, 5000));
            if (g + 1 < gens && r.chance(0.3)) { Op &q = p.op(te, "repub"); q.set("of", id).set("id", fmt("p%d", np)).set("name", name).set("mode", r.pick<string>({"close", "delete"})).set("dur", r.range(200, 1500)); string nid = fmt("p%d", np++); g_media(q, r, p); q.kv.erase("eager"); g++; if (r.chance(0.5)) p.op(r.range(te + 1600 * MS, std::max(end, te + 2 * SEC)), "unpub").set("id", nid).set("mode", r.pick<string>({"unpub", "close", "reset"})); }
            else if (g + 1 < gens || r.chance(0.6)) p.op(te, "unpub").set("id", id).set("mode", r.pick<string>({"unpub", "close", "reset", "closestream", "fcunpub"}));
            t = te + r.range(700, 2500) * MS;
        }
        int n = (int) r.range(1, 5);
        for (int i = 0; i < n; i++) {
            us_t tp = r.range(20, end / MS) * MS; string id = fmt("v%d", nv++); Op &o = p.op(tp, "play"); o.set("id", id); string kind = kinds[r.below(kinds.size())]; if (kind != "rtmp") o.set("kind", kind).set("http10", r.chance(0.2)); o.set("name", name).set("eager", r.chance(0.2)).set("buflen", r.pick<int64_t>({-1, 100, 3000})); g_link(o, r, &p);
            if (!tight && r.chance(0.25)) p.op(r.range(tp, end), "hold").set("id", id).set("dur", r.range(20, 3000));
            if (!tight && r.chance(0.25)) p.op(r.range(tp, end), "stall").set("id", id).set("dur", r.range(20, 3000));
            if (r.chance(0.3)) p.op(r.range(tp, end + SEC), "unplay").set("id", id).set("mode", kind != "rtmp" ? r.pick<string>({"close", "reset"}) : r.pick<string>({"close", "reset", "unplay"}));
        }
    }
    if (!tight && r.chance(0.2)) p.op(r.range(1, end / SEC) * SEC, "pstall").set("node", 0).set("dur", r.range(10, 1500));
    if (r.chance(0.2)) p.op(r.range(1, end / SEC) * SEC, "clock").set("by", r.range(-3600000, 3600000));
    g_disk(p, r, 0.1);
    if (tight) { p.kn.erase("rtmp.out_cork"); p.kn.erase("app.sync"); for (auto &o : p.ops) { o.kv.erase("big"); o.kv.erase("bigmax"); if (o.verb == "pub" && r.chance(0.6)) o.set("batch", 100); else o.kv.erase("batch"); o.kv.erase("cap0"); o.kv.erase("cap1"); } }
    p.end = end + 6 * SEC;
    for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].verb == "tsjump") for (auto &o : p.ops) if ((o.verb == "pub" || o.verb == "repub") && o.s("id") == p.ops[i].s("id")) o.kv.erase("inter");   // or messages from before the jump end after ones from behind it
}

void rename_streams(Plan &p, Rng r) {
    static const std::set<string> plain = {"P06", "P07", "P09", "P10"}, any = {"P01", "P02", "P03", "P04", "P05", "P08", "P12", "P15", "P11", "P13", "P16", "P17", "P21", "P22"};
    if (!(plain.count(p.prop) || any.count(p.prop)) || !r.chance(0.2)) return;
    vector<string> c = {"cam", "cam-1", "cam-1-2", "a.b", "x_y-0", "a.b.c-7", "-", "0", "live", string(r.range(60, p.prop == "P21" ? 70 : 120) - (p.prop == "P21" ? 30 : 0), 'n')};
    if (any.count(p.prop)) for (const char *s : {"x%41", "x%2541", "a+b", "a&b=c", "#1", "q\"r", "<x>", "caf\xc3\xa9", "~a!b", "a;b,c", "{n}", "a\\b", "$name", "%s%n%d"}) c.push_back(s);
    if (p.prop == "P01" || p.prop == "P03" || p.prop == "P08") c.push_back("a/b"), c.push_back("/x");
    if (p.prop != "P08" && p.prop != "P21" && any.count(p.prop)) { size_t ma = 0; for (auto &o : p.ops) if (o.s("args").size()) ma = std::max(ma, o.s("args").size() + 1); c.push_back(string(p.prop == "P13" ? 200 : 255 - std::min<size_t>(ma, 150), 'N')); }   // name and arguments share 256 bytes
    for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[r.below(i)]);
    if (p.k("app.dash_nested") == "on" || p.k("app.hls_nested") == "on") c.erase(std::remove(c.begin(), c.end(), string("a/b")), c.end());   // the directory above is not made, and the publisher refused
    bool http = false; for (auto &o : p.ops) if (o.verb == "play" && o.s("kind", "rtmp") != "rtmp") http = true;
    if (http) c.erase(std::remove_if(c.begin(), c.end(), [](const string &s) { return s.find('/') != string::npos; }), c.end());
    map<string, string> m; size_t n = 0;
    for (auto &o : p.ops) {
        if (!o.has("name")) continue; string x = o.s("name"); size_t u = x.find('_'); string b = x.substr(0, u), t = u == string::npos ? "" : x.substr(u);
        if (b.size() < 2 || b[0] != 's' || b.find_first_not_of("0123456789", 1) != string::npos) continue;
        if (!m.count(b)) { if (n >= c.size()) continue; m[b] = c[n++]; }
        o.set("name", m[b] + t);
    }
}
