// P10: DASH manifests and segments.
#include "scn.h"
#include "gen.h"
#include "disk.h"
#include "mp4.h"
#include <algorithm>

struct P10 : Scn {
    Disk disk; P10(Plan &p, const Cfg &c) : Scn(p, c), disk(*this) {}
    bool apply(const Op &o) override { return disk.apply(o) || Scn::apply(o); }
    struct Seg { uint32_t t, d; string path; };
    struct Man { us_t t = -1; int pub = -1; vector<Seg> set[2]; bool has[2] = {false, false}; string init[2]; vector<string> files; int64_t depth = 0; };
    map<string, Man> mans;                                            // the manifest visible under each name
    struct Done { Mp4Seg s; us_t t; int pub = -1; vector<int> idx; bool ok = false; };
    map<string, Done> segs; std::set<string> dirty; map<string, us_t> written;
    map<std::pair<int, int>, vector<int>> got; std::set<string> broken; map<int, uint32_t> lastd;
    int64_t fraglen = 5000, playlen = 30000, winfrags = 6;
    static string base(const string &p) { return p.substr(p.rfind('/') + 1); }
    static bool ends(const string &s, const string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
    static int64_t ms(const string &s) { return ends(s, "ms") ? atoll(s.c_str()) : atoll(s.c_str()) * 1000; }
    bool nested() { return pl.k("app.dash_nested") == "on"; }
    string name_of(const string &mpd) { string x = base(mpd); if (!nested()) return x.substr(0, x.size() - 4); string d = mpd.substr(0, mpd.rfind('/')); return base(d); }
    void setup() override {
        fraglen = ms(pl.k("app.dash_fragment", "5s")); playlen = ms(pl.k("app.dash_playlist_length", "30s")); winfrags = fraglen ? playlen / fraglen : 0;
        disk.pre = [this](Proc *, int op, const string &path, int64_t n, const string &path2) {
            if (path.find("/data/dash/") == string::npos) return;
            if (ends(path, ".mpd")) { if (op == OP_FOPEN && (n & 03)) once("a manifest is not replaced in one step", path); if (op == OP_FUNLINK) mans.erase(path); }
            bool wipe = (op == OP_FOPEN && (n & 01000)) || op == OP_FUNLINK || op == OP_FTRUNC || op == OP_FRENAME || op == OP_FWRITE;
            if (!wipe) return;
            for (auto &q : {path, path2}) if (!q.empty() && !(op == OP_FRENAME && q == path2 && ends(q, ".mpd"))) touch(op, q);
        };
        disk.post = [this](Proc *, int op, const string &path, int64_t res, const string &path2) {
            if (path.find("/data/dash/") == string::npos) return;
            if (op == OP_FRENAME && res >= 0 && ends(path2, ".mpd")) manifest(path2);
        };
        disk.attach();
    }
    void once(const string &what, const string &path, const string &more = "") { if (broken.insert(path).second) bad(what, base(path) + (more.empty() ? "" : ": " + more)); }
    bool over(int pub) { if (pub < 0) return true; PubS &q = *pubs[pub]; if (q.t_stop >= 0 || q.t_dead >= 0) return true; for (us_t t : disk.crash_t) if (t >= q.t_conn) return true; return false; }
    void touch(int op, const string &path) {
        if (op != OP_FWRITE) { dirty.insert(path); segs.erase(path); } written[path] = w.now;
        for (auto &m : mans) for (auto &f : m.second.files) if (f == path && !over(m.second.pub)) {
            if (op == OP_FUNLINK) { us_t age = w.now - (w_prev.count(path) ? w_prev[path] : 0); if (age >= std::max<int64_t>(playlen, m.second.depth) * MS) continue; }
            once("a listed segment is removed or written again", path, fmt("listed in the manifest of %.3f s", m.second.t / 1e6));
        }
        w_prev[path] = w.now;
    }
    map<string, us_t> w_prev;
    static bool xml_ok(const string &d, string &why) {
        vector<string> st; size_t i = 0; bool root = false;
        while (i < d.size()) {
            if (d[i] != '<') { if (st.empty() && !isspace((unsigned char) d[i])) { why = "text outside the root"; return false; } i++; continue; }
            size_t e = d.find('>', i); if (e == string::npos) { why = "unfinished tag"; return false; } string t = d.substr(i + 1, e - i - 1); i = e + 1;
            if (t.empty()) { why = "empty tag"; return false; } if (t[0] == '?') continue;
            if (t[0] == '/') { if (st.empty() || st.back() != t.substr(1)) { why = "tags do not match at " + t; return false; } st.pop_back(); continue; }
            if (std::count(t.begin(), t.end(), '"') % 2) { why = "quotes do not match"; return false; }
            size_t s = t.find_first_of(" \n/"); string nm = t.substr(0, s); if (st.empty()) { if (root) { why = "two roots"; return false; } root = true; }
            if (t.back() != '/') st.push_back(nm);
        }
        if (!st.empty() || !root) { why = "tags left open"; return false; }
        return true;
    }
    static string attr(const string &d, const string &k, size_t from, size_t to) { size_t i = d.find(k + "=\"", from); if (i == string::npos || i >= to) return ""; i += k.size() + 2; return d.substr(i, d.find('"', i) - i); }
    void manifest(const string &path) {
        string d = read_file(path), dir = path.substr(0, path.rfind('/') + 1), name = name_of(path), why; stat["manifests checked"]++;
        if (d.compare(0, 5, "<?xml") != 0 || !xml_ok(d, why)) { once("a visible manifest is incomplete", path, why.empty() ? "no XML" : why); return; }
        Man m; m.t = w.now; string ds = attr(d, "timeShiftBufferDepth", 0, d.size()); m.depth = ds.size() > 3 ? atoll(ds.c_str() + 2) * 1000 : 0;
        for (int v = 0; v < 2; v++) {
            size_t a = d.find(v ? "id=\"1\"" : "id=\"2\""); if (a == string::npos) continue; size_t e = d.find("</AdaptationSet>", a); m.has[v] = true;
            if (attr(d, "timescale", a, e) != "1000") { once("a manifest has the wrong timescale", path); return; }
            string media = attr(d, "media", a, e), init = attr(d, "initialization", a, e); m.init[v] = dir + init; m.files.push_back(dir + init);
            size_t tm = media.find("$Time$"); if (tm == string::npos) { once("a manifest has no segment template", path); return; }
            for (size_t s = d.find("<S ", a); s != string::npos && s < e; s = d.find("<S ", s + 1)) { Seg g; g.t = (uint32_t) strtoul(attr(d, "t", s, e).c_str(), 0, 10); g.d = (uint32_t) strtoul(attr(d, "d", s, e).c_str(), 0, 10); g.path = dir + media.substr(0, tm) + fmt("%u", g.t) + media.substr(tm + 6); m.set[v].push_back(g); m.files.push_back(g.path); }
        }
        if (m.has[0] && m.has[1]) { if (m.set[0].size() != m.set[1].size()) { once("audio and video of a manifest have different timelines", path); return; } for (size_t i = 0; i < m.set[0].size(); i++) if (m.set[0][i].t != m.set[1][i].t || m.set[0][i].d != m.set[1][i].d) { once("audio and video of a manifest have different timelines", path); return; } }
        for (int v = 1; v >= 0; v--) if (m.has[v] && (int64_t) m.set[v].size() > winfrags) { once("a manifest lists more segments than its window holds", path, fmt("%zu, configured %ld", m.set[v].size(), (long) winfrags)); return; }
        for (int v = 1; v >= 0; v--) for (auto &g : m.set[v]) if (!segment(g, v, name, m, path)) return;
        for (int v = 1; v >= 0; v--) if (m.has[v]) {
            if (!exists(m.init[v])) { once("a manifest refers to an init segment that does not exist", path, base(m.init[v])); return; }
            Mp4Init in; string di = read_file(m.init[v]); if (!mp4_init(di, in, why)) { once("a manifest refers to an init segment that is not complete", path, base(m.init[v]) + ": " + why); return; }
            if (in.codec != (v ? "avc1" : "mp4a")) { once("an init segment has the wrong codec", path, in.codec); return; }
            bool match = m.pub < 0; if (m.pub >= 0) for (auto &x : pubs[m.pub]->sent) if (x.hdr && x.type == (v ? 9 : 8) && x.data.substr(v ? 5 : 2) == in.config) match = true;
            if (!match) { once("an init segment does not hold the codec configuration of the publisher", path, base(m.init[v]) + " " + hex(in.config, 80)); return; }
            stat["init segments checked"]++;
        }
        // the timeline tiles
        for (int v = 1; v >= 0; v--) for (size_t i = 1; i < m.set[v].size(); i++) {
            Seg &a = m.set[v][i - 1], &b = m.set[v][i]; bool f = faulty(name, 0);
            if (b.t < a.t || (b.t < a.t + a.d && a.d < 0x80000000u) || (b.t > a.t + a.d && !f)) { once("the timeline of a manifest does not tile", path, fmt("t=%u d=%u is followed by t=%u", a.t, a.d, b.t)); return; }
            auto x = segs.find(a.path), y = segs.find(b.path); if (x != segs.end() && y != segs.end() && !f && disk.crashes == 0) { if (y->second.s.seq <= x->second.s.seq) { once("the sequence numbers of listed segments do not grow", path, fmt("%u of t=%u is followed by %u of t=%u", x->second.s.seq, a.t, y->second.s.seq, b.t)); return; } stat["sequence numbers compared"]++; }
        }
        auto it = mans.find(path);
        if (it != mans.end() && it->second.pub == m.pub && m.pub >= 0) for (int v = 1; v >= 0; v--) if (it->second.has[v] && m.has[v]) {
            auto &o = it->second.set[v]; auto &n = m.set[v]; if (o.empty()) continue;
            if (n.empty()) { if (winfrags) { once("a manifest forgets segments it should still list", path); return; } continue; }
            size_t drop = 0; while (drop < o.size() && o[drop].t != n[0].t) drop++;
            if ((int64_t) o.size() < winfrags && drop > 0 && !faulty(name, it->second.t)) { once("a manifest forgets segments it should still list", path, fmt("%zu of %ld were listed", o.size(), (long) winfrags)); return; }
            for (size_t i = drop; i < o.size(); i++) if (i - drop >= n.size() || n[i - drop].t != o[i].t || n[i - drop].d != o[i].d) { once("a manifest changes segments it listed before", path, fmt("t=%u", o[i].t)); return; }
        }
        mans[path] = m;
    }
    bool faulty(const string &name, us_t from) { for (auto &d : disk.faulted) if (d.first.find("/" + name + (nested() ? "/" : "-")) != string::npos || d.first.find("/" + name + ".mpd") != string::npos) for (us_t t : d.second) if (t >= from) return true; return false; }
    // a publisher is refused when its directory cannot be made
    bool nodir(const string &name, us_t from) { for (auto &d : disk.faulted) if (ends(d.first, "/data/dash") || (nested() && ends(d.first, "/data/dash/" + name))) for (us_t t : d.second) if (t >= from) return true; return false; }
    bool segment(Seg &g, int v, const string &name, Man &m, const string &mpd) {
        auto it = segs.find(g.path);
        if (it == segs.end() || dirty.count(g.path)) {
            if (!exists(g.path)) { if (w_prev.count(g.path) && w.now - w_prev[g.path] > (us_t) playlen * MS) return true; once("a manifest lists a segment that does not exist", mpd, base(g.path)); return false; }
            Done x; string why, d = read_file(g.path); x.t = w.now; if (!mp4_segment(d, x.s, why)) { once("a manifest lists a segment that is not complete", mpd, base(g.path) + ": " + why); return false; }
            dirty.erase(g.path); stat["segments checked"]++;
            if (!content(g, v, name, x, mpd)) return false;
            it = segs.insert({g.path, x}).first;
        }
        if (it->second.pub >= 0) m.pub = it->second.pub;
        return true;
    }
    bool content(Seg &g, int v, const string &name, Done &x, const string &mpd) {
        string who = base(g.path); uint32_t dts = x.s.tfdt;
        if (!x.s.empty && x.s.earliest != x.s.tfdt) { once("a segment's index and its fragment disagree about its time", mpd, who); return false; }
        if (x.s.first_off != 0) { once("a segment's index does not point to its fragment", mpd, who + fmt(": first offset %u", x.s.first_off)); return false; }
        for (size_t i = 0; i < x.s.samples.size(); i++) {
            Mp4Sample &s = x.s.samples[i]; std::pair<int, int> k(-1, -1); bool key = v && !(s.flags & 0x10000);
            for (int wrongkey = 0; wrongkey < 2 && k.first < 0; wrongkey++) {
                string d; if (v) { d += (char) ((key != (wrongkey == 1) ? 0x10 : 0x20) | 7); d += '\1'; be24(d, (uint32_t) s.cts & 0xffffff); } else { d += (char) 0xaf; d += '\1'; } d += s.data;
                auto it = idx.find(mkey(v ? 9 : 8, d)); if (it == idx.end()) continue;
                for (auto &c : it->second) if (pubs[c.first]->name == name) k = c;
                if (k.first < 0) { once("a segment holds media of another stream", mpd, who); return false; }
                if (wrongkey) { once("a sample is wrongly marked as a keyframe or not", mpd, who + fmt(": sample %zu", i)); return false; }
            }
            if (k.first < 0) { once("a segment holds media that was never published", mpd, who + fmt(": sample %zu, %zu bytes", i, s.data.size())); return false; }
            PubS &q = *pubs[k.first]; Pub &p = msg(k);
            if (q.rejected && q.t_start < 0) { once("a segment holds media of a refused publisher", mpd, who); return false; }
            if (x.pub >= 0 && k.first != x.pub) { once("a segment holds media of two publishers", mpd, who); return false; }
            x.pub = k.first; x.idx.push_back(k.second); stat["samples compared"]++;
            if (dts != p.ts) { once("a sample has the wrong time", mpd, who + fmt(": sample %zu at %u, published with %u", i, dts, p.ts)); return false; }
            dts += s.dur;
            if (q.interleave) continue;                       // sent out of order, the fragment may be over before it began
            if (p.ts < g.t || p.ts - g.t > g.d) { once("a sample lies outside its segment's time", mpd, who + fmt(": %u", p.ts)); return false; }
            if ((int64_t) (p.ts - g.t) >= 2 * fraglen && fraglen) { once("a segment goes on for longer than twice the fragment length", mpd, who + fmt(": %u ms", p.ts - g.t)); return false; }
            if (v && i == 0 && !p.key && g.d < 0x80000000u) { auto &l = last[{k.first, 1}]; if (!l.second.empty() && l.first.d < (uint32_t) (2 * fraglen) && l.second.size() < 1024 && lasta[k.first] < 1024 && !full(k.first) && !faulty(name, 0)) { once("a segment does not start at a keyframe", mpd, who + fmt(", the one before lasts %u ms", l.first.d)); return false; } }
        }
        if (x.pub < 0) return true;
        auto &l = last[{x.pub, v}]; if (!l.second.empty() && l.first.d < (uint32_t) fraglen && l.second.size() < 1024 && lasta[x.pub] < 1024 && lastv[x.pub] < 1024 && !full(x.pub)) { once("a segment is shorter than the fragment length", mpd, fmt("%u ms before %s", l.first.d, who.c_str())); return false; }
        l = {g, x.idx}; size_t n = 0; for (auto &q : x.s.samples) n += q.data.size(); bytes[{x.pub, v}] = n; (v ? lastv : lasta)[x.pub] = x.idx.size();
        auto &o = got[{x.pub, v}]; for (int i : x.idx) { if (!o.empty() && i <= o.back()) { once(i == o.back() ? "segments hold a message twice" : "segments hold messages out of order", mpd, who + fmt(": #%d after #%d of %s", i, o.back(), pubs[x.pub]->id.c_str())); return false; } o.push_back(i); }
        return true;
    }
    map<std::pair<int, int>, std::pair<Seg, vector<int>>> last; map<int, size_t> lasta, lastv; map<std::pair<int, int>, size_t> bytes;
    bool full(int pub) { return bytes[{pub, 0}] >= 10 * 1024 * 1024 || bytes[{pub, 1}] >= 10 * 1024 * 1024; } // a fragment ends at 10 MB of media
    void finish() override {
        bool any = false; for (auto &d : disk.faulted) if (d.first.find("/data/dash") != string::npos) any = true;
        for (auto &qp : pubs) for (int v = 1; v >= 0; v--) {
            PubS &q = *qp; if (q.t_start < 0 || q.rejected) continue; auto &have = got[{q.order, v}]; vector<int> all; bool hdr = false; if (v && q.mc.hevc) continue;
            bool alone = true; for (auto &o : pubs) if (o.get() != &q && o->name == q.name && o->t_conn < (q.t_stop >= 0 ? q.t_stop : w.now) && o->t_start >= 0 && (o->t_stop >= 0 ? o->t_stop : w.now) + SEC > q.t_conn) alone = false;
            for (size_t i = 0; i < q.sent.size(); i++) if (q.sent[i].type == (v ? 9 : 8)) { if (q.sent[i].hdr) hdr = true; else if (hdr) all.push_back((int) i); }
            if (faulty(q.name, 0) || any || !alone || winfrags == 0) continue; string who = fmt("%s of publisher %s", v ? "video" : "audio", q.id.c_str()); bool crash = false; for (us_t t : disk.crash_t) if (t >= q.t_conn) crash = true;
            bool tail = q.graceful() && !uplink_slow(q) && !crash && w.now - q.t_stop > 3 * SEC;
            if (have.empty()) { if (tail && !all.empty()) { bad("a published stream does not appear in its segments", who); return; } continue; }
            for (size_t i = 0; i < have.size(); i++) if (i >= all.size() || all[i] != have[i]) { bad("segments miss a message", fmt("%s: expected #%d, found #%d", who.c_str(), i < all.size() ? all[i] : -1, have[i])); return; }
            stat["gap-free sequences"]++;
            if (tail) { if (have.back() != all.back()) { bad("segments miss the last messages", fmt("%s: last is #%d, #%d was published", who.c_str(), have.back(), all.back())); return; } stat["complete tails"]++; }
            else if (q.st == 1 && !crash && !uplink_slow(q) && disk.crashes == 0) {          // still publishing: at most the current fragment is missing
                Pub &p = q.sent[have.back()]; int64_t now_ts = q.sent.back().ts; us_t lag = w.now - q.sent.back().t_sent; (void) lag;
                if (now_ts - (int64_t) p.ts > 4 * fraglen + 2000 + 5000 && q.sent.back().t_sent < w.now - 3 * SEC) { bad("segments stop appearing although the publisher goes on", fmt("%s: last is #%d", who.c_str(), have.back())); return; }
            }
        }
        if (!disk.crashes) {
            for (auto &p : plays) if (p->kind == "rtmp") { AvOpt o; check_av(*this, *p, o); if (p->t_dead >= 0 && p->t_stop < 0) bad("DASH trouble ends a player", p->id); }
            for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0 && !p->rejected && !nodir(p->name, p->t_conn)) bad("DASH trouble ends a publisher", p->id + ": " + p->dead_why);
        }
    }
};
static void gen10(Plan &p, Rng &r) {
    gen_live(p, r, {"rtmp"}); p.set("rtmp.out_queue", 4096); for (auto &k : {"app.hls", "app.recorder#1", "app.live_record", "app.live_record_path", "rtmp.out_cork", "app.sync"}) p.kn.erase(k);
    p.set("app.dash", "on"); p.set("app.dash_path", "@PREFIX@/data/dash"); p.set("app.dash_fragment", r.pick<string>({"100ms", "500ms", "500ms", "1s", "3s", "20s"})); p.set("app.dash_playlist_length", r.pick<string>({"1s", "2s", "3s", "5s", "30s"}));
    if (r.chance(0.3)) p.set("app.dash_nested", "on"); else p.kn.erase("app.dash_nested");
    if (r.chance(0.2)) p.set("app.dash_cleanup", "off");
    for (auto &o : p.ops) if (o.verb == "pub" && r.chance(0.06)) o.set("ams", 3).set("amax", 60);
    us_t end = p.end - 6 * SEC; if (r.chance(0.15)) { p.end += 30 * SEC; }
    if (r.chance(0.35)) { int m = (int) r.range(1, 3); for (int i = 0; i < m; i++) { Op &o = p.op(r.range(300, end / MS) * MS, "pub"); string id = fmt("d%d", i); o.set("id", id).set("name", fmt("s%d", (int) r.below(2))).set("dup", 1); g_media(o, r, p); g_link(o, r, &p); o.set("eager", r.chance(0.6)).set("limit", 4000); p.op(o.t + r.range(200, 6000) * MS, "unpub").set("id", id).set("mode", r.pick<string>({"close", "reset", "unpub"})); } }
    if (r.chance(0.4)) g_diskfaults(p, r, end, r.pick<string>({"/dash/", ".mpd", ".m4v", "raw", "init"}));
    if (r.chance(0.2)) { Op &o = p.op(r.range(500, end / MS) * MS, "crash"); o.set("after", r.pick<int64_t>({0, 1, 2, 3, r.range(0, 50)})).set("torn", r.chance(0.6)).set("down", r.pick<int64_t>({10, 500, 1500})); for (int i = 0; i < 2; i++) { Op &q = p.op(o.t + r.range(3500, 6000) * MS, "pub"); q.set("id", fmt("z%d", i)).set("name", fmt("s%d", i)); g_media(q, r, p); g_link(q, r, &p); } p.end += 6 * SEC; }
}
static PropReg reg("P10", gen10, make_scn<P10>);
