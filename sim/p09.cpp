// P09: TS recordings and their index.
#include "scn.h"
#include "gen.h"
#include "disk.h"
#include "tsdec.h"
#include <algorithm>

struct P09 : Scn {
    Disk disk; P09(Plan &p, const Cfg &c) : Scn(p, c), disk(*this) {}
    bool apply(const Op &o) override { return disk.apply(o) || Scn::apply(o); }
    struct Slice { int64_t a, b, t0, t1; int pub = -1, first = -1; map<int, int> cc; };
    struct Idx { string text; vector<Slice> s; };
    map<string, Idx> ix; std::set<string> broken; map<std::pair<int, int>, vector<int>> got; map<int, Slice> lastslice; map<int, string> lastfile; map<string, string> head; int64_t interval = 600000, minf = 8000, maxf = 12000; std::set<string> trunc; map<string, int64_t> high;
    static bool ends(const string &s, const string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
    static string base(const string &p) { return p.substr(p.rfind('/') + 1); }
    static int64_t ms(const string &s) { return ends(s, "ms") ? atoll(s.c_str()) : atoll(s.c_str()) * 1000; }
    void once(const string &what, const string &path, const string &more = "") { if (broken.insert(path).second) bad(what, base(path) + (more.empty() ? "" : ": " + more)); }
    void setup() override {
        interval = ms(pl.k("app.live_record_interval", "600s")); minf = ms(pl.k("app.live_record_min_fragment", "8s")); maxf = ms(pl.k("app.live_record_max_fragment", "12s"));
        disk.pre = [this](Proc *, int op, const string &path, int64_t n, const string &) {
            if (path.find("/data/lr/") == string::npos) return;
            if (ends(path, ".ts") && (op == OP_FUNLINK || op == OP_FRENAME || (op == OP_FOPEN && (n & 01000)) || (op == OP_FTRUNC && n < high[path]))) once("what has been recorded and indexed is removed", path);
        };
        disk.post = [this](Proc *, int op, const string &path, int64_t, const string &) {
            if (path.find("/data/lr/") == string::npos || path.find("/index/") == string::npos) return;
            if (op == OP_FWRITE || op == OP_FTRUNC) index(path);
        };
        disk.attach();
    }
    // path of the recording an index entry is about
    string rec_of(const string &path, string &name, int64_t &ft) {
        string b = base(path), d = path.substr(0, path.rfind('/')), day = base(d); size_t i = d.find("/index/"); string root = d.substr(0, i); name = base(root); size_t m = b.rfind('-'); ft = atoll(b.c_str() + m + 1);
        return root + "/" + day + "/" + name + "_" + fmt("%ld", (long) ft) + ".ts";
    }
    bool faulty(const string &f) { return !(disk.faulted.find(f) == disk.faulted.end()); }
    void index(const string &path) {
        Idx &x = ix[path]; string d = read_file(path); stat["index writes checked"]++;
        string name; int64_t ft; string rec = rec_of(path, name, ft);
        size_t whole = d.rfind('\n'); string good = whole == string::npos ? "" : d.substr(0, whole + 1), rest = d.substr(good.size());
        half[path] = !rest.empty() && disk.torn_path != path;
        if (good.compare(0, x.text.size(), x.text)) { once("an index loses entries", path); return; }
        vector<string> l = split(good.substr(x.text.size()), '\n'); x.text = good;
        for (auto &s : l) if (!s.empty()) if (!entry(path, s, rec, name, ft, x)) return;
    }
    map<string, bool> half; size_t nfaults = 0;
    bool entry(const string &path, const string &line, const string &rec, const string &name, int64_t ft, Idx &x) {
        Slice s; string want = name + fmt("-%ld.ts?", (long) ft); if (line.compare(0, want.size(), want)) { once("an index entry is not about its recording", path, line); return false; }
        if (sscanf(line.c_str() + want.size(), "startsize=%ld&endsize=%ld&starttime=%ld&endtime=%ld", &s.a, &s.b, &s.t0, &s.t1) != 4 || line != want + fmt("startsize=%ld&endsize=%ld&starttime=%ld&endtime=%ld", (long) s.a, (long) s.b, (long) s.t0, (long) s.t1)) { once("an index entry is malformed", path, line); return false; }
        int64_t sz = file_size(rec); if (sz < 0) { once("an index entry refers to a recording that does not exist", path, rec); return false; }
        bool f = faulty(rec) || faulty(path); size_t nf = 0; for (auto &d : disk.faulted) if (d.first.find("/data") != string::npos) nf += d.second.size();
        if (nf != nfaults) { nfaults = nf; lastslice.clear(); }
        if (s.b + 1 > sz) { once("an index entry goes beyond its recording", path, line + fmt(": the file has %ld bytes", (long) sz)); return false; }
        if (s.b < s.a) { if (f) return true; once("an index entry is empty", path, line); return false; }
        int64_t prev = x.s.empty() ? 376 : x.s.back().b + 1;
        if (s.a != prev && !(f || (s.a > prev && disk.crashes))) { once("index entries do not tile the recording", path, line + fmt(": the one before ends at %ld", (long) prev)); return false; }
        if ((s.b + 1 - s.a) % 188) { once("an index entry does not cover whole packets", path, line); return false; }
        high[rec] = s.b + 1;
        string d = read_file(rec), h = d.substr(0, 376), body = d.substr(s.a, s.b + 1 - s.a); for (size_t i = 0; i < body.size(); i += 188) if (body[i] != 0x47) { once("an index entry does not start or go on at a packet", path, line + fmt(": offset %zu", i)); return false; }
        if (s.a % 188 && !disk.crashes && !f) { once("an index entry does not start at a packet of its file", path, line); return false; }
        stat["index entries checked"]++;
        if (f) { lastslice.clear(); x.s.push_back(s); return true; }
        vector<TsPes> pes; TsParser ts; vector<TsUnit> u; TsOpt o; o.who = "recording " + base(rec); o.last_partial = false; o.a_slack = 1;
        for (int again = 0; again < 2; again++) {
            pes.clear(); ts = TsParser(); ts.on_pes = [&](TsPes &p) { pes.push_back(p); }; ts.feed(h.data(), h.size()); if (again) for (auto &c : lastslice[s.pub].cc) if (c.first > 0x30) ts.cc[c.first] = c.second;
            ts.feed(body.data(), body.size()); ts.flush();
            if (ts.bad) { once("an indexed slice is not a valid transport stream", path, line + ": " + ts.why); return false; }
            if (again) break;
            if (!ts_units(*this, *this, pes, name, "live", o, u)) { broken.insert(path); return false; } 
            for (auto &y : u) { PubS &q = *pubs[y.pub]; if (q.rejected && q.t_start < 0) { once("a recording holds media of a refused publisher", path, line); return false; } if (s.pub >= 0 && s.pub != y.pub) { once("a slice holds media of two publishers", path, line); return false; } s.pub = y.pub; }
            if (s.pub < 0 || !lastslice.count(s.pub)) break;
        }
        if (s.pub < 0) { x.s.push_back(s); return true; }
        s.cc = ts.cc; PubS &q = *pubs[s.pub];
        // times
        int first = -1, last = -1; bool v = false; for (auto &y : u) { if (first < 0 || y.idx < first) first = y.idx; if (y.idx > last) last = y.idx; if (y.type == 9) v = true; } if (u.empty()) return true;
        Pub &a = q.sent[first], &b = q.sent[last]; bool reord = q.interleave || q.mc.a_skew;
        if (!reord && s.t1 - s.t0 != (int64_t) b.ts - (int64_t) a.ts) { once("the times of an index entry are not those of its media", path, line + fmt(": %ld ms, its media %ld ms", (long) (s.t1 - s.t0), (long) b.ts - (long) a.ts)); return false; }
        if (lastslice.count(s.pub)) {
            Slice &l = lastslice[s.pub]; if (!reord && s.t0 - l.t1 != (int64_t) a.ts - (int64_t) q.sent[got_last[s.pub]].ts) { once("the times of index entries do not follow each other", path, line + fmt(": the one before ends at %ld", (long) l.t1)); return false; }
            if (!reord && s.t0 - l.t0 <= std::min(minf, maxf)) { once("an indexed slice is shorter than the shortest fragment", path, line + fmt(": the one before starts at %ld", (long) l.t0)); return false; }
            if (v && !reord && a.type == 9 && !a.key && s.t0 - l.t0 <= maxf) { once("a slice does not start at a keyframe", path, line); return false; }
            int64_t far = 0; for (int i = l.first; i < last && i + 1 < (int) q.sent.size(); i++) far = std::max(far, (int64_t) q.sent[i + 1].ts - (int64_t) q.sent[i].ts);
            if (v && !reord && l.t1 - l.t0 > std::max(minf, maxf) + far + 200) { once("a slice goes on for longer than the longest fragment", path, line); return false; }
        }
        int64_t sec = interval / 1000; if (!reord && s.t0 / 1000 / sec * sec != ft) { once("a slice is in the recording of another interval", path, line); return false; }
        for (auto &y : u) { auto &g = got[{y.pub, y.type == 9}]; if (!g.empty() && y.idx <= g.back()) { once(y.idx == g.back() ? "recordings hold a message twice" : "recordings hold messages out of order", path, line + fmt(": #%d after #%d of %s", y.idx, g.back(), q.id.c_str())); return false; } g.push_back(y.idx); }
        got_last[s.pub] = last; s.first = first; lastslice[s.pub] = s; lastfile[s.pub] = rec; x.s.push_back(s);
        return true;
    }
    map<int, int> got_last;
    void finish() override {
        if (pl.k("app.live_record", "off") != "on" || pl.k("app.live_record_path", "").empty()) return;
        bool any = false; for (auto &d : disk.faulted) if (d.first.find("/data") != string::npos) any = true;
        for (auto &qp : pubs) for (int v = 1; v >= 0; v--) {
            PubS &q = *qp; if (q.t_start < 0 || q.rejected || (v && q.mc.hevc)) continue; auto &have = got[{q.order, v}]; vector<int> all; bool hdr = false;
            bool alone = true; for (auto &o : pubs) if (o.get() != &q && o->name == q.name && o->t_conn < (q.t_stop >= 0 ? q.t_stop : w.now) && o->t_start >= 0 && (o->t_stop >= 0 ? o->t_stop : w.now) + SEC > q.t_conn) alone = false;
            for (size_t i = 0; i < q.sent.size(); i++) if (q.sent[i].type == (v ? 9 : 8)) { if (q.sent[i].hdr) hdr = true; else if (hdr) all.push_back((int) i); }
            if (any || !alone) continue; string who = fmt("%s of publisher %s", v ? "video" : "audio", q.id.c_str()); bool crash = false; for (us_t t : disk.crash_t) if (t >= q.t_conn) crash = true;
            bool tail = q.graceful() && !uplink_slow(q) && !crash && w.now - q.t_stop > 3 * SEC;
            if (have.empty()) { if (tail && !all.empty()) { bad("a published stream does not appear in its recording's index", who); return; } continue; }
            for (size_t i = 0; i < have.size(); i++) if (i >= all.size() || all[i] != have[i]) { bad("recordings miss a message", fmt("%s: expected #%d, found #%d", who.c_str(), i < all.size() ? all[i] : -1, have[i])); return; }
            stat["gap-free sequences"]++;
            if (tail) { if (have.back() != all.back()) { bad("recordings miss the last messages", fmt("%s: last is #%d, #%d was published", who.c_str(), have.back(), all.back())); return; } stat["complete tails"]++; }
            else if (q.st == 1 && !crash && !uplink_slow(q) && disk.crashes == 0) {
                int64_t gop = q.mc.video ? q.mc.gop * 1000 / q.mc.fps : 0, lag = (int64_t) q.sent.back().ts - (int64_t) q.sent[have.back()].ts;
                if (lag > minf + 2 * gop + maxf + 6000 && q.sent.back().t_sent < w.now - 3 * SEC) { bad("the index stops growing although the publisher goes on", fmt("%s: last is #%d", who.c_str(), have.back())); return; }
            }
        }
        if (!disk.crashes) for (auto &h : half) if (h.second) { bad("an index holds half an entry", base(h.first)); return; }
        if (!disk.crashes) {
            for (auto &p : plays) if (p->kind == "rtmp") { AvOpt o; check_av(*this, *p, o); if (p->t_dead >= 0 && p->t_stop < 0) bad("recording trouble ends a player", p->id); }
            for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0 && !p->rejected) bad("recording trouble ends a publisher", p->id + ": " + p->dead_why);
        }
    }
};
static void gen09(Plan &p, Rng &r) {
    gen_live(p, r, {"rtmp"}); p.set("rtmp.out_queue", 4096); for (auto &k : {"app.dash", "app.dash_path", "app.dash_fragment", "app.dash_playlist_length", "app.dash_nested", "app.recorder#1", "rtmp.out_cork", "app.sync"}) p.kn.erase(k);
    p.set("app.live_record", "on"); p.set("app.live_record_path", "@PREFIX@/data/lr"); p.set("app.live_record_interval", r.pick<string>({"1s", "2s", "3s", "7s", "600s"})); p.set("app.live_record_min_fragment", r.pick<string>({"100ms", "500ms", "1s", "3s", "8s"})); p.set("app.live_record_max_fragment", r.pick<string>({"1s", "2s", "5s", "12s"}));
    if (r.chance(0.6)) p.set("app.live_record_buffer", r.pick<int64_t>({400, 1000, 4096, 18800, 100000}));
    us_t end = p.end - 6 * SEC;
    for (auto &o : p.ops) if (o.verb == "pub" && r.chance(0.15)) o.set("askew", r.pick<int64_t>({-200, -40, 15, 60, 250}));
    if (r.chance(0.35)) { int m = (int) r.range(1, 3); for (int i = 0; i < m; i++) { Op &o = p.op(r.range(300, end / MS) * MS, "pub"); string id = fmt("d%d", i); o.set("id", id).set("name", fmt("s%d", (int) r.below(2))).set("dup", 1); g_media(o, r, p); g_link(o, r, &p); o.set("eager", r.chance(0.6)).set("limit", 4000); p.op(o.t + r.range(200, 6000) * MS, "unpub").set("id", id).set("mode", r.pick<string>({"close", "reset", "unpub"})); } }
    if (r.chance(0.4)) g_diskfaults(p, r, end, r.pick<string>({"/lr/", "/index/", ".ts", "m3u8"}));
    if (r.chance(0.3)) { Op &o = p.op(r.range(500, end / MS) * MS, "crash"); o.set("after", r.pick<int64_t>({0, 1, 2, 3, r.range(0, 50)})).set("torn", r.chance(0.6)).set("down", r.pick<int64_t>({10, 500, 1500})); for (int i = 0; i < 2; i++) { Op &q = p.op(o.t + r.range(3500, 6000) * MS, "pub"); q.set("id", fmt("z%d", i)).set("name", fmt("s%d", i)); g_media(q, r, p); g_link(q, r, &p); } p.end += 6 * SEC; }
}
static PropReg reg("P09", gen09, make_scn<P09>);
