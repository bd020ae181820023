// P08: FLV recordings.
#include "scn.h"
#include "gen.h"
#include "disk.h"
#include <algorithm>

struct P08 : Scn {
    Disk disk; P08(Plan &p, const Cfg &c) : Scn(p, c), disk(*this) {}
    struct Rec { string id, suffix = ".flv"; bool a = false, v = false, key = false, unique = false, append = false; int64_t max_size = 0, max_frames = 0; bool interval = false; };
    vector<Rec> recs;
    struct File { string path, name; int rec; us_t t0, t1 = -1; string data; vector<us_t> opens; bool twice = false; };
    vector<File> done; map<string, File> cur;
    void setup() override {
        for (auto &k : pl.kn) if (k.first.compare(0, 13, "app.recorder#") == 0) {
            Rec r; r.id = split(k.second, ' ')[0];
            size_t b = k.second.find('{'); for (auto &d : split(k.second.substr(b + 1), ';')) { vector<string> f; for (auto &x : split(d, ' ')) if (!x.empty() && x != "}") f.push_back(x); if (f.empty()) continue;
                if (f[0] == "record") for (size_t i = 1; i < f.size(); i++) { if (f[i] == "all") r.a = r.v = true; if (f[i] == "audio") r.a = true; if (f[i] == "video") r.v = true; if (f[i] == "keyframes") r.key = true; }
                if (f[0] == "record_suffix") r.suffix = f[1];
                if (f[0] == "record_unique") r.unique = f[1] == "on";
                if (f[0] == "record_append") r.append = f[1] == "on";
                if (f[0] == "record_max_size") r.max_size = atoll(f[1].c_str()) * (f[1].back() == 'k' ? 1024 : 1);
                if (f[0] == "record_max_frames") r.max_frames = atoll(f[1].c_str());
                if (f[0] == "record_interval") r.interval = true; }
            recs.push_back(r);
        }
        disk.pre = [this](Proc *p, int op, const string &path, int64_t n, const string &) {
            int k = rec_of(path); if (k < 0) return;
            if (op == OP_FOPEN && (n & 01000) && cur.count(path)) close_gen(path);
            if (op == OP_FWRITE) {
                int64_t size = file_size(path), off = p->f_off;
                if (off >= 0 && off != size && !(off == 4 && n == 1) && !(off == 0 && size <= 13)) { if (!broken.count(path)) { bad(off > size ? "a recording gets a hole" : "a recording is overwritten", fmt("%s: %ld bytes written at %ld, the file holds %ld", base(path).c_str(), (long) n, (long) off, (long) size)); broken.insert(path); } }
            }
            if (op == OP_FUNLINK || op == OP_FRENAME || op == OP_FTRUNC) { if (op == OP_FTRUNC && disk.hit(path, cur.count(path) ? cur[path].t0 : 0)) return; if (op == OP_FTRUNC && recs[k].append) return; }
        };
        disk.post = [this](Proc *, int op, const string &path, int64_t res, const string &) {
            int k = rec_of(path); if (k < 0 || op != OP_FOPEN || res < 0) return;
            if (!cur.count(path)) { File f; f.path = path; f.rec = k; f.t0 = w.now; f.name = base(path); f.name = f.name.substr(0, f.name.size() - recs[k].suffix.size()); if (recs[k].unique) { size_t d = f.name.rfind('-'); if (d != string::npos) f.name = f.name.substr(0, d); } f.name = url_decode(f.name); cur[path] = f; }
            cur[path].opens.push_back(w.now);
        };
        disk.attach();
    }
    std::set<string> broken;
    static string base(const string &p) { return p.substr(p.rfind('/') + 1); }
    int rec_of(const string &path) { if (path.find("/data/rec/") == string::npos) return -1; int best = -1; for (size_t i = 0; i < recs.size(); i++) { auto &s = recs[i].suffix; if (path.size() > s.size() && path.compare(path.size() - s.size(), s.size(), s) == 0 && (best < 0 || s.size() > recs[best].suffix.size())) best = (int) i; } return best; }
    void close_gen(const string &path) { File f = cur[path]; cur.erase(path); f.t1 = w.now; f.data = read_file(path); if (!f.data.empty()) done.push_back(f); }
    bool apply(const Op &o) override { return disk.apply(o) || Scn::apply(o); }
    bool crash_in(us_t a, us_t b) { for (us_t t : disk.crash_t) if (t >= a && t <= b) return true; return false; }
    bool faulty(const File &f) { return disk.hit(f.path, f.t0 - 1); }
    struct Tag { int type; uint32_t ts; int pub, idx; bool hdr; size_t at, end; };
    map<std::pair<int, int>, vector<std::pair<us_t, vector<Tag>>>> got;      // (recorder, publisher) -> files

    bool check_file(File &f) {
        Rec &r = recs[f.rec]; string who = base(f.path) + fmt(" (opened at %.3f s)", f.t0 / 1e6); vector<Tag> tags; string why; int unknown = 0;
        FlvParser fp; size_t fed = 0; int cp = -1; uint64_t before = 0;
        fp.on_tag = [&](FlvTag &t) {
            Tag x; x.type = t.type; x.ts = t.ts; x.pub = x.idx = -1; x.hdr = false; x.at = before; before += 15 + t.data.size(); x.end = before + 13;
            auto it = idx.find(mkey(t.type, t.data));
            if (it != idx.end()) { for (auto &k : it->second) { PubS &q = *pubs[k.first]; if (q.name != f.name) continue; bool better = x.pub < 0 || k.first == cp; if (better) { x.pub = k.first; x.idx = k.second; x.hdr = msg(k).hdr; } } if (x.pub < 0 && why.empty()) { why = "a recording holds a message of another stream"; unknown = (int) tags.size(); } }
            else if (why.empty()) { why = "a recording holds a message that was never published"; unknown = (int) tags.size(); }
            if (x.pub >= 0 && !x.hdr) cp = x.pub;
            tags.push_back(x);
        };
        (void) fed; fp.feed(f.data.data(), f.data.size());
        if (fp.bad) { bad("a recording is not a valid FLV file", who + ": " + fp.why + fmt(" after %zu tags", tags.size())); return false; }
        bool torn_ok = faulty(f) || crash_in(f.t0, f.t1 < 0 ? w.now : f.t1);
        if (!fp.buf.empty() && !torn_ok) { bad("a recording ends inside a tag", who + fmt(": %zu bytes left of %zu", fp.buf.size(), f.data.size())); return false; }
        if (!why.empty()) { bad(why, who + fmt(": tag %d of %zu", unknown, tags.size())); return false; }
        stat["tags compared"] += tags.size(); stat["recordings checked"]++; if (!fp.buf.empty()) stat["torn tails"]++;
        // order, decodable start, timestamps
        map<int, int> last, lastov; string vh, ah; bool vkey = false; int p0 = -1; uint32_t base_m = 0, base_t = 0; bool have_base = false; std::set<int> seen; int nframes = 0; int64_t prev_ts = -1; bool prev_ok = false;
        for (auto &x : tags) {
            PubS &q = *pubs[x.pub]; Pub &m = msg({x.pub, x.idx}); bool v = x.type == 9;
            if ((v && !r.v && !(r.key && (m.key || m.hdr))) || (!v && !r.a)) { bad("a recording holds media it is not configured for", who); return false; }
            if (x.hdr) { (v ? vh : ah) = m.data; continue; }
            if (q.rejected && q.t_start < 0) { bad("a recording holds media of a refused publisher", who + fmt(": message #%d of %s", x.idx, q.id.c_str())); return false; }
            nframes++;
            if (x.pub != p0) { if (seen.count(x.pub)) { bad("a recording goes back to an earlier publisher", who); return false; } if (prev_ts >= 0 && prev_ok && !torn_ok && x.ts < prev_ts) { bad("the timestamps of an appended recording go back", who + fmt(": message #%d of %s at %u after %ld", x.idx, q.id.c_str(), x.ts, (long) prev_ts)); return false; } seen.insert(x.pub); p0 = x.pub; have_base = false; vkey = false; if (!r.append) { } }
            string need; for (int i = x.idx; i >= 0; i--) if (q.sent[i].type == x.type && q.sent[i].hdr) { need = q.sent[i].data; break; }
            if (!need.empty() && need != (v ? vh : ah) && !(q.interleave && !(v ? vh : ah).empty())) { bad((v ? vh : ah).empty() ? "a recording has a coded frame before its codec header" : "a recording has a coded frame after a codec header that is not the current one", who + fmt(": %s message #%d of %s", v ? "video" : "audio", x.idx, q.id.c_str())); return false; }
            if (v && m.key) vkey = true;
            if (v && !vkey) { bad("a recording starts with a frame that is not a keyframe", who + fmt(": video message #%d of %s", x.idx, q.id.c_str())); return false; }
            int key = x.pub * 2 + v;
            if (last.count(key) && x.idx <= last[key]) { bad(x.idx == last[key] ? "a recording holds a message twice" : "a recording holds messages out of order", who + fmt(": %s message #%d of %s after #%d", v ? "video" : "audio", x.idx, q.id.c_str(), last[key])); return false; }
            if (!q.interleave && lastov.count(x.pub) && x.idx <= lastov[x.pub]) { bad("a recording holds audio and video out of publish order", who + fmt(": message #%d of %s", x.idx, q.id.c_str())); return false; }
            // whole: nothing missing between two messages of one kind
            int from = last.count(key) ? last[key] + 1 : x.idx; bool gap = false; for (int i = from; i < x.idx; i++) if (q.sent[i].type == x.type && !q.sent[i].hdr && (!v || r.v || q.sent[i].key)) gap = true;
            if (gap && !split_in(f, q)) { bad("a recording misses messages in the middle", who + fmt(": after %s message #%d of %s comes #%d", v ? "video" : "audio", last[key], q.id.c_str(), x.idx)); return false; }
            last[key] = x.idx; lastov[x.pub] = x.idx; prev_ts = x.ts; prev_ok = !q.interleave;
            if (!have_base) { have_base = true; base_m = m.ts; base_t = x.ts; }
            else if (!split_in(f, q)) { int32_t dm = (int32_t) (m.ts - base_m), dt = (int32_t) (x.ts - base_t); if (dm != dt && !(dm < 0 && dt <= 0) && !(x.ts == 0 && dm < dt)) { bad("a recording has a timestamp that does not match", who + fmt(": message #%d of %s, %d ms after the first one published, %d ms in the file", x.idx, q.id.c_str(), dm, dt)); return false; } }
        }
        if (tags.size() && !r.append && r.max_frames && nframes > r.max_frames) { bad("a recording exceeds its limit of frames", who + fmt(": %d", nframes)); return false; }
        if (tags.size() > 1 && r.max_size && tags.back().at + 13 >= (uint64_t) r.max_size && !r.append) { bad("a recording exceeds its limit of size", who + fmt(": %zu bytes", f.data.size())); return false; }
        map<int, vector<Tag>> by; for (auto &x : tags) if (!x.hdr) by[x.pub].push_back(x);
        for (auto &b : by) got[{f.rec, b.first}].push_back({f.t0, b.second});
        return true;
    }
    // several sessions of one publisher may meet in one file only when it is appended to
    bool split_in(File &f, PubS &q) { Rec &r = recs[f.rec]; if (!r.append) return false; if (r.max_size || r.max_frames || r.interval) return true; return faulty(f) || (q.id.empty()); }
    void finish() override {
        vector<string> open; for (auto &c : cur) open.push_back(c.first); for (auto &p : open) close_gen(p);
        std::stable_sort(done.begin(), done.end(), [](const File &a, const File &b) { return a.t0 < b.t0; });
        for (auto &f : done) if (!broken.count(f.path) && !check_file(f)) return;
        bool interleaved = false;
        for (size_t k = 0; k < recs.size(); k++) for (auto &qp : pubs) {
            PubS &q = *qp; Rec &r = recs[k]; if (q.t_start < 0 || q.rejected) continue; interleaved = q.interleave;
            us_t qend = q.t_stop >= 0 ? q.t_stop : q.t_dead >= 0 ? q.t_dead : w.now; bool crash = crash_in(0, w.now);
            bool fault = false; for (auto &d : disk.faulted) if (rec_of(d.first) == (int) k && url_decode(base(d.first)).compare(0, q.name.size(), q.name) == 0) for (us_t t : d.second) if (t >= q.t_conn && t <= qend + 3 * SEC) fault = true;
            auto &g = got[{(int) k, q.order}]; bool limit = r.max_size || r.max_frames; (void) crash;
            for (int v = 1; v >= 0; v--) {
                vector<int> all, have; bool started = false; bool hdr = false;
                for (size_t i = 0; i < q.sent.size(); i++) { Pub &m = q.sent[i]; if (m.type != (v ? 9 : 8)) continue; if (m.hdr) { hdr = true; continue; } if (v ? !(r.v || (r.key && m.key)) : !r.a) continue; if (v && m.key) started = true; if (!v && hdr) started = true; if (started) all.push_back((int) i); }
                for (auto &f : g) for (auto &x : f.second) if ((x.type == 9) == (v == 1)) have.push_back(x.idx);
                if (all.empty() || fault || disk.torn_path.size()) continue;
                if (!v && (limit || r.interval) && !(r.v || !q.mc.video)) { }
                bool tail = (q.st == 1 || q.graceful()) && !uplink_slow(q) && !crash_in(q.t_conn, qend + 5 * SEC);
                int lastneed = -1; for (int i : all) if (q.sent[i].t_sent < w.now - 2 * SEC || q.graceful()) lastneed = i;
                string who = fmt("recorder %s, publisher %s", r.id.c_str(), q.id.c_str());
                if (!limit) {
                    if (!v && r.v && r.interval && !q.mc.video) continue;         // a new interval starts at a keyframe only
                    if (have.empty()) { if (tail && lastneed >= 0 && !(r.interval && !v && r.v)) { bad("a published stream is not recorded", who + fmt(": no %s, message #%d was published", v ? "video" : "audio", all[0])); return; } continue; }
                    int first = all[0]; if (!v && r.interval && r.v) first = have[0];                    // before the first keyframe
                    if (have[0] > first && !q.interleave) { bad("a recording starts late", who + fmt(": first %s message is #%d, expected #%d", v ? "video" : "audio", have[0], all[0])); return; }
                    size_t a = std::lower_bound(all.begin(), all.end(), have[0]) - all.begin();
                    for (size_t i = 0; i < have.size(); i++) if (a + i >= all.size() || all[a + i] != have[i]) { bad("messages are missing between two recordings", who + fmt(": after %s message #%d comes #%d", v ? "video" : "audio", i ? have[i - 1] : -1, have[i])); return; }
                    stat["complete recordings"]++;
                } else {
                    // after a limit was hit the next file starts at the next keyframe
                    for (size_t i = 1; i < have.size(); i++) { if (have[i] <= have[i - 1]) { bad("two recordings hold the same message", who + fmt(": #%d", have[i])); return; }
                        if (v) { auto it = std::upper_bound(all.begin(), all.end(), have[i - 1]); int nk = -1; while (it != all.end() && *it < have[i]) { if (q.sent[*it].key) { nk = *it; break; } ++it; } if (nk >= 0 && !(q.interleave)) { bad("a recording is not resumed at the next keyframe", who + fmt(": after #%d comes #%d, keyframe #%d is missing", have[i - 1], have[i], nk)); return; } } }
                    if (have.empty()) continue;
                }
                if (tail && lastneed >= 0 && !limit && have.back() < lastneed && !(!v && r.interval && r.v && have.empty())) { bad("a recording misses the last messages", who + fmt(": last %s message is #%d, #%d was published", v ? "video" : "audio", have.back(), lastneed)); return; }
                if (tail) stat["complete tails"]++;
            }
        }
        (void) interleaved;
        if (!disk.crashes) {
            for (auto &p : plays) if (p->kind == "rtmp") { AvOpt o; check_av(*this, *p, o); if (p->t_dead >= 0 && p->t_stop < 0) bad("recording trouble ends a player", p->id); }
            for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0 && !p->rejected) bad("recording trouble ends a publisher", p->id + ": " + p->dead_why);
        }
    }
};
static void gen08(Plan &p, Rng &r) {
    gen_live(p, r, {"rtmp"}); p.set("rtmp.out_queue", 4096); for (auto &k : {"app.hls", "app.dash", "app.recorder#1", "app.live_record", "app.live_record_path", "rtmp.out_cork"}) p.kn.erase(k);
    p.kn.erase("app.sync");
    int n = (int) r.range(1, 3); const char *suf[] = {".flv", "-k.flv", "-x.flv"};
    for (int i = 0; i < n; i++) {
        string s = fmt("r%d { record %s; record_path @PREFIX@/data/rec; record_suffix %s;", i, r.pick<string>({"all", "all", "all", "audio", "video", "keyframes", "audio keyframes", "audio video"}).c_str(), suf[i]);
        if (r.chance(0.3)) s += " record_unique on;"; else if (r.chance(0.2)) s += " record_append on;";
        int k = (int) r.below(8); if (k == 0) s += fmt(" record_max_size %ld;", (long) r.pick<int64_t>({1, 3000, 40000, 200000})); else if (k == 1) s += fmt(" record_max_frames %ld;", (long) r.pick<int64_t>({1, 2, 30, 200})); else if (k == 2) s += fmt(" record_interval %s;", r.pick<string>({"1ms", "500ms", "2s"}).c_str());
        if (r.chance(0.2)) s += " record_lock on;"; if (r.chance(0.2)) s += " record_notify on;";
        p.set(fmt("app.recorder#%d", i), s + " }");
    }
    us_t end = p.end - 6 * SEC; for (auto &o : p.ops) if (o.verb == "tsjump" && r.chance(0.3)) o.set("by", r.pick<int64_t>({16770000, 17000000, 100000000}));
    if (r.chance(0.35)) { int m = (int) r.range(1, 3); for (int i = 0; i < m; i++) { Op &o = p.op(r.range(300, end / MS) * MS, "pub"); string id = fmt("d%d", i); o.set("id", id).set("name", fmt("s%d", (int) r.below(2))).set("dup", 1); g_media(o, r, p); g_link(o, r, &p); o.set("eager", r.chance(0.6)).set("limit", 4000); p.op(o.t + r.range(200, 6000) * MS, "unpub").set("id", id).set("mode", r.pick<string>({"close", "reset", "unpub"})); } }
    if (r.chance(0.4)) g_diskfaults(p, r, end, r.pick<string>({"/rec/", ".flv", "-k.flv"}));
    if (r.chance(0.2)) { Op &o = p.op(r.range(500, end / MS) * MS, "crash"); o.set("after", r.pick<int64_t>({0, 1, 2, 3, r.range(0, 50)})).set("torn", r.chance(0.6)).set("down", r.pick<int64_t>({10, 500, 1500})); for (int i = 0; i < 2; i++) { Op &q = p.op(o.t + r.range(3500, 6000) * MS, "pub"); q.set("id", fmt("z%d", i)).set("name", fmt("s%d", i)); g_media(q, r, p); g_link(q, r, &p); } p.end += 6 * SEC; }
}
static PropReg reg("P08", gen08, make_scn<P08>);
