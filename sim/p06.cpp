// P06: HLS on disk.
#include "scn.h"
#include "gen.h"
#include "disk.h"
#include "tsdec.h"
#include <algorithm>
#include <cmath>
#include <openssl/evp.h>

static bool aes_decrypt(const string &d, const string &key, uint64_t iv, string &out) {
    unsigned char ivb[16] = {0}; for (int i = 0; i < 8; i++) ivb[8 + i] = (unsigned char) (iv >> (56 - 8 * i));
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); out.assign(d.size() + 32, 0); int n = 0, m = 0; unsigned char *o = (unsigned char *) &out[0];
    bool ok = EVP_DecryptInit_ex(c, EVP_aes_128_cbc(), 0, (const unsigned char *) key.data(), ivb) && EVP_DecryptUpdate(c, o, &n, (const unsigned char *) d.data(), (int) d.size()) && EVP_DecryptFinal_ex(c, o + n, &m);
    EVP_CIPHER_CTX_free(c); out.resize(ok ? n + m : 0); return ok;
}
struct P06 : Scn {
    Disk disk; P06(Plan &p, const Cfg &c) : Scn(p, c), disk(*this) {}
    bool apply(const Op &o) override { return disk.apply(o) || Scn::apply(o); }
    struct Ent { string uri, path; double dur; bool disc; string key; uint64_t iv = 0; };
    struct M3 { us_t t = -1; uint64_t seq = 0; int target = 0; vector<Ent> e; vector<string> files; int pub = -1; };
    struct Seg { us_t t; int pub = -1; vector<TsUnit> u; int64_t first_v = -1, last = -1; bool keystart = false; int nkey = 0; string keyfile; };
    map<string, M3> vis; map<string, Seg> segs; std::set<string> broken; map<string, us_t> last_touch; map<std::pair<int, int>, vector<int>> got; map<string, vector<string>> keyuse;
    int64_t fraglen = 5000, playlen = 30000, maxfrag = 50000; size_t winfrags = 6; bool keys = false, cont = true; string burl, kurl;
    static string base(const string &p) { return p.substr(p.rfind('/') + 1); }
    static bool ends(const string &s, const string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
    static int64_t ms(const string &s) { return ends(s, "ms") ? atoll(s.c_str()) : atoll(s.c_str()) * 1000; }
    bool nested() { return pl.k("app.hls_nested") == "on"; }
    bool variants() { return pl.kn.count("app.hls_variant"); }
    string name_of(const string &m) { string x = base(m); if (!nested()) return x.substr(0, x.size() - 5); return base(m.substr(0, m.rfind('/'))); }
    us_t ahead = 0;                                                            // how far the wall clock may have been set forward
    bool is_variant(const string &path) { if (!variants()) return false; string x = base(path); for (auto &o : pl.ops) if (o.has("name")) { string n = o.s("name"); if ((ends(n, "_low") && x == n.substr(0, n.size() - 4) + ".m3u8") || (ends(n, "_hi") && x == n.substr(0, n.size() - 3) + ".m3u8")) return true; } return false; }
    void setup() override {
        for (auto &o : pl.ops) if (o.verb == "clock") ahead += std::max<int64_t>(0, o.n("by")) * MS;
        fraglen = ms(pl.k("app.hls_fragment", "5s")); playlen = ms(pl.k("app.hls_playlist_length", "30s")); maxfrag = pl.kn.count("app.hls_max_fragment") ? ms(pl.k("app.hls_max_fragment")) : fraglen * 10; winfrags = fraglen ? (size_t) (playlen / fraglen) : 0; keys = pl.k("app.hls_keys") == "on"; cont = pl.k("app.hls_continuous", "on") == "on"; burl = pl.k("app.hls_base_url"); kurl = pl.k("app.hls_key_url");
        disk.pre = [this](Proc *, int op, const string &path, int64_t n, const string &path2) {
            if (path.find("/data/hls/") == string::npos && path.find("/data/keys/") == string::npos) return;
            if (ends(path, ".m3u8")) { if (op == OP_FOPEN && (n & 03)) once("a playlist is not replaced in one step", path); if (op == OP_FUNLINK) { if (vis.count(path) && !over(vis[path].pub)) unseen = true; vis.erase(path); stat["playlists cleaned up"]++; } }
            bool wipe = (op == OP_FOPEN && (n & 01000)) || op == OP_FUNLINK || op == OP_FTRUNC || op == OP_FRENAME || op == OP_FWRITE;
            if (!wipe) return;
            for (auto &q : {path, path2}) if (!q.empty() && !(op == OP_FRENAME && q == path2 && ends(q, ".m3u8"))) touch(op, q);
        };
        disk.post = [this](Proc *, int op, const string &path, int64_t res, const string &path2) {
            if (path.find("/data/hls/") == string::npos) return;
            if (op == OP_FRENAME && res >= 0 && ends(path2, ".m3u8")) { if (is_variant(path2)) variant(path2); else playlist(path2); }
        };
        disk.attach();
    }
    void once(const string &what, const string &path, const string &more = "") { if (broken.insert(path).second) bad(what, base(path) + (more.empty() ? "" : ": " + more)); }
    bool over(int pub) { if (pub < 0) return true; PubS &q = *pubs[pub]; if (q.t_stop >= 0 || q.t_dead >= 0) return true; for (us_t t : disk.crash_t) if (t >= q.t_conn) return true; return false; }
    void touch(int op, const string &path) {
        if (op != OP_FWRITE) { segs.erase(path); keyuse.erase(path); }
        for (auto &m : vis) for (auto &f : m.second.files) if (f == path && (cont || !over(m.second.pub))) {
            us_t age = w.now - (last_touch.count(path) ? last_touch[path] : 0);
            if (op == OP_FUNLINK && age >= (2 * playlen - 1000) * MS - ahead) { stat["listed files cleaned up"]++; old.insert(path); unseen = true; once("the cleanup removes a listed segment older than twice the playlist length", path); continue; }
            once("a listed segment is removed or written again", path, fmt("listed in the playlist of %.3f s", m.second.t / 1e6));
        }
        if (op == OP_FUNLINK) stat["files cleaned up"]++;
        if (op == OP_FUNLINK && last_touch.count(path) && w.now - last_touch[path] >= (2 * playlen - 1000) * MS - ahead) old.insert(path);
        last_touch[path] = w.now;
    }
    std::set<string> old; bool clean_ok(const string &path) { return old.count(path); }      // removed because it is old
    void variant(const string &path) {
        string d = read_file(path), want = "#EXTM3U\n#EXT-X-VERSION:3\n", n = base(path); n = n.substr(0, n.size() - 5); stat["variant playlists checked"]++;
        want += "#EXT-X-STREAM-INF:PROGRAM-ID=1,BANDWIDTH=160000\n" + burl + n + "_low" + (nested() ? "/index" : "") + ".m3u8\n" + "#EXT-X-STREAM-INF:PROGRAM-ID=1,BANDWIDTH=640000,RESOLUTION=640x360\n" + burl + n + "_hi" + (nested() ? "/index" : "") + ".m3u8\n";
        if (d != want) once("a visible variant playlist is not complete", path, fmt("%zu bytes: ", d.size()) + d.substr(0, 100));
    }
    bool parse(const string &d, const string &dir, const string &name, M3 &m, string &why) {
        vector<string> l; size_t i = 0; while (i < d.size()) { size_t e = d.find('\n', i); if (e == string::npos) { why = "the last line is not complete"; return false; } l.push_back(d.substr(i, e - i)); i = e + 1; }
        if (l.size() < 4 || l[0] != "#EXTM3U" || l[1] != "#EXT-X-VERSION:3" || l[2].compare(0, 22, "#EXT-X-MEDIA-SEQUENCE:") || l[3].compare(0, 22, "#EXT-X-TARGETDURATION:")) { why = "the header is not complete"; return false; }
        m.seq = strtoull(l[2].c_str() + 22, 0, 10); m.target = atoi(l[3].c_str() + 22); Ent x; bool have = false; string key; uint64_t iv = 0; x.disc = false; x.dur = -1;
        for (size_t k = 4; k < l.size(); k++) {
            string &s = l[k];
            if (s == "#EXT-X-PLAYLIST-TYPE: EVENT" && k == 4) continue;
            if (s == "#EXT-X-DISCONTINUITY") { x.disc = true; continue; }
            if (!s.compare(0, 31, "#EXT-X-KEY:METHOD=AES-128,URI=\"")) { size_t e = s.find('"', 31), v = s.find(",IV=0x"); if (e == string::npos || v == string::npos) { why = "bad key line"; return false; } key = s.substr(31, e - 31); string hx = s.substr(v + 6); if (hx.size() != 32) { why = "bad IV: " + hx; return false; } iv = strtoull(hx.c_str() + 16, 0, 16); continue; }
            if (!s.compare(0, 8, "#EXTINF:")) { char *e; x.dur = strtod(s.c_str() + 8, &e); if (*e != ',') { why = "bad EXTINF: " + s; return false; } have = true; continue; }
            if (s.empty() || s[0] == '#') { why = "unknown line: " + s; return false; }
            if (!have) { why = "an entry without a duration: " + s; return false; }
            x.uri = s; x.key = key; x.iv = iv; string pre = burl + (nested() ? (burl.empty() ? "" : name + "/") : name + "-");
            if (s.compare(0, pre.size(), pre) || !ends(s, ".ts")) { why = "bad entry: " + s; return false; }
            x.path = nested() ? dir + s.substr(pre.size()) : dir + s.substr(burl.size()); m.e.push_back(x); m.files.push_back(x.path); x.disc = false; have = false;
        }
        if (have || x.disc) { why = "a duration without an entry"; return false; }
        return true;
    }
    void playlist(const string &path) {
        string d = read_file(path), dir = path.substr(0, path.rfind('/') + 1), name = name_of(path), why; stat["playlists checked"]++;
        M3 m; m.t = w.now; if (!parse(d, dir, name, m, why)) { once("a visible playlist is not complete", path, why); return; }
        if (m.e.size() > winfrags) { once("a playlist lists more segments than its window holds", path, fmt("%zu, configured %zu", m.e.size(), winfrags)); return; }
        bool f = faulty(name, 0);
        for (auto &e : m.e) { if (e.dur < 0 || e.dur > maxfrag / 1000. + 12) { once("a playlist gives a segment an impossible duration", path, fmt("%s: %.3f s", e.uri.c_str(), e.dur)); return; } if ((int) floor(e.dur + 0.4999) > m.target) { once("a segment lasts longer than the target duration", path, fmt("%s: %.3f s, target %d", e.uri.c_str(), e.dur, m.target)); return; } if (keys && e.key.empty()) { once("a playlist entry has no key", path, e.uri); return; } }
        for (size_t i = 0; i < m.e.size(); i++) for (size_t j = i + 1; j < m.e.size(); j++) if (m.e[i].path == m.e[j].path) { once("a playlist lists the same segment twice", path, m.e[i].uri); return; }
        for (auto &e : m.e) if (!segment(e, name, m, path)) return;
        // one list grows out of the other
        auto it = vis.find(path);
        if (it != vis.end() && (cont || (it->second.pub >= 0 && it->second.pub == m.pub)) && winfrags) {
            M3 &o = it->second; 
            if (m.seq < o.seq) { once("the media sequence number goes backwards", path, fmt("%lu after %lu", (unsigned long) m.seq, (unsigned long) o.seq)); return; }
            if (m.seq > o.seq && m.seq - o.seq > 1 && !faulty(name, o.t)) { once("the media sequence number jumps", path, fmt("%lu after %lu", (unsigned long) m.seq, (unsigned long) o.seq)); return; }
            for (size_t i = (size_t) (m.seq - o.seq); i < o.e.size(); i++) {
                size_t j = i - (size_t) (m.seq - o.seq); if (j >= m.e.size()) { once("a playlist forgets segments it listed", path, o.e[i].uri); return; }
                if (m.e[j].uri != o.e[i].uri || m.e[j].disc != o.e[i].disc || fabs(m.e[j].dur - o.e[i].dur) > 0.0015 || m.e[j].key != o.e[i].key || m.e[j].iv != o.e[i].iv) { once("a playlist changes an entry it listed before", path, fmt("sequence %lu: %s %.3f%s, was %s %.3f%s", (unsigned long) (o.seq + i), m.e[j].uri.c_str(), m.e[j].dur, m.e[j].disc ? " discontinuity" : "", o.e[i].uri.c_str(), o.e[i].dur, o.e[i].disc ? " discontinuity" : "")); return; }
            }
            if (m.seq + m.e.size() < o.seq + o.e.size()) { once("a playlist loses its newest segments", path); return; }
        }
        // what follows what
        for (size_t i = 0; i < m.e.size(); i++) {
            auto b = segs.find(m.e[i].path); if (b == segs.end()) continue; Seg &y = b->second;
            if (i == 0) continue;
            auto a = segs.find(m.e[i - 1].path); if (a == segs.end()) continue; Seg &x = a->second;
            if (!m.e[i].disc && x.pub >= 0 && y.pub >= 0) {
                if (x.pub != y.pub) { once("segments of different publishers follow each other without a discontinuity", path, m.e[i].uri); return; }
                for (int v = 0; v < 2; v++) { int l = -1, n = -1; for (auto &u : x.u) if ((u.type == 9) == (v == 1)) l = u.idx; for (auto &u : y.u) if ((u.type == 9) == (v == 1)) { n = u.idx; break; } if (l >= 0 && n >= 0) for (int k = l + 1; k < n; k++) if (pubs[x.pub]->sent[k].type == (v ? 9 : 8) && !pubs[x.pub]->sent[k].hdr) { once("media is missing between segments without a discontinuity", path, fmt("%s: %s #%d of %s", m.e[i].uri.c_str(), v ? "video" : "audio", k, pubs[x.pub]->id.c_str())); return; } }
                if (!m.e[i - 1].disc && x.keystart && y.keystart && x.first_v >= 0 && y.first_v >= 0 && fabs(m.e[i - 1].dur * 1000 - (double) (y.first_v - x.first_v)) > 1.5) { once("a segment's duration is not that of its media", path, fmt("%s: %.3f s, the next starts %.3f s later", m.e[i - 1].uri.c_str(), m.e[i - 1].dur, (y.first_v - x.first_v) / 1000.)); return; }
                if (x.keystart && y.keystart && m.e[i - 1].dur * 1000 + 1 < fraglen && pl.k("app.hls_fragment_slicing") != "aligned") { once("a segment is shorter than the fragment length", path, fmt("%s: %.3f s", m.e[i - 1].uri.c_str(), m.e[i - 1].dur)); return; }
                if (y.first_v >= 0 && !y.keystart) { once("a segment does not start at a keyframe", path, m.e[i].uri); return; }
            } else if (m.e[i].disc && x.pub == y.pub && x.pub >= 0 && !f && disk.crashes == 0) {
                PubS &q = *pubs[x.pub]; bool jump = m.e[i - 1].dur * 1000 + 6000 >= maxfrag; for (size_t k = 1; k < q.sent.size(); k++) if ((int64_t) q.sent[k].ts - (int64_t) q.sent[k - 1].ts > maxfrag - 1000 || (int64_t) q.sent[k].ts - (int64_t) q.sent[k - 1].ts < -900 || (q.interleave && (int64_t) q.sent[k].ts - (int64_t) q.sent[k - 1].ts > 900)) jump = true;   // interleaved chunks: a message from before the jump may end after one from behind it
                if (!jump) { once("a discontinuity inside a continuous stream", path, fmt("%s after %s of %.3f s", m.e[i].uri.c_str(), m.e[i - 1].uri.c_str(), m.e[i - 1].dur)); return; }
            }
        }
        if (!m.e.empty()) { auto b = segs.find(m.e.back().path); if (b != segs.end() && b->second.first_v >= 0 && b->second.keystart) { Seg &y = b->second; double mx = (double) (y.last - y.first_v); if (m.e.back().dur * 1000 < mx - 1500 || m.e.back().dur * 1000 > mx + 6000) { once("a segment's duration is not that of its media", path, fmt("%s: %.3f s, its media %.3f s", m.e.back().uri.c_str(), m.e.back().dur, mx / 1000)); return; } } }
        vis[path] = m;
    }
    bool unseen = false;                                                       // a segment was cleaned up before its playlist appeared
    bool segment(Ent &e, const string &name, M3 &m, const string &path) {
        auto it = segs.find(e.path);
        if (it == segs.end()) {
            if (!exists(e.path)) { if (clean_ok(e.path)) { unseen = true; return true; } once("a playlist lists a segment that does not exist", path, e.uri); return false; }
            string d = read_file(e.path), x, kf; Seg s; s.t = w.now;
            if (keys) {
                string kp = kurl + (nested() ? (kurl.empty() ? "" : name + "/") : name + "-"); if (e.key.compare(0, kp.size(), kp)) { once("a playlist refers to a key by the wrong name", path, e.key); return false; }
                kf = nodes[0].prefix + (pl.k("app.hls_key_path") != "" ? "/data/keys/" : "/data/hls/") + name + (nested() ? "/" : "-") + e.key.substr(kp.size());
                string k = read_file(kf); if (k.size() != 16) { if (!exists(kf) && clean_ok(kf)) { unseen = true; return true; } once("a playlist refers to a key that is not there or not complete", path, e.key + fmt(": %zu bytes", k.size())); return false; }
                if (!aes_decrypt(d, k, e.iv, x)) { once("a listed segment cannot be decrypted with its key", path, e.uri + fmt(": %zu bytes", d.size())); return false; }
                d = x; s.keyfile = kf; m.files.push_back(kf); stat["segments decrypted"]++;
                auto &ku = keyuse[kf]; if (std::find(ku.begin(), ku.end(), e.path) == ku.end()) ku.push_back(e.path);
                int64_t fk = pl.kn_("app.hls_fragments_per_key", 0); if (fk && (int64_t) ku.size() > fk) { once("a key is used for more segments than configured", path, e.key + fmt(": %zu", ku.size())); return false; }
            }
            if (d.empty() || d.size() % 188) { once("a playlist lists a segment that is not complete", path, e.uri + fmt(": %zu bytes", d.size())); return false; }
            TsParser ts; vector<TsPes> pes; ts.on_pes = [&](TsPes &p) { pes.push_back(p); }; ts.feed(d.data(), d.size()); ts.flush();
            if (ts.bad) { once("a listed segment is not a valid transport stream", path, e.uri + ": " + ts.why); return false; }
            for (auto &p : pes) if (!ts.types.count(p.pid)) { once("a segment's program table does not list its media", path, e.uri + fmt(": pid %d", p.pid)); return false; }
            TsOpt o; o.who = "segment " + e.uri; o.last_partial = false; if (!ts_units(*this, *this, pes, name, "live", o, s.u)) { broken.insert(path); return false; }
            for (auto &u : s.u) {
                PubS &q = *pubs[u.pub]; Pub &p = q.sent[u.idx];
                if (q.rejected && q.t_start < 0) { once("a segment holds media of a refused publisher", path, e.uri); return false; }
                if (s.pub >= 0 && s.pub != u.pub) { once("a segment holds media of two publishers", path, e.uri); return false; }
                s.pub = u.pub; if (u.type == 9 && s.first_v < 0) { s.first_v = p.ts; s.keystart = p.key; } if (u.type == 9 && p.key) s.nkey++; s.last = std::max<int64_t>(s.last, p.ts);
            }
            stat["segments checked"]++;
            if (s.pub >= 0) for (int v = 1; v >= 0; v--) { auto &g = got[{s.pub, v}]; for (auto &u : s.u) if ((u.type == 9) == (v == 1)) { if (!g.empty() && u.idx <= g.back()) { once(u.idx == g.back() ? "segments hold a message twice" : "segments hold messages out of order", path, e.uri + fmt(": #%d after #%d of %s", u.idx, g.back(), pubs[s.pub]->id.c_str())); return false; } g.push_back(u.idx); } }
            it = segs.insert({e.path, s}).first;
        } else if (!it->second.keyfile.empty()) m.files.push_back(it->second.keyfile);
        if (it->second.pub >= 0) m.pub = it->second.pub;
        return true;
    }
    bool faulty(const string &name, us_t from) { for (auto &d : disk.faulted) if (d.first.find("/" + name + (nested() ? "/" : "-")) != string::npos || d.first.find("/" + name + ".m3u8") != string::npos || ends(d.first, "/data/hls") || ends(d.first, "/data/hls/" + name)) for (us_t t : d.second) if (t >= from) return true; return false; }
    void finish() override {
        bool any = false; for (auto &d : disk.faulted) if (d.first.find("/data/hls") != string::npos) any = true;
        for (auto &qp : pubs) for (int v = 1; v >= 0; v--) {
            PubS &q = *qp; if (q.t_start < 0 || q.rejected) continue; auto &have = got[{q.order, v}]; vector<int> all; bool hdr = false;
            bool alone = true; for (auto &o : pubs) if (o.get() != &q && o->name == q.name && o->t_conn < (q.t_stop >= 0 ? q.t_stop : w.now) && o->t_start >= 0 && (o->t_stop >= 0 ? o->t_stop : w.now) + SEC > q.t_conn) alone = false;
            for (size_t i = 0; i < q.sent.size(); i++) if (q.sent[i].type == (v ? 9 : 8)) { if (q.sent[i].hdr) hdr = true; else if (hdr) all.push_back((int) i); }
            if (any || !alone || winfrags == 0 || unseen) continue; string who = fmt("%s of publisher %s", v ? "video" : "audio", q.id.c_str()); bool crash = false; for (us_t t : disk.crash_t) if (t >= q.t_conn) crash = true;
            bool aligned = pl.k("app.hls_fragment_slicing") == "aligned", tail = q.graceful() && !uplink_slow(q) && !crash && w.now - q.t_stop > 3 * SEC && all.size() > 1;
            if (have.empty()) { if (tail && !all.empty() && !aligned) { bad("a published stream does not appear in its segments", who); return; } continue; }
            size_t off = 0; if (aligned) while (off < all.size() && all[off] != have[0]) off++;
            if (!v && pl.kn.count("app.hls_audio_buffer_size")) { int kf = -1; for (size_t i = 0; i < q.sent.size() && kf < 0; i++) if (q.sent[i].type == 9 && q.sent[i].key && !q.sent[i].hdr) kf = (int) i; while (off < all.size() && all[off] < kf && all[off] != have[0]) off++; }   // what came before the first keyframe waits in a small buffer
            for (size_t i = 0; i < have.size(); i++) if (i + off >= all.size() || all[i + off] != have[i]) { bad("segments miss a message", fmt("%s: expected #%d, found #%d", who.c_str(), i + off < all.size() ? all[i + off] : -1, have[i])); return; }
            stat["gap-free sequences"]++;
            if (tail) { if (have.back() != all.back()) { bad("segments miss the last messages", fmt("%s: last is #%d, #%d was published", who.c_str(), have.back(), all.back())); return; } stat["complete tails"]++; }
            else if (q.st == 1 && !crash && !uplink_slow(q) && disk.crashes == 0 && !aligned) {
                int64_t gop = q.mc.video ? q.mc.gop * 1000 / q.mc.fps : 0, lag = (int64_t) q.sent.back().ts - (int64_t) q.sent[have.back()].ts;
                if (lag > 2 * fraglen + 3 * gop + 6000 && q.sent.back().t_sent < w.now - 3 * SEC) { bad("segments stop appearing although the publisher goes on", fmt("%s: last is #%d", who.c_str(), have.back())); return; }
            }
        }
        if (!disk.crashes) {
            for (auto &p : plays) if (p->kind == "rtmp") { AvOpt o; check_av(*this, *p, o); if (p->t_dead >= 0 && p->t_stop < 0) bad("HLS trouble ends a player", p->id); }
            for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0 && !p->rejected) bad("HLS trouble ends a publisher", p->id + ": " + p->dead_why);
        }
    }
};
static void gen06(Plan &p, Rng &r) {
    gen_live(p, r, {"rtmp"}); p.set("rtmp.out_queue", 4096); for (auto &k : {"app.dash", "app.dash_path", "app.dash_fragment", "app.dash_playlist_length", "app.dash_nested", "app.recorder#1", "app.live_record", "app.live_record_path", "rtmp.out_cork", "app.sync"}) p.kn.erase(k);
    p.set("app.hls", "on"); p.set("app.hls_path", "@PREFIX@/data/hls"); p.set("app.hls_fragment", r.pick<string>({"100ms", "500ms", "500ms", "1s", "1s", "3s", "20s"})); p.set("app.hls_playlist_length", r.pick<string>({"1s", "2s", "3s", "5s", "30s"})); p.kn.erase("app.hls_nested");
    if (r.chance(0.3)) p.set("app.hls_nested", "on");
    if (r.chance(0.2)) p.set("app.hls_cleanup", "off");
    if (r.chance(0.2)) p.set("app.hls_continuous", "off");
    if (r.chance(0.25)) p.set("app.hls_fragment_naming", r.pick<string>({"system", "timestamp"})); if (p.k("app.hls_fragment_naming") == "timestamp") p.set("app.hls_continuous", "off");
    if (r.chance(0.15)) p.set("app.hls_fragment_slicing", "aligned");
    if (r.chance(0.15)) p.set("app.hls_type", "event");
    if (r.chance(0.15)) p.set("app.hls_max_fragment", r.pick<string>({"1s", "4s"}));
    if (r.chance(0.2)) p.set("app.hls_max_audio_delay", r.pick<string>({"50ms", "1s", "3s"}));
    if (r.chance(0.15)) p.set("app.hls_audio_buffer_size", r.pick<int64_t>({1000, 4000}));
    if (r.chance(0.15)) p.set("app.hls_sync", r.pick<string>({"0", "2ms"}));
    if (r.chance(0.15)) p.set("app.hls_base_url", r.chance(0.6) ? "http://cdn.test/hls/" : "http://cdn.test/" + string(300, 'h') + "/");
    if (r.chance(0.3)) { p.set("app.hls_keys", "on"); if (r.chance(0.7)) p.set("app.hls_fragments_per_key", r.pick<int64_t>({1, 2, 5})); if (r.chance(0.3)) p.set("app.hls_key_url", "https://keys.test/"); }
    for (auto &o : p.ops) if (o.verb == "pub" && r.chance(0.3)) o.set("askew", r.pick<int64_t>({-200, -40, 15, 60, 250}));
    us_t end = p.end - 6 * SEC; if (r.chance(0.25)) { p.end += 30 * SEC; } if (r.chance(0.4)) p.set("sim.workers", 1);
    if (r.chance(0.35)) { int m = (int) r.range(1, 3); for (int i = 0; i < m; i++) { Op &o = p.op(r.range(300, end / MS) * MS, "pub"); string id = fmt("d%d", i); o.set("id", id).set("name", fmt("s%d", (int) r.below(2))).set("dup", 1); g_media(o, r, p); g_link(o, r, &p); o.set("eager", r.chance(0.6)).set("limit", 4000); p.op(o.t + r.range(200, 6000) * MS, "unpub").set("id", id).set("mode", r.pick<string>({"close", "reset", "unpub"})); } }
    if (r.chance(0.4)) g_diskfaults(p, r, end, r.pick<string>({"/hls/", ".m3u8", ".ts", ".key", ".bak"}));
    if (r.chance(0.25)) { Op &o = p.op(r.range(500, end / MS) * MS, "crash"); o.set("after", r.pick<int64_t>({0, 1, 2, 3, r.range(0, 50)})).set("torn", r.chance(0.6)).set("down", r.pick<int64_t>({10, 500, 1500})); for (int i = 0; i < 2; i++) { Op &q = p.op(o.t + r.range(3500, 6000) * MS, "pub"); q.set("id", fmt("z%d", i)).set("name", fmt("s%d", i)); g_media(q, r, p); g_link(q, r, &p); } p.end += 6 * SEC; }
    if (r.chance(0.15)) { p.set("app.hls_variant", "_low BANDWIDTH=160000"); p.set("app.hls_variant#2", "_hi BANDWIDTH=640000 RESOLUTION=640x360"); for (auto &o : p.ops) if (o.has("name")) { string n = o.s("name"); o.set("name", n == "s0" ? "s0_low" : n == "s1" ? "s0_hi" : n); } }
    if (p.k("app.hls_keys") != "") { if (r.chance(0.4)) p.set("app.hls_key_path", "@PREFIX@/data/keys"); if (r.chance(0.3)) { p.set("app.recorder#1", "r1 { record all; record_path @PREFIX@/data/rec; record_suffix .flv; }"); } }
}
static PropReg reg("P06", gen06, make_scn<P06>);
