// P24: MPEG-TS published over HTTP becomes HLS playlists and segments on disk.
#include "scn.h"
#include "gen.h"
#include "disk.h"
#include <algorithm>
#include <cmath>

struct P24 : Scn {
    Disk disk; P24(Plan &p, const Cfg &c) : Scn(p, c), disk(*this) {}
    struct Au { int pid = 0, prog = 0; int64_t pts = 0, dts = 0; bool rai = false, video = false; string data; size_t pk0 = 0, pk1 = 0, trig = SIZE_MAX; std::set<int64_t> pcr; int n = 0; };
    struct Pl { us_t t = -1; int64_t ms = 0, td = 0; vector<std::pair<double, string>> segs; bool end = false; };
    struct Seg { int a = 0, b = 0; int64_t dur = 0; double ext = 0; };
    struct Prog { int no = 0, pmt = 0, v = -1, a = -1, pcr = -1; vector<int> order; size_t pos = 0; vector<Seg> segs; vector<Pl> pls; bool torn = false; };
    struct Tp {                       // a publisher of a transport stream
        P24 *s; Op o; string id, name, bytes, how; ActorConn *ac = nullptr; HttpParser p; vector<Prog> progs; vector<Au> aus; vector<std::pair<us_t, size_t>> marks; map<uint64_t, vector<int>> by;
        size_t sent = 0; bool dead = false, chunked = false, mal = false, over = false; us_t t0 = -1, t_first = -1, t_all = -1, t_cut = -1, t_end = -1, t_last = -1, gap = 0; int status = 0; bool reset = false; Rng rng{1}; us_t stall = 0;
    };
    vector<std::unique_ptr<Tp>> tps; std::set<string> broken; int64_t mins = 5000, maxs = 10000, nsegs = 6, maxsize = 16 << 20;
    static string base(const string &p) { return p.substr(p.rfind('/') + 1); }
    static bool ends(const string &s, const string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
    void once(const string &what, const string &path, const string &more = "") { if (broken.insert(path).second) bad(what, path.substr(path.rfind('/', path.rfind('/') - 1) + 1) + (more.empty() ? "" : ": " + more)); }
    static int64_t sx(int64_t d) { d &= (1ll << 33) - 1; return d & (1ll << 32) ? d - (1ll << 33) : d; }
    Tp *tp_of(const string &path) { auto v = split(path, '/'); if (v.size() < 2) return nullptr; for (auto &t : tps) if (t->name == v[v.size() - 2]) return t.get(); return nullptr; }
    bool faulty(const Tp &t) { for (auto *m : {&disk.faulted, &disk.shorted}) for (auto &d : *m) if (d.first.find("/" + t.name + "/") != string::npos || ends(d.first, "/" + t.name)) return true; return false; }
    bool crashed_after(us_t t) { for (us_t c : disk.crash_t) if (c >= t) return true; return false; }
    // ---------------------------------------------------------------- multiplexer
    struct Mux { string out; map<int, int> cc; };
    static string pkt(int pid, int &cc, bool pusi, bool rai, int64_t pcr, const string &d, size_t &off, bool payload, Rng &r) {
        string p; p += 'G'; p += (char) ((pusi ? 0x40 : 0) | pid >> 8); p += (char) pid; size_t left = payload ? d.size() - off : 0; string af; bool has = rai || pcr >= 0 || !payload;
        if (has) { af += (char) ((rai ? 0x40 : 0) | (pcr >= 0 ? 0x10 : 0)); if (pcr >= 0) { int64_t b = pcr / 300, e = pcr % 300; af += (char) (b >> 25); af += (char) (b >> 17); af += (char) (b >> 9); af += (char) (b >> 1); af += (char) ((b & 1) << 7 | 0x7e | e >> 8); af += (char) e; } }
        size_t room = 184 - (has ? af.size() + 1 : 0); size_t n = std::min(left, room);
        if (n < room) { size_t pad = room - n; if (!has) { has = true; pad--; if (pad) { af += '\0'; pad--; } } af += string(pad, '\xff'); }
        p += (char) ((has ? 0x20 : 0) | (payload ? 0x10 : 0) | (payload ? cc : (cc + 15) & 15)); if (payload) cc = (cc + 1) & 15;
        if (has) { p += (char) af.size(); p += af; } p += d.substr(off, n); off += n; (void) r; return p;
    }
    static uint32_t crc(const string &s) { uint32_t c = 0xffffffff; for (unsigned char x : s) { c ^= (uint32_t) x << 24; for (int i = 0; i < 8; i++) c = c & 0x80000000 ? c << 1 ^ 0x04c11db7 : c << 1; } return c; }
    static string section(int tid, int id, const string &body) { string s; s += (char) tid; be16(s, 0xb000 | (body.size() + 9)); be16(s, id); s += '\xc1'; s += '\0'; s += '\0'; s += body; uint32_t c = crc(s); be32(s, c); return string(1, '\0') + s; }
    void tables(Tp &t, map<int, int> &cc, Rng &r) {
        string b; if (t.o.n("nit")) { be16(b, 0); be16(b, 0xe010); } for (auto &p : t.progs) { be16(b, p.no); be16(b, 0xe000 | p.pmt); }
        auto put = [&](int pid, const string &s) { size_t off = 0; bool first = true; while (off < s.size()) { string q; q += 'G'; q += (char) ((first ? 0x40 : 0) | pid >> 8); q += (char) pid; q += (char) (0x10 | cc[pid]); cc[pid] = (cc[pid] + 1) & 15; q += s.substr(off, 184); off += std::min<size_t>(184, s.size() - off); q.resize(188, '\xff'); t.bytes += q; first = false; } };
        put(0, section(0, 1, b));
        for (auto &p : t.progs) { string m; be16(m, 0xe000 | p.pcr); int pi = (int) t.o.n("pinfo"); be16(m, 0xf000 | pi); m += string(pi, 'd'); for (int k = 0; k < 2; k++) { int pid = k ? p.a : p.v; if (pid < 0) continue; m += (char) (k ? 0x0f : 0x1b); be16(m, 0xe000 | pid); int ei = (int) t.o.n("einfo"); be16(m, 0xf000 | ei); m += string(ei, 'e'); } put(p.pmt, section(2, p.no, m)); }
        (void) r;
    }
    static void pts5(string &s, int k, int64_t v) { s += (char) (k << 4 | (v >> 29 & 0x0e) | 1); s += (char) (v >> 22); s += (char) (v >> 14 | 1); s += (char) (v >> 7); s += (char) (v << 1 | 1); }
    static string adts(const string &f, int sr, int ch) { string h; size_t n = f.size() + 7; h += '\xff'; h += '\xf1'; h += (char) (1 << 6 | sr << 2 | ch >> 2); h += (char) ((ch & 3) << 6 | n >> 11); h += (char) (n >> 3); h += (char) ((n & 7) << 5 | 0x1f); h += '\xfc'; return h + f; }
    void build(Tp &t) {
        const Op &o = t.o; Rng r(hmix(pl.seed, o.id * 977)); t.rng = Rng(r.next()); int np = (int) o.n("progs", 1); us_t dur = o.n("dur", 5000) * MS; int64_t ts0 = o.n("ts0"), M = 1ll << 33; map<int, int> cc; double speed = o.f("speed", 1);
        vector<std::unique_ptr<MediaGen>> g; vector<vector<Pub>> abuf(np); vector<string> hdr(np);
        for (int i = 0; i < np; i++) {
            Prog p; p.no = i ? 7 * i + 2 : (int) o.n("pno", 1); p.pmt = 0x20 + 0x100 * i; bool v = o.n("video", 1) && !(i && o.n("aonly2")), a = o.n("audio", 1) || !v; if (v) p.v = 0x41 + 0x100 * i; if (a) p.a = 0x42 + 0x100 * i; if (o.n("swap") && v && a) std::swap(p.v, p.a); p.pcr = v ? p.v : p.a; t.progs.push_back(p);
            MediaCfg m; m.video = v; m.audio = a; m.fps = (int) o.n("fps", 25); m.gop = (int) o.n("gop", 25); m.vsize_min = (int) o.n("vmin", 60); m.vsize_max = (int) o.n("vmax", 1500); m.big = o.f("big", 0.02); m.big_max = (int) o.n("bigmax", 30000); m.bframes = o.n("bf"); m.nals_max = (int) o.n("nals", 1); m.asize_min = 10; m.asize_max = 300; m.a_skew = (int) o.n("askew");
            g.push_back(std::make_unique<MediaGen>(m, r.next(), (int) (1000 + tps.size() * 10 + i))); if (v) { Pub h = g[i]->avc_header(0); for (auto &n : h.nals) hdr[i] += string("\0\0\0\1", 4) + n; }
        }
        struct Fly { int au; string d; size_t off = 0; bool first = true; int64_t pcr = -1; }; vector<Fly> fly; map<int, us_t> lastpcr; std::set<int> live; map<int, int> pend;
        size_t npk = t.bytes.size() / 188; int64_t pcroff = o.n("pcroff", 9000); us_t tab = o.n("tab", 500) * MS, lasttab = 0; tables(t, cc, r); int inter = (int) o.n("inter"); us_t clock = 0; auto npkt = [&] { return t.bytes.size() / 188; }; (void) npk;
        auto emit = [&](Fly &f) {                         // one packet of what is in flight
            Au &a = t.aus[f.au]; Prog &p = t.progs[a.prog]; if (f.first) { a.pk0 = npkt(); if (pend.count(a.pid)) { t.aus[pend[a.pid]].trig = npkt(); pend.erase(a.pid); } if (f.pcr >= 0) a.pcr.insert(f.pcr); else if (a.pid == p.pcr) { auto it = lastpcr_v[&t].find(a.prog); a.pcr.insert(it == lastpcr_v[&t].end() ? 0 : it->second); } }
            bool fi = f.first; t.bytes += pkt(a.pid, cc[a.pid], fi, fi && a.rai, fi ? f.pcr : -1, f.d, f.off, true, r); f.first = false;
            if (f.off == f.d.size()) { a.pk1 = npkt() - 1; bool bounded = (unsigned char) f.d[4] || (unsigned char) f.d[5]; if (bounded) a.trig = a.pk1; else pend[a.pid] = f.au; }
            if (r.chance(o.f("null"))) { string q("G\x1f\xff\x10", 4); q.resize(188, '\xff'); t.bytes += q; }
            if (r.chance(o.f("stray"))) { string q("G\x01\xee\x10", 4); q.resize(188, 'x'); t.bytes += q; }
            if (r.chance(o.f("pcronly"))) { int64_t v = ((clock * 9 / 100 + ts0 - pcroff) % M + M) % M * 300 + (int64_t) r.below(300); size_t z = 0; string d; t.bytes += pkt(p.pcr, cc[p.pcr], false, false, v, d, z, false, r); for (auto &x : fly) if (!x.first && t.aus[x.au].pid == p.pcr) t.aus[x.au].pcr.insert(v); if (pend.count(p.pcr)) t.aus[pend[p.pcr]].pcr.insert(v); lastpcr_v[&t][a.prog] = v; }
            else if (fi && f.pcr >= 0) lastpcr_v[&t][a.prog] = f.pcr;
        };
        auto drain = [&](int pid) { for (;;) { int k = -1; for (size_t i = 0; i < fly.size(); i++) if (pid < 0 || t.aus[fly[i].au].pid == pid) { k = (int) i; break; } if (k < 0) return; if (pid < 0 && inter && fly.size() > 1) k = (int) r.below(fly.size()); emit(fly[k]); if (fly[k].off == fly[k].d.size()) fly.erase(fly.begin() + k); } };
        auto push = [&](int i, bool v, const vector<Pub> &fr) {
            Au a; Prog &p = t.progs[i]; a.prog = i; a.video = v; a.pid = v ? p.v : p.a; int64_t dts = fr[0].ts * 90ll + ts0; a.dts = dts % M; a.pts = (dts + fr[0].cts * 90ll) % M; a.rai = v ? fr[0].key : o.n("arai") != 0; a.n = (int) t.aus.size();
            if (v) { if (o.n("aud")) a.data += string("\0\0\0\1\t\xf0", 6); if (fr[0].key) a.data += hdr[i]; for (size_t k = 0; k < fr[0].nals.size(); k++) a.data += (k && o.n("sc3") ? string("\0\0\1", 3) : string("\0\0\0\1", 4)) + fr[0].nals[k]; }
            else for (auto &f : fr) a.data += adts(f.nals[0], 4, 2);
            string h("\0\0\1", 3); h += v ? '\xe0' : '\xc0'; bool unb = o.n(v ? "unb" : "unba"); bool two = a.pts != a.dts; size_t hl = two ? 10 : 5, stuffing = r.chance(0.1) ? o.n("pstuff") : 0, n = a.data.size() + 3 + hl + stuffing; if (n > 65535) { if (v) unb = true; } be16(h, unb ? 0 : n); h += '\x80'; h += two ? '\xc0' : '\x80'; h += (char) (hl + stuffing); pts5(h, two ? 3 : 2, a.pts); if (two) pts5(h, 1, a.dts); h += string(stuffing, '\xff');
            Fly f; f.d = h + a.data; clock = fr[0].ts * 1000ll; if (a.pid == p.pcr && (!lastpcr.count(i) || clock - lastpcr[i] >= o.n("pcrint", 0) * MS)) { lastpcr[i] = clock; f.pcr = ((dts - pcroff) % M + M) % M * 300 + (int64_t) r.below(300); }
            drain(a.pid); f.au = a.n; t.aus.push_back(a); fly.push_back(f); if (!inter) drain(-1); else while (fly.size() > 1 && r.chance(0.7)) { size_t k = r.below(fly.size()); emit(fly[k]); if (fly[k].off == fly[k].d.size()) fly.erase(fly.begin() + k); }
        };
        int ape = (int) o.n("ape", 1);
        for (;;) {
            int k = 0; for (int i = 1; i < np; i++) if (g[i]->next_ts() < g[k]->next_ts()) k = i; uint32_t ts = g[k]->next_ts(); if (ts * MS >= dur) break;
            if (tab && ts * MS - lasttab >= tab) { tables(t, cc, r); lasttab = ts * MS; }
            Pub f = g[k]->next(); bool v = f.type == 9; if (v) push(k, true, {f}); else { abuf[k].push_back(f); if ((int) abuf[k].size() >= ape) { push(k, false, abuf[k]); abuf[k].clear(); } }
            t.marks.push_back({(us_t) (ts * 1000 / speed), t.bytes.size()});
        }
        drain(-1); if (t.marks.empty()) t.marks.push_back({0, 0}); t.marks.back().second = t.bytes.size();
        for (auto &a : t.aus) if (a.trig != SIZE_MAX) { t.progs[a.prog].order.push_back(a.n); t.by[hash64(a.data.data(), a.data.size(), a.pid)].push_back(a.n); }
        for (auto &p : t.progs) std::stable_sort(p.order.begin(), p.order.end(), [&](int x, int y) { return t.aus[x].trig < t.aus[y].trig; });
        if (o.has("mal")) {                              // bytes that no multiplexer would send
            t.mal = true; Rng q(hmix(pl.seed, o.id * 31 + 7)); size_t from = (size_t) (t.bytes.size() * o.f("mal")); int n = (int) o.n("malk", 3); string kind = o.s("malw", "flip");
            for (int i = 0; i < n && from < t.bytes.size(); i++) { size_t at = from + q.below(t.bytes.size() - from); if (kind == "head") at = at / 188 * 188 + q.below(30); if (kind == "flip" || kind == "head") { if (kind == "flip" && q.chance(0.5) && at % 188 == 0) at++; t.bytes[std::min(at, t.bytes.size() - 1)] ^= (char) (1 << q.below(8)); } else if (kind == "rand") for (size_t j = at; j < std::min(at + q.below(60), t.bytes.size()); j++) t.bytes[j] = (char) q.below(256); else if (kind == "del") t.bytes.erase(at / 188 * 188, 188 * q.range(1, 5)); else if (kind == "dup") t.bytes.insert(at / 188 * 188, t.bytes.substr(at / 188 * 188, 188 * q.range(1, 3))); else if (kind == "lose") t.bytes.erase(at, q.range(1, 187)); if (t.bytes.empty()) break; }
            for (auto &m : t.marks) m.second = std::min(m.second, t.bytes.size()); t.marks.back().second = t.bytes.size();
        }
        if (o.has("trunc")) { t.bytes.resize((size_t) (t.bytes.size() * o.f("trunc"))); for (auto &m : t.marks) m.second = std::min(m.second, t.bytes.size()); size_t k = t.bytes.size() / 188; for (auto &p : t.progs) { vector<int> v; for (int x : p.order) if (t.aus[x].trig < k) v.push_back(x); p.order = v; } }
    }
    map<Tp *, map<int, int64_t>> lastpcr_v;
    // ---------------------------------------------------------------- publishing
    void start(const Op &o) {
        tps.push_back(std::make_unique<Tp>()); Tp *t = tps.back().get(); t->s = this; t->o = o; t->id = o.s("id"); t->name = o.s("name"); t->chunked = o.n("chunked"); build(*t); t->t0 = w.now;
        t->ac = w.connect(nodes[0].ip, 80, fmt("10.4.0.%zu", tps.size()), link(o)); stat["transport streams"]++;
        t->ac->on_connected = [this, t] { string h = (t->o.s("method", "PUT")) + " /put/" + t->name + " HTTP/1.1\r\nHost: h\r\n" + (t->chunked ? "Transfer-Encoding: chunked" : fmt("Content-Length: %zu", t->bytes.size())) + "\r\n" + (t->o.n("cls") ? "Connection: close\r\n" : "") + (t->o.n("expect") ? "Expect: 100-continue\r\n" : "") + "\r\n"; t->t_first = w.now; w.trace("%s publishes %zu bytes, %zu access units%s", t->id.c_str(), t->bytes.size(), t->aus.size(), t->chunked ? ", chunked" : ""); if (t->o.n("eager")) { size_t n = due(*t); body(*t, n, h); if (n < t->bytes.size()) pump(t); } else { t->ac->send(h); pump(t); } };
        t->ac->on_data = [this, t](const char *d, size_t n) { if (t->dead) return; t->p.feed(d, n); if (t->p.bad) { bad("a response is not well-formed HTTP", t->id + ": " + t->p.why); gone(t); return; } if (t->p.done && t->p.status == 100) t->p.reset(); if (t->p.done) { t->status = t->p.status; w.trace("%s is answered %d", t->id.c_str(), t->status); gone(t); } };
        t->ac->on_eof = [this, t] { if (!t->dead) { w.trace("%s is disconnected", t->id.c_str()); gone(t); } };
        t->ac->on_error = [this, t](int) { if (!t->dead) { t->reset = true; gone(t); } };
        if (o.has("cut")) w.after(o.n("cut") * MS, [this, t] { if (t->dead || t->t_all >= 0) return; t->t_cut = w.now; t->dead = true; t->how = t->o.s("how", "close"); w.trace("%s leaves: %s", t->id.c_str(), t->how.c_str()); stat["publishers cut off"]++; if (t->how == "reset") t->ac->reset(); else if (t->how == "vanish") t->ac->vanish(); else t->ac->close(); });
        if (o.has("pause")) w.after(o.n("pause") * MS, [this, t] { t->stall = o_stall(*t); });
    }
    us_t o_stall(Tp &t) { return w.now + t.o.n("plen", 500) * MS; }
    void gone(Tp *t) { t->dead = true; t->t_end = w.now; if (t->p.status && !t->status) t->status = t->p.status; t->ac->close_now(); }
    size_t due(Tp &t) { us_t at = w.now - t.t_first; size_t n = 0; if (t.o.n("burst")) at += t.o.n("burst") * MS; for (auto &m : t.marks) { if (m.first > at) break; n = m.second; } return n; }
    void body(Tp &t, size_t n, const string &head = "") {
        string out = head; while (t.sent < n) { size_t k = std::min<size_t>(n - t.sent, t.chunked && t.o.n("chunk") ? t.rng.range(1, t.o.n("chunk")) : n - t.sent); if (t.chunked) out += fmt("%zx\r\n", k); out.append(t.bytes, t.sent, k); if (t.chunked) out += "\r\n"; t.sent += k; }
        bool all = t.sent == t.bytes.size() && t.t_all < 0; if (all && t.chunked && !t.o.n("late")) out += "0\r\n\r\n"; if (!out.empty()) { if (t.t_last >= 0) t.gap = std::max(t.gap, w.now - t.t_last); t.t_last = w.now; t.ac->send(out); }
        if (all) { t.t_all = w.now; w.trace("%s has sent everything", t.id.c_str()); if (t.chunked && t.o.n("late")) { Tp *q = &t; w.after(t.o.n("late") * MS, [this, q] { if (!q->dead) { q->gap = std::max(q->gap, w.now - q->t_last); q->ac->send("0\r\n\r\n"); q->t_all = w.now; } }); t.t_all = w.now; } }
    }
    void pump(Tp *t) { if (t->dead || t->t_all >= 0) return; if (w.now >= t->stall && t->ac->pending() < 200000) body(*t, due(*t)); if (t->t_all < 0) w.after(t->o.n("batch", 40) * MS, [this, t] { pump(t); }); }
    bool apply(const Op &o) override { if (o.verb == "ts") { start(o); return true; } return disk.apply(o) || Scn::apply(o); }
    // ---------------------------------------------------------------- what appears on disk
    static int64_t ms(const string &s) { return ends(s, "ms") ? atoll(s.c_str()) : atoll(s.c_str()) * 1000; }
    void setup() override {
        string c = pl.k("x.seg"); if (!c.empty()) { auto v = split(c, ':'); mins = ms(v[0]); maxs = v.size() > 1 ? ms(v[1]) : mins * 2; } nsegs = pl.kn_("x.nsegs", 6); maxsize = pl.kn_("x.maxsize", 16 << 20);
        disk.pre = [this](Proc *, int op, const string &path, int64_t n, const string &path2) {
            if (path.find("/data/tshls/") == string::npos) return; 
            if (ends(path, ".m3u8") && op == OP_FOPEN && (n & 03)) once("a playlist is not replaced in one step", path);
            bool wipe = (op == OP_FOPEN && (n & 01000)) || op == OP_FUNLINK || op == OP_FTRUNC || op == OP_FRENAME || op == OP_FWRITE; if (!wipe || !ends(path, ".ts")) return;
            Tp *t = tp_of(path); if (!t) return; for (auto &p : t->progs) if (!p.pls.empty() && !crashed_after(t->t0)) for (auto &s : p.pls.back().segs) if (s.second == base(path)) once("a listed segment is removed or written again", path);
        };
        disk.post = [this](Proc *, int op, const string &, int64_t res, const string &path2) { if (op == OP_FRENAME && res >= 0 && path2.find("/data/tshls/") != string::npos && ends(path2, ".m3u8")) playlist(path2); };
        disk.attach();
    }
    void playlist(const string &path) {
        Tp *t = tp_of(path); if (!t) { once("a playlist of a stream nobody publishes", path); return; } stat["playlists checked"]++; string d = read_file(path), b = base(path); if (broken_dir(t->name)) return;
        if (t->progs.size() > 1 && b == "index.m3u8") { master(*t, path, d); return; }
        Prog *p = nullptr; if (t->progs.size() == 1) { if (b == "index.m3u8") p = &t->progs[0]; } else for (auto &q : t->progs) if (b == fmt("%d.m3u8", q.no)) p = &q;
        if (!p) { if (!t->mal) once("a playlist has an unexpected name", path); return; }
        Pl l; l.t = w.now; double ext = -1; auto v = split(d, '\n'); bool ok = v.size() > 1 && v[0] == "#EXTM3U" && v.back().empty(); bool ver = false, hms = false, htd = false;
        for (size_t i = 1; ok && i < v.size(); i++) { string &x = v[i]; if (x.empty()) continue; if (l.end) ok = false; if (x.compare(0, 15, "#EXT-X-VERSION:") == 0) ver = true; else if (x.compare(0, 22, "#EXT-X-MEDIA-SEQUENCE:") == 0) { hms = true; l.ms = atoll(x.c_str() + 22); } else if (x.compare(0, 22, "#EXT-X-TARGETDURATION:") == 0) { htd = true; l.td = atoll(x.c_str() + 22); } else if (x.compare(0, 8, "#EXTINF:") == 0) { if (ext >= 0) ok = false; ext = atof(x.c_str() + 8); if (x.find(',') == string::npos || ext < 0) ok = false; } else if (x == "#EXT-X-ENDLIST") l.end = true; else if (x[0] != '#') { if (ext < 0) ok = false; l.segs.push_back({ext, x}); ext = -1; } else ok = false; }
        if (!ok || !ver || !hms || !htd || ext >= 0) { once("a visible playlist is not well-formed", path, hex(d.substr(0, 200), 200)); return; }
        if (t->mal) { p->pls.push_back(l); stat["playlists of malformed streams"]++; for (auto &s : l.segs) if (!exists(path.substr(0, path.rfind('/') + 1) + s.second) && !faulty(*t)) { once("a playlist lists a segment that does not exist", path, s.second); return; } return; }
        if ((int64_t) l.segs.size() > nsegs) { once("a playlist lists more segments than configured", path, fmt("%zu, configured %ld", l.segs.size(), (long) nsegs)); return; }
        int64_t closed = l.ms + (int64_t) l.segs.size(); string pre = t->progs.size() > 1 ? fmt("%d.", p->no) : "";
        for (size_t i = 0; i < l.segs.size(); i++) { if (l.segs[i].second != pre + fmt("%ld.ts", (long) (l.ms + i))) { once("the segments of a playlist are not those of its media sequence", path, fmt("sequence %ld, entry %zu is %s", (long) l.ms, i, l.segs[i].second.c_str())); return; } if ((int64_t) (l.segs[i].first + 0.5) > l.td) { once("a segment is longer than its playlist's target duration", path, fmt("%.3f s of %ld", l.segs[i].first, (long) l.td)); return; } }
        if (l.ms > 0 && (int64_t) l.segs.size() < nsegs) { once("a playlist forgets segments it should still list", path, fmt("%zu of %ld", l.segs.size(), (long) nsegs)); return; }
        if (!p->pls.empty()) { Pl &o = p->pls.back(); int64_t oc = o.ms + (int64_t) o.segs.size(); if (o.end) { once("a playlist goes on after its end", path); return; } if (closed < oc || closed > oc + 1 || (closed == oc && !l.end)) { once("a playlist does not advance by one segment", path, fmt("from %ld to %ld", (long) oc, (long) closed)); return; }
            for (size_t i = 0; i < l.segs.size(); i++) { int64_t k = l.ms + (int64_t) i - o.ms; if (k >= 0 && k < (int64_t) o.segs.size() && fabs(o.segs[k].first - l.segs[i].first) > 1e-9) { once("a playlist changes segments it listed before", path, l.segs[i].second); return; } } }
        else if (closed > 1) { once("a playlist does not advance by one segment", path, fmt("the first one has %ld", (long) closed)); return; }
        if (p->torn && !l.end) once("a stream goes on after its storage failed", path);
        string dir = path.substr(0, path.rfind('/') + 1); for (auto &s : l.segs) if (!exists(dir + s.second)) { once("a playlist lists a segment that does not exist", path, s.second); return; }
        bool isnew = p->pls.empty() || closed > p->pls.back().ms + (int64_t) p->pls.back().segs.size(); p->pls.push_back(l);
        if (isnew && closed > 0) segment(*t, *p, l, path, dir + l.segs.back().second, l.segs.back().first);
    }
    void master(Tp &t, const string &path, const string &d) {
        auto v = split(d, '\n'); vector<string> u; bool ok = v.size() == 2 * t.progs.size() + 2 && v[0] == "#EXTM3U" && v.back().empty();
        for (size_t i = 1; ok && i + 1 < v.size(); i += 2) { if (v[i].compare(0, 28, "#EXT-X-STREAM-INF:BANDWIDTH=") != 0 || atoll(v[i].c_str() + 28) <= 0) ok = false; u.push_back(v[i + 1]); }
        if (t.mal) return; if (ok) for (size_t i = 0; i < t.progs.size(); i++) if (u[i] != fmt("%d.m3u8", t.progs[i].no)) ok = false;
        if (!ok) { once("a master playlist is not well-formed", path, hex(d.substr(0, 200), 200)); return; } stat["master playlists checked"]++;
    }
    void segment(Tp &t, Prog &p, Pl &l, const string &pl_path, const string &path, double ext) {
        string d = read_file(path); bool f = faulty(t); TsParser ts; vector<TsPes> v; ts.on_pes = [&](TsPes &x) { v.push_back(x); }; ts.feed(d.data(), d.size()); if (!ts.bad) ts.flush(); stat["segments checked"]++; if (f && l.end) p.torn = true; bool tail = f && l.end;
        if (!tail && (d.size() % 188 || d.empty())) { once("a listed segment is not complete", path, fmt("%zu bytes", d.size())); return; }
        if (ts.bad && !tail) { once("a segment is not a valid transport stream", path, ts.why); return; }
        if (!tail && (!ts.pat || !ts.pmt)) { once("a segment has no program tables", path); return; }
        if (!tail) { map<int, int> ty; if (p.v >= 0) ty[p.v] = 0x1b; if (p.a >= 0) ty[p.a] = 0x0f; if (ts.types != ty) { once("a segment announces other streams than the publisher", path); return; } }
        std::stable_sort(v.begin(), v.end(), [](const TsPes &a, const TsPes &b) { return a.pkt < b.pkt; });
        Seg s; s.a = (int) p.pos; s.ext = ext; size_t n = v.size(); if (tail && n && ts.bad) n--;
        for (size_t i = 0; i < n; i++) {
            TsPes &x = v[i]; auto it = t.by.find(hash64(x.data.data(), x.data.size(), x.pid)); int au = -1; if (it != t.by.end()) { au = it->second[0]; for (int k : it->second) if (p.pos + i < p.order.size() && k == p.order[p.pos + i]) au = k; }
            if (au < 0) { if (tail && i + 1 == n) break; once("a segment holds an access unit that was never published", path, fmt("PES %zu on pid %d, %zu bytes", i, x.pid, x.data.size())); return; }
            if (p.pos + i >= p.order.size() || p.order[p.pos + i] != au) { size_t j = 0; while (j < p.order.size() && p.order[j] != au) j++; once(j < p.pos + i ? "segments hold an access unit twice or out of order" : "segments miss an access unit", path, fmt("access unit %d where %d belongs", au, p.pos + i < p.order.size() ? p.order[p.pos + i] : -1)); return; }
            Au &a = t.aus[au]; stat["access units compared"]++;
            if (x.pts != a.pts || x.dts != a.dts) { once("an access unit has the wrong time", path, fmt("pts %ld dts %ld, published %ld %ld", (long) x.pts, (long) x.dts, (long) a.pts, (long) a.dts)); return; }
            if (x.rai != a.rai) { once("a random access point is lost or invented", path, fmt("access unit %d", au)); return; }
            if (x.stream_id != (a.video ? 0xe0 : 0xc0)) { once("an access unit has the wrong stream id", path); return; }
            size_t at = 188 * (size_t) x.pkt; const unsigned char *q = (const unsigned char *) d.data() + at; int64_t pcr = -1; if ((q[3] & 0x20) && q[4] >= 7 && (q[5] & 0x10)) { pcr = (int64_t) q[6] << 25 | q[7] << 17 | q[8] << 9 | q[9] << 1 | q[10] >> 7; pcr = pcr * 300 + ((q[10] & 1) << 8 | q[11]); }
            if (a.pid == p.pcr ? !a.pcr.count(pcr) : pcr >= 0) { once("an access unit has the wrong clock reference", path, fmt("access unit %d: %ld, published with %ld", au, (long) pcr, a.pcr.empty() ? -1l : (long) *a.pcr.begin())); return; } if (a.pid == p.pcr) stat["clock references compared"]++;
            // where it had to be cut
            if (i) { int64_t dd = sx(a.dts - t.aus[p.order[p.pos]].dts); if (must_cut(p, a, dd) || (maxsize && (int64_t) at >= maxsize)) { once("a segment goes on where it has to end", path, fmt("access unit %d after %.3f s, %zu bytes", au, dd / 90000., at)); return; } }
        }
        if (!n && !tail) { once("a listed segment holds no access unit", path); return; }
        p.pos += n; s.b = (int) p.pos; p.segs.push_back(s); if (tail || !n) return; Au &first = t.aus[p.order[s.a]];
        if (!l.end) {
            if (p.pos >= p.order.size()) { once("a segment ends without the access unit that ends it", path); return; }
            Au &nx = t.aus[p.order[p.pos]]; int64_t dd = sx(nx.dts - first.dts); bool full = maxsize && (int64_t) d.size() >= maxsize;
            if (!must_cut(p, nx, dd) && !full) { once("a segment ends where it should go on", path, fmt("%.3f s, the next is %s%s", dd / 90000., nx.video ? "video" : "audio", nx.rai ? ", random access" : "")); return; } if (full) stat["segments cut for their size"]++;
            if (dd >= 0 && fabs(ext - dd / 90000.) > 0.00051) { once("a segment's duration is wrong", path, fmt("%.3f listed, %.3f", ext, dd / 90000.)); return; }
            if (dd < 0) { int64_t m = 0; for (int i = s.a; i < s.b; i++) m = std::max(m, sx(t.aus[p.order[i]].dts - first.dts)); if (ext > m / 90000. + 1.5) { once("a segment's duration is wrong", path, fmt("%.3f listed, %.3f", ext, m / 90000.)); return; } }
            stat["segment boundaries checked"]++;
        } else {
            int64_t m = 0, M2 = 0; for (int i = s.a; i < s.b; i++) m = std::max(m, sx(t.aus[p.order[i]].dts - first.dts)); for (auto &a : t.aus) if (a.prog == int(&p - &t.progs[0])) M2 = std::max(M2, sx(a.dts - first.dts)); M2 += 90000;
            if (ext < m / 90000. - 0.00051 || ext > M2 / 90000.) { once("the last segment's duration is wrong", path, fmt("%.3f listed, its access units span %.3f", ext, m / 90000.)); return; }
        }
        (void) pl_path;
    }
    bool must_cut(Prog &p, Au &a, int64_t d) { return d >= mins * 90 && (d >= maxs * 90 || (a.video ? a.rai : p.v < 0)); }
    void finish() override {
        if (!pl.kn.count("loc.location#put") || !pl.kn.count("x.seg") || !pl.kn.count("x.bodyto") || !pl.kn.count("httpmain.client_body_timeout")) return; us_t slack = 500 * MS + 100 * pl.kn_("sim.sched_delay", 300), bto = pl.kn_("x.bodyto") * SEC;
        for (auto &tp : tps) {
            Tp &t = *tp; bool crash = crashed_after(t.t0), f = faulty(t); string who = t.id; if (t.t_first < 0) { if (t.t_cut < 0 && !crash && disk.crash_t.empty()) bad("a publisher is not admitted", who); continue; } if (crash) continue;
            bool all = t.t_all >= 0; us_t settle = slack + 2 * SEC + 3 * (us_t) (t.o.n("lat", 300) + t.o.n("jit")); bool weird = t.mal || f;
            if (all && !t.dead && w.now - t.t_all > settle && !t.ac->pending()) { bad("a publisher that has sent everything gets no answer", who + fmt(": done at %.3f s", t.t_all / 1e6)); continue; }
            if (!t.dead && !all) continue;
            bool slow = t.gap > bto - SEC; /* the server may have timed the body out */
            if (t.t_cut < 0 && t.dead && !weird && !slow) { if (!all) { bad("a publisher is dropped although nothing failed", who + fmt(": %zu of %zu bytes sent, status %d", t.sent, t.bytes.size(), t.status)); continue; } if (t.status != 204) { bad("a complete stream is not accepted", who + fmt(": status %d", t.status)); continue; } stat["streams accepted"]++; }
            if (weird || slow) continue; us_t over = t.t_cut >= 0 ? t.t_cut + (t.how == "vanish" ? bto + SEC : 0) : t.t_end; if (over < 0 || w.now - over < settle + 2 * SEC) continue;
            for (auto &p : t.progs) { string pw = who + fmt(", program %d", p.no); if (p.order.empty()) continue;
                if (t.t_cut >= 0) { if (p.pls.empty() ? p.pos > 0 : !p.pls.back().end) bad("a playlist is not ended when its publisher has gone", pw); if (!p.pls.empty()) stat["playlists ended"]++; continue; }
                if (p.pls.empty()) { bad("a published stream gets no playlist", pw); continue; } if (!p.pls.back().end) { bad("a playlist is not ended when its publisher has gone", pw); continue; } stat["playlists ended"]++;
                if (p.pos < p.order.size() && !broken_dir(t.name)) { bad("segments miss the last access units", pw + fmt(": %zu of %zu", p.pos, p.order.size())); continue; } stat["complete streams"]++; }
                    }
    }
    bool broken_dir(const string &n) { for (auto &b : broken) if (b.find("/" + n + "/") != string::npos) return true; return false; }
};
static void gen24(Plan &p, Rng &r) {
    g_common(p, r); string mn = r.pick<string>({"500ms", "1s", "1s", "2s", "300ms"}), mx = r.pick<string>({"", "", ":3s", ":1500ms", ":10s"}); if (mn == "2s" && mx == ":1500ms") mx = ""; string seg = mn + mx; p.set("x.seg", seg); int ns = r.pick<int>({1, 2, 3, 6, 6}); p.set("x.nsegs", ns); string extra; if (r.chance(0.3)) { int64_t m = r.pick<int64_t>({2000, 20000, 100000}); p.set("x.maxsize", m); extra += fmt(" max_size=%ld", (long) m); } if (r.chance(0.2)) extra += " analyze=" + r.pick<string>({"100ms", "3s"});
    int bto = r.pick<int>({3, 6}); p.set("x.bodyto", bto); p.set("httpmain.client_body_timeout", fmt("%ds", bto)); if (r.chance(0.3)) p.set("httpmain.client_body_buffer_size", r.pick<string>({"1k", "187", "4k", "128k"}));
    p.set("loc.location#put", "/put/ { ts; ts_hls path=@PREFIX@/data/tshls segment=" + seg + fmt(" segments=%d", ns) + extra + " noclean; client_max_body_size 0; }"); if (r.chance(0.2)) p.set("sim.workers", r.pick<int>({1, 2}));
    us_t end = r.range(3, 10) * SEC; int n = (int) r.range(1, 4); us_t last = 0;
    for (int i = 0; i < n; i++) {
        Op &o = p.op(r.range(100, 2500) * MS, "ts"); o.set("id", fmt("t%d", i)).set("name", fmt("s%d", i)); g_link(o, r, &p); us_t dur = r.chance(0.2) ? r.range(0, 300) * MS : r.range(500, end / MS) * MS; o.set("dur", dur / MS);
        if (r.chance(0.25)) o.set("progs", r.pick<int64_t>({2, 2, 3})); if (r.chance(0.2)) o.set("video", 0); else if (r.chance(0.2)) o.set("audio", 0); if (r.chance(0.3)) o.set("aonly2", 1); if (r.chance(0.2)) o.set("swap", 1); if (r.chance(0.2)) o.set("pno", r.pick<int64_t>({2, 100, 65535}));
        o.set("fps", r.pick<int64_t>({10, 25, 30})).set("gop", r.pick<int64_t>({1, 5, 12, 25, 50, 0})); if (r.chance(0.3)) o.set("vmin", 1).set("vmax", r.pick<int64_t>({60, 400, 180})); if (r.chance(0.2)) o.set("big", "0.3").set("bigmax", r.pick<int64_t>({30000, 100000})); if (r.chance(0.3)) o.set("bf", 1); if (r.chance(0.3)) o.set("nals", r.range(2, 4)); if (r.chance(0.3)) o.set("aud", 1); if (r.chance(0.2)) o.set("sc3", 1); if (r.chance(0.3)) o.set("askew", r.pick<int64_t>({100, 300, -100}));
        if (r.chance(0.5)) o.set("unb", 1); if (r.chance(0.2)) o.set("unba", 1); if (r.chance(0.4)) o.set("ape", r.range(2, 8)); if (r.chance(0.3)) o.set("arai", 1); if (r.chance(0.4)) o.set("inter", 1); if (r.chance(0.2)) o.set("null", "0.1"); if (r.chance(0.1)) o.set("stray", "0.05"); if (r.chance(0.25)) o.set("pcronly", r.pick<string>({"0.02", "0.2"})); if (r.chance(0.4)) o.set("pcrint", r.pick<int64_t>({100, 400})); o.set("tab", r.pick<int64_t>({0, 100, 500})); if (r.chance(0.1)) o.set("nit", 1); if (r.chance(0.2)) o.set("pinfo", r.pick<int64_t>({6, 100, 200})); if (r.chance(0.2)) o.set("einfo", r.pick<int64_t>({5, 80})); if (r.chance(0.2)) o.set("pstuff", r.pick<int64_t>({1, 20, 150}));
        if (r.chance(0.3)) o.set("ts0", r.pick<int64_t>({90000, 8589934592ll - 90000 * 2, 8589934592ll - 90000, 4294967296ll - 90000 * 2, 5000000000ll})); if (r.chance(0.3)) o.set("pcroff", r.pick<int64_t>({0, 30000}));
        if (r.chance(0.4)) o.set("speed", r.pick<string>({"3", "20", "100"})); o.set("batch", r.pick<int64_t>({1, 20, 40, 200, 1000})); if (r.chance(0.5)) { o.set("chunked", 1); if (r.chance(0.5)) o.set("chunk", r.pick<int64_t>({1, 50, 188, 5000})); if (r.chance(0.3)) o.set("late", r.pick<int64_t>({1, 50, 700})); if (o.n("chunk") == 1) { o.set("vmax", 100).set("vmin", 20); o.kv.erase("big"); o.set("dur", std::min<int64_t>(o.n("dur"), 800)); } } if (r.chance(0.3)) o.set("eager", 1); if (r.chance(0.2)) o.set("burst", r.pick<int64_t>({100, 5000, 100000})); if (r.chance(0.3)) o.set("cls", 1); if (r.chance(0.2)) o.set("method", "POST");
        if (r.chance(0.2)) o.set("pause", r.range(100, 3000)).set("plen", r.pick<int64_t>({100, 1500}));
        int k = (int) r.below(10); if (k < 2) o.set("cut", r.range(1, 4000)).set("how", r.pick<string>({"close", "reset", "vanish"})); else if (k == 2) o.set("mal", r.pick<string>({"0", "0.01", "0.3"})).set("malk", r.pick<int64_t>({1, 3, 20})).set("malw", r.pick<string>({"flip", "head", "rand", "del", "dup", "lose"})); else if (k == 3) o.set("trunc", r.pick<string>({"0", "0.01", "0.4", "0.9"}));
        last = std::max<us_t>(last, o.t + dur);
    }
    if (r.chance(0.3)) { string m = r.pick<string>({"", "/tshls/", ".m3u8", ".ts", ".tmp"}); g_diskfaults(p, r, end, m); }
    if (r.chance(0.12)) { Op &o = p.op(r.range(500, end / MS) * MS, "crash"); o.set("after", r.pick<int64_t>({0, 1, 2, 3, r.range(0, 50)})).set("torn", r.chance(0.6)).set("down", r.pick<int64_t>({10, 500, 1500})); us_t t = o.t; for (int i = 0; i < 2; i++) { Op &q = p.op(t + r.range(4000, 6000) * MS, "ts"); q.set("id", fmt("z%d", i)).set("name", fmt("z%d", i)).set("dur", 3000).set("unb", i); g_link(q, r, &p); last = std::max<us_t>(last, q.t + 3 * SEC); } }
    p.end = last + (bto + 6) * SEC + 10 * SEC;
}
static PropReg reg("P24", gen24, make_scn<P24>);
