#include "lib.h"
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

string hex(const string &s, size_t max) { string r; for (size_t i = 0; i < s.size() && i < max; i++) r += fmt("%02x", (unsigned char) s[i]); if (s.size() > max) r += ".."; return r; }

void amf_put(string &o, const Amf &a) {
    switch (a.t) {
    case Amf::NUM: { o += '\0'; uint64_t v; memcpy(&v, &a.n, 8); for (int i = 7; i >= 0; i--) o += (char) (v >> (8 * i)); break; }
    case Amf::BOOL: o += '\1'; o += (char) (a.n != 0); break;
    case Amf::STR: if (a.s.size() > 65535) { o += '\x0c'; be32(o, a.s.size()); } else { o += '\2'; be16(o, a.s.size()); } o += a.s; break;
    case Amf::OBJ: case Amf::ECMA:
        if (a.t == Amf::ECMA) { o += '\x08'; be32(o, a.o.size()); } else o += '\3';
        for (auto &p : a.o) { be16(o, p.first.size()); o += p.first; amf_put(o, p.second); }
        be16(o, 0); o += '\x09'; break;
    case Amf::NUL: o += '\5'; break;
    case Amf::UNDEF: o += '\6'; break;
    case Amf::ARR: o += '\x0a'; be32(o, a.a.size()); for (auto &x : a.a) amf_put(o, x); break;
    }
}

bool amf_get(const string &d, size_t &off, Amf &a, int depth) {
    if (off >= d.size() || depth > 16) return false;
    int t = (unsigned char) d[off++];
    auto need = [&](size_t n) { return off + n <= d.size(); };
    switch (t) {
    case 0: { if (!need(8)) return false; uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (unsigned char) d[off++]; a.t = Amf::NUM; memcpy(&a.n, &v, 8); return true; }
    case 1: if (!need(1)) return false; a.t = Amf::BOOL; a.n = d[off++]; return true;
    case 2: case 12: { int k = t == 2 ? 2 : 4; if (!need(k)) return false; size_t n = rd(d, off, k); off += k; if (!need(n)) return false; a.t = Amf::STR; a.s = d.substr(off, n); off += n; return true; }
    case 3: case 8:
        a.t = t == 3 ? Amf::OBJ : Amf::ECMA;
        if (t == 8) { if (!need(4)) return false; off += 4; }
        for (;;) {
            if (!need(3)) return false;
            size_t n = rd(d, off, 2); off += 2;
            if (n == 0 && d[off] == 9) { off++; return true; }
            if (!need(n)) return false;
            string k = d.substr(off, n); off += n; Amf v; if (!amf_get(d, off, v, depth + 1)) return false;
            a.o.push_back({k, v});
        }
    case 5: a.t = Amf::NUL; return true;
    case 6: a.t = Amf::UNDEF; return true;
    case 10: { if (!need(4)) return false; size_t n = rd(d, off, 4); off += 4; a.t = Amf::ARR; for (size_t i = 0; i < n; i++) { Amf v; if (!amf_get(d, off, v, depth + 1)) return false; a.a.push_back(v); } return true; }
    case 11: if (!need(10)) return false; off += 10; a.t = Amf::NUM; return true;
    }
    return false;
}
vector<Amf> amf_all(const string &d) { vector<Amf> v; size_t o = 0; while (o < d.size()) { Amf a; if (!amf_get(d, o, a)) break; v.push_back(a); } return v; }

// ------------------------------------------------------------ chunks
void ChunkReader::feed(const char *d, size_t n) {
    if (bad) return;
    buf.append(d, n);
    size_t off = 0;
    for (;;) {
        size_t p = off;
        auto need = [&](size_t k) { return p + k <= buf.size(); };
        if (!need(1)) break;
        int b = (unsigned char) buf[p++]; int f = b >> 6, cs = b & 63;
        if (cs == 0) { if (!need(1)) break; cs = 64 + (unsigned char) buf[p++]; }
        else if (cs == 1) { if (!need(2)) break; cs = 64 + (unsigned char) buf[p] + 256 * (unsigned char) buf[p + 1]; p += 2; }
        St &s = st[cs]; St o = s;
        uint32_t t = 0;
        if (f <= 2) {
            if (!need(3)) break;
            t = rd(buf, p, 3); p += 3;
            if (f <= 1) { if (!need(4)) break; if (!o.part.empty()) { bad = true; why = fmt("new message header on chunk stream %d in the middle of a message", cs); return; } o.len = rd(buf, p, 3); o.type = (unsigned char) buf[p + 3]; p += 4;
                if (f == 0) { if (!need(4)) break; o.msid = (unsigned char) buf[p] | (unsigned char) buf[p + 1] << 8 | (unsigned char) buf[p + 2] << 16 | (uint32_t) (unsigned char) buf[p + 3] << 24; p += 4; } }
            o.ext = t == 0xffffff;
            if (o.ext) { if (!need(4)) break; t = rd(buf, p, 4); p += 4; }
            if (f == 0) { o.ts = t; o.delta = 0; } else o.delta = t;
        } else {
            if (o.ext) { if (!need(4)) break; p += 4; }
        }
        size_t k = std::min<size_t>(chunk, o.len - o.part.size());
        if (!need(k)) break;
        if (o.part.empty() && f != 0) o.ts += o.delta;
        o.part.append(buf, p, k); p += k; off = p;
        bool full = o.part.size() == o.len;
        Msg m; if (full) { m.type = o.type; m.ts = o.ts; m.msid = o.msid; m.csid = cs; m.data.swap(o.part); o.part.clear(); }
        st[cs] = o;
        if (full) {
            if (m.type == 1 && m.data.size() >= 4) { chunk = rd(m.data, 0, 4); if (!chunk) chunk = 1; }
            if (m.type == 2 && m.data.size() >= 4) st[(int) rd(m.data, 0, 4)].part.clear();
            if (m.type > 22 || m.type == 0) { bad = true; why = fmt("message type %d on chunk stream %d", m.type, cs); return; }
            if (on_msg) on_msg(m);
        }
    }
    buf.erase(0, off);
}

static string basic(int f, int cs) { string s; if (cs < 64) s += (char) (f << 6 | cs); else if (cs < 320) { s += (char) (f << 6); s += (char) (cs - 64); } else { s += (char) (f << 6 | 1); s += (char) ((cs - 64) & 255); s += (char) ((cs - 64) >> 8); } return s; }

string ChunkWriter::head(int csid, const Msg &m) {
    St &s = st[csid]; int f = 0; uint32_t d = m.ts - s.ts;
    if (s.have && s.msid == m.msid && m.ts >= s.ts) {
        int best = 1; if (s.len == m.data.size() && s.type == m.type) { best = 2; if (s.delta == d && !s.ext) best = 3; }
        if (d >= 0xffffff) best = 0;
        if (compress == 1) f = best; else if (compress == 2) f = (int) rng.below(best + 1);
    }
    string o = basic(f, csid); uint32_t t = f == 0 ? m.ts : d; bool ext = f <= 2 && t >= 0xffffff;
    if (f <= 2) { be24(o, ext ? 0xffffff : t); if (f <= 1) { be24(o, m.data.size()); o += (char) m.type; if (f == 0) le32(o, m.msid); } if (ext) be32(o, t); }
    s.have = true; s.ts = m.ts; s.len = m.data.size(); s.type = m.type; s.msid = m.msid; s.ext = ext;
    if (f == 0) s.delta = 0xfffffffe; else s.delta = d;   // a type-3 message right after type 0 is avoided: servers disagree on its delta
    return o;
}

vector<string> ChunkWriter::chunks(int csid, const Msg &m) {
    vector<string> v; string h = head(csid, m); size_t off = 0; bool ext = st[csid].ext;
    uint32_t et = m.ts;
    do {
        size_t k = std::min(chunk, m.data.size() - off);
        v.push_back(h + m.data.substr(off, k)); off += k;
        h = basic(3, csid); if (ext && ext_in_fmt3) be32(h, et);
    } while (off < m.data.size());
    return v;
}
string ChunkWriter::write(int csid, const Msg &m) { string o; for (auto &c : chunks(csid, m)) o += c; return o; }
string ChunkWriter::interleave(vector<std::pair<int, Msg>> ms) {
    vector<vector<string>> q; size_t left = 0; for (auto &p : ms) { q.push_back(chunks(p.first, p.second)); left += q.back().size(); }
    vector<size_t> i(q.size()); string o;
    while (left) { size_t k = rng.below(q.size()); if (i[k] < q[k].size()) { o += q[k][i[k]++]; left--; } }
    return o;
}

// ------------------------------------------------------------ rtmp peer
Rtmp::Rtmp(World *w_, ActorConn *a, bool srv) : w(w_), ac(a), server(srv), rng(a->id * 7919 + 13) {
    wr.rng = Rng(a->id * 31 + 5);
    rd.on_msg = [this](Msg &m) {
        if (m.type == 5 && m.data.size() >= 4) ack_win = ::rd(m.data, 0, 4);
        if (m.type == 4 && m.data.size() >= 6 && ::rd(m.data, 0, 2) == 6 && auto_pong) user(7, ::rd(m.data, 2, 4));
        if (on_msg) on_msg(m);
    };
    auto hello = [this] {
        if (server) return;
        string c = preamble; c += '\3'; be32(c, 0); be32(c, 0); for (int i = 0; i < 1528; i++) c += (char) rng.next(); ac->send(c);
    };
    ac->on_connected = hello; if (ac->connected && !server) hello();
    ac->on_data = [this](const char *d, size_t n) { feed(d, n); };
    ac->on_eof = [this] { down("eof"); ac->close_now(); };
    ac->on_error = [this](int e) { down(fmt("error %d", e)); };
}
void Rtmp::down(const string &why) { if (dead) return; dead = true; dead_why = why; t_dead = w->now; if (on_dead) on_dead(why); }
void Rtmp::feed(const char *d, size_t n) {
    in_bytes += n;
    if (!ready) {
        hsbuf.append(d, n);
        if (!server) {
            if (hstate == 0 && hsbuf.size() >= 1537) { string c2 = hsbuf.substr(1, 1536); ac->send(c2); hstate = 1; hsbuf.erase(0, 1537); }
            if (hstate == 1 && hsbuf.size() >= 1536) { hsbuf.erase(0, 1536); ready = true; }
        } else {
            if (hstate == 0 && hsbuf.size() >= 1537) {
                string s; s += '\3'; be32(s, 0); be32(s, 0); for (int i = 0; i < 1528; i++) s += (char) rng.next();
                s += hsbuf.substr(1, 1536); ac->send(s); hstate = 1; hsbuf.erase(0, 1537);
            }
            if (hstate == 1 && hsbuf.size() >= 1536) { hsbuf.erase(0, 1536); ready = true; }
        }
        if (!ready) return;
        string rest; rest.swap(hsbuf);
        if (on_ready) on_ready();
        if (!rest.empty()) rd.feed(rest.data(), rest.size());
    } else rd.feed(d, n);
    if (rd.bad && !dead) { w->trace("rtmp actor %d: bad chunk stream: %s", ac->id, rd.why.c_str()); }
    if (ack_win && auto_ack && !dead && in_bytes - last_ack >= ack_win / 2 + 1) { last_ack = in_bytes; string b; be32(b, (uint32_t) in_bytes); msg(2, 3, 0, 0, b); }
}
void Rtmp::msg(int csid, int type, uint32_t ts, uint32_t msid, const string &d) { Msg m; m.type = type; m.ts = ts; m.msid = msid; m.data = d; raw(wr.write(csid, m)); }
void Rtmp::cmd(uint32_t msid, const vector<Amf> &v, int csid) { string d; for (auto &a : v) amf_put(d, a); msg(csid, 20, 0, msid, d); }
void Rtmp::set_chunk(uint32_t n) { string d; be32(d, n); msg(2, 1, 0, 0, d); wr.chunk = n; }
void Rtmp::user(int ev, uint32_t a, int64_t b) { string d; be16(d, ev); be32(d, a); if (b >= 0) be32(d, (uint32_t) b); msg(2, 4, 0, 0, d); }

// ------------------------------------------------------------ media
string avc_sps(int v) {
    // baseline, a few different picture sizes (Exp-Golomb coded by hand below)
    string bits;
    auto u = [&](uint32_t x, int n) { for (int i = n - 1; i >= 0; i--) bits += (char) ('0' + ((x >> i) & 1)); };
    auto ue = [&](uint32_t x) { x++; int n = 0; for (uint32_t y = x; y > 1; y >>= 1) n++; for (int i = 0; i < n; i++) bits += '0'; u(x, n + 1); };
    u(0x67, 8); u(66, 8); u(0xc0, 8); u(30, 8);
    ue(0); ue(4); ue(2); ue(1); u(0, 1); ue(19 + v % 20); ue(14 + v % 11); u(1, 1); u(1, 1); u(0, 1); u(0, 1); u(1, 1);
    while (bits.size() % 8) bits += '0';
    string o; for (size_t i = 0; i < bits.size(); i += 8) { int x = 0; for (int j = 0; j < 8; j++) x = x << 1 | (bits[i + j] - '0'); o += (char) x; }
    return o;
}
string avc_pps(int v) { string o = "\x68"; o += (char) 0xce; o += (char) (0x38 + v % 4); o += (char) 0x80; return o; }

string MediaGen::filler(size_t n, const string &id) { string s = id; while (s.size() < n) s += (char) (1 + rng.below(255)); return s; }

Pub MediaGen::meta(uint32_t ts) {
    Pub p; p.type = 18; p.ts = ts; p.meta = true; p.pub = pub; p.seq = seq++; p.epoch = epoch;
    string d; amf_put(d, Amf("@setDataFrame")); amf_put(d, Amf("onMetaData"));
    amf_put(d, Amf::obj({{"width", 320 + 16 * epoch}, {"height", 240}, {"framerate", c.fps}, {"videocodecid", c.video ? (c.hevc ? 12 : 7) : 0}, {"audiocodecid", c.audio ? 10 : 0}, {"audiosamplerate", 44100}, {"encoder", fmt("simenc-%d-%d", pub, epoch).c_str()}}, true));
    p.data = d; return p;
}
Pub MediaGen::avc_header(uint32_t ts) {
    Pub p; p.type = 9; p.ts = ts; p.hdr = true; p.key = true; p.pub = pub; p.seq = seq++; p.epoch = epoch;
    int v = pub * 5 + epoch * 3; string d; d += (char) 0x17; d += '\0'; be24(d, 0);
    if (c.hevc) {
        d[0] = (char) 0x1c;
        string vps("\x40\x01\x0c\x01\xff\xff\x01\x60", 8), sps("\x42\x01\x01\x01\x60", 5), pps("\x44\x01\xc1\x72\xb4", 5); sps += (char) (0x10 + v % 200); 
        string h; h += '\1'; h += '\1'; be32(h, 0x60000000); be32(h, 0x90000000); be16(h, 0); h += (char) 93; be16(h, 0xf000); h += (char) 0xfc; h += (char) 0xfd; h += (char) 0xf8; h += (char) 0xf8; be16(h, 0); h += (char) 0x0f; h += '\3';
        auto arr = [&](int t, const string &n) { h += (char) (0x80 | t); be16(h, 1); be16(h, n.size()); h += n; };
        arr(32, vps); arr(33, sps); arr(34, pps); d += h; p.nals = {vps, sps, pps};
    } else {
        string sps = avc_sps(v), pps = avc_pps(v);
        d += '\1'; d += sps[1]; d += sps[2]; d += sps[3]; d += (char) 0xff; d += (char) 0xe1; be16(d, sps.size()); d += sps; d += '\1'; be16(d, pps.size()); d += pps; p.nals = {sps, pps};
    }
    p.data = d; need_key = true; return p;
}
Pub MediaGen::aac_header(uint32_t ts) {
    Pub p; p.type = 8; p.ts = ts; p.hdr = true; p.pub = pub; p.seq = seq++; p.epoch = epoch;
    string d; d += (char) 0xaf; d += '\0'; int sr = c.sr_idx + (epoch & 1); uint32_t v = 2 << 11 | sr << 7 | c.ch << 3; be16(d, v); p.data = d; return p;
}
uint32_t MediaGen::next_ts() const { if (c.video && c.audio) return (uint32_t) std::max<double>(0, std::min(vts, ats + c.a_skew)); return (uint32_t) (c.video ? vts : ats); }
Pub MediaGen::next() {
    Pub p; p.pub = pub; p.seq = seq++; p.epoch = epoch;
    bool v = c.video && (!c.audio || vts <= ats + c.a_skew);
    if (v) {
        bool key = need_key || (c.gop > 0 && vn % c.gop == 0); if (need_key) { vn = 0; need_key = false; }
        p.type = 9; p.ts = (uint32_t) vts; p.key = key; p.cts = c.bframes ? (int) rng.below(3) * 40 : 0;
        string d; d += (char) ((key ? 0x10 : 0x20) | (c.hevc ? 12 : 7)); d += '\1'; be24(d, p.cts);
        int nn = 1 + (c.nals_max > 1 ? (int) rng.below(c.nals_max) : 0);
        for (int i = 0; i < nn; i++) {
            size_t n = c.edge > 0 && rng.chance(c.edge) ? rng.range(65350, 65560) : rng.chance(c.big) ? rng.range(c.vsize_max, c.big_max) : rng.range(c.vsize_min, c.vsize_max);
            string nal; if (c.hevc) { nal += (char) (key ? 19 << 1 : 1 << 1); nal += '\1'; } else nal += (char) (key ? 0x65 : 0x41);
            nal += filler(n, fmt("V%d.%d.%d;", pub, p.seq, i)); be32(d, nal.size()); d += nal; p.nals.push_back(nal);
        }
        p.data = d; vn++; vts += 1000.0 / c.fps;
    } else {
        p.type = 8; p.ts = (uint32_t) ats; string d; d += (char) 0xaf; d += '\1'; string f = filler(rng.range(c.asize_min, c.asize_max), fmt("A%d.%d;", pub, p.seq)); d += f; p.nals = {f}; p.data = d; an++; ats += c.a_ms;
    }
    return p;
}

// ------------------------------------------------------------ http
string url_escape(const string &s) { string o; for (unsigned char c : s) if (isalnum(c) || strchr("-._~/", c)) o += (char) c; else o += fmt("%%%02X", c); return o; }
string url_decode(const string &s) { string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size() && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) { o += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; return o; }
map<string, string> query(const string &url) { map<string, string> m; size_t q = url.find('?'); if (q == string::npos) return m; for (auto &kv : split(url.substr(q + 1), '&')) { size_t e = kv.find('='); if (e == string::npos) m[kv]; else m[kv.substr(0, e)] = kv.substr(e + 1); } return m; }
void HttpParser::reset() { st = 0; status = 0; hdr.clear(); chunked = false; clen = -1; left = 0; body.clear(); done = false; headers_done = false; }
void HttpParser::bodydata(const char *d, size_t n) { if (on_body) on_body(d, n); else body.append(d, n); }
void HttpParser::feed(const char *d, size_t n) {
    if (bad) return;
    buf.append(d, n);
    for (;;) {
        if (done) { if (!req && !buf.empty()) { bad = true; why = "bytes after the end of the response: " + hex(buf); } return; }
        if (st == 0) {
            size_t e = buf.find("\r\n\r\n"); if (e == string::npos) { if (buf.size() > 65536) { bad = true; why = "no header end"; } return; }
            string h = buf.substr(0, e); buf.erase(0, e + 4); size_t l = h.find("\r\n"); line = h.substr(0, l);
            if (!req) { if (line.compare(0, 5, "HTTP/") != 0) { bad = true; why = "bad status line: " + hex(line); return; } size_t sp = line.find(' '); status = sp == string::npos ? 0 : atoi(line.c_str() + sp); }
            while (l != string::npos) { size_t s = l + 2, e2 = h.find("\r\n", s); string one = h.substr(s, e2 == string::npos ? string::npos : e2 - s); size_t c = one.find(':'); if (c != string::npos) { string k = one.substr(0, c); for (auto &x : k) x = tolower(x); size_t v = one.find_first_not_of(' ', c + 1); hdr[k] = v == string::npos ? "" : one.substr(v); } l = e2; }
            headers_done = true;
            chunked = hdr.count("transfer-encoding") && hdr["transfer-encoding"] == "chunked";
            if (hdr.count("content-length")) clen = atoll(hdr["content-length"].c_str());
            if (req && clen < 0 && !chunked) clen = 0;
            if (status == 304 || status == 204 || head_only) clen = 0, chunked = false;
            if (chunked) st = 2; else { st = 1; left = clen; if (clen == 0) { done = true; return; } }
        } else if (st == 1) {
            if (buf.empty()) return;
            size_t k = clen >= 0 ? std::min<size_t>(left, buf.size()) : buf.size(); string b = buf.substr(0, k); buf.erase(0, k); if (clen >= 0) left -= k; bodydata(b.data(), b.size());
            if (clen >= 0 && left == 0) done = true;
        } else if (st == 2) {
            size_t e = buf.find("\r\n"); if (e == string::npos) { if (buf.size() > 40) { bad = true; why = "bad chunk size line: " + hex(buf); } return; }
            string l = buf.substr(0, e); buf.erase(0, e + 2); if (l.empty() || l.find_first_not_of("0123456789abcdefABCDEF") != string::npos) { bad = true; why = "bad chunk size: '" + hex(l) + "'"; return; }
            left = strtoll(l.c_str(), 0, 16); st = left ? 3 : 5;
        } else if (st == 3) {
            if (buf.empty()) return;
            size_t k = std::min<size_t>(left, buf.size()); string b = buf.substr(0, k); buf.erase(0, k); left -= k; bodydata(b.data(), b.size()); if (!left) st = 4;
        } else if (st == 4) {
            if (buf.size() < 2) return;
            if (buf.compare(0, 2, "\r\n") != 0) { bad = true; why = "chunk not terminated"; return; } buf.erase(0, 2); st = 2;
        } else { if (buf.size() < 2) return; if (buf.compare(0, 2, "\r\n") != 0) { bad = true; why = "last chunk not terminated"; return; } buf.erase(0, 2); done = true; }
    }
}
void HttpParser::eof() { if (done || bad) return; if (headers_done && !chunked && clen < 0) done = true; }

HttpGet::HttpGet(World *w_, const string &ip, int port, const string &u, const LinkParam &lp, const string &from, bool http10, const string &host) : w(w_), url(u) {
    t_start = w->now;
    ac = w->connect(ip, port, from, lp);
    string req = "GET " + u + (http10 ? " HTTP/1.0" : " HTTP/1.1") + "\r\nHost: " + (host.empty() ? ip : host) + "\r\nConnection: close\r\n\r\n";
    p.on_body = [this](const char *d, size_t n) { if (on_body) on_body(d, n); else p.body.append(d, n); };
    auto fin = [this] { if (t_done < 0) { t_done = w->now; if (on_done) on_done(); } };
    ac->on_connected = [this, req] { ac->send(req); };
    ac->on_data = [this, fin](const char *d, size_t n) { p.feed(d, n); if (p.done) fin(); };
    ac->on_eof = [this, fin] { eof = true; dead = true; p.eof(); ac->close_now(); fin(); };
    ac->on_error = [this, fin](int) { conn_err = true; dead = true; fin(); };
}
HttpSrv::HttpSrv(World *w_, ActorConn *a) : w(w_), ac(a) {
    p.req = true;
    ac->on_data = [this](const char *d, size_t n) { p.feed(d, n); while (p.done && !dead) { if (on_req) on_req(this); p.reset(); if (p.buf.empty()) break; p.feed("", 0); } };
    ac->on_eof = [this] { dead = true; ac->close_now(); if (on_close) on_close(); };
    ac->on_error = [this](int) { dead = true; if (on_close) on_close(); };
}
void HttpSrv::reply(int status, const string &body, bool close, const string &extra, bool clen) {
    string r = fmt("HTTP/1.1 %d X\r\nServer: sim\r\n%s", status, extra.c_str()); if (clen) r += fmt("Content-Length: %zu\r\n", body.size()); r += fmt("Connection: %s\r\n\r\n", close ? "close" : "keep-alive"); ac->send(r + body); if (close) ac->close();
}

// ------------------------------------------------------------ flv
void FlvParser::feed(const char *d, size_t n) {
    if (bad) return;
    buf.append(d, n); size_t o = 0;
    for (;;) {
        if (!got_header) {
            if (buf.size() - o < 13) break;
            if (buf.compare(o, 3, "FLV") != 0 || buf[o + 3] != 1 || rd(buf, o + 5, 4) != 9 || rd(buf, o + 9, 4) != 0) { bad = true; why = "bad FLV header " + hex(buf.substr(o, 13)); return; }
            flags = (unsigned char) buf[o + 4]; o += 13; got_header = true; continue;
        }
        if (buf.size() - o < 11) break;
        int t = (unsigned char) buf[o]; uint32_t len = rd(buf, o + 1, 3), ts = rd(buf, o + 4, 3) | (uint32_t) (unsigned char) buf[o + 7] << 24;
        if (t != 8 && t != 9 && t != 18) { bad = true; why = fmt("tag %zu has type %d at offset %lu", tags, t, (unsigned long) (consumed + o)); return; }
        if (rd(buf, o + 8, 3) != 0) { bad = true; why = fmt("tag %zu has stream id %u", tags, rd(buf, o + 8, 3)); return; }
        if (buf.size() - o < 11 + (size_t) len + 4) break;
        uint32_t pt = rd(buf, o + 11 + len, 4);
        if (pt != len + 11) { bad = true; why = fmt("tag %zu of size %u is followed by previous-tag size %u", tags, len, pt); return; }
        FlvTag tag{t, ts, buf.substr(o + 11, len)}; o += 15 + len; tags++;
        if (on_tag) on_tag(tag);
    }
    consumed += o; buf.erase(0, o);
}

// ------------------------------------------------------------ ts
static uint32_t crc32_mpeg(const unsigned char *p, size_t n) { uint32_t c = 0xffffffff; while (n--) { c ^= (uint32_t) *p++ << 24; for (int i = 0; i < 8; i++) c = c & 0x80000000 ? c << 1 ^ 0x04c11db7 : c << 1; } return c; }
void TsParser::feed(const char *d, size_t n) { if (bad) return; buf.append(d, n); size_t o = 0; while (buf.size() - o >= 188 && !bad) { packet((const unsigned char *) buf.data() + o); o += 188; npkt++; } buf.erase(0, o); }
void TsParser::finish(int pid) { auto it = cur.find(pid); if (it == cur.end()) return; TsPes p = it->second; cur.erase(it); size_t wn = want[pid]; if (wn && p.data.size() != wn) { bad = true; why = fmt("PES on pid %d declares %zu bytes but carries %zu", pid, wn, p.data.size()); return; } p.bounded = wn != 0; if (on_pes) on_pes(p); }
void TsParser::flush() { vector<int> k; for (auto &c : cur) k.push_back(c.first); for (int p : k) finish(p); }
// ISO 13818-1 2.4.3.4: the optional fields the flags announce must fit, what is left is stuffing of 0xff
static bool adaptation_ok(const unsigned char *q, int l, string &why) {
    int fl = q[0], i = 1;
    if (fl & 0x10) i += 6;
    if (fl & 0x08) i += 6;
    if (fl & 0x04) i += 1;
    if (fl & 0x02) { if (i >= l) { why = "private data without a length"; return false; } i += 1 + q[i]; }
    if (fl & 0x01) { if (i >= l) { why = "extension without a length"; return false; } i += 1 + q[i]; }
    if (i > l) { why = fmt("flags %02x announce %d bytes of %d", fl, i, l); return false; }
    for (; i < l; i++) if (q[i] != 0xff) { why = fmt("stuffing byte %02x", q[i]); return false; }
    return true;
}
void TsParser::packet(const unsigned char *p) {
    auto err = [&](const string &s) { bad = true; why = fmt("packet %lu: ", (unsigned long) npkt) + s; };
    if (p[0] != 0x47) return err(fmt("sync byte %02x", p[0]));
    int pusi = p[1] >> 6 & 1, pid = (p[1] & 31) << 8 | p[2], afc = p[3] >> 4 & 3, c = p[3] & 15; int o = 4; bool rai = false, dis = false; int64_t pcr = -1; (void) pcr;
    if (p[1] & 0x80) return err("transport error indicator");
    if (pid == 0x1fff) return;
    if (afc & 2) { int l = p[4]; if (l > 183 || (afc == 3 && l > 182) ) return err(fmt("adaptation field length %d", l)); if (l) { rai = p[5] & 0x40; dis = p[5] & 0x80; string w; if (!adaptation_ok(p + 5, l, w)) return err("adaptation field: " + w); } o = 5 + l; }
    if (cc.count(pid)) { int e = (afc & 1) ? (cc[pid] + 1) & 15 : cc[pid]; if (c != e && !dis) { disc++; if (strict_cc) return err(fmt("continuity counter of pid %d jumps from %d to %d", pid, cc[pid], c)); } }
    cc[pid] = c;
    if (!(afc & 1)) return;
    const unsigned char *b = p + o; int n = 188 - o;
    if (pid == 0 || pid == pmt_pid) {
        if (!pusi) return; int ptr = b[0]; b += 1 + ptr; n -= 1 + ptr; if (n < 8) return err("short section");
        int sl = (b[1] & 15) << 8 | b[2]; if (sl + 3 > n) return err("section exceeds packet");
        if (crc32_mpeg(b, sl + 3) != 0) return err(pid ? "PMT CRC" : "PAT CRC");
        if (pid == 0) { if (b[0] != 0) return err("PAT table id"); pmt_pid = (b[10] & 31) << 8 | b[11]; pat = true; }
        else { if (b[0] != 2) return err("PMT table id"); int pil = (b[10] & 15) << 8 | b[11]; const unsigned char *q = b + 12 + pil, *e = b + 3 + sl - 4; map<int, int> ty; vpid = apid = -1;
            while (q + 5 <= e) { int t = q[0], pd = (q[1] & 31) << 8 | q[2], l = (q[3] & 15) << 8 | q[4]; ty[pd] = t; if (t == 0x1b || t == 0x24) vpid = pd; else apid = pd; q += 5 + l; } types = ty; pmt = true; }
        return;
    }
    if (!pmt) { if (need_tables_first) return err(fmt("pid %d before the program tables", pid)); }
    if (pusi) {
        finish(pid); if (bad) return;
        if (n < 9 || b[0] || b[1] || b[2] != 1) return err(fmt("pid %d: no PES start code", pid));
        TsPes s; s.pid = pid; s.stream_id = b[3]; s.pts = s.dts = -1; s.rai = rai; s.pkt = npkt; int plen = b[4] << 8 | b[5], hl = b[8], fl = b[7] >> 6;
        auto ts = [](const unsigned char *q) { return (int64_t) (q[0] >> 1 & 7) << 30 | (int64_t) q[1] << 22 | (int64_t) (q[2] >> 1) << 15 | q[3] << 7 | q[4] >> 1; };
        if (9 + hl > n) return err("PES header exceeds packet");
        if (fl & 2) { s.pts = s.dts = ts(b + 9); if (fl == 3) s.dts = ts(b + 14); }
        s.data.assign((const char *) b + 9 + hl, n - 9 - hl); want[pid] = plen ? plen - 3 - hl : 0; cur[pid] = s;
    } else { auto it = cur.find(pid); if (it == cur.end()) { if (started[pid]) return err(fmt("pid %d: payload outside a PES", pid)); return err(fmt("pid %d starts in the middle of a PES", pid)); } it->second.data.append((const char *) b, n); }
    started[pid] = true;
    if (want[pid] && cur[pid].data.size() == want[pid]) finish(pid);
    else if (want[pid] && cur[pid].data.size() > want[pid]) return err(fmt("PES on pid %d declares %zu bytes but carries %zu", pid, want[pid], cur[pid].data.size()));
}
vector<string> split_annexb(const string &d) {
    vector<string> v; size_t i = 0, n = d.size(), st = string::npos;
    while (i + 3 <= n) { if (!d[i] && !d[i + 1] && d[i + 2] == 1) { if (st != string::npos) { size_t e = i; if (e > st && d[e - 1] == 0) e--; v.push_back(d.substr(st, e - st)); } st = i + 3; i += 3; } else i++; }
    if (st != string::npos) v.push_back(d.substr(st));
    return v;
}
bool split_adts(const string &d, vector<AdtsFrame> &out, string &why) {
    size_t o = 0;
    while (o < d.size()) {
        if (d.size() - o < 7) { why = "short ADTS header"; return false; }
        const unsigned char *p = (const unsigned char *) d.data() + o; if (p[0] != 0xff || (p[1] & 0xf0) != 0xf0) { why = fmt("no ADTS sync at %zu: ", o) + hex(d.substr(o, 8)); return false; }
        int len = (p[3] & 3) << 11 | p[4] << 3 | p[5] >> 5, hl = p[1] & 1 ? 7 : 9; if (len < hl || o + len > d.size()) { why = fmt("ADTS length %d of %zu", len, d.size() - o); return false; }
        AdtsFrame f; f.obj = (p[2] >> 6) + 1; f.sr_idx = p[2] >> 2 & 15; f.ch = (p[2] & 1) << 2 | p[3] >> 6; f.data = d.substr(o + hl, len - hl); out.push_back(f); o += len;
    }
    return true;
}
// ------------------------------------------------------------ files
string read_file(const string &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return ""; string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
bool write_file(const string &p, const string &d) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return false; bool ok = fwrite(d.data(), 1, d.size(), f) == d.size(); fclose(f); return ok; }
bool exists(const string &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
vector<string> list_dir(const string &p) { vector<string> v; DIR *d = opendir(p.c_str()); if (!d) return v; while (auto e = readdir(d)) { string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(d); std::sort(v.begin(), v.end()); return v; }
vector<string> walk(const string &p) { vector<string> v; for (auto &n : list_dir(p)) { string f = p + "/" + n; struct stat s; if (lstat(f.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) { for (auto &x : walk(f)) v.push_back(x); } else v.push_back(f); } return v; }
vector<string> split(const string &s, char c) { vector<string> v; size_t b = 0; for (;;) { size_t e = s.find(c, b); v.push_back(s.substr(b, e == string::npos ? string::npos : e - b)); if (e == string::npos) break; b = e + 1; } return v; }
void rm_rf(const string &p) { if (p.find("/psim_") == string::npos) return; struct stat s; if (lstat(p.c_str(), &s) < 0) return; if (S_ISDIR(s.st_mode)) { for (auto &n : list_dir(p)) rm_rf(p + "/" + n); rmdir(p.c_str()); } else unlink(p.c_str()); }
