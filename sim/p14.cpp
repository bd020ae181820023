// P14: no peer can crash the server or disturb other sessions.
// Hostile peers on every listening port and on every outgoing connection, next to well-behaved sessions which are checked as usual.
#include "scn.h"
#include "gen.h"
#include <algorithm>

struct Evil {                    // one hostile connection
    Scn *s; World *w; Rng r; ActorConn *ac = nullptr; std::unique_ptr<Rtmp> rt; string kind, name; int left = 0; bool over = false; std::unique_ptr<MediaGen> gen; int pace = 20; bool server = false; int txn = 10; bool setup_ok = true, began = false; bool http = false; string app = "live";
    Evil(Scn *s_, uint64_t seed, const string &k, const string &nm, int n) : s(s_), w(&s_->w), r(seed), kind(k), name(nm), left(n) {}
    string junk(size_t n) { string o; for (size_t i = 0; i < n; i++) o += (char) r.next(); return o; }
    size_t len() { switch (r.below(12)) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return 3; case 4: return r.range(4, 16); case 5: return r.range(120, 136); case 6: return r.range(250, 260); case 7: return r.range(500, 1030); case 8: return r.range(4000, 4200); case 9: return r.range(8000, 70000); default: return r.below(200); } }
    string str() { switch (r.below(9)) { case 0: return ""; case 1: return string(len(), 'x'); case 2: return name; case 3: return name + "?" + string(len(), 'a'); case 4: return string(r.below(3) ? 255 + r.below(4) : 250 + r.below(20), 'n'); case 5: return junk(r.below(20)); case 6: return "../../" + name; case 7: return name + "?a=b&c=%00%ff&=&&" + name; default: return "e" + fmt("%d", (int) r.below(3)); } }
    string mutate(string d) {
        int n = 1 + (int) r.below(3);
        for (int i = 0; i < n; i++) { if (d.empty()) return junk(r.below(8)); size_t p = r.chance(0.5) ? r.below(std::min<size_t>(d.size(), 24)) : r.below(d.size()); switch (r.below(8)) {
            case 0: d[p] = (char) r.next(); break; case 1: d.resize(p); break; case 2: d.erase(p, 1 + r.below(4)); break; case 3: d.insert(p, junk(1 + r.below(4))); break; case 4: d[p] = (char) 0xff; break; case 5: d[p] = 0; break; case 6: d += junk(r.below(20)); break; default: d[p] ^= 1 << r.below(8); } }
        return d;
    }
    Amf amf(int depth = 0) {
        switch (r.below(depth > 3 ? 6 : 9)) { case 0: return Amf((double) (int64_t) r.range(-5, 70000)); case 1: return Amf::b(r.chance(0.5)); case 2: return Amf(str()); case 3: return Amf::null(); case 4: { Amf a; a.t = Amf::UNDEF; return a; } case 5: return Amf(1e300);
        default: { Amf a; a.t = r.chance(0.5) ? Amf::OBJ : r.chance(0.5) ? Amf::ECMA : Amf::ARR; int n = (int) r.below(5); static const char *keys[] = {"app", "tcUrl", "flashVer", "level", "code", "description", "name", "width", "audiocodecid", "videocodecid", "x", "objectEncoding", "duration", "audioCodecs", "swfUrl", "pageUrl"}; for (int i = 0; i < n; i++) if (a.t == Amf::ARR) a.a.push_back(amf(depth + 1)); else a.o.push_back({r.chance(0.9) ? keys[r.below(16)] : str(), amf(depth + 1)}); return a; } }
    }
    Amf connobj() { string tc = "rtmp://sim.test/" + app; Amf a = Amf::obj({{"app", r.chance(0.9) ? Amf(app) : amf()}, {"flashVer", r.chance(0.9) ? Amf("FMLE/3.0 x") : amf()}, {"tcUrl", r.chance(0.85) ? Amf(tc) : amf()}, {"objectEncoding", Amf(r.chance(0.9) ? 0 : 3)}}); if (r.chance(0.1)) a.o.erase(a.o.begin() + r.below(a.o.size())); if (r.chance(0.1)) a.o.push_back({str(), amf()}); return a; }
    void put(const string &d) { if (!over && ac && ac->c && !ac->closed) ac->send(d); }
    void msg(int csid, int type, uint32_t ts, uint32_t msid, const string &d) { Msg m; m.type = type; m.ts = ts; m.msid = msid; m.data = d; put(rt->wr.write(csid, m)); }
    void cmd(uint32_t msid, const vector<Amf> &v, int csid = 3) { string d; for (auto &a : v) amf_put(d, a); if (r.chance(0.12)) d = mutate(d); if (r.chance(0.05)) d = string(1, (char) 0) + d, msg(csid, 17, 0, msid, d); else msg(csid, 20, 0, msid, d); }
    // nesting deep enough to exhaust a stack
    string deep() { string b; int n = (int) r.pick<int>({50, 63, 64, 66, 1000, 60000, 200000}), k = (int) r.below(3); for (int i = 0; i < n; i++) b += k == 0 ? string("\x0a\0\0\0\x01", 5) : k == 1 ? string("\x03\0\x01x", 4) : string("\x08\0\0\0\x01\0\x01x", 8); return b; }
    struct Bits { string o; int n = 0; void put(uint64_t v, int b) { for (int i = b - 1; i >= 0; i--) { if (n % 8 == 0) o += '\0'; if (v >> i & 1) o.back() |= 0x80 >> (n % 8); n++; } } void ue(uint64_t v) { v++; int b = 0; while (v >> b) b++; put(0, b - 1); put(v, b); } };
    uint64_t big() { return r.pick<uint64_t>({0, 1, 3, 100, 255, 65535, 0xffffff, 0x7fffffff, 0xffffffffull}); }
    // sequence headers whose fields are taken from the edges
    string avc_evil() {
        Bits b; int prof = r.pick<int>({66, 77, 100, 244}); b.put(prof, 8); b.put(0, 8); b.put(30, 8); b.ue(0); if (prof >= 100) { b.ue(r.pick<int>({0, 1, 3})); b.ue(big()); b.ue(0); b.put(r.next(), 2); }
        b.ue(big()); int t = (int) r.below(3); b.ue(t); if (t == 0) b.ue(big()); if (t == 1) { b.put(1, 1); b.ue(big()); b.ue(big()); b.ue(r.chance(0.7) ? 0xfffffffeull : big()); } b.ue(big()); b.put(0, 1); b.ue(big()); b.ue(big()); b.put(r.next(), 1);
        string sps = "\x67" + b.o; string h("\x17\0\0\0\0\x01\x42\0\x1e", 9); h += (char) (0xfc | r.below(4)); h += (char) (0xe0 | (r.chance(0.8) ? 1 : r.below(32))); be16(h, r.chance(0.8) ? sps.size() : r.below(65536)); h += sps + (r.chance(0.5) ? junk(r.below(300)) : ""); h += (char) r.pick<int>({0, 1, 31, 255}); be16(h, r.pick<int>({0, 1, 4, 300, 65535})); h += "\x68" + junk(r.below(300)); return h;
    }
    string hevc_evil() {
        string h("\x1c\0\0\0\0\x01", 6); h += junk(20); h += (char) (0xfc | r.below(4)); h += (char) r.pick<int>({1, 3, 255}); int n = (int) r.range(1, 4);
        for (int i = 0; i < n; i++) { h += (char) r.pick<int>({32, 33, 33, 34, 39}); be16(h, r.pick<int>({1, 1, 2, 65535})); string u; u += (char) 0x42; u += '\x01'; u += junk(r.pick<size_t>({0, 10, 40, 3000, 5000, 20000})); if (r.chance(0.6)) for (auto &c : u) if (!c) c = 1; be16(h, r.chance(0.7) ? std::min<size_t>(u.size(), 65535) : r.below(65536)); h += u; }
        return h;
    }
    void media() {
        if (!gen) { MediaCfg c; c.fps = r.pick<int>({10, 25}); c.gop = r.pick<int>({1, 5, 25}); c.hevc = r.chance(0.2); c.bframes = r.chance(0.3); c.vsize_max = 3000; c.nals_max = 3; gen = std::make_unique<MediaGen>(c, r.next(), 900 + (int) r.below(50)); }
        int k = (int) r.below(20); uint32_t ts = gen->next_ts(); if (r.chance(0.02)) ts = (uint32_t) r.next();
        Pub m = k == 0 ? gen->avc_header(ts) : k == 1 ? gen->aac_header(ts) : k == 2 ? gen->meta(ts) : gen->next(); if (k > 2 && ts != gen->next_ts()) {}
        string d = m.data; int t = m.type; if (k > 2) ts = m.ts;
        if (r.chance(0.25)) d = mutate(d);
        if (r.chance(0.04)) { d = string(1, (char) r.next()) + (r.chance(0.5) ? string(1, (char) r.below(3)) : "") + junk(len()); }
        if (r.chance(0.01)) { t = 9; d = avc_evil(); }
        if (r.chance(0.01)) { t = 9; d = hevc_evil(); }
        if (r.chance(0.02) && !d.empty()) d.resize(std::min<size_t>(d.size(), r.below(7)));
        if (r.chance(0.02)) t = r.pick<int>({8, 9, 18, 15, 22});
        if (r.chance(0.03)) ts = r.pick<uint32_t>({0, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0xffffffffu});
        if (r.chance(0.005)) { string b = t == 9 ? string("\x17\x01\0\0\0", 5) : string("\xaf\x01", 2); b += junk(r.pick<size_t>({60000, 200000, 1100000})); d = b; }
        msg(t == 9 ? 6 : 4, t, ts, 1, d);
    }
    void step() {          // one message of the program, hostile or not
        if (over) return;
        switch (r.below(26)) {
        case 0: cmd(0, {"connect", 1, connobj()}); break;
        case 1: cmd(0, {"createStream", (double) txn++, Amf::null()}); break;
        case 2: cmd(r.chance(0.8) ? 1 : (uint32_t) r.below(40), {"publish", (double) txn++, Amf::null(), r.chance(0.7) ? name : str(), r.pick<string>({"live", "record", "append", "xyz", ""})}, 4); break;
        case 3: cmd(r.chance(0.8) ? 1 : (uint32_t) r.below(40), {"play", (double) txn++, Amf::null(), r.chance(0.5) ? fmt("s%d", (int) r.below(3)) : str(), (double) r.range(-3, 5), (double) r.range(-1, 5), Amf::b(true)}, 8); break;
        case 4: cmd(1, {r.pick<string>({"closeStream", "deleteStream", "FCUnpublish", "releaseStream", "FCPublish", "FCSubscribe", "play2", "seek", "pause", "pauseRaw", "receiveAudio", "receiveVideo", "getStreamLength", "checkBandwidth", "_result", "_error", "onStatus", "call", "@setDataFrame", "onMetaData", "close"}).c_str(), (double) txn++, Amf::null(), amf()}); break;
        case 5: cmd((uint32_t) r.below(3), {"onStatus", 0, Amf::null(), Amf::obj({{"level", r.chance(0.5) ? "status" : "error"}, {"code", r.chance(0.5) ? Amf(r.pick<string>({"NetStream.Publish.Start", "NetStream.Play.Start", "NetStream.Play.StreamNotFound", "NetStream.Publish.BadName", "NetStream.Play.UnpublishNotify"})) : amf()}})}); break;
        case 6: if (r.chance(0.2)) { string d; amf_put(d, Amf(r.pick<string>({"connect", "createStream", "publish", "x"}))); amf_put(d, Amf(1)); msg(3, 20, 0, 0, d + deep()); break; } else { vector<Amf> v; v.push_back(amf()); int n = (int) r.below(5); for (int i = 0; i < n; i++) v.push_back(amf()); cmd((uint32_t) r.below(3), v); break; }
        case 7: { string b; be32(b, r.pick<uint32_t>({0, 1, 2, 64, 127, 128, 129, 4096, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000u, 0xffffffffu})); msg(2, 1, 0, 0, b); uint32_t v = rd(b, 0, 4); if (v >= 1 && v <= 0x7fffffff && r.chance(0.9)) rt->wr.chunk = v; break; }
        case 8: { string b; be32(b, (uint32_t) r.below(12)); msg(2, 2, 0, 0, b); break; }
        case 9: { string b; be32(b, (uint32_t) r.next()); if (r.chance(0.3)) b.resize(r.below(5)); msg(2, r.pick<int>({3, 5, 6}), 0, 0, b + (r.chance(0.5) ? string(1, (char) r.below(4)) : "")); break; }
        case 10: { string b; be16(b, r.below(40)); be32(b, (uint32_t) r.below(4)); if (r.chance(0.5)) be32(b, (uint32_t) r.next()); if (r.chance(0.3)) b.resize(r.below(b.size())); msg(2, 4, 0, 0, b); break; }
        case 11: msg((int) r.range(2, 70), (int) r.below(256), (uint32_t) r.next(), (uint32_t) r.below(4), junk(len())); break;
        case 12: { string b; int f = (int) r.below(4), cs = r.chance(0.7) ? (int) r.below(64) : 0; b += (char) (f << 6 | cs); if (cs == 0) b += (char) r.next(); if (cs == 1) b += junk(2); if (f < 3) be24(b, r.chance(0.2) ? 0xffffff : (uint32_t) r.below(1000)); if (f < 2) { be24(b, r.pick<uint32_t>({0, 1, 100, 70000, 1000000, 0xffffff})); b += (char) r.pick<int>({8, 9, 18, 20, 1, 2, 3, 4, 5, 6, 22}); } if (f == 0) le32(b, 1); put(b + junk(r.below(300))); break; }     // a raw chunk header
        case 13: if (r.chance(0.3)) put(junk(len())); break;
        case 14: { string b; for (int i = 0; i < (int) r.below(5); i++) { b += (char) r.pick<int>({8, 9, 18}); be24(b, r.chance(0.7) ? 20 : (uint32_t) r.next() & 0xffffff); be24(b, 0); b += '\0'; be24(b, 0); b += junk(20); be32(b, r.chance(0.7) ? 31 : (uint32_t) r.next()); } msg(4, 22, 0, 1, b); break; }
        case 15: { string b; amf_put(b, Amf(r.pick<string>({"@setDataFrame", "onMetaData", "onTextData", "onCuePoint"}))); if (r.chance(0.15)) b += deep(); else amf_put(b, amf()); if (r.chance(0.5)) amf_put(b, amf()); msg(5, r.pick<int>({18, 18, 15}), 0, 1, r.chance(0.3) ? mutate(b) : b); break; }
        default: media();
        }
    }
    void bye() {
        if (over) return;
        over = true; if (!ac || !ac->c) return;
        switch (r.below(4)) { case 0: ac->close(); break; case 1: ac->close_now(); break; case 2: ac->reset(); break; default: ac->close(); }
    }
    void next() {
        if (over || (rt && rt->dead)) { over = true; return; }
        if (--left < 0) { bye(); return; }
        int burst = r.chance(0.2) ? (int) r.range(2, 10) : 1; for (int i = 0; i < burst; i++) step();
        w->after(r.range(0, pace * 2) * MS + 1, [this] { next(); });
    }
    void hook() {
        rt->auto_ack = r.chance(0.5); rt->auto_pong = r.chance(0.5); rt->wr.rng = Rng(r.next()); rt->wr.compress = (int) r.below(3);
        rt->on_dead = [this](const string &) { over = true; };
    }
    // a client of the RTMP port
    void client(const string &ip, int port, const LinkParam &lp) {
        ac = w->connect(ip, port, fmt("10.6.%d.%d", (int) r.below(3), 1 + (int) r.below(200)), lp); pace = r.pick<int>({0, 2, 20, 100});
        if (kind == "noise") { ac->on_connected = [this] { noise(); }; ac->on_error = [this](int) { over = true; }; return; }
        if (kind == "hs") {
            ac->on_error = [this](int) { over = true; };
            ac->on_connected = [this] { string h; h += (char) (r.chance(0.7) ? 3 : r.next()); be32(h, r.chance(0.5) ? 0 : (uint32_t) r.next()); be32(h, r.chance(0.5) ? 0 : r.pick<uint32_t>({0x80000702u, 0x09007c02, 0x0c000d0e, 0xffffffffu})); h += junk(1528); if (r.chance(0.3)) h = mutate(h); if (r.chance(0.3)) h.resize(r.below(h.size())); put(h); w->after(r.below(300) * MS, [this] { put(junk(r.chance(0.5) ? 1536 : r.below(4000))); w->after(r.below(300) * MS, [this] { bye(); }); }); };
            return;
        }
        rt = std::make_unique<Rtmp>(w, ac, false); hook();
        rt->on_ready = [this] {
            if (kind == "cmd") { if (r.chance(0.5)) cmd0(); next(); return; }
            // "pub": gets as far as publishing, then sends hostile media
            string d; for (auto &a : vector<Amf>{"connect", 1, Amf::obj({{"app", Amf(app)}, {"tcUrl", Amf("rtmp://sim.test/" + app)}, {"flashVer", "FMLE/3.0 x"}})}) amf_put(d, a);
            msg(3, 20, 0, 0, d); d.clear(); for (auto &a : vector<Amf>{"createStream", 2, Amf::null()}) amf_put(d, a);
            msg(3, 20, 0, 0, d); d.clear(); for (auto &a : vector<Amf>{"publish", 3, Amf::null(), name, "live"}) amf_put(d, a);
            msg(4, 20, 0, 1, d);
            w->after(50 * MS, [this] { pump(); });
        };
    }
    void cmd0() { string d; for (auto &a : vector<Amf>{"connect", 1, Amf::obj({{"app", Amf(app)}, {"tcUrl", Amf("rtmp://sim.test/" + app)}, {"flashVer", "FMLE/3.0 x"}})}) amf_put(d, a); msg(3, 20, 0, 0, d); }
    void pump() {
        if (over || rt->dead) { over = true; return; }
        if (--left < 0) { bye(); return; }
        if (!gen && r.chance(0.8)) { media(); if (!over) { Pub v = gen->avc_header(gen->next_ts()), a = gen->aac_header(gen->next_ts()); msg(6, 9, v.ts, 1, r.chance(0.7) ? v.data : mutate(v.data)); msg(4, 8, a.ts, 1, r.chance(0.7) ? a.data : mutate(a.data)); } }
        int n = (int) r.range(1, 8); for (int i = 0; i < n; i++) media();
        if (r.chance(0.02)) step();
        w->after(r.range(1, pace * 2 + 2) * MS, [this] { pump(); });
    }
    void noise() { if (over) return; if (--left < 0) { bye(); return; } put(junk(len())); w->after(r.below(40) * MS, [this] { noise(); }); }
    // an HTTP client
    string url() {
        static const vector<string> base = {"/flv/", "/ts/", "/hlsp/", "/hls/", "/rtmp_stat", "/sys_stat", "/control/", "/ctl", "/tsup/", "/dash/", "/"};
        string u = r.pick(base); if (u == "/control/") u += r.pick<string>({"record/start", "record/stop", "drop/publisher", "drop/subscriber", "drop/client", "redirect/publisher", "reload", "", "record", "drop/", "redirect/client"});
        else if (u.back() == '/') { u += r.chance(0.6) ? r.pick<string>({"s0", "s1", "e0", "e1", name}) : str(); u += r.pick<string>({".flv", ".ts", ".m3u8", "", ".", ".flvx"}); }
        if (r.chance(0.6)) { u += "?"; int n = (int) r.below(5); static const vector<string> k = {"app", "name", "srv", "addr", "clientid", "rec", "newname", "session", "vhost", "domain", "_flv", "start", "uid", "sid", "id", "buflen", "onlyaudio", "idx", "server", "stream"}; for (int i = 0; i < n; i++) u += (i ? "&" : "") + r.pick(k) + (r.chance(0.9) ? "=" : "") + (r.chance(0.4) ? r.pick<string>({"live", "s0x", "e0", "0", "1", "99999999999", "-1", "r1", "sim.test"}) : str()); }
        if (r.chance(0.06)) u = r.pick<string>({"/hlsp/", "/hlsp/", "/flv/", "/ts/"}) + (r.chance(0.5) ? "s0" : string(r.range(200, 1500), 'n')) + r.pick<string>({".m3u8", ".m3u8", "-0.ts", ".flv", ".ts"}) + "?session=" + string(r.range(1, 700), 's') + (r.chance(0.3) ? "&x=" + string(len(), 'y') : "");   // longer than the names the server has room for
        string o; for (char c : u) if (c == ' ' || c == '\r' || c == '\n' || (unsigned char) c < 32 || (unsigned char) c > 126) o += fmt("%%%02x", (unsigned char) c); else o += c;
        return o;
    }
    void hclient(const string &ip, int port, const LinkParam &lp) {
        http = true; ac = w->connect(ip, port, fmt("10.6.9.%d", 1 + (int) r.below(200)), lp); ac->on_error = [this](int) { over = true; }; ac->on_eof = [this] { over = true; ac->close_now(); };
        ac->on_connected = [this] { hreq(); };
    }
    void hreq() {
        if (over) return;
        if (--left < 0) { bye(); return; }
        string u = url(); if (u.find("/control/drop") == 0 || u.find("/control/redirect") == 0) { size_t q = u.find('?'); u = u.substr(0, q) + "?app=live&name=e" + fmt("%d", (int) r.below(3)) + (q == string::npos ? "" : "&" + u.substr(q + 1)); }     // an operator's commands, never about the bystanders
        string q = r.pick<string>({"GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "X"}) + " " + u + r.pick<string>({" HTTP/1.1", " HTTP/1.1", " HTTP/1.0", ""}) + "\r\n"; if (r.chance(0.9)) q += "Host: " + r.pick<string>({"sim.test", "x", "", "a:b:c", string(300, 'h')}) + "\r\n";
        string body = r.chance(0.3) ? junk(len()) : ""; if (!body.empty() || r.chance(0.1)) q += r.chance(0.5) ? fmt("Content-Length: %zu\r\n", body.size() + (r.chance(0.2) ? 5 : 0)) : "Transfer-Encoding: chunked\r\n"; if (r.chance(0.2)) q += "Range: bytes=0-5\r\n"; if (r.chance(0.2)) q += "X-Y: " + string(len() % 3000, 'y') + "\r\n"; q += "\r\n" + body;
        if (u.find("/tsup/") == 0 && r.chance(0.7)) { q = "POST " + u + " HTTP/1.1\r\nHost: x\r\nContent-Length: 100000000\r\n\r\n"; for (int i = 0; i < (int) r.range(1, 40); i++) { string p = junk(188); p[0] = 0x47; if (r.chance(0.7)) { p[1] = (char) (0x40 | r.below(2)); p[2] = r.chance(0.4) ? 0 : (char) r.below(4); p[3] = (char) (0x10 | r.below(48)); p[4] = (char) r.below(4); p[5] = (char) r.pick<int>({0, 2, 0}); p[6] = (char) (0xb0 | r.below(4)); p[7] = (char) r.next(); } q += p; } if (r.chance(0.3)) q = q.substr(0, 100) + mutate(q.substr(100)); }
        if (r.chance(0.15)) q = mutate(q);
        if (r.chance(0.1)) q.resize(r.below(q.size() + 1));
        put(q);
        w->after(r.range(1, 600) * MS, [this] { if (r.chance(0.5)) hreq(); else bye(); });
    }
    // a server the server connects to
    void serve(ActorConn *a) {
        ac = a; a->on_error = [this](int) { over = true; }; a->on_eof = [this] { over = true; ac->close_now(); };
        pace = r.pick<int>({0, 2, 20});
        if (kind == "rtmpsrv") {
            rt = std::make_unique<Rtmp>(w, a, true); hook();
            if (r.chance(0.15)) { a->on_data = [this](const char *, size_t) { if (!began) { began = true; left = std::min(left, 6); noise(); } }; return; }
            rt->on_ready = [this] { if (r.chance(0.3)) next(); };
            rt->on_msg = [this](Msg &m) {
                if (m.type != 20 || over) return;
                vector<Amf> v = amf_all(m.data); if (v.size() < 2) return;
                if (r.chance(0.2)) { step(); return; }
                if (v[0].s == "connect") cmd(0, {r.chance(0.9) ? "_result" : "_error", r.chance(0.9) ? v[1] : amf(), Amf::obj({{"fmsVer", "FMS/3,0"}}), Amf::obj({{"level", r.chance(0.9) ? "status" : "error"}, {"code", "NetConnection.Connect.Success"}})});
                else if (v[0].s == "createStream") cmd(0, {"_result", r.chance(0.9) ? v[1] : amf(), Amf::null(), r.chance(0.8) ? Amf(1) : amf()});
                else if (v[0].s == "publish" || v[0].s == "play") { cmd(1, {"onStatus", 0, Amf::null(), Amf::obj({{"level", r.chance(0.8) ? "status" : "error"}, {"code", v[0].s == "play" ? "NetStream.Play.Start" : "NetStream.Publish.Start"}})}); if (!began) { began = true; if (v[0].s == "play") pump(); else next(); } }
            };
        } else {        // answers HTTP requests
            a->on_data = [this](const char *, size_t) {
                if (over) return;
                w->after(r.pick<int64_t>({0, 0, 5, 300, 3000}) * MS, [this] {
                    string body = r.chance(0.3) ? junk(len()) : r.chance(0.5) ? "{\"a\":1}" : str(), h = fmt("HTTP/1.%d %d X\r\n", (int) r.below(2), r.pick<int>({200, 200, 200, 204, 301, 302, 302, 404, 500, 99, 100, 1000}));
                    if (r.chance(0.3)) h += "Location: " + r.pick<string>({"rtmp://10.8.0.1/live/z", "e2", "", "http://x/y", "rtmp://", string(500, 'l'), "rtmp://[::1", "../x?y=z"}) + "\r\n";
                    if (r.chance(0.3)) h += "X-Rtmp-" + str() + ": v\r\n";
                    int m = (int) r.below(4); if (m == 0) h += fmt("Content-Length: %zu\r\n\r\n", body.size()) + body; else if (m == 1) h += "Transfer-Encoding: chunked\r\n\r\n" + fmt("%zx\r\n", r.chance(0.8) ? body.size() : (size_t) r.next()) + body + "\r\n0\r\n\r\n"; else if (m == 2) h += "Connection: close\r\n\r\n" + body; else h += "Content-Length: " + r.pick<string>({"-1", "99999999999999999999", "x", "5"}) + "\r\n\r\n" + body;
                    if (r.chance(0.3)) h = mutate(h);
                    if (r.chance(0.1)) h = junk(len());
                    put(h); if (r.chance(0.7)) w->after(r.below(50) * MS, [this] { bye(); });
                });
            };
        }
    }
};

struct P14 : Scn {
    using Scn::Scn; vector<std::unique_ptr<Evil>> ev; int nsrv = 0; string body_;
    void setup() override {
        w.listen("10.8.0.1", 1935, [this](ActorConn *a) { w.fault("hostile RTMP server"); ev.push_back(std::make_unique<Evil>(this, hmix(pl.seed * 31, nsrv++), "rtmpsrv", "e0", 60)); ev.back()->serve(a); });
        w.listen("10.8.0.2", 80, [this](ActorConn *a) { w.fault("hostile HTTP server"); ev.push_back(std::make_unique<Evil>(this, hmix(pl.seed * 37, nsrv++), "httpsrv", "e0", 60)); ev.back()->serve(a); });
    }
    bool apply(const Op &o) override {
        if (o.verb != "evil") return Scn::apply(o);
        string k = o.s("kind"); ev.push_back(std::make_unique<Evil>(this, hmix(pl.seed * 41, o.id), k, o.s("name", "e0"), (int) o.n("n", 50))); ev.back()->app = o.s("app", "live"); w.fault("hostile peer: " + k); stat["hostile connections"]++;
        if (k == "http") ev.back()->hclient(nodes[0].ip, port_http, link(o)); else ev.back()->client(nodes[0].ip, port_rtmp, link(o));
        return true;
    }
    void finish() override {
        for (auto &e : ev) { if (e->ac) stat["hostile bytes"] += e->ac->sent; }
        // a server that is still alive answers, and new sessions work
        for (auto &q : pubs) { if (q->t_dead >= 0 && q->t_stop < 0 && !q->rejected) bad("a publisher which did nothing wrong was disconnected", q->id + ": " + q->dead_why); if (q->t_start < 0 && q->t_conn < pl.end - 8 * SEC && q->st < 2) bad("a publisher which did nothing wrong was not served", q->id); }
        for (auto &p : plays) if (p->name[0] == 's' && p->kind == "rtmp") {
            AvOpt o; bool cache = pl.kn.count("app.cache_time"); o.gop = cache; if (cache && pl.k("app.send_all") != "on") o.no_loss = false; o.check_end = o.ts_exact = !cache; check_av(*this, *p, o); stat["bystanders checked"]++;
            if (p->t_dead >= 0 && p->t_stop < 0) bad("a player which did nothing wrong was disconnected", p->id + ": " + p->dead_why);
        }
    }
};
static void gen14(Plan &p, Rng &r) {
    g_common(p, r); g_live_conf(p, r); p.set("rtmp.out_queue", 4096);
    p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }"); p.set("loc.location#ts", "/ts { ts_live 1935 app=live; }"); p.set("loc.location#ctl", "/control { rtmp_control all; }");
    p.set("loc.location#hlsp", "/hlsp { hls2_live 1935 app=live; }"); if (r.chance(0.5)) p.set("app.hls2fragment", "1s");
    for (auto &k : {"app.hls2fragment"}) p.kn.erase(k);
    if (r.chance(0.5)) p.set("loc.location#tsup", "/tsup { ts; client_max_body_size 0; }");
    if (r.chance(0.5)) p.set("app.cache_time", r.pick<string>({"1s", "5s"}));
    if (r.chance(0.8)) p.set("app.mpegts_cache_time", r.pick<string>({"1s", "5s"}));
    g_disk(p, r, 0.4);
    // an application of its own for relaying from and to hostile servers, and for asking hostile callback servers: what these answer concerns its sessions only
    bool rel = r.chance(0.5);
    if (rel) {
        p.set("sim.apps", "live,rel"); vector<std::pair<string, string>> mv; for (auto &k : p.kn) if (k.first.find("app.hls") == 0 || k.first.find("app.dash") == 0) mv.push_back(k);
        for (auto &k : mv) { p.kn.erase(k.first); p.set("app_live." + k.first.substr(4), k.second); }
        if (r.chance(0.5)) p.set("app_rel.push#1", "rtmp://10.8.0.1/live app=live");
        if (r.chance(0.5)) p.set("app_rel.pull#1", r.chance(0.6) ? "rtmp://10.8.0.1/live app=live" : "http://10.8.0.2/x app=live");
        for (auto &k : {"on_publish", "on_play", "on_pull", "on_push", "on_meta"}) if (r.chance(0.25)) { string c = k; p.set("app_rel." + c, "http://10.8.0.2/cb" + string(c == "on_meta" ? "" : r.chance(0.5) ? " stage=start,update,done update=500ms" : "")); }
    }
    us_t end = r.range(4, 8) * SEC; int np = 0, nv = 0;
    for (int s = 0; s < (int) r.range(1, 2); s++) {
        string name = fmt("s%d", s); Op &o = p.op(r.range(20, 400) * MS, "pub"); o.set("id", fmt("p%d", np++)).set("name", name); g_media(o, r, p); g_link(o, r, &p); o.kv.erase("ts0");
        for (int i = 0; i < (int) r.range(1, 3); i++) { Op &v = p.op(r.range(1500, end / MS) * MS, "play"); v.set("id", fmt("v%d", nv++)).set("name", name); g_link(v, r, &p); }
    }
    { Op &v = p.op(end, "play"); v.set("id", "vlast").set("name", "s0"); }
    int n = (int) r.range(2, 10);
    for (int i = 0; i < n; i++) {
        Op &o = p.op(r.range(1500, end / MS) * MS, "evil"); string k = r.pick<string>({"pub", "pub", "pub", "cmd", "cmd", "http", "http", "hs", "noise"}); if (rel && r.chance(0.6)) o.set("app", "rel"); o.set("kind", k).set("n", k == "http" ? r.range(1, 8) : r.range(1, 120)).set("name", fmt("e%d", (int) r.below(3))); g_link(o, r, nullptr);
        if (k == "pub") for (int j = 0; j < (int) r.below(3); j++) { Op &v = p.op(o.t + r.range(-200, 1500) * MS, "play"); v.set("id", fmt("w%d", nv++)).set("name", o.s("name")); string kd = r.pick<string>({"rtmp", "flv", "ts"}); if (kd != "rtmp") v.set("kind", kd); g_link(v, r, nullptr); if (r.chance(0.5)) p.op(v.t + r.range(100, 2000) * MS, "unplay").set("id", v.s("id")).set("mode", "close"); }
    }
    for (auto &o : p.ops) { o.kv.erase("cap0"); o.kv.erase("cap1"); if (o.t < 0) o.t = 0; }
    if (r.chance(0.5)) p.op(end / 2, "get").set("url", "/rtmp_stat");
    p.end = end + 6 * SEC;
}
static PropReg reg("P14", gen14, make_scn<P14>);
