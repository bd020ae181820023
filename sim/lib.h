// Protocol models used by the actors: AMF0, RTMP, HTTP, FLV, MPEG-TS, media generation.
#pragma once
#include "core.h"

// ---- byte helpers
inline void be16(string &s, uint32_t v) { s += (char) (v >> 8); s += (char) v; }
inline void be24(string &s, uint32_t v) { s += (char) (v >> 16); be16(s, v); }
inline void be32(string &s, uint32_t v) { be16(s, v >> 16); be16(s, v & 0xffff); }
inline void le32(string &s, uint32_t v) { for (int i = 0; i < 4; i++) s += (char) (v >> (8 * i)); }
inline uint32_t rd(const string &s, size_t o, int n) { uint32_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char) s[o + i]; return v; }
string hex(const string &s, size_t max = 40);

// ---- AMF0
struct Amf {
    enum T { NUM, BOOL, STR, OBJ, NUL, UNDEF, ECMA, ARR } t = NUL;
    double n = 0; string s; vector<std::pair<string, Amf>> o; vector<Amf> a;
    Amf() {} Amf(double d) : t(NUM), n(d) {} Amf(int d) : t(NUM), n(d) {} Amf(const string &x) : t(STR), s(x) {} Amf(const char *x) : t(STR), s(x) {}
    static Amf null() { return Amf(); } static Amf b(bool v) { Amf a; a.t = BOOL; a.n = v; return a; }
    static Amf obj(std::initializer_list<std::pair<string, Amf>> l, bool ecma = false) { Amf a; a.t = ecma ? ECMA : OBJ; for (auto &p : l) a.o.push_back(p); return a; }
    const Amf *get(const string &k) const { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
    string str(const string &k) const { auto p = get(k); return p ? p->s : ""; }
};
void amf_put(string &o, const Amf &a);
bool amf_get(const string &d, size_t &off, Amf &a, int depth = 0);
vector<Amf> amf_all(const string &d);

// ---- RTMP chunks
struct Msg { int type = 0; uint32_t ts = 0, msid = 0; string data; int csid = 0; };

struct ChunkReader {
    struct St { uint32_t ts = 0, delta = 0, len = 0, msid = 0; int type = 0; string part; bool ext = false; };
    map<int, St> st; size_t chunk = 128; string buf; bool bad = false; string why;
    std::function<void(Msg &)> on_msg;
    void feed(const char *d, size_t n);
};

struct ChunkWriter {
    struct St { bool have = false; uint32_t ts = 0, delta = 0, len = 0, msid = 0; int type = 0; bool ext = false; };
    map<int, St> st; size_t chunk = 128;
    int compress = 0;               // 0: fmt0 only, 1: best, 2: random by rng
    bool ext_in_fmt3 = true;
    Rng rng; ChunkWriter() : rng(1) {}
    string head(int csid, const Msg &m);
    string write(int csid, const Msg &m);
    // several messages with their chunks interleaved
    string interleave(vector<std::pair<int, Msg>> ms);
    vector<string> chunks(int csid, const Msg &m);
};

// An RTMP peer on an actor connection, either role.
struct Rtmp {
    World *w; ActorConn *ac; bool server = false;
    ChunkReader rd; ChunkWriter wr; string hs; string preamble; int hstate = 0; bool ready = false; bool dead = false; string dead_why;
    us_t t_dead = -1;
    string hsbuf; uint32_t ack_win = 0; uint64_t in_bytes = 0, last_ack = 0; bool auto_ack = true, auto_pong = true;
    Rng rng;
    std::function<void()> on_ready; std::function<void(Msg &)> on_msg; std::function<void(const string &)> on_dead;
    Rtmp(World *w_, ActorConn *a, bool srv);
    void raw(const string &d) { if (!dead) ac->send(d); }
    void msg(int csid, int type, uint32_t ts, uint32_t msid, const string &d);
    void cmd(uint32_t msid, const vector<Amf> &v, int csid = 3);
    void set_chunk(uint32_t n);
    void user(int ev, uint32_t a, int64_t b = -1);
    void down(const string &why);
    void feed(const char *d, size_t n);
};

// ---- media
struct Pub {                        // one published message
    int type; uint32_t ts; string data; bool key = false, hdr = false; us_t t_sent = 0; int pub = 0; int seq = 0; int cts = 0;
    vector<string> nals;            // elementary content (video) or raw frame in nals[0] (audio)
    int epoch = 0;                  // codec configuration number
    bool meta = false;
};

struct MediaCfg {
    bool video = true, audio = true, hevc = false; int fps = 25, gop = 25; int vsize_min = 40, vsize_max = 1500; double big = 0.05; int big_max = 40000;
    double edge = 0; int asize_min = 10, asize_max = 300; bool bframes = false; uint32_t ts0 = 0; int a_ms = 23; int nals_max = 1; int sr_idx = 4, ch = 2; int a_skew = 0;   // audio is sent this much later than video of the same time
};

// Generates a deterministic sequence of messages; pub distinguishes publishers.
struct MediaGen {
    MediaCfg c; Rng rng; int pub; int epoch = 0; int seq = 0; uint32_t vn = 0, an = 0; double vts, ats; bool need_key = true;
    MediaGen(const MediaCfg &c_, uint64_t seed, int pub_) : c(c_), rng(seed), pub(pub_) { vts = ats = c.ts0; }
    Pub meta(uint32_t ts = 0); Pub avc_header(uint32_t ts); Pub aac_header(uint32_t ts);
    Pub next();                      // the next coded frame in timestamp order
    uint32_t next_ts() const;
    string filler(size_t n, const string &id);
};
string avc_sps(int variant); string avc_pps(int variant);

// ---- HTTP
struct HttpParser {                  // responses (or requests when req)
    bool req = false; string buf; int st = 0; int status = 0; string line; map<string, string> hdr; bool chunked = false; int64_t clen = -1; int64_t left = 0;
    string body; bool done = false, bad = false, headers_done = false; string why; bool head_only = false;
    std::function<void(const char *, size_t)> on_body;
    void feed(const char *d, size_t n); void eof(); void reset();
    void bodydata(const char *d, size_t n);
};
string url_decode(const string &s);
string url_escape(const string &s);
map<string, string> query(const string &url);

struct HttpGet {                     // a GET in progress on its own connection
    World *w; ActorConn *ac; HttpParser p; bool dead = false, eof = false, conn_err = false; us_t t_done = -1, t_start = 0; string url;
    std::function<void()> on_done; std::function<void(const char *, size_t)> on_body;
    HttpGet(World *w, const string &ip, int port, const string &url, const LinkParam &lp, const string &from = "10.1.0.1", bool http10 = false, const string &host = "");
};
struct HttpSrv {                     // one connection accepted by a model HTTP server
    World *w; ActorConn *ac; HttpParser p;
    std::function<void(HttpSrv *)> on_req; bool dead = false; std::function<void()> on_close;
    HttpSrv(World *w, ActorConn *a);
    void reply(int status, const string &body, bool close = true, const string &extra = "", bool clen = true);
};

// ---- FLV
struct FlvTag { int type; uint32_t ts; string data; };
struct FlvParser {
    string buf; bool got_header = false, bad = false; string why; int flags = 0; uint32_t prev = 0; bool first = true; size_t tags = 0; bool check_prev = true; uint64_t consumed = 0;
    std::function<void(FlvTag &)> on_tag;
    void feed(const char *d, size_t n);
};

// ---- MPEG-TS
struct TsPes { int pid; int stream_id; int64_t pts, dts; string data; bool rai = false; uint64_t pkt = 0; us_t t = 0; bool bounded = false; };
struct TsParser {
    string buf; bool bad = false; string why; bool pat = false, pmt = false; int pmt_pid = -1; map<int, int> types; // pid -> stream type
    map<int, int> cc; map<int, TsPes> cur; map<int, size_t> want; uint64_t npkt = 0; bool aligned_start = true;
    std::function<void(TsPes &)> on_pes;
    map<int, bool> started; bool strict_cc = true; int disc = 0; int vpid = -1, apid = -1; bool need_tables_first = true;
    void feed(const char *d, size_t n); void flush();
    void packet(const unsigned char *p); void finish(int pid);
};
vector<string> split_annexb(const string &d);
struct AdtsFrame { int sr_idx, ch, obj; string data; };
bool split_adts(const string &d, vector<AdtsFrame> &out, string &why);
string read_file(const string &p); bool write_file(const string &p, const string &d); bool exists(const string &p);
vector<string> list_dir(const string &p); vector<string> split(const string &s, char c); vector<string> walk(const string &p);
void rm_rf(const string &p);         // only below the scratch directory
