// Plans, the scenario driver and the entities shared by all scenarios.
#pragma once
#include "lib.h"

struct Op {
    us_t t = 0; int id = 0; string verb; map<string, string> kv;
    string s(const string &k, const string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    int64_t n(const string &k, int64_t d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atoll(i->second.c_str()); }
    double f(const string &k, double d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atof(i->second.c_str()); }
    bool has(const string &k) const { return kv.count(k); }
    Op &set(const string &k, const string &v) { kv[k] = v; return *this; }
    Op &set(const string &k, int64_t v) { kv[k] = fmt("%ld", (long) v); return *this; }
    string text() const;
};

struct Plan {
    string prop; uint64_t seed = 0; us_t end = 10 * SEC;
    map<string, string> kn;             // knobs: "rtmp.x", "app.x", "http.x", "sim.x"
    vector<Op> ops; int next_id = 1;
    Op &op(us_t t, const string &verb) { Op o; o.t = t; o.verb = verb; o.id = next_id++; ops.push_back(o); return ops.back(); }
    string text() const; static bool parse(const string &s, Plan &p, string &err);
    string k(const string &n, const string &d = "") const { auto i = kn.find(n); return i == kn.end() ? d : i->second; }
    int64_t kn_(const string &n, int64_t d = 0) const { auto i = kn.find(n); return i == kn.end() ? d : atoll(i->second.c_str()); }
    void set(const string &n, const string &v) { if (n.find(" ") != string::npos) abort(); kn[n] = v; }
    void set(const string &n, int64_t v) { kn[n] = fmt("%ld", (long) v); }
};

struct Scn;
struct PubS {                            // a publisher
    Scn *sc; string id, name, app, args; int node = 0; MediaCfg mc; std::unique_ptr<MediaGen> gen; ActorConn *ac = nullptr; std::unique_ptr<Rtmp> r;
    int st = 0;                          // 0 connecting, 1 publishing, 2 stopped by us, 3 dead
    us_t t_conn = -1, t_pubreq = -1, t_start = -1, t_stop = -1, t_dead = -1, media0 = -1; string stop_mode, dead_why; bool rejected = false, eager = false, nometa = false, nohdr = false;
    vector<Pub> sent; vector<std::pair<us_t, string>> status; double speed = 1; us_t batch = 0; us_t limit = -1; bool paused = false; int order = 0; double drift_ms = 0;
    bool hdr_pending = false; int n_epochs = 1; string ip; uint64_t gen_seed = 1; us_t burst_ms = 0; string flash; bool interleave = false; int cs[3] = {6, 4, 5}; vector<std::pair<int, Msg>> pend; string tcurl; int started_idx = -1;
    bool graceful() const { return stop_mode == "unpub" || stop_mode == "close" || stop_mode == "fcunpub" || stop_mode == "closestream"; }
};
struct Recv { int type; uint32_t ts; us_t t; int pub = -1, idx = -1; bool hdr = false; size_t len = 0; bool empty = false; };
struct PlayS {                           // a player of any kind
    Scn *sc; string id, kind, name, app, args; int node = 0; ActorConn *ac = nullptr; std::unique_ptr<Rtmp> r; std::unique_ptr<HttpGet> h; FlvParser flv; TsParser ts;
    int st = 0;                          // 0 connecting, 1 playing, 2 stopped by us, 3 dead (server side end)
    us_t t_conn = -1, t_req = -1, t_start = -1, t_stop = -1, t_dead = -1; string stop_mode, dead_why; int order = 0;
    vector<Recv> rx; vector<std::pair<us_t, string>> status; vector<std::pair<us_t, string>> metas; vector<TsPes> pes; vector<us_t> pes_t; string ip; bool eager = false, impaired = false; us_t impair_end = -1; us_t last_rx = -1; vector<std::pair<us_t, us_t>> stalls; bool tolerant = false;
    vector<std::pair<us_t, bool>> pauses; uint64_t bytes = 0; int http_status = 0; string bad; int64_t buflen = -1; us_t t_first = -1;
};
struct NodeS { int id; string prefix, ip, conf; Proc *p = nullptr; bool up = false; vector<us_t> starts, deaths; int workers = 0; bool killed = false; };
struct Check { string name; std::function<void()> fn; };

struct Scn {
    Plan &pl; Cfg cfg; World w; Rng rng;
    vector<NodeS> nodes; vector<std::unique_ptr<PubS>> pubs; vector<std::unique_ptr<PlayS>> plays; vector<std::unique_ptr<HttpGet>> gets; vector<std::unique_ptr<Rtmp>> rtmps; vector<std::unique_ptr<HttpSrv>> srvs;
    map<string, uint64_t> stat;          // what the oracles looked at
    bool crashed = false; us_t quiesce = 0;
    Scn(Plan &p, const Cfg &c);
    virtual ~Scn() {}
    string resolve(const string &bt); string where_crashed(const string &bt); uint64_t abstract(); virtual uint64_t abstract_extra(uint64_t h) { return h; }
    string prop() const { return pl.prop; }
    void bad(const string &what, const string &detail = "") { w.violate(pl.prop, what, detail); }
    void badp(const string &prop, const string &what, const string &detail = "") { w.violate(prop, what, detail); }
    // configuration
    virtual string conf(int node); string directives(const string &prefix, int node, const string &indent);
    virtual void start_nodes(); void start_node(int i);
    virtual void setup() {}               // model servers, hooks
    vector<std::pair<us_t, us_t>> asleep; us_t awake(us_t t) { for (auto &a : asleep) if (t >= a.first - 100 * MS && t <= a.second) t = a.second; return t; }   // process stalls
    virtual bool apply(const Op &o);      // one op of the plan; false if unknown
    virtual bool more() { return false; } // wants the run to go on (having raised pl.end)
    virtual void finish() {}              // the final checks
    virtual void run();
    // publishers and players
    PubS *pub(const string &id); PlayS *play(const string &id);
    PubS *start_pub(const Op &o); void pump_pub(PubS *p); void stop_pub(PubS *p, const string &mode); void pub_send(PubS *p, const Pub &m); void pub_dead(PubS *p, const string &why); void pub_media(PubS *p);
    PlayS *start_play(const Op &o); void stop_play(PlayS *p, const string &mode); void play_dead(PlayS *p, const string &why);
    string plain(const string &s) { return pl.kn.count("x.enc") ? url_decode(s) : s; }     // names that need it are encoded in the plan
    virtual void on_pub_status(PubS *, const string &, const string &) {}
    void rx_av(PlayS *p, int type, uint32_t ts, const string &data);
    LinkParam link(const Op &o);
    // index of everything published, by content
    std::unordered_map<uint64_t, vector<std::pair<int, int>>> idx; uint64_t mkey(int type, const string &d) { return hash64(d.data(), d.size(), type); }
    map<string, std::pair<int, int>> nal_idx;   // first bytes of a NAL / raw frame -> message
    Pub &msg(const std::pair<int, int> &k) { return pubs[k.first]->sent[k.second]; }
    string errlog(int node) { return read_file(nodes[node].prefix + "/logs/error.log"); }
    int port_rtmp = 1935, port_http = 80;
    void fetch(int node, const string &url, std::function<void(HttpGet *)> fn, int port = 80, const string &from = "10.9.0.1");
    map<string, int64_t> sys_stat(const string &body);
};

// shared oracles (oracles.cpp)
struct AvOpt { bool no_loss = true; bool check_start = true; bool check_end = true; bool ts_exact = true; bool gop = false; int64_t ts_slack = 0; int end_lag = 0; };
us_t link_full(PlayS &p); bool uplink_slow(PubS &q);       // when the server last found the link to this player full
void check_av(Scn &s, PlayS &p, const AvOpt &o);
void check_headers(Scn &s, PlayS &p);

typedef Scn *(*ScnMake)(Plan &, const Cfg &);
typedef void (*ScnGen)(Plan &, Rng &);
struct PropDef { string id; ScnGen gen; ScnMake make; };
vector<PropDef> &props();
struct PropReg { PropReg(const char *id, ScnGen g, ScnMake m) { props().push_back({id, g, m}); } };
template <class T> Scn *make_scn(Plan &p, const Cfg &c) { return new T(p, c); }
