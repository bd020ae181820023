// P23: a broadcast request is executed once on every worker and answered with all their answers; a worker's own port reaches that worker.
#include "scn.h"
#include "gen.h"
#include <csignal>

struct P23 : Scn {
    using Scn::Scn;
    struct Wk { int pid, slot; us_t t0, t1 = -1; };
    struct Req { string id, kind, method; us_t t0 = -1, t1 = -1; int status = 0; string body; bool complete = false, ended = false; int target = -1; size_t sz = 0, blen = 0; int st = 200, no = 0; map<string, string> hdr; us_t dl = 0; int conn_pid = -1; };
    struct Cl { P23 *s; Op o; ActorConn *ac = nullptr; HttpParser p; size_t cur = 0; vector<int> reqs; bool dead = false; int n = 1; us_t t_dead = -1; };
    vector<Wk> wk; vector<Req> reqs; vector<std::unique_ptr<Cl>> cls; vector<std::pair<us_t, us_t>> faults; us_t rt = 2 * SEC; vector<std::pair<us_t, us_t>> stalls;
    us_t slack() const { return 300 * MS + 60 * pl.kn_("sim.sched_delay", 300); }
    void look() {
        for (auto &p : w.procs) { if (p->direct_child) continue; Wk *k = nullptr; for (auto &x : wk) if (x.pid == p->vpid) k = &x; if (!k && p->st != PS_DEAD) { wk.push_back({p->vpid, slot_of(p.get()), w.now}); } else if (k && k->t1 < 0 && p->st == PS_DEAD) k->t1 = w.now; }
    }
    int slot_of(Proc *) { return -1; }
    bool faulty(us_t a, us_t b) const { for (auto &f : faults) if (f.second >= a && f.first <= b) return true; return false; }
    void setup() override { rt = pl.kn_("x.rt", 2) * SEC; for (us_t t = 20 * MS; t < pl.end; t += 20 * MS) w.at(t, [this] { look(); }); }
    vector<Proc *> workers() { vector<Proc *> v; for (auto &p : w.procs) if (!p->direct_child && p->st != PS_DEAD) v.push_back(p.get()); std::sort(v.begin(), v.end(), [](Proc *a, Proc *b) { return a->slot < b->slot; }); return v; }
    void next(Cl *c) {
        if (c->dead || c->cur >= (size_t) c->n || c->p.hdr["connection"] == "close") { if (!c->dead && c->ac) { c->dead = true; c->ac->close(); } return; }
        const Op &o = c->o; Req q; q.id = o.s("id") + "_" + std::to_string(c->cur); q.kind = o.s("kind"); q.method = o.s("method", "GET"); q.t0 = w.now; q.target = (int) o.n("w", -1); q.sz = o.n("sz"); q.st = (int) o.n("st", 200); q.no = (int) o.n("no"); q.dl = o.n("dl") * MS; q.blen = q.method == "POST" ? o.n("blen") : 0;
        string u = "/" + q.kind + "?id=" + q.id; if (o.has("w")) u += "&w=" + o.s("w"); if (q.sz) u += "&sz=" + o.s("sz") + "&nb=" + o.s("nb", "1"); if (q.st != 200) u += "&st=" + o.s("st"); if (q.no) u += "&no=" + o.s("no"); if (q.dl) u += "&dl=" + o.s("dl"); if (o.has("cl")) u += "&cl=0";
        string t = q.method + " " + u + " HTTP/1.1\r\nHost: h\r\n"; if (q.method == "POST") t += fmt("Content-Length: %zu\r\n", q.blen); if (c->cur + 1 == (size_t) c->n && o.n("cls")) t += "Connection: close\r\n"; t += "\r\n" + string(q.blen, 'B');
        c->reqs.push_back((int) reqs.size()); reqs.push_back(q); c->cur++; c->p.reset(); c->p.body.clear(); w.trace("%s asks %s", o.s("id").c_str(), u.c_str()); c->ac->send(t);
    }
    void over(Cl *c, bool complete) {
        if (c->reqs.empty()) return; Req &q = reqs[c->reqs.back()]; if (q.ended) return; q.ended = true; q.t1 = w.now; q.complete = complete; q.status = c->p.status; q.body = c->p.body; q.hdr = c->p.hdr; w.trace("%s has its answer: %d, %zu bytes%s", q.id.c_str(), q.status, q.body.size(), complete ? "" : ", cut short");
    }
    bool apply(const Op &o) override {
        if (o.verb == "bc") {
            cls.push_back(std::make_unique<Cl>()); Cl *c = cls.back().get(); c->s = this; c->o = o; c->n = (int) o.n("n", 1); int port = o.has("slot") ? 9000 + (int) o.n("slot") : 80;
            c->ac = w.connect(nodes[0].ip, port, fmt("10.9.%d.%d", (int) (cls.size() / 200), (int) (cls.size() % 200 + 1)), link(o)); if (o.has("rate")) c->ac->set_rate(o.n("rate"));
            c->p.on_body = [c](const char *d, size_t n) { c->p.body.append(d, n); };
            c->ac->on_connected = [this, c] { next(c); };
            c->ac->on_data = [this, c](const char *d, size_t n) { if (c->dead) return; c->p.feed(d, n); if (c->p.bad) { c->dead = true; over(c, false); bad("a response is not well-formed HTTP", c->o.s("id") + ": " + c->p.why); c->ac->close_now(); return; } if (c->p.done) { over(c, true); us_t g = c->o.n("gap") * MS; if (g) w.after(g, [this, c] { next(c); }); else next(c); } };
            c->ac->on_eof = [this, c] { if (c->dead) return; c->p.eof(); over(c, c->p.done && (c->p.chunked || c->p.clen >= 0 || !faulty((c->reqs.empty() ? w.now : reqs[c->reqs.back()].t0) - 2 * SEC, w.now + slack()))); c->dead = true; c->t_dead = w.now; c->ac->close_now(); };
            c->ac->on_error = [this, c](int) { if (c->dead) return; over(c, false); c->dead = true; c->t_dead = w.now; bool rl = false; for (auto &x : pl.ops) if (x.verb == "reload" && x.t <= w.now) rl = true; if (c->reqs.empty() && !rl && !faulty(c->o.t - 3 * SEC, w.now)) bad("a client is refused", c->o.s("id")); };
            if (o.has("drop")) w.after(o.n("drop") * MS, [this, c] { if (c->dead) return; c->dead = true; stat["clients that left early"]++; c->ac->reset(); });
            return true;
        }
        if (o.verb == "wkill") { auto v = workers(); if (v.size() > 0) { w.fault("worker killed"); faults.push_back({w.now, w.now + 500 * MS + slack()}); w.kill_proc(v[o.n("no") % v.size()]); look(); } return true; }
        if (o.verb == "wstall") { auto v = workers(); if (!v.empty()) { w.fault("worker stall"); v[o.n("no") % v.size()]->stall_until = w.now + o.n("dur") * MS; if (o.n("dur") > 700) faults.push_back({w.now, w.now + o.n("dur") * MS + slack()}); stalls.push_back({w.now, w.now + o.n("dur") * MS}); } return true; }
        if (o.verb == "reload") { w.fault("reload"); faults.push_back({w.now, w.now + 12 * SEC}); /* old workers answer for up to so long */ w.signal_proc(nodes[0].p, SIGHUP); return true; }
        return Scn::apply(o);
    }
    struct Blk { int pid, slot; string id, method; size_t body, sz; string uri; };
    // the answers in a body; false if something is torn or does not belong there
    bool blocks(const string &b, size_t i, vector<Blk> &v, string &why) {
        while (i < b.size()) {
            char c = b[i]; if ((c != 'X' && c != 'Y') || i + 1 >= b.size() || b[i + 1] != '{') { why = fmt("at %zu: ", i) + hex(b.substr(i, 24)); return false; }
            size_t e = b.find('}', i); if (e == string::npos) { why = fmt("at %zu: ", i) + hex(b.substr(i, 24)); return false; } auto f = split(b.substr(i + 2, e - i - 2), ' '); if (f.size() != 7) { why = "head of an answer " + b.substr(i, e - i); return false; }
            Blk k{atoi(f[0].c_str()), atoi(f[1].c_str()), f[2], f[3], (size_t) atoll(f[4].c_str()), (size_t) atoll(f[5].c_str()), f[6]}; i = e + 1; if (b.size() - i < k.sz) { why = "the answer of worker " + f[0] + fmt(" has %zu of %zu bytes", b.size() - i, k.sz); return false; }
            for (size_t j = 0; j < k.sz; j++) if (b[i + j] != (char) ('a' + j * 7 % 26)) { why = "the answer of worker " + f[0] + fmt(" is wrong from byte %zu of %zu", j, k.sz); return false; } i += k.sz; v.push_back(k);
        }
        return true;
    }
    void finish() override {
        look(); if (!pl.kn.count("sim.probe") || !pl.kn.count("events.multi_listen") || !pl.kn.count("events.multi_listen#2")) return; int N = (int) pl.kn_("sim.workers");
        for (auto &k : pl.kn) if (k.first.compare(0, 4, "loc.") == 0 && k.second == "-") return; for (string l : {"bs0", "bs1", "bs2", "p", "q", "s", "w", "ip", "it", "ipx", "itx"}) if (!pl.kn.count("loc.location#" + l)) return; if (!pl.kn.count("httpmain.log_format")) return;
        map<string, map<int, int>> ran; for (auto &l : split(read_file(nodes[0].prefix + "/logs/b.log"), '\n')) { auto f = split(l, ' '); if (f.size() >= 3) ran[f[2]][atoi(f[0].c_str())]++; }
        for (auto &x : ran) for (auto &y : x.second) if (y.second > 1) { bad("a worker executed a request more than once", x.first + fmt(" on worker %d: %d times", y.first, y.second)); break; }
        bool rld = false; for (auto &x : pl.ops) if (x.verb == "reload") rld = true;
        // an old worker that is told to go may leave a connection it was woken for in the queue (EPOLLEXCLUSIVE, the kernel and nginx's core)
        for (auto &c : cls) {
            if (c->dead || rld) continue; if (!c->reqs.empty() && !reqs[c->reqs.back()].ended && w.now > reqs[c->reqs.back()].t0 + 60 * SEC) bad("a client waits forever for its answer", reqs[c->reqs.back()].id + fmt(" asked at %.3f s", reqs[c->reqs.back()].t0 / 1e6));
            if (c->reqs.empty() && w.now > c->o.t + 60 * SEC) bad("a client waits forever to be served", c->o.s("id"));
        }
        bool reloaded = false; for (auto &x : pl.ops) if (x.verb == "reload") reloaded = true;
        for (auto &c : cls) for (int ri : c->reqs) {
            Req &q = reqs[ri]; if (!q.ended) continue; bool dropped = c->o.has("drop"); us_t a = q.t0, b = q.t1; bool f = faulty(a - 2 * SEC, b + slack()); stat["requests"]++; if (f) stat["requests during faults"]++;
            if (!q.complete) { bool later = ri != c->reqs[0] && !q.status && q.body.empty(); if (!f && !dropped && !later && !(c->o.has("rate") && pl.k("loc.location#p").find("buffering off") != string::npos)) bad("a response is cut short although nothing failed", q.id + " " + q.kind); continue; }
            if (c->o.has("rate") && pl.k("loc.location#p").find("buffering off") != string::npos && q.hdr["content-length"].empty() && q.hdr["transfer-encoding"].empty()) continue; // broken off by the core's read timeout, and nothing shows it
            auto alive = [&](const Wk &k) { return k.t0 <= a && (k.t1 < 0 || k.t1 > b + slack()); };
            if (q.kind.compare(0, 2, "bs") == 0) {
                if (q.status != 200) { if (!f) bad("a broadcast is answered with an error", q.id + fmt(": %d", q.status)); continue; }
                bool pre = pl.k("loc.location#" + q.kind.substr(0, 3)).find("rewrite_prefix") != string::npos, suf = pl.k("loc.location#" + q.kind.substr(0, 3)).find("suffix") != string::npos; string body = q.body;
                if (q.kind == "bs2") { int n = 0; for (size_t i = 0; (i = body.find("\"ngx_pid\"", i)) != string::npos; i++) n++; stat["system statistics broadcast"]++; if (!f && (n != N || body.empty() || body[0] != '[' || body.back() != ']')) bad("the broadcast statistics are not those of all workers", q.id + fmt(": %d of %d workers", n, N)); continue; }
                if (suf) { if (body.empty() || body.back() != ']') { bad("a broadcast answer lacks its suffix", q.id + ": " + hex(body.substr(body.size() > 20 ? body.size() - 20 : 0))); continue; } body.pop_back(); }
                vector<Blk> v; string why; if (!blocks(body, 0, v, why)) { if (f && c->o.has("cl")) continue; /* nothing tells the end of an answer without a length from a death */ bad(f ? "a broadcast answer is torn yet the response is complete" : "a broadcast answer is not what the workers said", q.id + " " + why); continue; }
                std::set<int> got; bool first = true; for (auto &k : v) {
                    if (!got.insert(k.pid).second) { bad("a broadcast response has the answer of one worker twice", q.id + fmt(": worker %d", k.pid)); break; }
                    if (k.id != q.id) { bad("a broadcast response has the answer to another request", q.id + ": " + k.id); break; } if (k.method != q.method || k.body != q.blen || k.sz != q.sz || k.uri != "/w") bad("a worker was asked something else than the client asked", q.id + ": " + k.method + fmt(" with %zu bytes of body, %zu asked for", k.body, q.blen));
                    (void) first;
                }
                for (size_t i = 0; i < body.size() && pre && !v.empty(); i++) { if (body[0] != 'Y') { bad("the prefix of a broadcast answer is not rewritten", q.id); } break; }
                for (size_t i = 1; i < v.size(); i++) (void) i;
                for (auto &k : wk) { if (!alive(k)) continue; bool st = false; for (auto &s : stalls) if (s.first <= b && s.second >= a) st = true; if (st && f) continue; bool no = q.no && slotnr(k.pid) == q.no - 1; if (q.no && slotnr(k.pid) < 0) continue; { bool rl = false; for (auto &x : pl.ops) if (x.verb == "reload" && x.t <= b + SEC) rl = true; if (rl) continue; }
                    if (q.st != 200 || no) { if (got.count(k.pid)) bad("an answer other than 200 is passed on", q.id); }
                    else if (!got.count(k.pid)) { bad("a live worker's answer is missing from a broadcast", q.id + fmt(": worker %d", k.pid)); break; }
                    int n = ran[q.id][k.pid]; if (n != 1) { bad("a broadcast was not executed on a live worker", q.id + fmt(": worker %d", k.pid)); break; } stat["executions checked"]++;
                }
                if (!f) { stat["answers complete"]++; if (!(q.no && reloaded) && q.st == 200 && (int) got.size() != N - (q.no > 0 && q.no <= N ? 1 : 0)) bad("a broadcast response does not have one answer for each worker", q.id + fmt(": %zu of %d", got.size(), N)); }
            } else {
                // one worker is asked: over its own port, or through the inner proxy
                vector<Blk> v; string why; bool err = q.status != q.st; if (q.no) { stat["refusals"]++; continue; }
                if (err) { if (!f && q.target < N) bad("a request for one worker is answered with an error", q.id + fmt(": %d", q.status)); continue; }
                if (!blocks(q.body, 0, v, why)) { if (f && c->o.has("cl")) continue; bad(f ? "an answer is torn yet the response is complete" : "an answer is not what the worker said", q.id + " " + why); continue; }
                if (v.size() != 1) { bad("a request for one worker has several answers or none", q.id + fmt(": %zu", v.size())); continue; }
                if (v[0].id != q.id || v[0].method != q.method || v[0].body != q.blen || v[0].sz != q.sz || v[0].uri != "/" + q.kind) bad("a worker was asked something else than the client asked", q.id + ": " + v[0].method + " " + v[0].uri + fmt(" with %zu bytes of body, %zu asked for", v[0].body, q.blen));
                if (c->o.has("slot") && q.target < 0 && v[0].slot != c->o.n("slot")) bad("a request to a worker's own port is handled by another worker", q.id + fmt(": slot %d", v[0].slot));
                if (q.target >= 0 && !f && !reloaded && v[0].slot != slot_of_worker(q.target, a)) bad("the inner proxy reached another worker than the one asked for", q.id + fmt(": slot %d", v[0].slot));
                if (q.target >= 0 && (q.st == 200 || q.st == 201) && q.hdr["x-probe"] != "yes") bad("the answer of another worker lacks headers", q.id); 
                size_t n = 0; for (auto &y : ran[q.id]) n += y.second; stat["requests to one worker"]++; (void) n;
            }
        }
        stat["workers"] += wk.size();
    }
    int slotnr(int pid) { for (auto &p : w.procs) if (p->vpid == pid) { auto i = slots.find(pid); return i == slots.end() ? -1 : i->second; } return -1; }
    map<int, int> slots; int slot_of_worker(int no, us_t) { return no; }
};
static void gen23(Plan &p, Rng &r) {
    g_common(p, r); int N = r.pick<int>({1, 2, 2, 3, 4, 5}); p.set("sim.workers", N); p.set("sim.probe", 1); int rt = r.pick<int>({1, 2, 3}); p.set("x.rt", rt);
    p.set("events.multi_listen", "unix:@PREFIX@/http 80"); p.set("events.multi_listen#2", "@IP@:9000 80"); p.set("httpmain.log_format", "b '$pid $status $arg_id $request_method $uri'");
    string pt = fmt("proxy_read_timeout %ds; proxy_connect_timeout %ds; proxy_send_timeout %ds; ", rt, rt, rt); if (r.chance(0.3)) pt += "proxy_buffering off; "; if (r.chance(0.3)) pt += "proxy_buffers 3 4k; proxy_buffer_size 4k; proxy_busy_buffers_size 8k; "; if (r.chance(0.2)) pt += "proxy_http_version 1.1; ";
    auto bs = [&](const string &mp, const string &uri, bool json) { string s = "broadcast " + mp + " " + uri + "; "; if (json) return s + "broadcast_rewrite_prefix \" \" [; broadcast_suffix ]; "; if (r.chance(0.5)) s += "broadcast_rewrite_prefix X Y; "; if (r.chance(0.5)) s += "broadcast_suffix ]; "; return s; };
    string end1 = r.pick<string>({"return 200; ", "", "return 200 ok; "});
    p.set("loc.location#bs0", "/bs0 { " + bs("unix:@PREFIX@/http", "/p", false) + end1 + "location /bs0/in { " + r.pick<string>({"return 200;", "return 200 x;"}) + " } }"); p.set("loc.location#bs1", "/bs1 { " + bs("@IP@:9000", "/q", false) + end1 + "}"); p.set("loc.location#bs2", "/bs2 { " + bs("unix:@PREFIX@/http", "/s", true) + end1 + "}");
    p.set("loc.location#p", "/p/ { rewrite ^/p/(.*) /w break; proxy_pass http://$1:; " + pt + "}"); p.set("loc.location#q", "/q/ { rewrite ^/q/(.*) /w break; proxy_pass http://$1; " + pt + "}"); p.set("loc.location#s", "/s/ { rewrite ^/s/(.*) /sys_stat break; proxy_pass http://$1:; " + pt + "}");
    p.set("loc.location#w", "/w { access_log logs/b.log b; probe; }");
    p.set("loc.location#ip", "/ip { inner_proxy unix:@PREFIX@/http /ipx; add_header X-Probe yes; probe_proxy; }"); p.set("loc.location#it", "/it { inner_proxy @IP@:9000 /itx; add_header X-Probe yes; probe_proxy; }");
    p.set("loc.location#ipx", "/ipx/ { rewrite ^/ipx/(.*):/(.*) /$2 break; proxy_pass http://$1:; " + pt + "}"); p.set("loc.location#itx", "/itx/ { rewrite ^/itx/(.*):/(.*) /$2 break; proxy_pass http://$1; " + pt + "}");
    if (r.chance(0.3)) p.set("loc.chunked_transfer_encoding", "off");
    us_t end = r.range(3, 12) * SEC; int nc = (int) r.range(3, 25); int big = r.chance(0.4);
    for (int i = 0; i < nc; i++) {
        Op &o = p.op(r.range(100, end / MS) * MS, "bc"); o.set("id", fmt("c%d", i)); string kind = r.pick<string>({"bs0", "bs0", "bs0", "bs1", "bs1", "bs2", "bs0/in", "w", "ip", "ip", "it"}); o.set("kind", kind); g_link(o, r, &p);
        if (kind[0] == 'b' ? r.chance(0.2) : r.chance(0.5) || kind == "w") o.set("slot", r.below(N)); if (kind[0] == 'i') o.set("w", r.below(N));
        if (kind != "bs2") { if (big && r.chance(0.5)) o.set("sz", r.pick<int64_t>({100, 4000, 20000, 100000})).set("nb", r.pick<int64_t>({1, 1, 2, 7})); if (r.chance(0.3)) o.set("dl", r.range(1, 600)); if (r.chance(0.15)) o.set("no", r.range(1, N)); else if (r.chance(0.1)) o.set("st", r.pick<int64_t>({404, 500, 201})); if (r.chance(0.2)) o.set("cl", 0); }
        if (o.n("sz") > 4000 && r.chance(0.6)) o.set("rate", r.pick<int64_t>({20000, 100000})); if (r.chance(0.3)) o.set("n", r.range(2, 5)); if (r.chance(0.3)) o.set("gap", r.range(1, 400)); if (r.chance(0.4)) o.set("cls", 1);
        if (r.chance(0.25) && kind != "bs2") o.set("method", "POST").set("blen", kind[0] == 'b' ? 0 : r.pick<int64_t>({0, 10, 3000, 20000})); if (r.chance(0.12)) o.set("drop", r.range(1, 1500));
    }
    if (r.chance(0.5)) for (int i = 0, n = (int) r.range(1, 4); i < n; i++) { us_t t = r.range(150, end / MS) * MS; int k = (int) r.below(10); if (k < 5) p.op(t, "wkill").set("no", r.range(0, 4)); else if (k < 9) p.op(t, "wstall").set("no", r.range(0, 4)).set("dur", r.pick<int64_t>({20, 300, 1500, 5000})); else p.op(t, "reload"); }
    p.end = end + 75 * SEC;
}
static PropReg reg("P23", gen23, make_scn<P23>);
