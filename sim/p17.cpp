// P17: dead peers are noticed in bounded time, live ones are kept.
#include "scn.h"
#include "gen.h"

struct P17 : Scn {
    using Scn::Scn;
    us_t timeout = 0, ping = 0, pingto = 0, idle = 0, hdrto = 0; us_t slack = 1500 * MS;
    struct Watch { string who, kind; ActorConn *ac; bool pub = false; uint64_t last = 0; us_t t_fed = -1, t_gone = -1; int stage = 0; };
    map<ActorConn *, Watch> watch; vector<std::pair<us_t, us_t>> pst;
    static us_t dur(const string &s) { return s.find("ms") != string::npos ? atoll(s.c_str()) * MS : atoll(s.c_str()) * SEC; }
    void setup() override {
        timeout = dur(pl.k("rtmp.timeout", "60s")); ping = dur(pl.k("rtmp.ping", "60s")); pingto = dur(pl.k("rtmp.ping_timeout", "30s")); hdrto = dur(pl.k("http.client_header_timeout", "60s")); if (pl.k("app.drop_idle_publisher") != "") idle = dur(pl.k("app.drop_idle_publisher"));
        for (auto &o : pl.ops) if (o.verb == "pstall") pst.push_back({o.t, o.t + o.n("dur") * MS});
        for (us_t t = 50 * MS; t < pl.end; t += 50 * MS) w.at(t, [this] { poll(); });
    }
    us_t stalled(us_t a, us_t b) { us_t n = 0; for (auto &x : pst) { us_t s = std::max(a, x.first), e = std::min(b, x.second + 20 * MS); if (e > s) n += e - s; } return n; }
    void poll() {
        for (auto &p : pubs) if (p->ac) { Watch &x = watch[p->ac]; x.ac = p->ac; x.who = "publisher " + p->id; x.kind = "rtmp"; x.pub = true; }
        for (auto &p : plays) if (p->ac) { Watch &x = watch[p->ac]; x.ac = p->ac; x.who = p->kind + " player " + p->id; x.kind = p->kind; }
        for (auto &i : watch) {
            Watch &x = i.second; ActorConn *a = x.ac; if (!a->vanished || x.t_gone >= 0 || !a->c) continue;
            Conn *c = a->c; int srv = 1 - a->side;
            if (!c->e[srv].open || c->dead) { if (c->established) { x.t_gone = w.now; stat["dead peers noticed"]++; w.trace("%s gone at the server, silent since %.3f s", x.who.c_str(), a->t_vanish / 1e6); } else { x.t_gone = w.now; } continue; }
            uint64_t in = c->p[a->side].total_in; uint64_t d = in - x.last; if (x.t_fed < 0 || (d && d != 18 && d != 16)) x.t_fed = w.now; x.last = in;     // pings and acknowledgements aside
            us_t from = std::max(a->t_vanish, x.t_fed), lim; const char *stage;
            if (!x.pub) for (auto &q : plays) if (q->ac == a) for (auto &p : pubs) if (p->name == q->name) {      // the end of a publisher is announced: also something sent
                us_t e = p->t_stop; if (p->ac && watch.count(p->ac) && watch[p->ac].t_gone >= 0) e = std::max(e, watch[p->ac].t_gone); e = std::max(e, p->t_dead); if (e <= w.now) from = std::max(from, e);
            }
            if (x.kind == "rtmp") {
                if (a->sent < 3073) { lim = timeout; stage = "in the handshake"; }
                else { lim = std::max(timeout, 2 * ping + pingto); stage = "after the handshake"; }
            } else {
                if (!hdr_done(a)) { lim = hdrto; stage = "in its request"; from = a->t_vanish; }
                else { bool fed = false; for (auto &p : pubs) if (p->st == 1 && !p->rejected && !p->paused && p->ac && !p->ac->vanished && p->media0 >= 0) { PlayS *v = nullptr; for (auto &q : plays) if (q->ac == a) v = q.get(); if (v && v->name == p->name && (p->mc.video || x.kind != "ts")) fed = true; }   // sound alone is not carried over TS
                        if (!fed) { x.t_fed = w.now; continue; } lim = timeout + 3 * SEC; stage = "while it is served"; }   // 3 s: until its window is full again after a pause
            }
            lim += slack + stalled(from, w.now);
            if (w.now > from + lim) { bad(fmt("a dead %s is not noticed %s", x.pub ? "publisher" : x.kind == "rtmp" ? "player" : ("HTTP-" + x.kind + " viewer").c_str(), stage), x.who + fmt(": silent since %.3f s, last sent to at %.3f s, now %.3f s", a->t_vanish / 1e6, x.t_fed / 1e6, w.now / 1e6)); x.t_gone = w.now; }
        }
        if (idle) for (auto &p : pubs) if (p->st == 1 && !p->ac->vanished && !p->rejected && !p->sent.empty() && p->t_start >= 0) {
            us_t last = p->sent.back().t_sent; if (!p->ac->out.empty()) continue;
            if (w.now > last + idle + slack + 500 * MS + stalled(last, w.now)) { bad("an idle publisher is not dropped", p->id); p->rejected = true; }
        }
    }
    bool hdr_done(ActorConn *a) { return a->out.size() == a->out_off && a->sent > 0; }
    void finish() override {
        // peers that were alive and answered pings stay
        auto early = [&](us_t t, us_t last) { for (auto &x : pst) if (last >= x.first && last < x.second + 50 * MS) last = x.first; return idle && t > last + idle - 400 * MS; };   // what arrives at a stopped process is too late
        for (auto &p : pubs) if (!p->ac->vanished && p->t_dead >= 0 && p->t_stop < 0 && !p->rejected) {
            us_t last = 0; for (auto &m : p->sent) if (m.t_sent < p->t_dead - 200 * MS) last = m.t_sent;   // what is on its way does not count
            if (early(p->t_dead, last)) { stat["idle publishers dropped"]++; continue; }
            bad("the server ended a live publisher", p->id + fmt(" at %.3f s: %s", p->t_dead / 1e6, p->dead_why.c_str()));
        }
        if (pl.k("app.idle_streams") != "off") for (auto &p : plays) if (p->kind == "rtmp" && !p->ac->vanished && p->t_dead >= 0 && p->t_stop < 0) bad("the server ended a live player", p->id + fmt(" at %.3f s: %s", p->t_dead / 1e6, p->dead_why.c_str()));
        for (auto &p : pubs) if (p->t_dead < 0 && p->t_stop < 0 && !p->ac->vanished) stat["live peers kept"]++;
        for (auto &p : plays) if (p->t_dead < 0 && p->t_stop < 0 && !p->ac->vanished) stat["live peers kept"]++;
        // names of dead publishers can be used again
        for (auto &p : pubs) if (p->id[0] == 'z') { bool held = false; for (auto &q : pubs) if (q != p && q->name == p->name && q->t_dead < 0 && q->t_stop < 0 && !q->ac->vanished && !q->rejected) held = true; if (!held) { if (p->t_start < 0 || p->rejected) bad("the stream of a dead publisher is not released", p->id + " " + p->name); else stat["names used again"]++; } }
    }
};
static void gen17(Plan &p, Rng &r) {
    g_common(p, r); p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }"); p.set("loc.location#ts", "/ts { ts_live 1935 app=live; }"); p.set("app.mpegts_cache_time", "1s");
    p.set("rtmp.timeout", r.pick<string>({"2s", "4s"})); p.set("rtmp.ping", r.pick<string>({"1s", "2s", "3s"})); p.set("rtmp.ping_timeout", r.pick<string>({"1s", "2s"})); p.set("http.client_header_timeout", "3s"); p.set("http.keepalive_timeout", "2s");
    if (r.chance(0.3)) p.set("app.drop_idle_publisher", r.pick<string>({"2s", "4s"}));
    if (r.chance(0.3)) p.set("app.publish_notify", "on");
    if (r.chance(0.3)) p.set("app.cache_time", "2s");
    if (r.chance(0.2)) p.set("app.idle_streams", "off");
    us_t end = 16 * SEC; int np = 0, nv = 0, ns = (int) r.range(1, 3);
    auto die = [&](Op &o, bool http) { o.set("die", http ? r.pick<int64_t>({0, 1, 30, 90, r.range(0, 120)}) : r.pick<int64_t>({0, 1, r.range(2, 1600), 1536, 1537, r.range(1538, 3072), 3072, 3073, r.range(3074, 3700), r.range(3300, 4200), r.range(4000, 60000)})); };
    for (int s = 0; s < ns; s++) {
        string name = fmt("s%d", s); int gens = (int) r.range(1, 2); us_t t = r.range(50, 2000) * MS;
        for (int g = 0; g < gens; g++) {
            Op &o = p.op(t, "pub"); string id = fmt("p%d", np++); o.set("id", id).set("name", name).set("eager", r.chance(0.2)); g_link(o, r, &p); o.set("gop", 12).set("fps", r.pick<int64_t>({10, 25})); if (r.chance(0.2)) o.set("video", 0);
            double k = (r.below(1000) / 1000.0);
            if (k < 0.3) die(o, false); else if (k < 0.6) p.op(r.range(t, end), "unpub").set("id", id).set("mode", "vanish"); else if (k < 0.8) p.op(r.range(t, end), "pubpause").set("id", id).set("dur", r.range(500, 12000));
            t += r.range(1, 9) * SEC;
        }
        int n = (int) r.range(1, 4);
        for (int i = 0; i < n; i++) {
            us_t tp = r.range(20, 8000) * MS; string id = fmt("v%d", nv++); string kind = r.pick<string>({"rtmp", "rtmp", "flv", "ts"}); Op &o = p.op(tp, "play"); o.set("id", id).set("name", r.chance(0.9) ? name : "none").set("eager", r.chance(0.2)); if (kind != "rtmp") o.set("kind", kind); g_link(o, r, &p); if (o.has("cap0")) o.set("cap0", 16384).set("cap1", 16384).set("lat", 300).set("jit", 100);
            double k = (r.below(1000) / 1000.0);
            if (k < 0.35) die(o, kind != "rtmp"); else if (k < 0.8) p.op(r.range(tp, end), "unplay").set("id", id).set("mode", "vanish");
        }
        Op &z = p.op(end + 14 * SEC, "pub"); z.set("id", fmt("z%d", s)).set("name", name).set("limit", 200);
    }
    if (r.chance(0.4)) p.op(r.range(1, end / SEC) * SEC, "clock").set("by", r.range(-86400000, 86400000));
    if (r.chance(0.3)) p.op(r.range(1, end / SEC) * SEC + r.range(0, 999) * MS, "pstall").set("node", 0).set("dur", r.range(10, 5000));
    p.end = end + 17 * SEC;
}
static PropReg reg("P17", gen17, make_scn<P17>);
