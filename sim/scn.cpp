// Plans, node start-up, publishers and players.
#include "scn.h"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>

vector<PropDef> &props() { static vector<PropDef> v; return v; }

string Op::text() const { string s = fmt("op %ld %d %s", (long) t, id, verb.c_str()); for (auto &k : kv) s += " " + k.first + "=" + k.second; return s; }
string Plan::text() const {
    string s = fmt("prop %s\nseed %lu\nend %ld\n", prop.c_str(), (unsigned long) seed, (long) end);
    for (auto &k : kn) s += "knob " + k.first + " " + k.second + "\n";
    vector<Op> o = ops; std::stable_sort(o.begin(), o.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    for (auto &x : o) s += x.text() + "\n";
    return s;
}
bool Plan::parse(const string &txt, Plan &p, string &err) {
    for (auto &l : split(txt, '\n')) {
        if (l.empty() || l[0] == '#') continue;
        vector<string> f = split(l, ' ');
        if (f[0] == "prop") p.prop = f[1];
        else if (f[0] == "seed") p.seed = strtoull(f[1].c_str(), 0, 10);
        else if (f[0] == "end") p.end = atoll(f[1].c_str());
        else if (f[0] == "knob") { size_t b = 5 + f[1].size() + 1; p.kn[f[1]] = b < l.size() ? l.substr(b) : ""; }
        else if (f[0] == "op" && f.size() >= 4) { Op o; o.t = atoll(f[1].c_str()); o.id = atoi(f[2].c_str()); o.verb = f[3]; for (size_t i = 4; i < f.size(); i++) { size_t e = f[i].find('='); if (e != string::npos) o.kv[f[i].substr(0, e)] = f[i].substr(e + 1); } p.ops.push_back(o); p.next_id = std::max(p.next_id, o.id + 1); }
        else { err = "bad line: " + l; return false; }
    }
    return !p.prop.empty();
}

Scn::Scn(Plan &p, const Cfg &c) : pl(p), cfg(c), w(c, p.seed), rng(p.seed * 11 + 5) {
    w.sched_delay_max = pl.kn_("sim.sched_delay", 300);
    w.ready_limit = (int) pl.kn_("sim.ready_limit", 0);
    int n = (int) pl.kn_("sim.nodes", 1);
    for (int i = 0; i < n; i++) { NodeS nd; nd.id = i; nd.ip = fmt("10.0.0.%d", i + 1); nd.prefix = cfg.scratch + fmt("/n%d", i); nodes.push_back(nd); }
}

// ---- configuration
string Scn::directives(const string &pre, int node, const string &ind) {
    string o, np = fmt("n%d.", node) + pre + ".";
    std::set<string> done;
    auto emit = [&](const string &k, const string &v) { size_t h = k.find('#'); string name = h == string::npos ? k : k.substr(0, h); if (v == "-") return; string val = v; size_t q; while ((q = val.find("@PREFIX@")) != string::npos) val.replace(q, 8, nodes[node].prefix); while ((q = val.find("@IP@")) != string::npos) val.replace(q, 4, nodes[node].ip); if (!val.empty() && val.back() == '}') o += ind + name + " " + val + "\n"; else o += ind + name + (val.empty() ? "" : " " + val) + ";\n"; };
    for (auto &k : pl.kn) if (k.first.compare(0, np.size(), np) == 0) { string n = k.first.substr(np.size()); done.insert(n); emit(n, k.second); }
    string p2 = pre + ".";
    for (auto &k : pl.kn) if (k.first.compare(0, p2.size(), p2) == 0) { string n = k.first.substr(p2.size()); if (!done.count(n)) emit(n, k.second); }
    return o;
}
string Scn::conf(int i) {
    NodeS &n = nodes[i]; string m = cfg.scratch + "/mod";
    int workers = (int) pl.kn_("sim.workers", 0);
    string c = "load_module " + m + "/pingos.so;\nload_module " + m + "/ts.so;\n" + (pl.kn.count("sim.probe") ? "load_module " + m + "/probe.so;\n" : "") + "user root;\ndaemon off;\n";
    c += workers ? fmt("master_process on;\nworker_processes %d;\n", workers) : "master_process off;\n";
    c += "error_log logs/error.log " + pl.k("sim.loglevel", "info") + ";\npid logs/nginx.pid;\n" + directives("main", i, "");
    c += "events {\n    use epoll;\n    worker_connections " + pl.k("sim.wconns", "512") + ";\n" + directives("events", i, "    ") + "}\n";
    c += "rtmp {\n" + directives("rtmpmain", i, "    ") + "    server {\n        listen " + pl.k("sim.rtmp_listen", "1935") + ";\n" + directives("rtmp", i, "        ");
    for (auto &a : split(pl.k("sim.apps", "live"), ',')) c += "        application " + a + " {\n            live on;\n" + directives("app", i, "            ") + directives("app_" + a, i, "            ") + "        }\n";
    c += "    }\n}\nhttp {\n    access_log off;\n    client_body_temp_path tmp/b; proxy_temp_path tmp/p; fastcgi_temp_path tmp/f; uwsgi_temp_path tmp/u; scgi_temp_path tmp/s;\n" + directives("httpmain", i, "    ") + "    server {\n        listen " + pl.k("sim.http_listen", "80") + ";\n" + directives("http", i, "        ");
    c += "        location /sys_stat { sys_stat; }\n        location /rtmp_stat { rtmp_stat all; }\n";
    c += directives("loc", i, "        ");
    c += "    }\n}\n";
    return c;
}
void Scn::start_node(int i) {
    NodeS &n = nodes[i];
    for (string d : {"", "/logs", "/conf", "/tmp", "/data", "/data/rec", "/html"}) { mkdir((n.prefix + d).c_str(), 0755); }
    n.conf = n.prefix + "/conf/nginx.conf";
    write_file(n.conf, conf(i));
    n.starts.push_back(w.now);
    n.p = w.spawn(i, n.prefix, n.conf);
    n.up = n.p && n.p->st != PS_DEAD;
}
void Scn::start_nodes() { for (size_t i = 0; i < nodes.size(); i++) start_node((int) i); }

LinkParam Scn::link(const Op &o) {
    LinkParam l; l.lat = o.n("lat", pl.kn_("sim.lat", 300)); l.jitter = o.n("jit", pl.kn_("sim.jitter", 200)); l.seg = (int) o.n("seg", pl.kn_("sim.seg", 0));
    l.cap0 = o.n("cap0", 65536); l.cap1 = o.n("cap1", 65536); return l;
}
PubS *Scn::pub(const string &id) { for (auto &p : pubs) if (p->id == id) return p.get(); return nullptr; }
PlayS *Scn::play(const string &id) { for (auto &p : plays) if (p->id == id) return p.get(); return nullptr; }

// ---- publishers
static Amf connect_obj(const string &app, const string &tc) {
    return Amf::obj({{"app", app}, {"flashVer", "FMLE/3.0 (sim)"}, {"tcUrl", tc}, {"fpad", Amf::b(false)}, {"capabilities", 15}, {"audioCodecs", 3191}, {"videoCodecs", 252}, {"videoFunction", 1}});
}
static string proxy_hdr(const Op &o) { string a = o.s("px"); return a == "unknown" ? "PROXY UNKNOWN\r\n" : "PROXY TCP4 " + a + " 10.0.0.1 40000 1935\r\n"; }
PubS *Scn::start_pub(const Op &o) {
    auto up = std::make_unique<PubS>(); PubS *p = up.get(); p->sc = this; p->order = (int) pubs.size(); pubs.push_back(std::move(up));
    p->id = o.s("id"); p->name = plain(o.s("name", "s")); p->app = plain(o.s("app", "live")); p->args = plain(o.s("args")); p->node = (int) o.n("node"); if (p->node >= (int) nodes.size()) p->node = 0;
    p->speed = o.f("speed", 1); p->batch = o.n("batch", 0) * MS; p->limit = o.has("limit") ? o.n("limit") * MS : -1; p->eager = o.n("eager"); p->nometa = o.n("nometa"); p->nohdr = o.n("nohdr"); p->interleave = o.n("inter"); { int c[3] = {(int) o.n("vcs", 6), (int) o.n("acs", 4), (int) o.n("dcs", 5)}; bool ok = true; for (int x : c) ok &= x < pl.kn_("rtmp.max_streams", 64); if (ok) std::copy(c, c + 3, p->cs); } p->flash = o.s("flash", "FMLE/3.0 (sim)");
    MediaCfg &m = p->mc; m.video = o.n("video", 1); m.audio = o.n("audio", 1); m.hevc = o.n("hevc"); m.fps = (int) o.n("fps", 25); m.gop = (int) o.n("gop", 25); m.vsize_min = (int) o.n("vmin", 60); m.vsize_max = (int) o.n("vmax", 1500); m.big = o.f("big", 0.05); m.big_max = (int) o.n("bigmax", 20000); m.edge = o.f("edge", 0);
    m.asize_min = (int) o.n("amin", 24); m.asize_max = (int) o.n("amax", 300); for (auto k : {"app.hls_audio_buffer_size", "app.mpegts_audio_buffer_size"}) if (pl.kn.count(k)) m.asize_max = std::min(m.asize_max, std::max(300, (int) pl.kn_(k, 0) - 200)); m.bframes = o.n("bf"); m.ts0 = (uint32_t) o.n("ts0"); m.nals_max = (int) o.n("nals", 1); m.a_ms = (int) o.n("ams", 23); m.a_skew = (int) o.n("askew", 0);
    p->gen_seed = hmix(pl.seed, o.id * 7919); p->gen = std::make_unique<MediaGen>(m, p->gen_seed, p->order);
    p->ip = o.s("ip", fmt("10.1.0.%d", 1 + p->order % 250)); p->t_conn = w.now;
    LinkParam lp = link(o);
    PubS *old = o.has("over") ? pub(o.s("over")) : nullptr;      // publish again on the connection of another
    if (old) { p->ac = old->ac; p->r = std::move(old->r); p->ip = old->ip; p->node = old->node; p->eager = false; }
    else { p->ac = w.connect(nodes[p->node].ip, (int) o.n("port", port_rtmp), p->ip, lp); p->r = std::make_unique<Rtmp>(&w, p->ac, false); }
    if (o.has("die")) p->ac->die_at = o.n("die");
    if (o.has("px") && !old) p->r->preamble = proxy_hdr(o);
    Rtmp *r = p->r.get(); if (!old) r->wr.compress = (int) o.n("comp", 1); r->wr.rng = Rng(p->gen_seed ^ 99);
    uint32_t cs = (uint32_t) o.n("chunk", 4096);
    r->on_dead = [this, p](const string &why) { pub_dead(p, why); };
    string tc = o.s("tc", "rtmp://" + o.s("vhost", "sim.test") + "/" + p->app); p->tcurl = tc;
    r->on_ready = [this, p, r, cs, tc] {
        if (cs != 128) r->set_chunk(cs);
        r->cmd(0, {"connect", 1, connect_obj(p->app, tc)});
        if (p->eager) {
            r->cmd(0, {"releaseStream", 2, Amf::null(), p->name}); r->cmd(0, {"FCPublish", 3, Amf::null(), p->name}); r->cmd(0, {"createStream", 4, Amf::null()});
            p->t_pubreq = w.now; r->cmd(1, {"publish", 5, Amf::null(), p->name + (p->args.empty() ? "" : "?" + p->args), "live"}, 4);
            pub_media(p);
        }
    };
    r->on_msg = [this, p, r](Msg &m) {
        if (m.type != 20) return;
        vector<Amf> a = amf_all(m.data); if (a.size() < 2) return; const string &c = a[0].s;
        if (c == "_result" && !p->eager) {
            if (a[1].n == 1) { r->cmd(0, {"releaseStream", 2, Amf::null(), p->name}); r->cmd(0, {"FCPublish", 3, Amf::null(), p->name}); r->cmd(0, {"createStream", 4, Amf::null()}); }
            if (a[1].n == 4) { p->t_pubreq = w.now; r->cmd(1, {"publish", 5, Amf::null(), p->name + (p->args.empty() ? "" : "?" + p->args), "live"}, 4); }
        }
        if (c == "onStatus" && a.size() >= 4) {
            string code = a[3].str("code"); p->status.push_back({w.now, code}); w.trace("pub %s status %s", p->id.c_str(), code.c_str());
            if (code == "NetStream.Publish.Start" && p->t_start < 0) { p->t_start = w.now; if (!p->eager && p->st == 0) pub_media(p); }
            if (a[3].str("level") == "error") p->rejected = true;
            on_pub_status(p, a[3].str("level"), code);
        }
    };
    if (old) { if (r->dead) { r->on_dead = nullptr; pub_dead(p, "connection gone"); } else r->cmd(0, {"createStream", 4, Amf::null()}); }
    return p;
}
void Scn::pub_send(PubS *p, const Pub &m0) {
    Pub m = m0; m.t_sent = w.now; m.pub = p->order; int i = (int) p->sent.size();
    p->sent.push_back(m); idx[mkey(m.type, m.data)].push_back({p->order, i});
    for (auto &n : m.nals) if (!m.hdr) nal_idx[n.substr(0, std::min<size_t>(n.size(), 40))] = {p->order, i};
    stat["published messages"]++;
    int csid = m.type == 9 ? p->cs[0] : m.type == 8 ? p->cs[1] : p->cs[2]; Msg mm; mm.type = m.type; mm.ts = m.ts; mm.msid = 1; mm.data = m.data;
    if (p->interleave && !m.hdr && !m.meta) { p->pend.push_back({csid, mm}); if (p->pend.size() >= 2) { if (p->pend[0].first != p->pend[1].first) p->r->raw(p->r->wr.interleave(p->pend)); else for (auto &x : p->pend) p->r->raw(p->r->wr.write(x.first, x.second)); p->pend.clear(); } return; }
    for (auto &x : p->pend) p->r->raw(p->r->wr.write(x.first, x.second));
    p->pend.clear();
    p->r->raw(p->r->wr.write(csid, mm));
}
void Scn::pub_media(PubS *p) {
    if (p->media0 >= 0) return;
    p->st = 1; p->media0 = w.now; uint32_t ts = p->mc.ts0;
    if (!p->nometa) pub_send(p, p->gen->meta(0));
    if (!p->nohdr) { if (p->mc.video) pub_send(p, p->gen->avc_header(ts)); if (p->mc.audio) pub_send(p, p->gen->aac_header(ts)); }
    pump_pub(p);
}
void Scn::pump_pub(PubS *p) {
    if (p->st != 1) return;
    double base = p->mc.ts0;
    while (!p->paused) {
        us_t due = p->media0 + (us_t) ((p->gen->next_ts() - base) * MS / p->speed);
        if (p->limit >= 0 && due > p->media0 + p->limit) { for (auto &x : p->pend) p->r->raw(p->r->wr.write(x.first, x.second)); p->pend.clear(); return; }
        if (due > w.now) break;
        pub_send(p, p->gen->next());
    }
    us_t due = p->media0 + (us_t) ((p->gen->next_ts() - base) * MS / p->speed);
    if (p->batch) due = std::max(due, (w.now / p->batch + 1) * p->batch);
    if (due <= w.now) due = w.now + MS;
    w.at(due, [this, p] { pump_pub(p); });
}
void Scn::stop_pub(PubS *p, const string &mode) {
    if (p->st >= 2) return;
    if (p->r->ready) { for (auto &x : p->pend) p->r->raw(p->r->wr.write(x.first, x.second)); } p->pend.clear();
    p->st = 2; p->t_stop = w.now; p->stop_mode = mode; w.trace("pub %s stops: %s", p->id.c_str(), mode.c_str());
    if (mode == "unpub" || mode == "fcunpub") { p->r->cmd(0, {"FCUnpublish", 6, Amf::null(), p->name}); p->r->cmd(1, {"deleteStream", 7, Amf::null(), 1}); w.after(mode == "unpub" ? 300 * MS : 20 * MS, [p] { p->ac->close(); }); }
    else if (mode == "closestream") { p->r->cmd(1, {"closeStream", 0, Amf::null()}); w.after(500 * MS, [p] { p->ac->close(); }); }
    else if (mode == "close") p->ac->close();
    else if (mode == "reset") { w.fault("publisher reset"); p->ac->reset(); }
    else if (mode == "vanish") { w.fault("publisher vanish"); p->ac->vanish(); }
    else p->ac->close();
}
void Scn::pub_dead(PubS *p, const string &why) {
    if (p->t_dead < 0) { p->t_dead = w.now; p->dead_why = why; w.trace("pub %s dead: %s", p->id.c_str(), why.c_str()); }
    if (p->st < 2) p->st = 3;
}

// ---- players
void Scn::rx_av(PlayS *p, int type, uint32_t ts, const string &d) {
    Recv r; r.type = type; r.ts = ts; r.t = w.now; r.len = d.size(); r.empty = d.empty(); p->last_rx = w.now; p->bytes += d.size();
    if (p->t_first < 0) p->t_first = w.now;
    auto it = idx.find(mkey(type, d));
    if (it != idx.end()) {
        // the same header bytes may have been sent more than once: take the latest on this stream
        for (auto &k : it->second) { PubS *q = pubs[k.first].get(); if (q->name == p->name && msg(k).data == d) { r.pub = k.first; r.idx = k.second; r.hdr = msg(k).hdr; } }
        if (r.pub < 0) for (auto &k : it->second) if (msg(k).data == d) { r.pub = k.first; r.idx = k.second; r.hdr = msg(k).hdr; }
    } else if (!d.empty() && w.tracef) { if (getenv("PS_DUMP")) { write_file("/tmp/rx.bin", d); for (auto &q : pubs) for (auto &m : q->sent) if (m.type == type && m.data.size() == d.size()) write_file("/tmp/tx.bin", m.data); } w.trace("play %s unknown type %d ts %u %s", p->id.c_str(), type, ts, hex(d).c_str()); }
    if (w.tracef && r.pub >= 0) w.trace("play %s rx %s%s ts %u pub %s #%d", p->id.c_str(), type == 9 ? "V" : "A", r.hdr ? "H" : msg({r.pub, r.idx}).key ? "K" : "", ts, pubs[r.pub]->id.c_str(), r.idx);
    p->rx.push_back(r); stat["received messages"]++;
}
void Scn::play_dead(PlayS *p, const string &why) {
    if (p->t_dead < 0) { p->t_dead = w.now; p->dead_why = why; w.trace("play %s dead: %s", p->id.c_str(), why.c_str()); }
    if (p->st < 2) p->st = 3;
}
PlayS *Scn::start_play(const Op &o) {
    auto up = std::make_unique<PlayS>(); PlayS *p = up.get(); p->sc = this; p->order = (int) plays.size(); plays.push_back(std::move(up));
    p->id = o.s("id"); p->kind = o.s("kind", "rtmp"); p->name = plain(o.s("name", "s")); p->app = plain(o.s("app", "live")); p->args = plain(o.s("args")); p->node = (int) o.n("node"); if (p->node >= (int) nodes.size()) p->node = 0;
    p->ip = o.s("ip", fmt("10.2.%d.%d", p->order / 250, 1 + p->order % 250)); p->t_conn = w.now; p->eager = o.n("eager"); p->tolerant = o.n("tol");
    LinkParam lp = link(o); p->buflen = o.n("buflen", 3000);
    if (p->kind == "rtmp") {
        p->ac = w.connect(nodes[p->node].ip, (int) o.n("port", port_rtmp), p->ip, lp);
        p->r = std::make_unique<Rtmp>(&w, p->ac, false); Rtmp *r = p->r.get(); r->wr.rng = Rng(hmix(pl.seed, o.id)); r->wr.compress = (int) o.n("comp", 1);
        if (o.has("px")) r->preamble = proxy_hdr(o);
        if (o.has("noack")) r->auto_ack = false;
        if (o.has("nopong")) r->auto_pong = false;
        r->on_dead = [this, p](const string &why) { play_dead(p, why); };
        if (o.has("die")) p->ac->die_at = o.n("die");
        string tc = o.s("tc", "rtmp://" + o.s("vhost", "sim.test") + "/" + p->app);
        auto doplay = [this, p, r] { p->t_req = w.now; if (p->buflen >= 0) r->user(3, 1, p->buflen); r->cmd(1, {"play", 5, Amf::null(), p->name + (p->args.empty() ? "" : "?" + p->args), -2000}, 8); };
        r->on_ready = [this, p, r, tc, doplay] { r->cmd(0, {"connect", 1, connect_obj(p->app, tc)}); if (p->eager) { r->cmd(0, {"createStream", 2, Amf::null()}); doplay(); } };
        r->on_msg = [this, p, r, doplay](Msg &m) {
            if (m.type == 20) {
                vector<Amf> a = amf_all(m.data); if (a.size() < 2) return; const string &c = a[0].s;
                if (c == "_result" && !p->eager) { if (a[1].n == 1) r->cmd(0, {"createStream", 2, Amf::null()}); if (a[1].n == 2) doplay(); }
                if (c == "onStatus" && a.size() >= 4) { string code = a[3].str("code"); p->status.push_back({w.now, code}); w.trace("play %s status %s", p->id.c_str(), code.c_str()); if (code == "NetStream.Play.Start" && p->t_start < 0) { p->t_start = w.now; if (p->st == 0) p->st = 1; } }
            } else if (m.type == 8 || m.type == 9) rx_av(p, m.type, m.ts, m.data);
            else if (m.type == 4 && m.data.size() >= 6 && rd(m.data, 0, 2) <= 1) p->status.push_back({w.now, rd(m.data, 0, 2) ? "user.eof" : "user.begin"});
            else if (m.type == 18) { p->metas.push_back({w.now, m.data}); if (w.tracef) w.trace("play %s meta %zu bytes", p->id.c_str(), m.data.size()); }
        };
    } else {
        string url = o.s("url"); if (url.empty()) url = "/" + p->kind + "/" + url_escape(p->name) + (o.has("noext") ? "" : "." + p->kind) + (p->args.empty() ? "" : "?" + p->args);
        p->h = std::make_unique<HttpGet>(&w, nodes[p->node].ip, (int) o.n("port", port_http), url, lp, p->ip, o.n("http10"), o.s("vhost", "sim.test")); p->ac = p->h->ac; p->t_req = w.now;
        HttpGet *h = p->h.get(); if (o.has("die")) p->ac->die_at = o.n("die");
        h->on_body = [this, p, h](const char *d, size_t n) { if (p->t_start < 0) { p->t_start = w.now; if (p->st == 0) p->st = 1; } p->http_status = h->p.status; if (h->p.status != 200) return; if (p->kind == "flv") p->flv.feed(d, n); else if (p->kind == "ts") p->ts.feed(d, n); };
        h->on_done = [this, p, h] { p->http_status = h->p.status; play_dead(p, h->conn_err ? "error" : "eof"); };
        p->flv.on_tag = [this, p](FlvTag &t) { if (t.type == 18) p->metas.push_back({w.now, t.data}); else rx_av(p, t.type, t.ts, t.data); };
        p->ts.strict_cc = pl.k("app.mpegts_send_all") != "off";
        p->ts.on_pes = [this, p](TsPes &t) { t.t = w.now; p->pes.push_back(t); p->last_rx = w.now; stat["received messages"]++; };
    }
    return p;
}
void Scn::stop_play(PlayS *p, const string &mode) {
    if (p->st >= 2) return;
    p->st = 2; p->t_stop = w.now; p->stop_mode = mode; w.trace("play %s stops: %s", p->id.c_str(), mode.c_str());
    if (mode == "unplay" && p->r) { p->r->cmd(1, {"deleteStream", 7, Amf::null(), 1}); w.after(300 * MS, [p] { p->ac->close(); }); }
    else if (mode == "reset") { w.fault("player reset"); p->ac->reset(); }
    else if (mode == "vanish") { w.fault("player vanish"); p->ac->vanish(); }
    else p->ac->close_now();
}

// ---- ops every scenario understands
bool Scn::apply(const Op &o) {
    const string &v = o.verb;
    if (v == "pub") { if (!pub(o.s("id"))) start_pub(o); return true; }
    if (v == "play") { if (!play(o.s("id"))) start_play(o); return true; }
    if (v == "unpub") { if (PubS *p = pub(o.s("id"))) stop_pub(p, o.s("mode", "unpub")); return true; }
    if (v == "unplay") { if (PlayS *p = play(o.s("id"))) stop_play(p, o.s("mode", "close")); return true; }
    if (v == "quit") { auto end_it = [](ActorConn *a) { if (a && a->c && !a->c->dead && !a->closed && !a->vanished) a->reset(); }; for (auto &p : pubs) end_it(p->ac); for (auto &p : plays) end_it(p->ac); return true; }     // everyone still there leaves
    if (v == "repub") {     // ends the publish and starts another one (id=new) on the same connection
        PubS *p = pub(o.s("of")); if (!p || p->st != 1 || pub(o.s("id"))) return true;
        for (auto &x : p->pend) p->r->raw(p->r->wr.write(x.first, x.second)); p->pend.clear(); p->st = 2; p->t_stop = w.now; p->stop_mode = "closestream"; w.fault("publish again on one connection");
        if (o.s("mode") == "delete") { p->r->cmd(0, {"FCUnpublish", 6, Amf::null(), p->name}); p->r->cmd(1, {"deleteStream", 7, Amf::null(), 1}); } else p->r->cmd(1, {"closeStream", 0, Amf::null()});
        Op *op = new Op(o); op->set("over", p->id); w.after(o.n("dur", 300) * MS, [this, op] { start_pub(*op); delete op; }); return true;
    }
    if (v == "epoch") {     // new codec headers in mid-stream
        PubS *p = pub(o.s("id")); if (!p || p->st != 1) return true;
        p->gen->epoch++; uint32_t ts = p->gen->next_ts(); string wh = o.s("what", "both"); w.fault("codec header change");
        if (p->mc.video && wh != "a") pub_send(p, p->gen->avc_header(ts));
        if (p->mc.audio && wh != "v") pub_send(p, p->gen->aac_header(ts));
        return true;
    }
    if (v == "meta") { PubS *p = pub(o.s("id")); if (p && p->st == 1) { p->gen->epoch += 0; Pub m = p->gen->meta(p->gen->next_ts()); pub_send(p, m); } return true; }
    if (v == "tsjump") { PubS *p = pub(o.s("id")); if (p && p->st == 1) { int64_t by = o.n("by"); w.fault("timestamp jump"); double nv = p->gen->vts + by, na = p->gen->ats + by; if (nv < 0 || na < 0) return true; p->gen->vts = nv; p->gen->ats = na; p->media0 -= (us_t) (by * MS / p->speed); } return true; }
    if (v == "pubpause") { PubS *p = pub(o.s("id")); if (p && p->st == 1) { us_t d = o.n("dur") * MS; p->paused = true; w.fault("publisher stall"); w.after(d, [p] { p->paused = false; }); } return true; }
    if (v == "rate") { PlayS *p = play(o.s("id")); if (p && p->st < 2) { w.fault("slow reader"); p->impaired = true; p->ac->set_rate(o.n("bps")); if (o.n("bps") == 0) p->impair_end = w.now; } return true; }
    if (v == "stall") { PlayS *p = play(o.s("id")); if (p && p->st < 2) { us_t d = o.n("dur") * MS; w.fault("stalled reader"); p->stalls.push_back({w.now, w.now + d}); p->ac->set_reading(false); w.after(d, [p] { p->ac->set_reading(true); p->impair_end = std::max(p->impair_end, p->sc->w.now); }); } return true; }
    if (v == "hold") {       // the link of a session moves nothing for a while
        ActorConn *a = nullptr; if (PlayS *p = play(o.s("id"))) { a = p->ac; p->stalls.push_back({w.now, w.now + o.n("dur") * MS}); } else if (PubS *q = pub(o.s("id"))) a = q->ac;
        if (a && a->c && !a->c->dead) { w.fault("link outage"); Conn *c = a->c; c->blocked = true; w.after(o.n("dur") * MS, [this, c] { c->blocked = false; w.kick_conns(); }); }
        return true;
    }
    if (v == "clock") { w.fault("clock jump"); w.wall_off += o.n("by") * MS; w.tick(); return true; }
    if (v == "pstall") { int n = (int) o.n("node"); if (n < (int) nodes.size() && nodes[n].p) { w.fault("process stall"); asleep.push_back({w.now, w.now + o.n("dur") * MS}); for (auto &p : w.procs) if (p->node == n) p->stall_until = w.now + o.n("dur") * MS; } return true; }
    if (v == "get") { fetch((int) o.n("node"), o.s("url"), [this](HttpGet *g) { if (w.tracef) w.trace("get %s: %d %s", g->url.c_str(), g->p.status, g->p.body.c_str()); }); return true; }
    if (v == "pause") { PlayS *p = play(o.s("id")); if (p && p->r && p->st == 1) { bool on = o.n("on", 1); p->pauses.push_back({w.now, on}); p->r->cmd(1, {"pause", 0, Amf::null(), Amf::b(on), 0}, 8); } return true; }
    return false;
}
void Scn::fetch(int node, const string &url, std::function<void(HttpGet *)> fn, int port, const string &from) {
    LinkParam lp; lp.lat = 200; lp.jitter = 50; gets.push_back(std::make_unique<HttpGet>(&w, nodes[node].ip, port, url, lp, from)); HttpGet *g = gets.back().get(); g->on_done = [g, fn] { fn(g); };
}
map<string, int64_t> Scn::sys_stat(const string &b) {
    map<string, int64_t> m;
    for (auto &l : split(b, '\n')) { size_t c = l.rfind(": "); if (c == string::npos) continue; m[l.substr(0, c)] = atoll(l.c_str() + c + 2); }
    return m;
}
// "pingos.so+0x123<ngx_foo<..." with the offsets turned into function names
string Scn::resolve(const string &bt) {
    string o; int n = 0;
    for (auto &f : split(split(bt, '\n')[0], '<')) {
        string x = f; size_t k = f.find(".so+0x");
        if (k != string::npos && n++ < 12) {
            string lib = cfg.scratch + "/mod/" + f.substr(0, k + 3), cmd = "addr2line -fe " + lib + " " + f.substr(k + 4) + " 2>/dev/null";
            if (exists(lib)) if (FILE *pf = popen(cmd.c_str(), "r")) { char b[256] = ""; if (fgets(b, sizeof b, pf) && b[0] != '?') { x = b; while (!x.empty() && x.back() == '\n') x.pop_back(); } pclose(pf); }
        }
        o += (o.empty() ? "" : "<") + x;
    }
    return o;
}
string Scn::where_crashed(const string &bt) {
    string o; int n = 0;
    for (auto &f : split(resolve(bt), '<')) if (f.find("+0x") == string::npos && !f.empty() && f != "main" && f[0] != '_' && n++ < 3) o += (o.empty() ? " in " : "<") + f;
    return o;
}
// what "distinct states" counts: the condition of every session and of its link
uint64_t Scn::abstract() {
    uint64_t h = 17; auto bucket = [](uint64_t v) { int b = 0; while (v) { v >>= 2; b++; } return b; };
    auto conn = [&](ActorConn *a) { if (!a || !a->c) return; Conn *c = a->c; h = hmix(h, (c->established << 4) | (c->dead << 3) | (c->blocked << 2) | (a->reading << 1) | (c->p[a->side].nospace)); h = hmix(h, bucket(c->p[a->side].used())); h = hmix(h, bucket(c->p[1 - a->side].used())); };
    for (auto &p : pubs) { h = hmix(h, p->st * 8 + p->paused * 2 + (p->t_start >= 0)); h = hmix(h, p->gen->epoch); conn(p->ac); }
    for (auto &p : plays) { h = hmix(h, p->st * 8 + (p->t_first >= 0) * 2 + (p->t_start >= 0)); conn(p->ac); }
    for (auto &p : w.procs) h = hmix(h, (p->st == PS_DEAD) * 2 + (p->stall_until > w.now));
    return abstract_extra(h);
}
void Scn::run() {
    w.on_crash = [this](Proc *p, int sig, const string &bt) {
        crashed = true;
        bad(sig == -1 ? "server busy loop" : sig == -2 ? "server blocked" : fmt("server crashed with signal %d", sig) + where_crashed(bt), resolve(bt));
        w.stopping = true;
    };
    w.abstract_state = [this] { return abstract(); };
    setup();
    start_nodes();
    for (auto &o : pl.ops) { Op *op = (Op *) &o; w.at(op->t, [this, op] { w.trace("%s", op->text().c_str()); w.hash = hmix(w.hash, hstr(op->text())); if (!apply(*op)) fprintf(stderr, "unknown op %s\n", op->verb.c_str()); }); }
    w.run_until(pl.end);
    while (!crashed && more()) w.run_until(pl.end);
    for (auto &n : nodes) if (n.p && n.p->st == PS_DEAD && !crashed && !n.killed && n.starts.size() == 1 && n.up) { bad("server process ended", read_file(n.prefix + "/stderr").substr(0, 300) + errlog(n.id).substr(0, 600)); crashed = true; }
    for (auto &n : nodes) if (!n.up && n.p) { crashed = true; bad("server did not start", read_file(n.prefix + "/stderr").substr(0, 300)); }
    if (!crashed) finish();
    w.kill_all();
}
