// P25: what a peer calls its stream, application or arguments never reaches beyond it.
#include "scn.h"
#include "gen.h"
#include "disk.h"
#include "tsdec.h"
#include <algorithm>
#include <cerrno>

struct P25 : Scn {
    using Scn::Scn;
    Disk disk{*this}; vector<std::unique_ptr<HttpSrv>> cbs; std::set<string> said;
    struct Call { us_t t; string call, act, app, name; }; vector<Call> calls;
    void once(const string &what, const string &key, const string &detail) { if (said.insert(what + key).second) bad(what, detail); }
    static string show(const string &s) { return url_escape(s); }
    static string normal(const string &p) { vector<string> v; for (auto &x : split(p, '/')) { if (x.empty() || x == ".") continue; if (x == "..") { if (!v.empty()) v.pop_back(); } else v.push_back(x); } string o; for (auto &x : v) o += "/" + x; return o; }
    bool inside(const string &path) {
        string n = normal(path), pre = nodes[0].prefix; if (n.compare(0, pre.size() + 1, pre + "/")) return false; n = n.substr(pre.size() + 1);
        for (const char *d : {"data/hls", "data/hls2", "data/keys", "data/keys2", "data/dash", "data/dash2", "data/rec", "data/lr", "data/a.acc", "logs", "client_body_temp", "proxy_temp", "fastcgi_temp", "uwsgi_temp", "scgi_temp"}) { string s = d; if (n == s || n.compare(0, s.size() + 1, s + "/") == 0) return true; }
        return n == "data";
    }
    void setup() override {
        disk.deny = [this](Proc *, int op, const string &path, const string &path2) {
            stat["file operations checked"]++;
            for (auto &x : {path, path2}) if (!x.empty() && !inside(x)) { once("a file outside the configured directories is touched", fmt("%d", op), fmt("operation %d on %s", op, show(normal(x)).c_str())); return true; }
            return false;
        };
        disk.attach();
        w.listen("10.8.0.2", 80, [this](ActorConn *a) { cbs.push_back(std::make_unique<HttpSrv>(&w, a)); cbs.back()->on_req = [this](HttpSrv *h) { request(h); }; });
    }
    bool apply(const Op &o) override { return disk.apply(o) || Scn::apply(o); }
    void request(HttpSrv *h) {
        stat["callbacks checked"]++; string l = h->p.line; size_t a = l.find(' '), b = l.rfind(' '), q = l.find('?'); Call c; c.t = w.now; map<string, int> n;
        bool ok = l.compare(0, 4, "GET ") == 0 && b != a && l.substr(b + 1) == "HTTP/1.1" && q != string::npos && l.substr(a + 1, q - a - 1) == "/cb";
        for (unsigned char ch : l.substr(a + 1, b > a ? b - a - 1 : 0)) if (ch <= 0x20 || ch == 0x7f || ch == '#') ok = false;
        if (!ok || h->p.hdr.count("x-evil")) { once("a callback is not the request that was configured", "", show(l)); h->reply(200, "", true); return; }
        for (auto &x : split(l.substr(q + 1, b - q - 1), '&')) { size_t e = x.find('='); string k = x.substr(0, e), v = e == string::npos ? "" : url_decode(x.substr(e + 1)); if (k == "k") break; n[k]++; if (k == "call") c.call = v; if (k == "act") c.act = v; if (k == "app") c.app = v; if (k == "name") c.name = v; }
        for (auto &k : n) if (k.second > 1) once("a callback says something twice", "", show(l));
        calls.push_back(c); h->reply(200, "", false);
    }
    static string key(const string &app, const string &name) { return app + "|" + name; }
    bool odd(const string &s) { return s.find("..") != string::npos || (s.find('/') != string::npos && (pl.k("app.hls") != "" || pl.k("app.dash") != "")); }
    void finish() override {
        std::set<string> pubn, playn; for (auto &p : pubs) pubn.insert(key(p->app, p->name)); for (auto &p : plays) playn.insert(key(p->app, p->name));
        for (auto &c : calls) if (!(c.call == "publish" ? pubn : playn).count(key(c.app, c.name))) once("a callback names a stream that nobody asked for", c.call, c.call + " " + c.act + " " + show(c.app) + "/" + show(c.name));
        for (auto &p : pubs) {
            if (p->t_start >= 0 && pl.k("app.on_publish") != "") { bool f = false; for (auto &c : calls) if (c.call == "publish" && c.act == "start" && key(c.app, c.name) == key(p->app, p->name) && c.t <= p->t_start) f = true; if (!f) bad("a publisher is admitted without a callback that names it", p->id + " " + show(p->app) + "/" + show(p->name)); else stat["callbacks name the stream"]++; }
            if (p->t_dead >= 0 && p->t_stop < 0 && !odd(p->name)) bad("a publisher is closed for its name", fmt("%s %s at %.3f s: %s", p->id.c_str(), show(p->name).c_str(), p->t_dead / 1e6, p->dead_why.c_str()));
        }
        for (auto &p : plays) if (p->kind == "rtmp" || p->kind == "flv") { AvOpt o; o.no_loss = false; check_av(*this, *p, o); }
        string pre = nodes[0].prefix; vector<string> files; walk(pre + "/data/rec", files); walk(pre + "/data/lr", files);
        for (auto &f : files) { if (f.size() > 4 && f.substr(f.size() - 4) == ".flv") flv(f); else if (f.size() > 3 && f.substr(f.size() - 3) == ".ts") ts(f); }
        if (pl.k("app.access_log") != "") {
            string log = read_file(pre + "/data/a.acc"); size_t lines = 0; for (auto &l : split(log, '\n')) { if (l.empty()) continue; lines++; if (l.compare(0, 2, "B|") || l.size() < 4 || l.compare(l.size() - 2, 2, "|E") || std::count(l.begin(), l.end(), '|') != 6) once("a line of the access log is not the one configured", "", show(l)); }
            stat["log lines checked"] += lines;
        }
    }
    void walk(const string &d, vector<string> &out) { for (auto &x : list_dir(d)) { string p = d + "/" + x; if (is_dir(p)) walk(p, out); else out.push_back(p); } }
    static bool climbs(const string &n) { for (auto &x : split(n, '/')) if (x == "..") return true; return false; }
    static string rname(const string &n) { size_t k = n.find("/../"); return n.substr(0, k); } // documented in the code: the name of a recording ends at /../
    void flv(const string &f) {
        string b = f.substr(f.rfind('/') + 1), name = url_decode(b.substr(0, b.size() - 4)), d = read_file(f), why; FlvParser fp; stat["recordings checked"]++;
        if (f.substr(0, f.rfind('/')) != nodes[0].prefix + "/data/rec") { bad("a recording is not in the directory configured for it", show(f)); return; }
        fp.on_tag = [&](FlvTag &t) { if (t.type == 18) return; auto it = idx.find(mkey(t.type, t.data)); bool ok = false; if (it != idx.end()) for (auto &k : it->second) if (rname(pubs[k.first]->name) == name) ok = true; if (!ok && why.empty()) why = fmt("message %zu", fp.tags); stat["recorded messages compared"]++; };
        fp.feed(d.data(), d.size()); if (!why.empty()) bad("a recording holds a message of another stream", show(name) + ": " + why);
    }
    void ts(const string &f) {
        string dir = f.substr(0, f.rfind('/')), day = dir.substr(dir.rfind('/') + 1), root = nodes[0].prefix + "/data/lr/default/"; if (f.compare(0, root.size(), root)) { bad("a recording is not in the directory configured for it", show(f)); return; }
        PubS *p = nullptr; for (auto &q : pubs) { if (climbs(q->name) || climbs(q->app)) continue; string x = root + q->app + "/" + q->name + "/"; auto n = normal(x); if (normal(f).compare(0, n.size() + 1, n + "/") == 0 && (!p || q->name.size() > p->name.size())) p = q.get(); }
        if (!p) { bad("a recording of a stream that was never published", show(f)); return; }
        stat["recordings checked"]++; vector<TsPes> pes; TsParser ts; ts.on_pes = [&](TsPes &x) { pes.push_back(x); }; string d = read_file(f); ts.feed(d.data(), d.size() / 188 * 188); ts.flush(); if (ts.bad) return;
        vector<TsUnit> u; TsOpt o; o.who = "recording " + show(f); ts_units(*this, *this, pes, p->name, p->app, o, u); stat["recorded messages compared"] += u.size();
    }
};
static void gen25(Plan &p, Rng &r) {
    gen_live(p, r, {"rtmp", "rtmp", "flv"}); p.set("rtmp.out_queue", 4096); p.set("x.enc", 1); for (auto &k : {"app.recorder#1", "app.hls", "app.hls_path", "app.dash", "app.dash_path", "app.live_record", "app.live_record_path"}) p.kn.erase(k);
    p.set("loc.location#flv", "/flv { flv_live 1935 app=live; }"); p.set("sim.apps", "live,*");
    if (r.chance(0.5)) { p.set("app.hls", "on"); p.set("app_live.hls_path", "@PREFIX@/data/hls"); p.set("app_*.hls_path", "@PREFIX@/data/hls2"); p.set("app.hls_fragment", "500ms"); p.set("app.hls_nested", r.chance(0.5) ? "on" : "off"); if (r.chance(0.4)) { p.set("app.hls_keys", "on"); p.set("app_live.hls_key_path", "@PREFIX@/data/keys"); p.set("app_*.hls_key_path", "@PREFIX@/data/keys2"); } }
    if (r.chance(0.35)) { p.set("app.dash", "on"); p.set("app_live.dash_path", "@PREFIX@/data/dash"); p.set("app_*.dash_path", "@PREFIX@/data/dash2"); p.set("app.dash_fragment", "500ms"); p.set("app.dash_nested", r.chance(0.5) ? "on" : "off"); }
    if (r.chance(0.5)) p.set("app.recorder#1", "r1 { record all; record_path @PREFIX@/data/rec; record_suffix .flv; }");
    if (r.chance(0.6)) { p.set("app.live_record", "on"); p.set("app.live_record_path", "@PREFIX@/data/lr"); }
    if (r.chance(0.6)) p.set("app.on_publish", "http://10.8.0.2/cb stage=start timeout=2s" + string(r.chance(0.5) ? " args=k=$pargs" : "")); if (r.chance(0.4)) p.set("app.on_play", "http://10.8.0.2/cb stage=start timeout=2s");
    if (r.chance(0.6)) { p.set("rtmpmain.log_format", "x 'B|$remote_addr|$app|$name|$args|$connection|E'"); p.set("app.access_log", "data/a.acc x"); }
    const string evil = " HTTP/1.1\r\nX-Evil: 1\r\n\r\n";
    vector<string> names = {"cam", "a b", "a&name=cam", "a&app=q&name=cam", "a#b", "x%41", "%2e%2e/up", "a\nB", "a\r\nX-Evil: 1", "x" + evil + "GET /cb", "a/b", "a/b/c", "/abs", "a//b", "a/./b", ".", "..", "../up", "../../up", "../../../up", "a/../b", "a/../../../b", "..\\x", "a..b", "cam.flv", "-", "caf\xc3\xa9", "\x01\x02", "a\tb", "q\"r", "<x>", "$name", "%s%n", "a;b", "a=b", "a+b", string(255, 'n'), "../../../../../../../../../../dev/shm/psim_up", string(80, '/') + "x"};
    vector<string> apps = {"live", "live", "live", "..", "../..", "a b", "x&name=cam", "x&app=live", "a#", "..%2f", "a\r\nX-Evil: 1", "x" + evil, "other", "a.b"};
    for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[r.below(i)]);
    map<string, std::pair<string, string>> m; size_t n = 0;
    for (auto &o : p.ops) {
        if (!o.has("name")) continue; string x = o.s("name"); if (!m.count(x)) m[x] = {r.pick(apps), names[n++ % names.size()]};
        auto &k = m[x]; o.set("name", url_escape(k.second)); if (k.first != "live") o.set("app", url_escape(k.first));
        if (o.verb == "play" && o.s("kind") == "flv" && (k.first != "live" || k.second.find('/') != string::npos || k.second.find(".flv") != string::npos || k.second == "." || k.second.find("..") != string::npos)) { o.kv.erase("kind"); o.kv.erase("http10"); }
        if (o.verb == "pub" && r.chance(0.3)) o.set("args", url_escape(r.pick<string>({"t=1", "t=1" + evil, "t=a b", "t=1#2", "t=\r\nX-Evil: 1"})));
    }
}
static PropReg reg("P25", gen25, make_scn<P25>);
