// What a player must have received, given what was published.
#include "scn.h"
#include <algorithm>

static const char *kn(int t) { return t == 9 ? "video" : "audio"; }

us_t link_full(PlayS &p) { return p.ac && p.ac->c ? p.ac->c->p[p.ac->side].t_nospace : -1; }
// the publisher's own link is behind: bytes are on the wire while the server has read all that arrived
bool uplink_slow(PubS &q) { if (!q.ac || !q.ac->c) return false; Pipe &p = q.ac->c->p[1 - q.ac->side]; return p.flight_bytes > 3000 && p.avail() == 0; }
// P01: exactness of an audio/video message sequence (RTMP and FLV players)
void check_av(Scn &s, PlayS &p, const AvOpt &o) {
    string who = p.kind + " player " + p.id; bool ordered = true;
    map<int, int> last, lastov; map<int, vector<int>> got[2]; vector<int> pub_order; map<int, us_t> first_t;
    for (auto &q : s.pubs) if (q->interleave) ordered = false;
    int cur = -1;
    for (size_t i = 0; i < p.rx.size(); i++) {
        Recv &r = p.rx[i]; int v = r.type == 9;
        if (r.empty && !v) { s.stat["dummy audio"]++; continue; }         // wait_video's empty audio frame
        if (r.pub < 0) { s.bad(p.kind + " player received a message that was never published", fmt("%s: message %zu, %s, %zu bytes, timestamp %u, at %.3f s", who.c_str(), i, kn(r.type), r.len, r.ts, r.t / 1e6)); return; }
        PubS &q = *s.pubs[r.pub]; Pub &m = s.msg({r.pub, r.idx});
        if (q.name != p.name || q.app != p.app) { s.bad(p.kind + " player received a message of another stream", fmt("%s of stream %s got message %d of publisher %s (stream %s)", who.c_str(), p.name.c_str(), r.idx, q.id.c_str(), q.name.c_str())); return; }
        if (m.type != r.type) { s.bad(p.kind + " player received a message with another type", who); return; }
        if (r.pub != cur) {
            if (std::find(pub_order.begin(), pub_order.end(), r.pub) != pub_order.end() && !r.hdr) { s.bad(p.kind + " player went back to an earlier publisher", fmt("%s: message %zu belongs to publisher %s again", who.c_str(), i, q.id.c_str())); return; }
            if (!r.hdr) { pub_order.push_back(r.pub); cur = r.pub; first_t[cur] = r.t; }
        }
        if (r.hdr) continue;
        int key = r.pub * 2 + v;
        if (last.count(key) && r.idx <= last[key]) { s.bad(r.idx == last[key] ? p.kind + " player received a message twice" : p.kind + " player received messages out of order", fmt("%s: %s message #%d of publisher %s after #%d", who.c_str(), kn(r.type), r.idx, q.id.c_str(), last[key])); return; }
        if (ordered && lastov.count(r.pub) && r.idx <= lastov[r.pub]) { s.bad(p.kind + " player received audio and video out of publish order", fmt("%s: message #%d of publisher %s after #%d", who.c_str(), r.idx, q.id.c_str(), lastov[r.pub])); return; }
        last[key] = r.idx; lastov[r.pub] = r.idx; got[v][r.pub].push_back(r.idx);
        if (o.ts_exact && r.ts != m.ts) { s.bad(p.kind + " player received a message with another timestamp", fmt("%s: %s message #%d of publisher %s published with timestamp %u arrived with %u", who.c_str(), kn(r.type), r.idx, q.id.c_str(), m.ts, r.ts)); return; }
        s.stat["messages compared"]++;
    }
    if (!o.no_loss) return;
    bool wait_video = s.pl.k("app.wait_video") == "on", inter = s.pl.k("app.interleave") == "on", wait_key = s.pl.k("app.wait_key", "on") == "on";
    us_t until = p.t_stop >= 0 ? p.t_stop : p.t_dead >= 0 ? p.t_dead : s.w.now;
    for (auto &qp : s.pubs) {
        PubS &q = *qp; if (q.name != p.name || q.app != p.app || q.rejected || q.t_start < 0) continue;
        us_t qend = q.t_stop >= 0 ? q.t_stop : q.t_dead >= 0 ? q.t_dead : s.w.now; (void) qend;
        bool end_ok = o.check_end && p.t_stop < 0 && p.t_dead < 0 && (q.graceful() || (q.st == 1)) && p.t_start >= 0;
        bool start_ok = o.check_start && p.t_start >= 0;
        for (int v = 1; v >= 0; v--) {
            int ty = v ? 9 : 8; auto &g = got[v][q.order];
            // contiguity
            vector<int> all; for (size_t i = 0; i < q.sent.size(); i++) if (q.sent[i].type == ty && !q.sent[i].hdr) all.push_back((int) i);
            if (all.empty()) continue;
            if (!g.empty()) {
                size_t a = std::lower_bound(all.begin(), all.end(), g[0]) - all.begin();
                for (size_t k = 0; k < g.size(); k++) {
                    if (a + k >= all.size() || all[a + k] != g[k]) {
                        string cl; if (o.gop && s.pl.k("app.send_all") != "on") {      // known: the cache dropped what a lagging player still needed, it goes on with the next cached keyframe
                            std::set<int> have; for (int x = 0; x < 2; x++) for (int i : got[x][q.order]) have.insert(i);
                            int at = a + k < all.size() ? all[a + k] : -1; auto nx = have.upper_bound(q.interleave ? at - 3 : at); while (nx != have.end() && q.sent[*nx].hdr) ++nx;
                            // everything between the last message before the hole and the first after it is missing, and it resumes at a keyframe (or there is no video)
                            bool key = !q.mc.video; for (int n = 0; at >= 0 && nx != have.end() && n <= (q.interleave ? 6 : 0); ++n, ++nx) if (q.sent[*nx].key) key = true;
                            if (key) cl = " (partial cache, goes on at the next cached keyframe)";
                        }
                        s.bad(p.kind + " player misses messages in the middle" + cl, fmt("%s: after %s message #%d of publisher %s comes #%d, expected #%d", who.c_str(), kn(ty), k ? g[k - 1] : -1, q.id.c_str(), g[k], a + k < all.size() ? all[a + k] : -1)); return; }
                }
                s.stat["gap-free sequences"]++;
            }
            // where it has to start
            int need = -1; us_t from = p.t_start;
            if (start_ok) {
                bool vid = q.mc.video;
                int key0 = -1; for (int i : all) if (q.sent[i].t_sent > from && (!v || !wait_key || q.sent[i].key)) { key0 = i; break; }
                if (v) need = key0;
                else if ((wait_video || inter) && vid) {
                    auto &gv = got[1][q.order]; int fv = gv.empty() ? -1 : gv[0];
                    if (fv >= 0) { for (int i : all) if (q.sent[i].t_sent > from && i > fv) { need = i; break; } }
                } else if (!(wait_video || inter)) need = key0;
                if (need >= 0 && !q.interleave) {
                    if (g.empty()) {
                        us_t ts = q.sent[need].t_sent;
                        if (end_ok && ts < until - 2 * SEC) { s.bad(p.kind + " player receives nothing", fmt("%s: no %s of publisher %s although message #%d was published %.3f s after it joined", who.c_str(), kn(ty), q.id.c_str(), need, (ts - from) / 1e6)); return; }
                    } else if (g[0] > need) { s.bad(p.kind + " player starts late", fmt("%s: first %s message of publisher %s is #%d, expected #%d or earlier (joined at %.3f s)", who.c_str(), kn(ty), q.id.c_str(), g[0], need, from / 1e6)); return; }
                }
                if (v && wait_key && !g.empty() && !q.sent[g[0]].key) { s.badp(s.prop(), p.kind + " player starts with a frame that is not a keyframe", fmt("%s: #%d", who.c_str(), g[0])); return; }
            }
            // and the last one
            if (end_ok && !g.empty() && (link_full(p) > s.w.now - 3 * SEC || uplink_slow(q))) s.stat["tails skipped, link full"]++;
            else if (end_ok && !g.empty()) {
                int lastneed = -1; for (int i : all) if (q.sent[i].t_sent < s.w.now - 3 * SEC || q.graceful()) lastneed = i;
                int lag = 0; for (int i : all) if (i > g.back() && i <= lastneed) lag++;
                if (lag > o.end_lag) { s.bad(p.kind + " player misses the last messages", fmt("%s: last %s message of publisher %s received is #%d, but #%d was published (%d missing)", who.c_str(), kn(ty), q.id.c_str(), g.back(), lastneed, lag)); return; }
                s.stat["complete tails"]++;
            }
        }
    }
}
