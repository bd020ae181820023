#include "tsdec.h"
#include <algorithm>
static const int64_t M33 = 1LL << 33;
static int64_t d33(int64_t a, int64_t b) { int64_t d = ((a - b) % M33 + M33) % M33; return d > M33 / 2 ? d - M33 : d; }

bool ts_units(Scn &s, Scn &, vector<TsPes> &pes, const string &name, const string &app, const TsOpt &o, vector<TsUnit> &out) {
    map<int, size_t> lastp; for (size_t i = 0; i < pes.size(); i++) lastp[pes[i].pid] = i;
    auto fail = [&](const string &w, const string &d) { s.bad(w, o.who + ": " + d); return false; };
    for (size_t k = 0; k < pes.size(); k++) {
        TsPes &p = pes[k]; bool partial_ok = o.last_partial && lastp[p.pid] == k && !p.bounded;
        if (p.stream_id == 0xe0) {
            vector<string> nals = split_annexb(p.data), body, ps; bool hevc = false;
            for (auto &n : nals) { if (n.empty()) continue; if (s.nal_idx.count(n.substr(0, std::min<size_t>(n.size(), 40)))) { body.push_back(n); continue; } ps.push_back(n); }
            if (body.empty()) { if (partial_ok) continue; return fail("TS video access unit was never published", fmt("PES %zu, %zu bytes: %s", k, p.data.size(), hex(p.data).c_str())); }
            auto key = s.nal_idx[body[0].substr(0, std::min<size_t>(body[0].size(), 40))]; Pub &m = s.msg(key); PubS &q = *s.pubs[key.first]; hevc = q.mc.hevc;
            if (q.name != name || q.app != app) return fail("TS output carries an access unit of another stream", fmt("publisher %s", q.id.c_str()));
            if (m.type != 9) return fail("TS output carries audio as video", "");
            if (body != m.nals) { if (partial_ok) continue; return fail("TS video access unit differs from the published one", fmt("message #%d of publisher %s: %zu NALs, published %zu; sizes %zu and %zu", key.second, q.id.c_str(), body.size(), m.nals.size(), body.empty() ? 0 : body[0].size(), m.nals.empty() ? 0 : m.nals[0].size())); }
            // what else is in it: access unit delimiter and parameter sets
            string sets; int hdr = -1; for (int i = key.second - 1; i >= 0; i--) if (q.sent[i].hdr && q.sent[i].type == 9) { hdr = i; break; }
            for (auto &n : ps) { int t = hevc ? ((unsigned char) n[0] >> 1) & 63 : n[0] & 31; if (hevc ? t == 35 : t == 9) continue; if (!(hevc ? t >= 32 && t <= 34 : t == 7 || t == 8)) return fail("TS video access unit carries a NAL that was never published", fmt("message #%d of publisher %s, NAL type %d: %s", key.second, q.id.c_str(), t, hex(n).c_str())); if (hdr >= 0 && q.sent[hdr].data.find(n) == string::npos) return fail("TS keyframe carries parameter sets that are not the current ones", fmt("message #%d of publisher %s needs header #%d", key.second, q.id.c_str(), hdr)); sets += (char) t; }
            if (m.key && hdr >= 0) { bool ok = hevc ? sets.find((char) 33) != string::npos && sets.find((char) 34) != string::npos : sets.find((char) 7) != string::npos && sets.find((char) 8) != string::npos; if (!ok) return fail("TS keyframe without its parameter sets", fmt("message #%d of publisher %s", key.second, q.id.c_str())); }
            if (o.ts && (d33(p.dts, (int64_t) m.ts * 90 + o.base) || d33(p.pts, (int64_t) m.ts * 90 + (int64_t) m.cts * 90 + o.base))) return fail("TS video timestamp differs from the published one", fmt("message #%d of publisher %s: ts %u cts %d, dts %ld pts %ld", key.second, q.id.c_str(), m.ts, m.cts, (long) p.dts, (long) p.pts));
            out.push_back({9, key.first, key.second, p.pts, p.dts, p.t, k, true}); s.stat["access units compared"]++;
        } else {
            vector<AdtsFrame> fr; string why; bool ok = split_adts(p.data, fr, why);
            if (!ok && !partial_ok) return fail("TS audio payload is not ADTS", why);
            for (size_t i = 0; i < fr.size(); i++) {
                auto it = s.nal_idx.find(fr[i].data.substr(0, std::min<size_t>(fr[i].data.size(), 40)));
                if (it == s.nal_idx.end()) return fail("TS audio frame was never published", fmt("PES %zu frame %zu: %s", k, i, hex(fr[i].data).c_str()));
                Pub &m = s.msg(it->second); PubS &q = *s.pubs[it->second.first];
                if (q.name != name || q.app != app) return fail("TS output carries an access unit of another stream", fmt("publisher %s", q.id.c_str()));
                if (m.nals.empty() || m.nals[0] != fr[i].data) return fail("TS audio frame differs from the published one", fmt("message #%d of publisher %s", it->second.second, q.id.c_str()));
                int hdr = -1; for (int j = it->second.second - 1; j >= 0; j--) if (q.sent[j].hdr && q.sent[j].type == 8) { hdr = j; break; }
                if (hdr >= 0 && q.sent[hdr].data.size() >= 4) { unsigned v = rd(q.sent[hdr].data, 2, 2); int obj = v >> 11, sr = v >> 7 & 15, ch = v >> 3 & 15; if (obj != fr[i].obj || sr != fr[i].sr_idx || ch != fr[i].ch) return fail("TS audio frame carries parameters that are not the current ones", fmt("message #%d of publisher %s: type %d rate %d channels %d, header #%d says %d %d %d", it->second.second, q.id.c_str(), fr[i].obj, fr[i].sr_idx, fr[i].ch, hdr, obj, sr, ch)); }
                if (i == 0 && o.ts) { int64_t d = d33(p.pts, (int64_t) m.ts * 90 + o.base); if (d > o.a_slack || d < -o.a_slack) return fail("TS audio timestamp differs from the published one", fmt("message #%d of publisher %s: ts %u, pts %ld", it->second.second, q.id.c_str(), m.ts, (long) p.pts)); }
                out.push_back({8, it->second.first, it->second.second, p.pts, p.dts, p.t, k, i == 0}); s.stat["access units compared"]++;
            }
        }
    }
    return true;
}
bool ts_order(Scn &s, vector<TsUnit> &u, const TsOpt &o, const string &what) {
    map<int, int> last; vector<int> order; int cur[2] = {-1, -1};
    for (auto &x : u) {
        PubS &q = *s.pubs[x.pub]; int v = x.type == 9, key = x.pub * 2 + v;
        if (cur[v] != x.pub) { if (std::find(order.begin(), order.end(), key) != order.end()) { s.bad(what + " went back to an earlier publisher", o.who + fmt(": message #%d of %s", x.idx, q.id.c_str())); return false; } order.push_back(key); cur[v] = x.pub; if (v && !s.msg({x.pub, x.idx}).key) { s.bad(what + " starts with a frame that is not a keyframe", o.who + fmt(": message #%d of publisher %s", x.idx, q.id.c_str())); return false; } }
        if (last.count(key)) {
            int l = last[key];
            if (x.idx <= l) { s.bad(x.idx == l ? what + " received an access unit twice" : what + " received access units out of order", o.who + fmt(": %s #%d of publisher %s after #%d", v ? "video" : "audio", x.idx, q.id.c_str(), l)); return false; }
            if (!o.gaps_ok) for (int i = l + 1; i < x.idx; i++) if (q.sent[i].type == x.type && !q.sent[i].hdr) {
                string cl; if (o.partial) {     // the cache dropped what a lagging player still needed: it goes on with a cached keyframe
                    bool key = false; for (auto &y : u) if (y.pub == x.pub && y.type == 9 && y.pes + 8 >= x.pes && y.pes <= x.pes + 4 && q.sent[y.idx].key) key = true;
                    if (key) cl = " (partial cache, goes on at the next cached keyframe)";
                }
                s.bad(what + " misses access units in the middle" + cl, o.who + fmt(": %s #%d of publisher %s after #%d", v ? "video" : "audio", x.idx, q.id.c_str(), l)); return false; }
        }
        last[key] = x.idx;
    }
    if (!u.empty()) s.stat["gap-free sequences"]++;
    return true;
}
