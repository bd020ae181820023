// P01: RTMP fan-out.
#include "scn.h"
#include "gen.h"

struct P01 : Scn {
    using Scn::Scn;
    void finish() override {
        for (auto &p : plays) if (p->kind == "rtmp") {
            AvOpt o; check_av(*this, *p, o);
            if (p->r->rd.bad) bad("rtmp player received a malformed chunk stream", p->id + ": " + p->r->rd.why);
            if (p->t_dead >= 0 && p->t_stop < 0) bad("server closed the connection of a healthy player", fmt("player %s at %.3f s: %s", p->id.c_str(), p->t_dead / 1e6, p->dead_why.c_str()));
            if (p->t_start < 0 && p->t_stop < 0 && pl.k("app.play_restart") != "on" && p->t_conn < w.now - 5 * SEC) bad("play request was never answered", p->id);
        }
        for (auto &p : pubs) if (p->t_dead >= 0 && p->t_stop < 0) bad("server closed the connection of a healthy publisher", fmt("publisher %s at %.3f s: %s", p->id.c_str(), p->t_dead / 1e6, p->dead_why.c_str()));
    }
};
static void gen01(Plan &p, Rng &r) { gen_live(p, r, {"rtmp"}); }
static PropReg reg("P01", gen01, make_scn<P01>);
