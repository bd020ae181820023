// Pieces of plan generators.
#pragma once
#include "scn.h"
void g_common(Plan &p, Rng &r);              // scheduler and network shape
void g_live_conf(Plan &p, Rng &r);           // fan-out related directives
void g_disk(Plan &p, Rng &r, double chance);
void g_media(Op &o, Rng &r, Plan &p);        // what a publisher sends
void g_link(Op &o, Rng &r, const Plan *p = nullptr);
void gen_live(Plan &p, Rng &r, const vector<string> &kinds);  // one to three streams, several players each
void rename_streams(Plan &p, Rng r);          // now and then other names than s0, s1, ...: any name a publisher may choose
