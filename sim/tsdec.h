// From PES packets back to published messages (HTTP-TS, HLS, HLS+, TS recordings).
#pragma once
#include "scn.h"
struct TsUnit { int type; int pub, idx; int64_t pts, dts; us_t t; size_t pes; bool first_in_pes; };
struct TsOpt { string who; us_t until = 0; int64_t base = 63000; int64_t a_slack = 2 * 90 + 90; bool ts = true; bool last_partial = true; bool gaps_ok = false; bool partial = false; };
// false (and a violation) if something does not decode to published access units
bool ts_units(Scn &s, Scn &sc, vector<TsPes> &pes, const string &name, const string &app, const TsOpt &o, vector<TsUnit> &out);
// each once, in order, without holes per kind
bool ts_order(Scn &s, vector<TsUnit> &u, const TsOpt &o, const string &what);
