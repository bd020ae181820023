// ISO base media file boxes, as far as DASH segments need them.
#pragma once
#include "lib.h"
struct Mp4Sample { uint32_t dur = 0, size = 0, flags = 0; int32_t cts = 0; string data; };
struct Mp4Seg { bool empty = true; uint32_t seq = 0, tfdt = 0, earliest = 0, ref_size = 0, ref_dur = 0, first_off = 0; bool flags = false; vector<Mp4Sample> samples; };
struct Mp4Init { string codec, config; uint32_t timescale = 0, rate = 0, width = 0, height = 0; };
bool mp4_segment(const string &d, Mp4Seg &s, string &why);
bool mp4_init(const string &d, Mp4Init &s, string &why);
