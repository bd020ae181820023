#include "mp4.h"
struct Box { string type; size_t at, end, body; };
static bool boxes(const string &d, size_t a, size_t b, vector<Box> &out, string &why) {
    while (a < b) {
        if (b - a < 8) { why = fmt("%zu stray bytes at %zu", b - a, a); return false; }
        size_t n = rd(d, a, 4); string t = d.substr(a + 4, 4);
        if (n < 8 || n > b - a) { why = fmt("box %s at %zu has size %zu, %zu are left", hex(t).c_str(), a, n, b - a); return false; }
        out.push_back({t, a, a + n, a + 8}); a += n;
    }
    return true;
}
static const Box *find(const vector<Box> &v, const string &t) { for (auto &b : v) if (b.type == t) return &b; return nullptr; }
static bool need(const string &d, const vector<Box> &v, const string &t, size_t min, Box &o, string &why) { (void) d; const Box *b = find(v, t); if (!b) { why = "no " + t + " box"; return false; } if (b->end - b->body < min) { why = t + " box is too short"; return false; } o = *b; return true; }
bool mp4_segment(const string &d, Mp4Seg &s, string &why) {
    vector<Box> top, mo, tr; Box styp, sidx, moof, mdat, mfhd, traf, tfhd, tfdt, trun;
    if (!boxes(d, 0, d.size(), top, why)) return false;
    if (!need(d, top, "styp", 8, styp, why) || !need(d, top, "sidx", 36, sidx, why) || !need(d, top, "moof", 8, moof, why) || !need(d, top, "mdat", 0, mdat, why)) return false;
    if (top.size() != 4 || styp.at != 0 || moof.at != sidx.end || mdat.at != moof.end) { why = "boxes out of order"; return false; }
    if (rd(d, sidx.body, 4) != 0 || rd(d, sidx.body + 8, 4) != 1000 || rd(d, sidx.body + 22, 2) != 1 || sidx.end - sidx.body != 36) { why = "strange sidx"; return false; }
    s.earliest = rd(d, sidx.body + 12, 4); s.first_off = rd(d, sidx.body + 16, 4); s.ref_size = rd(d, sidx.body + 24, 4); s.ref_dur = rd(d, sidx.body + 28, 4);
    if (s.ref_size != mdat.end - moof.at) { why = fmt("sidx refers to %u bytes, moof and mdat are %zu", s.ref_size, mdat.end - moof.at); return false; }
    if (!boxes(d, moof.body, moof.end, mo, why) || !need(d, mo, "mfhd", 8, mfhd, why) || !need(d, mo, "traf", 8, traf, why)) return false;
    s.seq = rd(d, mfhd.body + 4, 4);
    if (!boxes(d, traf.body, traf.end, tr, why) || !need(d, tr, "tfhd", 8, tfhd, why) || !need(d, tr, "tfdt", 8, tfdt, why) || !need(d, tr, "trun", 12, trun, why)) return false;
    if (rd(d, tfdt.body, 4) != 0) { why = "strange tfdt"; return false; }
    s.tfdt = rd(d, tfdt.body + 4, 4); uint32_t fl = rd(d, trun.body, 4) & 0xffffff, n = rd(d, trun.body + 4, 4); size_t off = trun.body + 8;
    if (!(fl & 1)) { why = "trun without data offset"; return false; }
    size_t data = moof.at + rd(d, off, 4); off += 4; int items = !!(fl & 0x100) + !!(fl & 0x200) + !!(fl & 0x400) + !!(fl & 0x800); s.flags = fl & 0x400;
    if (fl & 0x4) { why = "trun with first sample flags"; return false; }
    if ((trun.end - off) != (size_t) n * items * 4) { why = fmt("trun has %u samples in %zu bytes", n, trun.end - off); return false; }
    if (data != mdat.body) { why = fmt("the data offset leads to %zu, the media data are at %zu", data, mdat.body); return false; }
    for (uint32_t i = 0; i < n; i++) {
        Mp4Sample x; if (fl & 0x100) { x.dur = rd(d, off, 4); off += 4; } if (fl & 0x200) { x.size = rd(d, off, 4); off += 4; } if (fl & 0x400) { x.flags = rd(d, off, 4); off += 4; } if (fl & 0x800) { x.cts = (int32_t) rd(d, off, 4); off += 4; }
        if (data + x.size > mdat.end) { why = fmt("sample %u of %u reaches beyond the media data", i, n); return false; }
        x.data = d.substr(data, x.size); data += x.size; s.samples.push_back(x);
    }
    if (data != mdat.end) { why = fmt("%zu bytes of media data belong to no sample", mdat.end - data); return false; }
    s.empty = n == 0; return true;
}
bool mp4_init(const string &d, Mp4Init &s, string &why) {
    vector<Box> top, mv, tk, md, mi, sb, en; Box b, moov, trak, mdia, minf, stbl, stsd, x;
    if (!boxes(d, 0, d.size(), top, why) || !need(d, top, "ftyp", 8, b, why) || !need(d, top, "moov", 8, moov, why)) return false;
    if (!boxes(d, moov.body, moov.end, mv, why) || !need(d, mv, "mvhd", 100, b, why) || !need(d, mv, "trak", 8, trak, why)) return false;
    if (!need(d, mv, "mvex", 8, b, why)) return false;
    if (!boxes(d, trak.body, trak.end, tk, why) || !need(d, tk, "tkhd", 84, b, why) || !need(d, tk, "mdia", 8, mdia, why)) return false;
    if (!boxes(d, mdia.body, mdia.end, md, why) || !need(d, md, "mdhd", 24, b, why)) return false;
    s.timescale = rd(d, b.body + 12, 4);
    if (!need(d, md, "hdlr", 24, b, why) || !need(d, md, "minf", 8, minf, why) || !boxes(d, minf.body, minf.end, mi, why) || !need(d, mi, "stbl", 8, stbl, why) || !boxes(d, stbl.body, stbl.end, sb, why) || !need(d, sb, "stsd", 8, stsd, why)) return false;
    for (auto &t : {"stts", "stsc", "stsz", "stco"}) if (!need(d, sb, t, 8, b, why)) return false;
    vector<Box> ent; if (!boxes(d, stsd.body + 8, stsd.end, ent, why)) return false;
    if (ent.size() != 1 || rd(d, stsd.body + 4, 4) != 1) { why = "not one sample entry"; return false; }
    s.codec = ent[0].type; size_t skip = s.codec == "avc1" ? 78 : 28; if (ent[0].body + skip > ent[0].end) { why = "sample entry too short"; return false; }
    if (skip == 78) { s.width = rd(d, ent[0].body + 24, 2); s.height = rd(d, ent[0].body + 26, 2); } else s.rate = rd(d, ent[0].body + 24, 2);
    if (!boxes(d, ent[0].body + skip, ent[0].end, en, why)) return false;
    if (!need(d, en, skip == 78 ? "avcC" : "esds", 4, b, why)) return false;
    if (skip == 78) { s.config = d.substr(b.body, b.end - b.body); return true; }
    // esds: ES_Descriptor(3) > DecoderConfigDescriptor(4) > DecoderSpecificInfo(5)
    size_t o = b.body + 4; auto len = [&]() { size_t n = 0; for (int i = 0; i < 4 && o < b.end; i++) { unsigned char c = d[o++]; n = n << 7 | (c & 127); if (!(c & 128)) break; } return n; };
    if (o >= b.end || d[o++] != 3) { why = "esds without ES descriptor"; return false; } size_t n = len(); if (n > b.end - o) { why = "ES descriptor too long"; return false; } o += 3;
    if (o >= b.end || d[o++] != 4) { why = "esds without decoder configuration"; return false; } n = len(); if (n > b.end - o) { why = "decoder configuration too long"; return false; } o += 13;
    if (o >= b.end || d[o++] != 5) { why = "esds without decoder specific info"; return false; } n = len(); if (n > b.end - o) { why = "decoder specific info too long"; return false; }
    s.config = d.substr(o, n); return true;
}
