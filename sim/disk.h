// Disk faults and crashes at file operations.
#pragma once
#include "scn.h"
struct Disk {
    Scn &s;
    struct Win { us_t a, b; string kind, match; double p; int64_t budget; };
    vector<Win> wins; struct Kill { int node, after; us_t down; bool torn, armed; }; vector<Kill> kills;
    us_t t_fault = -1; map<string, vector<us_t>> faulted, shorted; int crashes = 0; vector<us_t> crash_t; string torn_path;
    std::function<void(Proc *, int op, const string &path, int64_t n, const string &path2)> pre;     // about to be carried out
    std::function<void(Proc *, int op, const string &path, int64_t res, const string &path2)> post;  // has been carried out
    std::function<bool(Proc *, int op, const string &path, const string &path2)> deny;   // must not be carried out
    std::function<void(int node)> on_kill;
    explicit Disk(Scn &s_) : s(s_) {}
    void attach();
    bool apply(const Op &o);             // verbs disk and crash
    void kill_node(int node, us_t down);
    bool hit(const string &path, us_t from = 0) { auto i = faulted.find(path); if (i == faulted.end()) return false; for (us_t t : i->second) if (t >= from) return true; return false; }
};
void g_diskfaults(Plan &p, Rng &r, us_t end, const string &match);   // some windows of trouble
bool is_dir(const string &p); int64_t file_size(const string &p);
