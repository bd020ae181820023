// The simulated world: virtual time, processes, network, epoll, files, faults.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/types.h>
#include "proto.h"

typedef int64_t us_t;
using std::string; using std::vector; using std::map; using std::shared_ptr;
static const us_t MS = 1000, SEC = 1000000;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t x = (s += 0x9e3779b97f4a7c15ull);
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { if (b < a) return a; return a + (int64_t) below((uint64_t) (b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    template <class T> void shuffle(vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
};
uint64_t hash64(const void *p, size_t n, uint64_t h);
inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
uint64_t hstr(const string &s);
string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct World; struct Conn; struct Proc; struct Sock; struct ActorConn;

// One direction of a byte stream.
struct Pipe {
    struct Seg { us_t t; string d; bool fin, rst; };
    std::deque<Seg> flight; size_t flight_bytes = 0;
    string buf; size_t off = 0;
    size_t cap = 65536;
    us_t last_arrival = 0;
    us_t t_nospace = -1; bool fin_queued = false, fin = false, rst = false, nospace = false, pumping = false;
    uint64_t total_in = 0, total_out = 0;
    int pass_sock = 0;
    size_t avail() const { return buf.size() - off; }
    size_t used() const { return flight_bytes + avail(); }
    size_t space() const { return used() >= cap ? 0 : cap - used(); }
};

enum SegMode { SEG_WHOLE = 0, SEG_MTU, SEG_RANDOM, SEG_TINY };

struct LinkParam { us_t lat = 200, jitter = 100; int seg = SEG_WHOLE; size_t cap0 = 65536, cap1 = 65536; };

struct EndPoint {                       // who sits at one end of a connection
    Sock *sock = nullptr;               // a simulated process
    ActorConn *actor = nullptr;         // or a model inside the coordinator
    bool open = false, wr_shut = false;
    string ip; int port = 0;            // own address ("unix:path" for unix sockets)
    int node = -1;                      // nginx node, or -1 for an actor host
};

struct Conn {
    int id; World *w;
    EndPoint e[2];                      // 0 connector, 1 acceptor
    Pipe p[2];                          // p[i]: bytes travelling to end i
    bool established = false, dead = false, unixs = false;
    LinkParam lp; Rng rng;
    bool blocked = false;               // partition: nothing moves
    string tag;
    Conn() : rng(1) {}
};

enum SockKind { SK_NEW, SK_LISTEN, SK_STREAM, SK_DGRAM };
struct EpItem;
struct Sock {
    int id; SockKind kind = SK_NEW; int domain = 2, type = 1;
    int node = 0;
    string ip; int port = 0; string path;  // bound address
    Conn *conn = nullptr; int side = 0;
    int so_err = 0; bool connecting = false, connected = false;
    std::deque<Conn *> backlog; int backlog_max = 511;
    std::deque<string> dgrams; string dst_ip; int dst_port = 0;
    std::deque<std::pair<uint64_t, shared_ptr<Sock>>> passed;  // fd passing: (stream offset, socket)
    int refs = 0;
    bool closed = false;
    std::set<EpItem *> items;
};

struct EpItem { Proc *proc; int ep; int fd; shared_ptr<Sock> sock; uint32_t events; uint64_t data; bool pending; uint64_t ord; };
struct Ep { map<int, shared_ptr<EpItem>> items; };

enum PState { PS_NONE, PS_RUNNING, PS_EPOLL, PS_SUSPEND, PS_SLEEP, PS_START, PS_DEAD };
struct Proc {
    World *w; int slot = -1, vpid = 0, vppid = 0, node = 0; pid_t rpid = 0; int pidfd = -1; bool direct_child = false;
    PState st = PS_NONE;
    map<int, shared_ptr<Sock>> fds; map<int, Ep> eps; map<int, string> files;
    vector<int> sigs;
    us_t deadline = -1; int wait_ep = -1, wait_max = 0;
    uint64_t wake_gen = 0; bool wake_set = false; us_t wake_at = 0;
    string f_path, f_path2; int64_t f_n = 0, f_off = -1; int f_fd = -1;     // the file operation in progress
    int64_t heap_bytes = 0, heap_blocks = 0; uint64_t rpcs = 0, idle_spins = 0; uint64_t fileops = 0;
    int spawn_seq = 0;
    us_t stall_until = 0;
    bool is_worker = false; int worker_no = -1;
};

// A model endpoint. The owner installs callbacks.
struct ActorConn {
    World *w; Conn *c = nullptr; int side = 0; int id = 0;
    bool connected = false, closed = false;
    string out; size_t out_off = 0;      // bytes not yet accepted by the network
    bool closing = false;
    // reading policy
    bool reading = true; int64_t rate = 0; us_t rate_last = 0; double rate_tokens = 0;
    std::function<void()> on_connected, on_eof, on_drained;
    std::function<void(int)> on_error;   // refused, reset, timeout
    std::function<void(const char *, size_t)> on_data;
    void send(const string &d); void send(const void *d, size_t n) { send(string((const char *) d, n)); }
    void close();                        // FIN after the queue drains
    void close_now();                    // FIN (or RST with unread data), queue discarded
    void reset();                        // RST
    void vanish();                       // silent death: neither reads nor writes nor closes
    void set_reading(bool r); void set_rate(int64_t bytes_per_sec);
    bool vanished = false; us_t t_vanish = -1; int64_t die_at = -1;    // die_at: vanishes once that many bytes were sent
    size_t pending() const { return out.size() - out_off; }
    void pump_out(); void pump_in();
    uint64_t sent = 0, rcvd = 0;
};

struct Violation { string prop, what, detail; };

struct FileDecision { int64_t allow; int err; bool kill; };

struct Cfg {
    string scratch, libsim, nginx = "/usr/sbin/nginx", bug;
    bool trace = false; string trace_path; bool keep = false; bool asan = false; string asan_lib;
};

struct World {
    Cfg cfg; uint64_t seed; Rng sched, netrng, filerng;
    sim_shm *shm = nullptr; int shmfd = -1;
    us_t now = 0; us_t wall_off = 1700000000LL * SEC;
    struct Ev { us_t t; uint64_t seq; std::function<void()> fn; };
    struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
    std::priority_queue<Ev *, vector<Ev *>, EvCmp> evq; uint64_t evseq = 0;
    vector<shared_ptr<Proc>> procs; int next_vpid = 101, next_sock = 1, next_conn = 1, next_actor = 1; uint64_t next_ord = 1;
    vector<std::unique_ptr<Conn>> conns; vector<std::unique_ptr<ActorConn>> actors;
    vector<shared_ptr<Sock>> listeners;
    typedef std::function<void(ActorConn *)> AcceptFn;
    map<std::pair<string, int>, AcceptFn> actor_listen;   // (ip, port)
    std::function<void(Sock *, const string &)> on_udp;   // datagram from a process
    map<string, vector<string>> hosts;                    // for getaddrinfo
    uint64_t hash = 1469598103934665603ull; uint64_t steps = 0, total_rpcs = 0;
    us_t max_step = 0;
    FILE *tracef = nullptr;
    vector<Violation> viol;
    map<string, uint64_t> faults, ops; vector<uint64_t> state_set; std::unordered_set<uint64_t> states;
    LinkParam deflink; bool stopping = false;
    // policy knobs
    int ready_limit = 0;                // max events returned per epoll_wait, 0 unlimited
    us_t sched_delay_max = 300;
    bool shuffle_ready = true;
    std::function<FileDecision(Proc *, int op, const string &path, int64_t n, const string &path2)> file_gate;
    std::function<void(Proc *, int op, const string &path, int64_t res, const string &path2)> file_done;
    std::function<void(Proc *, int op)> on_rpc;           // crash injection
    std::function<void(Proc *, int sig, const string &bt)> on_crash;
    std::function<void(Proc *)> on_proc_death;            // any death
    std::function<uint64_t()> abstract_state;
    std::function<int(Sock *, const string &ip, int port)> connect_policy; // 0 normal, 1 refuse, 2 black hole
    bool allow_accept_fail = false;
    vector<int> node_pid;                // proc index by node (first process)

    World(const Cfg &c, uint64_t seed); ~World();
    void at(us_t t, std::function<void()> fn); void after(us_t d, std::function<void()> fn) { at(now + d, fn); }
    void fault(const string &k, uint64_t n = 1) { faults[k] += n; hash = hmix(hash, hstr(k)); }
    void trace(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void violate(const string &prop, const string &what, const string &detail = "");
    // processes
    Proc *spawn(int node, const string &prefix, const string &conf, const vector<string> &extra_env = {});
    void kill_proc(Proc *p, int sig = 9);
    void kill_all();
    void signal_proc(Proc *p, int sig);
    Proc *by_vpid(int v);
    bool run_until(us_t t);              // false if stopped early
    bool step_one(us_t limit);
    // network for models
    ActorConn *connect(const string &ip, int port, const string &from_ip, const LinkParam &lp, const string &path = "");
    void listen(const string &ip, int port, AcceptFn fn) { actor_listen[{ip, port}] = fn; }
    void unlisten(const string &ip, int port) { actor_listen.erase({ip, port}); }
    void udp_deliver(Sock *s, const string &d, us_t delay);
    std::function<bool(Conn *)> link_blocked; // partition policy, consulted when a segment would be delivered
    void kick_conns();                   // after a heal: deliver what was held
    void conn_reset(Conn *c);            // both ends see a reset
    Sock *find_listener(int node, const string &ip, int port, const string &path);
    int open_conns_of(Proc *p);

    // internals
    void resume(Proc *p, int64_t ret, int err); void wait_request(Proc *p); void serve(Proc *p);
    bool handle(Proc *p);                // true if the process keeps running
    void maybe_wake(Proc *p); void schedule_wake(Proc *p, us_t at_); void do_wake(Proc *p);
    uint32_t mask_of(Sock *s); void notify(Sock *s, uint32_t ev);
    void pipe_send(Conn *c, int to, const char *d, size_t n); void pipe_fin(Conn *c, int to, bool rst); void arrive(Conn *c, int to);
    void deliver_to(Conn *c, int to); void consumed(Conn *c, int to, size_t n);
    void sock_close(shared_ptr<Sock> s); void close_end(Conn *c, int side, bool force_rst = false);
    void proc_dead(Proc *p, const char *why); bool check_death(Proc *p);
    int collect(Proc *p);
    shared_ptr<Sock> fd_sock(Proc *p, int fd);
    void establish(Conn *c, shared_ptr<Sock> cs, us_t delay);
    us_t tick();
};
