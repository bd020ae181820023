// The simulated world: event queue, process scheduling, network, epoll, file gates.
#include "core.h"
#include <arpa/inet.h>
#include <cstdarg>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

#ifndef EPOLLRDHUP
#define EPOLLRDHUP 0x2000
#endif

uint64_t hash64(const void *p, size_t n, uint64_t h) {
    const unsigned char *b = (const unsigned char *) p;
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = hmix(h, v); b += 8; n -= 8; }
    uint64_t v = n; while (n--) v = v << 8 | *b++;
    return hmix(h, v);
}
uint64_t hstr(const string &s) { return hash64(s.data(), s.size(), 77); }
string fmt(const char *f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

static const char *opname[OP_MAX] = { "none", "hello", "socket", "socketpair", "bind", "listen", "connect", "accept", "recv", "send",
    "shutdown", "close", "getsockname", "getpeername", "getsockopt", "fionread", "epcreate", "epctl", "epwait", "sigsuspend",
    "forkprep", "forkdone", "childstart", "kill", "sleep", "yield", "fopen", "fwrite", "frename", "funlink", "ftrunc", "fmkdir",
    "frmdir", "fdone", "getaddrinfo", "exit", "crash", "waitpid", "sendmsg", "recvmsg", "exec", "dup" };

World::World(const Cfg &c, uint64_t sd) : cfg(c), seed(sd), sched(sd * 3 + 1), netrng(sd * 5 + 2), filerng(sd * 7 + 3) {
    shmfd = memfd_create("simshm", 0);
    if (shmfd < 0 || ftruncate(shmfd, sizeof(sim_shm)) < 0) { perror("memfd"); exit(3); }
    shm = (sim_shm *) mmap(NULL, sizeof(sim_shm), PROT_READ | PROT_WRITE, MAP_SHARED, shmfd, 0);
    if (shm == MAP_FAILED) { perror("mmap"); exit(3); }
    if (cfg.trace) tracef = fopen(cfg.trace_path.empty() ? "/dev/stderr" : cfg.trace_path.c_str(), "w");
    tick();
}

World::~World() {
    kill_all();
    while (!evq.empty()) { delete evq.top(); evq.pop(); }
    if (tracef) fclose(tracef);
    munmap(shm, sizeof(sim_shm)); close(shmfd);
}

us_t World::tick() {
    shm->wall_us = wall_off + now; shm->mono_us = 1000 * SEC + now;
    return now;
}

void World::trace(const char *f, ...) {
    if (!tracef) return;
    fprintf(tracef, "%10.6f ", now / 1e6);
    va_list ap; va_start(ap, f); vfprintf(tracef, f, ap); va_end(ap);
    fputc('\n', tracef);
    fflush(tracef);
}

void World::at(us_t t, std::function<void()> fn) {
    if (t < now) t = now;
    evq.push(new Ev{t, ++evseq, std::move(fn)});
}

void World::violate(const string &prop, const string &what, const string &detail) {
    trace("VIOLATION %s: %s -- %s", prop.c_str(), what.c_str(), detail.c_str());
    if (viol.size() < 50) viol.push_back({prop, what, detail});
}

bool World::step_one(us_t limit) {
    if (evq.empty() || evq.top()->t > limit) return false;
    Ev *e = evq.top(); evq.pop();
    if (e->t > now) { now = e->t; tick(); }
    steps++;
    e->fn();
    delete e;
    return true;
}

bool World::run_until(us_t t) {
    while (!stopping) {
        if (!step_one(t)) break;
    }
    if (stopping) return false;
    if (now < t) { now = t; tick(); }
    return true;
}

// ---------------------------------------------------------------- processes
static long futex(volatile int *u, int op, int val, const timespec *ts) { return syscall(SYS_futex, u, op, val, ts, NULL, 0); }

Proc *World::by_vpid(int v) { for (auto &p : procs) if (p->vpid == v && p->st != PS_DEAD) return p.get(); return nullptr; }

static int free_slot(World *w) {
    bool used[SIM_MAXPROC] = {};
    for (auto &p : w->procs) if (p->st != PS_DEAD) used[p->slot] = true;
    for (int i = 0; i < SIM_MAXPROC; i++) if (!used[i]) return i;
    fprintf(stderr, "simdrv: too many processes\n"); exit(3);
}

static shared_ptr<Proc> new_proc(World *w, int node, int ppid) {
    auto p = std::make_shared<Proc>();
    p->w = w; p->slot = free_slot(w); p->node = node; p->vpid = w->next_vpid++; p->vppid = ppid;
    sim_chan *ch = &w->shm->ch[p->slot];
    ch->turn = 0; ch->op = 0; ch->nsig = 0; ch->vpid = p->vpid; ch->vppid = ppid; ch->rpid = 0;
    ch->rnd = w->seed * 1000003 + p->vpid;
    w->procs.push_back(p);
    return p;
}

static int pidfd_open_(pid_t p) { return (int) syscall(SYS_pidfd_open, p, 0); }

Proc *World::spawn(int node, const string &prefix, const string &conf, const vector<string> &extra_env) {
    auto p = new_proc(this, node, 1);
    vector<string> env = { "LD_PRELOAD=" + (cfg.asan ? cfg.asan_lib + ":" + cfg.libsim : cfg.libsim),
        fmt("SIM_SLOT=%d", p->slot), "SIM_DATA_DIR=" + prefix + "/data", "TZ=UTC", "LC_ALL=C", "PATH=/usr/sbin:/usr/bin:/sbin:/bin" };
    if (!cfg.asan) env.push_back(fmt("MALLOC_PERTURB_=%d", 0x5a));
    if (!cfg.asan) env.push_back("MALLOC_ARENA_MAX=1");
    if (getenv("SIM_LEAKLOG")) env.push_back(fmt("SIM_LEAKLOG=%s", getenv("SIM_LEAKLOG")));
    for (auto &e : extra_env) env.push_back(e);
    vector<char *> ev; for (auto &e : env) ev.push_back((char *) e.c_str()); ev.push_back(nullptr);
    string err = prefix + "/stderr";
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        personality(ADDR_NO_RANDOMIZE);
        setsid();
        if (shmfd != SIM_FDBASE) dup2(shmfd, SIM_FDBASE);
        int n = open("/dev/null", O_RDWR), e2 = open(err.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
        dup2(n, 0); dup2(e2, 1); dup2(e2, 2);
        for (int i = 3; i < 64; i++) close(i);
        const char *av[] = { "nginx", "-p", prefix.c_str(), "-c", conf.c_str(), "-e", "logs/error.log", nullptr };
        execve(cfg.nginx.c_str(), (char **) av, ev.data());
        _exit(99);
    }
    p->rpid = pid; p->direct_child = true; p->pidfd = pidfd_open_(pid);
    p->st = PS_RUNNING;
    wait_request(p.get());
    if (p->st != PS_DEAD) { p->st = PS_START; Proc *q = p.get(); schedule_wake(q, now + sched.range(1, 100)); }
    while ((int) node_pid.size() <= node) node_pid.push_back(-1);
    node_pid[node] = (int) procs.size() - 1;
    return p.get();
}

// waits (for real) until the process posts a request, or dies
void World::wait_request(Proc *p) {
    sim_chan *ch = &shm->ch[p->slot];
    clockid_t ck = 0; bool have = false; double cpu0 = 0; int rounds = 0;
    while (ch->turn != 1) {
        timespec ts = { 0, rounds < 2 ? 20000000 : 100000000 };
        long r = futex(&ch->turn, FUTEX_WAIT, ch->turn == 1 ? 2 : ch->turn, &ts);
        if (ch->turn == 1) break;
        if (r < 0 && errno == ETIMEDOUT) {
            rounds++;
            if (check_death(p)) { if (ch->turn == 1) break; proc_dead(p, "died"); return; }
            if (!have) { have = clock_getcpuclockid(p->rpid, &ck) == 0; timespec t; if (have && clock_gettime(ck, &t) == 0) cpu0 = t.tv_sec + t.tv_nsec / 1e9; }
            else {
                timespec t;
                if (clock_gettime(ck, &t) == 0 && t.tv_sec + t.tv_nsec / 1e9 - cpu0 > (cfg.asan ? 25 : 8)) {
                    if (on_crash) on_crash(p, -1, "busy loop without system calls");
                    kill_proc(p); return;
                }
                if (rounds > 6000) { if (on_crash) on_crash(p, -2, "blocked in an unsimulated system call"); kill_proc(p); return; }
            }
        }
    }
    __sync_synchronize();
}

bool World::check_death(Proc *p) {
    if (p->pidfd < 0) return p->rpid > 0 && ::kill(p->rpid, 0) < 0;
    pollfd pf = { p->pidfd, POLLIN, 0 };
    return poll(&pf, 1, 0) > 0;
}

void World::resume(Proc *p, int64_t ret, int err) {
    if (p->st == PS_DEAD) return;
    sim_chan *ch = &shm->ch[p->slot];
    ch->ret = ret; ch->err = err;
    ch->nsig = 0;
    for (int s : p->sigs) if (ch->nsig < 16) ch->sigs[ch->nsig++] = s;
    p->sigs.clear();
    p->st = PS_RUNNING;
    tick();
    __sync_synchronize();
    ch->turn = 2;
    futex(&ch->turn, FUTEX_WAKE, 1, NULL);
    // wait until the process took it: the turn goes to 0 and then to 1
    // (the process sets 0 itself; a stale 2 is never mistaken for a request)
}

void World::serve(Proc *p) {
    for (;;) {
        wait_request(p);
        if (p->st == PS_DEAD) return;
        p->rpcs++; total_rpcs++;
        sim_chan *ch = &shm->ch[p->slot];
        int op = ch->op;
        now += 1 + (total_rpcs & 1); tick();
        ops[op < OP_MAX ? opname[op] : "?"]++;
        uint64_t h = hmix(hmix(hash, (uint64_t) op << 8 | p->slot), (uint64_t) now);
        if (op != OP_HELLO && op != OP_CHILD_START && op != OP_FORK_DONE && op != OP_CRASH && op != OP_WAITPID) {
            h = hmix(h, ch->a[0]); h = hmix(h, ch->a[1]); h = hmix(h, ch->a[2]);
            if (op == OP_SEND || op == OP_SENDMSG) {
                const char *m = ch->dlen > 16 ? (const char *) memmem(ch->data, ch->dlen, "/psim_", 6) : nullptr;      // the scratch directory has another name in every run
                if (!m) h = hash64(ch->data, ch->dlen, h);
                else { string d(ch->data, ch->dlen); for (size_t i = 0; (i = d.find("/psim_", i)) != string::npos; i++) for (size_t k = i + 6; k < i + 12 && k < d.size(); k++) d[k] = '_'; h = hash64(d.data(), d.size(), h); }
            }
        }
        hash = h;
        if (tracef) trace("  [%d] %s %ld %ld %ld", p->vpid, opname[op], (long) ch->a[0], (long) ch->a[1], (long) ch->a[2]);
        if (on_rpc) { on_rpc(p, op); if (p->st == PS_DEAD) return; }
        if (!handle(p)) return;
        if (p->st == PS_DEAD) return;
    }
}

void World::schedule_wake(Proc *p, us_t t) {
    if (t < p->stall_until) t = p->stall_until;
    if (p->wake_set && p->wake_at <= t) return;
    p->wake_set = true; p->wake_at = t;
    uint64_t g = ++p->wake_gen;
    shared_ptr<Proc> sp; for (auto &q : procs) if (q.get() == p) sp = q;
    at(t, [this, sp, g] {
        if (sp->st == PS_DEAD || sp->wake_gen != g) return;
        if (now < sp->stall_until) { sp->wake_set = false; schedule_wake(sp.get(), sp->stall_until); return; }
        sp->wake_set = false; do_wake(sp.get());
    });
}

static const uint32_t ALWAYS = EPOLLERR | EPOLLHUP;
static const uint32_t EVMASK = EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLERR | EPOLLHUP | EPOLLPRI;

uint32_t World::mask_of(Sock *s) {
    uint32_t m = 0;
    if (s->kind == SK_LISTEN) return s->backlog.empty() ? 0 : EPOLLIN;
    if (s->kind == SK_DGRAM) return (s->dgrams.empty() ? 0 : EPOLLIN) | EPOLLOUT | (s->so_err ? EPOLLERR : 0);
    if (s->so_err) m |= EPOLLERR | EPOLLHUP | EPOLLIN | EPOLLOUT | EPOLLRDHUP;
    if (!s->conn) return m ? m : (s->connecting ? 0 : EPOLLOUT | EPOLLHUP);
    if (s->connecting) return m;
    Conn *c = s->conn; Pipe &in = c->p[s->side], &out = c->p[1 - s->side];
    if (in.avail() || in.fin || in.rst) m |= EPOLLIN;
    if (in.fin) m |= EPOLLRDHUP;
    if (in.rst) m |= EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP | EPOLLERR;
    if (in.fin && c->e[s->side].wr_shut) m |= EPOLLHUP;
    if (out.space() > 0) m |= EPOLLOUT;
    return m;
}

int World::collect(Proc *p) {
    sim_chan *ch = &shm->ch[p->slot];
    auto ep = p->eps.find(p->wait_ep);
    if (ep == p->eps.end()) return 0;
    vector<EpItem *> rd;
    for (auto &kv : ep->second.items) {
        EpItem *it = kv.second.get();
        if (!it->pending) continue;
        uint32_t m = mask_of(it->sock.get()) & (it->events | ALWAYS) & EVMASK;
        if (!m) { it->pending = false; continue; }
        rd.push_back(it);
    }
    if (rd.empty()) return 0;
    std::sort(rd.begin(), rd.end(), [](EpItem *a, EpItem *b) { return a->ord < b->ord; });
    if (shuffle_ready) sched.shuffle(rd);
    size_t n = rd.size();
    size_t lim = p->wait_max > 0 ? p->wait_max : 512;
    if (ready_limit > 0 && (size_t) ready_limit < lim) lim = ready_limit;
    if (n > lim) n = lim;
    sim_epev *ev = (sim_epev *) ch->data;
    for (size_t i = 0; i < n; i++) {
        EpItem *it = rd[i];
        ev[i].events = mask_of(it->sock.get()) & (it->events | ALWAYS) & EVMASK; ev[i].pad = 0; ev[i].data = it->data;
        if (it->events & EPOLLET) it->pending = false;
        hash = hmix(hash, (uint64_t) it->sock->id << 16 | ev[i].events);
        if (tracef) trace("  [%d] ready sock%d fd%d ev=%x", p->vpid, it->sock->id, it->fd, ev[i].events);
    }
    return (int) n;
}

void World::maybe_wake(Proc *p) {
    if (p->st == PS_EPOLL || p->st == PS_SUSPEND) schedule_wake(p, now + sched.range(0, sched_delay_max));
}

void World::notify(Sock *s, uint32_t ev) {
    bool exclusive_done = false;
    vector<EpItem *> its(s->items.begin(), s->items.end());
    std::sort(its.begin(), its.end(), [](EpItem *a, EpItem *b) { return a->ord < b->ord; });
    bool excl = false; for (auto it : its) if (it->events & (1u << 28)) excl = true;
    if (excl) sched.shuffle(its);
    for (auto it : its) {
        if (!(ev & (it->events | ALWAYS))) continue;
        if ((it->events & (1u << 28)) && exclusive_done) continue;
        it->pending = true;
        if ((it->events & (1u << 28)) && it->proc->st == PS_EPOLL) exclusive_done = true;
        if (it->proc->st == PS_EPOLL && it->proc->wait_ep == it->ep) maybe_wake(it->proc);
    }
}

void World::do_wake(Proc *p) {
    if (p->st == PS_START || p->st == PS_SLEEP) { resume(p, 0, 0); serve(p); return; }
    if (p->st == PS_SUSPEND) { if (p->sigs.empty()) return; resume(p, -1, EINTR); serve(p); return; }
    if (p->st != PS_EPOLL) return;
    if (!p->sigs.empty()) { resume(p, -1, EINTR); serve(p); return; }
    int n = collect(p);
    if (n == 0 && (p->deadline < 0 || now < p->deadline)) {
        if (p->deadline >= 0) schedule_wake(p, p->deadline);
        return;
    }
    if (abstract_state) states.insert(abstract_state());
    p->wait_ep = -1;
    resume(p, n, 0); serve(p);
}

void World::signal_proc(Proc *p, int sig) {
    trace("signal %d -> [%d]", sig, p->vpid);
    if (p->st == PS_DEAD) return;
    if (sig == SIGKILL) { kill_proc(p); return; }
    p->sigs.push_back(sig);
    if (p->st == PS_EPOLL || p->st == PS_SUSPEND) schedule_wake(p, now + sched.range(0, sched_delay_max));
}

void World::kill_proc(Proc *p, int sig) {
    if (p->st == PS_DEAD) return;
    if (p->rpid > 0) ::kill(p->rpid, SIGKILL);
    proc_dead(p, "killed");
}

void World::proc_dead(Proc *p, const char *why) {
    if (p->st == PS_DEAD) return;
    trace("[%d] dead: %s", p->vpid, why);
    p->st = PS_DEAD; p->wake_gen++;
    if (p->pidfd >= 0) {
        pollfd pf = { p->pidfd, POLLIN, 0 };
        if (poll(&pf, 1, 10000) <= 0) { ::kill(p->rpid, SIGKILL); poll(&pf, 1, 5000); }
    }
    if (p->direct_child) { int st; waitpid(p->rpid, &st, 0); }
    for (auto &ep : p->eps) for (auto &it : ep.second.items) it.second->sock->items.erase(it.second.get());
    p->eps.clear();
    auto fds = p->fds; p->fds.clear();
    for (auto &f : fds) { if (--f.second->refs == 0) sock_close(f.second); }
    if (p->pidfd >= 0) { close(p->pidfd); p->pidfd = -1; }
    if (on_proc_death) on_proc_death(p);
    Proc *par = by_vpid(p->vppid);
    if (par) signal_proc(par, SIGCHLD);
}

void World::kill_all() {
    stopping = true;
    on_proc_death = nullptr; on_crash = nullptr;
    for (auto &p : procs) if (p->st != PS_DEAD && p->rpid > 0) ::kill(p->rpid, SIGKILL);
    for (auto &p : procs) if (p->st != PS_DEAD) {
        if (p->direct_child) { int st; waitpid(p->rpid, &st, 0); }
        if (p->pidfd >= 0) { close(p->pidfd); p->pidfd = -1; }
        p->st = PS_DEAD; p->eps.clear();
    }
}

int World::open_conns_of(Proc *p) {
    int n = 0; for (auto &f : p->fds) if (f.second->kind == SK_STREAM && f.second->conn && !f.second->conn->unixs) n++;
    return n;
}

// ---------------------------------------------------------------- network
shared_ptr<Sock> World::fd_sock(Proc *p, int fd) { auto i = p->fds.find(fd); return i == p->fds.end() ? nullptr : i->second; }

static int node_of_ip(const string &ip) { int n; return sscanf(ip.c_str(), "10.0.0.%d", &n) == 1 ? n - 1 : -1; }
static string ip_of_node(int n) { return fmt("10.0.0.%d", n + 1); }

Sock *World::find_listener(int node, const string &ip, int port, const string &path) {
    for (auto &l : listeners) {
        if (l->kind != SK_LISTEN || l->closed) continue;
        if (!path.empty()) { if (l->path == path) return l.get(); continue; }
        if (l->path.empty() && l->node == node && l->port == port) return l.get();
    }
    return nullptr;
}

void World::pipe_send(Conn *c, int to, const char *d, size_t n) {
    Pipe &p = c->p[to];
    p.total_in += n;
    if (c->unixs) { p.flight.push_back({now, string(d, n), false, false}); p.flight_bytes += n; arrive(c, to); return; }
    size_t off = 0; bool first = true; int tiny = 0;
    while (off < n) {
        size_t k = n - off;
        if (c->lp.seg == SEG_MTU) k = std::min<size_t>(k, 1460);
        else if (c->lp.seg == SEG_RANDOM) k = std::min<size_t>(k, c->rng.chance(0.3) ? 1 + c->rng.below(40) : 1 + c->rng.below(3000));
        else if (c->lp.seg == SEG_TINY) k = std::min<size_t>(k, tiny++ < 24 ? 1 + c->rng.below(9) : 400 + c->rng.below(3000));
        us_t j = c->lp.jitter > 0 && (first || c->lp.seg != SEG_WHOLE) ? c->rng.below(c->lp.jitter + 1) : 0;
        first = false;
        us_t t = std::max(p.last_arrival, now + c->lp.lat) + (c->lp.seg == SEG_WHOLE ? 0 : j / 4);
        if (now + c->lp.lat + j > t) t = now + c->lp.lat + j;
        p.last_arrival = t;
        p.flight.push_back({t, string(d + off, k), false, false}); p.flight_bytes += k;
        off += k;
        at(t, [this, c, to] { arrive(c, to); });
    }
}

void World::pipe_fin(Conn *c, int to, bool rst) {
    Pipe &p = c->p[to];
    if (p.fin_queued && !rst) return;
    p.fin_queued = true;
    us_t t = c->unixs ? now : std::max(p.last_arrival, now + c->lp.lat);
    p.last_arrival = t;
    p.flight.push_back({t, "", !rst, rst});
    if (c->unixs) arrive(c, to); else at(t, [this, c, to] { arrive(c, to); });
}

void World::arrive(Conn *c, int to) {
    Pipe &p = c->p[to];
    if (c->blocked || (link_blocked && !c->unixs && link_blocked(c))) { c->blocked = c->blocked; return; }
    bool got = false;
    while (!p.flight.empty() && p.flight.front().t <= now) {
        Pipe::Seg &s = p.flight.front();
        p.flight_bytes -= s.d.size();
        if (c->e[to].open) {
            p.buf += s.d;
            if (s.fin) p.fin = true;
            if (s.rst) { p.rst = true; }
            got = true;
        } else if (!s.d.empty() && c->e[1 - to].open && !p.rst) {
            p.rst = true; p.flight.pop_front();        // data for a closed end: answer with a reset
            pipe_fin(c, 1 - to, true);
            continue;
        }
        p.flight.pop_front();
    }
    if (got) deliver_to(c, to);
}

void World::kick_conns() {
    for (auto &c : conns) if (!c->dead) for (int i = 0; i < 2; i++) if (!c->p[i].flight.empty()) { Conn *q = c.get(); us_t t = std::max(now, q->p[i].flight.front().t); at(t, [this, q, i] { arrive(q, i); }); }
}

void World::deliver_to(Conn *c, int to) {
    EndPoint &e = c->e[to];
    if (e.sock) {
        Pipe &p = c->p[to];
        uint32_t ev = EPOLLIN;
        if (p.fin) ev |= EPOLLRDHUP;
        if (p.rst) ev |= EPOLLRDHUP | EPOLLERR | EPOLLHUP | EPOLLOUT;
        if (p.fin && e.wr_shut) ev |= EPOLLHUP;
        notify(e.sock, ev);
    } else if (e.actor) e.actor->pump_in();
}

void World::consumed(Conn *c, int to, size_t n) {
    Pipe &p = c->p[to];
    p.total_out += n;
    if (p.off > 65536 || p.off == p.buf.size()) { p.buf.erase(0, p.off); p.off = 0; }
    EndPoint &s = c->e[1 - to];
    if (s.sock && p.nospace && p.space() >= p.cap / 3 && p.space() > 0) {
        p.nospace = false;
        if (c->unixs) { notify(s.sock, EPOLLOUT); return; }
        at(now + c->lp.lat, [this, c, to] { EndPoint &s2 = c->e[1 - to]; if (s2.sock && s2.open) notify(s2.sock, EPOLLOUT); });
    } else if (s.actor && p.nospace) {
        p.nospace = false;
        int oth = 1 - to;
        at(now + c->lp.lat, [this, c, oth] { if (c->e[oth].actor) c->e[oth].actor->pump_out(); });
    }
}

void World::close_end(Conn *c, int side, bool force_rst) {
    EndPoint &e = c->e[side];
    if (!e.open) return;
    e.open = false;
    Pipe &in = c->p[side];
    bool unread = in.avail() > 0;
    in.buf.clear(); in.off = 0;
    e.sock = nullptr;
    if (in.rst) {}
    else if (unread || force_rst) pipe_fin(c, 1 - side, true);
    else if (!e.wr_shut) pipe_fin(c, 1 - side, false);
    e.wr_shut = true;
    // the peer must not stay blocked on a window nobody will drain
    if (c->e[1 - side].open) consumed(c, side, 0);
}

void World::sock_close(shared_ptr<Sock> s) {
    if (s->closed) return;
    s->closed = true;
    for (auto it : vector<EpItem *>(s->items.begin(), s->items.end())) {
        auto e = it->proc->eps.find(it->ep);
        s->items.erase(it);
        if (e != it->proc->eps.end()) { auto f = e->second.items.find(it->fd); if (f != e->second.items.end() && f->second.get() == it) e->second.items.erase(f); }
    }
    if (s->kind == SK_LISTEN) {
        for (auto c : s->backlog) { c->e[1].open = true; close_end(c, 1, true); }
        s->backlog.clear();
        listeners.erase(std::remove_if(listeners.begin(), listeners.end(), [&](shared_ptr<Sock> &l) { return l.get() == s.get(); }), listeners.end());
    } else if (s->kind == SK_DGRAM) {
        listeners.erase(std::remove_if(listeners.begin(), listeners.end(), [&](shared_ptr<Sock> &l) { return l.get() == s.get(); }), listeners.end());
    } else if (s->conn) {
        close_end(s->conn, s->side);
        for (auto &ps : s->passed) { if (--ps.second->refs == 0) sock_close(ps.second); }
        s->passed.clear();
    }
}

void World::conn_reset(Conn *c) {
    for (int i = 0; i < 2; i++) if (c->e[i].open) {
        c->p[i].flight.clear(); c->p[i].flight_bytes = 0;
        c->p[i].rst = true;
        deliver_to(c, i);
    }
}

static Conn *mk_conn(World *w, const LinkParam &lp) {
    auto c = std::make_unique<Conn>();
    c->id = w->next_conn++; c->w = w; c->lp = lp; c->rng = Rng(w->seed * 131 + c->id);
    c->p[0].cap = lp.cap0; c->p[1].cap = lp.cap1;
    Conn *r = c.get(); w->conns.push_back(std::move(c)); return r;
}

static ActorConn *mk_actor(World *w) {
    auto a = std::make_unique<ActorConn>(); a->w = w; a->id = w->next_actor++;
    ActorConn *r = a.get(); w->actors.push_back(std::move(a)); return r;
}

// SYN arrives
static void syn(World *w, Conn *c, const string &ip, int port, int node, const string &path, int tries) {
    auto fail = [w, c](int err) {
        if (c->e[0].sock) { Sock *s = c->e[0].sock; s->so_err = err; s->connecting = false; w->notify(s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP); }
        else if (c->e[0].actor) { ActorConn *a = c->e[0].actor; if (!a->closed) { a->closed = true; if (a->on_error) a->on_error(err); } }
    };
    if (!c->e[0].open) return;
    if (w->link_blocked && w->link_blocked(c)) { w->after(1 * SEC, [=] { syn(w, c, ip, port, node, path, tries + 1); }); return; }
    auto al = w->actor_listen.find({ip, port});
    if (path.empty() && al != w->actor_listen.end()) {
        ActorConn *a = mk_actor(w); a->c = c; a->side = 1; a->connected = true;
        c->e[1].actor = a; c->e[1].open = true; c->established = true;
        al->second(a);
    } else {
        Sock *l = w->find_listener(node, ip, port, path);
        if (!l) { w->after(c->lp.lat, [=] { fail(ECONNREFUSED); }); return; }
        if ((int) l->backlog.size() >= l->backlog_max) { if (tries > 8) { fail(ETIMEDOUT); return; } w->after(1 * SEC, [=] { syn(w, c, ip, port, node, path, tries + 1); }); return; }
        c->established = true; c->e[1].open = true; c->e[1].node = l->node;
        l->backlog.push_back(c);
        w->notify(l, EPOLLIN);
    }
    w->after(c->lp.lat, [w, c] {
        if (!c->e[0].open) return;
        if (c->e[0].sock) { Sock *s = c->e[0].sock; s->connecting = false; s->connected = true; w->notify(s, EPOLLOUT); }
        else if (c->e[0].actor) { ActorConn *a = c->e[0].actor; a->connected = true; if (a->on_connected) a->on_connected(); a->pump_out(); a->pump_in(); }
    });
}

ActorConn *World::connect(const string &ip, int port, const string &from_ip, const LinkParam &lp, const string &path) {
    Conn *c = mk_conn(this, lp);
    ActorConn *a = mk_actor(this); a->c = c; a->side = 0;
    c->e[0].actor = a; c->e[0].open = true; c->e[0].ip = from_ip; c->e[0].port = 20000 + c->id;
    c->e[1].ip = ip; c->e[1].port = port; c->e[1].node = node_of_ip(ip);
    if (!path.empty()) { c->e[1].ip = "unix:" + path; c->unixs = false; }
    string p = path; int node = c->e[1].node;
    after(lp.lat, [=] { syn(this, c, ip, port, node, p, 0); });
    return a;
}

void World::udp_deliver(Sock *s, const string &d, us_t delay) {
    int id = s->id; string dd = d;
    after(delay, [this, id, dd] {
        for (auto &l : listeners) if (l->id == id && !l->closed) { l->dgrams.push_back(dd); notify(l.get(), EPOLLIN); return; }
    });
}

// ---------------------------------------------------------------- model endpoints
void ActorConn::send(const string &d) { if (closed || closing) return; out += d; pump_out(); }

void ActorConn::pump_out() {
    if (!connected || closed || vanished) return;
    Pipe &p = c->p[1 - side];
    if (die_at >= 0 && (int64_t) sent >= die_at) { w->fault("silent death after some bytes"); vanish(); return; }
    while (out_off < out.size()) {
        size_t sp = p.space(); if (!sp) { p.nospace = true, p.t_nospace = w->now; break; }
        size_t n = std::min(sp, out.size() - out_off);
        if (die_at >= 0) n = std::min<size_t>(n, die_at - sent);
        if (die_at >= 0 && !n) { w->fault("silent death after some bytes"); vanish(); return; }
        w->pipe_send(c, 1 - side, out.data() + out_off, n); out_off += n; sent += n;
    }
    if (out_off > 1 << 16 || out_off == out.size()) { out.erase(0, out_off); out_off = 0; }
    if (out.empty()) {
        if (closing) { closed = true; w->close_end(c, side); }
        else if (on_drained) on_drained();
    }
}

void ActorConn::pump_in() {
    if (closed || vanished || !reading || !connected) return;
    Pipe &p = c->p[side];
    size_t n = p.avail();
    if (n && rate > 0) {
        rate_tokens += (w->now - rate_last) * (double) rate / 1e6; rate_last = w->now;
        if (rate_tokens > rate * 0.1 + 64) rate_tokens = rate * 0.1 + 64;
        size_t k = (size_t) rate_tokens;
        if (n > k) {
            n = k;
            if (!p.pumping) { p.pumping = true; w->after(50 * MS, [this] { c->p[side].pumping = false; pump_in(); }); }
        }
        rate_tokens -= n;
    }
    if (n) {
        string d = p.buf.substr(p.off, n); p.off += n; rcvd += n;
        w->consumed(c, side, n);
        if (on_data) on_data(d.data(), d.size());
        if (closed) return;
    }
    if (!p.avail()) {
        if (p.rst) { closed = true; c->e[side].open = false; if (on_error) on_error(ECONNRESET); return; }
        if (p.fin && on_eof) { auto f = on_eof; on_eof = nullptr; f(); }
    }
}

void ActorConn::close() { if (closed) return; closing = true; if (!connected) { closed = true; if (c->established) w->close_end(c, side, true); else c->e[side].open = false; return; } pump_out(); }
void ActorConn::close_now() { if (closed) return; closed = true; w->close_end(c, side); }
void ActorConn::reset() { if (closed) return; closed = true; c->p[1 - side].flight.clear(); c->p[1 - side].flight_bytes = 0; w->close_end(c, side, true); }
void ActorConn::vanish() { if (!vanished) { vanished = true; t_vanish = w->now; } }
void ActorConn::set_reading(bool r) { reading = r; if (r) { rate_last = w->now; pump_in(); } }
void ActorConn::set_rate(int64_t r) { rate = r; rate_last = w->now; rate_tokens = 0; pump_in(); }

// ---------------------------------------------------------------- requests
static void put_addr(sim_chan *ch, const string &ip, int port) {
    if (ip.compare(0, 5, "unix:") == 0 || ip.empty()) {
        sockaddr_un un; memset(&un, 0, sizeof un); un.sun_family = AF_UNIX;
        string p = ip.empty() ? "" : ip.substr(5);
        size_t n = std::min(p.size(), sizeof(un.sun_path) - 1); memcpy(un.sun_path, p.data(), n);
        ch->dlen = offsetof(sockaddr_un, sun_path) + (n ? n + 1 : 0);
        memcpy(ch->data, &un, sizeof un);
        return;
    }
    sockaddr_in sin; memset(&sin, 0, sizeof sin); sin.sin_family = AF_INET; sin.sin_port = htons(port);
    inet_pton(AF_INET, ip.c_str(), &sin.sin_addr);
    memcpy(ch->data, &sin, sizeof sin); ch->dlen = sizeof sin;
}

static bool get_addr(sim_chan *ch, string &ip, int &port, string &path) {
    sockaddr *sa = (sockaddr *) ch->data; ip.clear(); path.clear(); port = 0;
    if (sa->sa_family == AF_UNIX) { sockaddr_un *un = (sockaddr_un *) sa; path = string(un->sun_path, strnlen(un->sun_path, sizeof(un->sun_path))); return true; }
    if (sa->sa_family == AF_INET) { sockaddr_in *s = (sockaddr_in *) sa; char b[64]; inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); ip = b; port = ntohs(s->sin_port); return true; }
    if (sa->sa_family == AF_INET6) { sockaddr_in6 *s = (sockaddr_in6 *) sa; char b[64]; inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b); ip = b; port = ntohs(s->sin6_port); return true; }
    return false;
}

// serves one request; false when the process now waits for something
bool World::handle(Proc *p) {
    sim_chan *ch = &shm->ch[p->slot];
    int op = ch->op; int fd = (int) ch->a[0];
    auto ok = [&](int64_t r) { resume(p, r, 0); return true; };
    auto er = [&](int e) { resume(p, -1, e); return true; };
    auto S = fd_sock(p, fd);
    switch (op) {
    case OP_HELLO: return ok(0);
    case OP_SOCKET: {
        auto s = std::make_shared<Sock>(); s->id = next_sock++; s->domain = ch->a[1]; s->type = ch->a[2]; s->node = p->node;
        s->kind = (s->type == SOCK_DGRAM) ? SK_DGRAM : SK_STREAM; s->refs = 1;
        if (s->kind == SK_DGRAM) listeners.push_back(s);
        p->fds[fd] = s; return ok(0);
    }
    case OP_SOCKETPAIR: {
        LinkParam lp; Conn *c = mk_conn(this, lp); c->unixs = true; c->established = true;
        for (int i = 0; i < 2; i++) {
            auto s = std::make_shared<Sock>(); s->id = next_sock++; s->kind = SK_STREAM; s->conn = c; s->side = i; s->node = p->node;
            s->refs = 1; s->connected = true; s->domain = AF_UNIX;
            c->e[i].sock = s.get(); c->e[i].open = true; c->e[i].ip = "unix:"; c->e[i].node = p->node;
            p->fds[(int) ch->a[i]] = s;
        }
        return ok(0);
    }
    case OP_BIND: {
        if (!S) return er(EBADF);
        string ip, path; int port; if (!get_addr(ch, ip, port, path)) return er(EAFNOSUPPORT);
        if (path.empty() && S->kind != SK_DGRAM) for (auto &l : listeners) if (l->kind == SK_LISTEN && l->node == p->node && l->path.empty() && l->port == port && port) return er(EADDRINUSE);
        S->ip = ip; S->port = port; S->path = path; return ok(0);
    }
    case OP_LISTEN:
        if (!S) return er(EBADF);
        S->backlog_max = std::max<int>(1, std::min<int>(ch->a[1], 511));
        if (S->kind != SK_LISTEN) { S->kind = SK_LISTEN; listeners.push_back(S); }
        return ok(0);
    case OP_CONNECT: {
        if (!S) return er(EBADF);
        string ip, path; int port; if (!get_addr(ch, ip, port, path)) { if (connect_policy) connect_policy(S.get(), "?", 0); return er(EAFNOSUPPORT); }
        if (S->kind == SK_DGRAM) { S->dst_ip = ip; S->dst_port = port; return ok(0); }
        if (S->conn) return er(EISCONN);
        LinkParam lp = deflink; lp.jitter = deflink.jitter;
        Conn *c = mk_conn(this, lp);
        if (ip == "127.0.0.1" || ip == "0.0.0.0") ip = ip_of_node(p->node);
        c->e[0].sock = S.get(); c->e[0].open = true; c->e[0].node = p->node;
        c->e[0].ip = path.empty() ? ip_of_node(p->node) : "unix:"; c->e[0].port = 30000 + c->id;
        c->e[1].ip = path.empty() ? ip : "unix:" + path; c->e[1].port = port; c->e[1].node = path.empty() ? node_of_ip(ip) : p->node;
        int pol = connect_policy ? connect_policy(S.get(), path.empty() ? ip : path, port) : 0;
        if (path.empty() && ip.find(':') != string::npos && pol == 0) pol = 3;      // no IPv6 network
        if (!path.empty()) {
            Sock *l = find_listener(p->node, "", 0, path);
            if (!l || pol == 1) { c->e[0].open = false; c->e[0].sock = nullptr; c->dead = true; return er(ECONNREFUSED); }
            if ((int) l->backlog.size() >= l->backlog_max || pol == 3) { c->e[0].open = false; c->e[0].sock = nullptr; c->dead = true; return er(EAGAIN); }
            c->unixs = true; c->established = true; c->e[1].open = true;
            S->conn = c; S->side = 0; S->connected = true;
            l->backlog.push_back(c); notify(l, EPOLLIN);
            return ok(0);
        }
        S->conn = c; S->side = 0; S->connecting = true;
        if (pol == 1) { auto s = S; after(c->lp.lat * 2, [this, s] { if (s->closed) return; s->connecting = false; s->so_err = ECONNREFUSED; notify(s.get(), EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); }); }
        else if (pol == 2) {}
        else if (pol == 3) { S->conn = nullptr; S->connecting = false; c->e[0].open = false; c->e[0].sock = nullptr; return er(ENETUNREACH); }
        else { int node = c->e[1].node; after(c->lp.lat, [=] { syn(this, c, ip, port, node, "", 0); }); }
        return er(EINPROGRESS);
    }
    case OP_ACCEPT: {
        if (!S || S->kind != SK_LISTEN) return er(EINVAL);
        if (S->backlog.empty()) return er(EAGAIN);
        Conn *c = S->backlog.front(); S->backlog.pop_front();
        auto s = std::make_shared<Sock>(); s->id = next_sock++; s->kind = SK_STREAM; s->conn = c; s->side = 1; s->connected = true; s->refs = 1;
        s->node = p->node; s->domain = S->domain;
        c->e[1].sock = s.get(); c->e[1].open = true; c->e[1].node = p->node;
        p->fds[(int) ch->a[1]] = s;
        put_addr(ch, c->e[0].ip, c->e[0].port);
        return ok(0);
    }
    case OP_RECV: case OP_RECVMSG: {
        if (!S) return er(EBADF);
        if (op == OP_RECVMSG) ch->a[4] = 0;
        size_t n = ch->a[1];
        if (S->kind == SK_DGRAM) {
            if (S->dgrams.empty()) return er(EAGAIN);
            string d = S->dgrams.front(); S->dgrams.pop_front();
            n = std::min(n, d.size()); memcpy(ch->data, d.data(), n); return ok(n);
        }
        if (S->so_err) { int e = S->so_err; S->so_err = 0; return er(e); }
        if (!S->conn || S->connecting) return er(S->connecting ? EAGAIN : ENOTCONN);
        Pipe &in = S->conn->p[S->side];
        if (in.avail()) {
            n = std::min(n, in.avail());
            if (op == OP_RECVMSG && !S->passed.empty()) {
                // ancillary data: stop at the message that carries the descriptor
                uint64_t pos = in.total_out;
                if (S->passed.front().first == pos) {
                    auto ps = S->passed.front().second; S->passed.pop_front();
                    p->fds[(int) ch->a[2]] = ps; ch->a[4] = 1;
                    if (!S->passed.empty()) n = std::min<uint64_t>(n, S->passed.front().first - pos);
                } else if (S->passed.front().first > pos) n = std::min<uint64_t>(n, S->passed.front().first - pos);
            }
            memcpy(ch->data, in.buf.data() + in.off, n); hash = hash64(ch->data, n, hash);
            if (op == OP_RECV && (ch->a[2] & MSG_PEEK)) return ok(n);
            in.off += n;
            consumed(S->conn, S->side, n);
            return ok(n);
        }
        if (in.rst) return er(ECONNRESET);
        if (in.fin) return ok(0);
        return er(EAGAIN);
    }
    case OP_SEND: case OP_SENDMSG: {
        if (!S) return er(EBADF);
        if (S->kind == SK_DGRAM) { int n = ch->dlen; if (on_udp) on_udp(S.get(), string(ch->data, n)); return ok(n); }
        if (S->so_err) { int e = S->so_err; S->so_err = 0; return er(e); }
        if (!S->conn || S->connecting) return er(S->connecting ? EAGAIN : ENOTCONN);
        Conn *c = S->conn; EndPoint &e = c->e[S->side]; Pipe &out = c->p[1 - S->side];
        if (c->p[S->side].rst) return er(ECONNRESET);
        if (e.wr_shut) return er(EPIPE);
        if (c->unixs && !c->e[1 - S->side].open) return er(EPIPE);
        size_t n = std::min<size_t>(ch->dlen, out.space());
        if (!c->e[1 - S->side].open && c->established) n = ch->dlen;
        if (n == 0) { out.nospace = true, out.t_nospace = now; return er(EAGAIN); }
        if (n < (size_t) ch->dlen) out.nospace = true, out.t_nospace = now;
        if (op == OP_SENDMSG && ch->a[2] >= 0) {
            auto ps = fd_sock(p, (int) ch->a[2]); Sock *peer = c->e[1 - S->side].sock;
            if (ps && peer) { ps->refs++; peer->passed.push_back({out.total_in, ps}); }
            else if (ps) { trace("passed fd to an unaccepted socket"); }
        }
        string d(ch->data, n);
        pipe_send(c, 1 - S->side, d.data(), n);
        return ok(n);
    }
    case OP_SHUTDOWN:
        if (!S || !S->conn) return er(ENOTCONN);
        if (ch->a[1] != 0) { EndPoint &e = S->conn->e[S->side]; if (!e.wr_shut) { e.wr_shut = true; pipe_fin(S->conn, 1 - S->side, false); } }
        return ok(0);
    case OP_CLOSE: {
        auto ep = p->eps.find(fd);
        if (ep != p->eps.end()) {
            for (auto &it : ep->second.items) it.second->sock->items.erase(it.second.get());
            p->eps.erase(ep); return ok(0);
        }
        if (!S) return er(EBADF);
        p->fds.erase(fd);
        // the fd leaves this process's epoll sets (nginx never keeps duplicates across them)
        for (auto &e : p->eps) { auto it = e.second.items.find(fd); if (it != e.second.items.end()) { S->items.erase(it->second.get()); e.second.items.erase(it); } }
        if (--S->refs == 0) sock_close(S);
        return ok(0);
    }
    case OP_GETSOCKNAME:
        if (!S) return er(EBADF);
        if (S->conn) put_addr(ch, S->conn->e[S->side].ip, S->conn->e[S->side].port);
        else if (!S->path.empty()) put_addr(ch, "unix:" + S->path, 0);
        else put_addr(ch, S->ip.empty() ? "0.0.0.0" : S->ip, S->port);
        return ok(0);
    case OP_GETPEERNAME:
        if (!S || !S->conn || S->connecting) return er(ENOTCONN);
        put_addr(ch, S->conn->e[1 - S->side].ip, S->conn->e[1 - S->side].port);
        return ok(0);
    case OP_GETSOCKOPT: {
        int v = 0;
        if (S && ch->a[1] == SOL_SOCKET && ch->a[2] == SO_ERROR) { v = S->so_err; S->so_err = 0; if (!v && S->conn && S->conn->p[S->side].rst) v = ECONNRESET; }
        else if (S && ch->a[1] == SOL_SOCKET && ch->a[2] == SO_TYPE) v = S->type;
        return ok(v);
    }
    case OP_FIONREAD: return ok(S && S->conn ? (int64_t) S->conn->p[S->side].avail() : 0);
    case OP_EPOLL_CREATE: p->eps[fd]; return ok(0);
    case OP_EPOLL_CTL: {
        auto ep = p->eps.find(fd); if (ep == p->eps.end()) return er(EBADF);
        int o = (int) ch->a[1], f = (int) ch->a[2]; auto s = fd_sock(p, f); if (!s) return er(EBADF);
        auto it = ep->second.items.find(f);
        if (o == EPOLL_CTL_DEL) {
            if (it == ep->second.items.end()) return er(ENOENT);
            s->items.erase(it->second.get()); ep->second.items.erase(it); return ok(0);
        }
        if (o == EPOLL_CTL_ADD && it != ep->second.items.end()) return er(EEXIST);
        if (o == EPOLL_CTL_MOD && it == ep->second.items.end()) return er(ENOENT);
        shared_ptr<EpItem> e;
        if (o == EPOLL_CTL_ADD) {
            e = std::make_shared<EpItem>(); e->proc = p; e->ep = fd; e->fd = f; e->sock = s; e->ord = next_ord++;
            ep->second.items[f] = e; s->items.insert(e.get());
        } else e = it->second;
        e->events = (uint32_t) ch->a[3]; e->data = (uint64_t) ch->a[4];
        e->pending = (mask_of(s.get()) & (e->events | ALWAYS) & EVMASK) != 0;
        return ok(0);
    }
    case OP_EPOLL_WAIT: {
        p->wait_ep = fd; p->wait_max = (int) ch->a[1]; p->heap_bytes = ch->a[6]; p->heap_blocks = ch->a[7];
        p->deadline = ch->a[2] < 0 ? -1 : now + ch->a[2] * 1000;
        p->st = PS_EPOLL;
        if (ch->a[2] == 0) {
            if (++p->idle_spins > 20000) { if (on_crash) on_crash(p, -1, "event loop spins with a zero timeout"); kill_proc(p); return false; }
        } else p->idle_spins = 0;
        bool ready = !p->sigs.empty();
        if (!ready) { auto ep = p->eps.find(fd); if (ep != p->eps.end()) for (auto &kv : ep->second.items) if (kv.second->pending) { ready = true; break; } }
        p->wake_set = false;
        if (ready) schedule_wake(p, now + (sched.chance(0.7) ? 1 : sched.range(0, sched_delay_max)));
        else if (p->deadline >= 0) schedule_wake(p, p->deadline);
        return false;
    }
    case OP_SIGSUSPEND:
        p->st = PS_SUSPEND; p->wake_set = false;
        if (!p->sigs.empty()) schedule_wake(p, now + 1);
        return false;
    case OP_SLEEP: p->st = PS_SLEEP; p->wake_set = false; schedule_wake(p, now + std::max<int64_t>(1, ch->a[0])); return false;
    case OP_YIELD: p->st = PS_SLEEP; p->wake_set = false; schedule_wake(p, now + sched.range(5, 60)); return false;
    case OP_FORK_PREP: { auto c = new_proc(this, p->node, p->vpid); c->fds = p->fds; c->files = p->files; for (auto &f : c->fds) f.second->refs++; c->st = PS_NONE; c->spawn_seq = p->spawn_seq++; return ok(c->slot); }
    case OP_FORK_DONE: {
        shared_ptr<Proc> c; for (auto &q : procs) if (q->slot == ch->a[0] && q->st == PS_NONE) c = q;
        if (!c) return ok(0);
        if (ch->a[1] < 0) { for (auto &f : c->fds) f.second->refs--; c->fds.clear(); c->st = PS_DEAD; return ok(0); }
        c->rpid = (pid_t) ch->a[1]; c->pidfd = pidfd_open_(c->rpid); c->st = PS_RUNNING;
        wait_request(c.get());
        if (c->st != PS_DEAD) { c->st = PS_START; schedule_wake(c.get(), now + sched.range(1, 200)); }
        return ok(0);
    }
    case OP_CHILD_START: return ok(0);
    case OP_KILL: {
        Proc *t = by_vpid((int) ch->a[0]);
        if (!t) return er(ESRCH);
        if (ch->a[1]) signal_proc(t, (int) ch->a[1]);
        return ok(0);
    }
    case OP_FOPEN: case OP_FRENAME: case OP_FUNLINK: case OP_FMKDIR: case OP_FRMDIR: case OP_FTRUNC: case OP_FWRITE: {
        string path, path2; int64_t n = 0;
        if (op == OP_FWRITE || op == OP_FTRUNC) { path = p->files[fd]; n = ch->a[1]; }
        else { path = ch->data; if (op == OP_FRENAME) path2 = ch->data + path.size() + 1; }
        if (op == OP_FOPEN) n = ch->a[0];
        p->fileops++; p->f_path = path; p->f_path2 = path2; p->f_n = n; p->f_fd = fd; p->f_off = op == OP_FWRITE ? ch->a[2] : -1;
        auto rel = [this](const string &s) { return !cfg.scratch.empty() && s.compare(0, cfg.scratch.size(), cfg.scratch) == 0 ? s.substr(cfg.scratch.size()) : s; };
        hash = hstr(rel(path)) ^ hmix(hash, n);
        if (tracef) trace("  [%d] file %s %s %s %ld", p->vpid, opname[op], rel(path).c_str(), rel(path2).c_str(), (long) n);
        FileDecision d = { n, 0, false };
        if (file_gate) d = file_gate(p, op, path, n, path2);
        if (d.kill) { kill_proc(p); return false; }
        if (p->st == PS_DEAD) return false;
        if (d.err) return er(d.err);
        return ok(op == OP_FWRITE ? d.allow : 0);
    }
    case OP_FDONE: {
        string path; int64_t r = ch->a[1];
        int o = (int) ch->a[0];
        if (o == OP_FOPEN) { path = ch->data; r = ch->a[5]; if (r >= 0) p->files[(int) r] = path; hash = hmix(hash, r); }
        else path = p->f_path;
        if (file_done) file_done(p, o, path, r, o == OP_FRENAME ? p->f_path2 : "");
        if (p->st == PS_DEAD) return false;
        return ok(0);
    }
    case OP_GETADDRINFO: {
        string name = ch->data; in_addr in; vector<string> ips;
        if (inet_pton(AF_INET, name.c_str(), &in) == 1) ips = {name};
        else if (hosts.count(name)) ips = hosts[name];
        int n = 0; for (auto &i : ips) { if (inet_pton(AF_INET, i.c_str(), &in) == 1 && n < 8) memcpy(ch->data + 4 * n++, &in, 4); }
        return ok(n);
    }
    case OP_EXIT: resume(p, 0, 0); proc_dead(p, "exit"); return false;
    case OP_CRASH: {
        int sig = (int) ch->a[0]; string bt(ch->data, std::max(0, ch->dlen));
        trace("[%d] crash signal %d at %ld: %s", p->vpid, sig, (long) ch->a[1], bt.c_str());
        hash = hmix(hash, sig);
        if (on_crash) on_crash(p, sig, bt);
        kill_proc(p);
        return false;
    }
    case OP_WAITPID: return ok(0);
    case OP_EXEC: trace("[%d] exec %s", p->vpid, ch->data); return ok(0);
    }
    fprintf(stderr, "simdrv: unknown request %d\n", op);
    return er(ENOSYS);
}
