// libsim.so: preloaded into nginx. Every nondeterministic system call becomes a request to simdrv.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sched.h>
#include <signal.h>
#include <sys/resource.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "proto.h"

#define NFD 20480
enum { K_REAL = 0, K_SOCK, K_EPOLL, K_FILE };
static unsigned char kind[NFD];
static struct sim_shm *shm;
static struct sim_chan *ch;
static int slot;
static char data_dir[512];
static size_t data_len;

#define REAL(name) static __typeof__(&name) real_##name
REAL(open64); REAL(close); REAL(read); REAL(write); REAL(writev); REAL(readv); REAL(pwrite64);
REAL(fork); REAL(waitpid); REAL(kill); REAL(sigsuspend); REAL(rename); REAL(unlink); REAL(ftruncate64);
REAL(mkdir); REAL(rmdir); REAL(ioctl); REAL(dup2); REAL(getaddrinfo); REAL(freeaddrinfo); REAL(getpid);
REAL(sendfile64); REAL(raise); REAL(pread64); REAL(getsockopt); REAL(setsockopt);
static int (*real_openat64)(int, const char *, int, ...);
static int (*real_fcntl64)(int, int, ...);
static ssize_t (*real_pwritev64)(int, const struct iovec *, int, off64_t);
static long (*real_syscall)(long, ...);
static int (*real_fsync)(int);

static void resolve(void)
{
#define R(n) *(void **) &real_##n = dlsym(RTLD_NEXT, #n)
    R(open64); R(close); R(read); R(write); R(writev); R(readv); R(pwrite64); R(fork); R(waitpid);
    R(kill); R(sigsuspend); R(rename); R(unlink); R(ftruncate64); R(mkdir); R(rmdir); R(ioctl); R(dup2);
    R(getaddrinfo); R(freeaddrinfo); R(getpid); R(sendfile64); R(raise); R(pread64); R(openat64); R(fcntl64);
    R(pwritev64); R(syscall); R(getsockopt); R(setsockopt); R(fsync);
}

static long futex(volatile int *u, int op, int val)
{
    return real_syscall(SYS_futex, u, op, val, NULL, NULL, 0);
}

/* one request/response round trip; the process sleeps until the coordinator schedules it again */
static int64_t rpc_raw(int op)
{
    int saved;
    ch->op = op;
    __sync_synchronize();
    ch->turn = 1;
    futex(&ch->turn, FUTEX_WAKE, 1);
    while (ch->turn != 2) {
        futex(&ch->turn, FUTEX_WAIT, 1);
    }
    ch->turn = 0;
    __sync_synchronize();
    saved = ch->err;
    (void) saved;
    return ch->ret;
}

extern int64_t sim_heap_bytes, sim_heap_blocks; extern void sim_leak_dump(const char *, uint64_t); extern uint64_t sim_leak_seq(void); static uint64_t leak_from;
static int64_t rpc(int op, int64_t a0, int64_t a1, int64_t a2, int64_t a3)
{
    int64_t r; int i, n, e, sg[16];
    ch->a[0] = a0; ch->a[1] = a1; ch->a[2] = a2; ch->a[3] = a3;
    ch->nsig = 0;
    if (op == OP_EPOLL_WAIT) { ch->a[6] = sim_heap_bytes; ch->a[7] = sim_heap_blocks; if (shm->pad == 1 && getenv("SIM_LEAKLOG")) { leak_from = sim_leak_seq(); shm->pad = 0; } if (shm->pad == 2 && getenv("SIM_LEAKLOG")) { sim_leak_dump(getenv("SIM_LEAKLOG"), leak_from); shm->pad = 0; } }
    r = rpc_raw(op);
    e = ch->err;
    n = ch->nsig;
    if (n) {
        memcpy(sg, ch->sigs, sizeof(int) * n);
        ch->nsig = 0;
        for (i = 0; i < n; i++) real_raise(sg[i]);
    }
    if (r < 0) errno = e;
    return r;
}

static void crash_handler(int sig, siginfo_t *si, void *uc)
{
    void *bt[48]; int n, i; Dl_info di; size_t off = 0;
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = SIG_DFL;
    sigaction(sig, &sa, NULL);
    if (ch) {
        n = backtrace(bt, 48);
        ch->data[0] = 0;
        for (i = 2; i < n && off < 3500; i++) {
            const char *nm = "?";
            char buf[64];
            if (dladdr(bt[i], &di) && di.dli_fname) {
                if (di.dli_sname) nm = di.dli_sname;
                else {
                    const char *b = strrchr(di.dli_fname, '/');
                    snprintf(buf, sizeof(buf), "%s+0x%lx", b ? b + 1 : di.dli_fname,
                             (unsigned long) ((char *) bt[i] - (char *) di.dli_fbase));
                    nm = buf;
                }
            }
            off += snprintf(ch->data + off, 200, "%s<", nm);
        }
        ch->dlen = off;
        ch->a[0] = sig;
        ch->a[1] = si && (uintptr_t) si->si_addr < 65536 ? (int64_t) (uintptr_t) si->si_addr : -1;
        ch->nsig = 0;
        rpc_raw(OP_CRASH);
    }
    sigset_t m; sigemptyset(&m); sigaddset(&m, sig); sigprocmask(SIG_UNBLOCK, &m, NULL);
    real_raise(sig);
}

static void install_crash(void)
{
    static char alt[65536];
    stack_t ss = { .ss_sp = alt, .ss_size = sizeof(alt) };
    struct sigaction sa; int s[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }; unsigned i;
    void *bt[2];
    backtrace(bt, 2);              /* loads libgcc now */
    sigaltstack(&ss, NULL);
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (i = 0; i < 5; i++) sigaction(s[i], &sa, NULL);
}

__attribute__((constructor)) static void sim_init(void)
{
    const char *e;
    resolve();
    e = getenv("SIM_SLOT");
    if (!e) return;
    slot = atoi(e);
    shm = mmap(NULL, sizeof(struct sim_shm), PROT_READ | PROT_WRITE, MAP_SHARED, SIM_FDBASE, 0);
    if (shm == MAP_FAILED) { static const char m[] = "libsim: no shm\n"; (void) !real_write(2, m, sizeof(m) - 1); _exit(97); }
    ch = &shm->ch[slot];
    e = getenv("SIM_DATA_DIR");
    if (e) { snprintf(data_dir, sizeof(data_dir), "%s", e); data_len = strlen(data_dir); }
    unsetenv("LD_PRELOAD"); unsetenv("SIM_SLOT"); unsetenv("SIM_DATA_DIR");
    if (!getenv("SIM_NOCRASH")) install_crash();
    ch->rpid = real_getpid();
    rpc(OP_HELLO, ch->rpid, 0, 0, 0);
}

__attribute__((destructor)) static void sim_fini(void)
{
    if (ch) { rpc(OP_EXIT, 0, 0, 0, 0); ch = NULL; shm = NULL; }
}

#define SIM(fd, k) (shm && (fd) >= 0 && (fd) < NFD && kind[fd] == (k))
#define SIMANY(fd) (shm && (fd) >= 0 && (fd) < NFD && (kind[fd] == K_SOCK || kind[fd] == K_EPOLL))

static int newfd(int k)
{
    int fd = real_open64("/dev/null", O_RDWR | O_CLOEXEC);
    if (fd >= NFD) { real_close(fd); errno = EMFILE; return -1; }
    if (fd >= 0) kind[fd] = k;
    return fd;
}

/* ------------------------------------------------------------------ time, ids, randomness */
int gettimeofday(struct timeval *tv, void *tz)
{
    int64_t t;
    if (!shm) return real_syscall ? (int) real_syscall(SYS_gettimeofday, tv, tz) : -1;
    t = shm->wall_us;
    tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000;
    return 0;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    int64_t t;
    if (!shm) return (int) syscall(SYS_clock_gettime, id, ts);
    t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? shm->wall_us : shm->mono_us;
    ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
}

time_t time(time_t *p)
{
    time_t t;
    if (!shm) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); t = ts.tv_sec; }
    else t = shm->wall_us / 1000000;
    if (p) *p = t;
    return t;
}

pid_t getpid(void) { return ch ? ch->vpid : (pid_t) syscall(SYS_getpid); }
pid_t getppid(void) { return ch ? ch->vppid : (pid_t) syscall(SYS_getppid); }

int RAND_bytes(unsigned char *buf, int n)
{
    int i; uint64_t x;
    if (!ch) { memset(buf, 7, n); return 1; }
    for (i = 0; i < n; i++) {
        x = (ch->rnd += 0x9e3779b97f4a7c15ull);
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        buf[i] = (unsigned char) (x >> 40);
    }
    return 1;
}

int usleep(useconds_t us) { if (!ch) return 0; rpc(OP_SLEEP, us, 0, 0, 0); return 0; }
int sched_yield(void) { if (ch) rpc(OP_YIELD, 0, 0, 0, 0); return 0; }
int setitimer(__itimer_which_t w, const struct itimerval *n, struct itimerval *o) { return 0; }
int sched_setaffinity(pid_t p, size_t n, const cpu_set_t *m) { return 0; }
int setpriority(__priority_which_t w, id_t who, int v) { return 0; }
int eventfd(unsigned c, int f) { errno = ENOSYS; return -1; }

long syscall(long n, ...)
{
    long a[6]; int i; va_list ap;
    va_start(ap, n);
    for (i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (!real_syscall) resolve();
    if (shm && (n == SYS_io_setup || n == SYS_eventfd || n == SYS_eventfd2 || n == SYS_io_destroy)) {
        errno = ENOSYS; return -1;
    }
    return real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

/* ------------------------------------------------------------------ sockets */
int socket(int d, int t, int p)
{
    int fd;
    if (!ch) return (int) real_syscall(SYS_socket, d, t, p);
    if (d != AF_INET && d != AF_INET6 && d != AF_UNIX) { errno = EAFNOSUPPORT; return -1; }
    fd = newfd(K_SOCK);
    if (fd < 0) return -1;
    if (rpc(OP_SOCKET, fd, d, t & 0xf, p) < 0) { int e = errno; kind[fd] = 0; real_close(fd); errno = e; return -1; }
    return fd;
}

int socketpair(int d, int t, int p, int sv[2])
{
    if (!ch) return (int) real_syscall(SYS_socketpair, d, t, p, sv);
    sv[0] = newfd(K_SOCK);
    sv[1] = newfd(K_SOCK);
    if (sv[1] < 0) return -1;
    return (int) rpc(OP_SOCKETPAIR, sv[0], sv[1], d, t & 0xf);
}

static int addr_op(int op, int fd, const struct sockaddr *sa, socklen_t len)
{
    if (len > 512) { errno = EINVAL; return -1; }
    memcpy(ch->data, sa, len); ch->dlen = len;
    return (int) rpc(op, fd, len, 0, 0);
}

int bind(int fd, const struct sockaddr *sa, socklen_t len)
{
    int r;
    if (!SIM(fd, K_SOCK)) return (int) real_syscall(SYS_bind, fd, sa, len);
    if (sa->sa_family == AF_UNIX) {
        struct sockaddr_un un; int f;
        memset(&un, 0, sizeof(un)); memcpy(&un, sa, len < sizeof(un) ? len : sizeof(un));
        if (access(un.sun_path, F_OK) == 0) { errno = EADDRINUSE; return -1; }
        r = addr_op(OP_BIND, fd, sa, len);
        if (r == 0) { f = real_open64(un.sun_path, O_CREAT | O_WRONLY, 0644); if (f >= 0) real_close(f); }
        return r;
    }
    return addr_op(OP_BIND, fd, sa, len);
}

int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
    if (!SIM(fd, K_SOCK)) return (int) real_syscall(SYS_connect, fd, sa, len);
    return addr_op(OP_CONNECT, fd, sa, len);
}

int listen(int fd, int bl)
{
    if (!SIM(fd, K_SOCK)) return (int) real_syscall(SYS_listen, fd, bl);
    return (int) rpc(OP_LISTEN, fd, bl, 0, 0);
}

static void addr_out(struct sockaddr *sa, socklen_t *len)
{
    socklen_t n;
    if (!sa || !len) return;
    n = ch->dlen < (int) *len ? ch->dlen : (int) *len;
    memcpy(sa, ch->data, n);
    *len = ch->dlen;
}

int accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags)
{
    int nf; int64_t r;
    if (!SIM(fd, K_SOCK)) return (int) real_syscall(SYS_accept4, fd, sa, len, flags);
    nf = newfd(K_SOCK);
    if (nf < 0) return -1;
    r = rpc(OP_ACCEPT, fd, nf, 0, 0);
    if (r < 0) { int e = errno; kind[nf] = 0; real_close(nf); errno = e; return -1; }
    addr_out(sa, len);
    return nf;
}
int accept(int fd, struct sockaddr *sa, socklen_t *len) { return accept4(fd, sa, len, 0); }

int getsockname(int fd, struct sockaddr *sa, socklen_t *len)
{
    if (!SIM(fd, K_SOCK)) return (int) real_syscall(SYS_getsockname, fd, sa, len);
    if (rpc(OP_GETSOCKNAME, fd, 0, 0, 0) < 0) return -1;
    addr_out(sa, len);
    return 0;
}

int getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
    if (!SIM(fd, K_SOCK)) return (int) real_syscall(SYS_getpeername, fd, sa, len);
    if (rpc(OP_GETPEERNAME, fd, 0, 0, 0) < 0) return -1;
    addr_out(sa, len);
    return 0;
}

int setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{
    if (SIM(fd, K_SOCK)) return 0;
    return (int) real_syscall(SYS_setsockopt, fd, l, o, v, n);
}

int getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
    int64_t r;
    if (!SIM(fd, K_SOCK)) return (int) real_syscall(SYS_getsockopt, fd, l, o, v, n);
    if (l == SOL_SOCKET || l == IPPROTO_TCP) {
        memset(v, 0, *n);
        r = rpc(OP_GETSOCKOPT, fd, l, o, 0);
        if (*n >= sizeof(int)) { *(int *) v = (int) r; if (*n > (socklen_t) sizeof(int) && l == SOL_SOCKET) *n = sizeof(int); }
        return 0;
    }
    errno = ENOPROTOOPT; return -1;
}

static ssize_t do_recv(int fd, void *buf, size_t n, int flags)
{
    int64_t r;
    if (n > SIM_DATA) n = SIM_DATA;
    r = rpc(OP_RECV, fd, n, flags, 0);
    if (r > 0) memcpy(buf, ch->data, r);
    return r;
}

ssize_t recv(int fd, void *buf, size_t n, int flags)
{
    if (!SIM(fd, K_SOCK)) return real_syscall(SYS_recvfrom, fd, buf, n, flags, NULL, NULL);
    return do_recv(fd, buf, n, flags);
}

ssize_t read(int fd, void *buf, size_t n)
{
    if (SIM(fd, K_SOCK)) return do_recv(fd, buf, n, 0);
    return real_read(fd, buf, n);
}

static ssize_t scatter(const struct iovec *iov, int c, ssize_t r)
{
    ssize_t left = r, off = 0; int i;
    for (i = 0; i < c && left > 0; i++) {
        ssize_t k = (ssize_t) iov[i].iov_len < left ? (ssize_t) iov[i].iov_len : left;
        memcpy(iov[i].iov_base, ch->data + off, k); off += k; left -= k;
    }
    return r;
}

static size_t iovsize(const struct iovec *iov, int c)
{
    size_t t = 0; int i;
    for (i = 0; i < c; i++) t += iov[i].iov_len;
    return t > SIM_DATA ? SIM_DATA : t;
}

static void gather(const struct iovec *iov, int c, size_t max)
{
    size_t off = 0; int i;
    for (i = 0; i < c && off < max; i++) {
        size_t k = iov[i].iov_len < max - off ? iov[i].iov_len : max - off;
        memcpy(ch->data + off, iov[i].iov_base, k); off += k;
    }
    ch->dlen = off;
}

ssize_t readv(int fd, const struct iovec *iov, int c)
{
    int64_t r;
    if (!SIM(fd, K_SOCK)) return real_readv(fd, iov, c);
    r = rpc(OP_RECV, fd, iovsize(iov, c), 0, 0);
    return r > 0 ? scatter(iov, c, r) : r;
}

static ssize_t do_send(int fd, const void *buf, size_t n)
{
    if (n > SIM_DATA) n = SIM_DATA;
    memcpy(ch->data, buf, n); ch->dlen = n;
    return rpc(OP_SEND, fd, n, 0, 0);
}

ssize_t send(int fd, const void *buf, size_t n, int flags)
{
    if (!SIM(fd, K_SOCK)) return real_syscall(SYS_sendto, fd, buf, n, flags, NULL, 0);
    return do_send(fd, buf, n);
}

ssize_t sendto(int fd, const void *buf, size_t n, int flags, const struct sockaddr *sa, socklen_t sl)
{
    if (!SIM(fd, K_SOCK)) return real_syscall(SYS_sendto, fd, buf, n, flags, sa, sl);
    return do_send(fd, buf, n);
}

ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    size_t n; int pass = -1; struct cmsghdr *cm;
    if (!SIM(fd, K_SOCK)) return real_syscall(SYS_sendmsg, fd, m, flags);
    if (m->msg_control && m->msg_controllen) {
        cm = CMSG_FIRSTHDR((struct msghdr *) m);
        if (cm && cm->cmsg_level == SOL_SOCKET && cm->cmsg_type == SCM_RIGHTS) memcpy(&pass, CMSG_DATA(cm), sizeof(int));
    }
    n = iovsize(m->msg_iov, m->msg_iovlen);
    gather(m->msg_iov, m->msg_iovlen, n);
    return rpc(OP_SENDMSG, fd, n, pass, 0);
}

ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
    int64_t r; int nf, got; struct cmsghdr *cm;
    if (!SIM(fd, K_SOCK)) return real_syscall(SYS_recvmsg, fd, m, flags);
    nf = newfd(K_SOCK);
    if (nf < 0) return -1;
    r = rpc(OP_RECVMSG, fd, iovsize(m->msg_iov, m->msg_iovlen), nf, 0);
    got = (int) ch->a[4];
    if (r > 0) scatter(m->msg_iov, m->msg_iovlen, r);
    m->msg_flags = 0;
    if (r > 0 && got && m->msg_control && m->msg_controllen >= CMSG_SPACE(sizeof(int))) {
        cm = CMSG_FIRSTHDR(m);
        cm->cmsg_len = CMSG_LEN(sizeof(int)); cm->cmsg_level = SOL_SOCKET; cm->cmsg_type = SCM_RIGHTS;
        memcpy(CMSG_DATA(cm), &nf, sizeof(int));
    } else {
        int e = errno;
        kind[nf] = 0; real_close(nf);
        if (m->msg_control) m->msg_controllen = 0;
        errno = e;
    }
    return r;
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    ssize_t k; char *tmp; int64_t r;
    if (!SIM(out, K_SOCK)) return real_sendfile64(out, in, off, n);
    if (n > SIM_DATA) n = SIM_DATA;
    tmp = ch->data;
    k = real_pread64(in, tmp, n, *off);
    if (k <= 0) return k;
    ch->dlen = k;
    r = rpc(OP_SEND, out, k, 0, 0);
    if (r > 0) *off += r;
    return r;
}

int shutdown(int fd, int how)
{
    if (!SIM(fd, K_SOCK)) return (int) real_syscall(SYS_shutdown, fd, how);
    return (int) rpc(OP_SHUTDOWN, fd, how, 0, 0);
}

int close(int fd)
{
    if (shm && fd == SIM_FDBASE) return 0;
    if (SIMANY(fd)) { int k = kind[fd]; (void) k; rpc(OP_CLOSE, fd, 0, 0, 0); }
    if (shm && fd >= 0 && fd < NFD) kind[fd] = 0;
    return real_close(fd);
}

int ioctl(int fd, unsigned long req, ...)
{
    va_list ap; void *p; int64_t r;
    va_start(ap, req); p = va_arg(ap, void *); va_end(ap);
    if (!SIMANY(fd)) return real_ioctl(fd, req, p);
    if (req == FIONREAD) { r = rpc(OP_FIONREAD, fd, 0, 0, 0); *(int *) p = (int) r; }
    return 0;
}

int fcntl64(int fd, int cmd, ...)
{
    va_list ap; void *p;
    va_start(ap, cmd); p = va_arg(ap, void *); va_end(ap);
    if (SIMANY(fd)) return 0;
    return real_fcntl64(fd, cmd, p);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; void *p;
    va_start(ap, cmd); p = va_arg(ap, void *); va_end(ap);
    if (SIMANY(fd)) return 0;
    return real_fcntl64(fd, cmd, p);
}

/* ------------------------------------------------------------------ epoll */
int epoll_create(int n)
{
    int fd;
    if (!ch) return (int) real_syscall(SYS_epoll_create1, 0);
    fd = newfd(K_EPOLL);
    if (fd >= 0) rpc(OP_EPOLL_CREATE, fd, 0, 0, 0);
    return fd;
}
int epoll_create1(int f) { return epoll_create(1); }

int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
    if (!SIM(ep, K_EPOLL)) return (int) real_syscall(SYS_epoll_ctl, ep, op, fd, ev);
    if (!SIM(fd, K_SOCK)) { errno = EPERM; return -1; }
    ch->a[4] = ev ? (int64_t) ev->data.u64 : 0;
    return (int) rpc(OP_EPOLL_CTL, ep, op, fd, ev ? ev->events : 0);
}

int epoll_wait(int ep, struct epoll_event *evs, int max, int timeout)
{
    int64_t r; int i; struct sim_epev *se;
    if (!SIM(ep, K_EPOLL)) return (int) real_syscall(SYS_epoll_wait, ep, evs, max, timeout);
    r = rpc(OP_EPOLL_WAIT, ep, max, timeout, 0);
    if (r > 0) {
        se = (struct sim_epev *) ch->data;
        for (i = 0; i < r; i++) { evs[i].events = se[i].events; evs[i].data.u64 = se[i].data; }
    }
    return (int) r;
}

/* ------------------------------------------------------------------ processes and signals */
pid_t fork(void)
{
    int64_t s; pid_t p; int vp;
    if (!ch) return real_fork();
    s = rpc(OP_FORK_PREP, 0, 0, 0, 0);
    if (s < 0) return -1;
    vp = shm->ch[s].vpid;
    p = real_fork();
    if (p == 0) {
        slot = (int) s; ch = &shm->ch[slot];
        ch->rpid = real_getpid();
        rpc(OP_CHILD_START, ch->rpid, 0, 0, 0);
        return 0;
    }
    rpc(OP_FORK_DONE, s, p, 0, 0);
    return p < 0 ? p : vp;
}

static int real2v(pid_t p)
{
    int i;
    for (i = 0; i < SIM_MAXPROC; i++) if (shm->ch[i].rpid == p) return shm->ch[i].vpid;
    return p;
}

pid_t waitpid(pid_t pid, int *st, int opt)
{
    pid_t r;
    if (!ch) return real_waitpid(pid, st, opt);
    r = real_waitpid(-1, st, WNOHANG);
    if (r > 0) { r = real2v(r); rpc(OP_WAITPID, r, st ? *st : 0, 0, 0); }
    return r;
}

int kill(pid_t pid, int sig)
{
    if (!ch) return real_kill(pid, sig);
    return (int) rpc(OP_KILL, pid, sig, 0, 0);
}

int sigsuspend(const sigset_t *set)
{
    if (!ch) return real_sigsuspend(set);
    rpc(OP_SIGSUSPEND, 0, 0, 0, 0);
    /* signals were raised (blocked, hence pending) by rpc(); let them in */
    {
        sigset_t old; struct timespec z = { 0, 0 }; (void) z;
        sigprocmask(SIG_SETMASK, set, &old);
        sigprocmask(SIG_SETMASK, &old, NULL);
    }
    errno = EINTR;
    return -1;
}

int execve(const char *path, char *const argv[], char *const envp[])
{
    if (ch) { snprintf(ch->data, 1000, "%s", path); ch->dlen = strlen(ch->data); rpc(OP_EXEC, 0, 0, 0, 0); errno = ENOENT; return -1; }
    return (int) real_syscall(SYS_execve, path, argv, envp);
}

int dup2(int o, int n)
{
    return real_dup2(o, n);
}

#include <semaphore.h>
int sem_wait(sem_t *s)
{
    static int (*rw)(sem_t *), (*tw)(sem_t *);
    if (!rw) { *(void **) &rw = dlsym(RTLD_NEXT, "sem_wait"); *(void **) &tw = dlsym(RTLD_NEXT, "sem_trywait"); }
    if (!ch) return rw(s);
    while (tw(s) != 0) rpc(OP_YIELD, 1, 0, 0, 0);
    return 0;
}

/* ------------------------------------------------------------------ names */
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    struct in_addr in; struct { struct addrinfo ai; struct sockaddr_in sin; } *b; int i; int64_t n; struct addrinfo *head = NULL, **tail = &head;
    if (!ch) return real_getaddrinfo(node, service, hints, res);
    snprintf(ch->data, 1000, "%s", node ? node : ""); ch->dlen = strlen(ch->data);
    n = rpc(OP_GETADDRINFO, 0, 0, 0, 0);
    if (n <= 0) return EAI_NONAME;
    for (i = 0; i < n; i++) {
        memcpy(&in, ch->data + 4 * i, 4);
        b = calloc(1, sizeof(*b));
        b->ai.ai_family = AF_INET; b->ai.ai_socktype = SOCK_STREAM; b->ai.ai_addrlen = sizeof(b->sin);
        b->ai.ai_addr = (struct sockaddr *) &b->sin;
        b->sin.sin_family = AF_INET; b->sin.sin_addr = in;
        *tail = &b->ai; tail = &b->ai.ai_next;
    }
    *res = head;
    return 0;
}

void freeaddrinfo(struct addrinfo *ai)
{
    struct addrinfo *n;
    if (!ch) { real_freeaddrinfo(ai); return; }
    while (ai) { n = ai->ai_next; free(ai); ai = n; }
}

struct hostent *gethostbyname(const char *name)
{
    static struct hostent h; static char *al[1], *ad[9]; static struct in_addr in[8]; static char nm[256];
    int64_t n; int i;
    if (!ch) return NULL;
    snprintf(ch->data, 1000, "%s", name); ch->dlen = strlen(ch->data);
    n = rpc(OP_GETADDRINFO, 0, 0, 0, 0);
    if (n <= 0) { h_errno = HOST_NOT_FOUND; return NULL; }
    if (n > 8) n = 8;
    for (i = 0; i < n; i++) { memcpy(&in[i], ch->data + 4 * i, 4); ad[i] = (char *) &in[i]; }
    ad[n] = NULL; al[0] = NULL; snprintf(nm, sizeof(nm), "%s", name);
    h.h_name = nm; h.h_aliases = al; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = ad;
    return &h;
}

/* ------------------------------------------------------------------ files (only below the data dir) */
static int tracked(const char *p) { return ch && data_len && strncmp(p, data_dir, data_len) == 0; }

static int64_t path_op(int op, const char *p, const char *q, int64_t a)
{
    size_t n = strlen(p) + 1, m = q ? strlen(q) + 1 : 0;
    memcpy(ch->data, p, n); if (q) memcpy(ch->data + n, q, m);
    ch->dlen = n + m;
    return rpc(op, a, 0, 0, 0);
}
/* tells the coordinator that a file operation it allowed has been carried out */
static void stamp(int fd)
{
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = shm->wall_us / 1000000;
    ts[0].tv_nsec = ts[1].tv_nsec = (shm->wall_us % 1000000) * 1000;
    futimens(fd, ts);
}
static void file_done(int op, int64_t r) { int e = errno; ch->dlen = 0; rpc(OP_FDONE, op, r, r < 0 ? e : 0, 0); errno = e; }

static int do_open(int at, const char *p, int flags, mode_t mode)
{
    int fd, w = tracked(p) && (flags & O_ACCMODE) != O_RDONLY;
    if (w && path_op(OP_FOPEN, p, NULL, flags) < 0) return -1;
    fd = real_openat64(at, p, flags, mode);
    if (w) {
        if (fd >= 0 && fd < NFD) { kind[fd] = K_FILE; stamp(fd); }
        { int e = errno; ch->a[5] = fd; ch->a[6] = e; path_op(OP_FDONE, p, NULL, OP_FOPEN); errno = e; }
    } else if (ch && fd >= 0 && fd < NFD) kind[fd] = 0;
    return fd;
}

int open64(const char *p, int flags, ...)
{
    mode_t m; va_list ap;
    va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
    if (!real_openat64) resolve();
    return do_open(AT_FDCWD, p, flags, m);
}
int open(const char *p, int flags, ...)
{
    mode_t m; va_list ap;
    va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
    if (!real_openat64) resolve();
    return do_open(AT_FDCWD, p, flags, m);
}
int openat64(int at, const char *p, int flags, ...)
{
    mode_t m; va_list ap;
    va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
    if (!real_openat64) resolve();
    return do_open(at, p, flags, m);
}

/* asks how many of n bytes may be written; >=0: count, <0: errno set */
static int64_t file_write_gate(int fd, size_t n, int64_t off) { ch->dlen = 0; return rpc(OP_FWRITE, fd, n, off, 0); }

ssize_t write(int fd, const void *buf, size_t n)
{
    int64_t r;
    if (SIM(fd, K_SOCK)) return do_send(fd, buf, n);
    if (SIM(fd, K_FILE) && n) {
        r = file_write_gate(fd, n, -1);
        if (r < 0) return -1;
        r = real_write(fd, buf, r);
        stamp(fd); file_done(OP_FWRITE, r);
        return r;
    }
    return real_write(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *iov, int c)
{
    size_t n; int64_t r;
    if (SIM(fd, K_SOCK)) {
        n = iovsize(iov, c);
        gather(iov, c, n);
        return rpc(OP_SEND, fd, n, 0, 0);
    }
    if (SIM(fd, K_FILE)) {
        struct iovec v[64]; int i, k = 0; size_t left;
        n = iovsize(iov, c);
        r = file_write_gate(fd, n, -1);
        if (r < 0) return -1;
        left = r;
        for (i = 0; i < c && i < 64 && left; i++) { v[k] = iov[i]; if (v[k].iov_len > left) v[k].iov_len = left; left -= v[k].iov_len; k++; }
        r = real_writev(fd, v, k);
        stamp(fd); file_done(OP_FWRITE, r);
        return r;
    }
    return real_writev(fd, iov, c);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
    int64_t r;
    if (SIM(fd, K_FILE) && n) {
        r = file_write_gate(fd, n, off);
        if (r < 0) return -1;
        r = real_pwrite64(fd, buf, r, off);
        stamp(fd); file_done(OP_FWRITE, r);
        return r;
    }
    return real_pwrite64(fd, buf, n, off);
}

ssize_t pwritev64(int fd, const struct iovec *iov, int c, off64_t off)
{
    if (SIM(fd, K_FILE)) {
        struct iovec v[64]; int i, k = 0; size_t left, n = 0; int64_t r;
        for (i = 0; i < c; i++) n += iov[i].iov_len;
        r = file_write_gate(fd, n, off);
        if (r < 0) return -1;
        left = r;
        for (i = 0; i < c && i < 64 && left; i++) { v[k] = iov[i]; if (v[k].iov_len > left) v[k].iov_len = left; left -= v[k].iov_len; k++; }
        r = real_pwritev64(fd, v, k, off);
        stamp(fd); file_done(OP_FWRITE, r);
        return r;
    }
    return real_pwritev64(fd, iov, c, off);
}

int rename(const char *a, const char *b)
{
    int r;
    if (!tracked(a) && !tracked(b)) return real_rename(a, b);
    if (path_op(OP_FRENAME, a, b, 0) < 0) return -1;
    r = real_rename(a, b);
    file_done(OP_FRENAME, r);
    return r;
}

int unlink(const char *p)
{
    int r;
    if (!tracked(p)) return real_unlink(p);
    if (path_op(OP_FUNLINK, p, NULL, 0) < 0) return -1;
    r = real_unlink(p);
    file_done(OP_FUNLINK, r);
    return r;
}

int rmdir(const char *p)
{
    int r;
    if (!tracked(p)) return real_rmdir(p);
    if (path_op(OP_FRMDIR, p, NULL, 0) < 0) return -1;
    r = real_rmdir(p);
    file_done(OP_FRMDIR, r);
    return r;
}

int mkdir(const char *p, mode_t m)
{
    int r;
    if (!tracked(p)) return real_mkdir(p, m);
    if (path_op(OP_FMKDIR, p, NULL, m) < 0) return -1;
    r = real_mkdir(p, m);
    file_done(OP_FMKDIR, r);
    return r;
}

int ftruncate64(int fd, off64_t n)
{
    int r;
    if (!SIM(fd, K_FILE)) return real_ftruncate64(fd, n);
    ch->dlen = 0;
    if (rpc(OP_FTRUNC, fd, n, 0, 0) < 0) return -1;
    r = real_ftruncate64(fd, n);
    stamp(fd); file_done(OP_FTRUNC, r);
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) { return real_fsync(fd); }
int gethostname(char *p, size_t n) { snprintf(p, n, "simhost"); return 0; }
