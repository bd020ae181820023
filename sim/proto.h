// Shared-memory protocol between libsim.so (inside nginx) and simdrv (the coordinator).
#ifndef SIM_PROTO_H
#define SIM_PROTO_H
#include <stdint.h>

#define SIM_MAXPROC   24
#define SIM_DATA      (1 << 20)
#define SIM_FDBASE    900          /* fd number the shm memfd is inherited on */

enum {
    OP_NONE = 0, OP_HELLO, OP_SOCKET, OP_SOCKETPAIR, OP_BIND, OP_LISTEN, OP_CONNECT,
    OP_ACCEPT, OP_RECV, OP_SEND, OP_SHUTDOWN, OP_CLOSE, OP_GETSOCKNAME, OP_GETPEERNAME,
    OP_GETSOCKOPT, OP_FIONREAD, OP_EPOLL_CREATE, OP_EPOLL_CTL, OP_EPOLL_WAIT,
    OP_SIGSUSPEND, OP_FORK_PREP, OP_FORK_DONE, OP_CHILD_START, OP_KILL, OP_SLEEP, OP_YIELD,
    OP_FOPEN, OP_FWRITE, OP_FRENAME, OP_FUNLINK, OP_FTRUNC, OP_FMKDIR, OP_FRMDIR, OP_FDONE,
    OP_GETADDRINFO, OP_EXIT, OP_CRASH, OP_WAITPID, OP_SENDMSG, OP_RECVMSG, OP_EXEC, OP_DUP,
    OP_MAX
};

struct sim_chan {
    volatile int32_t turn;          /* 0 process running, 1 request posted, 2 response ready */
    int32_t  op;
    int64_t  a[8];
    int64_t  ret;
    int32_t  err;
    int32_t  nsig;
    int32_t  sigs[16];
    int32_t  vpid, vppid;
    int32_t  rpid;                  /* real pid */
    uint64_t rnd;                   /* RAND_bytes stream */
    int32_t  dlen;                  /* bytes in data */
    char     data[SIM_DATA];
};

struct sim_shm {
    volatile int64_t wall_us;
    volatile int64_t mono_us;
    int32_t  pad;
    struct sim_chan ch[SIM_MAXPROC];
};

struct sim_epev { uint32_t events; uint32_t pad; uint64_t data; };
#endif
