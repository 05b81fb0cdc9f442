/* Model of the operating system seen by the library.  Every outcome the
 * kernel may choose is a symbolic value; budgets bound how often. */
#ifndef ENV_H
#define ENV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include "sym.h"

#define ENV_NFD 40
#define ENV_NREG 40

enum { FD_FREE, FD_EPOLL, FD_TIMER, FD_STREAM, FD_FILE, FD_LISTEN };

typedef struct {
    int kind;
    int nonblock, cloexec;
    int noepoll;                 /* epoll_ctl refuses it (regular file) */
    int oflags, omode;           /* as given to open () */
    /* timer */
    int armed, fired;
    int64_t t_sec, t_nsec;
    int nset;
    /* stream, incoming side */
    uint8_t *in;
    int in_len, in_pos, in_cap;
    int in_end;                  /* 0 stays open, 1 end of file, 2 error */
    int in_err;
    /* stream, outgoing side */
    uint8_t *out;
    int out_pos, out_cap;
    int out_end;                 /* when full: 0 would block, 2 error */
    int out_err;
    int peer;                    /* fd receiving what is written, or -1 */
    int again;                   /* how many more spurious EAGAIN */
    int again_out;
    int errs, errs_out, err;     /* how many more hard errors, and errno */
    int err_seen, werr_seen;     /* hard errors were reported */
    int maxio;                   /* largest transfer per call, 0 = any */
    int whole;                   /* 1: a call always moves all it can */
    int dgram;
    int arm_in, arm_out;         /* an EAGAIN was seen: an edge is owed */
    int nread, nwrite;           /* calls that moved data */
    int reof;                    /* times end of file was reported */
    int connecting, conn_err, so_error;
    int backlog;
    int lastflags;
    int closed;                  /* times closed */
} EnvFd;

typedef struct { int used, epfd, fd; uint32_t events; uint64_t data; uint32_t pend; int seq; } EnvReg;

extern EnvFd env_fd[ENV_NFD];
extern EnvReg env_reg[ENV_NREG];
extern int env_nopen;                     /* descriptors open */
extern int env_nblocks;                   /* malloc blocks live */
extern int env_nmaps;                     /* mappings live */
extern int64_t env_sec, env_nsec;         /* the monotonic clock */
extern int env_fail_malloc;               /* how many allocations may fail */
extern int env_fail_mmap;
extern int env_fail_fd;                   /* how many fd creations/controls may fail */
extern int env_fail_misc;                 /* other calls (sigaction, pthread_*, ...) */
extern int env_failed;                    /* failures injected so far */
extern uint64_t env_malloc_limit;         /* larger requests are refused */
extern int env_malloc_calls;
extern uint64_t env_malloc_huge;          /* from here on requests are granted again, of which only the first page may be touched */
extern int env_eintr_now;                 /* set by the hook: this one is */
extern int env_eintr;                     /* how many epoll_wait may be interrupted */
extern int env_shuffle;                   /* order of simultaneous events is free */
extern int env_late;                      /* timers may be reported late (ns bits) */
extern int env_pipe_cap;                  /* how much a pipe holds */
extern int env_npolls;                    /* poll calls so far */
extern int env_polls;                     /* epoll_wait calls so far */
extern int env_idle_ok;
extern int env_wait_ep;                   /* the epoll instance being waited for */
extern int env_sigdepth;                  /* changed signal settings */

extern uint64_t env_mmap_limit;
extern void *env_handler[2];
typedef struct { char *base; uint64_t len, guard, end; int none; } EnvMap;
#define ENV_NBLOCK 8
extern int env_fd_low;
extern EnvMap env_map;                    /* the latest mapping and its protected start */
extern EnvMap env_block[ENV_NBLOCK];      /* the latest blocks, a ring */
extern stack_t env_altstack;
void env_sig_preset (void *bus, void *segv, void *alt);

int env_fd_new (int kind);
int env_close (int fd);
int env_stream (const uint8_t *in, int in_len, int in_end, int out_cap);
void env_fire (int fd, uint32_t mask);
int env_ready (int fd);
void env_advance (int64_t sec, int64_t nsec);
int env_is_open (int fd);
int env_registered (int fd);
int env_alloc_fd (void);

/* hooks: weak defaults in env.c */
void env_hook_poll (int timeout);         /* each epoll_wait, before collecting */
void env_hook_wait (void);                /* epoll_wait really waits */
void env_hook_idle (void);                /* nothing can ever wake anyone */
void env_hook_clock (void);               /* each clock_gettime */
void env_hook_malloc (size_t n);
void env_hook_abort (void);               /* abort () or a failed assert () */
#endif
