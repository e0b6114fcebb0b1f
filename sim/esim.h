/* esim: deterministic simulator for E's programs.
 *
 * esim.c is linked into every (unmodified) E program.  It replaces the libc
 * entry points through which a program meets time, scheduling, signals,
 * processes, memory and I/O.  All simulated processes are real processes,
 * but only the one holding the token runs; the token moves only where the
 * seeded scheduler says so.  The whole world lives in one shared mapping.
 */
#ifndef ESIM_H
#define ESIM_H
#include <stdint.h>
#include <stddef.h>
#include <sys/select.h>

#define ESIM_WORLD_ADDR ((void*)0x300000000000ull)
#define ESIM_HEAP_ADDR  ((char*)0x400000000000ull)
#define ESIM_HEAP_SIZE  (3ull<<30)
#define ESIM_CAP_FD     899      /* what processes wrote to their stdout pipes: "vpid len\n" data */
#define ESIM_WORLD_FD   900
#define ESIM_SINK_FD0   901      /* 901+2k: stdout of root k, 902+2k stderr */

#define MAXPROC   2048
#define MAXFD     192
#define MAXPIPE   1000
#define PIPEBUFSZ 65536
#define MAXLISTEN 8
#define MAXFAULT  512
#define MAXROOT   12
#define LOGSIZE   (48u<<20)
#define MAXCHOICE 400000
#define COVSIZE   65536

enum { T_NONE=0, T_REAL, T_PIPE_R, T_PIPE_W, T_SINK, T_SOCK, T_LISTEN, T_RAWSOCK, T_NULL };

enum op {                      /* countable operations (fault sites) */
   OP_OPENR=0, OP_OPENW, OP_READ, OP_WFILE, OP_WOUT, OP_WERR, OP_RPIPE, OP_WPIPE,
   OP_RSOCK, OP_WSOCK, OP_MALLOC, OP_FORK, OP_PIPE, OP_SELECT, OP_WAITPID,
   OP_ACCEPT, OP_UNLINK, OP_POPEN, OP_MKSTEMP, OP_CONNECT, OP_KILL, OP_CLOSE,
   OP_TICK, OP_SYS, OP_SOCKET, OP_STAT, OP_MKDIR, OP_RLIMIT, NOPS
};
#define OPNAMES {"openr","openw","read","wfile","wout","werr","rpipe","wpipe",\
   "rsock","wsock","malloc","fork","pipe","select","waitpid","accept","unlink",\
   "popen","mkstemp","connect","kill","close","tick","sys","socket","stat","mkdir","rlimit"}

enum fact { FA_ERR=0, FA_SHORT, FA_SIG, FA_STALL, FA_JUMP, FA_KILLW, FA_RESET };
#define FANAMES {"err","short","sig","stall","jump","killw","reset"}

typedef struct {
   int      sel;        /* 0: any process (global counter); >0 vpid */
   int      op;
   uint64_t idx;        /* 1-based; for tick: tick number */
   uint64_t cnt;        /* how many consecutive operations are hit (0: forever) */
   int      act;
   int64_t  arg;
   int      fired;      /* times */
   char     match[48];  /* optional: path substring for file operations */
   uint64_t seen;       /* matching operations so far (only if match given) */
} Fault;

enum { S_FREE=0, S_READY, S_BLOCKED, S_ZOMBIE, S_GONE };
enum { W_NONE=0, W_PIPE_R, W_PIPE_W, W_SOCK_R, W_SOCK_W, W_CHILD, W_SELECT, W_TIME, W_ACCEPT };

typedef struct { short type; short obj; } FdEnt;

typedef struct {
   int      state, vpid, parent;      /* parent: slot or -1 */
   int      realpid;
   int      wstatus;                  /* wait status when zombie */
   int      reaped, orphaned, crashed; /* crashed: real signal number */
   int      depth;
   int      isroot;                   /* 1+root index, or 0 */
   volatile uint32_t futex;
   uint64_t ticks, cpu_us_start;
   double   cpu_us;
   uint64_t child_cpu_us;
   uint64_t pend;
   int      wait_kind, wait_obj, wait_obj2;
   uint64_t deadline;                 /* 0: none */
   uint64_t stall_until;
   fd_set   selr;
   int      selnfds;
   uint64_t rl_cur, rl_max, next_xcpu;/* RLIMIT_CPU in virtual seconds */
   FdEnt    fds[MAXFD];
   uint64_t opc[NOPS];
   char     name[32];
   uint64_t born_us, died_us;
   int64_t  prio;
   uint64_t heap_peak;
   uint32_t sinkid;
   int      xcpu_seen;
   int      died_by_exit;
   uint64_t sig_seen;                 /* signals delivered (mask) */
   int      ppid0;                    /* vpid of the process that started it */
} Proc;

typedef struct {
   int      used, readers, writers;
   uint32_t head, len, cap;
   uint64_t total_in, total_out;
   int      reset;
   unsigned char buf[PIPEBUFSZ];
} Pipe;

typedef struct { int used, port, backlog, nq; int q[64]; } Listen;   /* q: sock ids */
typedef struct { int used; int rx, tx; int refs; } Sock;             /* pipe ids */
#define MAXSOCK 300

typedef struct {
   /* plan */
   uint64_t seed;
   int      ncores;
   double   ticks_per_us;         /* virtual CPU speed */
   uint32_t q_min, q_max;         /* preemption quantum in ticks */
   int      sched;                /* 0 uniform, 1 sticky, 2 pct, 3 fifo(no random) */
   int      sticky_pct;
   uint32_t rchunk, rchunk_pct;   /* regular-file reads: max chunk */
   uint32_t pchunk, pchunk_pct;   /* pipe reads */
   uint32_t schunk, schunk_pct;   /* socket reads/writes */
   uint32_t pipecap;
   int      tty, gai;             /* standard output is a terminal; shape of name resolution */
   uint64_t heap_limit;           /* bytes, 0 none */
   uint32_t heap_base;            /* start of the heap is shifted by this many 16-byte units */
   uint32_t heap_seed;            /* 0: plain */
   int      heap_fill;            /* byte for fresh memory; -1 none(zero) */
   int      heap_freefill;
   uint64_t tick_budget;          /* per world */
   uint64_t vtime_limit;          /* us */
   uint64_t epoch;                /* start of wall clock, seconds */
   int      vpid0;
   int64_t  skew;                 /* current clock offset us */
   int      nfault;
   Fault    fault[MAXFAULT];
   int      tmpreverse;
   char     bindir[256];
   char     stub[64];             /* basename substituted for popen'd 'eprover' */
   int      nroots;
   int      root_delay_sets;
   uint64_t root_start[MAXROOT];  /* virtual us at which root k becomes ready */
   int      stop_when_roots;      /* bitmask of roots: world ends when those are done and settle passed */
   uint64_t settle_us;
   int      capture;

   /* state */
   volatile uint32_t attached;
   volatile uint32_t finished;
   int      outcome;              /* 0 all done, 1 deadlock, 2 tick budget, 3 vtime limit, 4 stopped */
   uint64_t now;                  /* virtual us */
   double   nowf;
   uint64_t total_ticks;
   int      cur;
   int      nproc;
   uint64_t rng_sched, rng_io, rng_misc;
   uint64_t nswitch;
   uint64_t gopc[NOPS];
   uint64_t firec[NOPS][8];
   uint64_t shortc[3];            /* implicit short reads: file, pipe, sock */
   uint64_t xcpu_count, preempt, stallc;
   int      max_live;
   int      tmpcount;
   uint64_t stop_at;
   Proc     proc[MAXPROC];
   Pipe     pipe[MAXPIPE];
   Listen   lst[MAXLISTEN];
   Sock     sock[MAXSOCK];
   uint64_t sink_bytes[2*MAXROOT];
   /* scheduling decisions */
   uint32_t nchoice;              /* recorded */
   uint32_t ngiven;               /* given in plan (replay) */
   int      use_given;
   unsigned char choice[MAXCHOICE];
   unsigned char choice_n[MAXCHOICE];
   unsigned char given[MAXCHOICE];
   uint64_t schash;               /* hash of scheduling/event history */
   unsigned char cov[COVSIZE];
   uint32_t loglen;
   int      logtrunc;
   char     log[LOGSIZE];
} World;

#endif
