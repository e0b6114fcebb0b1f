/* esim.c -- see esim.h.  Linked into each simulated program; NOT instrumented. */
#define _GNU_SOURCE
#include "esim.h"
#include <ucontext.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <poll.h>
#include <dlfcn.h>
#include <time.h>
#include <limits.h>
#include <netdb.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <linux/futex.h>

extern char **environ;
extern char __executable_start, etext;
static World *W;
static Proc  *me;
static int    myslot = -1;
static int    active;               /* attached to a world */
static int    depth_sim;            /* inside the simulator */
static int64_t countdown = INT64_MAX, armed = INT64_MAX;
static int64_t quantum_left;
static uint32_t faultmask;
static uint64_t insig;              /* signals being handled */
static int    dying;
static sighandler_t handlers[65];
static const char *opname[NOPS+1] = OPNAMES;
static const char *faname[] = FANAMES;

/* ------------------------------------------------------------ utilities */
static long sysc(long n, long a, long b, long c, long d, long e, long f)
{ return syscall(n,a,b,c,d,e,f); }
static void futex_wake(volatile uint32_t *a){ sysc(SYS_futex,(long)a,FUTEX_WAKE,1,0,0,0); }
static void futex_wait(volatile uint32_t *a, uint32_t v){ sysc(SYS_futex,(long)a,FUTEX_WAIT,v,0,0,0); }

static uint64_t rng(uint64_t *s)
{  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
   z = (z ^ (z>>30)) * 0xbf58476d1ce4e5b9ull;
   z = (z ^ (z>>27)) * 0x94d049bb133111ebull;
   return z ^ (z>>31); }
static uint64_t rngn(uint64_t *s, uint64_t n){ return n? rng(s)%n : 0; }

static void hash_ev(uint64_t v){ W->schash = (W->schash ^ v) * 0x100000001b3ull; }

static void slog(const char *fmt, ...)
{
   if(!active) return;
   if(W->loglen > LOGSIZE-1200){ W->logtrunc=1; return; }
   char *p = W->log + W->loglen;
   int n = sprintf(p, "%llu %d ", (unsigned long long)W->now, me?me->vpid:0);
   va_list ap; va_start(ap,fmt);
   n += vsnprintf(p+n, 1000, fmt, ap);
   va_end(ap);
   if(n>1100) n=1100;
   p[n++]='\n';
   W->loglen += n;
}

/* ------------------------------------------------------------ heap */
#define HMAGIC 0x45u
typedef struct { uint64_t req; uint32_t cls; uint32_t magic; } Hdr;
#define NCLS 200
static char *h_top, *h_end;
static void *h_free[NCLS];
static void *h_ftail[NCLS];
static uint32_t h_size[NCLS];
static uint64_t h_big[NCLS];
static int h_ncls;
static uint64_t h_rng;
static uint64_t h_limit;            /* on h_top - base, 0: none (set by plan or rlimit) */
static int h_fill=-1, h_ffill=-1;
static uint32_t h_seed;

static void heap_init(void)
{
   char *m = mmap(ESIM_HEAP_ADDR, ESIM_HEAP_SIZE, PROT_READ|PROT_WRITE,
                  MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
   if(m != ESIM_HEAP_ADDR){ static const char e[]="esim: heap\n"; sysc(SYS_write,2,(long)e,sizeof e-1,0,0,0); _exit(99); }
   h_top = m; h_end = m + ESIM_HEAP_SIZE;
   int n=0; uint64_t s=16;
   while(n<NCLS && s < ESIM_HEAP_SIZE)
   {  h_big[n++]=s; if(s<1024) s+=16; else { s += s/5; s=(s+15)&~15ull; } }
   h_ncls=n;
   (void)h_size;
}
static int cls_of(uint64_t n)
{  if(n<=1024) return n? (int)((n+15)/16)-1 : 0;
   int lo=63, hi=h_ncls-1;
   while(lo<hi){ int m=(lo+hi)/2; if(h_big[m]>=n) hi=m; else lo=m+1; }
   return lo; }
static void *h_alloc(uint64_t n, int limited)
{
   if(!h_top) heap_init();
   if(n > ESIM_HEAP_SIZE/2) { errno=ENOMEM; return NULL; }
   int c = cls_of(n);
   char *blk;
   if(h_free[c])
   {  blk = h_free[c]; h_free[c] = *(void**)(blk+16); if(!h_free[c]) h_ftail[c]=NULL; }
   else
   {
      uint64_t sz = h_big[c]+16;
      if(h_seed && h_big[c] <= 4096) sz += 16*rngn(&h_rng, 9);
      if(h_top + sz > h_end || (limited && h_limit && (uint64_t)(h_top+sz-ESIM_HEAP_ADDR) > h_limit))
      {  errno=ENOMEM; return NULL; }
      if((h_seed&2) && h_big[c] <= 4096)      /* relative order of addresses shuffled too: take some blocks at once, in random order */
      {
         char *b[12]; int k=0, i;
         while(k<12 && h_top+sz <= h_end && !(k && limited && h_limit && (uint64_t)(h_top+sz-ESIM_HEAP_ADDR) > h_limit)) { b[k++]=h_top; h_top+=sz; }
         for(i=k-1;i>0;i--){ int j=rngn(&h_rng,i+1); char *t=b[i]; b[i]=b[j]; b[j]=t; }
         for(i=1;i<k;i++){ Hdr *h=(Hdr*)b[i]; h->req=0; h->cls=c; h->magic=0xDEADu; *(void**)(b[i]+16)=h_free[c]; h_free[c]=b[i]; if(!h_ftail[c]) h_ftail[c]=b[i]; }
         blk=b[0];
      }
      else { blk = h_top; h_top += sz; }
      if(me && (uint64_t)(h_top-ESIM_HEAP_ADDR) > me->heap_peak) me->heap_peak = h_top-ESIM_HEAP_ADDR;
   }
   Hdr *h=(Hdr*)blk; h->req=n; h->cls=c; h->magic=HMAGIC;
   return blk+16;
}
static void sim_heap_abort(const char *what);
static void h_release(void *p)
{
   Hdr *h = (Hdr*)((char*)p-16);
   if(h->magic!=HMAGIC){ sim_heap_abort(h->magic==0xDEADu?"double free":"bad free"); return; }
   h->magic=0xDEADu;
   if(h_ffill>=0 && h->req>0) memset(p, h_ffill, h->req);
   int c=h->cls;
   if(h_seed && (h_seed&1))      /* FIFO reuse */
   {  *(void**)p=NULL;
      if(h_ftail[c]) *(void**)((char*)h_ftail[c]+16)=h; else h_free[c]=h;
      h_ftail[c]=h; }
   else
   {  *(void**)p=h_free[c]; h_free[c]=h; if(!h_ftail[c]) h_ftail[c]=h; }
}
static void sim_heap_abort(const char *what)
{
   if(active) slog("HEAP %s", what);
   abort();
}
static int fault_check(int op, const char *path, Fault **out);
#define FROM_PROG() ((char*)__builtin_return_address(0)>=&__executable_start && (char*)__builtin_return_address(0)<&etext)
static void *prog_alloc(uint64_t n, int zero, int prog)
{
   if(prog && active && !depth_sim)
   {
      if(faultmask & (1u<<OP_MALLOC))
      {
         Fault *f;
         if(fault_check(OP_MALLOC,NULL,&f) && (f->arg<=0 || n >= (uint64_t)f->arg))
         {  slog("malloc %llu -> ENOMEM", (unsigned long long)n); errno=ENOMEM; return NULL; }
      }
      else { me->opc[OP_MALLOC]++; W->gopc[OP_MALLOC]++; }
   }
   void *p = h_alloc(n, prog && !depth_sim);
   if(!p){ if(active&&prog) slog("malloc %llu -> limit", (unsigned long long)n); return NULL; }
   if(zero) memset(p,0,n);
   else if(h_fill>=0) memset(p,h_fill,n);
   return p;
}
void *malloc(size_t n){ return prog_alloc(n,0,FROM_PROG()); }
void *calloc(size_t a,size_t b)
{ if(b && a > SIZE_MAX/b){ errno=ENOMEM; return NULL; } return prog_alloc(a*b,1,FROM_PROG()); }
void free(void *p){ if(p) h_release(p); }
void *realloc(void *p,size_t n)
{
   int prog=FROM_PROG();
   if(!p) return prog_alloc(n,0,prog);
   Hdr *h=(Hdr*)((char*)p-16);
   if(h->magic!=HMAGIC){ sim_heap_abort("bad realloc"); }
   void *q = prog_alloc(n,0,prog);
   if(!q) return NULL;
   memcpy(q,p,h->req<n?h->req:n);
   h_release(p);
   return q;
}
void *memalign(size_t al,size_t n)
{  if(al<=16) return prog_alloc(n,0,0);
   char *p=prog_alloc(n+al+16,0,0); if(!p) return NULL;
   /* never freed individually: hand out an inner block with its own header */
   char *q=(char*)(((uintptr_t)p+16+al-1)&~(uintptr_t)(al-1));
   Hdr *h=(Hdr*)(q-16); Hdr *o=(Hdr*)(p-16);
   if(q!=p){ h->req=n; h->cls=0; h->magic=HMAGIC; (void)o; }
   return q; }
void *aligned_alloc(size_t al,size_t n){ return memalign(al,n); }
int posix_memalign(void **r,size_t al,size_t n){ *r=memalign(al,n); return *r?0:ENOMEM; }
size_t malloc_usable_size(void *p){ return p?((Hdr*)((char*)p-16))->req:0; }

/* ------------------------------------------------------------ time accounting */
static int nrun_cached=1;
static void sync_time(void)
{
   int64_t used = armed - countdown;
   if(used<=0) { armed=countdown; return; }
   armed = countdown;
   me->ticks += used;
   W->total_ticks += used;
   double us = (double)used / W->ticks_per_us;
   me->cpu_us += us;
   int par = nrun_cached < W->ncores ? nrun_cached : W->ncores;
   if(par<1) par=1;
   W->nowf += us/par;
   W->now = (uint64_t)W->nowf;
   quantum_left -= used;
}
static void arm(void)
{
   int64_t d = quantum_left>0 ? quantum_left : 1;
   if(faultmask & (1u<<OP_TICK))
      for(int i=0;i<W->nfault;i++)
      {  Fault *f=&W->fault[i];
         if(f->op==OP_TICK && !f->fired && f->sel==me->vpid && f->idx>me->ticks && (int64_t)(f->idx-me->ticks)<d)
            d = f->idx-me->ticks;
         else if(f->op==OP_TICK && !f->fired && f->sel==me->vpid && f->idx<=me->ticks) d=1; }
   if(me->next_xcpu)
   {  double rem = ((double)me->next_xcpu*1e6 - me->cpu_us)*W->ticks_per_us;
      if(rem<1) rem=1;
      if(rem<d) d=(int64_t)rem+1; }
   if(me->pend & ~insig) d=1;
   if(W->tick_budget > W->total_ticks)
   {  uint64_t r=W->tick_budget-W->total_ticks; if(r<(uint64_t)d) d=r?r:1; }
   countdown=armed=d;
}
static void charge(int n){ countdown -= n; }

/* ------------------------------------------------------------ scheduling */
static void world_finish(int outcome)
{
   W->outcome=outcome;
   W->finished=1;
   futex_wake(&W->finished);
   for(;;) pause();
}
static int sock_readable(int s)
{  Sock *k=&W->sock[s]; Pipe *p=&W->pipe[k->rx]; return p->len>0 || p->writers==0 || p->reset; }
static int fd_readable(Proc *p,int fd)
{
   if(fd<0||fd>=MAXFD) return 0;
   FdEnt *e=&p->fds[fd];
   switch(e->type)
   {
   case T_PIPE_R: return W->pipe[e->obj].len>0 || W->pipe[e->obj].writers==0;
   case T_SOCK:   return sock_readable(e->obj);
   case T_LISTEN: return W->lst[e->obj].nq>0;
   case T_REAL: case T_NULL: return 1;
   default: return 0;
   }
}
static int child_ready(int slot,int which)     /* which: -1 any, else slot */
{
   for(int i=0;i<W->nproc;i++)
      if(W->proc[i].parent==slot && W->proc[i].state==S_ZOMBIE && (which<0||which==i)) return i;
   return -1;
}
static int cond_true(Proc *p,int slot)
{
   switch(p->wait_kind)
   {
   case W_PIPE_R: { Pipe *q=&W->pipe[p->wait_obj]; return q->len>0||q->writers==0||q->reset; }
   case W_PIPE_W: { Pipe *q=&W->pipe[p->wait_obj]; return q->len<q->cap||q->readers==0||q->reset; }
   case W_CHILD:  return child_ready(slot,p->wait_obj)>=0;
   case W_ACCEPT: return W->lst[p->wait_obj].nq>0;
   case W_SELECT: for(int fd=0;fd<p->selnfds;fd++) if(FD_ISSET(fd,&p->selr)&&fd_readable(p,fd)) return 1;
                  return 0;
   default: return 0;
   }
}
static int runnable(int i)
{
   Proc *p=&W->proc[i];
   if(p->state!=S_READY && p->state!=S_BLOCKED) return 0;
   if(p->stall_until > W->now) return 0;
   if(p->state==S_READY) return 1;
   if(p->pend) return 1;
   if(p->deadline && p->deadline<=W->now) return 1;
   return cond_true(p,i);
}
static void raise_sig(Proc *p,int sig){ if(p->state==S_READY||p->state==S_BLOCKED) p->pend |= 1ull<<sig; }
static Proc *by_vpid(int v){ for(int i=0;i<W->nproc;i++) if(W->proc[i].vpid==v && W->proc[i].state!=S_FREE) return &W->proc[i]; return NULL; }

static void fire_fault(Fault *f,int op){ f->fired++; W->firec[op][f->act&7]++; }
static void apply_async(Fault *f,Proc *p)
{
   if(f->act==FA_SIG){ if(p) raise_sig(p,(int)f->arg); }
   else if(f->act==FA_STALL){ if(p) { p->stall_until=W->now+f->arg; W->stallc++; } }
   else if(f->act==FA_JUMP){ W->skew += f->arg; }
   else if(f->act==FA_RESET && p)   /* reset all connections of p */
   {  for(int fd=0;fd<MAXFD;fd++) if(p->fds[fd].type==T_SOCK)
      { Sock *k=&W->sock[p->fds[fd].obj]; W->pipe[k->rx].reset=1; W->pipe[k->tx].reset=1; } }
   slog("FAULT %s %s %lld on %d", opname[f->op], faname[f->act], (long long)f->arg, f->sel);
}
#define OP_TIME NOPS       /* pseudo op stored in fault.op by the plan reader */
static uint64_t timed_events(void)     /* fire due ones, return next deadline */
{
   uint64_t next=0;
   for(int i=0;i<W->nfault;i++)
   {
      Fault *f=&W->fault[i];
      if(f->op!=OP_TIME || f->fired) continue;
      if(f->idx<=W->now){ f->fired++; W->firec[OP_TICK][f->act&7]++;
         Proc *p = f->sel? by_vpid(f->sel):NULL; 
         int o=f->op; f->op=OP_TICK; apply_async(f,p); f->op=o; }
      else if(!next||f->idx<next) next=f->idx;
   }
   return next;
}
static void wait_token(void)
{
   int spin=0;
   while(me->futex==0){ if(++spin<200) __builtin_ia32_pause(); else futex_wait(&me->futex,0); }
   me->futex=0;
}
static int roots_done(void)
{
   int any=0;
   for(int i=0;i<W->nproc;i++) if(W->proc[i].isroot && (W->stop_when_roots>>(W->proc[i].isroot-1)&1))
   {  any=1; if(W->proc[i].state==S_READY||W->proc[i].state==S_BLOCKED) return 0; }
   return any;
}
/* Called by the token holder; returns when the caller holds the token again
   (never, if the caller is dying). */
static void schedule(void)
{
   int cand[MAXPROC], n;
   for(;;)
   {
      uint64_t nt = timed_events();
      if(W->total_ticks >= W->tick_budget) world_finish(2);
      if(W->now >= W->vtime_limit) world_finish(3);
      if(W->stop_when_roots && !W->stop_at && roots_done()) W->stop_at=W->now+W->settle_us+1;
      if(W->stop_at && W->now>=W->stop_at) world_finish(4);
      n=0; int live=0; uint64_t next=nt;
      if(myslot>=0 && !dying && runnable(myslot)) cand[n++]=myslot;
      for(int i=0;i<W->nproc;i++)
      {
         Proc *p=&W->proc[i];
         if(p->state!=S_READY&&p->state!=S_BLOCKED) continue;
         live++;
         if(i==myslot) { if(dying) live--; else if(n&&cand[0]==i) continue; }
         else if(runnable(i)) { cand[n++]=i; continue; }
         if(i==myslot && dying) continue;
         if(p->stall_until>W->now){ if(!next||p->stall_until<next) next=p->stall_until; }
         else if(p->deadline && (!next||p->deadline<next)) next=p->deadline;
      }
      if(n) break;
      if(live==0) world_finish(W->stop_at?4:0);
      if(W->stop_at && (!next||W->stop_at<next)) { W->nowf=W->now=W->stop_at; continue; }
      if(!next) world_finish(1);
      W->now=next; if(W->nowf<next) W->nowf=next;
   }
   nrun_cached=n;
   int k=0;
   if(n>1)
   {
      if(W->use_given)
      {  k = W->nchoice<W->ngiven ? W->given[W->nchoice] : 0; if(k>=n) k=n-1; }
      else switch(W->sched)
      {
      case 0: k=rngn(&W->rng_sched,n); break;
      case 1: k = (cand[0]==myslot && (int)rngn(&W->rng_sched,100)<W->sticky_pct) ? 0 : (int)rngn(&W->rng_sched,n); break;
      case 2: { /* PCT: highest priority runs; occasional demotion */
         if(rngn(&W->rng_sched,100)<6) W->proc[cand[rngn(&W->rng_sched,n)]].prio = -(int64_t)(W->nswitch+W->nchoice+1);
         for(int i=1;i<n;i++) if(W->proc[cand[i]].prio>W->proc[cand[k]].prio) k=i;
         break; }
      default: /* round robin by slot */
         {  int best=-1; for(int i=0;i<n;i++) if(cand[i]>myslot && (best<0||cand[i]<cand[best])) best=i;
            if(best<0){ best=0; for(int i=1;i<n;i++) if(cand[i]<cand[best]) best=i; } k=best; }
      }
      if(W->nchoice<MAXCHOICE){ W->choice[W->nchoice]=k; W->choice_n[W->nchoice]=n>255?255:n; }
      W->nchoice++;
   }
   int nx=cand[k];
   uint32_t q = W->q_min + rngn(&W->rng_sched, W->q_max-W->q_min+1);
   W->cur=nx;
   if(nx==myslot){ me->state=S_READY; quantum_left=q; return; }
   W->nswitch++; hash_ev(0x1000+nx);
   Proc *p=&W->proc[nx];
   p->futex=1; futex_wake(&p->futex);
   if(dying) return;
   wait_token();
   me->state=S_READY;
   quantum_left = W->q_min + rngn(&W->rng_sched, W->q_max-W->q_min+1);
}
static void die_now(int wstatus,int by_exit);
static void deliver_signals(void)
{
   for(;;)
   {
      uint64_t m = me->pend & ~insig;
      if(!m) return;
      int s = __builtin_ctzll(m);
      if(m & (1ull<<SIGKILL)) s=SIGKILL;
      me->pend &= ~(1ull<<s);
      me->sig_seen |= 1ull<<s;
      sighandler_t h = handlers[s];
      hash_ev(0x2000+s);
      if(s==SIGKILL) { slog("killed 9"); die_now(9,0); }
      if(h==SIG_IGN) continue;
      if(h==SIG_DFL)
      {  if(s==SIGCHLD) continue;
         slog("killed %d",s); die_now(s,0); }
      slog("handler %d",s);
      insig |= 1ull<<s;
      int d=depth_sim; depth_sim=0;
      sync_time(); arm();
      h(s);
      depth_sim=d;
      insig &= ~(1ull<<s);
   }
}
static void check_rlimit(void)
{
   while(me->next_xcpu && me->cpu_us >= (double)me->next_xcpu*1e6)
   {
      if(me->rl_max!=RLIM_INFINITY && me->next_xcpu >= me->rl_max)
      {  raise_sig(me,SIGKILL); me->next_xcpu=0; slog("RLIMIT_CPU hard"); }
      else
      {  raise_sig(me,SIGXCPU); me->xcpu_seen++; W->xcpu_count++; slog("RLIMIT_CPU soft");
         me->next_xcpu = (uint64_t)(me->cpu_us/1e6)+1;
         if(me->rl_max!=RLIM_INFINITY && me->next_xcpu>me->rl_max) me->next_xcpu=me->rl_max; }
   }
}
static void tick_faults(void)
{
   if(!(faultmask & (1u<<OP_TICK))) return;
   for(int i=0;i<W->nfault;i++)
   {  Fault *f=&W->fault[i];
      if(f->op==OP_TICK && !f->fired && f->sel==me->vpid && f->idx<=me->ticks)
      {  fire_fault(f,OP_TICK); apply_async(f,me); } }
}
static __attribute__((noinline)) void tick_slow(void)
{
   if(!active || depth_sim || dying){ countdown=armed=INT64_MAX/2; return; }
   int e=errno;
   depth_sim++;
   sync_time();
   tick_faults();
   check_rlimit();
   if(quantum_left<=0 || me->stall_until>W->now || W->total_ticks>=W->tick_budget)
   {  W->preempt++; schedule(); }
   deliver_signals();
   depth_sim--;
   arm();
   errno=e;
}
void __sanitizer_cov_trace_pc(void)
{
   if(W)
   {
      uintptr_t pc=(uintptr_t)__builtin_return_address(0);
      W->cov[(pc ^ (pc>>16)) & (COVSIZE-1)] = 1;
   }
   if(__builtin_expect(--countdown<=0,0)) tick_slow();
}
/* entering / leaving an intercepted call */
static void enter(int cost){ depth_sim++; if(me&&!dying){ charge(cost); sync_time(); } }
static void leave(void)
{
   if(!dying)
   {  sync_time(); tick_faults(); check_rlimit(); if(me->pend & ~insig) deliver_signals(); }
   depth_sim--; if(!depth_sim&&!dying) arm();
}
/* as leave(), inside a stdio call: signals stay pending until E's own code runs again */
static void leave_quiet(void)
{
   if(!dying){ sync_time(); tick_faults(); check_rlimit(); }
   depth_sim--; if(!depth_sim&&!dying) arm();
}
#define YIELD() do{ if(!dying){ me->state=S_READY; schedule(); } }while(0)
/* block until cond or deadline; returns 1 cond, 0 timeout, -1 a handler ran */
static int block(int kind,int obj,uint64_t deadline)
{
   for(;;)
   {
      me->wait_kind=kind; me->wait_obj=obj; me->deadline=deadline;
      if(cond_true(me,myslot)){ me->wait_kind=W_NONE; me->deadline=0; return 1; }
      if(deadline && W->now>=deadline){ me->wait_kind=W_NONE; me->deadline=0; return 0; }
      if(me->pend & ~insig)
      {  me->wait_kind=W_NONE; me->deadline=0; deliver_signals(); return -1; }
      me->state=S_BLOCKED;
      schedule();
   }
}
static int fault_check(int op,const char *path,Fault **out)
{
   me->opc[op]++; W->gopc[op]++;
   if(!(faultmask & (1u<<op))) return 0;
   for(int i=0;i<W->nfault;i++)
   {
      Fault *f=&W->fault[i];
      if(f->op!=op) continue;
      if(f->sel && f->sel!=me->vpid) continue;
      uint64_t c;
      if(f->match[0])
      {  if(!path || !strstr(path,f->match)) continue;
         c=++f->seen; }
      else c = f->sel? me->opc[op] : W->gopc[op];
      if(c<f->idx || (f->cnt && c>=f->idx+f->cnt)) continue;
      fire_fault(f,op);
      if(f->act==FA_SIG||f->act==FA_STALL||f->act==FA_JUMP||f->act==FA_RESET){ apply_async(f,me); continue; }
      slog("FAULT %s#%llu %s %lld",opname[op],(unsigned long long)c,faname[f->act],(long long)f->arg);
      hash_ev(0x3000+op);
      *out=f;
      return 1;
   }
   return 0;
}

/* ------------------------------------------------------------ descriptors */
static void obj_ref(FdEnt *e,int d)
{
   switch(e->type)
   {
   case T_PIPE_R: W->pipe[e->obj].readers+=d; break;
   case T_PIPE_W: W->pipe[e->obj].writers+=d; break;
   case T_SOCK:
      W->sock[e->obj].refs+=d;
      if(d<0 && W->sock[e->obj].refs==0)
      {  W->pipe[W->sock[e->obj].rx].readers--; W->pipe[W->sock[e->obj].tx].writers--; W->sock[e->obj].used=0; }
      break;
   case T_LISTEN:
      W->lst[e->obj].used+=d;
      break;
   }
   if(d<0 && (e->type==T_PIPE_R||e->type==T_PIPE_W))
   {  Pipe *p=&W->pipe[e->obj]; if(!p->readers&&!p->writers) p->used=0; }
}
static int alloc_pipe(uint32_t cap)
{
   for(int i=0;i<MAXPIPE;i++) if(!W->pipe[i].used)
   {  Pipe *p=&W->pipe[i]; p->used=1; p->readers=p->writers=0; p->head=p->len=0; p->reset=0; p->total_in=p->total_out=0;
      p->cap=cap&&cap<PIPEBUFSZ?cap:PIPEBUFSZ; return i; }
   return -1;
}
static int new_fd(int type,int obj)
{
   int fd=sysc(SYS_openat,AT_FDCWD,(long)"/dev/null",O_RDWR,0,0,0);
   if(fd<0||fd>=MAXFD){ if(fd>=0) sysc(SYS_close,fd,0,0,0,0,0); errno=EMFILE; return -1; }
   me->fds[fd].type=type; me->fds[fd].obj=obj;
   return fd;
}
static void drop_fd(Proc *p,int fd)
{
   if(p->fds[fd].type==T_NONE) return;
   obj_ref(&p->fds[fd],-1);
   p->fds[fd].type=T_NONE;
}
static uint32_t chunked(uint32_t n,uint32_t maxc,uint32_t pct,int k)
{
   if(!maxc||n<=1||rngn(&W->rng_io,100)>=pct) return n;
   uint32_t c=1+rngn(&W->rng_io,maxc);
   if(c<n){ W->shortc[k]++; return c; }
   return n;
}
static ssize_t pipe_get(int pi,char *buf,size_t n)
{
   Pipe *p=&W->pipe[pi];
   if(n>p->len) n=p->len;
   for(size_t i=0;i<n;i++) buf[i]=p->buf[(p->head+i)%PIPEBUFSZ];
   p->head=(p->head+n)%PIPEBUFSZ; p->len-=n; p->total_out+=n;
   return n;
}
static size_t pipe_put(int pi,const char *buf,size_t n)
{
   Pipe *p=&W->pipe[pi];
   size_t room=p->cap-p->len; if(n>room) n=room;
   for(size_t i=0;i<n;i++) p->buf[(p->head+p->len+i)%PIPEBUFSZ]=buf[i];
   p->len+=n; p->total_in+=n;
   return n;
}
static const char *fdpath(int fd,char *out,size_t n)
{
   char l[64]; sprintf(l,"/proc/self/fd/%d",fd);
   ssize_t r=sysc(SYS_readlink,(long)l,(long)out,n-1,0,0,0);
   if(r<0) r=0;
   out[r]=0; return out;
}
static ssize_t sim_read(int fd,void *buf,size_t n)
{
   if(fd<0||fd>=MAXFD){ errno=EBADF; return -1; }
   FdEnt *e=&me->fds[fd]; Fault *f; ssize_t r; size_t want=n; char pb[PATH_MAX];
   switch(e->type)
   {
   case T_REAL:
      if(fault_check(OP_READ,(faultmask&(1u<<OP_READ))?fdpath(fd,pb,sizeof pb):NULL,&f))
      {  if(f->act==FA_ERR){ errno=(int)f->arg; return -1; }
         if(f->act==FA_SHORT && (size_t)f->arg<n) n=f->arg?f->arg:1; }
      n=chunked(n,W->rchunk,W->rchunk_pct,0);
      r=sysc(SYS_read,fd,(long)buf,n,0,0,0);
      slog("read f%d %zu -> %zd",fd,want,r);
      return r;
   case T_NULL: return 0;
   case T_PIPE_R:
      if(fault_check(OP_RPIPE,NULL,&f))
      {  if(f->act==FA_ERR){ errno=(int)f->arg; return -1; }
         if(f->act==FA_SHORT) n=f->arg?f->arg:1; }
      YIELD();
      while(block(W_PIPE_R,e->obj,0)<0) ;
      n=chunked(n,W->pchunk,W->pchunk_pct,1);
      r=pipe_get(e->obj,buf,n);
      hash_ev(0x4000+r);
      slog("read p%d %zu -> %zd",fd,want,r);
      return r;
   case T_SOCK:
   {
      int rx=W->sock[e->obj].rx;
      if(fault_check(OP_RSOCK,NULL,&f))
      {  if(f->act==FA_ERR){ errno=(int)f->arg; return -1; }
         if(f->act==FA_SHORT) n=f->arg?f->arg:1; }
      YIELD();
      while(block(W_PIPE_R,rx,0)<0) ;
      if(W->pipe[rx].reset){ slog("read s%d -> RESET",fd); errno=ECONNRESET; return -1; }
      n=chunked(n,W->schunk,W->schunk_pct,2);
      r=pipe_get(rx,buf,n);
      hash_ev(0x5000+r);
      slog("read s%d %zu -> %zd",fd,want,r);
      return r;
   }
   default: errno=EBADF; return -1;
   }
}
static ssize_t sim_write1(int fd,const void *buf,size_t n)
{
   if(fd<0||fd>=MAXFD){ errno=EBADF; return -1; }
   FdEnt *e=&me->fds[fd]; Fault *f; ssize_t r; size_t done=0; char pb[PATH_MAX];
   switch(e->type)
   {
   case T_REAL:
      if(fault_check(OP_WFILE,(faultmask&(1u<<OP_WFILE))?fdpath(fd,pb,sizeof pb):NULL,&f))
      {  if(f->act==FA_ERR){ errno=(int)f->arg; return -1; }
         if(f->act==FA_SHORT && (size_t)f->arg<n) n=f->arg?f->arg:1; }
      r=sysc(SYS_write,fd,(long)buf,n,0,0,0);
      slog("write f%d %zu -> %zd",fd,n,r);
      return r;
   case T_NULL: return n;
   case T_SINK:
   {
      int op=(e->obj&1)?OP_WERR:OP_WOUT;
      if(fault_check(op,NULL,&f))
      {  if(f->act==FA_ERR)
         {  if(f->arg==EPIPE) { raise_sig(me,SIGPIPE); deliver_signals(); }
            errno=(int)f->arg; return -1; }
         if(f->act==FA_SHORT && (size_t)f->arg<n) n=f->arg?f->arg:1; }
      r=sysc(SYS_write,ESIM_SINK_FD0+e->obj,(long)buf,n,0,0,0);
      if(r>0) W->sink_bytes[e->obj]+=r;
      hash_ev(0x6000+e->obj);
      slog("write %s %zu -> %zd",op==OP_WERR?"ERR":"OUT",n,r);
      return r;
   }
   case T_PIPE_W:
      if(fault_check(OP_WPIPE,NULL,&f))
      {  if(f->act==FA_ERR)
         {  if(f->arg==EPIPE) { raise_sig(me,SIGPIPE); deliver_signals(); }
            errno=(int)f->arg; return -1; }
         if(f->act==FA_SHORT && (size_t)f->arg<n) n=f->arg?f->arg:1; }
      while(done<n)
      {
         YIELD();
         while(block(W_PIPE_W,e->obj,0)<0) ;
         if(W->pipe[e->obj].readers==0)
         {  slog("write p%d -> EPIPE",fd); raise_sig(me,SIGPIPE); deliver_signals(); errno=EPIPE; return done?(ssize_t)done:-1; }
         size_t put=pipe_put(e->obj,(const char*)buf+done,n-done);
         if(W->capture && fd==1)
         {  char h[40]; int hl=sprintf(h,"%d %zu\n",me->vpid,put);
            sysc(SYS_write,ESIM_CAP_FD,(long)h,hl,0,0,0); sysc(SYS_write,ESIM_CAP_FD,(long)((const char*)buf+done),put,0,0,0); }
         done+=put;
      }
      hash_ev(0x7000+n);
      slog("write p%d %zu",fd,n);
      return done;
   case T_SOCK:
   {
      int tx=W->sock[e->obj].tx;
      if(fault_check(OP_WSOCK,NULL,&f))
      {  if(f->act==FA_ERR)
         {  if(f->arg==EPIPE) { raise_sig(me,SIGPIPE); deliver_signals(); }
            errno=(int)f->arg; return -1; }
         if(f->act==FA_SHORT && (size_t)f->arg<n) n=f->arg?f->arg:1; }
      n=chunked(n,W->schunk,W->schunk_pct,2);
      while(done<n)
      {
         YIELD();
         while(block(W_PIPE_W,tx,0)<0) ;
         if(W->pipe[tx].reset){ errno=ECONNRESET; return done?(ssize_t)done:-1; }
         if(W->pipe[tx].readers==0)
         {  slog("write s%d -> EPIPE",fd); raise_sig(me,SIGPIPE); deliver_signals(); errno=EPIPE; return done?(ssize_t)done:-1; }
         done+=pipe_put(tx,(const char*)buf+done,n-done);
      }
      hash_ev(0x8000+n);
      slog("write s%d %zu",fd,n);
      return done;
   }
   default: errno=EBADF; return -1;
   }
}

/* ------------------------------------------------------------ stdio */
typedef struct ck { int fd; FILE *f; int popened; struct ck *next; } Ck;
static Ck *cks;
static ssize_t ck_read(void *c,char *b,size_t n)
{ if(!active) return sysc(SYS_read,((Ck*)c)->fd,(long)b,n,0,0,0);
  enter(30); ssize_t r=sim_read(((Ck*)c)->fd,b,n); int e=errno; leave_quiet(); errno=e; return r; }
static ssize_t ck_write(void *c,const char *b,size_t n)
{
   if(!active) return sysc(SYS_write,((Ck*)c)->fd,(long)b,n,0,0,0);
   enter(30);
   size_t done=0; int e=0;
   while(done<n)      /* as libio does: until everything is written or an error */
   {
      ssize_t r=sim_write1(((Ck*)c)->fd,b+done,n-done);
      if(r<0){ e=errno; if(e==0) e=EIO; break; }
      done+=r;
   }
   leave_quiet();
   if(e){ errno=e; }
   return done;
}
static int ck_seek(void *c,off64_t *o,int w)
{
   off64_t r=lseek64(((Ck*)c)->fd,*o,w); if(r<0) return -1; *o=r; return 0;
}
int close(int fd);
static int ck_close(void *c)
{
   Ck *k=c, **pp=&cks;
   while(*pp && *pp!=k) pp=&(*pp)->next;
   if(*pp) *pp=k->next;
   int r=close(k->fd);
   free(k);
   return r;
}
static FILE *ck_open(int fd,const char *mode)
{
   depth_sim++;
   Ck *k=malloc(sizeof *k);
   k->fd=fd; k->popened=0;
   cookie_io_functions_t fn={ck_read,ck_write,ck_seek,ck_close};
   k->f=fopencookie(k,mode,fn);
   k->next=cks; cks=k;
   depth_sim--;
   return k->f;
}
int fileno(FILE *f)
{
   for(Ck *k=cks;k;k=k->next) if(k->f==f) return k->fd;
   errno=EBADF; return -1;
}
FILE *fdopen(int fd,const char *mode){ return ck_open(fd,mode); }
static int sim_open(const char *path,int flags,mode_t mode)
{
   Fault *f; int op=(flags&O_ACCMODE)==O_RDONLY?OP_OPENR:OP_OPENW;
   if(active && fault_check(op,path,&f) && f->act==FA_ERR)
   {  errno=(int)f->arg; return -1; }
   int fd=sysc(SYS_openat,AT_FDCWD,(long)path,flags,mode,0,0);
   if(fd>=MAXFD){ sysc(SYS_close,fd,0,0,0,0,0); errno=EMFILE; return -1; }
   if(fd>=0 && me){ me->fds[fd].type=T_REAL; me->fds[fd].obj=0; }
   if(active) slog("open %s %x -> %d",path,flags,fd);
   return fd;
}
int open(const char *path,int flags,...)
{  mode_t m=0; if(flags&O_CREAT){ va_list ap; va_start(ap,flags); m=va_arg(ap,int); va_end(ap); }
   enter(50); int r=sim_open(path,flags,m); int e=errno; leave(); errno=e; return r; }
FILE *fopen(const char *path,const char *mode)
{
   int fl;
   switch(mode[0]){ case 'r': fl=strchr(mode,'+')?O_RDWR:O_RDONLY; break;
                    case 'w': fl=(strchr(mode,'+')?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; break;
                    case 'a': fl=(strchr(mode,'+')?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND; break;
                    default: errno=EINVAL; return NULL; }
   enter(50);
   int fd=sim_open(path,fl,0666); int e=errno;
   leave();
   if(fd<0){ errno=e; return NULL; }
   return ck_open(fd,mode);
}
ssize_t read(int fd,void *b,size_t n)
{ if(!active) return sysc(SYS_read,fd,(long)b,n,0,0,0);
  enter(30); ssize_t r=sim_read(fd,b,n); int e=errno; leave(); errno=e; return r; }
ssize_t __read_chk(int fd,void *b,size_t n,size_t bl){ (void)bl; return read(fd,b,n); }
ssize_t write(int fd,const void *b,size_t n)
{ if(!active) return sysc(SYS_write,fd,(long)b,n,0,0,0);
  enter(30); ssize_t r=sim_write1(fd,b,n); int e=errno; leave(); errno=e; return r; }
ssize_t send(int fd,const void *b,size_t n,int fl){ (void)fl; return write(fd,b,n); }
ssize_t recv(int fd,void *b,size_t n,int fl){ (void)fl; return read(fd,b,n); }
int close(int fd)
{
   if(!active) return sysc(SYS_close,fd,0,0,0,0,0);
   enter(10);
   int r=0,e=0; Fault *f;
   if(fd<0||fd>=MAXFD||me->fds[fd].type==T_NONE){ r=-1; e=EBADF; slog("close %d -> EBADF",fd); }
   else
   {
      slog("close %d",fd);
      int t=me->fds[fd].type; char pb[PATH_MAX];
      if(t==T_REAL && fault_check(OP_CLOSE,(faultmask&(1u<<OP_CLOSE))?fdpath(fd,pb,sizeof pb):NULL,&f) && f->act==FA_ERR){ r=-1; e=(int)f->arg; }
      drop_fd(me,fd);
      sysc(SYS_close,fd,0,0,0,0,0);
      if(t!=T_REAL) YIELD();
   }
   leave();
   errno=e; return r;
}
int dup2(int o,int n)
{
   enter(10);
   if(o<0||o>=MAXFD||n<0||n>=MAXFD||me->fds[o].type==T_NONE){ leave(); errno=EBADF; return -1; }
   if(o!=n)
   {
      drop_fd(me,n);
      sysc(SYS_dup3,o,n,0,0,0,0);
      me->fds[n]=me->fds[o]; obj_ref(&me->fds[n],1);
   }
   slog("dup2 %d %d",o,n);
   leave();
   return n;
}
int dup(int o)
{
   enter(10);
   if(o<0||o>=MAXFD||me->fds[o].type==T_NONE){ leave(); errno=EBADF; return -1; }
   int n=new_fd(me->fds[o].type,me->fds[o].obj);
   if(n<0){ leave(); errno=EMFILE; return -1; }
   if(me->fds[o].type==T_REAL) sysc(SYS_dup3,o,n,0,0,0,0);
   obj_ref(&me->fds[n],1);
   slog("dup %d -> %d",o,n);
   leave();
   return n;
}
int pipe2(int fd[2],int fl){ (void)fl; return pipe(fd); }
int pipe(int fd[2])
{
   enter(50);
   Fault *f;
   if(fault_check(OP_PIPE,NULL,&f)&&f->act==FA_ERR){ leave(); errno=(int)f->arg; return -1; }
   int p=alloc_pipe(W->pipecap);
   if(p<0){ leave(); errno=EMFILE; return -1; }
   fd[0]=new_fd(T_PIPE_R,p); W->pipe[p].readers=1;
   fd[1]=new_fd(T_PIPE_W,p); W->pipe[p].writers=1;
   int bad = fd[0]<0||fd[1]<0;
   slog("pipe -> %d %d",fd[0],fd[1]);
   leave();
   if(bad){ errno=EMFILE; return -1; }
   return 0;
}

/* ------------------------------------------------------------ processes */
static int alloc_proc(void)
{
   if(W->nproc>=MAXPROC) return -1;
   int i=W->nproc++;
   Proc *p=&W->proc[i];
   memset(p,0,sizeof *p);
   p->vpid=W->vpid0+i; p->state=S_READY; p->parent=myslot; p->depth=me?me->depth+1:0;
   p->rl_cur=p->rl_max=RLIM_INFINITY;
   p->born_us=W->now; p->ppid0=me?me->vpid:0;
   p->prio=(int64_t)(rng(&W->rng_misc)>>2);
   return i;
}
static void note_live(void)
{
   int l=0; for(int i=0;i<W->nproc;i++) if(W->proc[i].state==S_READY||W->proc[i].state==S_BLOCKED) l++;
   if(l>W->max_live) W->max_live=l;
}
static void fork_tables(Proc *c)
{
   memcpy(c->fds,me->fds,sizeof c->fds);
   for(int i=0;i<MAXFD;i++) if(c->fds[i].type!=T_NONE) obj_ref(&c->fds[i],1);
   c->rl_cur=me->rl_cur; c->rl_max=me->rl_max;
   strcpy(c->name,me->name);
   c->sinkid=me->sinkid;
}
static pid_t real_fork(void){ static pid_t (*f)(void); if(!f) f=(pid_t(*)(void))dlsym(RTLD_NEXT,"fork"); return f(); }
static void rearm_xcpu(Proc *p)
{
   p->next_xcpu = p->rl_cur==RLIM_INFINITY ? (p->rl_max==RLIM_INFINITY?0:p->rl_max) : p->rl_cur;
   if(p->next_xcpu==0 && p->rl_cur!=RLIM_INFINITY) p->next_xcpu=1;
}
pid_t fork(void)
{
   enter(200);
   Fault *f;
   if(fault_check(OP_FORK,NULL,&f)&&f->act==FA_ERR){ leave(); errno=(int)f->arg; return -1; }
   int s=alloc_proc();
   if(s<0){ leave(); errno=EAGAIN; return -1; }
   Proc *c=&W->proc[s];
   fork_tables(c);
   int parent=myslot;
   pid_t r=real_fork();
   if(r<0){ c->state=S_GONE; leave(); errno=EAGAIN; return -1; }
   if(r==0)
   {
      myslot=s; me=c; me->parent=parent;
      wait_token();
      rearm_xcpu(me);
      insig=0; quantum_left=W->q_min; armed=countdown;
      leave();
      return 0;
   }
   c->realpid=r;
   hash_ev(0x9000+s);
   slog("fork -> %d",c->vpid);
   note_live();
   YIELD();
   leave();
   return c->vpid;
}
pid_t vfork(void){ return fork(); }
static void die_now(int wstatus,int by_exit)
{
   depth_sim++;
   sync_time();
   slog("EXIT %s %d",by_exit?"status":"signal",by_exit?(wstatus>>8)&255:wstatus&127);
   hash_ev(0xa000+wstatus);
   for(int i=0;i<MAXFD;i++) drop_fd(me,i);
   for(int i=0;i<W->nproc;i++) if(W->proc[i].parent==myslot)
   {
      Proc *c=&W->proc[i];
      c->parent=-1;
      if(c->state==S_ZOMBIE) c->state=S_GONE;
      else if(c->state==S_READY||c->state==S_BLOCKED) { c->orphaned=1; slog("orphan %d",c->vpid); }
   }
   me->wstatus=wstatus; me->died_us=W->now; me->died_by_exit=by_exit;
   if(me->parent>=0){ me->state=S_ZOMBIE; W->proc[me->parent].child_cpu_us+=(uint64_t)me->cpu_us; raise_sig(&W->proc[me->parent],SIGCHLD);
                      W->proc[me->parent].pend &= ~(1ull<<SIGCHLD); }
   else me->state=S_GONE;
   dying=1;
   schedule();
   sysc(SYS_exit_group,by_exit?(wstatus>>8)&255:128+(wstatus&127),0,0,0,0,0);
   for(;;) ;
}
static void at_exit_hook(int status,void *arg)
{
   (void)arg;
   if(!active||dying) return;
   fflush(NULL);
   depth_sim++;
   die_now((status&255)<<8,1);
}
void _exit(int status)
{
   if(active&&!dying&&me){ depth_sim++; die_now((status&255)<<8,1); }
   sysc(SYS_exit_group,status,0,0,0,0,0); for(;;) ;
}
void _Exit(int s){ _exit(s); }
static void crash_info(int sig,siginfo_t *si,void *uc);
static void crash_handler(int sig){ crash_info(sig,NULL,NULL); }
static void crash_info(int sig,siginfo_t *si,void *uc)
{
   if(active && me && !dying && W->cur==myslot)
   {
      me->crashed=sig;
      slog("CRASH %d",sig);
      if(si&&uc)       /* return addresses along the frame pointers, for addr2line */
      {
         ucontext_t *u=uc; unsigned long *fp=(unsigned long*)u->uc_mcontext.gregs[REG_RBP], lo=u->uc_mcontext.gregs[REG_RSP];
         slog("AT %#lx ADDR %p",(unsigned long)u->uc_mcontext.gregs[REG_RIP],sig==SIGSEGV||sig==SIGBUS? si->si_addr: NULL);  /* elsewhere it may hold the real pid */
         for(int k=0;k<12 && (unsigned long)fp>=lo && (unsigned long)fp<lo+(1<<20) && !((unsigned long)fp&7);k++){ slog("FROM %#lx",fp[1]); if(fp[0]<=(unsigned long)fp) break; fp=(unsigned long*)fp[0]; }
      }
      signal(sig,SIG_DFL);
      die_now(sig,0);
   }
   sysc(SYS_exit_group,128+sig,0,0,0,0,0);
}
static pid_t sim_wait(pid_t pid,int *st,int opt)
{
   Fault *f; int which=-1;
   if(fault_check(OP_WAITPID,NULL,&f)&&f->act==FA_ERR){ errno=(int)f->arg; return -1; }
   if(pid>0)
   {  for(int i=0;i<W->nproc;i++) if(W->proc[i].vpid==pid && W->proc[i].parent==myslot && W->proc[i].state!=S_GONE && W->proc[i].state!=S_FREE) which=i;
      if(which<0){ slog("waitpid %d -> ECHILD",pid); errno=ECHILD; return -1; } }
   else
   {  int any=0; for(int i=0;i<W->nproc;i++) if(W->proc[i].parent==myslot && W->proc[i].state!=S_GONE&&W->proc[i].state!=S_FREE) any=1;
      if(!any){ errno=ECHILD; return -1; } }
   YIELD();
   if(opt&WNOHANG){ if(child_ready(myslot,which)<0){ slog("waitpid %d nohang -> 0",pid); return 0; } }
   else while(block(W_CHILD,which,0)<0) ;
   int c=child_ready(myslot,which);
   W->proc[c].state=S_GONE; W->proc[c].reaped=1; W->proc[c].parent=-1;
   if(st) *st=W->proc[c].wstatus;
   slog("waitpid %d -> %d %x",pid,W->proc[c].vpid,W->proc[c].wstatus);
   hash_ev(0xb000+c);
   return W->proc[c].vpid;
}
pid_t waitpid(pid_t pid,int *st,int opt){ enter(50); pid_t r=sim_wait(pid,st,opt); int e=errno; leave(); errno=e; return r; }
pid_t wait(int *st){ return waitpid(-1,st,0); }
pid_t getpid(void){ return active&&me? me->vpid : (pid_t)sysc(SYS_getpid,0,0,0,0,0,0); }
pid_t getppid(void){ return active&&me? (me->parent>=0?W->proc[me->parent].vpid:1) : 1; }
int kill(pid_t pid,int sig)
{
   enter(30);
   Fault *f; int r=-1,e=ESRCH;
   if(fault_check(OP_KILL,NULL,&f)&&f->act==FA_ERR){ leave(); errno=(int)f->arg; return -1; }
   if(pid>0)
   {
      Proc *p=by_vpid(pid);
      if(p && p->state!=S_GONE){ r=0; if(sig) raise_sig(p,sig); }
   }
   slog("kill %d %d -> %d",pid,sig,r);
   hash_ev(0xc000+pid);
   YIELD();
   leave();
   if(r) errno=e;
   return r;
}
int raise(int sig)
{
   if(!active) return -1;
   enter(10);
   slog("raise %d",sig);
   if(sig==SIGABRT) { leave(); crash_handler(sig); }
   raise_sig(me,sig);
   deliver_signals();   /* if blocked (inside its own handler) it stays pending until the handler returns */
   leave();
   return 0;
}
sighandler_t signal(int sig,sighandler_t h)
{
   if(!active||sig<1||sig>64) return SIG_DFL;
   sighandler_t o=handlers[sig]; handlers[sig]=h;
   depth_sim++; slog("signal %d %s",sig,h==SIG_DFL?"DFL":h==SIG_IGN?"IGN":"handler"); depth_sim--;
   return o;
}
int sigaction(int sig,const struct sigaction *a,struct sigaction *o)
{
   if(!active||sig<1||sig>64) return 0;
   if(o){ memset(o,0,sizeof *o); o->sa_handler=handlers[sig]; }
   if(a) signal(sig,a->sa_handler);
   return 0;
}
int sigprocmask(int how,const sigset_t *s,sigset_t *o)
{
   if(o){ memset(o,0,sizeof *o); for(int i=1;i<64;i++) if(insig&(1ull<<i)) sigaddset(o,i); }
   if(s) for(int i=1;i<64;i++)
   {  if(i==SIGKILL||i==SIGSTOP) continue;
      int in=sigismember(s,i)==1;
      if(how==SIG_BLOCK){ if(in) insig|=1ull<<i; }
      else if(how==SIG_UNBLOCK){ if(in) insig&=~(1ull<<i); }
      else { if(in) insig|=1ull<<i; else insig&=~(1ull<<i); } }
   if(active&&me){ enter(5); deliver_signals(); leave(); }
   return 0;
}
int select(int nfds,fd_set *r,fd_set *w,fd_set *x,struct timeval *tv);
int poll(struct pollfd *f,nfds_t n,int ms)
{
   fd_set r,w; FD_ZERO(&r); FD_ZERO(&w); int mx=-1;
   for(nfds_t i=0;i<n;i++) if(f[i].fd>=0&&f[i].fd<MAXFD)
   {  if(f[i].events&POLLIN) FD_SET(f[i].fd,&r);
      if(f[i].events&POLLOUT) FD_SET(f[i].fd,&w);
      if(f[i].fd>mx) mx=f[i].fd; }
   struct timeval tv={ms/1000,(ms%1000)*1000};
   int s=select(mx+1,&r,&w,NULL,ms<0?NULL:&tv);
   if(s<0) return s;
   int c=0;
   for(nfds_t i=0;i<n;i++)
   {  f[i].revents=0; if(f[i].fd<0||f[i].fd>=MAXFD) continue;
      if(FD_ISSET(f[i].fd,&r)) f[i].revents|=POLLIN;
      if(FD_ISSET(f[i].fd,&w)) f[i].revents|=POLLOUT;
      if(f[i].revents) c++; }
   return c;
}
int select(int nfds,fd_set *r,fd_set *w,fd_set *x,struct timeval *tv)
{
   enter(50);
   Fault *f;
   if(fault_check(OP_SELECT,NULL,&f)&&f->act==FA_ERR){ leave(); errno=(int)f->arg; return -1; }
   uint64_t dl = tv? W->now + (uint64_t)tv->tv_sec*1000000ull + tv->tv_usec : 0;
   if(tv && dl==W->now) dl=W->now+1;
   int res=0,e=0;
   fd_set rr; FD_ZERO(&rr); int any=0;
   YIELD();
   FD_ZERO(&me->selr); me->selnfds=nfds>MAXFD?MAXFD:nfds;
   for(int i=0;i<me->selnfds;i++) if(r&&FD_ISSET(i,r))
   {  if(me->fds[i].type==T_NONE){ leave(); errno=EBADF; return -1; }
      FD_SET(i,&me->selr); any=1; }
   (void)any;
   int wready=0;
   if(w) for(int i=0;i<nfds&&i<MAXFD;i++) if(FD_ISSET(i,w))
   {  FdEnt *en=&me->fds[i]; int pi = en->type==T_SOCK?W->sock[en->obj].tx: en->type==T_PIPE_W?en->obj:-1;
      if(pi<0 || W->pipe[pi].len<W->pipe[pi].cap || !W->pipe[pi].readers) wready++; else FD_CLR(i,w); }
   int b = wready? 1 : block(W_SELECT,0,dl);
   if(b<0){ res=-1; e=EINTR; }
   else
   {
      for(int i=0;i<me->selnfds;i++) if(r&&FD_ISSET(i,r)&&fd_readable(me,i)){ FD_SET(i,&rr); res++; }
      if(r) *r=rr;
      if(x) FD_ZERO(x);
      res+=wready;
   }
   if(tv && res>=0){ uint64_t rem = dl>W->now?dl-W->now:0; tv->tv_sec=rem/1000000; tv->tv_usec=rem%1000000; }
   hash_ev(0xd000+res);
   slog("select -> %d",res);
   leave();
   if(res<0) errno=e;
   return res;
}
int usleep(useconds_t us)
{ enter(20); if(us) while(block(W_TIME,0,W->now+us)<0){} leave(); return 0; }
unsigned sleep(unsigned s){ enter(20); if(s) block(W_TIME,0,W->now+(uint64_t)s*1000000ull); leave(); return 0; }

/* ------------------------------------------------------------ clocks, limits */
int gettimeofday(struct timeval *tv,void *tz)
{
   (void)tz; enter(25);
   int64_t t=(int64_t)W->now+W->skew+(int64_t)W->epoch*1000000ll;
   tv->tv_sec=t/1000000; tv->tv_usec=t%1000000;
   leave();
   return 0;
}
time_t time(time_t *t)
{  if(!active) return 0;
   struct timeval tv; gettimeofday(&tv,NULL); if(t)*t=tv.tv_sec; return tv.tv_sec; }
clock_t clock(void){ enter(25); clock_t r=(clock_t)(me->cpu_us*CLOCKS_PER_SEC/1e6); leave(); return r; }
int clock_gettime(clockid_t c,struct timespec *ts)
{  struct timeval tv; if(!active){ ts->tv_sec=0; ts->tv_nsec=0; return 0; }
   if(c==CLOCK_PROCESS_CPUTIME_ID){ ts->tv_sec=(long)(me->cpu_us/1e6); ts->tv_nsec=0; return 0; }
   gettimeofday(&tv,NULL); ts->tv_sec=tv.tv_sec; ts->tv_nsec=tv.tv_usec*1000; return 0; }
int getrusage(__rusage_who_t who,struct rusage *u)
{
   enter(25);
   memset(u,0,sizeof *u);
   uint64_t us = who==RUSAGE_CHILDREN? me->child_cpu_us : (uint64_t)me->cpu_us;
   u->ru_utime.tv_sec=us/1000000; u->ru_utime.tv_usec=us%1000000;
   u->ru_maxrss=20000;
   leave();
   return 0;
}
static struct rlimit rl_data={RLIM_INFINITY,RLIM_INFINITY}, rl_stack={8<<20,RLIM_INFINITY}, rl_core={0,RLIM_INFINITY};
int getrlimit(__rlimit_resource_t res,struct rlimit *r)
{
   enter(20);
   switch(res){ case RLIMIT_CPU: r->rlim_cur=me->rl_cur; r->rlim_max=me->rl_max; break;
                case RLIMIT_DATA: case RLIMIT_AS: *r=rl_data; break;
                case RLIMIT_STACK: *r=rl_stack; break;
                default: *r=rl_core; }
   leave();
   return 0;
}
int setrlimit(__rlimit_resource_t res,const struct rlimit *r)
{
   enter(20);
   Fault *f;
   if(fault_check(OP_RLIMIT,NULL,&f)&&f->act==FA_ERR){ leave(); errno=(int)f->arg; return -1; }
   if(r->rlim_cur>r->rlim_max){ leave(); errno=EINVAL; return -1; }
   switch(res)
   {
   case RLIMIT_CPU:
      me->rl_cur=r->rlim_cur; me->rl_max=r->rlim_max; rearm_xcpu(me);
      slog("setrlimit cpu %lld %lld",(long long)r->rlim_cur,(long long)r->rlim_max); break;
   case RLIMIT_DATA: case RLIMIT_AS:
      rl_data=*r;
      if(r->rlim_cur!=RLIM_INFINITY && (!h_limit||r->rlim_cur<h_limit)) h_limit=r->rlim_cur;
      slog("setrlimit data %lld",(long long)r->rlim_cur); break;
   case RLIMIT_STACK: rl_stack=*r; break;
   default: rl_core=*r;
   }
   leave();
   return 0;
}
long sysconf(int name)
{
   switch(name){ case _SC_NPROCESSORS_ONLN: case _SC_NPROCESSORS_CONF: return active?W->ncores:1;
                 case _SC_PAGESIZE: return 4096;
                 case _SC_PHYS_PAGES: return 1048576;
                 case _SC_CLK_TCK: return 100;
                 case _SC_OPEN_MAX: return MAXFD;
                 case _SC_NGROUPS_MAX: return 64;
                 default: return -1; }
}

/* ------------------------------------------------------------ popen */
static FILE *sim_popen(const char *cmd)
{
   Fault *f;
   if(fault_check(OP_POPEN,cmd,&f)&&f->act==FA_ERR){ errno=(int)f->arg; return NULL; }
   static char buf[16384]; char *argv[256]; int n=0; char *o=buf;
   const char *c=cmd;
   while(*c && n<250 && o<buf+sizeof buf-4)
   {
      while(*c==' '||*c=='\t'||*c=='\n') c++;
      if(!*c) break;
      argv[n++]=o;
      while(*c && *c!=' '&&*c!='\t'&&*c!='\n')
      {
         if(*c=='\''){ c++; while(*c&&*c!='\'') *o++=*c++; if(*c) c++; }
         else if(*c=='"'){ c++; while(*c&&*c!='"'){ if(*c=='\\'&&c[1]) c++; *o++=*c++; } if(*c) c++; }
         else { if(*c=='\\'&&c[1]) c++; *o++=*c++; }
      }
      *o++=0;
   }
   argv[n]=NULL;
   int a=0; if(n&&!strcmp(argv[0],"exec")) a=1;
   int m=a; for(int i=a;i<n;i++) if(strncmp(argv[i],"2>",2)&&strncmp(argv[i],">",1)) argv[m++]=argv[i];
   n=m; argv[n]=NULL;
   int p=alloc_pipe(W->pipecap); if(p<0||n<=a){ errno=EMFILE; return NULL; }
   int rfd=new_fd(T_PIPE_R,p); if(rfd<0){ return NULL; }
   W->pipe[p].readers=1;
   int s=alloc_proc(); if(s<0){ errno=EAGAIN; drop_fd(me,rfd); return NULL; }
   Proc *ch=&W->proc[s];
   fork_tables(ch);
   /* the child's stdout is the pipe; popen'd streams of the parent are closed in it */
   drop_fd(ch,1); ch->fds[1].type=T_PIPE_W; ch->fds[1].obj=p; W->pipe[p].writers++;
   drop_fd(ch,rfd);
   for(Ck *k=cks;k;k=k->next) if(k->popened) drop_fd(ch,k->fd);
   const char *base=strrchr(argv[a],'/'); base=base?base+1:argv[a];
   if(W->stub[0] && !strcmp(base,"eprover")) base=W->stub;
   snprintf(ch->name,sizeof ch->name,"%.31s",base);
   char path[600]; snprintf(path,sizeof path,"%s/%s",W->bindir,base);
   static char slot[32]; snprintf(slot,sizeof slot,"ESIM_SLOT=%d",s);
   char *env[300]; int ne=0;
   for(char **ep=environ;*ep&&ne<290;ep++) if(strncmp(*ep,"ESIM_SLOT=",10)) env[ne++]=*ep;
   env[ne++]=slot; env[ne]=NULL;
   uint64_t ign=0; for(int i=1;i<64;i++) if(handlers[i]==SIG_IGN) ign|=1ull<<i;
   ch->pend=0; ch->sig_seen=0; ch->wait_obj2=(int)ign;
   pid_t r=real_fork();
   if(r==0)
   {
      for(int fd=3;fd<MAXFD;fd++)
         if(ch->fds[fd].type==T_NONE || fd==rfd) sysc(SYS_close,fd,0,0,0,0,0);
      sysc(SYS_execve,(long)path,(long)(argv+a),(long)env,0,0,0);
      /* like "sh: not found": exit 127 */
      myslot=s; me=ch; wait_token(); active=1; dying=0; insig=0; armed=countdown;
      die_now(127<<8,1);
   }
   ch->realpid=r;
   slog("popen %s -> %d",cmd,ch->vpid);
   hash_ev(0xe000+s);
   note_live();
   FILE *fp=ck_open(rfd,"r");
   for(Ck *k=cks;k;k=k->next) if(k->f==fp) k->popened=s+1;
   return fp;
}
FILE *popen(const char *cmd,const char *mode)
{
   enter(300);
   FILE *r=NULL; int e=ENOSYS;
   if(mode[0]=='r'){ r=sim_popen(cmd); e=errno; if(r) YIELD(); }
   leave();
   if(!r) errno=e;
   return r;
}
int pclose(FILE *fp)
{
   int s=-1; for(Ck *k=cks;k;k=k->next) if(k->f==fp) s=k->popened-1;
   if(s<0){ errno=EINVAL; return -1; }
   int v=W->proc[s].vpid, st=-1;
   fclose(fp);
   enter(50);
   pid_t r=sim_wait(v,&st,0); int e=errno;
   leave();
   if(r<0){ errno=e; return -1; }
   return st;
}
int execvp(const char *f,char *const a[]){ (void)f;(void)a; errno=ENOENT; return -1; }
int execv(const char *f,char *const a[]){ (void)f;(void)a; errno=ENOENT; return -1; }
int system(const char *c){ slog("system %s",c); errno=ENOSYS; return -1; }

/* ------------------------------------------------------------ files */
int mkstemp(char *t)
{
   enter(80);
   Fault *f; int fd=-1,e=0;
   if(fault_check(OP_MKSTEMP,NULL,&f)&&f->act==FA_ERR){ e=(int)f->arg; }
   else
   {
      size_t n=strlen(t);
      if(n<6||strcmp(t+n-6,"XXXXXX")) e=EINVAL;
      else for(int k=0;k<1000;k++)
      {
         static const char al[]="abcdefghijklmnopqrstuvwxyz0123456789";
         uint64_t v=rng(&W->rng_misc);
         for(int i=0;i<6;i++){ t[n-6+i]=al[v%36]; v/=36; }
         fd=sysc(SYS_openat,AT_FDCWD,(long)t,O_RDWR|O_CREAT|O_EXCL,0600,0,0);
         if(fd>=0){ me->fds[fd].type=T_REAL; break; }
         e=errno; if(e!=EEXIST) break;
      }
   }
   if(fd>=0) W->tmpcount++;
   slog("mkstemp %s -> %d",t,fd);
   leave();
   if(fd<0) errno=e;
   return fd;
}
int unlink(const char *path)
{
   enter(40);
   Fault *f; int r,e=0;
   if(fault_check(OP_UNLINK,path,&f)&&f->act==FA_ERR){ r=-1; e=(int)f->arg; }
   else { r=sysc(SYS_unlink,(long)path,0,0,0,0,0); e=errno; }
   slog("unlink %s -> %d",path,r);
   leave();
   if(r) errno=e;
   return r;
}
int mkdir(const char *path,mode_t m)
{
   enter(40);
   Fault *f; int r,e=0;
   if(fault_check(OP_MKDIR,path,&f)&&f->act==FA_ERR){ r=-1; e=(int)f->arg; }
   else { r=sysc(SYS_mkdir,(long)path,m,0,0,0,0); e=errno; }
   slog("mkdir %s -> %d",path,r);
   leave();
   if(r) errno=e;
   return r;
}
int rename(const char *a,const char *b)
{  enter(40); int r=sysc(SYS_rename,(long)a,(long)b,0,0,0,0); int e=errno; slog("rename %s %s -> %d",a,b,r); leave(); if(r) errno=e; return r; }
/* directory listing in a seeded order */
typedef struct { int n,i; struct dirent *e; } SDir;
DIR *opendir(const char *p)
{
   static DIR*(*od)(const char*); static struct dirent*(*rd)(DIR*); static int(*cd)(DIR*);
   if(!od){ od=dlsym(RTLD_NEXT,"opendir"); rd=dlsym(RTLD_NEXT,"readdir"); cd=dlsym(RTLD_NEXT,"closedir"); }
   enter(80); Fault *f;
   if(fault_check(OP_OPENR,p,&f)&&f->act==FA_ERR){ leave(); errno=(int)f->arg; return NULL; }
   DIR *d=od(p); int e=errno;
   if(!d){ leave(); errno=e; return NULL; }
   SDir *s=malloc(sizeof *s); s->n=s->i=0; s->e=malloc(sizeof(struct dirent)*4096);
   struct dirent *x;
   while((x=rd(d))&&s->n<4096) s->e[s->n++]=*x;
   cd(d);
   for(int i=1;i<s->n;i++){ struct dirent t=s->e[i]; int j=i; while(j>0&&strcmp(s->e[j-1].d_name,t.d_name)>0){ s->e[j]=s->e[j-1]; j--; } s->e[j]=t; }
   for(int i=s->n-1;i>0;i--){ int j=rngn(&W->rng_misc,i+1); struct dirent t=s->e[i]; s->e[i]=s->e[j]; s->e[j]=t; }
   slog("opendir %s %d",p,s->n);
   leave();
   return (DIR*)s;
}
struct dirent *readdir(DIR *d){ SDir *s=(SDir*)d; return s->i<s->n? &s->e[s->i++]:NULL; }
int closedir(DIR *d){ SDir *s=(SDir*)d; free(s->e); free(s); return 0; }

/* ------------------------------------------------------------ sockets */
int socket(int a,int b,int c)
{  (void)a;(void)b;(void)c; enter(40); Fault *f;
   if(fault_check(OP_SOCKET,NULL,&f)&&f->act==FA_ERR){ leave(); errno=(int)f->arg; return -1; }
   int fd=new_fd(T_RAWSOCK,0); slog("socket -> %d",fd); leave(); return fd; }
int setsockopt(int fd,int l,int o,const void *v,socklen_t n){ (void)fd;(void)l;(void)o;(void)v;(void)n; return 0; }
int getsockopt(int fd,int l,int o,void *v,socklen_t *n){ (void)fd;(void)l;(void)o;(void)v;(void)n; return 0; }
int bind(int fd,const struct sockaddr *sa,socklen_t n)
{
   (void)n; enter(40);
   int port=ntohs(((const struct sockaddr_in*)sa)->sin_port);
   for(int i=0;i<MAXLISTEN;i++) if(W->lst[i].used && W->lst[i].port==port){ leave(); errno=EADDRINUSE; return -1; }
   for(int i=0;i<MAXLISTEN;i++) if(!W->lst[i].used)
   {  W->lst[i].used=1; W->lst[i].port=port; W->lst[i].nq=0; W->lst[i].backlog=-1; me->fds[fd].type=T_LISTEN; me->fds[fd].obj=i;
      slog("bind %d port %d",fd,port); leave(); return 0; }
   leave(); errno=EADDRINUSE; return -1;
}
int listen(int fd,int bl){ enter(20); if(me->fds[fd].type!=T_LISTEN){ leave(); errno=EINVAL; return -1; }
   W->lst[me->fds[fd].obj].backlog=bl; slog("listen %d",fd); leave(); return 0; }
static int new_sock(int rx,int tx)
{  for(int i=0;i<MAXSOCK;i++) if(!W->sock[i].used){ Sock *k=&W->sock[i]; k->used=1; k->refs=1; k->rx=rx; k->tx=tx;
      W->pipe[rx].readers++; W->pipe[tx].writers++; return i; } return -1; }
int connect(int fd,const struct sockaddr *sa,socklen_t n)
{
   (void)n; enter(60);
   Fault *f;
   if(fault_check(OP_CONNECT,NULL,&f)&&f->act==FA_ERR){ leave(); errno=(int)f->arg; return -1; }
   int port=ntohs(((const struct sockaddr_in*)sa)->sin_port);
   YIELD();
   for(int i=0;i<MAXLISTEN;i++) if(W->lst[i].used&&W->lst[i].port==port&&W->lst[i].backlog>=0)
   {
      if(W->lst[i].nq>=60) break;
      if(me->fds[fd].type!=T_RAWSOCK){ leave(); errno=EISCONN; return -1; }
      int a=alloc_pipe(W->pipecap), b=alloc_pipe(W->pipecap);
      int c=new_sock(a,b), s=new_sock(b,a);
      me->fds[fd].type=T_SOCK; me->fds[fd].obj=c;
      W->lst[i].q[W->lst[i].nq++]=s;
      slog("connect %d port %d",fd,port); hash_ev(0xf000+port);
      YIELD();
      leave(); return 0;
   }
   slog("connect port %d refused",port);
   leave(); errno=ECONNREFUSED; return -1;
}
int accept(int fd,struct sockaddr *sa,socklen_t *n)
{
   enter(60);
   Fault *f;
   if(fault_check(OP_ACCEPT,NULL,&f)&&f->act==FA_ERR){ leave(); errno=(int)f->arg; return -1; }
   if(fd<0||fd>=MAXFD||me->fds[fd].type!=T_LISTEN){ leave(); errno=EINVAL; return -1; }
   int l=me->fds[fd].obj;
   YIELD();
   while(block(W_ACCEPT,l,0)<0) ;
   int s=W->lst[l].q[0];
   memmove(W->lst[l].q,W->lst[l].q+1,sizeof(int)*(--W->lst[l].nq));
   int r=new_fd(T_SOCK,s);
   if(r<0)
   {  FdEnt e={T_SOCK,s}; obj_ref(&e,-1); leave(); errno=EMFILE; return -1; }
   if(sa&&n){ memset(sa,0,*n<sizeof(struct sockaddr_in)?*n:sizeof(struct sockaddr_in)); }
   slog("accept %d -> %d",fd,r); hash_ev(0xf100);
   leave();
   return r;
}
static struct sockaddr_in gai_addr[2];
static struct addrinfo gai_info[2];
int getaddrinfo(const char *h,const char *sv,const struct addrinfo *hint,struct addrinfo **res)
{
   (void)h;
   int port=atoi(sv?sv:"0"), n=1, ports[2]={port,port};
   if(!(hint&&(hint->ai_flags&AI_PASSIVE)))       /* a host with two addresses: nothing listens behind port 1 */
   {  if(W->gai==1){ n=2; ports[1]=1; } if(W->gai==2){ n=2; ports[0]=1; } if(W->gai==3) n=2; }
   memset(&gai_addr,0,sizeof gai_addr); memset(&gai_info,0,sizeof gai_info);
   for(int i=0;i<n;i++)
   {
      gai_addr[i].sin_family=AF_INET; gai_addr[i].sin_port=htons(ports[i]);
      gai_info[i].ai_family=AF_INET; gai_info[i].ai_socktype=SOCK_STREAM; gai_info[i].ai_addrlen=sizeof gai_addr[i];
      gai_info[i].ai_addr=(struct sockaddr*)&gai_addr[i]; gai_info[i].ai_next=i+1<n?&gai_info[i+1]:NULL;
   }
   *res=gai_info; return 0;
}
void freeaddrinfo(struct addrinfo *r){ (void)r; }

/* ------------------------------------------------------------ start */
static char altstack[1<<16];
static int real_sigaction(int s,const struct sigaction *a,struct sigaction *o)
{  static int (*f)(int,const struct sigaction*,struct sigaction*); if(!f) f=(int(*)(int,const struct sigaction*,struct sigaction*))dlsym(RTLD_NEXT,"sigaction"); return f(s,a,o); }
static __attribute__((noinline)) void paint_stack(int v)
{  /* what a fresh stack frame holds is under the plan's control, like fresh heap memory */
   char b[1<<19]; memset(b,v,sizeof b); __asm__ volatile("" : : "r"(b) : "memory");
}
static void attach(int slot)
{
   void *m=mmap(ESIM_WORLD_ADDR,sizeof(World),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED_NOREPLACE,ESIM_WORLD_FD,0);
   if(m!=ESIM_WORLD_ADDR){ static const char e[]="esim: cannot map world\n"; sysc(SYS_write,2,(long)e,sizeof e-1,0,0,0); sysc(SYS_exit_group,98,0,0,0,0,0); }
   depth_sim++;
   W=m; myslot=slot; me=&W->proc[slot];
   stack_t ss={.ss_sp=altstack,.ss_size=sizeof altstack};
   sigaltstack(&ss,NULL);
   int sigs[]={SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT};
   for(unsigned i=0;i<sizeof sigs/sizeof*sigs;i++)
   {  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=crash_info; sa.sa_flags=SA_ONSTACK|SA_NODEFER|SA_SIGINFO; real_sigaction(sigs[i],&sa,NULL); }
   h_seed=W->heap_seed; h_rng=W->heap_seed*0x9e3779b97f4a7c15ull+1; h_fill=W->heap_fill; h_ffill=W->heap_freefill; h_limit=W->heap_limit;
   if(!h_top) heap_init();
   if(h_seed) h_top += 16*rngn(&h_rng,4096);
   h_top += 16*(uint64_t)W->heap_base;
   for(int i=0;i<W->nfault;i++) if(W->fault[i].op<NOPS) faultmask |= 1u<<W->fault[i].op;
   uint64_t ign=(uint32_t)me->wait_obj2; me->wait_obj2=0;
   for(int i=1;i<32;i++) if(ign>>i&1) handlers[i]=SIG_IGN;
   on_exit(at_exit_hook,NULL);
   active=1;
   stdin=ck_open(0,"r"); stdout=ck_open(1,"w"); stderr=ck_open(2,"w");
   setvbuf(stderr,NULL,_IONBF,0);
   if(W->tty) setvbuf(stdout,NULL,_IOLBF,0);
   __sync_fetch_and_add(&W->attached,1);
   futex_wake(&W->attached);
   wait_token();
   rearm_xcpu(me);
   quantum_left=W->q_min; countdown=armed=0;
   hash_ev(0xff00+slot);
   slog("start %s",me->name);
   if(W->heap_fill>=0) paint_stack(W->heap_fill);
   depth_sim--;
   arm();
}
__attribute__((constructor)) static void init(void)
{
   const char *s=getenv("ESIM_SLOT");
   if(!s){ static const char e[]="esim: not started by esim_run\n"; sysc(SYS_write,2,(long)e,sizeof e-1,0,0,0); sysc(SYS_exit_group,97,0,0,0,0,0); }
   attach(atoi(s));
}
