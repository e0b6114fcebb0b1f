/* esim_run PLAN RESULT : supervisor of one simulated world (see esim.h). */
#define _GNU_SOURCE
#include "esim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <linux/futex.h>

static World *W;
static const char *opname[]=OPNAMES; static const char *faname[]=FANAMES;
static void die(const char *m,const char *x){ fprintf(stderr,"esim_run: %s %s\n",m,x?x:""); exit(90); }
static double mono(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec/1e9; }
typedef struct { char in[400]; char *argv[128]; int argc; } Root;
static Root root[MAXROOT];
static char *envv[64]; static int nenv;

int main(int argc,char **argv)
{
   if(argc<3) die("usage","");
   if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE) && !getenv("ESIM_P"))
   {  if(personality(ADDR_NO_RANDOMIZE)!=-1){ setenv("ESIM_P","1",1); execv("/proc/self/exe",argv); } }
   struct rlimit sl={512<<20,RLIM_INFINITY}; struct rlimit cur; getrlimit(RLIMIT_STACK,&cur); sl.rlim_max=cur.rlim_max;
   if(cur.rlim_max!=RLIM_INFINITY && cur.rlim_max<sl.rlim_cur) sl.rlim_cur=cur.rlim_max; 
   sl.rlim_cur = sl.rlim_cur > (64<<20) ? (64<<20) : sl.rlim_cur;
   setrlimit(RLIMIT_STACK,&sl);
   struct rlimit nc={0,0}; setrlimit(RLIMIT_CORE,&nc);
   prctl(PR_SET_CHILD_SUBREAPER,1);
   int fd=memfd_create("esim",0);
   if(fd<0||ftruncate(fd,sizeof(World))) die("memfd","");
   if(dup2(fd,ESIM_WORLD_FD)<0) die("dup2 world","");
   if(fd!=ESIM_WORLD_FD) close(fd);
   W=mmap(ESIM_WORLD_ADDR,sizeof(World),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED_NOREPLACE,ESIM_WORLD_FD,0);
   if(W!=ESIM_WORLD_ADDR) die("mmap","");
   W->ncores=4; W->ticks_per_us=20; W->q_min=2000; W->q_max=20000; W->sched=0; W->sticky_pct=80;
   W->heap_fill=-1; W->heap_freefill=-1; W->tick_budget=2000000000ull; W->vtime_limit=100000ull*1000000ull;
   W->epoch=1700000000; W->vpid0=1000; W->pipecap=65536; W->schash=0xcbf29ce484222325ull; W->settle_us=1000000;
   double wall=60; int maxlog=0; char *dumplog=NULL;
   FILE *p=fopen(argv[1],"r"); if(!p) die("plan",argv[1]);
   char *line=NULL; size_t cap=0; ssize_t n;
   while((n=getline(&line,&cap,p))>0)
   {
      if(line[n-1]=='\n') line[--n]=0;
      char *k=line, *v=strchr(line,' '); if(!v) continue;
      *v++=0;
#define NUM(name,field) else if(!strcmp(k,name)) W->field=strtoll(v,NULL,0)
      if(*k=='#') continue;
      NUM("seed",seed); NUM("ncores",ncores); NUM("q_min",q_min); NUM("q_max",q_max); NUM("sched",sched); NUM("sticky",sticky_pct);
      NUM("rchunk",rchunk); NUM("rchunk_pct",rchunk_pct); NUM("pchunk",pchunk); NUM("pchunk_pct",pchunk_pct);
      NUM("schunk",schunk); NUM("schunk_pct",schunk_pct); NUM("pipecap",pipecap); NUM("tty",tty); NUM("gai",gai); NUM("heap_limit",heap_limit);
      NUM("heap_seed",heap_seed); NUM("heap_base",heap_base); NUM("heap_fill",heap_fill); NUM("heap_freefill",heap_freefill);
      NUM("tick_budget",tick_budget); NUM("vtime_limit",vtime_limit); NUM("epoch",epoch); NUM("vpid0",vpid0);
      NUM("stop_when_roots",stop_when_roots); NUM("settle_us",settle_us);
      else if(!strcmp(k,"ticks_per_us")) W->ticks_per_us=atof(v);
      else if(!strcmp(k,"bindir")) strncpy(W->bindir,v,255);
      else if(!strcmp(k,"stub")) strncpy(W->stub,v,63);
      else if(!strcmp(k,"wall")) wall=atof(v);
      else if(!strcmp(k,"log")) dumplog=strdup(v);
      else if(!strcmp(k,"capture"))
      {  int cf=open(v,O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); if(cf<0) die("capture",v); dup2(cf,ESIM_CAP_FD); close(cf); W->capture=1; }
      else if(!strcmp(k,"chdir")) { if(chdir(v)) die("chdir",v); }
      else if(!strcmp(k,"env")) envv[nenv++]=strdup(v);
      else if(!strcmp(k,"root"))
      {  /* root <start_us> <stdin or -> arg\x1farg... */
         Root *r=&root[W->nroots]; char *e; W->root_start[W->nroots]=strtoull(v,&e,0); e++;
         char *sp=strchr(e,' '); *sp++=0; strncpy(r->in,e,399);
         char *d=strdup(sp);
         for(char *t=d;t;){ char *u=strchr(t,'\x1f'); if(u)*u++=0; r->argv[r->argc++]=t; t=u; }
         W->nroots++; }
      else if(!strcmp(k,"fault"))
      {  /* fault sel op idx cnt act arg [match] */
         Fault *f=&W->fault[W->nfault]; char op[20],act[20]; f->match[0]=0; 
         unsigned long long idx,cnt; long long arg;
         if(sscanf(v,"%d %19s %llu %llu %19s %lld %47s",&f->sel,op,&idx,&cnt,act,&arg,f->match)<6) die("bad fault",v);
         f->idx=idx; f->cnt=cnt; f->arg=arg; f->op=-1; f->act=-1;
         for(int i=0;i<NOPS;i++) if(!strcmp(op,opname[i])) f->op=i;
         if(!strcmp(op,"time")) f->op=NOPS;
         for(int i=0;i<7;i++) if(!strcmp(act,faname[i])) f->act=i;
         if(f->op<0||f->act<0) die("bad fault",v);
         if(W->nfault<MAXFAULT-1) W->nfault++; }
      else if(!strcmp(k,"choices"))
      {  W->use_given=1; char *t=v; while(*t){ W->given[W->ngiven++]=strtol(t,&t,10); while(*t==' '||*t==',') t++; } }
      else if(strcmp(k,"x")) die("bad plan key",k);
   }
   fclose(p);
   uint64_t s=W->seed*0x9e3779b97f4a7c15ull+77;
   W->rng_sched=s^0x1111; W->rng_io=s^0x22220000; W->rng_misc=s^0x333300000000ull;
   if(W->q_max<W->q_min) W->q_max=W->q_min;
   for(int r=0;r<W->nroots;r++)
   {
      Proc *q=&W->proc[W->nproc]; int slot=W->nproc++;
      q->state=S_READY; q->vpid=W->vpid0+slot; q->parent=-1; q->rl_cur=q->rl_max=RLIM_INFINITY; q->isroot=r+1;
      q->stall_until=W->root_start[r]; q->prio=1ll<<40; q->sinkid=r;
      const char *b=strrchr(root[r].argv[0],'/'); strncpy(q->name,b?b+1:root[r].argv[0],31);
      for(int o=0;o<2;o++)
      {  char f[64]; sprintf(f,"%s.%d",o?"err":"out",r);
         char dir[600]; snprintf(dir,sizeof dir,"%s.%s",argv[2],f);
         int sf=open(dir,O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); if(sf<0) die("sink",dir);
         dup2(sf,ESIM_SINK_FD0+2*r+o); close(sf); }
      q->fds[0].type = strcmp(root[r].in,"-")?T_REAL:T_NULL; q->fds[1].type=T_SINK; q->fds[1].obj=2*r; q->fds[2].type=T_SINK; q->fds[2].obj=2*r+1;
   }
   for(int r=0;r<W->nroots;r++)
   {
      pid_t c=fork();
      if(!c)
      {
         int in=open(strcmp(root[r].in,"-")?root[r].in:"/dev/null",O_RDONLY); if(in<0) _exit(95);
         int nul=open("/dev/null",O_RDWR);
         dup2(in,0); dup2(nul,1); dup2(nul,2);
         for(int i=3;i<ESIM_WORLD_FD;i++) if(i!=0) { if(i<64) close(i); }
         char slot[40]; sprintf(slot,"ESIM_SLOT=%d",r); envv[nenv++]=slot; envv[nenv]=NULL;
         root[r].argv[root[r].argc]=NULL;
         char path[700]; 
         if(strchr(root[r].argv[0],'/')) snprintf(path,sizeof path,"%s",root[r].argv[0]);
         else snprintf(path,sizeof path,"%s/%s",W->bindir,root[r].argv[0]);
         execve(path,root[r].argv,envv);
         _exit(96);
      }
      W->proc[r].realpid=c;
   }
   double t0=mono();
   while(W->attached<(uint32_t)W->nroots)
   {
      int st; pid_t d=waitpid(-1,&st,WNOHANG);
      if(d>0) { fprintf(stderr,"root failed to start: %x\n",st); for(int r=0;r<W->nroots;r++) kill(W->proc[r].realpid,SIGKILL); exit(91); }
      if(mono()-t0>30) die("attach timeout","");
      struct timespec ts={0,2000000}; uint32_t a=W->attached; 
      if(a<(uint32_t)W->nroots) syscall(SYS_futex,&W->attached,FUTEX_WAIT,a,&ts,0,0);
   }
   /* first token: the earliest root */
   { int f=0; for(int r=1;r<W->nroots;r++) if(W->root_start[r]<W->root_start[f]) f=r;
     W->now=W->root_start[f]; W->nowf=W->now; W->cur=f;
     W->proc[f].futex=1; syscall(SYS_futex,&W->proc[f].futex,FUTEX_WAKE,1,0,0,0); }
   int walltimeout=0; 
   while(!W->finished)
   {
      struct timespec ts={0,50000000};
      syscall(SYS_futex,&W->finished,FUTEX_WAIT,0,&ts,0,0);
      if(!W->finished && mono()-t0>wall){ walltimeout=1; break; }
   }
   for(int i=0;i<W->nproc;i++) if(W->proc[i].realpid>0) kill(W->proc[i].realpid,SIGKILL);
   while(waitpid(-1,NULL,WNOHANG)>0) ;
   double tw=mono()-t0;
   FILE *o=fopen(argv[2],"w"); if(!o) die("result",argv[2]);
   uint64_t lh=0xcbf29ce484222325ull; for(uint32_t i=0;i<W->loglen;i++) lh=(lh^(unsigned char)W->log[i])*0x100000001b3ull;
   int cov=0; for(int i=0;i<COVSIZE;i++) cov+=W->cov[i];
   fprintf(o,"{\"outcome\":%d,\"walltimeout\":%d,\"now\":%llu,\"ticks\":%llu,\"nswitch\":%llu,\"nchoice\":%u,\"loghash\":\"%016llx\",\"schash\":\"%016llx\",\"logtrunc\":%d,\"loglen\":%u,\"cov\":%d,\"max_live\":%d,\"tmpcount\":%d,\"xcpu\":%llu,\"preempt\":%llu,\"stalls\":%llu,\"short\":[%llu,%llu,%llu],\"wall\":%.4f,\n",
      W->outcome,walltimeout,(unsigned long long)W->now,(unsigned long long)W->total_ticks,(unsigned long long)W->nswitch,W->nchoice,(unsigned long long)lh,(unsigned long long)W->schash,W->logtrunc,W->loglen,cov,W->max_live,W->tmpcount,(unsigned long long)W->xcpu_count,(unsigned long long)W->preempt,(unsigned long long)W->stallc,
      (unsigned long long)W->shortc[0],(unsigned long long)W->shortc[1],(unsigned long long)W->shortc[2],tw);
   fprintf(o,"\"ops\":{"); for(int i=0,f=0;i<NOPS;i++) if(W->gopc[i]) fprintf(o,"%s\"%s\":%llu",f++?",":"",opname[i],(unsigned long long)W->gopc[i]);
   fprintf(o,"},\n\"fired\":{"); { int f=0; for(int i=0;i<NOPS;i++) for(int a=0;a<7;a++) if(W->firec[i][a]) fprintf(o,"%s\"%s:%s\":%llu",f++?",":"",opname[i],faname[a],(unsigned long long)W->firec[i][a]); }
   fprintf(o,"},\n\"faultfired\":["); for(int i=0;i<W->nfault;i++) fprintf(o,"%s%d",i?",":"",W->fault[i].fired);
   fprintf(o,"],\n\"sink\":["); for(int i=0;i<2*W->nroots;i++) fprintf(o,"%s%llu",i?",":"",(unsigned long long)W->sink_bytes[i]);
   fprintf(o,"],\n\"procs\":[\n");
   for(int i=0;i<W->nproc;i++)
   {
      Proc *q=&W->proc[i];
      static const char *sn[]={"free","ready","blocked","zombie","gone"};
      fprintf(o,"%s{\"vpid\":%d,\"name\":\"%s\",\"state\":\"%s\",\"wstatus\":%d,\"ppid\":%d,\"reaped\":%d,\"orphan\":%d,\"crash\":%d,\"root\":%d,\"depth\":%d,\"ticks\":%llu,\"cpu_us\":%llu,\"born\":%llu,\"died\":%llu,\"xcpu\":%d,\"wait\":%d,\"heap\":%llu,\"byexit\":%d,\"sigs\":%llu,\"ops\":{",
         i?",\n":"",q->vpid,q->name,sn[q->state],q->wstatus,q->ppid0,q->reaped,q->orphaned,q->crashed,q->isroot,q->depth,(unsigned long long)q->ticks,(unsigned long long)q->cpu_us,(unsigned long long)q->born_us,(unsigned long long)q->died_us,q->xcpu_seen,q->state==S_BLOCKED?q->wait_kind:0,(unsigned long long)q->heap_peak,q->died_by_exit,(unsigned long long)q->sig_seen);
      for(int k=0,f=0;k<NOPS;k++) if(q->opc[k]) fprintf(o,"%s\"%s\":%llu",f++?",":"",opname[k],(unsigned long long)q->opc[k]);
      fprintf(o,"}}");
   }
   fprintf(o,"],\n\"choices\":\"");
   uint32_t nc2=W->nchoice<MAXCHOICE?W->nchoice:MAXCHOICE;
   for(uint32_t i=0;i<nc2;i++) fprintf(o,"%s%d",i?",":"",W->choice[i]);
   fprintf(o,"\"}\n");
   fclose(o);
   if(dumplog){ FILE *l=fopen(dumplog,"w"); if(l){ fwrite(W->log,1,W->loglen,l); fclose(l); } }
   (void)maxlog;
   return 0;
}
