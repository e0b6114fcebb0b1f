/* Scripted stand-in for the prover.  The file "stub.s" holds one program per line, used by the
 * instances in the order in which they start (the last line repeats).  Operations, separated by ';':
 *   pid           print the process id line
 *   put TEXT      write TEXT (\n, \\ and \; are escapes; %G: names of the conjectures in the problem file)
 *   fill N        write N lines of filler
 *   cat           write the problem, each line after "| "
 *   sleep US / burn N / hang / ignterm / exit N / sig N / need NAME (go on only if the problem has axiom NAME, else exit 10) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
static void out(const char *p,size_t n){ while(n){ ssize_t r=write(1,p,n); if(r<=0) _exit(50); p+=r; n-=r; } }
static char prob[1<<20], goals[65536];
static void load(const char *f)
{
   int fd=open(f,O_RDONLY); size_t n=0; if(fd<0) return;
   for(ssize_t r;(r=read(fd,prob+n,sizeof prob-1-n))>0;) n+=r;
   close(fd); prob[n]=0;
   for(char *p=prob;(p=strstr(p,"conjecture"));p++)      /* name is what stands before ",conjecture" */
   {
      char *e=p; while(e>prob&&(e[-1]==' '||e[-1]==','||e[-1]=='\n'||(e-prob>7&&!strncmp(e-7,"negated",7)))) e--;
      char *b=e; while(b>prob&&b[-1]!='('&&b[-1]!=' '&&b[-1]!='\n') b--;
      size_t l=strlen(goals); if(l+(e-b)+2<sizeof goals){ if(l) strcat(goals,","); strncat(goals,b,e-b); }
   }
}
int main(int argc,char **argv)
{
   int fd=open("stub.cnt",O_WRONLY|O_CREAT|O_APPEND,0644); if(write(fd,"x",1)!=1) return 51; long k=lseek(fd,0,SEEK_CUR)-1; close(fd);
   static char s[1<<20]; fd=open("stub.s",O_RDONLY); if(fd<0) return 52;
   ssize_t n=0,r; while((r=read(fd,s+n,sizeof s-1-n))>0) n+=r; close(fd); s[n]=0;
   load(argv[argc-1]);
   char *l=s; while(k-->0){ char *e=strchr(l,'\n'); if(!e||!e[1]) break; l=e+1; }
   char *e=strchr(l,'\n'); if(e) *e=0;
   while(l&&*l)
   {
      char op[16]; int i=0; while(*l&&*l!=' '&&*l!=';'&&i<15) op[i++]=*l++;
      op[i]=0; if(*l==' ') l++;
      static char a[1<<16]; size_t m=0;
      while(*l&&*l!=';'&&m<sizeof a-70000/2)
      {
         if(*l=='\\'&&l[1]){ l++; a[m++]= *l=='n'?'\n':*l; l++; }
         else if(*l=='%'&&l[1]=='G'){ size_t g=strlen(goals); if(m+g<sizeof a){ memcpy(a+m,goals,g); m+=g; } l+=2; }
         else a[m++]=*l++;
      }
      a[m]=0; if(*l==';') l++;
      if(!strcmp(op,"pid")){ char b[40]; int z=snprintf(b,sizeof b,"%% Pid: %d\n",(int)getpid()); out(b,z); }
      else if(!strcmp(op,"put")) out(a,m);
      else if(!strcmp(op,"fill")) { for(int z=atoi(a);z>0;z--){ char b[80]; int q=snprintf(b,sizeof b,"%% filler line %d of process %d\n",z,(int)getpid()); out(b,q); } }
      else if(!strcmp(op,"cat")) { for(char *p=prob;*p;){ char *q=strchr(p,'\n'); size_t z=q?(size_t)(q-p)+1:strlen(p); out("| ",2); out(p,z); if(!q) out("\n",1); p+=z; } }
      else if(!strcmp(op,"sleep")) usleep(atol(a));
      else if(!strcmp(op,"burn")) { for(volatile long z=atol(a);z>0;z--); }
      else if(!strcmp(op,"hang")) for(;;) usleep(10000000);
      else if(!strcmp(op,"ignterm")) signal(SIGTERM,SIG_IGN);
      else if(!strcmp(op,"exit")) _exit(atoi(a));
      else if(!strcmp(op,"sig")) { raise(atoi(a)); _exit(53); }
      else if(!strcmp(op,"need")) { if(!strstr(prob,a)) _exit(10); }
   }
   return 0;
}
