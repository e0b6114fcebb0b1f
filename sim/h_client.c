/* Scripted client for the text-message protocol.  client SCRIPT
 * Script lines (text arguments use \n, \\ and \xHH):
 *   connect PORT      retries while refused
 *   send TEXT         one message: 4-byte total length, big endian, then TEXT
 *   file NAME         one message with the content of a file
 *   raw TEXT          bytes as they are
 *   hdr N             a 4-byte length field
 *   recv [N]          receive N messages
 *   reply             receive messages up to one that starts with three digits and a blank
 *   drain             receive until the connection ends
 *   sleep US   close   exit
 * Prints one line per event: "< TEXT" for a message, "EOF", "CUT n" (ended inside a message), "ERR errno". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <ctype.h>
#include <stdint.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <netinet/in.h>
static int sock=-1;
static char *unesc(char *s, size_t *n)
{
   char *r=malloc(strlen(s)+1), *o=r;
   for(; *s; s++)
   {
      if(*s=='\\' && s[1]=='n') { *o++='\n'; s++; }
      else if(*s=='\\' && s[1]=='\\') { *o++='\\'; s++; }
      else if(*s=='\\' && s[1]=='x') { char h[3]={s[2],s[3],0}; *o++=(char)strtol(h,NULL,16); s+=3; }
      else *o++=*s;
   }
   *o=0; *n=o-r; return r;
}
static void show(const char *p, size_t n)
{
   printf("< ");
   for(size_t i=0;i<n;i++)
   {  unsigned char c=p[i];
      if(c=='\n') printf("\\n"); else if(c=='\\') printf("\\\\"); else if(c<32||c>126) printf("\\x%02x",c); else putchar(c); }
   printf("\n"); fflush(stdout);
}
static int put(const char *p,size_t n)
{
   while(n) { ssize_t r=write(sock,p,n); if(r<0){ if(errno==EINTR) continue; printf("ERR %d\n",errno); fflush(stdout); return -1; } p+=r; n-=r; }
   return 0;
}
static int get(char *p,size_t n)      /* 1 ok, 0 eof at start, -1 trouble */
{
   size_t d=0;
   while(d<n)
   {  ssize_t r=read(sock,p+d,n-d);
      if(r<0){ if(errno==EINTR) continue; printf("ERR %d\n",errno); fflush(stdout); return -1; }
      if(r==0){ if(d==0) return 0; printf("CUT %zu\n",d); fflush(stdout); return -1; }
      d+=r; }
   return 1;
}
static int message(char *first)       /* 1 ok, 0 over */
{
   uint32_t l; int k=get((char*)&l,4);
   if(k<=0){ if(k==0){ printf("EOF\n"); fflush(stdout); } return 0; }
   l=ntohl(l);
   if(l<4||l>(64u<<20)){ printf("BADLEN %u\n",l); fflush(stdout); return 0; }
   char *b=malloc(l-4+1); b[l-4]=0;
   k = l>4? get(b,l-4):1;
   if(k<=0){ if(k==0){ printf("CUT 4\n"); fflush(stdout); } free(b); return 0; }
   show(b,l-4);
   memcpy(first,b,l-4<5?l-4:5);
   free(b);
   return 1;
}
int main(int argc,char **argv)
{
   signal(SIGPIPE,SIG_IGN);
   FILE *f=fopen(argv[1],"r"); static char line[1<<20]; int over=0;
   if(!f) return 3;
   while(fgets(line,sizeof line,f))
   {
      line[strcspn(line,"\n")]=0;
      char *a=strchr(line,' '); if(a) *a++=0; else a="";
      size_t n; char first[8];
      if(!strcmp(line,"connect"))
      {
         struct sockaddr_in sa; memset(&sa,0,sizeof sa); sa.sin_family=AF_INET; sa.sin_port=htons(atoi(a)); sa.sin_addr.s_addr=htonl(INADDR_LOOPBACK);
         for(int k=0;;k++)
         {
            sock=socket(AF_INET,SOCK_STREAM,0);
            if(connect(sock,(struct sockaddr*)&sa,sizeof sa)==0) break;
            close(sock); sock=-1;
            if(k>=400){ printf("REFUSED\n"); return 4; }
            usleep(10000);
         }
         over=0; printf("CONNECTED\n"); fflush(stdout);
      }
      else if(!strcmp(line,"sleep")) usleep(atoi(a));
      else if(!strcmp(line,"close")) { close(sock); sock=-1; printf("CLOSED\n"); fflush(stdout); }
      else if(!strcmp(line,"exit")) break;
      else if(over||sock<0) continue;
      else if(!strcmp(line,"send")) { char *b=unesc(a,&n); uint32_t l=htonl(n+4); char *m=malloc(n+4); memcpy(m,&l,4); memcpy(m+4,b,n); if(put(m,n+4)) over=1; free(m); free(b); }
      else if(!strcmp(line,"raw")) { char *b=unesc(a,&n); if(put(b,n)) over=1; free(b); }
      else if(!strcmp(line,"hdr")) { uint32_t l=htonl((uint32_t)strtoul(a,NULL,0)); if(put((char*)&l,4)) over=1; }
      else if(!strcmp(line,"recv")) { int k=*a?atoi(a):1; while(k-- && !over) if(!message(first)) over=1; }
      else if(!strcmp(line,"drain")) { while(message(first)) ; over=1; }
      else if(!strcmp(line,"reply"))
      {  for(;;){ memset(first,0,8); if(!message(first)){ over=1; break; } if(isdigit(first[0])&&isdigit(first[1])&&isdigit(first[2])&&first[3]==' ') break; } }
   }
   return 0;
}
