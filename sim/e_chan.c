/* Two-sided user of the message queues (TCPChannel*).  chan PORT FLUSH : accepts one connection;
 * every message received is printed and answered with "re:" + message; the answers are sent out
 * after every FLUSH messages and when a message "flush" arrives. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/socket.h>
#include "cio_multiplexer.h"
#include "cio_network.h"
static void show(const char *t,const char *p)
{
   printf("%s ",t);
   for(;*p;p++){ unsigned char c=*p; if(c=='\n') printf("\\n"); else if(c=='\\') printf("\\\\"); else if(c<32||c>126) printf("\\x%02x",c); else putchar(c); }
   printf("\n");
}
int main(int argc,char **argv)
{
   signal(SIGPIPE,SIG_IGN);
   int flush=atoi(argv[2]), have=0, deaf=0;
   int s=CreateServerSock(atoi(argv[1])); Listen(s);
   int c=accept(s,NULL,NULL);
   TCPChannel_p ch=TCPChannelAlloc(c);
   for(;;)
   {
      MsgStatus st=TCPChannelRead(ch);
      if(st==NWConnClosed||st==NWError) { printf("END %d\n",(int)TCPChannelHasInMsg(ch)); break; }
      while(TCPChannelHasInMsg(ch))
      {
         char *m=TCPMsgUnpack(TCPChannelGetInMsg(ch));
         show("GOT",m);
         int now=!strcmp(m,"flush");
         char *r=malloc(strlen(m)+4); strcpy(r,"re:"); strcat(r,m);
         TCPChannelSendStr(ch,r); free(r); free(m);
         have++;
         if(!deaf&&(now||have>=flush))
         {
            while(TCPChannelHasOutMsg(ch)) if(TCPChannelWrite(ch)==NWError) { printf("WERR\n"); deaf=1; break; }
            have=0;
         }
      }
   }
   TCPChannelClose(ch); TCPChannelFree(ch);
   return 0;
}
