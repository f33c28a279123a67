/* sched: runs N ranks of an MPI program under a controlled scheduler.
 *
 *   sched -n N [-s sync] [-l late] [-o order] [-c "i:choice,i:choice"] [-t trace] [-w timeout] -- prog args...
 *
 * -s 1   no buffering: a blocking send, and the wait on a nonblocking one, complete only when matched
 * -l 1   nonblocking sends read their buffer as late as allowed (wait, or when the receiver can only go on with it)
 * -o 1   among ranks with a pending wait-any, the highest goes first
 * -c     at decision point i take alternative choice (default 0: lowest request)
 * -C k   default choice policy: 0 lowest completed request, 1 highest, 2 alternate
 * trace: one line per decision "D rank nalts chosen", then "R status detail", "S ops msgs decisions"
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include "mpi.h"
#include "proto.h"
#define MAXN 64
typedef struct Msg { int src,dst,tag,comm,sreq,type; long n; char*data; int pulled, matched, consumed; struct Msg*next; } Msg;
typedef struct Rcv { int dst,src,tag,comm,rreq,type; long n; Msg*m; struct Rcv*next; } Rcv;
typedef struct { int st; /*0 running 1 blocked 2 finalized 3 dead*/ Hdr h; char*pl; int fd; pid_t pid; int code; int exited; } Rk;
static Rk rk[MAXN]; static int N=1,sync_=0,late=0,order=0,cpol=0; static Msg*msgs=NULL,**mtail=&msgs; static Rcv*rcvs=NULL,**rtail=&rcvs;
static long nops=0,nmsg=0; static int ndec=0; static FILE*tr; static int nextcomm=3;
static struct {int i,c;} pre[4096]; static int npre=0;

static void cleanup(void){ int i; for(i=0;i<N;i++) if(rk[i].pid>0&&!rk[i].exited) kill(rk[i].pid,SIGKILL); for(i=0;i<N;i++) if(rk[i].pid>0&&!rk[i].exited) waitpid(rk[i].pid,NULL,0); }
static void fin(const char*st,const char*detail,int code){ fprintf(tr,"R %s %s\nS %ld %ld %d\n",st,detail,nops,nmsg,ndec); fclose(tr); cleanup(); exit(code); }
static void wr(int r,const void*p,size_t n){ const char*c=p; while(n){ ssize_t k=write(rk[r].fd,c,n); if(k<0){ if(errno==EINTR)continue; return;} c+=k;n-=k; } }
static int rdn(int r,void*p,size_t n){ char*c=p; while(n){ ssize_t k=read(rk[r].fd,c,n); if(k<0&&errno==EINTR)continue; if(k<=0)return 0; c+=k;n-=k; } return 1; }
static void cmd(int r,int op,int a,int b,int c,const void*p,long len){ Hdr h; memset(&h,0,sizeof h); h.op=op;h.a=a;h.b=b;h.c=c;h.len=len; wr(r,&h,sizeof h); if(len) wr(r,p,len); }
static void resume(int r,int a,const void*p,long len){ free(rk[r].pl); rk[r].pl=NULL; rk[r].st=0; cmd(r,S_RESUME,a,0,0,p,len); }

static void match(void){ Rcv*v; Msg*m; for(v=rcvs;v;v=v->next) if(!v->m) for(m=msgs;m;m=m->next)
    if(!m->matched && m->dst==v->dst && m->comm==v->comm && (v->src<0||m->src==v->src) && (v->tag<0||m->tag==v->tag)) {
      char b[256];
      if(m->n>v->n){ sprintf(b,"message of %ld bytes from %d to %d tag %d truncated by receive of %ld bytes",m->n,m->src,m->dst,m->tag,v->n); fin("error",b,3); }
      if(m->type!=v->type && m->type!=MPI_BYTE && v->type!=MPI_BYTE){ sprintf(b,"message from %d to %d tag %d: datatype of send and receive differ",m->src,m->dst,m->tag); fin("error",b,3); }
      v->m=m; m->matched=1; break; } }
static Msg* fmsg(int r,int q){ Msg*m; for(m=msgs;m;m=m->next) if(m->src==r&&m->sreq==q) return m; return NULL; }
static Rcv* frcv(int r,int q){ Rcv*v; for(v=rcvs;v;v=v->next) if(v->dst==r&&v->rreq==q) return v; return NULL; }
static int complete(int r,int q){ Msg*m=fmsg(r,q); Rcv*v; if(m) return sync_? m->matched : 1; v=frcv(r,q); if(v) return v->m!=NULL; return 1; }
static int havedata(int r,int q){ Rcv*v=frcv(r,q); if(!v) return 1; return v->m && v->m->data!=NULL; }
static void msgfree(Msg*x){ Msg**p; for(p=&msgs;*p;p=&(*p)->next) if(*p==x){ *p=x->next; if(mtail==&x->next) mtail=p; free(x->data); free(x); return; } }
static void pull(Msg*m){ Hdr h; if(m->data) return; cmd(m->src,S_PULL,m->sreq,0,0,NULL,0); if(!rdn(m->src,&h,sizeof h)||h.op!=M_PULLED) fin("error","pull failed",3); m->data=malloc(h.len+1); if(h.len) rdn(m->src,m->data,h.len); m->pulled=1; }
static void finishreq(int r,int q){ /* data movement at completion */
  Msg*m=fmsg(r,q); Rcv*v,**p;
  if(m){ if(!m->data) pull(m); m->sreq=-1; if(m->consumed) msgfree(m); return; }
  v=frcv(r,q); if(!v) return;
  cmd(r,S_DELIVER,q,v->m->src,v->m->tag,v->m->data,v->m->n);
  v->m->consumed=1; if(v->m->sreq<0) msgfree(v->m);
  for(p=&rcvs;*p;p=&(*p)->next) if(*p==v){ *p=v->next; if(rtail==&v->next) rtail=p; free(v); break; }
}
static void addmsg(int r,Hdr*h,char*d,int sync){ Msg*m=calloc(1,sizeof*m); (void)sync; m->src=r; m->sreq=h->a; m->dst=h->b; m->tag=h->c; m->comm=h->d; m->n=h->n; m->type=0; m->data=d; *mtail=m; mtail=&m->next; nmsg++; }
static void gone(int r){ int st; char b[200]; waitpid(rk[r].pid,&st,0); rk[r].exited=1;
  if(rk[r].st==2 || rk[r].st==4){ rk[r].st=3; rk[r].code=WIFEXITED(st)?WEXITSTATUS(st):128+WTERMSIG(st); return; }
  sprintf(b,"rank %d ended (%s %d) without finalizing",r,WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st));
  fin(WIFSIGNALED(st)?"crash":"abort",b,2); }
static void serve(int r){ Hdr h; char*d=NULL;
  if(!rdn(r,&h,sizeof h)){ gone(r); return; }
  if(h.len){ d=malloc(h.len+1); if(!rdn(r,d,h.len)){ gone(r); return; } }
  nops++;
  switch(h.op){
  case M_ISEND: if(!d&&!late) d=calloc(1,1); addmsg(r,&h,d,0); mtail==&msgs?0:0; { Msg*m=fmsg(r,h.a); if(m) m->type=h.e; } break;
  case M_IRECV: { Rcv*v=calloc(1,sizeof*v); v->dst=r; v->rreq=h.a; v->src=h.b; v->tag=h.c; v->comm=h.d; v->type=h.e; v->n=h.n; *rtail=v; rtail=&v->next; } break;
  case M_SSEND: if(!d) d=calloc(1,1); addmsg(r,&h,d,0); { Msg*m=fmsg(r,h.a); if(m) m->type=MPI_BYTE; } rk[r].st=1; rk[r].h=h; rk[r].pl=NULL; break;
  case M_ERR: fin("error",d,3); break;
  case M_ABORT: { char b[100]; sprintf(b,"MPI_Abort(%d) by rank %d",h.a,r); fin("abort",b,2); } break;
  default: rk[r].st=1; rk[r].h=h; rk[r].pl=d; break; } }

static int ival(const char*p,int i){ int v; memcpy(&v,p+4*i,4); return v; }
static void reduce(int type,int op,long n,char*acc,const char*x){ long i; for(i=0;i<n;i++) switch(type){
#define R(T) { T*a=(T*)acc; const T*b=(const T*)x; T u=a[i],v=b[i]; a[i]= op==MPI_MAX?(u>v?u:v): op==MPI_MIN?(u<v?u:v): op==MPI_SUM?u+v: op==MPI_PROD?u*v: op==MPI_LAND?(u&&v):(u||v); } break;
  case MPI_INT: R(int) case MPI_LONG: R(long) case MPI_DOUBLE: R(double) case MPI_FLOAT: R(float) case MPI_CHAR: R(char) } }
static int tsz(int t){ switch(t){ case MPI_CHAR: case MPI_BYTE: return 1; case MPI_SHORT: return 2; case MPI_INT: case MPI_FLOAT: return 4; } return 8; }
static int trycoll(int r0){ /* returns 1 if the collective that r0 is in could complete */
  Hdr*h=&rk[r0].h; char*p=rk[r0].pl; int n=ival(p,0),i,w; char b[300]; long hl=4*(2+n);
  for(i=0;i<n;i++){ w=ival(p,2+i); if(rk[w].st!=1||rk[w].h.op!=M_COLL||rk[w].h.b!=h->b) return 0; }
  for(i=0;i<n;i++){ w=ival(p,2+i); Hdr*q=&rk[w].h;
    if(q->a!=h->a||q->c!=h->c||q->d!=h->d||q->e!=h->e||q->n!=h->n){ sprintf(b,"ranks %d and %d disagree in a collective (kind %d/%d root %d/%d type %d/%d op %d/%d size %ld/%ld)",r0,w,h->a,q->a,h->c,q->c,h->d,q->d,h->e,q->e,h->n,q->n); fin("error",b,3);} }
  if(h->c<0||h->c>=n) fin("error","collective with invalid root",3);
  { char*res=NULL; long len=0; int id=0,root=ival(p,2+h->c); int ws[MAXN]; int kind=h->a;
    for(i=0;i<n;i++) ws[i]=ival(p,2+i);
    switch(kind){
    case C_BARRIER: break;
    case C_BCAST: len=h->n; res=malloc(len+1); if(rk[root].h.len-hl<len) fin("error","bcast size",3); memcpy(res,rk[root].pl+hl,len); break;
    case C_REDUCE: case C_ALLREDUCE: len=h->n*tsz(h->d); res=malloc(len+1); memcpy(res,rk[ws[0]].pl+hl,len); for(i=1;i<n;i++) reduce(h->d,h->e,h->n,res,rk[ws[i]].pl+hl); break;
    case C_ALLGATHER: case C_GATHER: len=h->n*n; res=malloc(len+1); for(i=0;i<n;i++) memcpy(res+i*h->n,rk[ws[i]].pl+hl,h->n); break;
    case C_CREATE: for(i=1;i<n;i++) if(rk[ws[i]].h.len!=h->len||memcmp(rk[ws[i]].pl+hl,rk[ws[0]].pl+hl,h->len-hl)) fin("error","Comm_create: groups differ between ranks",3); id=nextcomm++; break;
    case C_DUP: id=nextcomm++; break; }
    for(i=0;i<n;i++){ w=ws[i]; if((kind==C_REDUCE||kind==C_GATHER)&&w!=root) resume(w,0,NULL,0); else resume(w,id,res,len); }
    free(res); }
  return 1; }
static int chose(int r,int na){ int c,i; c = cpol==0?0: cpol==1?na-1: (ndec&1)%na; for(i=0;i<npre;i++) if(pre[i].i==ndec) c=pre[i].c; if(c>=na) c=na-1; fprintf(tr,"D %d %d %d\n",r,na,c); ndec++; return c; }

int main(int ac,char**av){ int i,k,tmo=60; const char*tf="/dev/null"; char*cs=NULL; const char*outpre=NULL; time_t t0;
  for(i=1;i<ac;i++){ if(!strcmp(av[i],"--")){ i++; break; } switch(av[i][1]){ case 'n':N=atoi(av[++i]);break; case 's':sync_=atoi(av[++i]);break; case 'l':late=atoi(av[++i]);break;
    case 'o':order=atoi(av[++i]);break; case 'c':cs=av[++i];break; case 'C':cpol=atoi(av[++i]);break; case 't':tf=av[++i];break; case 'w':tmo=atoi(av[++i]);break; case 'O':outpre=av[++i];break; } }
  if(cs&&*cs){ char*p=strdup(cs),*q; for(q=strtok(p,",");q;q=strtok(NULL,",")){ sscanf(q,"%d:%d",&pre[npre].i,&pre[npre].c); npre++; } }
  tr=fopen(tf,"w"); if(!tr) return 4;
  signal(SIGPIPE,SIG_IGN); t0=time(NULL);
  for(k=0;k<N;k++){ int sv[2]; if(socketpair(AF_UNIX,SOCK_STREAM,0,sv)) return 4;
    fcntl(sv[0],F_SETFD,FD_CLOEXEC);
    pid_t p=fork(); if(p==0){ char e[100]; int j; for(j=0;j<k;j++) close(rk[j].fd); close(sv[0]); sprintf(e,"%d:%d:%d:%d",sv[1],k,N,late); setenv("VPMPI",e,1);
      if(outpre){ char b[600]; int f; snprintf(b,sizeof b,"%s.%d",outpre,k); f=open(b,O_WRONLY|O_CREAT|O_TRUNC,0644); dup2(f,1); dup2(f,2); close(f); }
      execv(av[i],av+i); _exit(96); }
    close(sv[1]); rk[k].fd=sv[0]; rk[k].pid=p; }
  for(;;){
    /* run every running rank until it blocks */
    for(;;){ struct pollfd pf[MAXN]; int id[MAXN],m=0; for(k=0;k<N;k++) if(rk[k].st==0||rk[k].st==4){ pf[m].fd=rk[k].fd; pf[m].events=POLLIN; id[m++]=k; }
      int run=0; for(k=0;k<N;k++) if(rk[k].st==0||rk[k].st==4) run++;
      if(!run) break;
      if(poll(pf,m,1000)<0&&errno!=EINTR) return 4;
      if(time(NULL)-t0>tmo) fin("timeout","run exceeded its time limit",5);
      for(k=0;k<m;k++) if(pf[k].revents) serve(id[k]); }
    match();
    { int prog=0,alive=0; int ready[MAXN],nr=0;
      for(k=0;k<N;k++) if(rk[k].st!=3) alive++;
      if(!alive) break;
      /* deterministic completions */
      for(k=0;k<N;k++) if(rk[k].st==1){ Hdr*h=&rk[k].h; int j,ok=1;
        if(h->op==M_INIT){ resume(k,0,NULL,0); prog=1; }
        else if(h->op==M_SSEND){ if((!sync_&&!h->e)||complete(k,h->a)){ finishreq(k,h->a); resume(k,0,NULL,0); prog=1; } }
        else if(h->op==M_WAITALL){ for(j=0;j<h->a;j++) if(!complete(k,ival(rk[k].pl,j))||!havedata(k,ival(rk[k].pl,j))) ok=0;
          if(ok){ for(j=0;j<h->a;j++) finishreq(k,ival(rk[k].pl,j)); resume(k,0,NULL,0); prog=1; } }
        else if(h->op==M_TEST){ int q=ival(rk[k].pl,0); int f=complete(k,q)&&havedata(k,q); if(f) finishreq(k,q); resume(k,f,NULL,0); prog=1; }
        else if(h->op==M_COLL) prog|=trycoll(k);
        else if(h->op==M_FINAL){ int all=1; for(j=0;j<N;j++) if(!(rk[j].st==1&&rk[j].h.op==M_FINAL)) all=0; if(all){ for(j=0;j<N;j++){ resume(j,0,NULL,0); rk[j].st=4; } prog=1; } }
        if(prog&&0) break; }
      if(prog) continue;
      /* late sends: move data that a blocked receiver cannot go on without */
      { Rcv*v; int pl=0; for(k=0;k<N&&!pl;k++) if(rk[k].st==1&&(rk[k].h.op==M_WAITALL)){ int j; for(j=0;j<rk[k].h.a;j++){ v=frcv(k,ival(rk[k].pl,j)); if(v&&v->m&&!v->m->data){ pull(v->m); pl=1; } } }
        if(pl) continue; }
      for(k=0;k<N;k++) if(rk[k].st==1&&rk[k].h.op==M_WAITANY){ int j; for(j=0;j<rk[k].h.a;j++) if(complete(k,ival(rk[k].pl,j))){ ready[nr++]=k; break; } }
      if(nr){ int r=order?ready[nr-1]:ready[0]; int alt[1024],na=0,j,c,q; Rcv*v; for(j=0;j<rk[r].h.a;j++) if(complete(r,ival(rk[r].pl,j))) alt[na++]=ival(rk[r].pl,j);
        c= na>1? chose(r,na):0; q=alt[c]; v=frcv(r,q); if(v&&!v->m->data) pull(v->m); finishreq(r,q); resume(r,q,NULL,0); continue; }
      { char b[4000]; int o=0; for(k=0;k<N;k++) if(rk[k].st==1&&o<3800) o+=sprintf(b+o,"[rank %d op %d a=%d b=%d c=%d] ",k,rk[k].h.op,rk[k].h.a,rk[k].h.b,rk[k].h.c); fin("deadlock",b,3); }
    } }
  { int bad=0; char b[200]; Msg*m; int un=0; for(k=0;k<N;k++) if(rk[k].code) bad=rk[k].code;
    for(m=msgs;m;m=m->next) if(!m->matched) un++;
    if(bad){ sprintf(b,"exit code %d",bad); fin("abort",b,2); }
    if(un||rcvs){ int ur=0; Rcv*v; for(v=rcvs;v;v=v->next) ur++; sprintf(b,"unreceived=%d unfinished_receives=%d",un,ur); fin("ok",b,0); }
    fin("ok","clean",0); }
  return 0; }
