/* rank-side library */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include "mpi.h"
#include "proto.h"

static int fd=-1, me=0, np=1, inited=0, late=0;
typedef struct { int kind; char *buf; long n; int done; int peer, tag, count; } Req; /* kind 1 send 2 recv */
static Req *rq; static int nrq=1, crq=0;
typedef struct { int n, me; int *w; } Grp;
static Grp grp[4096]; static int ngrp=1;
typedef struct { int used; Grp g; } Comm;
static Comm comm[4096]; static int ncomm=3;

static void die(const char *m){ fprintf(stderr,"[mmpi rank %d] %s\n",me,m); _exit(97); }
static void wr(const void *p,size_t n){ const char*c=p; while(n){ ssize_t r=write(fd,c,n); if(r<0){ if(errno==EINTR)continue; _exit(98);} c+=r;n-=r; } }
static void rdn(void *p,size_t n){ char*c=p; while(n){ ssize_t r=read(fd,c,n); if(r<0&&errno==EINTR)continue; if(r<=0)_exit(98); c+=r;n-=r; } }
static void snd(int op,int a,int b,int c,int d,int e,long n,const void *p,long len)
{ Hdr h; memset(&h,0,sizeof h); h.op=op;h.a=a;h.b=b;h.c=c;h.d=d;h.e=e;h.n=n;h.len=len; wr(&h,sizeof h); if(len) wr(p,len); }
static void err(const char *m){ snd(M_ERR,0,0,0,0,0,0,m,strlen(m)+1); usleep(2000000); _exit(97); }
static int tsz(MPI_Datatype t){ switch(t){ case MPI_CHAR: case MPI_BYTE: case MPI_UNSIGNED_CHAR: return 1; case MPI_SHORT: return 2;
  case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4; case MPI_LONG: case MPI_DOUBLE: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: return 8; }
  err("bad datatype"); return 0; }
int MPI_Type_size(MPI_Datatype t,int *s){ *s=tsz(t); return 0; }

static Hdr block(void **data)   /* serve the scheduler until resumed; resume payload returned in *data */
{
  Hdr h;
  for(;;){
    rdn(&h,sizeof h);
    if(h.op==S_PULL){ Req *r=&rq[h.a]; snd(M_PULLED,h.a,0,0,0,0,0,r->buf,r->n); }
    else if(h.op==S_DELIVER){ Req *r=&rq[h.a]; r->count=h.len; r->peer=h.b; r->tag=h.c; rdn(r->buf,h.len); }
    else if(h.op==S_RESUME){ if(h.len){ *data=malloc(h.len); rdn(*data,h.len); } return h; }
    else die("bad scheduler message");
  }
}
static Grp* G(MPI_Comm c){ if(c<=0||c>=4096||!comm[c].used) err("invalid communicator"); return &comm[c].g; }

int MPI_Init(int *ac,char ***av)
{
  const char *e=getenv("VPMPI"); void *d=NULL; int i;
  if(!e) die("not under the scheduler");
  sscanf(e,"%d:%d:%d:%d",&fd,&me,&np,&late);
  crq=256; rq=calloc(crq,sizeof(Req));
  comm[1].used=1; comm[1].g.n=np; comm[1].g.me=me; comm[1].g.w=malloc(sizeof(int)*np); for(i=0;i<np;i++) comm[1].g.w[i]=i;
  comm[2].used=1; comm[2].g.n=1; comm[2].g.me=0; comm[2].g.w=malloc(sizeof(int)); comm[2].g.w[0]=me;
  snd(M_INIT,0,0,0,0,0,0,NULL,0); block(&d); inited=1; return 0;
}
int MPI_Initialized(int *f){ *f=inited; return 0; }
int MPI_Finalize(void){ void*d=NULL; snd(M_FINAL,0,0,0,0,0,0,NULL,0); block(&d); inited=2; return 0; }
int MPI_Abort(MPI_Comm c,int code){ void*d=NULL; if(fd<0) _exit(code?code:1); snd(M_ABORT,code,0,0,0,0,0,NULL,0); block(&d); _exit(code?code:1); return 0; }
int MPI_Comm_rank(MPI_Comm c,int *r){ *r=G(c)->me; return 0; }
int MPI_Comm_size(MPI_Comm c,int *n){ *n=G(c)->n; return 0; }
static MPI_Group addg(int n,const int *w){ int i; Grp*g; if(ngrp>=4096) err("too many groups"); g=&grp[ngrp]; g->n=n; g->me=MPI_UNDEFINED; g->w=malloc(sizeof(int)*(n+1));
  for(i=0;i<n;i++){ g->w[i]=w[i]; if(w[i]==me) g->me=i; } return ngrp++; }
int MPI_Comm_group(MPI_Comm c,MPI_Group *g){ Grp*q=G(c); *g=addg(q->n,q->w); return 0; }
int MPI_Group_incl(MPI_Group g,int n,const int *r,MPI_Group *o){ int i,*w=malloc(sizeof(int)*(n+1)); if(g<=0||g>=ngrp) err("invalid group");
  for(i=0;i<n;i++){ int k; if(r[i]<0||r[i]>=grp[g].n) err("MPI_Group_incl: rank out of range"); w[i]=grp[g].w[r[i]];
    for(k=0;k<i;k++) if(w[k]==w[i]) err("MPI_Group_incl: duplicate rank"); }
  *o=addg(n,w); free(w); return 0; }
int MPI_Group_free(MPI_Group *g){ *g=0; return 0; }
int MPI_Group_size(MPI_Group g,int *n){ *n=grp[g].n; return 0; }
int MPI_Group_rank(MPI_Group g,int *n){ *n=grp[g].me; return 0; }

static Hdr coll(int kind,MPI_Comm c,int root,int type,int op,const void*p,long len,long aux,void **d)
{
  Grp*g=G(c); char*b; long hl=sizeof(int)*(2+g->n); int *hd;
  b=malloc(hl+len+1); hd=(int*)b; hd[0]=g->n; hd[1]=g->me; memcpy(hd+2,g->w,sizeof(int)*g->n); if(len) memcpy(b+hl,p,len);
  snd(M_COLL,kind,c,root,type,op,aux,b,hl+len); free(b);
  return block(d);
}
static MPI_Comm newcomm(int id,int n,const int*w){ int i; if(id>=4096) err("too many communicators");
  comm[id].used=1; comm[id].g.n=n; comm[id].g.w=malloc(sizeof(int)*(n+1)); comm[id].g.me=MPI_UNDEFINED;
  for(i=0;i<n;i++){ comm[id].g.w[i]=w[i]; if(w[i]==me) comm[id].g.me=i; } return id; }
int MPI_Comm_create(MPI_Comm c,MPI_Group g,MPI_Comm *o)
{ void*d=NULL; Hdr h; if(g<=0||g>=ngrp) err("invalid group"); h=coll(C_CREATE,c,0,0,0,grp[g].w,sizeof(int)*grp[g].n,0,&d); free(d);
  *o = grp[g].me==MPI_UNDEFINED ? MPI_COMM_NULL : newcomm(h.a,grp[g].n,grp[g].w); return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm *o){ void*d=NULL; Hdr h=coll(C_DUP,c,0,0,0,NULL,0,0,&d); free(d); *o=newcomm(h.a,G(c)->n,G(c)->w); return 0; }
int MPI_Comm_free(MPI_Comm *c){ G(*c); comm[*c].used=0; *c=MPI_COMM_NULL; return 0; }
int MPI_Barrier(MPI_Comm c){ void*d=NULL; coll(C_BARRIER,c,0,0,0,NULL,0,0,&d); free(d); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c)
{ void*d=NULL; long l=(long)n*tsz(t); coll(C_BCAST,c,root,0,0,G(c)->me==root?b:NULL,G(c)->me==root?l:0,l,&d); if(d) memcpy(b,d,l); free(d); return 0; }
int MPI_Reduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c)
{ void*d=NULL; long l=(long)n*tsz(t); coll(C_REDUCE,c,root,t,op,s==MPI_IN_PLACE?r:s,l,n,&d); if(G(c)->me==root&&l) memcpy(r,d,l); free(d); return 0; }
int MPI_Allreduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c)
{ void*d=NULL; long l=(long)n*tsz(t); coll(C_ALLREDUCE,c,0,t,op,s==MPI_IN_PLACE?r:s,l,n,&d); if(l) memcpy(r,d,l); free(d); return 0; }
int MPI_Allgather(const void*s,int n,MPI_Datatype t,void*r,int n2,MPI_Datatype t2,MPI_Comm c)
{ void*d=NULL; long l=(long)n*tsz(t); if(l!=(long)n2*tsz(t2)) err("Allgather: send and receive sizes differ"); coll(C_ALLGATHER,c,0,t,0,s,l,l,&d); if(l) memcpy(r,d,l*G(c)->n); free(d); return 0; }
int MPI_Gather(const void*s,int n,MPI_Datatype t,void*r,int n2,MPI_Datatype t2,int root,MPI_Comm c)
{ void*d=NULL; long l=(long)n*tsz(t); coll(C_GATHER,c,root,t,0,s,l,l,&d); if(G(c)->me==root&&l) memcpy(r,d,l*G(c)->n); free(d); return 0; }

static int newreq(int kind,void*b,long n){ int i; for(i=1;i<nrq;i++) if(!rq[i].kind) break; if(i==nrq){ if(nrq==crq){ crq*=2; rq=realloc(rq,crq*sizeof(Req)); } nrq++; }
  memset(&rq[i],0,sizeof(Req)); rq[i].kind=kind; rq[i].buf=b; rq[i].n=n; return i; }
static int W(MPI_Comm c,int r){ Grp*g=G(c); if(r<0||r>=g->n){ char m[100]; sprintf(m,"rank %d out of range in communicator of size %d",r,g->n); err(m);} return g->w[r]; }
int MPI_Isend(const void*b,int n,MPI_Datatype t,int dst,int tag,MPI_Comm c,MPI_Request*q)
{ long l=(long)n*tsz(t); int r;
  if(dst==MPI_PROC_NULL){ *q=0; return 0; }
  r=newreq(1,(void*)b,l);
  snd(M_ISEND,r,W(c,dst),tag,c,t,l,b,late?0:l); *q=r; return 0; }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int src,int tag,MPI_Comm c,MPI_Request*q)
{ long l=(long)n*tsz(t); int r;
  if(src==MPI_PROC_NULL){ *q=0; return 0; }
  r=newreq(2,b,l); if(l) memset(b,0xF7,l);    /* contents are undefined until the receive completes */
  snd(M_IRECV,r,src==MPI_ANY_SOURCE?-1:W(c,src),tag,c,t,l,NULL,0); *q=r; return 0; }
static void fin(MPI_Request*q,MPI_Status*s){ Req*r=&rq[*q]; if(s){ s->MPI_SOURCE=r->peer; s->MPI_TAG=r->tag; s->count=r->count; s->MPI_ERROR=0; } r->kind=0; *q=0; }
static void chk(int n,MPI_Request*q){ int i; for(i=0;i<n;i++) if(q[i]<0||q[i]>=nrq||(q[i]&&!rq[q[i]].kind)) err("wait on an invalid or already completed request"); }
int MPI_Waitall(int n,MPI_Request*q,MPI_Status*s)
{ int i,m=0; void*d=NULL; int*l=malloc(sizeof(int)*(n+1)); chk(n,q); for(i=0;i<n;i++) if(q[i]) l[m++]=q[i];
  if(m){ snd(M_WAITALL,m,0,0,0,0,0,l,sizeof(int)*m); block(&d); free(d); }
  for(i=0;i<n;i++) if(q[i]) fin(&q[i],s?&s[i]:NULL);
  free(l); return 0; }
int MPI_Wait(MPI_Request*q,MPI_Status*s){ return MPI_Waitall(1,q,s); }
int MPI_Waitany(int n,MPI_Request*q,int*ix,MPI_Status*s)
{ int i,m=0; void*d=NULL; Hdr h; int*l=malloc(sizeof(int)*(n+1)); chk(n,q); for(i=0;i<n;i++) if(q[i]) l[m++]=q[i];
  if(!m){ *ix=MPI_UNDEFINED; free(l); return 0; }
  snd(M_WAITANY,m,0,0,0,0,0,l,sizeof(int)*m); h=block(&d); free(d);
  for(i=0;i<n;i++) if(q[i]==h.a) break;
  *ix=i; fin(&q[i],s); free(l); return 0; }
int MPI_Test(MPI_Request*q,int*f,MPI_Status*s)
{ void*d=NULL; Hdr h; if(!*q){*f=1;return 0;} chk(1,q); snd(M_TEST,1,0,0,0,0,0,q,sizeof(int)); h=block(&d); *f=h.a; if(h.a) fin(q,s); return 0; }
static int bsend(const void*b,int n,MPI_Datatype t,int dst,int tag,MPI_Comm c,int sync)
{ void*d=NULL; int r; long l=(long)n*tsz(t); if(dst==MPI_PROC_NULL) return 0; r=newreq(1,(void*)b,l);
  snd(M_SSEND,r,W(c,dst),tag,c,sync,l,b,l); block(&d); rq[r].kind=0; return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype t,int dst,int tag,MPI_Comm c){ return bsend(b,n,t,dst,tag,c,0); }
int MPI_Ssend(const void*b,int n,MPI_Datatype t,int dst,int tag,MPI_Comm c){ return bsend(b,n,t,dst,tag,c,1); }
int MPI_Recv(void*b,int n,MPI_Datatype t,int src,int tag,MPI_Comm c,MPI_Status*s){ MPI_Request q; MPI_Irecv(b,n,t,src,tag,c,&q); return MPI_Wait(&q,s); }
int MPI_Sendrecv(const void*sb,int sn,MPI_Datatype st,int dst,int stag,void*rb,int rn,MPI_Datatype rt,int src,int rtag,MPI_Comm c,MPI_Status*s)
{ MPI_Request q[2]; MPI_Status ss[2]; MPI_Irecv(rb,rn,rt,src,rtag,c,&q[0]); MPI_Isend(sb,sn,st,dst,stag,c,&q[1]); MPI_Waitall(2,q,ss); if(s)*s=ss[0]; return 0; }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ *n=s->count/tsz(t); return 0; }
double MPI_Wtime(void){ static double t=0; static double st=-1; if(st<0){ const char*e=getenv("VPMPI_WTIME"); st=e?atof(e):0.001; } t+=st; return t; }
int MPI_Get_processor_name(char*n,int*l){ strcpy(n,"vp"); *l=2; return 0; }
