/* meshprog.c: sets up the mesh for each layout of a list (one child process per layout, every rank in turn) and prints it.
   usage: meshprog athinput list; a line of the list: <ranks> block/name=value ...  */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"

#ifdef MPI_PARALLEL
extern int vm_size, vm_n[], *vm_w[];
static void comm(FILE *o, const char *t, int c)
{ int i; fprintf(o," %s ",t); if (c<3) { fputs("-",o); return; } for (i=0;i<vm_n[c];i++) fprintf(o,"%s%d",i?",":"",vm_w[c][i]); }
#endif
#ifdef STATIC_MESH_REFINEMENT
static void ovl(FILE *o, const char *t, int nl, int nd, GridOvrlpS *p, int n)
{
  int i,d,m;
  for (i=0;i<n;i++) {
    for (m=0,d=0;d<6;d++) if (p[i].myFlx[d]) m|=1<<d;
    fprintf(o,"%s %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n",t,nl,nd,p[i].ijks[0],p[i].ijks[1],p[i].ijks[2],p[i].ijke[0],p[i].ijke[1],p[i].ijke[2],
      p[i].ID,p[i].DomN,p[i].nWordsRC,p[i].nWordsP,m);
  }
}
#endif
static void show(FILE *o, MeshS *pM)
{
  int nl,nd;
  for (nl=0;nl<pM->NLevels;nl++) for (nd=0;nd<pM->DomainsPerLevel[nl];nd++) {
    DomainS *d=&(pM->Domain[nl][nd]); GridS *g=d->Grid;
    fprintf(o,"D %d %d %d %d %d %d %d %d %d %d %d %.17g %.17g %.17g %.17g %.17g %.17g",d->Level,d->DomNumber,d->Nx[0],d->Nx[1],d->Nx[2],d->Disp[0],d->Disp[1],d->Disp[2],
      d->NGrid[0],d->NGrid[1],d->NGrid[2],d->MinX[0],d->MinX[1],d->MinX[2],d->MaxX[0],d->MaxX[1],d->MaxX[2]);
#ifdef MPI_PARALLEL
    comm(o,"dom",d->Comm_Domain);
#ifdef STATIC_MESH_REFINEMENT
    comm(o,"par",d->Comm_Parent); comm(o,"chi",d->Comm_Children);
#endif
#endif
    fputc('\n',o);
    if (!g) continue;
    fprintf(o,"G %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g\n",nl,nd,
      g->Nx[0],g->Nx[1],g->Nx[2],g->Disp[0],g->Disp[1],g->Disp[2],g->is,g->ie,g->js,g->je,g->ks,g->ke,
      g->lx1_id,g->rx1_id,g->lx2_id,g->rx2_id,g->lx3_id,g->rx3_id,
      g->MinX[0],g->MinX[1],g->MinX[2],g->MaxX[0],g->MaxX[1],g->MaxX[2],g->dx1,g->dx2,g->dx3);
#ifdef STATIC_MESH_REFINEMENT
    fprintf(o,"N %d %d %d %d %d %d\n",nl,nd,g->NCGrid,g->NmyCGrid,g->NPGrid,g->NmyPGrid);
    ovl(o,"C",nl,nd,g->CGrid,g->NCGrid);
    ovl(o,"P",nl,nd,g->PGrid,g->NPGrid);
#endif
  }
}

int main(int argc,char **argv)
{
  char *all,*line,*next; long len; FILE *f=fopen(argv[2],"r"); int out;
  if (!f) return 9;
  fseek(f,0,SEEK_END); len=ftell(f); rewind(f); all=malloc(len+1); if (fread(all,1,len,f)!=(size_t)len) return 9; all[len]=0; fclose(f);
  setvbuf(stdout,NULL,_IOFBF,1<<16);
  printf("nghost %d\n",nghost); fflush(stdout);
  out=dup(1);
  for (line=all; (next=strchr(line,'\n')); line=next+1) {
    int st; pid_t p;
    *next=0;
    p=fork();
    if (p==0) {
      static char *av[200]; int n=0,nr,r; FILE *o=fdopen(out,"w"); static MeshS M;
      setvbuf(o,NULL,_IOFBF,1<<20);
      if (!freopen("/dev/null","w",stdout) || !freopen("/dev/null","w",stderr)) _exit(8);
      alarm(20);
      av[n++]="athena";
      nr=atoi(strtok(line," \n"));
      for (;;) { char *t=strtok(NULL," \n"); if (!t) break; av[n++]=t; }
      par_open(argv[1]);
      par_cmdline(n,av);
#ifdef MPI_PARALLEL
      vm_size=nr;
#endif
      for (r=0;r<nr;r++) {
        memset(&M,0,sizeof M);
#ifdef MPI_PARALLEL
        myID_Comm_world=r;
#endif
        init_mesh(&M);
        init_grid(&M);
        fprintf(o,"R %d\n",r);
        show(o,&M);
        fflush(o);
      }
      _exit(0);
    }
    if (p<0 || waitpid(p,&st,0)<0) return 7;
    dprintf(out,"E %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000+WTERMSIG(st));
  }
  return 0;
}
