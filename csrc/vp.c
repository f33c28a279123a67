/* vp.c: problem generator used by the checks in /verif.
 *
 * It plays the role of a user's problem file.  Initial conditions come from a file (env VP_IC) written by the
 * driver; the complete state is written (env VP_DUMP) through the ordinary problem-generator call-backs, so that
 * the driver can judge it.  Nothing here depends on how the code under test computes anything.
 */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#ifdef PARTICLES
#include "particles/particle.h"
#endif

static int gpot=0; static double g1=0,g2=0,g3=0;
static double usrval = 0.0;

static Real vp_pot(const Real x1, const Real x2, const Real x3)
{
  switch (gpot) {
    case 1: return -(g1*x1 + g2*x2 + g3*x3);
    case 2: return 0.5*(g1*x1*x1 + g2*x2*x2 + g3*x3*x3);
    case 3: return -g1/x1;                     /* cylindrical: central mass in R */
    case 4: return 0.5*g1*g1*x1*x1;            /* cylindrical: solid body */
    case 5: return g1*log(x1);
    case 6: return g1*cos(2.0*PI*x1) + g2*cos(2.0*PI*x2) + g3*cos(2.0*PI*x3);  /* period 1, even about 0, 1/2, 1 */
  }
  return 0.0;
}
#ifdef SHEARING_BOX
static Real vp_shpot(const Real x1, const Real x2, const Real x3)
{
  Real phi=0.0;
#ifndef FARGO
  phi -= qshear*Omega_0*Omega_0*x1*x1;
#endif
  return phi;
}
#endif
#if defined(CYLINDRICAL) && defined(FARGO)
static double fgOm=0, fgq=0;
static Real vp_Om(const Real R) { return fgOm*pow(R,-fgq); }
static Real vp_qs(const Real R) { return fgq; }
#ifndef ISOTHERMAL
Real csxb(void);
Real csxb(void) { return 0.5; }
#endif
#endif
static Real vp_cool(const Real d, const Real p, const Real dt) { return par_getd_def("problem","cool",0.0)*d*p; }

#ifdef RESISTIVITY
void get_eta_user(GridS *pG, int i, int j, int k, Real *eta_O, Real *eta_H, Real *eta_A)
{ *eta_O=0.0; *eta_H=0.0; *eta_A=0.0; }
#endif

static void physics(void)
{
  gpot = par_geti_def("problem","gpot",0);
  g1 = par_getd_def("problem","g1",0.0);
  g2 = par_getd_def("problem","g2",0.0);
  g3 = par_getd_def("problem","g3",0.0);
  if (gpot) StaticGravPot = vp_pot;
  if (par_getd_def("problem","cool",0.0) != 0.0) CoolingFunc = vp_cool;
#ifdef SELF_GRAVITY
  four_pi_G = par_getd_def("problem","four_pi_G",1.0);
  grav_mean_rho = par_getd_def("problem","mean_rho",1.0);
#endif
#ifdef SHEARING_BOX
  Omega_0 = par_getd_def("problem","omega",1.0);
  qshear  = par_getd_def("problem","qshear",1.5);
  ShBoxCoord = par_geti_def("problem","shbox_xz",0) ? xz : xy;
  ShearingBoxPot = vp_shpot;
#endif
#ifdef ROTATING_FRAME
  Omega_0 = par_getd_def("problem","omega",1.0);
#endif
#if defined(CYLINDRICAL) && defined(FARGO)
  fgOm = par_getd_def("problem","fgOm",1.0);
  fgq = par_getd_def("problem","fgq",1.5);
  OrbitalProfile = vp_Om; ShearProfile = vp_qs;
#endif
#ifdef RESISTIVITY
  eta_Ohm = par_getd_def("problem","eta_O",0.0);
  Q_Hall  = par_getd_def("problem","Q_H",0.0);
  Q_AD    = par_getd_def("problem","Q_A",0.0);
  d_ind   = par_getd_def("problem","d_ind",0.0);
#endif
#ifdef VISCOSITY
  nu_iso = par_getd_def("problem","nu_iso",0.0);
  nu_aniso = par_getd_def("problem","nu_aniso",0.0);
#endif
#ifdef THERMAL_CONDUCTION
  kappa_iso = par_getd_def("problem","kappa_iso",0.0);
  kappa_aniso = par_getd_def("problem","kappa_aniso",0.0);
#endif
}

/* ---- user boundary functions (a recognisable constant per face) ---- */
static void ubc(GridS *pG, int dir, int hi, double val)
{
  int i,j,k,n; Real *p;
  int il=pG->is,iu=pG->ie,jl=pG->js,ju=pG->je,kl=pG->ks,ku=pG->ke;
  if (pG->Nx[0]>1 && dir>0) {il-=nghost; iu+=nghost;}
  if (pG->Nx[1]>1 && dir>1) {jl-=nghost; ju+=nghost;}
  if (dir==0) { if(hi){il=pG->ie+1;iu=pG->ie+nghost;} else {il=pG->is-nghost;iu=pG->is-1;} }
  if (dir==1) { if(hi){jl=pG->je+1;ju=pG->je+nghost;} else {jl=pG->js-nghost;ju=pG->js-1;} }
  if (dir==2) { if(hi){kl=pG->ke+1;ku=pG->ke+nghost;} else {kl=pG->ks-nghost;ku=pG->ks-1;} }
  for (k=kl;k<=ku;k++) for (j=jl;j<=ju;j++) for (i=il;i<=iu;i++) {
    p=(Real*)&(pG->U[k][j][i]);
    memset(p,0,sizeof(ConsS));
    pG->U[k][j][i].d = val;
#ifndef BAROTROPIC
    pG->U[k][j][i].E = val/Gamma_1;
#endif
    n=0; (void)n;
  }
}
static void ub0(GridS *g){ubc(g,0,0,1.10);} static void ub1(GridS *g){ubc(g,0,1,1.20);}
static void ub2(GridS *g){ubc(g,1,0,1.30);} static void ub3(GridS *g){ubc(g,1,1,1.40);}
static void ub4(GridS *g){ubc(g,2,0,1.50);} static void ub5(GridS *g){ubc(g,2,1,1.60);}

static void enroll(DomainS *pD)
{
  int m = par_geti_def("problem","ubc",0);
  if (m&1) bvals_mhd_fun(pD,left_x1,ub0);
  if (m&2) bvals_mhd_fun(pD,right_x1,ub1);
  if (m&4) bvals_mhd_fun(pD,left_x2,ub2);
  if (m&8) bvals_mhd_fun(pD,right_x2,ub3);
  if (m&16) bvals_mhd_fun(pD,left_x3,ub4);
  if (m&32) bvals_mhd_fun(pD,right_x3,ub5);
}

static Real uh_d2(const GridS *pG,const int i,const int j,const int k){ return pG->U[k][j][i].d*pG->U[k][j][i].d; }
static Real uh_m(const GridS *pG,const int i,const int j,const int k){ return pG->U[k][j][i].M1-2.0*pG->U[k][j][i].M2; }
static void enroll_hist(void)
{
  static int done=0;
  if (done) return; done=1;
  if (par_geti_def("problem","uhst",0)) { dump_history_enroll(uh_d2,"<d2>"); dump_history_enroll(uh_m,"<m>"); }
}

#ifdef PARTICLES
static void particle_props(void)
{
  int n; char nm[32];
  for (n=0;n<npartypes;n++) {
    sprintf(nm,"tstop%d",n); tstop0[n]=par_getd_def("problem",nm,1.0);
    sprintf(nm,"grrhoa%d",n); grrhoa[n]=par_getd_def("problem",nm,1.0);
#ifdef FEEDBACK
    sprintf(nm,"pmass%d",n); grproperty[n].m=par_getd_def("problem",nm,0.0);
#endif
    sprintf(nm,"prad%d",n); grproperty[n].rad=par_getd_def("problem",nm,par_getd_def("problem","prad",1.0));
    sprintf(nm,"prho%d",n); grproperty[n].rho=par_getd_def("problem",nm,1.0);
  }
  alamcoeff = par_getd_def("problem","alamcoeff",0.0);
#ifdef SHEARING_BOX
  { extern Real vshear; (void)vshear; }
#endif
}
#endif

/* IC file: int32 nlev, ncons, nface; per level int32 n1,n2,n3, double cons[ncons][n3][n2][n1],
 * if nface: B1[n3][n2][n1+1], B2[n3][n2'][n1], B3[n3'][n2][n1] (n' = n+1 if n>1 else n)
 * then int32 npart; per particle double prop,id,x1,x2,x3,v1,v2,v3 */
static void rd(void *p, size_t s, size_t n, FILE *f){ if (fread(p,s,n,f)!=n) ath_error("[vp]: short IC file\n"); }

void problem(DomainS *pD)
{
  GridS *pG = pD->Grid;
  int lev=pD->Level, l, h[3], n[3], nlev, nc, nf, i,j,k,v,ii,jj,kk;
  double *A=NULL,*F[3]={NULL,NULL,NULL};
  FILE *f; const char *fn=getenv("VP_IC");
  physics(); enroll(pD); enroll_hist();
  pG->time = par_getd_def("problem","tgrid",pG->time);
  if (!fn || !(f=fopen(fn,"rb"))) ath_error("[vp]: no IC file\n");
  rd(h,4,3,f); nlev=h[0]; nc=h[1]; nf=h[2];
  for (l=0;l<nlev;l++) {
    size_t m, fs[3]; int q;
    rd(n,4,3,f); m=(size_t)n[0]*n[1]*n[2];
    fs[0]=(size_t)(n[0]+1)*n[1]*n[2];
    fs[1]=(size_t)n[0]*(n[1]>1?n[1]+1:1)*n[2];
    fs[2]=(size_t)n[0]*n[1]*(n[2]>1?n[2]+1:1);
    A=realloc(A,8*m*nc); if(!A) ath_error("[vp]: no memory\n"); rd(A,8,m*nc,f);
    if (nf) for(q=0;q<3;q++){ F[q]=realloc(F[q],8*fs[q]); if(!F[q]) ath_error("[vp]: no memory\n"); rd(F[q],8,fs[q],f); }
    if (l==lev) break;
  }
  if (l!=lev) ath_error("[vp]: level missing in IC\n");
  {
    size_t m=(size_t)n[0]*n[1]*n[2];
    int n2f=n[1]>1?n[1]+1:1, n3f=n[2]>1?n[2]+1:1;
    for (k=pG->ks;k<=pG->ke;k++) for (j=pG->js;j<=pG->je;j++) for (i=pG->is;i<=pG->ie;i++) {
      Real *u=(Real*)&(pG->U[k][j][i]);
      ii=i-pG->is+pG->Disp[0]; jj=j-pG->js+pG->Disp[1]; kk=k-pG->ks+pG->Disp[2];
      for (v=0;v<nc;v++) u[v]=A[v*m+((size_t)kk*n[1]+jj)*n[0]+ii];
    }
#ifdef MHD
    if (nf) {
      int ju=pG->Nx[1]>1?pG->je+1:pG->je, ku=pG->Nx[2]>1?pG->ke+1:pG->ke;
      for (k=pG->ks;k<=pG->ke;k++) for (j=pG->js;j<=pG->je;j++) for (i=pG->is;i<=pG->ie+1;i++) {
        ii=i-pG->is+pG->Disp[0]; jj=j-pG->js+pG->Disp[1]; kk=k-pG->ks+pG->Disp[2];
        pG->B1i[k][j][i]=F[0][((size_t)kk*n[1]+jj)*(n[0]+1)+ii];
      }
      for (k=pG->ks;k<=pG->ke;k++) for (j=pG->js;j<=ju;j++) for (i=pG->is;i<=pG->ie;i++) {
        ii=i-pG->is+pG->Disp[0]; jj=j-pG->js+pG->Disp[1]; kk=k-pG->ks+pG->Disp[2];
        pG->B2i[k][j][i]=F[1][((size_t)kk*n2f+jj)*n[0]+ii];
      }
      for (k=pG->ks;k<=ku;k++) for (j=pG->js;j<=pG->je;j++) for (i=pG->is;i<=pG->ie;i++) {
        ii=i-pG->is+pG->Disp[0]; jj=j-pG->js+pG->Disp[1]; kk=k-pG->ks+pG->Disp[2];
        pG->B3i[k][j][i]=F[2][((size_t)kk*n[1]+jj)*n[0]+ii];
      }
      (void)n3f;
    }
#endif
  }
#ifdef PARTICLES
  {
    int l2,np,q; long cnt=0;
    for (l2=l+1;l2<nlev;l2++){ rd(n,4,3,f); fseek(f,8L*nc*n[0]*n[1]*n[2],SEEK_CUR); }
    rd(&np,4,1,f);
    particle_props();
    for (q=0;q<npartypes;q++) grproperty[q].num=0;
    for (q=0;q<np;q++) {
      double P[8]; GrainS *g;
      rd(P,8,8,f);
      grproperty[(int)P[0]].num++;
      if (pG->Nx[0]>1 && (P[2]<pG->MinX[0] || P[2]>=pG->MaxX[0])) continue;
      if (pG->Nx[1]>1 && (P[3]<pG->MinX[1] || P[3]>=pG->MaxX[1])) continue;
      if (pG->Nx[2]>1 && (P[4]<pG->MinX[2] || P[4]>=pG->MaxX[2])) continue;
      if (cnt+2>pG->arrsize) particle_realloc(pG,cnt+2);
      g=&(pG->particle[cnt++]);
      g->property=(int)P[0]; g->my_id=(long)P[1];
      g->x1=P[2]; g->x2=P[3]; g->x3=P[4]; g->v1=P[5]; g->v2=P[6]; g->v3=P[7];
      g->pos=1;
#ifdef MPI_PARALLEL
      g->init_id=0;
#endif
    }
    pG->nparticle=cnt;
  }
#endif
  free(A); free(F[0]); free(F[1]); free(F[2]);
  fclose(f);
}

static void wi(FILE *f,int v){ fwrite(&v,4,1,f); }
static void wd(FILE *f,double v){ fwrite(&v,8,1,f); }

static void vp_dump(MeshS *pM, int kind, int ghost)
{
  const char *fn=getenv("VP_DUMP"); char buf[600]; FILE *f;
  int nl,nd,ng=0,i,j,k,v;
  if (!fn) return;
  snprintf(buf,sizeof buf,"%s.%d",fn,myID_Comm_world);
  f=fopen(buf,"ab"); if(!f) ath_error("[vp]: cannot open %s\n",buf);
  for (nl=0;nl<pM->NLevels;nl++) for (nd=0;nd<pM->DomainsPerLevel[nl];nd++) if (pM->Domain[nl][nd].Grid) ng++;
  wi(f,0x56504431); wi(f,kind); wi(f,myID_Comm_world); wi(f,pM->nstep); wd(f,pM->time); wd(f,pM->dt); wi(f,ng);
  for (nl=0;nl<pM->NLevels;nl++) for (nd=0;nd<pM->DomainsPerLevel[nl];nd++) {
    GridS *pG=pM->Domain[nl][nd].Grid;
    int gl[3],l[3],u[3],nv,nf=0,np=0;
    if (!pG) continue;
    for (i=0;i<3;i++) gl[i]=(ghost && pG->Nx[i]>1)?nghost:0;
    l[0]=pG->is-gl[0]; u[0]=pG->ie+gl[0]; l[1]=pG->js-gl[1]; u[1]=pG->je+gl[1]; l[2]=pG->ks-gl[2]; u[2]=pG->ke+gl[2];
    nv=sizeof(ConsS)/sizeof(Real);
#ifdef CYLINDRICAL
    nv-=1;
#endif
#ifdef MHD
    nf|=1;
#endif
#ifdef SELF_GRAVITY
    nf|=2;
#endif
#ifdef PARTICLES
    nf|=4;
#endif
    wi(f,nl); wi(f,nd); for(i=0;i<3;i++) wi(f,pG->Disp[i]); for(i=0;i<3;i++) wi(f,pG->Nx[i]);
    for(i=0;i<3;i++) wi(f,gl[i]); wi(f,nv); wi(f,nf); wd(f,pG->time); wd(f,pG->dt);
    for (k=l[2];k<=u[2];k++) for (j=l[1];j<=u[1];j++) for (i=l[0];i<=u[0];i++) {
      Real *p=(Real*)&(pG->U[k][j][i]);
      for (v=0;v<nv;v++) wd(f,p[v]);
    }
#ifdef MHD
    { int e=ghost?0:1;
      for (k=l[2];k<=u[2];k++) for (j=l[1];j<=u[1];j++) for (i=l[0];i<=u[0]+e;i++) wd(f,pG->B1i[k][j][i]);
      for (k=l[2];k<=u[2];k++) for (j=l[1];j<=u[1]+(pG->Nx[1]>1?e:0);j++) for (i=l[0];i<=u[0];i++) wd(f,pG->B2i[k][j][i]);
      for (k=l[2];k<=u[2]+(pG->Nx[2]>1?e:0);k++) for (j=l[1];j<=u[1];j++) for (i=l[0];i<=u[0];i++) wd(f,pG->B3i[k][j][i]);
    }
#endif
#ifdef SELF_GRAVITY
    for (k=l[2];k<=u[2];k++) for (j=l[1];j<=u[1];j++) for (i=l[0];i<=u[0];i++) wd(f,pG->Phi[k][j][i]);
#endif
#ifdef PARTICLES
    { long q; for (q=0;q<pG->nparticle;q++) np++;
      wi(f,np);
      for (q=0;q<pG->nparticle;q++) { GrainS *g=&(pG->particle[q]);
        wd(f,g->property); wd(f,(double)g->my_id); wd(f,g->pos);
        wd(f,g->x1); wd(f,g->x2); wd(f,g->x3); wd(f,g->v1); wd(f,g->v2); wd(f,g->v3);
      } }
#endif
    (void)np;
  }
  fclose(f);
}

void problem_write_restart(MeshS *pM, FILE *fp)
{
  double v = 4242.25 + pM->nstep;
  if (getenv("VP_NOUSER")) return;
  fwrite(&v,sizeof(double),1,fp);
#ifdef PARTICLES
  { int n; for (n=0;n<npartypes;n++) fwrite(&(grproperty[n].num),sizeof(long),1,fp); }
#endif
}
void problem_read_restart(MeshS *pM, FILE *fp)
{
  int nl,nd;
  int nouser = getenv("VP_NOUSER")!=NULL;
  if (nouser) goto common;
  if (fread(&usrval,sizeof(double),1,fp)!=1) ath_error("[vp]: no user data in restart file\n");
  if (fabs(usrval-(4242.25+pM->nstep))>1e-9) ath_error("[vp]: user data in restart file damaged: %g (step %d)\n",usrval,pM->nstep);
common:
  physics(); enroll_hist();
  for (nl=0;nl<pM->NLevels;nl++) for (nd=0;nd<pM->DomainsPerLevel[nl];nd++) enroll(&(pM->Domain[nl][nd]));
#ifdef PARTICLES
  if (!nouser) { int n; long q;
    for (n=0;n<npartypes;n++) if (fread(&q,sizeof(long),1,fp)!=1) ath_error("[vp]: short restart\n");
  }
#endif
}

static Real ue_d(const GridS *pG,const int i,const int j,const int k){ return 100.0+pG->U[k][j][i].d; }
static Real ue_x(const GridS *pG,const int i,const int j,const int k){
  Real x1,x2,x3; cc_pos(pG,i,j,k,&x1,&x2,&x3); return x1+10.0*x2+100.0*x3; }
ConsFun_t get_usr_expr(const char *expr)
{
  if (strcmp(expr,"ud")==0) return ue_d;
  if (strcmp(expr,"ux")==0) return ue_x;
  return NULL;
}
static void out_full(MeshS *pM, OutputS *pOut)
{
  vp_dump(pM,3,1);
}
static void out_note(MeshS *pM, OutputS *pOut)
{
  const char *fn=getenv("VP_NOTE"); FILE *f;
  char buf[600];
  if (!fn) return;
  snprintf(buf,sizeof buf,"%s.%d",fn,myID_Comm_world);
  if ((f=fopen(buf,"a"))) {
    fprintf(f,"%d %d %d %.17g %.17g\n",pOut->n,pOut->num,pM->nstep,pM->time,pOut->t); fclose(f); }
}
VOutFun_t get_usr_out_fun(const char *name)
{
  if (strcmp(name,"vpdump")==0) return out_full;
  if (strcmp(name,"vpnote")==0) return out_note;
  return NULL;
}
#ifdef PARTICLES
static int pp_odd(const GrainS *gr, const GrainAux *aux) { return gr->my_id%2==1; }
PropFun_t get_usr_par_prop(const char *name) { return strcmp(name,"odd")==0 ? pp_odd : NULL; }
void gasvshift(const Real x1, const Real x2, const Real x3, Real *u1, Real *u2, Real *u3) { }
void Userforce_particle(Real3Vect *ft, const Real x1, const Real x2, const Real x3,
                        const Real v1, const Real v2, const Real v3)
{
  static int init=0; static double a1,a2,a3;
  if (!init) { init=1; a1=par_getd_def("problem","pf1",0.0); a2=par_getd_def("problem","pf2",0.0); a3=par_getd_def("problem","pf3",0.0); }
  ft->x1+=a1; ft->x2+=a2; ft->x3+=a3;
}
#endif

void Userwork_in_loop(MeshS *pM)
{
  static int mode=-1, ks=-1, kr=-1, sg=0; const char *e;
  if (mode<0) {
    mode=(e=getenv("VP_DUMP_MODE"))?atoi(e):2;
    if ((e=getenv("VP_KILL"))) sscanf(e,"%d:%d:%d",&kr,&ks,&sg);
  }
  if (mode&1) vp_dump(pM,1,0);
  if (pM->nstep==0 && par_exist("problem","tgrid")) pM->time = par_getd("problem","tgrid");
  if (ks==pM->nstep && (kr==myID_Comm_world || kr<0)) raise(sg);
}

void Userwork_after_loop(MeshS *pM)
{
  const char *e=getenv("VP_DUMP_MODE"); int mode=e?atoi(e):2;
  if (mode&2) vp_dump(pM,2,0);
  if (mode&4) vp_dump(pM,2,1);
}
