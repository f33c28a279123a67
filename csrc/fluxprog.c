/* fluxprog.c: evaluates the interface flux, the conversions and the fast speed for a list of pairs of states. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#include "rsolvers/prototypes.h"
#include "reconstruction/prototypes.h"

/* record: Wl[10] Wr[10] Bx eta   (d Vx Vy Vz P By Bz r0 r1 r2)
   result: Ul[10] Ur[10] F[10] Pflux Wl'[10] cf(Ul) */
static void put(double *o,const Cons1DS *u)
{
  int n; for (n=0;n<10;n++) o[n]=0.0;
  o[0]=u->d; o[1]=u->Mx; o[2]=u->My; o[3]=u->Mz;
#ifndef BAROTROPIC
  o[4]=u->E;
#endif
#ifdef MHD
  o[5]=u->By; o[6]=u->Bz;
#endif
#if (NSCALARS > 0)
  for (n=0;n<NSCALARS;n++) o[7+n]=u->s[n];
#endif
}
static void get(Prim1DS *w,const double *i)
{
  w->d=i[0]; w->Vx=i[1]; w->Vy=i[2]; w->Vz=i[3];
#ifndef BAROTROPIC
  w->P=i[4];
#endif
#ifdef MHD
  w->By=i[5]; w->Bz=i[6];
#endif
#if (NSCALARS > 0)
  { int n; for (n=0;n<NSCALARS;n++) w->r[n]=i[7+n]; }
#endif
}
int main(int argc,char **argv)
{
  FILE *f=fopen(argv[1],"rb"),*g=fopen(argv[2],"wb"); double h[3],in[22],out[42]; long n,q;
  if (!f||!g||fread(h,8,3,f)!=3) return 93;
#ifdef ISOTHERMAL
  Iso_csound=h[1]; Iso_csound2=h[1]*h[1];
#else
  Gamma=h[1]; Gamma_1=Gamma-1.0; Gamma_2=Gamma-2.0;
#endif
  ath_log_set_level(-1,-1);
  n=(long)h[0];
  for (q=0;q<n;q++) {
    Prim1DS Wl,Wr,W; Cons1DS Ul,Ur,F; Real Bx; int k;
    if (fread(in,8,22,f)!=22) return 94;
    memset(out,0,sizeof out); memset(&F,0,sizeof F); memset(&Wl,0,sizeof Wl); memset(&Wr,0,sizeof Wr);
    get(&Wl,in); get(&Wr,in+10); Bx=in[20];
#ifdef H_CORRECTION
    etah=in[21];
#endif
    Ul=Prim1D_to_Cons1D(&Wl,&Bx); Ur=Prim1D_to_Cons1D(&Wr,&Bx);
    put(out,&Ul); put(out+10,&Ur);
    fluxes(Ul,Ur,Wl,Wr,Bx,&F);
    put(out+20,&F);
#ifdef CYLINDRICAL
    out[30]=F.Pflux;
#endif
    W=Cons1D_to_Prim1D(&Ul,&Bx);
    out[31]=W.d; out[32]=W.Vx; out[33]=W.Vy; out[34]=W.Vz;
#ifndef BAROTROPIC
    out[35]=W.P;
#endif
#ifdef MHD
    out[36]=W.By; out[37]=W.Bz;
#endif
#if (NSCALARS > 0)
    for (k=0;k<NSCALARS && k<3;k++) out[38+k]=W.r[k];
#endif
#ifndef SPECIAL_RELATIVITY
    out[41]=cfast(&Ul,&Bx);
    if (cfast_prim(&Wl,&Bx)!=out[41] && fabs(cfast_prim(&Wl,&Bx)/out[41]-1.0)>1e-7) out[41]=-1.0;
#endif
    fwrite(out,8,42,g);
  }
  fclose(g);
  return 0;
}
