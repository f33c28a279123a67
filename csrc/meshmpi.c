/* meshmpi.c: the model MPI of mmpi.c, except that communicator set-up needs no partner: one process plays every rank in turn. */
#define MPI_Comm_size mm_Comm_size
#define MPI_Comm_group mm_Comm_group
#define MPI_Group_incl mm_Group_incl
#define MPI_Comm_create mm_Comm_create
#include "mmpi/mmpi.c"
#undef MPI_Comm_size
#undef MPI_Comm_group
#undef MPI_Group_incl
#undef MPI_Comm_create
int vm_size = 1, vm_n[4096], *vm_w[4096], vm_g = 3;
static int vm_add(int n, const int *w)
{
  if (vm_g >= 4096) exit(77);
  vm_n[vm_g] = n; vm_w[vm_g] = malloc(sizeof(int)*(n+1));
  if (n) memcpy(vm_w[vm_g], w, sizeof(int)*n);
  return vm_g++;
}
int MPI_Comm_size(MPI_Comm c,int *n){ *n = c==MPI_COMM_WORLD ? vm_size : vm_n[c]; return 0; }
int MPI_Comm_group(MPI_Comm c,MPI_Group *g){ int i,*w=malloc(sizeof(int)*(vm_size+1)); for(i=0;i<vm_size;i++) w[i]=i; *g=vm_add(vm_size,w); free(w); return 0; }
int MPI_Group_incl(MPI_Group g,int n,const int *r,MPI_Group *o)
{ int i,k; for(i=0;i<n;i++){ if(r[i]<0||r[i]>=vm_size) exit(78); for(k=0;k<i;k++) if(r[k]==r[i]) exit(79); } *o=vm_add(n,r); return 0; }
int MPI_Comm_create(MPI_Comm c,MPI_Group g,MPI_Comm *o){ *o=g; return 0; }
