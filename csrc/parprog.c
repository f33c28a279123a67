/* parprog.c: executes scripts of parameter-database calls (one child process per script) and prints what they return. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"

static FILE *f;
static char *str(void)
{
  int n; char *s;
  if (fread(&n,4,1,f)!=1) exit(90);
  s=malloc(n+1); if (n && fread(s,1,n,f)!=(size_t)n) exit(91);
  s[n]=0; return s;
}
static void show(const char *t,const char *s){ printf("%s %zu ",t,strlen(s)); fputs(s,stdout); fputc('\n',stdout); }
static void slurp(const char *fn)
{
  FILE *g=fopen(fn,"rb"); long n; char *b;
  fseek(g,0,SEEK_END); n=ftell(g); rewind(g); b=malloc(n+1); if (fread(b,1,n,g)!=(size_t)n) exit(92); fclose(g);
  printf("U %ld ",n); fwrite(b,1,n,stdout); fputc('\n',stdout); free(b);
}
static void write_file(const char *fn,const char *s){ FILE *g=fopen(fn,"wb"); fputs(s,g); fclose(g); }

int main(int argc,char **argv)
{
  int nc,c,no,o; const char *tmp=argv[2]; char fn[600],dn[600];
  sprintf(fn,"%s.in",tmp); sprintf(dn,"%s.dump",tmp);
  f=fopen(argv[1],"rb"); if (!f || fread(&nc,4,1,f)!=1) return 93;
  setvbuf(stdout,NULL,_IOFBF,1<<20);
  for (c=0;c<nc;c++) {
    long start; int st; pid_t p; int len;
    if (fread(&len,4,1,f)!=1) return 94;
    start=ftell(f);
    fflush(stdout);
    p=fork();
    if (p==0) {
      fclose(f); f=fopen(argv[1],"rb"); fseek(f,start,SEEK_SET);
      if (!freopen("/dev/null","w",stderr)) return 95;
      if (fread(&no,4,1,f)!=1) return 96;
      for (o=0;o<no;o++) {
        char *op=str(),*a,*b,*d,*e;
        switch (*op) {
          case 'O': a=str(); write_file(fn,a); par_open(fn); printf("O\n"); break;
          case 'C': { char *av[9]; int n=1,i; a=str(); n+=atoi(a); av[0]="prog"; for(i=1;i<n;i++) av[i]=str();
                      { char *cp[9]; for(i=0;i<n;i++) cp[i]=strdup(av[i]); par_cmdline(n,av); printf("C");
                        for(i=1;i<n;i++) if (strcmp(cp[i],av[i])) printf(" CHANGED"); printf("\n"); } break; }
          case 'E': a=str(); b=str(); printf("E %d\n",par_exist(a,b)); break;
          case 'S': a=str(); b=str(); show("S",par_gets(a,b)); break;
          case 'I': a=str(); b=str(); printf("I %d\n",par_geti(a,b)); break;
          case 'D': a=str(); b=str(); printf("D %.17g\n",par_getd(a,b)); break;
          case 's': a=str(); b=str(); d=str(); show("S",par_gets_def(a,b,d)); break;
          case 'i': a=str(); b=str(); d=str(); printf("I %d\n",par_geti_def(a,b,atoi(d))); break;
          case 'd': a=str(); b=str(); d=str(); printf("D %.17g\n",par_getd_def(a,b,atof(d))); break;
          case '1': a=str(); b=str(); d=str(); e=str(); par_sets(a,b,d,*e?e:NULL); printf("P\n"); break;
          case '2': a=str(); b=str(); d=str(); e=str(); par_seti(a,b,"%d",atoi(d),*e?e:NULL); printf("P\n"); break;
          case '3': a=str(); b=str(); d=str(); e=str(); par_setd(a,b,"%.8e",atof(d),*e?e:NULL); printf("P\n"); break;
          case 'U': a=str(); { FILE *g=fopen(dn,"wb"); par_dump(atoi(a),g); fclose(g); slurp(dn); } break;
          case 'R': { FILE *g=fopen(dn,"wb"); par_dump(2,g); fputs("<job>\nx = 999\n<a>\nx = 888\n",g); fclose(g); par_close(); par_open(dn); printf("R\n"); } break;
          case 'X': par_close(); printf("X\n"); break;
        }
      }
      fflush(stdout); _exit(0);
    }
    waitpid(p,&st,0);
    printf("\n=END %d\n",WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st));
    fseek(f,start+len,SEEK_SET);
  }
  fflush(stdout);
  unlink(fn); unlink(dn);
  return 0;
}
