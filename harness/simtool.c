/* Runs a parallel tool on simulated ranks (simpi.c).  Every rank has a copy of the tool of its
 * own (its globals), loaded from a file of its own.  The run takes the whole process: a rank
 * that gives up ends it, as mpirun ends the job. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <mpi.h>
int sim_run(int n, void (*body)(void *, MPI_Comm), void ** data, unsigned long seed, int pol, int str);
int sim_finalized(void);
extern int sim_lenient;

static __thread int tl_optind = 1, tl_optopt, tl_opterr;
static __thread char * tl_optarg, * tl_next;
int * sim_optind(void) { return &tl_optind; }
int * sim_optopt(void) { return &tl_optopt; }
int * sim_opterr(void) { return &tl_opterr; }
char ** sim_optarg(void) { return &tl_optarg; }
/* options come first in the command lines of the harness */
int sim_getopt(int argc, char * const * argv, const char * opts) {
    if(!tl_next || !*tl_next) {
        if(tl_optind >= argc || argv[tl_optind][0] != '-' || !argv[tl_optind][1]) return -1;
        if(0 == strcmp(argv[tl_optind], "--")) { tl_optind ++; return -1; }
        tl_next = argv[tl_optind ++] + 1;
    }
    int c = *tl_next ++;
    const char * q = c == ':' ? NULL : strchr(opts, c);
    tl_optopt = c;
    if(!q) return '?';
    if(q[1] == ':') {
        if(*tl_next) tl_optarg = tl_next;
        else if(tl_optind < argc) tl_optarg = argv[tl_optind ++];
        else { tl_next = NULL; return '?'; }
        tl_next = NULL;
    }
    return c;
}
void vfs_report(void);
static void leave(int code) { vfs_report(); _exit(code); }
void sim_exit(int code) {
    /* a rank that leaves without saying so ends the job as well */
    leave(code != 0 ? 1 : 4);
}
typedef struct { int (*main)(int, char **); int argc; char ** argv; int code; } T;
static void one(void * p, MPI_Comm c) {
    T * t = p;
    t->code = t->main(t->argc, t->argv);
    if(t->code != 0) sim_exit(t->code);
    if(!sim_finalized()) sim_exit(0);
}
/* returns when the job is over: 0, 1 (an error), 3 (the ranks wait for each other) */
int vs_tool(int n, char ** libs, int argc, char ** argv, unsigned long seed, int pol, int strict, const char * var, long value) {
    T t[160]; void * d[160];
    int i;
    sim_lenient = 1;
    for(i = 0; i < n; i ++) {
        void * h = dlopen(libs[i], RTLD_NOW | RTLD_LOCAL);
        if(!h) { fprintf(stderr, "%s\n", dlerror()); return 9; }
        t[i].main = dlsym(h, "tool_main");
        long * v = var && *var ? dlsym(h, var) : NULL;
        if(v) *v = value;
        t[i].argc = argc;
        t[i].argv = calloc(argc + 1, sizeof(char*));
        int k;
        for(k = 0; k < argc; k ++) t[i].argv[k] = strdup(argv[k]);
        t[i].code = 0;
        d[i] = &t[i];
    }
    int r = sim_run(n, one, d, seed, pol, strict);
    vfs_report();
    return r != 0 ? 3 : 0;
}
