/* MPI with simulated ranks.  Every rank is a thread, exactly one of them runs at a time, and
 * at every MPI call and file-system operation the next one is chosen by the harness: the run
 * is a function of the seed, and a deadlock is noticed at once.  Erroneous MPI calls
 * (collectives that do not match, messages longer than the place for them) end the process. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <ctype.h>
#include <time.h>
#include "mpi.h"

#define MAXR 160
struct simpi_type { size_t size; int kind; };
struct simpi_type simpi_t[] = { {1, 1}, {1, 2}, {2, 3}, {2, 4}, {4, 5}, {4, 6}, {8, 7}, {8, 8}, {4, 9}, {8, 10}, {8, 11}, {16, 12}, {16, 13} };
MPI_Datatype simpi_type(int k) { return &simpi_t[k]; }

typedef struct inst { long seq; int kind, root, arrived, left; struct { char * data; size_t n; const int * c; size_t aux; char here; } part[MAXR]; void * extra; struct inst * next; } inst;
typedef struct msg { int src, dst, tag; char * data; size_t n; struct simpi_req * req; int taken; struct msg * next; } msg;
struct simpi_group { int n; inst * insts; msg * msgs, * last; struct simpi_req * posted; };
struct simpi_comm { struct simpi_group * g; int rank; long seq; };
struct simpi_req { int done, send, src, dst, tag; void * buf; size_t n, got; int from, ftag; struct simpi_group * g; struct simpi_req * next; };

/* --- the ranks */
typedef struct { int id, done, held, blocked; int (*pred)(void *); void * arg; pthread_cond_t cond; MPI_Comm world; void (*body)(void *, MPI_Comm); void * data; } rank_t;
static rank_t R[MAXR];
static int N, cur = -1, dead, policy, strict, maxheld;
static unsigned long rstate;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t maincond = PTHREAD_COND_INITIALIZER;
static __thread rank_t * me;
static long steps, maxsteps = 2000000;
int sim_lenient;        /* a tool may end with messages under way */
static __thread int finalized;
int sim_finalized(void) { return finalized; }
void sim_exit(int) __attribute__((weak));

static unsigned int rnd(void) {
    rstate ^= rstate << 13; rstate ^= rstate >> 7; rstate ^= rstate << 17;
    return (unsigned int) (rstate >> 16);
}
static void fatal(const char * what) {
    fprintf(stderr, "simpi: %s\n", what);
    abort();
}
static int ready(rank_t * r) { return !r->done && (!r->blocked || r->pred(r->arg)); }

/* the rank that goes on, or -1 */
static int choose(void) {
    int c[MAXR], n = 0, i;
    for(i = 0; i < N; i ++) if(ready(&R[i])) c[n ++] = i;
    if(n == 0) return -1;
    if(policy == 2) return c[0];
    if(policy == 3) return c[n - 1];
    if(policy == 1) {       /* those with open files wait as long as another can go on */
        int d[MAXR], m = 0;
        for(i = 0; i < n; i ++) if(R[c[i]].held == 0) d[m ++] = c[i];
        if(m > 0) return d[rnd() % m];
    }
    if(policy == 4) {       /* stay with one for a while */
        for(i = 0; i < n; i ++) if(c[i] == cur && rnd() % 8) return cur;
    }
    return c[rnd() % n];
}
/* with mu held; returns when it is the turn of r */
static void pass_on(rank_t * r) {
    int k = choose();
    int all = 1, i;
    if(++steps > maxsteps) { dead = 2; k = -1; }
    for(i = 0; i < N; i ++) if(!R[i].done) all = 0;
    if(k < 0 || all) {
        if(!all && !dead) dead = 1;
        cur = -1;
        pthread_cond_signal(&maincond);
    } else {
        cur = k;
        if(r != &R[k]) pthread_cond_signal(&R[k].cond);
    }
    if(r->done) return;
    while(cur != r->id) pthread_cond_wait(&r->cond, &mu);
}
void sim_turn(void) {
    if(!me) return;
    pthread_mutex_lock(&mu);
    pass_on(me);
    pthread_mutex_unlock(&mu);
}
static void block(int (*pred)(void *), void * arg) {
    if(!me) { if(!pred(arg)) fatal("MPI call outside of the ranks would wait forever"); return; }
    pthread_mutex_lock(&mu);
    me->pred = pred; me->arg = arg; me->blocked = 1;
    pass_on(me);
    me->blocked = 0;
    pthread_mutex_unlock(&mu);
}
static int isdata(const char * p) {
    const char * b = strrchr(p, '/');
    size_t n;
    b = b ? b + 1 : p;
    for(n = 0; b[n]; n ++) if(!isxdigit((unsigned char) b[n])) return 0;
    return n >= 6;
}
void sim_open(const char * path) {
    int i, k = 0;
    if(!me || !isdata(path)) return;
    me->held ++;
    for(i = 0; i < N; i ++) if(R[i].held > 0) k ++;
    if(k > maxheld) maxheld = k;
}
void sim_close(const char * path) { if(me && isdata(path) && me->held > 0) me->held --; }
int sim_maxheld(void) { return maxheld; }
static long wrote;
void sim_wrote(const char * path, long n) { if(me && isdata(path)) wrote += n; }
long sim_bytes(void) { return wrote; }

static void * thread(void * p) {
    rank_t * r = p;
    me = r;
    pthread_mutex_lock(&mu);
    while(cur != r->id) pthread_cond_wait(&r->cond, &mu);
    pthread_mutex_unlock(&mu);
    r->body(r->data, r->world);
    pthread_mutex_lock(&mu);
    r->done = 1;
    pass_on(r);
    pthread_mutex_unlock(&mu);
    return NULL;
}
/* runs body(data[i], comm) on every rank; 0, or 1 for a deadlock (the process is of no use then) */
int sim_run(int n, void (*body)(void *, MPI_Comm), void ** data, unsigned long seed, int pol, int str) {
    pthread_t t[MAXR];
    int i;
    struct simpi_group * g = calloc(1, sizeof(*g));
    g->n = n;
    N = n; dead = 0; policy = pol; strict = str; maxheld = 0; wrote = 0; steps = 0;
    rstate = seed * 2654435761ul + 88172645463325252ul;
    for(i = 0; i < 5; i ++) rnd();
    for(i = 0; i < n; i ++) {
        memset(&R[i], 0, sizeof(R[i]));
        R[i].id = i; R[i].body = body; R[i].data = data[i];
        pthread_cond_init(&R[i].cond, NULL);
        R[i].world = calloc(1, sizeof(struct simpi_comm));
        R[i].world->g = g; R[i].world->rank = i;
    }
    cur = -1;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 4 << 20);
    for(i = 0; i < n; i ++) pthread_create(&t[i], &a, thread, &R[i]);
    pthread_attr_destroy(&a);
    pthread_mutex_lock(&mu);
    cur = choose();
    pthread_cond_signal(&R[cur].cond);
    while(cur != -1) pthread_cond_wait(&maincond, &mu);
    pthread_mutex_unlock(&mu);
    if(dead) return dead;
    for(i = 0; i < n; i ++) pthread_join(t[i], NULL);
    for(i = 0; i < n; i ++) free(R[i].world);
    if(g->insts && !sim_lenient) fatal("a collective call is unfinished");
    if(g->msgs && !sim_lenient) fatal("a message was not received");
    free(g);
    return 0;
}
MPI_Comm simpi_world(void) { if(!me) fatal("no world"); return me->world; }
MPI_Comm simpi_self(void) {
    static __thread struct simpi_comm * c;
    if(!c) { c = calloc(1, sizeof(*c)); c->g = calloc(1, sizeof(*c->g)); c->g->n = 1; }
    return c;
}

/* --- collectives: the parts are copied when a rank arrives */
static inst * arrive(MPI_Comm c, int kind, int root, const void * data, size_t n) {
    if(c == NULL) fatal("MPI call with a null communicator");
    sim_turn();
    struct simpi_group * g = c->g;
    inst * i;
    for(i = g->insts; i; i = i->next) if(i->seq == c->seq) break;
    if(!i) {
        i = calloc(1, sizeof(*i));
        i->seq = c->seq; i->kind = kind; i->root = root;
        i->next = g->insts; g->insts = i;
    }
    c->seq ++;
    if(i->kind != kind) fatal("ranks are in different collective calls");
    if(i->root != root) fatal("ranks name different roots");
    i->arrived ++;
    i->part[c->rank].here = 1;
    if(n && data && data != MPI_IN_PLACE) {
        i->part[c->rank].data = malloc(n);
        memcpy(i->part[c->rank].data, data, n);
    }
    i->part[c->rank].n = n;
    return i;
}
static void leave(MPI_Comm c, inst * i) {
    inst ** q;
    int k;
    if(++i->left < c->g->n) return;
    for(q = &c->g->insts; *q != i; q = &(*q)->next);
    *q = i->next;
    for(k = 0; k < c->g->n; k ++) free(i->part[k].data);
    free(i->extra);
    free(i);
}
typedef struct { inst * i; int n; } waitarg;
static int p_all(void * a) { waitarg * w = a; return w->i->arrived >= w->n; }
static int p_root(void * a) { waitarg * w = a; return w->i->part[w->n].here; }
static void all(MPI_Comm c, inst * i) { waitarg w = {i, c->g->n}; block(p_all, &w); }
static void wait_for(inst * i, int r) { waitarg w = {i, r}; block(p_root, &w); }
static void need(size_t have, size_t get) { if(get > have) fatal("message truncated"); }

int MPI_Comm_rank(MPI_Comm c, int * r) { if(!c) fatal("MPI_Comm_rank of a null communicator"); *r = c->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int * n) { if(!c) fatal("MPI_Comm_size of a null communicator"); *n = c->g->n; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int * r) { *r = a == b ? MPI_IDENT : 3; return 0; }
enum { BARRIER = 1, BCAST, REDUCE, ALLREDUCE, SCAN, EXSCAN, GATHER, SCATTER, ALLGATHER, ALLTOALL, SPLIT };

int MPI_Barrier(MPI_Comm c) { inst * i = arrive(c, BARRIER, 0, NULL, 0); all(c, i); leave(c, i); return 0; }
int MPI_Bcast(void * buf, int n, MPI_Datatype t, int root, MPI_Comm c) {
    if(root < 0 || root >= c->g->n) fatal("bad root");
    inst * i = arrive(c, BCAST, root, c->rank == root ? buf : NULL, n * t->size);
    if(strict) all(c, i);
    if(c->rank != root) {
        wait_for(i, root);
        need(n * t->size, i->part[root].n);
        if(i->part[root].n) memcpy(buf, i->part[root].data, i->part[root].n);
    }
    leave(c, i);
    return 0;
}
#define OP(T) { T * d = dst; const T * s = src; for(k = 0; k < n; k ++) switch(op) { \
    case MPI_SUM: d[k] += s[k]; break; case MPI_PROD: d[k] *= s[k]; break; \
    case MPI_MAX: if(s[k] > d[k]) d[k] = s[k]; break; case MPI_MIN: if(s[k] < d[k]) d[k] = s[k]; break; \
    case MPI_LAND: d[k] = d[k] && s[k]; break; case MPI_LOR: d[k] = d[k] || s[k]; break; case MPI_LXOR: d[k] = !d[k] != !s[k]; break; \
    default: bits = 1; } \
    if(!bits) return 0; }
#define BOP(T) { T * d = dst; const T * s = src; for(k = 0; k < n; k ++) switch(op) { \
    case MPI_BAND: d[k] &= s[k]; break; case MPI_BOR: d[k] |= s[k]; break; case MPI_BXOR: d[k] ^= s[k]; break; default: fatal("reduction"); } return 0; }
#define LOC(A, B) { struct { A v; B i; } * d = dst; const struct { A v; B i; } * s = src; for(k = 0; k < n; k ++) \
    if((op == MPI_MAXLOC ? s[k].v > d[k].v : s[k].v < d[k].v) || (s[k].v == d[k].v && s[k].i < d[k].i)) { d[k].v = s[k].v; d[k].i = s[k].i; } return 0; }
int MPI_Reduce_local(const void * src, void * dst, int n, MPI_Datatype t, MPI_Op op) {
    int k, bits = 0;
    if(n == 0) return 0;
    if(t->kind >= 11) { switch(t->kind) { case 11: LOC(int, int) case 12: LOC(long, int) case 13: LOC(double, int) } }
    switch(t->kind) {
        case 1: OP(signed char) BOP(signed char) case 2: OP(unsigned char) BOP(unsigned char)
        case 3: OP(short) BOP(short) case 4: OP(unsigned short) BOP(unsigned short)
        case 5: OP(int) BOP(int) case 6: OP(unsigned int) BOP(unsigned int)
        case 7: OP(long) BOP(long) case 8: OP(unsigned long) BOP(unsigned long)
        case 9: OP(float) fatal("reduction"); case 10: OP(double) fatal("reduction");
        default: fatal("reduction of a derived type");
    }
    return 0;
}
static void * mine(const void * send, void * recv) { return (void*) (send == MPI_IN_PLACE ? recv : send); }
static void fold(inst * i, int from, int to, void * out, int n, MPI_Datatype t, MPI_Op op) {
    int k;
    for(k = from; k < to; k ++) {
        if(i->part[k].n != n * t->size) fatal("ranks reduce different counts");
        if(n == 0) continue;
        if(k == from) memcpy(out, i->part[k].data, n * t->size);
        else MPI_Reduce_local(i->part[k].data, out, n, t, op);
    }
}
int MPI_Reduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    inst * i = arrive(c, REDUCE, root, mine(s, r), n * t->size);
    if(strict || c->rank == root) all(c, i);
    if(c->rank == root) fold(i, 0, c->g->n, r, n, t, op);
    leave(c, i);
    return 0;
}
int MPI_Allreduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    inst * i = arrive(c, ALLREDUCE, 0, mine(s, r), n * t->size);
    all(c, i);
    fold(i, 0, c->g->n, r, n, t, op);
    leave(c, i);
    return 0;
}
int MPI_Scan(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    inst * i = arrive(c, SCAN, 0, mine(s, r), n * t->size);
    all(c, i);
    fold(i, 0, c->rank + 1, r, n, t, op);
    leave(c, i);
    return 0;
}
int MPI_Exscan(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    inst * i = arrive(c, EXSCAN, 0, mine(s, r), n * t->size);
    all(c, i);
    if(c->rank > 0) fold(i, 0, c->rank, r, n, t, op);
    leave(c, i);
    return 0;
}
static int gatherall(int kind, int root, const void * s, int ns, MPI_Datatype ts, void * r, const int * counts, const int * displs, int nr, MPI_Datatype tr, MPI_Comm c) {
    int in = s == MPI_IN_PLACE, k, get = root < 0 || c->rank == root;
    size_t n;
    const char * src = s;
    if(in) {    /* its part is in place already */
        n = (counts ? counts[c->rank] : nr) * tr->size;
        src = (char*) r + (displs ? displs[c->rank] : (size_t) nr * c->rank) * tr->size;
    } else n = ns * ts->size;
    inst * i = arrive(c, kind, root, src, n);
    if(strict || get) all(c, i);
    if(get) for(k = 0; k < c->g->n; k ++) {
        size_t have = (counts ? counts[k] : nr) * tr->size;
        need(have, i->part[k].n);
        if(i->part[k].n != have) fatal("gathered counts differ");
        if(have && !(in && k == c->rank)) memcpy((char*) r + (displs ? displs[k] : (size_t) nr * k) * tr->size, i->part[k].data, have);
    }
    leave(c, i);
    return 0;
}
int MPI_Gather(const void * s, int ns, MPI_Datatype ts, void * r, int nr, MPI_Datatype tr, int root, MPI_Comm c) { return gatherall(GATHER, root, s, ns, ts, r, NULL, NULL, nr, tr, c); }
int MPI_Gatherv(const void * s, int ns, MPI_Datatype ts, void * r, const int * rc, const int * rd, MPI_Datatype tr, int root, MPI_Comm c) { return gatherall(GATHER, root, s, ns, ts, r, rc, rd, 0, tr, c); }
int MPI_Allgather(const void * s, int ns, MPI_Datatype ts, void * r, int nr, MPI_Datatype tr, MPI_Comm c) { return gatherall(ALLGATHER, -1, s, ns, ts, r, NULL, NULL, nr, tr, c); }
int MPI_Allgatherv(const void * s, int ns, MPI_Datatype ts, void * r, const int * rc, const int * rd, MPI_Datatype tr, MPI_Comm c) { return gatherall(ALLGATHER, -1, s, ns, ts, r, rc, rd, 0, tr, c); }
static int scatterall(int root, const void * s, const int * counts, const int * displs, int ns, MPI_Datatype ts, void * r, int nr, MPI_Datatype tr, MPI_Comm c) {
    inst * i;
    int k;
    if(c->rank == root) {   /* the root leaves a copy of everyone's part: data, and where it begins */
        size_t total = 0, at = 0, n;
        for(k = 0; k < c->g->n; k ++) total += (counts ? counts[k] : ns) * ts->size;
        char * buf = malloc(total + 1);
        size_t * off = malloc(sizeof(size_t) * (c->g->n + 1));
        for(k = 0; k < c->g->n; k ++) {
            n = (counts ? counts[k] : ns) * ts->size;
            off[k] = at;
            if(n) memcpy(buf + at, (char*) s + (displs ? displs[k] : (size_t) ns * k) * ts->size, n);
            at += n;
        }
        off[k] = at;
        i = arrive(c, SCATTER, root, buf, total);
        i->extra = off;
        free(buf);
    } else i = arrive(c, SCATTER, root, NULL, 0);
    if(strict) all(c, i);
    wait_for(i, root);
    size_t * off = i->extra;
    size_t n = off[c->rank + 1] - off[c->rank];
    if(r != MPI_IN_PLACE) {
        need(nr * tr->size, n);
        if(n != nr * tr->size) fatal("scattered counts differ");
        if(n) memcpy(r, i->part[root].data + off[c->rank], n);
    }
    leave(c, i);
    return 0;
}
int MPI_Scatter(const void * s, int ns, MPI_Datatype ts, void * r, int nr, MPI_Datatype tr, int root, MPI_Comm c) { return scatterall(root, s, NULL, NULL, ns, ts, r, nr, tr, c); }
int MPI_Scatterv(const void * s, const int * sc, const int * sd, MPI_Datatype ts, void * r, int nr, MPI_Datatype tr, int root, MPI_Comm c) { return scatterall(root, s, sc, sd, 0, ts, r, nr, tr, c); }

typedef struct { size_t off, n; } piece;
static int a2a(const void * s, const int * sc, const int * sd, int ns, MPI_Datatype ts, void * r, const int * rc, const int * rd, int nr, MPI_Datatype tr, MPI_Comm c) {
    int n = c->g->n, k;
    size_t total = n * sizeof(piece), at;
    if(s == MPI_IN_PLACE) fatal("in place");
    for(k = 0; k < n; k ++) total += (sc ? sc[k] : ns) * ts->size;
    char * buf = malloc(total);
    piece * p = (piece*) buf;
    at = n * sizeof(piece);
    for(k = 0; k < n; k ++) {
        p[k].n = (sc ? sc[k] : ns) * ts->size; p[k].off = at;
        if(p[k].n) memcpy(buf + at, (char*) s + (sd ? sd[k] : (size_t) ns * k) * ts->size, p[k].n);
        at += p[k].n;
    }
    inst * i = arrive(c, ALLTOALL, 0, buf, total);
    free(buf);
    all(c, i);
    for(k = 0; k < n; k ++) {
        piece * q = (piece*) i->part[k].data + c->rank;
        size_t have = (rc ? rc[k] : nr) * tr->size;
        need(have, q->n);
        if(have != q->n) fatal("exchanged counts differ");
        if(have) memcpy((char*) r + (rd ? rd[k] : (size_t) nr * k) * tr->size, i->part[k].data + q->off, have);
    }
    leave(c, i);
    return 0;
}
int MPI_Alltoall(const void * s, int ns, MPI_Datatype ts, void * r, int nr, MPI_Datatype tr, MPI_Comm c) { return a2a(s, NULL, NULL, ns, ts, r, NULL, NULL, nr, tr, c); }
int MPI_Alltoallv(const void * s, const int * sc, const int * sd, MPI_Datatype ts, void * r, const int * rc, const int * rd, MPI_Datatype tr, MPI_Comm c) { return a2a(s, sc, sd, 0, ts, r, rc, rd, 0, tr, c); }

typedef struct { int color, key, rank; } splitter;
static int bykey(const void * a, const void * b) {
    const splitter * x = a, * y = b;
    return x->key != y->key ? (x->key < y->key ? -1 : 1) : x->rank - y->rank;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm * out) {
    splitter s = {color, key, c->rank};
    inst * i = arrive(c, SPLIT, 0, &s, sizeof(s));
    all(c, i);
    int n = c->g->n, k, m = 0, j;
    /* the first one back makes the groups */
    struct simpi_group ** gs = i->extra;
    if(!gs) i->extra = gs = calloc(n, sizeof(*gs));
    splitter * w = malloc(sizeof(splitter) * n);
    for(k = 0; k < n; k ++) {
        splitter * q = (splitter*) i->part[k].data;
        if(q->color == color) w[m ++] = *q;
    }
    qsort(w, m, sizeof(*w), bykey);
    *out = NULL;
    if(color != MPI_UNDEFINED) {
        int low = w[0].rank;
        for(j = 0; j < m; j ++) if(w[j].rank < low) low = w[j].rank;
        if(!gs[low]) { gs[low] = calloc(1, sizeof(**gs)); gs[low]->n = m; }
        *out = calloc(1, sizeof(**out));
        (*out)->g = gs[low];
        for(j = 0; j < m; j ++) if(w[j].rank == c->rank) (*out)->rank = j;
    }
    free(w);
    leave(c, i);
    return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm * out) { return MPI_Comm_split(c, 0, c->rank, out); }
int MPI_Comm_free(MPI_Comm * c) { if(!*c) fatal("freeing a null communicator"); free(*c); *c = NULL; return 0; }

/* --- messages */
static void deliver(struct simpi_req * r, msg * m) {
    need(r->n, m->n);
    if(m->n) memcpy(r->buf, m->data, m->n);
    r->got = m->n; r->from = m->src; r->ftag = m->tag; r->done = 1;
    if(m->req) m->req->done = 1;
}
static int fits(struct simpi_req * r, msg * m) { return r->dst == m->dst && (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
static void post_send(MPI_Comm c, const void * b, size_t n, int dst, int tag, struct simpi_req * req, int sync) {
    msg * m = calloc(1, sizeof(*m));
    struct simpi_req ** q;
    if(dst < 0 || dst >= c->g->n) fatal("bad rank");
    m->src = c->rank; m->dst = dst; m->tag = tag; m->n = n; m->data = malloc(n + 1); m->req = req;
    memcpy(m->data, b, n);
    if(!sync) { req->done = 1; m->req = NULL; }
    for(q = &c->g->posted; *q; q = &(*q)->next) if(fits(*q, m)) {
        struct simpi_req * r = *q;
        *q = r->next;
        deliver(r, m);
        free(m->data); free(m);
        return;
    }
    if(c->g->last && c->g->msgs) c->g->last->next = m; else c->g->msgs = m;
    c->g->last = m;
}
static void post_recv(MPI_Comm c, struct simpi_req * r) {
    msg ** q, * prev = NULL;
    for(q = &c->g->msgs; *q; prev = *q, q = &(*q)->next) if(fits(r, *q)) {
        msg * m = *q;
        *q = m->next;
        if(c->g->last == m) c->g->last = prev;
        deliver(r, m);
        free(m->data); free(m);
        return;
    }
    struct simpi_req ** p;
    for(p = &c->g->posted; *p; p = &(*p)->next);
    *p = r; r->next = NULL;
}
static MPI_Request newreq(MPI_Comm c, int send, int src, int dst, int tag, void * buf, size_t n) {
    MPI_Request r = calloc(1, sizeof(*r));
    r->send = send; r->src = src; r->dst = dst; r->tag = tag; r->buf = buf; r->n = n; r->g = c->g;
    return r;
}
static int isend(const void * b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request * q, int sync) {
    sim_turn();
    *q = newreq(c, 1, c->rank, dst, tag, NULL, 0);
    if(dst == MPI_PROC_NULL) { (*q)->done = 1; return 0; }
    post_send(c, b, n * t->size, dst, tag, *q, sync);
    return 0;
}
int MPI_Isend(const void * b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request * q) { return isend(b, n, t, dst, tag, c, q, strict); }
int MPI_Issend(const void * b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request * q) { return isend(b, n, t, dst, tag, c, q, 1); }
int MPI_Irecv(void * b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request * q) {
    sim_turn();
    *q = newreq(c, 0, src, c->rank, tag, b, n * t->size);
    if(src == MPI_PROC_NULL) { (*q)->done = 1; return 0; }
    post_recv(c, *q);
    return 0;
}
static int p_done(void * a) { return ((MPI_Request) a)->done; }
int MPI_Wait(MPI_Request * q, MPI_Status * st) {
    if(*q == NULL) return 0;
    block(p_done, *q);
    if(st) { st->MPI_SOURCE = (*q)->from; st->MPI_TAG = (*q)->ftag; st->bytes = (*q)->got; st->MPI_ERROR = 0; }
    free(*q);
    *q = NULL;
    return 0;
}
int MPI_Waitall(int n, MPI_Request * q, MPI_Status * st) {
    int k;
    for(k = 0; k < n; k ++) MPI_Wait(&q[k], st ? &st[k] : NULL);
    return 0;
}
typedef struct { MPI_Request * q; int n; } anyarg;
static int p_any(void * a) { anyarg * w = a; int k; for(k = 0; k < w->n; k ++) if(w->q[k] && w->q[k]->done) return 1; return 0; }
int MPI_Waitany(int n, MPI_Request * q, int * idx, MPI_Status * st) {
    anyarg w = {q, n};
    int k, have = 0;
    for(k = 0; k < n; k ++) if(q[k]) have = 1;
    *idx = MPI_UNDEFINED;
    if(!have) return 0;
    block(p_any, &w);
    for(k = 0; k < n; k ++) if(q[k] && q[k]->done) { *idx = k; return MPI_Wait(&q[k], st); }
    return 0;
}
int MPI_Test(MPI_Request * q, int * flag, MPI_Status * st) { sim_turn(); *flag = !*q || (*q)->done; return *flag ? MPI_Wait(q, st) : 0; }
int MPI_Testall(int n, MPI_Request * q, int * flag, MPI_Status * st) {
    int k;
    sim_turn();
    *flag = 1;
    for(k = 0; k < n; k ++) if(q[k] && !q[k]->done) *flag = 0;
    return *flag ? MPI_Waitall(n, q, st) : 0;
}
int MPI_Send(const void * b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { MPI_Request q; isend(b, n, t, dst, tag, c, &q, strict); return MPI_Wait(&q, NULL); }
int MPI_Ssend(const void * b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { MPI_Request q; isend(b, n, t, dst, tag, c, &q, 1); return MPI_Wait(&q, NULL); }
int MPI_Recv(void * b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status * st) { MPI_Request q; MPI_Irecv(b, n, t, src, tag, c, &q); return MPI_Wait(&q, st); }
int MPI_Sendrecv(const void * sb, int sn, MPI_Datatype stt, int dst, int stag, void * rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status * st) {
    MPI_Request a, b;
    MPI_Irecv(rb, rn, rt, src, rtag, c, &a);
    isend(sb, sn, stt, dst, stag, c, &b, strict);
    MPI_Wait(&a, st);
    return MPI_Wait(&b, NULL);
}
typedef struct { MPI_Comm c; int src, tag; msg * m; } probearg;
static int p_probe(void * a) {
    probearg * w = a;
    struct simpi_req r = {0};
    r.src = w->src; r.tag = w->tag; r.dst = w->c->rank;
    for(w->m = w->c->g->msgs; w->m; w->m = w->m->next) if(fits(&r, w->m)) return 1;
    return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int * flag, MPI_Status * st) {
    probearg w = {c, src, tag, NULL};
    sim_turn();
    *flag = p_probe(&w);
    if(*flag && st) { st->MPI_SOURCE = w.m->src; st->MPI_TAG = w.m->tag; st->bytes = w.m->n; }
    return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status * st) {
    probearg w = {c, src, tag, NULL};
    int f;
    block(p_probe, &w);
    return MPI_Iprobe(src, tag, c, &f, st);
}
int MPI_Get_count(const MPI_Status * st, MPI_Datatype t, int * n) { *n = t->size ? st->bytes / t->size : 0; return 0; }

/* --- the rest */
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype * out) { *out = calloc(1, sizeof(**out)); (*out)->size = n * t->size; (*out)->kind = 0; return 0; }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype * out) { return MPI_Type_contiguous(1, t, out); }
int MPI_Type_commit(MPI_Datatype * t) { return 0; }
int MPI_Type_free(MPI_Datatype * t) { free(*t); *t = NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int * n) { *n = t->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint * lb, MPI_Aint * ext) { *lb = 0; *ext = t->size; return 0; }
int MPI_Init(int * a, char *** b) { return 0; }
int MPI_Init_thread(int * a, char *** b, int c, int * d) { if(d) *d = c; return 0; }
int MPI_Finalize(void) { finalized = 1; return 0; }
int MPI_Initialized(int * f) { *f = 1; return 0; }
int MPI_Finalized(int * f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm c, int e) { if(sim_lenient && sim_exit) sim_exit(e ? e : 1); fatal("MPI_Abort"); return 0; }
double MPI_Wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
int MPI_Get_processor_name(char * s, int * n) { strcpy(s, "sim"); *n = 3; return 0; }
int MPI_Error_string(int e, char * s, int * n) { strcpy(s, "error"); *n = 5; return 0; }
