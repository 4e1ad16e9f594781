/* Stands between the library and the operating system (linked with --wrap).
 * It can count the operations, make one of them fail or be cut short, end the process at
 * one of them, make threads take turns at them, and log them.  Streams are real stdio
 * streams (fopencookie), so buffering behaves as in the library's own use. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <dirent.h>
#include <pthread.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/types.h>

enum { NONE = 0, FAIL = 1, CUT = 2, KILL_BEFORE = 3, KILL_AFTER = 4, KILL_PART = 5, SHORT = 6 };

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int armed, mode, err_no, fired, full;
static long at, count;
static char kinds[4096];
static char firedkind;
static int yield_us;
static int logfd = -1;
static const char * logtag = "";
static __thread unsigned int yseed;

/* in a tool: tell what happened first */
__attribute__((weak)) void vfs_report(void);
static void die(void) { if(vfs_report) vfs_report(); _exit(99); }
void vfs_arm(long k, int m, int e) { armed = 1; at = k; mode = m; err_no = e; fired = 0; full = 0; count = 0; kinds[0] = 0; firedkind = 0; }
long vfs_disarm(void) { armed = 0; full = 0; return count; }
int vfs_fired(void) { return fired ? firedkind : 0; }
const char * vfs_kinds(void) { return kinds; }
void vfs_yield(int us) { yield_us = us; }
void vfs_log(int fd) { logfd = fd; }

static void note(const char * what, const char * path) {
    if(logfd >= 0) {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        char buf[4400];
        int n = snprintf(buf, sizeof(buf), "%lld.%09ld %s %s\n", (long long) t.tv_sec, t.tv_nsec, what, path);
        ssize_t __real_write(int, const void *, size_t);
        if(n > 0) __real_write(logfd, buf, n);
    }
}

/* simulated ranks (simpi.c) give up their turn here and are watched */
void sim_turn(void) __attribute__((weak));
void sim_open(const char *) __attribute__((weak));
void sim_close(const char *) __attribute__((weak));
void sim_wrote(const char *, long) __attribute__((weak));

static void turn(void) {
    if(sim_turn) sim_turn();
    if(yield_us > 0) {
        if(yseed == 0) yseed = (unsigned int) (size_t) &yseed ^ (unsigned int) pthread_self();
        int r = rand_r(&yseed) % (yield_us + 1);
        if(r % 3 == 0) sched_yield(); else { struct timespec t = {0, r * 1000L}; nanosleep(&t, NULL); }
    }
}

/* returns the mode if the operation is the one chosen */
static int hit(char kind) {
    int r = NONE;
    turn();
    if(!armed) return NONE;
    pthread_mutex_lock(&lock);
    if(count < (long) sizeof(kinds) - 1) { kinds[count] = kind; kinds[count + 1] = 0; }
    if(count == at) { fired = 1; firedkind = kind; r = mode; if(mode == KILL_BEFORE) die(); }
    count ++;
    pthread_mutex_unlock(&lock);
    return r;
}
static void after(int m) { if(m == KILL_AFTER || m == KILL_PART) die(); }

int __real_open(const char *, int, ...);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_pread(int, void *, size_t, off_t);
ssize_t __real_pwrite(int, const void *, size_t, off_t);
off_t __real_lseek(int, off_t, int);
int __real_ftruncate(int, off_t);
int __real_truncate(const char *, off_t);
int __real_mkdir(const char *, mode_t);
int __real_rename(const char *, const char *);
int __real_unlink(const char *);
int __real_fsync(int);
int __real_fileno(FILE *);
int __real_scandir(const char *, struct dirent ***, int (*)(const struct dirent *), int (*)(const struct dirent **, const struct dirent **));

/* --- streams */
typedef struct S { int fd; char * path; FILE * fp; int writes; int eof; char * back; size_t nback; struct S * next; } S;
static S * streams;

static char * path_of(int fd, char * buf) {
    char p[64];
    sprintf(p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(p, buf, 4095);
    buf[n > 0 ? n : 0] = 0;
    return buf;
}

static ssize_t s_read(void * c, char * buf, size_t n) {
    S * s = c;
    int m = hit('R');
    if(m == FAIL) { errno = err_no; return -1; }
    if(s->eof) return 0;
    if(m == CUT) { s->eof = 1; n /= 2; if(n == 0) return 0; }
    if(m == SHORT || m == KILL_PART) { n = n > 1 ? n / 2 : n; }
    ssize_t r = __real_read(s->fd, buf, n);
    after(m);
    return r;
}
static ssize_t put(int fd, const char * buf, size_t n) {
    size_t done = 0;
    while(done < n) {
        ssize_t r = __real_write(fd, buf + done, n - done);
        if(r <= 0) return done;
        done += r;
    }
    return done;
}
static ssize_t s_write(void * c, const char * buf, size_t n) {
    S * s = c;
    int m = hit('W');
    s->writes = 1;
    if(m == FAIL) { errno = err_no; return 0; }
    if(full) { errno = err_no; return 0; }
    if(m == CUT) { full = 1; ssize_t r = put(s->fd, buf, n / 2); errno = err_no; return r; }
    if(m == KILL_PART) { put(s->fd, buf, n / 2); die(); }
    ssize_t r = put(s->fd, buf, n);
    if(sim_wrote && r > 0) sim_wrote(s->path, r);
    after(m);
    return r;
}
static int s_seek(void * c, off64_t * off, int whence) {
    S * s = c;
    int m = hit('S');
    if(m == FAIL || m == CUT) { errno = err_no; return -1; }
    off_t r = __real_lseek(s->fd, *off, whence);
    after(m);
    if(r < 0) return -1;
    *off = r;
    return 0;
}
static int s_close(void * c) {
    S * s = c;
    char p[4096];
    if(logfd >= 0) note("close", path_of(s->fd, p));
    int m = hit(s->writes || s->back ? 'C' : 'c');
    if((m == FAIL || m == CUT) && s->back) {
        /* what was written is lost, as on a remote disk that reports it late */
        if(s->writes) {
            struct stat st;
            int fd2;
            if(0 == fstat(s->fd, &st)) {
                path_of(s->fd, p);
                fd2 = __real_open(p, O_WRONLY);
                if(fd2 >= 0) { __real_ftruncate(fd2, 0); put(fd2, s->back, s->nback); __real_close(fd2); }
            }
        }
    }
    pthread_mutex_lock(&lock);
    S ** q;
    for(q = &streams; *q; q = &(*q)->next) if(*q == s) { *q = s->next; break; }
    pthread_mutex_unlock(&lock);
    int r = __real_close(s->fd);
    if(sim_close) sim_close(s->path);
    free(s->path);
    free(s->back);
    free(s);
    after(m);
    if(m == FAIL || m == CUT) { errno = err_no; return -1; }
    return r;
}
FILE * __wrap_fopen(const char * path, const char * md) {
    int fl = strchr(md, '+') ? O_RDWR : md[0] == 'r' ? O_RDONLY : O_WRONLY;
    if(md[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if(md[0] == 'a') fl |= O_CREAT | O_APPEND;
    if(strchr(md, 'x')) fl |= O_EXCL;
    int m = hit(md[0] == 'w' ? 'T' : 'O');
    if(m == FAIL || m == CUT) { errno = err_no; return NULL; }
    int fd = __real_open(path, fl, 0666);
    after(m);
    if(fd < 0) return NULL;
    S * s = calloc(1, sizeof(S));
    s->fd = fd;
    s->path = strdup(path);
    if(sim_open) sim_open(path);
    if(fl != O_RDONLY && armed) {
        struct stat st;
        s->back = malloc(1);
        int f2 = __real_open(path, O_RDONLY);
        if(f2 >= 0) {
            if(0 == fstat(f2, &st) && st.st_size < (1 << 24)) {
                s->back = realloc(s->back, st.st_size + 1);
                s->nback = __real_pread(f2, s->back, st.st_size, 0);
            }
            __real_close(f2);
        }
    }
    cookie_io_functions_t io = { s_read, s_write, s_seek, s_close };
    FILE * fp = fopencookie(s, md, io);
    if(fp == NULL) { __real_close(fd); free(s->path); free(s->back); free(s); return NULL; }
    s->fp = fp;
    pthread_mutex_lock(&lock);
    s->next = streams; streams = s;
    pthread_mutex_unlock(&lock);
    if(logfd >= 0) { char p[4096]; note(fl == O_RDONLY ? "open-r" : "open-w", path_of(fd, p)); }
    turn();
    return fp;
}
FILE * __wrap_fopen64(const char * path, const char * md) { return __wrap_fopen(path, md); }
int __wrap_fileno(FILE * fp) {
    S * s; int fd = -1;
    pthread_mutex_lock(&lock);
    for(s = streams; s; s = s->next) if(s->fp == fp) fd = s->fd;
    pthread_mutex_unlock(&lock);
    return fd >= 0 ? fd : __real_fileno(fp);
}

/* --- other calls */
#define SIMPLE(kind, call, bad) int m = hit(kind); if(m == FAIL || m == CUT) { errno = err_no; return bad; } __typeof__(call) r = call; after(m); return r;
int __wrap_mkdir(const char * p, mode_t md) { SIMPLE('M', __real_mkdir(p, md), -1) }
int __wrap_rename(const char * a, const char * b) { SIMPLE('N', __real_rename(a, b), -1) }
int __wrap_unlink(const char * a) { SIMPLE('U', __real_unlink(a), -1) }
int __wrap_truncate(const char * a, off_t n) { SIMPLE('T', __real_truncate(a, n), -1) }
int __wrap_ftruncate(int a, off_t n) { SIMPLE('T', __real_ftruncate(a, n), -1) }
int __wrap_fsync(int a) { SIMPLE('F', __real_fsync(a), -1) }
off_t __wrap_lseek(int a, off_t o, int w) { SIMPLE('S', __real_lseek(a, o, w), -1) }
#define MAXFD 1024
static char * fdpath[MAXFD];
int __wrap_close(int fd) {
    int m = hit('c');
    int r = __real_close(fd);
    if(sim_close && fd >= 0 && fd < MAXFD && fdpath[fd]) { sim_close(fdpath[fd]); free(fdpath[fd]); fdpath[fd] = NULL; }
    after(m);
    if(m == FAIL || m == CUT) { errno = err_no; return -1; }
    return r;
}
int __wrap_open(const char * p, int fl, ...) {
    va_list va; va_start(va, fl);
    mode_t md = (fl & O_CREAT) ? va_arg(va, int) : 0;
    va_end(va);
    int m = hit((fl & O_TRUNC) ? 'T' : 'O');
    if(m == FAIL || m == CUT) { errno = err_no; return -1; }
    int r = __real_open(p, fl, md);
    if(sim_open && r >= 0 && r < MAXFD) { free(fdpath[r]); fdpath[r] = strdup(p); sim_open(p); }
    after(m);
    return r;
}
int __wrap_creat(const char * p, mode_t md) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, md); }
ssize_t __wrap_read(int fd, void * b, size_t n) {
    int m = hit('R');
    if(m == FAIL) { errno = err_no; return -1; }
    if(m == CUT || m == SHORT) n = n > 1 ? n / 2 : n;
    ssize_t r = __real_read(fd, b, n); after(m); return r;
}
ssize_t __wrap_pread(int fd, void * b, size_t n, off_t o) {
    int m = hit('R');
    if(m == FAIL) { errno = err_no; return -1; }
    if(m == CUT || m == SHORT) n = n > 1 ? n / 2 : n;
    ssize_t r = __real_pread(fd, b, n, o); after(m); return r;
}
ssize_t __wrap_write(int fd, const void * b, size_t n) {
    int m = hit('W');
    if(m == FAIL || full) { errno = err_no; return -1; }
    if(m == CUT) full = 1;
    if(m == CUT || m == SHORT || m == KILL_PART) n = n > 1 ? n / 2 : n;
    ssize_t r = __real_write(fd, b, n); if(sim_wrote && r > 0 && fd >= 0 && fd < MAXFD && fdpath[fd]) sim_wrote(fdpath[fd], r); after(m); return r;
}
ssize_t __wrap_pwrite(int fd, const void * b, size_t n, off_t o) {
    int m = hit('W');
    if(m == FAIL || full) { errno = err_no; return -1; }
    if(m == CUT) full = 1;
    if(m == CUT || m == SHORT || m == KILL_PART) n = n > 1 ? n / 2 : n;
    ssize_t r = __real_pwrite(fd, b, n, o); if(sim_wrote && r > 0 && fd >= 0 && fd < MAXFD && fdpath[fd]) sim_wrote(fdpath[fd], r); after(m); return r;
}
int __wrap_scandir(const char * d, struct dirent *** nl, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) {
    SIMPLE('D', __real_scandir(d, nl, f, c), -1)
}
