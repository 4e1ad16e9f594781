/* Linked into the command-line tools together with vfs.c: the environment says which
 * file-system operation fails; how many there were is written when the tool ends. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
void vfs_arm(long k, int m, int e);
long vfs_disarm(void);
int vfs_fired(void);
const char * vfs_kinds(void);
static int on;
__attribute__((constructor)) static void begin(void) {
    const char * s = getenv("VFS_ARM"), * who = getenv("VFS_WHO");
    long k; int m, e;
    if(!s || !getenv("VFS_OUT") || 3 != sscanf(s, "%ld,%d,%d", &k, &m, &e)) return;
    if(who && strcmp(who, program_invocation_short_name)) return;
    on = 1;
    vfs_arm(k, m, e);
}
__attribute__((destructor)) void vfs_report(void) {
    if(!on) return;
    on = 0;
    int f = vfs_fired();
    vfs_disarm();
    char buf[5000];
    int n = snprintf(buf, sizeof(buf), "%s %c %s\n", program_invocation_short_name, f ? f : '-', vfs_kinds());
    int __real_open(const char *, int, ...);
    ssize_t __real_write(int, const void *, size_t);
    int fd = __real_open(getenv("VFS_OUT"), O_WRONLY | O_CREAT | O_APPEND, 0666);
    int __real_close(int);
    if(fd >= 0) { __real_write(fd, buf, n); __real_close(fd); }
}
