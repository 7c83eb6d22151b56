// Preloaded into the R04 monitor: while it is switched on, every path the
// process creates or opens for writing and every connection it makes is noted.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

#define KEPT 256
static atomic_int on;
static atomic_ulong calls;
static atomic_int kept;
static char paths[KEPT][PATH_MAX];

void watch_switch(int v) { on = v; }
unsigned long watch_calls(void) { return calls; }
const char *watch_path(int k) { return k < kept && k < KEPT ? paths[k] : NULL; }

static void note(int dir, const char *p) {
    if (!on || !p) return;
    calls++;
    char full[PATH_MAX] = "";
    if (p[0] != '/') {
        char link[64];
        if (dir == AT_FDCWD) strcpy(link, "/proc/self/cwd"); else snprintf(link, sizeof link, "/proc/self/fd/%d", dir);
        ssize_t n = readlink(link, full, sizeof full - 1);
        if (n < 0) n = 0;
        full[n] = 0;
        strncat(full, "/", sizeof full - strlen(full) - 1);
    }
    strncat(full, p, sizeof full - strlen(full) - 1);
    for (int k = 0; k < kept && k < KEPT; k++) if (!strcmp(paths[k], full)) return;
    int k = kept++;
    if (k < KEPT) strcpy(paths[k], full); else kept = KEPT;
}
#define REAL(type, name, args) static type (*real) args; if (!real) real = (type (*) args)dlsym(RTLD_NEXT, #name)
#define WRITES(f) (((f) & O_ACCMODE) != O_RDONLY || ((f) & (O_CREAT | O_TRUNC)))
#define OPEN(name) int name(const char *p, int f, ...) { \
    REAL(int, name, (const char *, int, ...)); \
    va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); \
    if (WRITES(f)) note(AT_FDCWD, p); \
    return real(p, f, m); }
#define OPENAT(name) int name(int d, const char *p, int f, ...) { \
    REAL(int, name, (int, const char *, int, ...)); \
    va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); \
    if (WRITES(f)) note(d, p); \
    return real(d, p, f, m); }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)
int creat(const char *p, mode_t m) { REAL(int, creat, (const char *, mode_t)); note(AT_FDCWD, p); return real(p, m); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, (const char *, mode_t)); note(AT_FDCWD, p); return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, (int, const char *, mode_t)); note(d, p); return real(d, p, m); }
int mkfifo(const char *p, mode_t m) { REAL(int, mkfifo, (const char *, mode_t)); note(AT_FDCWD, p); return real(p, m); }
int rename(const char *o, const char *p) { REAL(int, rename, (const char *, const char *)); note(AT_FDCWD, p); return real(o, p); }
int renameat(int c, const char *o, int d, const char *p) { REAL(int, renameat, (int, const char *, int, const char *)); note(d, p); return real(c, o, d, p); }
int link(const char *o, const char *p) { REAL(int, link, (const char *, const char *)); note(AT_FDCWD, p); return real(o, p); }
int linkat(int c, const char *o, int d, const char *p, int f) { REAL(int, linkat, (int, const char *, int, const char *, int)); note(d, p); return real(c, o, d, p, f); }
int symlink(const char *o, const char *p) { REAL(int, symlink, (const char *, const char *)); note(AT_FDCWD, p); return real(o, p); }
int shm_open(const char *p, int f, mode_t m) {
    REAL(int, shm_open, (const char *, int, mode_t));
    char full[300]; snprintf(full, sizeof full, "/dev/shm/%s", p[0] == '/' ? p + 1 : p);
    note(AT_FDCWD, full);
    return real(p, f, m);
}
