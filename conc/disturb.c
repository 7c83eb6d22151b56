// Preloaded into a child of the R01 monitor: the clock jumps, and every
// environment variable that is not set has a value, and files that are not
// there can be read.  Answers must not change.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static atomic_ulong clocks, lookups, files;

int clock_gettime(clockid_t id, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(id, t);
    unsigned long n = atomic_fetch_add(&clocks, 1);
    if (r == 0 && id == CLOCK_REALTIME) t->tv_sec += (long)(n % 7) * 900000000L - 1500000000L;  /* -47 … +124 years */
    if (r == 0 && id != CLOCK_REALTIME) t->tv_sec += (long)n * 3600;
    return r;
}
time_t time(time_t *out) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *z) {
    (void)z;
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
char *getenv(const char *name) {
    static char *(*real)(const char *);
    if (!real) real = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    char *v = real(name);
    if (v || !strncmp(name, "RUST", 4) || !strncmp(name, "CONC_", 5) || !strncmp(name, "MALLOC", 6) || !strncmp(name, "LD_", 3)) return v;
    static char *values[] = {"1", "2019-02-03", "tr_TR.UTF-8"};
    return values[atomic_fetch_add(&lookups, 1) % 3];
}
// Files the system itself looks for are left alone.
static int ours(const char *p) {
    static const char *skip[] = {"/proc", "/sys", "/dev", "/etc", "/lib", "/usr", "/opt", "/root/.rustup", ".so", ".debug", ".dwp"};
    for (unsigned i = 0; i < sizeof skip / sizeof *skip; i++)
        if (i < 8 ? !strncmp(p, skip[i], strlen(skip[i])) : strstr(p, skip[i]) != NULL) return 0;
    return 1;
}
static int invented(const char *p, int flags, int r) {
    if (r >= 0 || errno != ENOENT || (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_DIRECTORY)) || !ours(p)) return r;
    static const char *text[] = {"1\n", "2019-02-03\n", "0.5\n"};
    const char *t = text[atomic_fetch_add(&files, 1) % 3];
    int fd = memfd_create("invented", MFD_CLOEXEC);
    if (fd < 0 || write(fd, t, strlen(t)) < 0) return r;
    lseek(fd, 0, SEEK_SET);
    return fd;
}
#define REAL(type, name, args) static type (*real) args; if (!real) real = (type (*) args)dlsym(RTLD_NEXT, #name)
#define MODE mode_t m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int f, ...) { REAL(int, open, (const char *, int, ...)); MODE return invented(p, f, real(p, f, m)); }
int open64(const char *p, int f, ...) { REAL(int, open64, (const char *, int, ...)); MODE return invented(p, f, real(p, f, m)); }
int openat(int d, const char *p, int f, ...) { REAL(int, openat, (int, const char *, int, ...)); MODE return invented(p, f, real(d, p, f, m)); }
int openat64(int d, const char *p, int f, ...) { REAL(int, openat64, (int, const char *, int, ...)); MODE return invented(p, f, real(d, p, f, m)); }
// A file that is not there looks like this program's own.
static int found(const char *p, int r) {
    if (r >= 0 || errno != ENOENT || !p || !*p || !ours(p)) return 0;
    atomic_fetch_add(&files, 1);
    return 1;
}
int statx(int d, const char *restrict p, int f, unsigned mask, struct statx *restrict b) {
    REAL(int, statx, (int, const char *restrict, int, unsigned, struct statx *restrict));
    int r = real(d, p, f, mask, b);
    return found(p, r) ? real(AT_FDCWD, "/proc/self/exe", 0, mask, b) : r;
}
int stat64(const char *restrict p, struct stat64 *restrict b) {
    REAL(int, stat64, (const char *restrict, struct stat64 *restrict));
    int r = real(p, b);
    return found(p, r) ? real("/proc/self/exe", b) : r;
}
int stat(const char *restrict p, struct stat *restrict b) {
    REAL(int, stat, (const char *restrict, struct stat *restrict));
    int r = real(p, b);
    return found(p, r) ? real("/proc/self/exe", b) : r;
}
int access(const char *p, int how) { REAL(int, access, (const char *, int)); int r = real(p, how); return found(p, r) ? 0 : r; }
__attribute__((destructor)) static void done(void) {
    fprintf(stderr, "disturb:clock readings answered with another time=%lu\n", (unsigned long)clocks);
    fprintf(stderr, "disturb:missing files invented=%lu\n", (unsigned long)files);
    fprintf(stderr, "disturb:lookups of unset environment variables answered with a value=%lu\n", (unsigned long)lookups);
}
