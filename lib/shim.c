/* Preloaded into the monitor: makes the surroundings of a process visible and movable.
   SHIM_LOG=<file>: names of environment variables asked for are appended to it.
   SHIM_SHIFT=<seconds>: wall and monotonic clocks are moved by that much.
   SHIM_CPUS=<n>: the process believes it has n processors.
   SHIM_FLIP=1: files that are there seem missing and files that are missing seem to be there
   (empty); paths asked for are logged with a leading '>'. The monitor's own files and the
   process's own entries under /proc are left alone. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

static char *lookup(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}

static long number(const char *name) {
    char *s = lookup(name);
    long x = 0, sign = 1;
    if (!s) return 0;
    if (*s == '-') { sign = -1; s++; }
    while (*s >= '0' && *s <= '9') x = 10 * x + (*s++ - '0');
    return sign * x;
}

static void note(const char *name) {
    char *log = lookup("SHIM_LOG");
    if (!log || !strncmp(name, "SHIM_", 5)) return;
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (fd < 0) return;
    char line[256];
    size_t n = strlen(name);
    if (n > 254) n = 254;
    memcpy(line, name, n);
    line[n] = '\n';
    ssize_t r = write(fd, line, n + 1);
    (void)r;
    syscall(SYS_close, fd);
}

char *getenv(const char *name) {
    note(name);
    return lookup(name);
}
char *secure_getenv(const char *name) {
    note(name);
    return lookup(name);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (!r && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW))
        t->tv_sec += number("SHIM_SHIFT");
    return r;
}
time_t time(time_t *out) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *restrict out, void *restrict zone) {
    struct timespec t;
    (void)zone;
    clock_gettime(CLOCK_REALTIME, &t);
    out->tv_sec = t.tv_sec;
    out->tv_usec = t.tv_nsec / 1000;
    return 0;
}

int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    static int (*real)(pid_t, size_t, cpu_set_t *);
    if (!real) real = (int (*)(pid_t, size_t, cpu_set_t *))dlsym(RTLD_NEXT, "sched_getaffinity");
    int r = real(pid, size, set);
    long n = number("SHIM_CPUS");
    if (!r && n > 0) {
        CPU_ZERO_S(size, set);
        for (long i = 0; i < n; i++) CPU_SET_S(i, size, set);
    }
    return r;
}

/* ---- files */

static int starts(const char *s, const char *with) { return !strncmp(s, with, strlen(with)); }

/* 0: not of interest, 1: as it is, 2: the other way round */
static int asked(const char *path) {
    char line[300];
    char *keep = lookup("SHIM_KEEP");
    if (!path || !*path || (!lookup("SHIM_LOG") && !lookup("SHIM_FLIP"))) return 0;
    if (starts(path, "/proc/self") || starts(path, "/proc/thread-self") || (keep && starts(path, keep)) || starts(path, "/verif/") || starts(path, "/repo/")) return 0;
    line[0] = '>';
    strncpy(line + 1, path, 250);
    line[251] = 0;
    note(line);
    return lookup("SHIM_FLIP") ? 2 : 1;
}

#define REAL(type, name, ...)                          \
    static type (*real)(__VA_ARGS__);                  \
    if (!real) real = (type(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int turn(int r, int flip, int (*fake)(void *), void *out) {
    if (flip != 2) return r;
    if (r < 0) return fake(out);
    errno = ENOENT;
    return -1;
}

static int nothing(void *out) { (void)out; return 0; }
static int empty_file(void *out) { (void)out; return syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC, 0); }
static int plain_file(void *out) {
    struct stat *s = out;
    memset(s, 0, sizeof *s);
    s->st_mode = S_IFREG | 0644;
    s->st_nlink = 1;
    return 0;
}
static int plain_statx(void *out) {
    struct statx *s = out;
    memset(s, 0, sizeof *s);
    s->stx_mask = STATX_BASIC_STATS;
    s->stx_mode = S_IFREG | 0644;
    s->stx_nlink = 1;
    return 0;
}

static int opened(int dir, const char *path, int flags, mode_t mode) {
    int flip = asked(path);
    if (flip == 2 && (flags & (O_CREAT | O_WRONLY | O_RDWR))) flip = 1;
    int r = syscall(SYS_openat, dir, path, flags, mode);
    if (flip == 2 && r >= 0) syscall(SYS_close, r);
    return turn(r, flip, empty_file, 0);
}
#define MODE                                              \
    mode_t mode = 0;                                      \
    if (flags & (O_CREAT | O_TMPFILE)) {                  \
        va_list ap;                                       \
        va_start(ap, flags);                              \
        mode = va_arg(ap, mode_t);                        \
        va_end(ap);                                       \
    }
int open(const char *path, int flags, ...) { MODE return opened(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return opened(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE return opened(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE return opened(dir, path, flags, mode); }

int access(const char *path, int how) {
    int flip = asked(path);
    return turn(syscall(SYS_faccessat, AT_FDCWD, path, how), flip, nothing, 0);
}
int stat(const char *restrict path, struct stat *restrict out) {
    REAL(int, "stat", const char *, struct stat *);
    int flip = asked(path);
    return turn(real(path, out), flip, plain_file, out);
}
int stat64(const char *restrict path, struct stat64 *restrict out) {
    REAL(int, "stat64", const char *, struct stat64 *);
    int flip = asked(path);
    return turn(real(path, out), flip, plain_file, out);
}
int lstat(const char *restrict path, struct stat *restrict out) {
    REAL(int, "lstat", const char *, struct stat *);
    int flip = asked(path);
    return turn(real(path, out), flip, plain_file, out);
}
int lstat64(const char *restrict path, struct stat64 *restrict out) {
    REAL(int, "lstat64", const char *, struct stat64 *);
    int flip = asked(path);
    return turn(real(path, out), flip, plain_file, out);
}
int statx(int dir, const char *restrict path, int flags, unsigned int mask, struct statx *restrict out) {
    int flip = asked(path);
    return turn(syscall(SYS_statx, dir, path, flags, mask, out), flip, plain_statx, out);
}
DIR *opendir(const char *path) {
    REAL(DIR *, "opendir", const char *);
    if (asked(path) == 2) {
        errno = ENOENT;
        return 0;
    }
    return real(path);
}
FILE *fopen(const char *restrict path, const char *restrict how) {
    REAL(FILE *, "fopen", const char *, const char *);
    if (asked(path) == 2 && how[0] == 'r') {
        FILE *f = real(path, how);
        if (!f) return real("/dev/null", how);
        fclose(f);
        errno = ENOENT;
        return 0;
    }
    return real(path, how);
}
