/* A different world around a process: what the environment, the clock, the
 * random source, the file system and the machine answer. Preloaded by the C19
 * check; WORLD names what to change, e.g. "env=1 clock=zero file random=0". */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static const char *conf;
static char answer[256];
static int env_on, clock_on, file_on, random_on, id_on;
static atomic_long n_env, n_clock, n_file, n_random, n_id;

static char *real_getenv(const char *k) {
    size_t n = strlen(k);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}

__attribute__((constructor)) static void start(void) {
    conf = real_getenv("WORLD");
    if (!conf) return;
    const char *p;
    if ((p = strstr(conf, "env="))) {
        env_on = 1;
        sscanf(p + 4, "%255s", answer);
        if (!strcmp(answer, "-")) answer[0] = 0;
    }
    if (strstr(conf, "clock=zero")) clock_on = 1;
    if (strstr(conf, "clock=far")) clock_on = 2;
    if (strstr(conf, "clock=jump")) clock_on = 3;
    if (strstr(conf, "clock=back")) clock_on = 4;
    if (strstr(conf, "file")) file_on = 1;
    if ((p = strstr(conf, "random="))) random_on = 1 + atoi(p + 7);
    if (strstr(conf, "id")) id_on = 1;
}

__attribute__((destructor)) static void end(void) {
    if (conf) fprintf(stderr, "WORLD asked %ld %ld %ld %ld %ld\n", n_env, n_clock, n_file, n_random, n_id);
}

/* What the runtime, the allocator and the harness ask for themselves */
static int own(const char *k) {
    static const char *p[] = {"RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "VH_", "LD_", "GLIBC_", "MALLOC_", "WORLD", "GCONV", "TZ", "LOCPATH"};
    for (size_t i = 0; i < sizeof p / sizeof *p; i++)
        if (!strncmp(k, p[i], strlen(p[i]))) return 1;
    return 0;
}

char *getenv(const char *k) {
    if (own(k)) return real_getenv(k);
    n_env++;
    return env_on ? answer : real_getenv(k);
}
char *secure_getenv(const char *k) { return getenv(k); }

int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    long k = ++n_clock;
    if (c == CLOCK_REALTIME && clock_on == 1) t->tv_sec = t->tv_nsec = 0;
    if (c == CLOCK_REALTIME && clock_on == 2) t->tv_sec += 4000000000L, t->tv_nsec = 999999999;
    if (clock_on == 3) t->tv_sec += 100000 * k;
    if (c == CLOCK_REALTIME && clock_on == 4) t->tv_sec -= 3601 * k;
    return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    struct timespec s;
    int r = clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return r;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}

static int hidden(const char *p) {
    n_file++;
    return file_on && !strstr(p, "c19-world");
}
#define OPEN(name, ...)                                                                   \
    static int (*real)(__VA_ARGS__, ...);                                                  \
    if (!real) *(void **)&real = dlsym(RTLD_NEXT, name);                                   \
    mode_t m = 0;                                                                         \
    if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
    if (hidden(p)) { errno = EACCES; return -1; }
int open(const char *p, int f, ...) { OPEN("open", const char *, int) return real(p, f, m); }
int open64(const char *p, int f, ...) { OPEN("open64", const char *, int) return real(p, f, m); }
int openat(int d, const char *p, int f, ...) { OPEN("openat", int, const char *, int) return real(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { OPEN("openat64", int, const char *, int) return real(d, p, f, m); }

ssize_t getrandom(void *b, size_t n, unsigned f) {
    n_random++;
    if (!random_on) return syscall(SYS_getrandom, b, n, f);
    memset(b, random_on - 1, n);
    return n;
}

pid_t getpid(void) { n_id++; return id_on ? 65537 : syscall(SYS_getpid); }
int sched_getcpu(void) { n_id++; return id_on ? 511 : 0; }
int gethostname(char *b, size_t n) { n_id++; strncpy(b, id_on ? "windows" : "linux", n); return 0; }
