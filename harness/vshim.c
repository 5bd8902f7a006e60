/* Preloaded into the tools under test: makes crashes, clock jumps and thread interleavings happen on demand.
   VSHIM_STEP=seconds      every look at the clock is this much later than the one before
   VSHIM_SNAP=dir          keep a copy of every state file that is installed (dir/0.vis, dir/1.vis, ...)
   VSHIM_MATCH=.vi0:.vis   which paths count for the crash points (suffixes)
   VSHIM_CRASH=n           exit without cleaning up at the n-th operation on such a path (0 = never)
   VSHIM_PART=k            if that operation is a write, let k thousandths of it through first
   VSHIM_LOG=file          one line per counted operation
   VSHIM_DELAY=seed        random delays around the locks */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/uio.h>
#include <sys/syscall.h>

static int crash_at, part;
static const char *match, *snapdir, *logname;
static double step;
static unsigned delay_seed;
static atomic_int ops, snaps, clocks;
static int inited;
static char fdmatch[4096];

static int (*r_rename)(const char *, const char *);
static int (*r_remove)(const char *);
static int (*r_unlink)(const char *);
static FILE *(*r_fopen)(const char *, const char *);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_clock)(clockid_t, struct timespec *);
static int (*r_lock)(pthread_mutex_t *);
static int (*r_unlock)(pthread_mutex_t *);
static int (*r_fclose)(FILE *);

__attribute__((constructor)) static void init(void)
{
    if (inited)
        return;
    inited = 1;
    r_rename = dlsym(RTLD_NEXT, "rename");
    r_remove = dlsym(RTLD_NEXT, "remove");
    r_unlink = dlsym(RTLD_NEXT, "unlink");
    r_fopen = dlsym(RTLD_NEXT, "fopen");
    r_write = dlsym(RTLD_NEXT, "write");
    r_writev = dlsym(RTLD_NEXT, "writev");
    r_clock = dlsym(RTLD_NEXT, "clock_gettime");
    r_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    r_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    r_fclose = dlsym(RTLD_NEXT, "fclose");
    const char *s;
    match = (s = getenv("VSHIM_MATCH")) ? s : ".vi0:.vis";
    crash_at = (s = getenv("VSHIM_CRASH")) ? atoi(s) : 0;
    part = (s = getenv("VSHIM_PART")) ? atoi(s) : 500;
    snapdir = getenv("VSHIM_SNAP");
    logname = getenv("VSHIM_LOG");
    step = (s = getenv("VSHIM_STEP")) ? atof(s) : 0;
    delay_seed = (s = getenv("VSHIM_DELAY")) ? (unsigned)atoi(s) : 0;
}

static int matches(const char *p)
{
    size_t n = strlen(p);
    const char *m = match;
    while (*m) {
        size_t k = strcspn(m, ":");
        if (k && n >= k && !strncmp(p + n - k, m, k))
            return 1;
        m += k;
        if (*m)
            m++;
    }
    return 0;
}

/* counts an operation; returns 1 if the process should end at it */
static int op(const char *what, const char *name)
{
    int n = ++ops;
    if (logname) {
        int fd = open(logname, O_WRONLY | O_APPEND | O_CREAT, 0644);
        if (fd >= 0) {
            char b[600];
            int l = snprintf(b, sizeof b, "%d %s %.500s\n", n, what, name);
            syscall(SYS_write, fd, b, l);
            close(fd);
        }
    }
    return crash_at && n == crash_at;
}

static void die(void)
{
    _exit(137);
}

static FILE *open_common(const char *name, const char *mode)
{
    init();
    int m = matches(name) && (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'));
    if (m && op("open", name))
        die();
    FILE *f = r_fopen(name, mode);
    if (f && fileno(f) < 4096)
        fdmatch[fileno(f)] = m;
    return f;
}
FILE *fopen(const char *name, const char *mode) { return open_common(name, mode); }
FILE *fopen64(const char *name, const char *mode) { return open_common(name, mode); }

ssize_t write(int fd, const void *b, size_t n)
{
    init();
    if (fd >= 0 && fd < 4096 && fdmatch[fd] && op("write", "")) {
        r_write(fd, b, (size_t)((double)n * part / 1000));
        die();
    }
    return r_write(fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    init();
    if (fd >= 0 && fd < 4096 && fdmatch[fd] && op("writev", "")) {
        size_t total = 0;
        for (int i = 0; i < n; i++)
            total += v[i].iov_len;
        size_t left = (size_t)((double)total * part / 1000);
        for (int i = 0; i < n && left; i++) {
            size_t k = v[i].iov_len < left ? v[i].iov_len : left;
            r_write(fd, v[i].iov_base, k);
            left -= k;
        }
        die();
    }
    return r_writev(fd, v, n);
}

int fclose(FILE *f)
{
    init();
    int fd = fileno(f);
    int r = r_fclose(f);
    if (fd >= 0 && fd < 4096)
        fdmatch[fd] = 0;
    return r;
}

static void snapshot(const char *from)
{
    char name[1000], buf[65536];
    snprintf(name, sizeof name, "%s/%d.vis", snapdir, snaps++);
    int a = open(from, O_RDONLY), b = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    ssize_t n;
    if (a >= 0 && b >= 0)
        while ((n = read(a, buf, sizeof buf)) > 0)
            r_write(b, buf, n);
    if (a >= 0)
        close(a);
    if (b >= 0)
        close(b);
}

int rename(const char *a, const char *b)
{
    init();
    if (matches(a) || matches(b)) {
        if (op("rename", b))
            die();
        if (snapdir)
            snapshot(a);
    }
    return r_rename(a, b);
}

int remove(const char *p)
{
    init();
    if (matches(p) && op("remove", p))
        die();
    return r_remove(p);
}

int unlink(const char *p)
{
    init();
    if (matches(p) && op("unlink", p))
        die();
    return r_unlink(p);
}

int clock_gettime(clockid_t c, struct timespec *t)
{
    init();
    int r = r_clock(c, t);
    if (step > 0)
        t->tv_sec += (time_t)(step * ++clocks);
    return r;
}

static void delay(void)
{
    static __thread unsigned s;
    static atomic_uint next;
    if (!delay_seed)
        return;
    if (!s)
        s = delay_seed * 7919u + 104729u * ++next;
    s = s * 1664525u + 1013904223u;
    unsigned k = (s >> 16) % 100;
    if (k < 60)
        return;
    struct timespec t = {0, k < 90 ? (long)((s >> 8) % 50000) : (long)((s >> 8) % 600000)};
    nanosleep(&t, NULL);
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!inited)
        init();
    if (!r_lock)
        return 0;
    delay();
    return r_lock(m);
}

int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!inited)
        init();
    if (!r_unlock)
        return 0;
    int r = r_unlock(m);
    delay();
    return r;
}
